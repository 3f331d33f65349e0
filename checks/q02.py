"""Closed-system evolution against Evolution.tla (kind "closed")."""
import numpy as np
import evo
from scenes import Scene, err


def check(c):
    sizes = [(nt, nc) for nt in c.pick([1, 2, 3, 5, 8], [1, 2, 3, 4, 5, 6, 8, 12, 16])
             for nc in (1, 2, 3)]
    shapes = [evo.shape('closed', nt, nc, nw) for nt, nc in sizes
              for nw in sorted({nc, 1, 2})]
    pays = evo.payloads(c, shapes)
    r = c.np_rng()
    reps = c.pick(100, 1200)
    n = 0
    for rep in range(reps):
        for sh, pay in zip(shapes, pays):
            if c.full:
                return
            n += 1
            opts = {}
            if n % 3 == 0:
                opts['tf'] = str(r.choice(['over', 'over', 'conv', 'cat', 'exp', 'parm', 'overm', 'overpad']))
            opts['units'] = n % 4 == 0
            if n % 5 == 0:
                opts['dim'] = int(r.choice([5, 6, 8, 9]))
            if n % 7 == 0:
                opts['scale'] = float(r.choice([1e-3, 4.]))
            sc = Scene(sh, r, **opts)
            s = sc.solver()
            reads = list(r.permutation(['propagators', 'forward_propagators',
                                        'reversed_propagators']))
            evo.compare(c, sc, pay, s, reads)
            c.traces += 1
            # consequences named in the property, on the real results
            tot = s.forward_propagators[-1].data
            for k in range(sc.nt + 1):
                e = err(s.reversed_propagators[sc.nt - k].data @ s.forward_propagators[k].data, tot)
                if e > 1e-9:
                    c.violation('reverse(n-%d) forward(%d) is not the total' % (k, k), sc.describe())
            for t, p in enumerate(s.propagators):
                e = err(p.data.conj().T @ p.data, np.eye(sc.dim))
                if e > 1e-9:
                    c.violation('slice propagator %d is not unitary (%.2g)' % (t, e), sc.describe())
            c.comparisons += 2 * sc.nt + 1
            if n in (4, 40):
                c.sample({'shape': sh, 'dim': sc.dim, 'tau': sc.tau, 'y': sc.y,
                          'method': str(sc.method), 'reads': [str(x) for x in reads],
                          'total': tot})
