"""Master equation against Evolution.tla (kind lind)."""
import numpy as np
import evo
from scenes import DenseOperator, Scene, cmp_nested, err, rand_rho


def check(c):
    r = c.np_rng()
    shapes = []
    for nt in c.pick([1, 2, 3], [1, 2, 3, 5]):
        for nc in (1, 2):
            for nl in (1, 2, 3):
                for diss in [(), ('jump',), ('sup',), ('func',), ('jump', 'sup'),
                             ('func', 'jump'), ('func', 'sup'), ('func', 'jump', 'sup')]:
                    if not diss and nl > 1 or ('func' in diss and nl == 2):
                        continue
                    for pref in ((False, True) if diss else (False,)):
                        shapes.append(evo.shape('lind', nt, nc, nl=nl, diss=diss, pref=pref,
                                                dd=pref and nl % 2 == 1))
    pays = evo.payloads(c, shapes)
    n = 0
    for rep in range(c.pick(20, 300)):
        for sh, pay in zip(shapes, pays):
            if c.full:
                return
            n += 1
            opts = {}
            if n % 4 == 0:
                opts['tf'] = str(r.choice(['over', 'conv', 'cat', 'exp', 'parm', 'overm', 'overpad']))
            opts['units'] = n % 4 == 1
            if n % 23 == 0:
                opts['dim'] = 4
            sc = Scene(sh, r, **opts)
            s = sc.solver()
            reads = list(r.permutation(['propagators', 'forward_propagators', 'reversed_propagators']))
            evo.compare(c, sc, pay, s, reads)
            c.traces += 1
            if n in (5, 50):
                c.sample({'shape': {k: str(v) for k, v in sh.items()}, 'dim': sc.dim, 'y': sc.y})
            d = sc.dim
            # without dissipation: the closed evolution of the density matrix
            if not sh['diss']:
                cl = Scene(dict(sh, kind='closed'), r, dim=d)
                from qopt import solver_algorithms as sa
                s2 = sa.SchroedingerSolver(
                    h_drift=sc.ops(sc.h_d), h_ctrl=sc.ops(sc.h_c), tau=sc.dt,
                    ctrl_amps=np.array(sc.u))
                for p, q in zip(s.propagators, s2.propagators):
                    c.comparisons += 1
                    if err(p.data, np.kron(q.data.conj(), q.data)) > 1e-8:
                        c.violation('without dissipation the propagator is not that of the '
                                    'closed system', sc.describe())
            # physical channel from jump operators
            elif 'func' not in sh['diss'] and 'jump' in sh['diss'] and not (sc.neg and sh['pref']):
                rho = rand_rho(r, d)
                v = rho.T.reshape(-1, 1)
                for p in s.propagators:
                    v = p.data @ v
                    m = v.reshape(d, d).T
                    c.comparisons += 3
                    if abs(np.trace(m) - 1) > 1e-8:
                        c.violation('trace is not preserved', sc.describe())
                    if err(m, m.conj().T) > 1e-8:
                        c.violation('Hermiticity is not preserved', sc.describe())
                    if np.linalg.eigvalsh((m + m.conj().T) / 2).min() < -1e-8:
                        c.violation('positivity is not preserved', sc.describe())
