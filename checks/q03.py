"""Monte Carlo evolutions against Evolution.tla (kinds mc, mcna, mccn)."""
import numpy as np
import evo
from scenes import FixedNoise, Scene, err

NOISY = ['propagators_noise', 'forward_propagators_noise', 'reversed_propagators_noise',
         'propagators', 'forward_propagators', 'reversed_propagators']


def check(c):
    r = c.np_rng()
    shapes = []
    for nt in c.pick([1, 2, 3, 5], [1, 2, 3, 4, 5, 8]):
        for ntr in c.pick([1, 2, 3], [1, 2, 3, 5]):
            for no in (1, 2, 3):
                shapes.append(evo.shape('mc', nt, 1 + (nt + ntr) % 2, ntr=ntr, no=no))
            shapes.append(evo.shape('mcna', nt, 1 + nt % 2, ntr=ntr, no=1 + ntr % 2))
            shapes.append(evo.shape('mccn', nt, 1 + ntr % 2, ntr=ntr))
            shapes.append(evo.shape('mccn', nt, 2, 1 + 2 * (ntr % 2), ntr=ntr))
    pays = evo.payloads(c, shapes)
    n = 0
    for rep in range(c.pick(12, 150)):
        for sh, pay in zip(shapes, pays):
            if c.full:
                return
            n += 1
            opts = {}
            if n % 4 == 0:
                opts['tf'] = str(r.choice(['over', 'conv', 'cat', 'exp', 'parm', 'overm', 'overpad']))
            opts['units'] = n % 3 == 0
            if n % 9 == 0:
                opts['dim'] = 5
            if n % (c.pick(31, 11)) == 0:
                opts['processes'] = int(r.choice([2, 3, 4]))
                opts['calc'] = False
            sc = Scene(sh, r, **opts)
            s = sc.solver()
            reads = NOISY + ['frechet_deriv_propagators_noise'] * (opts.get('processes', 1) == 1
                                                                   and sh['kind'] == 'mc'
                                                                   and sc.method != 'approx')
            reads = list(r.permutation(reads))
            ip = sc.interp()
            evo.compare(c, sc, pay, s, reads, ip)
            c.traces += 1
            if sc.kind == 'mcna':
                for k, want in (('opt', sc.y), ('tr', sc.w), ('u', sc.u)):
                    c.comparisons += 1
                    if err(sc.seen[k], want) > 1e-12:
                        c.violation('noise amplitude function received wrong %s' % k, sc.describe())
            if n in (3, 30):
                c.sample({'shape': sh, 'dim': sc.dim, 'noise': sc.nz, 'reads': [str(x) for x in reads]})
            # zero noise: every trace is the noiseless evolution
            if n % 3 == 0:
                nz, sc.nz = sc.nz, np.zeros_like(sc.nz)
                s0 = sc.solver(processes=1)
                for k in range(sh['ntr']):
                    e = err([p.data for p in s0.forward_propagators_noise[k]],
                            [p.data for p in s0.forward_propagators])
                    c.comparisons += 1
                    if e > 1e-9:
                        c.violation('zero noise on trace %d deviates from the noiseless '
                                    'evolution by %.3g' % (k, e), sc.describe())
                sc.nz = nz
            # truncated series: the evolution of each trace by itself
            if n % 4 == 1 and sc.kind == 'mc' and sc.kn == 1.:
                m = ['first_order', 'second_order', 'third_order'][int(r.integers(3))]
                s2 = sc.solver(processes=1, exponential_method=m)
                for k in range(sh['ntr']):
                    u = sc.u
                    for t in range(sc.nt):
                        b = -1j * sc.dt[t] * (sc.h_d[t] + sum(u[t, j] * h for j, h in enumerate(sc.h_c))
                                              + sum(sc.nz[o, k, t] * h for o, h in enumerate(sc.h_n)))
                        want = np.eye(sc.dim) + b
                        if m != 'first_order':
                            want = want + b @ b / 2
                        if m == 'third_order':
                            want = want + b @ b @ b / 6
                        c.comparisons += 1
                        if err(s2.propagators_noise[k][t].data, want) > 1e-9:
                            c.violation('slice %d of trace %d with method %s deviates from the series' % (t, k, m),
                                        sc.describe())
            # redrawn samples: one evaluation refers to one draw
            if n % 5 == 0 and sc.kind != 'mcna':
                draws = [r.normal(size=sc.nz.shape) * .6 / sc.kn for _ in range(8)]
                gen = FixedNoise(draws, redraw=True)
                s1 = sc.solver(noise_trace_generator=gen, processes=1)
                orders = list(r.permutation(reads))
                used = None
                for step in range(2):
                    if step:      # a second evaluation redraws
                        s1.set_optimization_parameters(sc.y + .1)
                        s1.set_optimization_parameters(sc.y)
                    ok = False
                    first = {name: getattr(s1, name) for name in orders}
                    # which draw explains the slice propagators?
                    from scenes import cmp_nested
                    fit = [i for i, dr in enumerate(draws[:gen.drawn])
                           if all(e <= 1e-8 for _, e, _, _ in cmp_nested(
                               first['propagators_noise'], pay['nslices'], sc.interp(nz=dr)))]
                    if fit:
                        ok = True
                        evo.compare(c, sc, pay, s1, orders, sc.interp(nz=draws[fit[-1]]),
                                    what='redrawn noise: ')
                        # (more than one draw fits if the noise has no effect)
                        if len(fit) == 1 and used == fit:
                            c.violation('a new evaluation reuses the old noise of a redrawing '
                                        'generator', sc.describe())
                        used = fit
                    c.traces += 1
                    if not ok:
                        c.violation('noisy propagators correspond to none of the drawn samples',
                                    sc.describe())
                        break
