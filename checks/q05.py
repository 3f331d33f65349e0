"""Gradients against the symbolic derivatives of Costs.tla, and slice
derivatives against Evolution.tla."""
import numpy as np

import costs as co
import evo
from costs import rec
from scenes import Scene, err
from qopt import simulator

TOL = 1e-7


def shapes(c):
    out = []
    op = [rec('op'), rec('op', True), rec('op', True, True)]
    st = [rec('state'), rec('state', True), rec('state', True, True), rec('sub')]
    lk = [rec('leak')]
    on = [rec('opn'), rec('opn', True), rec('opn', True, True), rec('opn', neg=True),
          rec('opn', True, neg=True), rec('opn', True, True, True)]
    sup = [rec('sup'), rec('sup', True)]
    for nt in c.pick([1, 2, 3, 4], [1, 2, 3, 4, 5, 6]):
        for nc, nw in c.pick([(1, 1), (2, 2), (2, 1), (1, 3)],
                             [(1, 1), (2, 2), (3, 3), (2, 1), (1, 3), (3, 2)]):
            out.append(co.shape('closed', nt, nc, op + st + lk, nw=nw))
        for ntr in c.pick([1, 3], [1, 2, 3, 4]):
            out.append(co.shape('mc', nt, 2, on, ntr=ntr, no=1 + nt % 2))
            out.append(co.shape('mccn', nt, 2, on[::2], ntr=ntr))
        out.append(co.shape('mccn', nt, 2, on[::3], nw=1, ntr=2))
        out.append(co.shape('mcna', nt, 2, on[:2], ntr=2, no=1))
        for diss, pref, nl in [((), False, 1), (('jump',), False, 2), (('jump',), True, 2),
                               (('sup',), True, 3), (('jump',), True, 3), (('func',), True, 1), (('sup',), False, 1)]:
            out.append(co.shape('lind', nt, 1 + (nt + nl) % 3, sup, nl=nl, diss=diss, pref=pref, dd=pref))
    return out


TFKINDS = ['id', 'over', 'overpad', 'overm', 'conv', 'cat', 'exp', 'parm']


def nx_of(tf, nt):
    npad = 1 if tf == 'overpad' and nt > 3 else 0
    over = 1
    if tf in ('over', 'overpad', 'overm', 'cat', 'exp', 'parm'):
        over = [k for k in (2, 3, 1) if (nt - 2 * npad) % k == 0][0]
    return (nt - 2 * npad) // over


def check(c):
    r = c.np_rng()
    shs = []
    for i, s in enumerate(shapes(c)):
        tf = TFKINDS[i % len(TFKINDS)]
        shs.append(dict(s, nx=nx_of(tf, s['nt']), tfk=tf))
        if c.thorough:
            tf = TFKINDS[(3 * i + 2) % len(TFKINDS)]
            shs.append(dict(s, nx=nx_of(tf, s['nt']), tfk=tf))
    tfs = [s.pop('tfk') for s in shs]
    pays = co.payloads(c, shs)
    pending = []
    for rep in range(c.pick(8, 20)):
        for sh, tf, pay in zip(shs, tfs, pays):
            for p in pay['costs']:
                if c.full:
                    return
                one(c, r, sh, tf, pay, p, pending)
    joint(c, r, pending)
    slices(c, r)


def one(c, r, sh, tf, pay, p, pending):
    opts = dict(tf=tf, pref_w=False, units=bool(r.integers(3) == 0))
    nonlinear = True
    if sh['kind'] != 'lind':
        # only methods whose derivative is exact
        opts['method'] = r.choice(['Frechet', 'spectral', 'default'])
    if sh['kind'] == 'mccn' and sh['nc'] == sh['nw'] and r.integers(3):
        opts['amp'] = 'id'
        nonlinear = False
    sc = co.CostScene(sh, r, p['rec'], **opts)
    s = sc.solver()
    cost = sc.cost(s)
    sim = simulator.Simulator([s], [cost])
    y = sc.y.copy()
    got = sim.wrapped_jac_function(y)
    ip = sc.ip()
    want = sc.want_grad(p, pay['pull'], ip)
    wval = sc.want(p, ip)
    if abs(wval) > 1e4:         # evolutions that grow without bounds
        return
    c.comparisons += want.size
    c.traces += 1
    what = 'gradient of %s' % {k: v for k, v in p['rec'].items()}
    info = dict(scene=sc.describe(), rec=p['rec'], tf=tf, comp=sc.comp, T=sc.T, bra=sc.bra,
                got=got, specified=want)
    if got.shape != (sc.ny, 1, sc.nw):
        c.violation('%s has shape %s' % (what, got.shape), info)
        return
    g = got[:, 0, :]
    # rounding scales with the controls, also where their derivative vanishes
    scale = max(np.abs(want).max(), sc.ku if sc.amp_kind == 'id' else 1.)
    e = np.abs(g - want).max() / scale
    if not e <= TOL:
        known = None
        if sh['kind'] == 'mcna':
            frozen = sc.want_grad(p, pay['pull'], ip, 'frozen')
            if np.abs(g - frozen).max() / scale <= TOL:
                known = 'noise-amplitude-depends-on-controls'
        elif sh['kind'] == 'mccn' and nonlinear:
            # slice derivatives per trace are right, but pulled back through the
            # amplitude function at the noiseless parameters
            if np.abs(g - noiseless_pullback(sc, s, cost)).max() / scale <= TOL:
                known = 'control-noise-nonlinear-amplitude'
        c.violation('%s deviates from the derivative of the cost by %.3g (kind %s, transfer %s, '
                    'amplitude %s, method %s)' % (what, e, sh['kind'], tf, sc.amp_kind, sc.method),
                    info, known_key=known)
    # the cost itself moves along this gradient
    val = sim.wrapped_cost_functions(y)
    c.comparisons += 1
    if not abs(val[0] - wval) <= 1e-8 * max(1., abs(wval)):
        c.violation('the cost %s differs from the specified one by %.3g' % (
            p['rec'], abs(val[0] - sc.want(p, ip))), info)
    if sh['kind'] == 'closed' and len(pending) < 40 and not sc.npad:
        pending.append((sc, s, want, p))
    if len(c.samples) < 3 and c.traces % 37 == 5:
        c.sample(dict(shape={k: str(v) for k, v in sh.items()}, rec=p['rec'], tf=tf,
                      gradient=want))


def noiseless_pullback(sc, s, cost):
    """What the listed finding computes: the average of the per-trace
    derivatives by the (noisy) amplitudes, times the amplitude derivative at
    the noiseless parameters, by central differences of the costs."""
    from qopt.matrix import DenseOperator
    nt, nc = sc.nt, sc.nc
    h = 1e-5 / sc.ku
    du = np.zeros((nt, nc))
    noisy = np.array([[[sc.A(a, sc.w[i] + sc.nz[:, k, i]) for a in range(nc)]
                       for i in range(nt)] for k in range(sc.nz.shape[1])])
    ip = sc.ip()

    def total(us):
        import scipy.linalg as sla
        m = sc.psi
        for i in range(nt):
            hm = sc.h_d[i] + sum(us[i, a] * sc.h_c[a] for a in range(nc))
            m = sla.expm(-1j * sc.dt[i] * hm) @ m
        return m

    def fid(f0, fk):
        def incomp(m):
            if sc.comp is None:
                return m
            t = m[np.ix_(sc.comp, sc.comp)]
            if sc.crec['map']:
                import scipy.linalg as sla
                t = sla.polar(t)[0]
            return t
        t = incomp(f0) if sc.crec['neg'] else sc.T
        return 1 - abs(np.trace(t.conj().T @ incomp(fk))) ** 2 / t.shape[0] ** 2

    for i in range(nt):
        for a in range(nc):
            vals = []
            for sg in (1, -1):
                u0 = sc.u.copy()
                u0[i, a] += sg * h
                f0 = total(u0)
                v = 0
                for k in range(len(noisy)):
                    uk = noisy[k].copy()
                    uk[i, a] += sg * h
                    v += fid(f0, total(uk))
                vals.append(v / len(noisy))
            du[i, a] = (vals[0] - vals[1]) / (2 * h)
    dw = np.array([[sum(du[i, a] * sc.pdA(a, j, sc.w[i]) for a in range(nc))
                    for j in range(sc.nw)] for i in range(nt)])
    return np.einsum('ixj,ij->xj', sc.tm(), dw)


def joint(c, r, pending):
    """Several cost functions (own solvers) in one simulator: columns in order."""
    by = {}
    for item in pending:
        by.setdefault(item[0].y.shape, []).append(item)
    for shape, items in by.items():
        if len(items) < 2:
            continue
        items = items[:4]
        y = items[0][0].y.copy()
        # evaluate all of them at one pulse: compare with the single gradients there
        singles = [simulator.Simulator([s], [sc.cost(s)]).wrapped_jac_function(y)
                   for sc, s, _, _ in items]
        for order in (range(len(items)), reversed(range(len(items)))):
            order = list(order)
            sim = simulator.Simulator([items[i][1] for i in order],
                                      [items[i][0].cost(items[i][1]) for i in order])
            got = sim.wrapped_jac_function(y)
            c.comparisons += 1
            if err(got, np.concatenate([singles[i] for i in order], axis=1)) > 1e-9:
                c.violation('joint gradient is not the gradients of the cost functions in order',
                            dict(order=order))


def slices(c, r):
    """Derivatives of single slices, all kinds, all exact methods, grape."""
    shs = []
    for nt in c.pick([1, 2, 4], [1, 2, 3, 4, 6]):
        for nc in (1, 2, 3):
            shs.append(evo.shape('closed', nt, nc))
            shs.append(evo.shape('mc', nt, nc, ntr=2, no=1))
            shs.append(evo.shape('mccn', nt, nc, ntr=2))
        for diss, pref in [((), False), (('jump',), True), (('sup',), True), (('func',), True),
                           (('jump', 'sup'), True), (('func', 'jump'), True), (('jump',), False)]:
            shs.append(evo.shape('lind', nt, 1 + nt % 2, nl=2, diss=diss, pref=pref, dd=pref))
    pays = evo.payloads(c, shs)
    n = 0
    for rep in range(c.pick(10, 40)):
        for sh, pay in zip(shs, pays):
            if c.full:
                return
            n += 1
            meth = r.choice(['Frechet', 'spectral', 'default']) if sh['kind'] != 'lind' else \
                r.choice(['Frechet', 'default'])
            sc = Scene(sh, r, method=meth, pref_w=False, dim=int(r.choice([5, 7])) if n % 11 == 0
                       and sh['kind'] != 'lind' else None)
            s = sc.solver()
            reads = ['frechet_deriv_propagators', 'propagators', 'forward_propagators']
            if sh['kind'] in ('mc', 'mccn'):
                reads += ['frechet_deriv_propagators_noise', 'propagators_noise']
            evo.compare(c, sc, pay, s, list(r.permutation(reads)), tol=1e-7)
            c.traces += 1
            # the documented first-order approximation
            if sh['kind'] in ('closed', 'mc') and n % 4 == 0:
                s = sc.solver(frechet_deriv_approx_method='grape',
                              calculate_propagator_derivatives=False)
                for a in range(sc.nc):
                    for t in range(sc.nt):
                        want = -1j * sc.dt[t] * sc.h_c[a] @ s.propagators[t].data
                        c.comparisons += 1
                        if err(s.frechet_deriv_propagators[a][t], want) > 1e-9:
                            c.violation('first-order derivative of control %d, slice %d is wrong'
                                        % (a, t), sc.describe())
                        for k in range(sh['ntr']):
                            want = -1j * sc.dt[t] * sc.h_c[a] @ s.propagators_noise[k][t].data
                            if err(s.frechet_deriv_propagators_noise[k][a][t], want) > 1e-9:
                                c.violation('first-order derivative of trace %d, control %d, '
                                            'slice %d is wrong' % (k, a, t), sc.describe())
