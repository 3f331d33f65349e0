"""Exponential methods against exact series and the exponential (Exponential.tla)."""
import itertools

import numpy as np
import scipy.linalg as sla

import heap
import qv
import terms
from scenes import rand_c, rand_h, rand_u
from qopt.matrix import DenseOperator

INVS = ['SeriesDerivative', 'Linear', 'Adjoint', 'Extends', 'Along', 'Certificate',
        'NilpotentSeries']
ORDER = {'first_order': 1, 'second_order': 2, 'third_order': 3}


def gz(z):
    return '<<%d, %d>>' % (int(z.real), int(z.imag))


def tla(p):
    return '[id |-> %d, a |-> %s, es |-> <<%s>>, n |-> %s, q |-> %d, p |-> %s, pinv |-> %s, dd |-> <<%s>>]' % (
        p['id'], heap.gmat(p['a']), ', '.join(heap.gmat(e) for e in p['es']), gz(p['n']), p['q'],
        heap.gmat(p['p']), heap.gmat(p['pinv']), ', '.join(gz(z) for z in p['dd']))


TAUS = [(1, 1), (-1, 1), (1j, 1), (1, 2), (-1j, 2), (2 + 1j, 4), (1, 5), (2, 1), (1 - 2j, 3), (0, 1)]


def problem(r, i, a, p=None, pinv=None, dd=(), tau=None):
    d = a.shape[0]
    k = int(r.integers(4))
    e1 = np.zeros((d, d), complex)
    if k == 0:
        e1[r.integers(d), r.integers(d)] = 1
    elif k == 1:
        e1 = heap.rand_g(r, d, d, 1)
        e1 = e1 + e1.conj().T
    else:
        e1 = heap.rand_g(r, d, d, 2)
    e2 = heap.rand_g(r, d, d, 1) if r.integers(4) else np.array(a)
    t = TAUS[int(r.integers(len(TAUS)))] if tau is None else tau
    z = np.zeros((1, 1), complex)
    return dict(id=i, a=np.array(a, complex), es=[e1, e2], n=complex(t[0]), q=t[1],
                p=z if p is None else p, pinv=z if pinv is None else pinv, dd=list(dd))


def unimodular(r, d):
    p = np.eye(d, dtype=int)
    q = np.eye(d, dtype=int)
    for _ in range(2 * d):
        i, j = r.permutation(d)[:2]
        s = int(r.choice([-1, 1]))
        m = np.eye(d, dtype=int)
        m[i, j] = s
        n = np.eye(d, dtype=int)
        n[i, j] = -s
        if np.abs(p @ m).max() > 3 or np.abs(n @ q).max() > 3:
            continue
        p, q = p @ m, n @ q
    return p.astype(complex), q.astype(complex)


def special(r, i):
    """Larger generators of every kind."""
    k = int(r.integers(7))
    d = int(r.choice([1, 2, 3, 4]))
    g = heap.rand_g(r, d, d, 1)
    if k == 0:          # anti-Hermitian
        return problem(r, i, g - g.conj().T)
    if k == 1:          # Hermitian
        return problem(r, i, g + g.conj().T)
    if k == 2:          # repeated eigenvalues, normal
        a = np.diag(r.choice([0, 1, 1j, -1j], d).astype(complex))
        if d > 1 and r.integers(2):
            a = 1j * np.kron(np.eye(2), heap.rand_g(r, 2, 2, 1).real)
            a = a - a.conj().T
        return problem(r, i, a)
    if k == 3 and d > 1:    # non-normal with given eigenvectors, repeated eigenvalues likely
        p, q = unimodular(r, d)
        dd = r.choice(np.array([0, 1, -1, 1j, -1j, 2]), d)
        return problem(r, i, p @ np.diag(dd) @ q, p, q, dd)
    if k == 4 and d > 1:    # nilpotent
        p, q = unimodular(r, d)
        m = np.diag(r.integers(0, 2, d - 1), 1).astype(complex)
        return problem(r, i, p @ m @ q)
    if k == 5 and d > 1:    # strictly upper triangular
        return problem(r, i, np.triu(g, 1))
    return problem(r, i, g)


class Oracle:
    """Values of the calls of one problem, from the table of the specification."""

    def __init__(self, p, t):
        self.p, self.t = p, t
        self.tau = p['n'] / p['q']
        self.E = np.array([])
        if t['nil'] >= 0:
            k = max(1, t['nil'])
            self.exp = heap.num(t['S'][k - 1]['m']) / t['S'][k - 1]['den']
        else:
            self.exp = sla.expm(p['a'] * self.tau)
        self.dexp = []
        for i, e in enumerate(p['es']):
            if t['nil'] in (0, 1):
                self.dexp.append(heap.num(t['DS'][2]['m'][i]) / t['DS'][2]['den'])
            else:
                self.dexp.append(terms.dexpm(p['a'] * self.tau, e * self.tau))

    def value(self, call):
        """(exponential or None, derivative or None, tolerance)."""
        m = call['m']
        if m in ORDER:
            k = ORDER[m] - 1
            ex = heap.num(self.t['S'][k]['m']) / self.t['S'][k]['den']
            de = heap.num(self.t['DS'][k]['m'][call['e'] - 1]) / self.t['DS'][k]['den'] if call['e'] else None
        else:
            ex, de = self.exp, self.dexp[call['e'] - 1] if call['e'] else None
        return ex, de


def close(got, want, tol):
    return np.shape(got) == np.shape(want) and np.all(np.isfinite(got)) and \
        np.abs(got - want).max() <= tol * max(1.0, np.abs(want).max())


def scalar(r, z):
    if z.imag == 0 and r.integers(2):
        return [float, np.float64][r.integers(2)](z.real)
    return [complex, np.complex128][r.integers(2)](z)


def do_call(c, r, op, dirs, call, tau, ex, de, exfull, cond, info, unit=1.):
    """One call on the real operator, compared with the specified values."""
    kw = {}
    if call['m'] != 'spectral' or r.integers(2):
        kw['method'] = call['m']
    if call['skew'] or r.integers(2):
        kw['is_skew_hermitian'] = bool(call['skew'])
    t = scalar(r, tau)
    if tau == 1 and r.integers(2):
        targ = {}
    else:
        targ = {'tau': t}
    what = '%s with method %s' % (call['fn'], call['m'])
    c.actions[what] = c.actions.get(what, 0) + 1
    prop = der = None
    if call['fn'] == 'prop':
        prop = op.prop(**targ)
    elif call['fn'] == 'exp':
        prop = op.exp(**targ, **kw)
    else:
        e = dirs[call['e'] - 1]
        if r.integers(3) == 0:
            e = e.data                      # a plain array as direction
        eps = 1e-10
        if call['m'] == 'approx' and r.integers(2):
            eps = kw['epsilon'] = float(r.choice([1e-6, 1e-7, 1e-9]))
        if call['comp']:
            res = op.dexp(e, compute_expm=True, **targ, **kw)
            if not (type(res) is tuple and len(res) == 2):
                c.violation('%s and compute_expm does not return a pair' % what, info)
                return False
            prop, der = res
        else:
            der = op.dexp(e, **targ, **kw)
    for kind, got, want in (('exponential', prop, ex), ('derivative', der, de)):
        if got is None:
            continue
        c.comparisons += 1
        if type(got) is not DenseOperator:
            c.violation('%s returns a %s as %s' % (what, type(got).__name__, kind), info)
            return False
        tol = 1e-9 * cond
        if kind == 'derivative' and call['m'] == 'approx':
            sc = max(1.0, np.abs(exfull).max(), np.abs(want).max())
            tol = (2e-14 * sc * cond / eps + 10 * eps * sc ** 2) * 5
        size = unit if kind == 'derivative' else 1.     # of the direction
        alt = None
        if kind == 'exponential' and call['fn'] == 'dexp' and call['m'] in ORDER:
            alt = exfull        # dexp delivers the exact exponential alongside
        if not close(got.data / size, want / size, tol) and (alt is None or not close(got.data, alt, tol)):
            c.violation('the %s delivered by %s%s is wrong' % (
                kind, what, ' (skew-Hermitian flag)' if call['skew'] else ''),
                dict(info, call=call, got=got.data, specified=want))
            return False
        got.data[:] = 7.25      # results belong to the caller
    return True


def replay(c, r, p, orc, calls, cond):
    a = p['a'].copy()
    op = DenseOperator(heap.layout(r, a))
    dirs = [DenseOperator(heap.layout(r, e)) for e in p['es']]
    info = dict(a=p['a'], directions=p['es'], tau=[p['n'], p['q']],
                calls=['%s %s' % (x['fn'], x['m']) for x in calls])
    for call in calls:
        ex, de = orc.value(call)
        if not do_call(c, r, op, dirs, call, orc.tau, ex, de, orc.exp, cond, info):
            return False
        c.comparisons += 1
        if np.any(op.data != p['a']) or any(np.any(x.data != e) for x, e in zip(dirs, p['es'])):
            c.violation('%s with method %s changed the operator or the direction' % (call['fn'], call['m']),
                        dict(info, call=call, after=op.data))
            return False
    c.traces += 1
    return True


def conditioning(p, t):
    if not t['skew']:
        a = p['a']
        if np.allclose(a @ a.conj().T, a.conj().T @ a):
            return 10.
        # without usable eigenvectors another method has to be used
        return min(max(10., np.linalg.cond(np.linalg.eig(a)[1]) ** 2), 1e6)
    return 10.


def floats(c, r):
    """The terms of the specification on random real and complex problems: larger
    dimensions, Liouvillians, (nearly) repeated eigenvalues."""
    for i in range(c.pick(500, 6000)):
        k = int(r.integers(10))
        d = int(r.choice([1, 2, 3, 4, 6, 9, 12]))
        skew = False
        if k == 0:
            a = -1j * rand_h(r, d)
            skew = True
        elif k == 1:
            u = rand_u(r, d)
            lam = r.choice(r.normal(size=2), d)
            a = -1j * (u * lam) @ u.conj().T
            skew = True
        elif k == 2:    # nearly repeated eigenvalues
            u = rand_u(r, d)
            lam = r.choice(r.normal(size=2), d) + 10.0 ** -r.integers(4, 15) * r.normal(size=d)
            a = -1j * (u * lam) @ u.conj().T
            skew = True
        elif k == 3:
            a = rand_h(r, d)
        elif k == 4:
            a = rand_c(r, d)
        elif k == 5:    # Liouvillian
            n = int(r.choice([2, 3]))
            h = rand_h(r, n)
            eye = np.eye(n)
            a = -1j * (np.kron(eye, h) - np.kron(h.T, eye))
            l = rand_c(r, n)
            a = a + r.choice([.3, .3, 10, 100, 1500]) * (np.kron(l.conj(), l) - .5 * np.kron(eye, l.conj().T @ l)
                          - .5 * np.kron((l.conj().T @ l).T, eye))
        elif k == 6:
            a = np.zeros((d, d), complex)
        elif k == 7:
            a = np.diag(r.choice([1., 2.], d)) * 1j
            skew = True
        elif k == 9:    # repeated eigenvalues and (nearly) missing eigenvectors
            v = rand_c(r, d)
            j = np.diag(r.choice(r.normal(size=2) + 1j * r.normal(size=2), d))
            j = j + np.diag(r.choice([0, 0, 1e-9, 1e-4, 1], d - 1) if d > 1 else [], 1)
            a = v @ j @ np.linalg.inv(v)
            a = a / max(1., np.abs(a).max() / 3)
        else:
            a = rand_c(r, d).real + 0j
        d = a.shape[0]
        e = [rand_c(r, d), rand_h(r, d), -1j * rand_h(r, d), np.eye(d) + 0j, a.copy()][int(r.integers(5))]
        tau = complex([.1, 1., -.4, .7j, .3 - .2j, 1e-3, 2.][int(r.integers(7))])
        strong = False
        if not skew:      # keep the growth moderate, not the damping
            ev = (np.linalg.eigvals(a) * tau).real
            if k in (3, 4, 8) and r.integers(3) == 0:
                shift = ev.max() + r.choice([0., 1., 30.])
                a = a - shift / tau * np.eye(d)
                tau *= float(r.choice([1., 20., 300.]))
                ev = (np.linalg.eigvals(a) * tau).real
            if ev.max() > 3:
                tau *= 3 / ev.max()
                ev *= 3 / ev.max()
            strong = np.ptp(ev) > 4
        if r.integers(3) == 0:      # other units
            unit = float(r.choice([1e-12, 1e-7, 1e5, 1e9, 1e12, 1e15]))
            a, e, tau = a / unit, e / unit, tau * unit
        small = float(r.choice([1, 1, 1e-6, 1e-12, 1e8]))      # the derivative is linear
        e = e * small
        orc_exp = sla.expm(a * tau)
        orc_d = terms.dexpm(a * tau, e * tau)
        w = np.linalg.eig(a)[1]
        cond = min(max(10., np.linalg.cond(w) ** 2), 1e6) if not skew else 10.
        p = dict(a=a, es=[e, e], n=tau, q=1, dd=[])
        op, dirs = DenseOperator(a.copy()), [DenseOperator(e.copy())] * 2
        info = dict(a=a, direction=e, tau=tau)
        b = a * tau
        f = e * tau
        S = [np.eye(d) + b, np.eye(d) + b + b @ b / 2, np.eye(d) + b + b @ b / 2 + b @ b @ b / 6]
        DS = [f, f + (b @ f + f @ b) / 2, f + (b @ f + f @ b) / 2 + (b @ b @ f + b @ f @ b + f @ b @ b) / 6]
        for m in ('spectral', 'spectral-skew', 'Frechet', 'approx') + tuple(ORDER):
            call = dict(m=m.split('-')[0], skew=m.endswith('skew'), e=1, comp=bool(r.integers(2)),
                        fn=['exp', 'dexp', 'dexp'][int(r.integers(3))])
            if call['skew'] and not skew:
                continue
            if call['m'] == 'approx' and (strong or small != 1):
                continue
            if call['m'] in ORDER:
                ex, de = S[ORDER[m] - 1], DS[ORDER[m] - 1]
            else:
                ex, de = orc_exp, orc_d
            if not do_call(c, r, op, dirs, call, tau, ex, de, orc_exp, cond, info, small):
                break
            if np.any(op.data != a) or np.any(dirs[0].data != e):
                c.violation('%s with method %s changed the operator or the direction' % (call['fn'], m), info)
                break
        if c.full:
            return


def check(c):
    r = c.np_rng()
    small = []
    # every 2x2 matrix over a small set (thorough), a part of them (quick)
    for x in itertools.product([0, 1, -1, 1j, -1j], repeat=4):
        small.append(np.array(x, complex).reshape(2, 2))
    if not c.thorough:
        small = [small[i] for i in sorted(r.permutation(len(small))[:260])]
    probs = [problem(r, i, a) for i, a in enumerate(small)]
    probs += [special(r, len(probs) + i) for i in range(c.pick(300, 3000))]
    by = {p['id']: p for p in probs}
    tables, calls = {}, {}
    for k in range(0, len(probs), 700):
        raw = qv.Raw('{' + ',\n'.join(tla(p) for p in probs[k:k + 700]) + '}')
        res = c.tlc('Exponential', consts={'Problems': raw, 'MaxLen': 0},
                    invariants=INVS + ['EmitTable', 'EmitCalls'], workers=4)
        for m in res.msgs:
            if 'S' in m:
                tables[m['id']] = m
            else:
                calls[m['id']] = m['calls']
    orcs, conds = {}, {}
    for i in sorted(tables):
        orcs[i] = Oracle(by[i], tables[i])
        conds[i] = conditioning(by[i], tables[i])
        todo = sorted(calls[i], key=str)
        if not replay(c, r, by[i], orcs[i], [todo[j] for j in r.permutation(len(todo))], conds[i]) and c.full:
            return
    # histories with repetitions, in the order TLC chooses
    some = [by[i] for i in sorted(by)[::c.pick(12, 6)]]
    res = c.tlc('Exponential', consts={'Problems': qv.Raw('{' + ',\n'.join(tla(p) for p in some) + '}'),
                                       'MaxLen': 14},
                invariants=['EmitLog'], simulate=c.pick(250, 3000), depth=15, seed=c.seed)
    seen = {}
    for m in res.msgs:      # TLC prints every last step of a walk: keep one in eight
        seen.setdefault(repr((m['id'], m['log'][:-1])), []).append(m)
    for m in [x for k in sorted(seen) for x in seen[k][::8]]:
        if c.full:
            return
        replay(c, r, by[m['id']], orcs[m['id']], m['log'], conds[m['id']])
        c.sample(dict(a=by[m['id']]['a'], log=[x['fn'] + ' ' + x['m'] for x in m['log']]))
    floats(c, r)
    c.comparisons += 2
    for f in (lambda: DenseOperator(np.eye(2)).exp(method='none'),
              lambda: DenseOperator(np.eye(2)).dexp(DenseOperator(np.eye(2)), method='none')):
        try:
            f()
        except (ValueError, NotImplementedError, TypeError):
            continue
        c.violation('an unknown method is accepted')
