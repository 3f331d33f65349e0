"""Composition, parallel application and back-propagation of shaping stages;
chain rule of amplitude functions."""
import numpy as np

import shaping as sh
from q06 import flavour, grids
from qopt import amplitude_functions as af
from qopt import transfer_function as tf

TOL = 1e-9


def adjoint(c, r, s, obj, pay, g, h):
    """gradient_chain_rule for several cost columns."""
    nf = int(r.choice([1, 2, 3, 5]))
    y = r.normal(size=(pay['nt'], s['nc']))
    G = r.normal(size=(pay['nx'], nf, s['nc']))
    if r.integers(2):
        obj(y)                     # with or without a preceding call
    G = flavour(r, G)
    tol = 1e-5 if G.dtype == np.float32 else TOL
    G0 = G.copy()
    got = np.asarray(obj.gradient_chain_rule(G))
    want = np.empty((pay['nt'], nf, s['nc']))
    if pay['chain']:
        for f in range(nf):
            ip = sh.interp(s['tree'], s['par'], y, g, G[:, f].astype(float))
            want[:, f] = [[float(ip(t)) for t in row] for row in pay['chain']]
    else:
        ip = sh.interp(s['tree'], s['par'], y, g)
        lin = np.array([[[float(ip(t)) for t in q] for q in row] for row in pay['lin']])
        want = np.einsum('ijk,ifk->jfk', lin, G)
    c.comparisons += want.size
    c.traces += 1
    info = dict(tree=s['tree'], par=s['par'], grid=g, derivatives=G0, history=h, got=got,
                specified=want)
    if got.shape != want.shape or not np.abs(got - want).max() <= tol * max(1, np.abs(want).max()):
        c.violation('back-propagation through %s on %d slices (%d cost columns, grid history %s) '
                    'is not the transposed linear part' % (s['tree'], len(g), nf, h), info)
    if np.any(G != G0):
        c.violation('back-propagation through %s changes the derivatives it is given' % (s['tree'],),
                    info)
    # affine: differences of values and transposition are consistent
    dy = r.normal(size=y.shape)
    lhs = np.einsum('ik,ifk->f', np.asarray(obj(y + dy)) - np.asarray(obj(y)), G)
    rhs = np.einsum('jk,jfk->f', dy, got) if got.shape == want.shape else lhs
    c.comparisons += nf
    if not np.abs(lhs - rhs).max() <= 10 * tol * max(1, np.abs(want).max() * 10):
        c.violation('values and back-propagation of %s disagree' % (s['tree'],), info)


def composition(c, r, s, obj, g):
    """cat: one after the other; par: own block of controls - on the real code."""
    t, par = s['tree'], s['par']
    if t[0] not in ('cat', 'par'):
        return
    a, b = sh.build(t[1], par), sh.build(t[2], par)
    nt = len(g)
    y = r.normal(size=(nt, s['nc']))
    a.set_times(g.copy())
    b.set_times(np.array(a.x_times) if t[0] == 'cat' else g.copy())
    got = np.asarray(obj(y))
    if t[0] == 'cat':
        want = np.asarray(b(np.asarray(a(y))))
        xt = b.x_times
        G = r.normal(size=(obj.num_x, 2, s['nc']))
        gw = a.gradient_chain_rule(b.gradient_chain_rule(G))
    else:
        k = a.num_ctrls
        want = np.concatenate([a(y[:, :k]), b(y[:, k:])], axis=1)
        xt = a.x_times
        G = r.normal(size=(obj.num_x, 2, s['nc']))
        gw = np.concatenate([a.gradient_chain_rule(G[:, :, :k]),
                             b.gradient_chain_rule(G[:, :, k:])], axis=2)
    c.comparisons += want.size + gw.size
    info = dict(tree=t, par=par, grid=g, y=y)
    word = 'one after the other' if t[0] == 'cat' else 'on its own block of controls'
    if got.shape != want.shape or np.abs(got - want).max() > TOL * max(1, np.abs(want).max()):
        c.violation('%s is not its parts applied %s' % (t, word), info)
    if np.shape(obj.x_times) != np.shape(xt) or np.abs(obj.x_times - xt).max() > TOL * np.max(xt):
        c.violation('time steps of %s are not those of its parts' % (t,), info)
    gg = np.asarray(obj.gradient_chain_rule(G))
    if gg.shape != gw.shape or np.abs(gg - gw).max() > TOL * max(1, np.abs(gw).max()):
        c.violation('back-propagation of %s is not that of its parts applied %s' % (t, word), info)


def forms(c, r):
    """Matrix form and functional form of the same stage agree."""
    for i in range(c.pick(40, 400)):
        nc, os = int(r.integers(1, 4)), int(r.integers(1, 5))
        bt = [None, ('n', int(r.integers(0, 3))), ('x', int(r.integers(0, 3))),
              ('right_n', int(r.integers(0, 3)))][i % 4]
        kw = dict(num_ctrls=nc, oversampling=os, bound_type=bt)
        pairs = [(tf.OversamplingTF(**kw), tf.OversamplingMTF(**kw)),
                 (tf.ConcatenateTF(tf.OversamplingTF(**kw), tf.OversamplingTF(num_ctrls=nc, oversampling=2)),
                  tf.ConcatenateMTF(tf.OversamplingMTF(**kw), tf.OversamplingMTF(num_ctrls=nc, oversampling=2))),
                 (tf.ParallelTF(tf.OversamplingTF(**kw), tf.ExponentialMTF(.7, os, bt, num_ctrls=nc)),
                  tf.ParallelMTF(tf.OversamplingMTF(**kw), tf.ExponentialMTF(.7, os, bt, num_ctrls=nc)))]
        for a, b in pairs:
            n = int(r.integers(1, 6))
            g = np.full(n, r.uniform(.1, 1))
            a.set_times(g)
            b.set_times(g)
            m = a.num_ctrls
            y, G = r.normal(size=(n, m)), r.normal(size=(a.num_x, 3, m))
            c.comparisons += 3
            for what, p, q in [('values', a(y), b(y)), ('time steps', a.x_times, b.x_times),
                               ('back-propagation', a.gradient_chain_rule(G), b.gradient_chain_rule(G)),
                               ('padding', np.array(a.num_padding_elements),
                                np.array(b.num_padding_elements))]:
                if np.shape(p) != np.shape(q) or np.abs(np.asarray(p) - q).max() > TOL:
                    c.violation('%s of %s and %s differ' % (what, type(a).__name__, type(b).__name__),
                                dict(kw=kw, grid=g))


UNARY = [(np.sin, np.cos, 'sin'), (lambda x: x ** 2, lambda x: 2 * x, 'square'),
         (np.exp, np.exp, 'exp'), (lambda x: 3, lambda x: 0, 'constant'),
         (lambda x: abs(x), lambda x: 1 if x > 0 else -1, 'abs'),
         (lambda x: 0 if x < 0 else x ** 2, lambda x: 0 if x < 0 else 2 * x, 'ramp')]


def amplitudes(c, r):
    """u(x) pointwise in time; df/dx = df/du du/dx."""
    for i in range(c.pick(200, 2000)):
        nt, nf = int(r.integers(1, 6)), int(r.integers(1, 4))
        kind = ['id', 'unary', 'custom'][i % 3]
        if kind == 'custom':
            npar, nctrl = int(r.integers(1, 5)), int(r.integers(1, 5))
            a, b = r.normal(size=(nctrl, npar)), r.normal(size=(nctrl, npar))

            def val(x):
                return np.sin(x @ a.T) + x ** 2 @ b.T

            def dval(x):
                d = np.cos(x @ a.T)[:, None, :] * a.T[None] + 2 * x[:, :, None] * b.T[None]
                return d
            amp = af.CustomAmpFunc(val, dval)
        else:
            npar = nctrl = int(r.integers(1, 5))
            if kind == 'id':
                amp = af.IdentityAmpFunc()

                def val(x):
                    return x

                def dval(x):
                    return np.repeat(np.eye(npar)[None], len(x), axis=0)
            else:
                f, df, name = UNARY[r.integers(len(UNARY))]
                amp = af.UnaryAnalyticAmpFunc(f, df)

                def val(x):
                    return np.array([[float(f(v)) for v in row] for row in x])

                def dval(x):
                    return np.array([np.diag([float(df(v)) for v in row]) for row in x])
        x = r.normal(size=(nt, npar)) * 2
        G = r.normal(size=(nt, nf, nctrl))
        got, gd = amp(x.copy()), amp.derivative_by_chain_rule(G.copy(), x.copy())
        want = val(x)
        wd = np.einsum('tfc,tpc->tfp', G, dval(x))
        c.comparisons += want.size + wd.size
        info = dict(kind=kind, x=x, G=G, got=gd, specified=wd)
        if got.shape != want.shape or np.abs(got - want).max() > TOL:
            c.violation('amplitudes (%s) deviate from the given function' % kind, info)
        if gd.shape != wd.shape or np.abs(gd - wd).max() > TOL * max(1, np.abs(wd).max()):
            c.violation('amplitude chain rule (%s) deviates' % kind, info)
        # the same array with another content
        xe, ge = x.copy(), G.copy()
        amp(xe), amp.derivative_by_chain_rule(ge, xe)
        xe *= r.choice([.5, -1.])
        xe[0] += r.normal()
        ge[-1] += r.normal()
        w1, w2 = val(xe), np.einsum('tfc,tpc->tfp', ge, dval(xe))
        c.comparisons += 2
        if np.abs(amp(xe) - w1).max() > TOL * max(1, np.abs(w1).max()) or np.abs(
                amp.derivative_by_chain_rule(ge, xe) - w2).max() > TOL * max(1, np.abs(w2).max()):
            c.violation('amplitudes (%s) of an array that was edited in place are those of its former '
                        'content' % kind, info)
        # pointwise in time: another slice does not matter
        if nt > 1:
            x2 = x.copy()
            x2[0] += 1.
            c.comparisons += 1
            if np.abs(amp(x2)[1:] - got[1:]).max() > 0 or np.abs(
                    amp.derivative_by_chain_rule(G, x2)[1:] - gd[1:]).max() > 0:
                c.violation('amplitudes (%s) are not pointwise in time' % kind, info)


def check(c):
    r = c.np_rng()
    for _ in range(c.pick(1, 4)):
        stages(c, r)
    forms(c, r)
    amplitudes(c, r)


def stages(c, r):
    subs = sh.subjects(r, 170, c.pick(3, 4), c.pick(60, 75))
    pay, hist = sh.payloads(c, subs)
    for s in subs:
        hs = hist[s['id']]
        for k in range(c.pick(2, 6)):
            if c.full:
                return
            h = hs[int(r.integers(len(hs)))]
            gs = grids(r, s)
            obj = sh.build(s['tree'], s['par'], (r, gs[h[0] - 1]) if r.integers(2) else None)
            for n, i in enumerate(h):
                obj.set_times(gs[i - 1].copy())
                p = pay[s['id'], i]
                adjoint(c, r, s, obj, p, gs[i - 1], h[:n + 1])
                composition(c, r, s, obj, gs[i - 1])
        if s['id'] % 40 == 1:
            c.sample(dict(tree=s['tree'], lens=s['lens'], lin=pay[s['id'], 1]['lin'][:1]))
