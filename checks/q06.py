"""Shaping stages on every grid history: values, time grids, padding."""
import numpy as np

import shaping as sh
from qopt import transfer_function as tf

TOL = 1e-9


def grids(r, s):
    return [(np.full(n, r.uniform(.1, 2)) if s['exp'] else r.uniform(.05, 2, n)) * s['unit']
            for n in s['lens']]


def set_grid(r, obj, g):
    """One of the ways a grid can be given."""
    k = r.integers(4)
    if k == 0:
        obj.set_times([float(x) for x in g])
    elif k == 1:
        obj.set_absolute_times(np.concatenate(([0.], np.cumsum(g))) + (1.5 * g[0] if r.integers(2) else 0))
    else:
        obj.set_times(g.copy())


def flavour(r, y):
    """Other memory layouts and single precision."""
    k = r.integers(8)
    if k == 0:
        return y.astype(np.float32)
    if k == 1:
        return np.asfortranarray(y)
    if k == 2:
        return np.repeat(y, 2, axis=0)[::2]
    if k == 3:
        return y[::-1, ::-1].copy()[::-1, ::-1]
    return y


def check_state(c, r, s, obj, pay, y, g, hist, jac=False):
    y = flavour(r, y)
    tol = 1e-5 if y.dtype == np.float32 else TOL
    ip = sh.interp(s['tree'], s['par'], y.astype(float), g)
    want = np.array([[float(ip(t)) for t in row] for row in pay['x']])
    xt = np.array([float(ip(t)) for t in pay['xt']])
    info = dict(tree=s['tree'], par=s['par'], grid=g, y=y, history=hist, specified=want)
    y0 = y.copy()
    got = np.asarray(obj(y))
    c.comparisons += want.size + xt.size
    c.traces += 1
    where = '%s on %d slices (grid history %s)' % (s['tree'], len(g), hist)
    if got.shape != want.shape or not np.abs(got - want).max() <= tol * max(1, np.abs(want).max()):
        c.violation('shaped pulse of %s deviates from the specified one' % where, dict(info, got=got))
    if np.any(y != y0):
        c.violation('shaping changes the parameters it is given: %s' % where, info)
    if obj.num_x != pay['nx'] or np.shape(obj.x_times) != (pay['nx'],):
        c.violation('%s reports %s samples and %s time steps, specified are %d' % (
            where, obj.num_x, np.shape(obj.x_times), pay['nx']), info)
    elif not np.abs(obj.x_times - xt).max() <= TOL * xt.max():
        c.violation('time steps of %s are %s, specified are %s' % (where, obj.x_times, xt), info)
    if tuple(obj.num_padding_elements) != tuple(pay['pad']):
        c.violation('%s reports the padding %s, specified is %s' % (
            where, tuple(obj.num_padding_elements), tuple(pay['pad'])), info)
    if r.integers(3) == 0:          # the same array with another content
        y[...] = r.normal(size=y.shape)
        ip2 = sh.interp(s['tree'], s['par'], y.astype(float), g)
        want2 = np.array([[float(ip2(t)) for t in row] for row in pay['x']])
        got2 = np.asarray(obj(y))
        c.comparisons += want2.size
        if got2.shape != want2.shape or not np.abs(got2 - want2).max() <= tol * max(1, np.abs(want2).max()):
            c.violation('shaped pulse of %s, whose parameters were edited in place, deviates from the '
                        'specified one' % where, dict(info, edited=y, specified=want2, got=got2))
    if s['matrix'] and pay['lin']:
        lin = np.array([[[float(ip(t)) for t in q] for q in row] for row in pay['lin']])
        c.comparisons += lin.size
        m = obj.transfer_matrix
        if m.shape != lin.shape or not np.abs(m - lin).max() <= TOL * max(1, np.abs(lin).max()):
            c.violation('transfer matrix of %s deviates from the specified one' % where,
                        dict(info, got=m, specified=lin))
    return ip, want


def check(c):
    r = c.np_rng()
    for _ in range(c.pick(1, 8)):
        stages(c, r)


def stages(c, r):
    subs = sh.subjects(r, 150, c.pick(2, 3), c.pick(60, 75))
    pay, hist = sh.payloads(c, subs)
    for s in subs:
        hs = hist[s['id']]
        for k in range(c.pick(2, 6)):
            if c.full:
                return
            h = hs[int(r.integers(len(hs)))]
            gs = grids(r, s)
            obj = sh.build(s['tree'], s['par'], (r, gs[h[0] - 1]) if r.integers(2) else None)
            for n, i in enumerate(h):
                if s['tree'][0] == 'cust' and s['tree'][8]:
                    obj.set_times(gs[i - 1].copy())     # explicit steps of the output
                else:
                    set_grid(r, obj, gs[i - 1])
                p = pay[s['id'], i]
                y = r.normal(size=(p['nt'], s['nc'])) * r.choice([1., 10.])
                check_state(c, r, s, obj, p, y, gs[i - 1], h[:n + 1])
                if r.integers(3) == 0:      # once more, other parameters
                    y = r.normal(size=(p['nt'], s['nc']))
                    check_state(c, r, s, obj, p, y, gs[i - 1], h[:n + 1])
            if s['tree'][0] not in ('id',):
                rejects(c, r, s, obj, p)
        if s['id'] % 40 == 1:
            c.sample(dict(tree=s['tree'], lens=s['lens'], x=pay[s['id'], 1]['x'][:2]))


def rejects(c, r, s, obj, p):
    """Pulses that do not fit are refused, not shaped."""
    for bad, exc in [(r.normal(size=(p['nt'] + 1, s['nc'])), IndexError),
                     (r.normal(size=(p['nt'], s['nc'] + 1)), IndexError),
                     (r.normal(size=p['nt']), IndexError),
                     (np.ones((p['nt'], s['nc']), dtype=complex), TypeError)]:
        c.comparisons += 1
        try:
            obj(bad)
            c.violation('%s accepts a pulse of shape %s and type %s' % (
                s['tree'], bad.shape, bad.dtype), dict(tree=s['tree']))
        except exc:
            pass
    try:
        sh.build(s['tree'], s['par'])(r.normal(size=(p['nt'], s['nc'])))
        c.violation('%s can be applied before the times are set' % (s['tree'],))
    except RuntimeError:
        pass
