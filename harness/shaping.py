"""Real shaping stages for the trees of PulseShaping.tla."""
import numpy as np

import qv
from qopt import transfer_function as tf
from terms import Interp

MODES = ['constant', 'nearest', 'wrap', 'reflect', 'mirror']


class Gen:
    """Random trees; node parameters are stored by node number."""

    def __init__(self, r, exp=True):
        self.r = r
        self.node = 0
        self.par = {}
        self.exp = exp
        self.has_exp = False
        self.cust = None
        self.matrix = False

    def new(self):
        self.node += 1
        return self.node

    def bound(self):
        r = self.r
        bt = r.choice(['none', 'none', 'n', 'x', 'right_n'])
        return str(bt), int(r.integers(0 if r.integers(4) == 0 else 1, 4)) if bt != 'none' else 0

    def os(self):
        return int(self.r.choice([1, 2, 3, 4, 5], p=[.25, .3, .25, .1, .1]))

    def leaf_over(self, nc, os=None, b=None, mat=None):
        r = self.r
        os = os or self.os()
        bt, nb = b or self.bound()
        n = self.new()
        mat = bool(r.integers(2)) if mat is None else mat
        off = bool(r.integers(2)) if mat else False
        self.par[n] = dict(cls='overm' if mat else 'over', o=float(r.normal()))
        return ('over', nc, os, bt, nb, n, off)

    def leaf_exp(self, nc, os=None, b=None):
        r = self.r
        os = os or self.os()
        bt, nb = b or self.bound()
        n = self.new()
        self.par[n] = dict(cls='exp', rise=float(r.uniform(.1, 2)), o=float(r.normal()))
        self.has_exp = True
        return ('exp', nc, os, bt, nb, n, bool(r.integers(2)))

    def leaf_conv(self, nc):
        r = self.r
        n = self.new()
        if r.integers(3):
            k = int(r.choice([1, 2, 3, 4, 5, 7]))
            l = 1 if r.integers(3) or nc == 1 else int(r.choice([2, 3]))
            mode = str(r.choice(MODES))
            w = r.normal(size=(k, l))
            self.par[n] = dict(cls='conv', w=w, mode=mode, o1=bool(r.integers(2)),
                               cval=float(r.normal()) if mode == 'constant' else 0.)
            return ('conv', nc, k, l, mode, n)
        sigma = float(r.uniform(.3, 1.6))
        order = int(r.choice([0, 0, 1, 2]))
        trunc = float(r.choice([4., 3., 1.5]))
        mode = str(r.choice(MODES))
        rad = int(trunc * sigma + .5)
        x = np.arange(-rad, rad + 1)
        phi = np.exp(-.5 * (x / sigma) ** 2)
        phi /= phi.sum()
        if order == 1:
            phi = -x / sigma ** 2 * phi
        elif order == 2:
            phi = (x ** 2 / sigma ** 4 - 1 / sigma ** 2) * phi
        self.par[n] = dict(cls='gauss', sigma=sigma, order=order, trunc=trunc, mode=mode,
                           w=phi.reshape(-1, 1), cval=0.)
        return ('conv', nc, 2 * rad + 1, 1, mode, n)

    def leaf_cust(self, nc):
        r = self.r
        n = self.new()
        ny = int(r.integers(1, 6))
        os = self.os()
        bt, nb = self.bound()
        pad = {'none': 0, 'n': 2 * nb, 'x': 2 * nb * os, 'right_n': nb}[bt]
        explicit = bool(r.integers(2))
        nx = ny * os + pad
        self.cust = ny
        self.par[n] = dict(cls='cust', M=r.normal(size=(nx, ny, nc)), o=float(r.normal()),
                           xt=r.uniform(.1, 1, nx))
        return ('cust', nc, nx, ny, bt, nb, n, bool(r.integers(2)), explicit)

    def tree(self, nc, depth, mat=None, first=True):
        r = self.r
        mat = bool(r.integers(2)) if mat is None else mat
        kind = r.choice(['leaf', 'cat', 'par']) if depth else 'leaf'
        if kind == 'par' and nc < 2:
            kind = 'cat'
        if kind == 'cat':
            a = self.tree(nc, depth - 1, mat, first)
            b = self.tree(nc, depth - 1, mat, False)
            n = self.new()
            self.par[n] = dict(mat=mat)
            return ('cat', a, b, n)
        if kind == 'par':
            k = int(r.integers(1, nc))
            os, b = self.os(), self.bound()
            n = self.new()
            self.par[n] = dict(mat=mat)
            if depth > 1 and not mat and r.integers(2):
                # oversampled, then filtered: both parts on the same grid
                parts = []
                for m in (k, nc - k):
                    a = self.simple(m, os, b, mat)
                    if r.integers(2):
                        q = self.new()
                        self.par[q] = dict(mat=False)
                        a = ('cat', a, self.leaf_conv(m), q)
                    parts.append(a)
                return ('par', parts[0], parts[1], n)
            return ('par', self.simple(k, os, b, mat), self.simple(nc - k, os, b, mat), n)
        if mat:
            q = r.integers(5)
            if q == 0 and first and self.cust is None:
                return self.leaf_cust(nc)
            if q <= 2 and self.exp:
                return self.leaf_exp(nc)
            return self.leaf_over(nc, mat=True)
        q = r.integers(6)
        if q == 0:
            n = self.new()
            self.par[n] = dict(cls='id')
            return ('id', nc)
        if q <= 2:
            return self.leaf_conv(nc)
        if q == 3 and self.exp:
            return self.leaf_exp(nc)
        return self.leaf_over(nc)

    def simple(self, nc, os, b, mat):
        r = self.r
        if self.exp and r.integers(3) == 0:
            return self.leaf_exp(nc, os, b)
        return self.leaf_over(nc, os, b, mat=True if mat else None)


def tla(t):
    """Tree as TLA+ tuple, without the numbers of the inner nodes."""
    if t[0] in ('cat', 'par'):
        return '<<"%s", %s, %s>>' % (t[0], tla(t[1]), tla(t[2]))
    return qv._tla_value(tuple(t))


def build(t, par, preset=None):
    """A new real object.  With preset (random generator, grid) some parts of a composed stage
    have been given the grid before they are put together."""
    k = t[0]
    if k == 'id':
        return tf.IdentityTF(num_ctrls=t[1])
    if k in ('over', 'exp'):
        _, nc, os, bt, nb, n, off = t
        p = par[n]
        bound = None if bt == 'none' else (bt, nb)
        if k == 'exp':
            return tf.ExponentialMTF(awg_rise_time=p['rise'], oversampling=os, bound_type=bound,
                                     offset=p['o'] if off else None, num_ctrls=nc)
        if p['cls'] == 'over':
            return tf.OversamplingTF(num_ctrls=nc, oversampling=os, bound_type=bound)
        kw = dict(offset=p['o']) if off else {}
        return tf.OversamplingMTF(num_ctrls=nc, oversampling=os, bound_type=bound, **kw)
    if k == 'conv':
        p = par[t[5]]
        if p['cls'] == 'gauss':
            return tf.GaussianConvolution(sigma=p['sigma'], num_ctrls=t[1], order=p['order'],
                                          mode=p['mode'], truncate=p['trunc'])
        w = p['w'].copy()
        if w.shape[1] == 1 and p['o1']:
            w = w[:, 0]
        return tf.ConvolutionTF(w, mode=p['mode'], num_ctrls=t[1], cval=p['cval'])
    if k == 'cust':
        _, nc, nx, ny, bt, nb, n, off, explicit = t
        p = par[n]
        return tf.CustomMTF(p['M'].copy(), x_times=p['xt'].copy() if explicit else None,
                            bound_type=None if bt == 'none' else (bt, nb),
                            offset=p['o'] if off else None, num_ctrls=nc)
    if preset is None:
        a, b = build(t[1], par), build(t[2], par)
    else:
        r, g = preset
        which = int(r.integers(4)) if k == 'cat' else 2     # parallel parts: one time frame
        a = build(t[1], par, preset)
        b = build(t[2], par, None if k == 'cat' else preset)
        if which:
            a.set_times(g.copy())
        if which > 1:
            b.set_times(np.array(a.x_times) if k == 'cat' else g.copy())
    mat = par[t[3]]['mat']
    if k == 'cat':
        return (tf.ConcatenateMTF if mat else tf.ConcatenateTF)(a, b)
    return (tf.ParallelMTF if mat else tf.ParallelTF)(a, b)


def is_matrix(t, par):
    return t[0] == 'exp' or t[0] == 'cust' or (t[0] == 'over' and par[t[5]]['cls'] == 'overm') \
        or (t[0] in ('cat', 'par') and par[t[3]]['mat'])


def durations(t, par, yt):
    """Rise-time unit of every exponential stage: its own input step."""
    out = {}

    def walk(t, yt):
        if t[0] == 'exp':
            out[t[5]] = (yt[0] / t[2], par[t[5]]['rise'])
        if t[0] == 'cat':
            walk(t[1], yt)
            walk(t[2], grid(t[1], par, yt))
        elif t[0] == 'par':
            walk(t[1], yt)
            walk(t[2], yt)
    walk(t, np.asarray(yt))
    return out


def grid(t, par, yt):
    """First output step is all an exponential stage needs (equal steps)."""
    if t[0] in ('over', 'exp'):
        return np.asarray(yt)[:1] / t[2]
    if t[0] == 'cat':
        return grid(t[2], par, grid(t[1], par, yt))
    if t[0] == 'par':
        return grid(t[1], par, yt)
    if t[0] == 'cust':
        _, nc, nx, ny, bt, nb, n, off, explicit = t
        if explicit:
            return par[n]['xt'][:1]
        os = {'none': nx // ny, 'n': (nx - 2 * nb) // ny, 'x': nx // (ny + 2 * nb),
              'right_n': (nx - nb) // ny}[bt]
        return np.asarray(yt)[:1] / os
    return np.asarray(yt)[:1]


def interp(t, par, y, yt, g=None):
    steps = durations(t, par, yt)

    def at(name, idx):
        i = list(idx)
        if name == 'y':
            return y[i[0] - 1, i[1] - 1]
        if name == 'dt':
            return yt[i[0] - 1]
        if name == 'g':
            return g[i[0] - 1, i[1] - 1]
        p = par[i[0]]
        if name == 'o':
            return p['o']
        if name == 'e':
            dt, rise = steps[i[0]]
            return np.exp(-i[1] * dt / rise)
        if name == 'k':
            return p['w'][i[1] - 1, i[2] - 1]
        if name == 'cval':
            return p['cval']
        if name == 'M':
            return p['M'][i[1] - 1, i[2] - 1, i[3] - 1]
        if name == 'xt':
            return p['xt'][i[1] - 1]
        raise KeyError(name)
    return Interp(at)


def size(t, ny):
    """Number of output samples."""
    if t[0] in ('over', 'exp'):
        pad = {'none': 0, 'n': 2 * t[4], 'x': 2 * t[4] * t[2], 'right_n': t[4]}[t[3]]
        return ny * t[2] + pad
    if t[0] == 'cat':
        return size(t[2], size(t[1], ny))
    if t[0] == 'par':
        return size(t[1], ny)
    if t[0] == 'cust':
        return t[2]
    return ny


def subjects(r, n, depth, limit):
    """n random trees with the grid lengths they are used on."""
    out = []
    units = np.array([1, 1, 1e-9, 1e-12, 1e6])      # times in any unit
    while len(out) < n:
        g = Gen(r)
        nc = int(r.choice([1, 2, 2, 3, 4]))
        t = g.tree(nc, int(r.integers(0, depth + 1)))
        if g.cust:
            lens = [g.cust] * 3
        else:
            lens = [int(x) for x in r.permutation([1, 2, 3, 4, 5, 6])[:3]]
        if max(size(t, l) for l in lens) * nc > limit:
            continue
        if g.has_exp:
            for p in g.par.values():
                if p.get('cls') == 'cust':
                    p['xt'][:] = p['xt'][0]
        unit = float(r.choice(units))
        for p in g.par.values():
            if p.get('cls') == 'cust':
                p['xt'] *= unit
            elif p.get('cls') == 'exp':
                p['rise'] *= unit
        out.append(dict(id=len(out) + 1, unit=unit, tree=t, par=g.par, nc=nc, lens=lens, exp=g.has_exp,
                        matrix=is_matrix(t, g.par)))
    return out


def payloads(c, subs, maxhist=3):
    tla_trees = '<<' + ',\n'.join('[id |-> %d, tree |-> %s, lens |-> %s]' % (
        s['id'], tla(s['tree']), qv._tla_value(s['lens'])) for s in subs) + '>>'
    r = c.tlc('PulseShaping', consts={'Trees': qv.Raw(tla_trees), 'MaxHist': maxhist},
              invariants=['Counts', 'Subdivided', 'PaddingIdle', 'Affine', 'Separate',
                          'EmitShape', 'EmitHist'], workers=4)
    pay, hist = {}, {}
    for m in r.msgs:
        if 'hist' in m:
            hist.setdefault(m['id'], []).append(m['hist'])
        else:
            pay[m['id'], m['g']] = m
    for h in hist.values():
        h.sort()
    return pay, hist
