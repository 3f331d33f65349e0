"""Real qopt objects and matching valuations for the shapes of Evolution.tla.

A Scene draws concrete matrices and numbers for the atoms of a shape, builds
the real solver from them and provides the interpreter for the emitted terms.
"""
import numpy as np
import scipy.linalg as sla

import qv  # noqa: F401  (sets sys.path)
from qopt.matrix import DenseOperator
from qopt import solver_algorithms as sa
from qopt import noise as qnoise
from qopt.amplitude_functions import (CustomAmpFunc, IdentityAmpFunc,
                                      UnaryAnalyticAmpFunc)
from qopt.transfer_function import (IdentityTF, OversamplingTF, OversamplingMTF, ConvolutionTF,
                                    GaussianConvolution, ConcatenateTF, ExponentialMTF,
                                    ParallelMTF)
from terms import Interp


def rand_c(r, n, m=None):
    m = n if m is None else m
    return r.normal(size=(n, m)) + 1j * r.normal(size=(n, m))


def rand_h(r, n, kind=None):
    """Random Hermitian matrix of varied structure."""
    kind = kind or r.choice(['full', 'full', 'diag', 'real', 'imag', 'deg', 'zero', 'low'],
                            p=[.25, .25, .1, .1, .1, .1, .05, .05])
    a = rand_c(r, n)
    a = (a + a.conj().T) / 2
    if kind == 'diag':
        a = np.diag(np.diag(a))
    elif kind == 'real':
        a = a.real + 0j
    elif kind == 'imag':
        a = 1j * a.imag
    elif kind == 'deg':
        q = rand_u(r, n)
        a = q @ np.diag((np.arange(n) // 2).astype(float)) @ q.conj().T
        a = (a + a.conj().T) / 2
    elif kind == 'zero':
        a = 0 * a
    elif kind == 'low':
        v = rand_c(r, n, 1)
        a = v @ v.conj().T
    return a


def rand_u(r, n):
    q, t = np.linalg.qr(rand_c(r, n))
    return q * (np.diag(t) / np.abs(np.diag(t)))


def rand_rho(r, n):
    a = rand_c(r, n)
    a = a @ a.conj().T
    return a / np.trace(a)


def vary(r, a):
    """A variant of the array a (time first) with special structure: the kind
    of values which shortcuts in the code might treat differently."""
    n = len(a)
    kind = r.choice(['bipolar', 'const', 'columns', 'ints', 'sparse', 'zero', 'single',
                     'neg', 'repeat', 'zerocol', 'sorted', 'cancel', 'small'])
    if kind == 'bipolar':          # sums up to exactly zero over time
        a[n - n // 2:] = -a[:n // 2][::-1]
        if n % 2:
            a[n // 2] = 0.
    elif kind == 'const':
        a[:] = a[0]
    elif kind == 'columns':
        a[:] = a[..., :1]
    elif kind == 'ints':
        a[...] = r.integers(-2, 3, size=a.shape)
    elif kind == 'sparse':
        a *= r.integers(0, 3, size=a.shape) == 0
    elif kind == 'zero':
        a *= 0.
    elif kind == 'single':
        i = tuple(r.integers(k) for k in a.shape)
        v = a[i]
        a *= 0.
        a[i] = v
    elif kind == 'neg':
        a[...] = -np.abs(a)
    elif kind == 'repeat':
        a[1::2] = a[0]
    elif kind == 'zerocol':
        a[..., r.integers(a.shape[-1])] = 0.
    elif kind == 'sorted':
        a[...] = np.sort(a, axis=0)[::r.choice([-1, 1])]
    elif kind == 'cancel':         # sums up to exactly zero over the controls
        a[..., -1] = -a[..., 0]
    elif kind == 'small':
        a *= 1e-6
    return kind


class FixedNoise(qnoise.NoiseTraceGenerator):
    """Delivers given arrays, one after the other (the last one for ever)."""

    def __init__(self, arrays, redraw=False):
        a = arrays[0]
        super().__init__(n_samples_per_trace=a.shape[2], n_traces=a.shape[1],
                         n_noise_operators=a.shape[0],
                         always_redraw_samples=redraw)
        self.arrays = arrays
        self.drawn = 0

    def _sample_noise(self):
        self._noise_samples = self.arrays[min(self.drawn, len(self.arrays) - 1)].copy()
        self.drawn += 1


class Scene:
    def __init__(self, shape, r, dim=None, amp=None, drift=None, init=None,
                 method=None, calc=None, tf=None, noise=None, processes=1,
                 scale=1.0, grape=None, pref_w=True, skew=None, tau_kind=None,
                 units=False):
        sh = self.shape = shape
        self.r = r
        self.kind = sh['kind']
        nt, nc, nw = sh['nt'], sh['nc'], sh['nw']
        self.nt, self.nc, self.nw = nt, nc, nw
        lind = self.lind = self.kind == 'lind'
        dims = [1, 2, 2, 3, 4, 5, 6] if not lind else [1, 2, 2, 3]
        self.dim = d = int(dim or r.choice(dims))
        self.sd = d * d if lind else d        # dimension propagated
        # ---- time grid / pulse shaping
        self.tf_kind = tf or 'id'
        self.over = 1
        self.npad = 0
        if self.tf_kind == 'overpad':     # one idle sample before and after
            self.npad = 1 if nt > 3 else 0
        if self.tf_kind in ('over', 'overpad', 'overm', 'cat', 'exp', 'parm'):
            self.over = [k for k in (2, 3, 1) if (nt - 2 * self.npad) % k == 0][0]
        self.ny = (nt - 2 * self.npad) // self.over
        tk = tau_kind or r.choice(['uneq', 'uneq', 'eq', 'zero', 'list', 'dec', 'inc', 'two'])
        self.tau = r.uniform(.1, .9, self.ny) * scale
        if tk == 'eq':
            self.tau[:] = self.tau[0]
        elif tk == 'zero' and self.ny > 1:
            self.tau[r.integers(self.ny)] = 0.
        elif tk == 'dec':
            self.tau = np.sort(self.tau)[::-1].copy()
        elif tk == 'inc':
            self.tau = np.sort(self.tau)
        elif tk == 'two':      # two durations in turn
            self.tau[::2] = self.tau[0]
        if self.tf_kind == 'exp':
            self.tau[:] = self.tau[0] + .05
        self.tau_arg = list(self.tau) if tk == 'list' else self.tau.copy()
        self.dt = np.repeat(self.tau / self.over, self.over)
        if self.npad or self.tf_kind not in ('id', 'over'):
            probe = self.transfer()
            probe.set_times(np.array(self.tau))
            self.dt = np.array(probe.x_times, dtype=float)
        # ---- operators
        self.h_c = [rand_h(r, d) for _ in range(nc)]
        self.drift_kind = drift or r.choice(['list', 'list', 'one', 'op'])
        if nt == 1 and self.drift_kind == 'list':
            self.drift_kind = 'one'
        if self.drift_kind == 'list':
            self.h_d = [rand_h(r, d) for _ in range(nt)]
        else:
            self.h_d = [rand_h(r, d)] * nt
            if r.integers(4) == 0:     # equal drifts in some slices
                self.h_d[1::2] = [self.h_d[0]] * (nt // 2)
        self.h_n = [rand_h(r, d) for _ in range(sh['no'])]
        rel = r.integers(12)           # related operators
        if rel == 0:
            self.h_c[-1] = self.h_c[0].copy()
        elif rel == 1:
            self.h_c[-1] = -self.h_d[0]
        elif rel == 2:
            self.h_c[0] = np.eye(d, dtype=complex)
        elif rel == 3 and self.h_n:
            self.h_n[0] = self.h_c[0].copy()
        ik = init or r.choice(['default', 'id', 'op', 'ket', 'ket'])
        self.init_kind = ik
        if ik in ('default', 'id'):
            self.psi = np.eye(self.sd, dtype=complex)
            if ik == 'id' and r.integers(2):        # close to the identity, but not the identity
                self.psi = sla.expm(-1j * float(r.choice([1e-6, 1e-4])) * rand_h(r, self.sd))
                self.init_kind = 'near'
        elif ik == 'op':
            self.psi = rand_c(r, self.sd)
        elif lind:
            self.psi = rand_rho(r, d).T.reshape(-1, 1)
        else:
            self.psi = rand_c(r, d, 1)
            self.psi /= np.linalg.norm(self.psi)
        # ---- amplitude function A
        if amp is None:
            amp = r.choice(['id', 'unary', 'custom']) if nw == nc else 'custom'
        self.amp_kind = amp
        self.ac = r.normal(size=(nc, nw))
        self.bc = r.normal(size=(nc, nw))
        self.gc = r.normal(size=nc) * .5
        # ---- noise amplitude function NA
        self.na = r.normal(size=(sh['no'], nc)) * .5
        # ---- prefactors
        self.p0 = r.uniform(.05, .4, size=sh['nl'])
        self.pu = r.normal(size=(sh['nl'], nc)) * .4
        # rates may depend on the parameters themselves; where those are the amplitudes
        # their derivative by the amplitudes includes it
        self.total = not pref_w and self.amp_kind == 'id'
        pref_w = pref_w or self.total
        self.pw = r.normal(size=(sh['nl'], nw)) * .4 * (1 if pref_w else 0)
        self.neg = False
        if r.integers(4) == 0:      # rates that vanish or are negative
            k = int(r.integers(sh['nl'])) if sh['nl'] else 0
            if r.integers(2):
                self.p0[k:k + 1], self.pu[k:k + 1], self.pw[k:k + 1] = 0., 0., 0.
            else:
                self.p0[k:k + 1] -= .4
                self.neg = True
        if lind:
            self.L = [rand_c(r, d) * .4 for _ in range(sh['nl'])]
            lk = r.integers(8)
            if lk == 0:
                self.L[-1] = rand_h(r, d) * .4
            elif lk == 1:
                self.L[0] = np.triu(self.L[0], 1)
            elif lk == 2:
                self.L[-1] = self.L[0].copy()
            elif lk == 3:
                self.L = [m.real + 0j for m in self.L]
            if not self.neg and r.integers(4) == 0:      # strong damping
                self.L = [m * float(r.choice([5., 30.])) for m in self.L]
            self.G = [rand_c(r, d * d) * .3 for _ in range(sh['nl'])]
            self.X = [rand_c(r, d * d) * .3 for _ in range(2)]
            self.gf = r.normal(size=(2, nc)) * .5
            self.gw = r.normal(size=(2, nw)) * .5 * (1 if pref_w else 0)
        # ---- solver options
        self.method = method if method is not None else \
            (r.choice(['Frechet', 'spectral', 'approx', 'default'])
             if not lind else r.choice(['Frechet', 'spectral', 'default']))
        self.calc = bool(r.integers(2)) if calc is None else calc
        self.skew = skew
        self.grape = grape
        self.processes = processes
        # ---- noise samples
        self.nz = r.normal(size=(sh['no'], sh['ntr'], nt)) * .7 \
            if self.kind in ('mc', 'mcna', 'mccn') else None
        if self.kind == 'mccn':
            self.nz = r.normal(size=(nw, sh['ntr'], nt)) * .5
        self.noise_flavour = self.y_flavour = ''
        if self.nz is not None and r.integers(2):
            if r.integers(2):
                # (time, operator, trace): structure over time and traces
                v = np.transpose(self.nz, (2, 0, 1)).copy()
                self.noise_flavour = str(vary(r, v))
                self.nz = np.transpose(v, (1, 2, 0)).copy()
            else:
                # (trace, time, operator): structure over traces and operators
                v = np.transpose(self.nz, (1, 2, 0)).copy()
                self.noise_flavour = 'traces ' + str(vary(r, v))
                self.nz = np.transpose(v, (2, 0, 1)).copy()
        self.noise_kind = noise or r.choice(['fixed', 'given'])
        # ---- parameters
        self.y = r.normal(size=(self.ny, nw)) * 1.2
        if r.integers(3) == 0:
            self.y[r.integers(self.ny), r.integers(nw)] = 0.
        elif r.integers(2):
            self.y_flavour = str(vary(r, self.y))
        self.seen = {}
        self.extra = {}
        # ---- units: the same evolution with operators, durations, amplitudes
        # and noise samples of other orders of magnitude
        self.ku = self.kn = 1.
        self.ts = 1.
        if units:
            self.set_units()
        self.pref_w = pref_w

    def set_units(self):
        r = self.r
        if r.integers(2) and self.tf_kind != 'exp':
            s = self.ts = float(r.choice([1e9, 1e4, 1e-3, 1e-8]))
            self.h_c, self.h_n = [s * h for h in self.h_c], [s * h for h in self.h_n]
            same = {id(h): s * h for h in self.h_d}
            self.h_d = [same[id(h)] for h in self.h_d]
            self.tau = self.tau / s
            self.tau_arg = [t / s for t in self.tau_arg] if isinstance(self.tau_arg, list) else self.tau_arg / s
            self.dt = self.dt / s
            if self.lind:
                self.L = [np.sqrt(s) * m for m in self.L]
                self.G, self.X = [s * m for m in self.G], [s * m for m in self.X]
        if r.integers(2) and self.method != 'approx' and not (
                self.amp_kind == 'id' and self.tf_kind in ('overm', 'parm')):   # offsets
            k = self.ku = float(r.choice([1e3, 1e7, 1e9, 1e-6, 1e-9]))
            self.h_c = [k * h for h in self.h_c]
            # everything that depends on the amplitudes
            self.na, self.pu = self.na * k ** 2, self.pu * k
            if self.amp_kind == 'id':
                self.pw = self.pw * k
            if self.lind:
                self.gf = self.gf * k
                if self.amp_kind == 'id':
                    self.gw = self.gw * k
            if self.amp_kind == 'id':
                self.y = self.y / k
                if self.kind == 'mccn':
                    self.nz, self.kn = self.nz / k, k
        if self.lind and self.shape['pref'] and r.integers(2):      # small and large rates
            k = float(r.choice([1e-9, 1e-10, 1e6]))
            self.p0, self.pu, self.pw = self.p0 * k, self.pu * np.sqrt(k), self.pw * np.sqrt(k)
            self.L, self.G = [m / np.sqrt(k) for m in self.L], [m / k for m in self.G]
        if r.integers(2) and self.kind in ('mc', 'mcna'):
            k = self.kn = float(r.choice([1e-6, 1e4, 1e9]))
            self.h_n, self.nz = [k * h for h in self.h_n], self.nz / k

    def describe(self):
        return {k: getattr(self, k) for k in
                ('shape', 'dim', 'tau', 'drift_kind', 'init_kind', 'amp_kind',
                 'tf_kind', 'over', 'method', 'calc', 'noise_kind',
                 'processes', 'ku', 'kn', 'ts', 'y', 'h_c', 'h_d', 'h_n', 'psi', 'nz', 'y_flavour', 'noise_flavour')}

    # ------------------------------------------------ scalar functions
    def A(self, c, w):
        if self.amp_kind == 'id':
            return w[c]
        if self.amp_kind == 'unary':
            return (np.sin(w[c]) + .3 * w[c] ** 2) / self.ku
        return (sum(self.ac[c, j] * w[j] + self.bc[c, j] * np.sin(w[j])
                   for j in range(self.nw)) + self.gc[c] * w[0] * w[-1]) / self.ku

    def pdA(self, c, j, w):
        if self.amp_kind == 'id':
            return float(j == c)
        if self.amp_kind == 'unary':
            return (np.cos(w[c]) + .6 * w[c]) * (j == c) / self.ku
        r = self.ac[c, j] + self.bc[c, j] * np.cos(w[j])
        if j == 0:
            r += self.gc[c] * w[-1]
        if j == self.nw - 1:
            r += self.gc[c] * w[0]
        return r / self.ku

    def NA(self, o, a):
        return a[0] * (1 + sum(self.na[o, c] * a[1 + c] ** 2 for c in range(self.nc)))

    def pdNA(self, o, k, a):
        if k == 0:
            return 1 + sum(self.na[o, c] * a[1 + c] ** 2 for c in range(self.nc))
        return a[0] * 2 * self.na[o, k - 1] * a[k]

    def P(self, l, u, w):
        return self.p0[l] + float(np.dot(self.pu[l], u)) ** 2 + float(np.dot(self.pw[l], w)) ** 2

    def dP(self, l, c, u, w):
        d = 2 * float(np.dot(self.pu[l], u)) * self.pu[l, c]
        return d + self.dPw(l, c, w) if self.total else d

    def dPw(self, l, c, w):
        return 2 * float(np.dot(self.pw[l], w)) * self.pw[l, c]

    def gf_of(self, u, w):
        return sum(np.sin(np.dot(self.gf[k], u) + np.dot(self.gw[k], w)) * self.X[k]
                   for k in range(2))

    def dgf_of(self, u, w, c):
        return self.dgf_part(self.gf + self.gw if self.total else self.gf, u, w, c)

    def dgf_part(self, g, u, w, c):
        return sum(np.cos(np.dot(self.gf[k], u) + np.dot(self.gw[k], w)) * g[k, c] * self.X[k]
                   for k in range(2))

    # ------------------------------------------------ valuation
    def interp(self, y=None, nz=None):
        """Interpreter for parameters y (and noise nz)."""
        y = self.y if y is None else y
        nz = self.nz if nz is None else nz
        w = self.w = self.w_of(y)
        self.u = np.array([[self.A(c, w[i]) for c in range(self.nc)] for i in range(self.nt)])

        def at(name, idx):
            if name in self.extra:
                return self.extra[name]
            if name == 'NAval':        # a noise amplitude held fixed
                return ip.ev(idx[0])
            i = [k - 1 for k in idx]
            if name == 'Hd':
                return self.h_d[i[0]]
            if name == 'Hc':
                return self.h_c[i[0]]
            if name == 'Hn':
                return self.h_n[i[0]]
            if name == 'L':
                return self.L[i[0]]
            if name == 'G':
                return self.G[i[0]]
            if name == 'dGF':
                return self.dgf_of(self.u[i[0]], w[i[0]], i[1])
            if name == 'dP':
                return self.dP(i[2], i[1], self.u[i[0]], w[i[0]])
            if name == 'w':
                return w[i[0], i[1]]
            if name == 'nz':
                return nz[i[0], i[1], i[2]]
            if name == 'dt':
                return self.dt[i[0]]
            if name == 'psi':
                return self.psi
            raise KeyError(name)

        def fun(name, idx, a):
            if name == 'A':
                return self.A(idx[0] - 1, a)
            if name == 'NA':
                return self.NA(idx[0] - 1, a)
            if name == 'P':
                return self.P(idx[0] - 1, a[:self.nc], a[self.nc:])
            if name == 'GF':
                return self.gf_of(np.array(a[:self.nc]), np.array(a[self.nc:]))
            raise KeyError(name)

        def pd(name, idx, k, a):
            if name == 'A':
                return self.pdA(idx[0] - 1, k - 1, a)
            if name == 'NA':
                return self.pdNA(idx[0] - 1, k - 1, a)
            if name == 'P' and k <= self.nc:
                return 2 * float(np.dot(self.pu[idx[0] - 1], a[:self.nc])) * self.pu[idx[0] - 1, k - 1]
            if name == 'P' and not self.pref_w:
                return 0.
            if name == 'P':
                return self.dPw(idx[0] - 1, k - 1 - self.nc, a[self.nc:])
            if name == 'GF' and k <= self.nc:
                return self.dgf_part(self.gf, np.array(a[:self.nc]), np.array(a[self.nc:]), k - 1)
            if name == 'GF' and not self.pref_w:
                return np.zeros((self.sd, self.sd))
            if name == 'GF':
                return self.dgf_part(self.gw, np.array(a[:self.nc]), np.array(a[self.nc:]),
                                     k - 1 - self.nc)
            raise KeyError(name)
        ip = Interp(at, fun, pd, dim=self.dim)
        ip.sdim = self.sd
        return ip

    # ------------------------------------------------ the real solver
    def amp_func(self):
        if self.amp_kind == 'id':
            return None if self.r.integers(2) else IdentityAmpFunc()
        if self.amp_kind == 'unary':
            return UnaryAnalyticAmpFunc(lambda x: (np.sin(x) + .3 * x ** 2) / self.ku,
                                        lambda x: (np.cos(x) + .6 * x) / self.ku)

        def val(x):
            return np.array([[self.A(c, x[i]) for c in range(self.nc)] for i in range(len(x))])

        def der(x):
            return np.array([[[self.pdA(c, j, x[i]) for c in range(self.nc)]
                              for j in range(self.nw)] for i in range(len(x))])
        return CustomAmpFunc(val, der)

    def transfer(self):
        n, o = self.nw, self.over
        if self.tf_kind == 'over':
            return OversamplingTF(num_ctrls=n, oversampling=o)
        if self.tf_kind == 'overpad':
            return OversamplingTF(num_ctrls=n, oversampling=o,
                                  bound_type=('n', self.npad) if self.npad else None)
        if self.tf_kind == 'overm':
            return OversamplingMTF(num_ctrls=n, oversampling=o, offset=.4)
        if self.tf_kind == 'conv':
            return ConvolutionTF(np.array([.2, .5, .4]), num_ctrls=n)
        if self.tf_kind == 'cat':
            return ConcatenateTF(OversamplingTF(num_ctrls=n, oversampling=o),
                                 GaussianConvolution(sigma=.9, num_ctrls=n))
        if self.tf_kind == 'exp':
            return ExponentialMTF(awg_rise_time=.3, oversampling=o, num_ctrls=n)
        if self.tf_kind == 'parm':
            if n == 1:
                return OversamplingMTF(num_ctrls=n, oversampling=o)
            return ParallelMTF(OversamplingMTF(num_ctrls=1, oversampling=o, offset=.2),
                               OversamplingMTF(num_ctrls=n - 1, oversampling=o))
        if self.nw == self.nc and self.r.integers(2):
            return None
        return IdentityTF(num_ctrls=self.nw)

    def w_of(self, y):
        """Transferred parameters (pulse shaping itself is Q06/Q07)."""
        if self.tf_kind in ('id', 'over'):
            return np.repeat(np.asarray(y, dtype=float), self.over, axis=0)
        t = self.transfer()
        t.set_times(np.array(self.tau))
        return np.array(t(np.array(y, dtype=float)))

    def tm(self):
        """Linear part of the pulse shaping: TM[i, x, j] (all stages used here
        act on each control by itself)."""
        z = self.w_of(np.zeros((self.ny, self.nw)))
        out = np.zeros((self.nt, self.ny, self.nw))
        for x in range(self.ny):
            e = np.zeros((self.ny, self.nw))
            e[x] = 1
            out[:, x, :] = self.w_of(e) - z
        return out

    def ops(self, ms):
        return [DenseOperator(m.copy()) for m in ms]

    def solver(self, set_pars=True, **over):
        sh = self.shape
        d = {'list': lambda: self.ops(self.h_d), 'one': lambda: self.ops(self.h_d[:1]),
             'op': lambda: self.ops(self.h_d[:1])[0]}[self.drift_kind]()
        kw = dict(h_drift=d, h_ctrl=self.ops(self.h_c), tau=self.tau_arg,
                  transfer_function=self.transfer(), amplitude_function=self.amp_func())
        if self.init_kind != 'default':
            kw['initial_state'] = DenseOperator(self.psi.copy())
        if self.method != 'default':
            kw['exponential_method'] = str(self.method)
        if self.grape:
            kw['frechet_deriv_approx_method'] = 'grape'
        if self.skew is not None:
            kw['is_skew_hermitian'] = self.skew
        if self.kind == 'lind':
            kw['calculate_unitary_derivatives'] = self.calc
            if 'jump' in sh['diss']:
                kw['lindblad_operators'] = self.ops(self.L)
            if 'sup' in sh['diss']:
                kw['initial_diss_super_op'] = self.ops(self.G)
            elif not sh['diss']:
                kw['initial_diss_super_op'] = self.ops([np.zeros((self.sd, self.sd), complex)])
            if sh['pref']:
                kw['prefactor_function'] = self.prefactors
                if sh['dd']:
                    kw['prefactor_derivative_function'] = self.dprefactors
            if 'func' in sh['diss']:
                kw['super_operator_function'] = self.supfun
                if sh['dd']:
                    kw['super_operator_derivative_function'] = self.dsupfun
            cls = sa.LindbladSolver
        else:
            kw['calculate_propagator_derivatives'] = self.calc
            cls = sa.SchroedingerSolver
        if self.kind in ('mc', 'mcna', 'mccn'):
            kw['noise_trace_generator'] = self.ntg()
            kw['processes'] = self.processes
            if self.kind == 'mccn':
                cls = sa.SchroedingerSMCControlNoise
            else:
                cls = sa.SchroedingerSMonteCarlo
                kw['h_noise'] = self.ops(self.h_n)
                if self.kind == 'mcna':
                    kw['noise_amplitude_function'] = self.noise_amps
        kw.update(over)
        s = cls(**kw)
        if set_pars:
            s.set_optimization_parameters(self.y.copy())
        return s

    def ntg(self):
        if self.noise_kind == 'fixed':
            return FixedNoise([self.nz])
        return qnoise.NTGQuasiStatic(
            standard_deviation=[1.] * len(self.nz), n_samples_per_trace=self.nt,
            n_traces=self.nz.shape[1], noise_samples=self.nz.copy(),
            always_redraw_samples=False, correct_std_for_discrete_sampling=False,
            sampling_mode='monte_carlo')

    def noise_amps(self, noise_samples, optimization_parameters,
                   transferred_parameters, control_amplitudes):
        # (num_t, n_traces, n_noise_operators)
        self.seen = dict(opt=np.copy(optimization_parameters), tr=np.copy(transferred_parameters),
                         u=np.copy(control_amplitudes))
        out = np.zeros(noise_samples.shape)
        nt, ntr, no = noise_samples.shape
        for t in range(nt):
            for k in range(ntr):
                for o in range(no):
                    out[t, k, o] = self.NA(o, [noise_samples[t, k, o]] + list(control_amplitudes[t]))
        return out

    def prefactors(self, u, w):
        return np.array([[self.P(l, u[i], w[i]) for l in range(self.shape['nl'])]
                         for i in range(len(u))])

    def dprefactors(self, u, w):
        return np.array([[[self.dP(l, c, u[i], w[i]) for l in range(self.shape['nl'])]
                          for c in range(self.nc)] for i in range(len(u))])

    def supfun(self, u, w):
        return [DenseOperator(sum(np.sin(np.dot(self.gf[k], u[i]) + np.dot(self.gw[k], w[i])) * self.X[k]
                                  for k in range(2))) for i in range(len(u))]

    def dsupfun(self, u, w):
        return [[DenseOperator(self.dgf_of(u[i], w[i], c)) for c in range(self.nc)]
                for i in range(len(u))]


def err(a, b, floor=1.):
    """Relative deviation of two arrays (inf on shape mismatch / nan)."""
    a = np.asarray(getattr(a, 'data', a) if isinstance(a, DenseOperator) else a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.
    e = np.abs(a - b).max() / max(floor, np.abs(b).max())
    return float(e) if np.isfinite(e) else float('inf')


def cmp_nested(got, terms, ip, path='', floor=1.):
    """Yield (path, deviation, got, want) over nested lists of operators."""
    if terms and isinstance(terms[0], str):
        want = ip(terms)
        if np.ndim(want) == 0:
            want = want * np.eye(ip.sdim)
        yield path, err(got, want, floor), got, want
        return
    if len(got) != len(terms):
        yield path + ' length %d (specified %d)' % (len(got), len(terms)), float('inf'), None, None
        return
    for i, (g, t) in enumerate(zip(got, terms)):
        yield from cmp_nested(g, t, ip, path + '[%d]' % i, floor)
