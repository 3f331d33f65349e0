"""Filter-function costs: histories of PulseDescription.tla on real solvers,
answers from the terms of FilterFunction.tla."""
import contextlib
import copy
import io

import numpy as np
import qutip

from filter_functions.basis import Basis
from qopt import cost_functions as cf, solver_algorithms as sa, noise as qn, transfer_function as tfm
from qopt.amplitude_functions import CustomAmpFunc, UnaryAnalyticAmpFunc, IdentityAmpFunc
from qopt.matrix import DenseOperator
from scenes import rand_h, vary
from terms import Interp, freeze

TOL = 1e-8


def err(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    s = max(1e-12, np.max(np.abs(b), initial=0.))
    return float(np.max(np.abs(a - b), initial=0.) / s)


class Scene:
    """Settings, the real objects, and valuations of the terms."""
    def __init__(self, r, payloads, nt, nc, kind):
        self.r, self.payloads, self.nc = r, payloads, nc
        d = self.dim = int(r.choice([2, 2, 3, 4])) if nc < 5 else 2
        self.over = 2 if nt % 2 == 0 and r.integers(3) == 0 else 1
        self.grids = [nt // self.over] * 2 if kind == 'list' or r.integers(2) else [
            nt // self.over, max(1, nt // self.over - 1)]
        self.taus = [r.uniform(.2, .8, n) for n in self.grids]
        if r.integers(3) == 0:
            self.taus[0][:] = self.taus[0][0]
        self.hc = [rand_h(r, d, 'full' if r.integers(3) else None) for _ in range(nc)]
        # the gradient of the filter_functions package is only meant for
        # traceless controls
        self.traceless = bool(r.integers(3))
        if self.traceless:
            self.hc = [h - np.trace(h) / d * np.eye(d) for h in self.hc]
        self.drift = r.choice(['zero', 'const', 'steps'])
        if self.grids[0] != self.grids[1] and self.drift == 'steps':
            self.drift = 'const'
        hd = [rand_h(r, d) for _ in range(self.grids[0] * self.over)]
        self.hd = [0 * hd[0]] if self.drift == 'zero' else hd[:1] if self.drift == 'const' else hd
        self.amp = str(r.choice(['id', 'id', 'sq', 'mix', 'even']))
        self.kind = kind                       # list, fun, funold, none
        self.no = 1 if kind == 'none' else int(r.integers(1, 4)) if r.integers(6) else 11
        self.ids = [['z', 'B 10', 'B 2', 'b', 'A', 'Control0', 'y', 'x', 'B 1', 'q', 'C'][i]
                    for i in r.permutation(11)[:self.no]]
        self.B = []
        for _ in range(self.no):
            b = rand_h(r, d, 'full' if r.integers(3) else 'diag')
            self.B.append(b - np.trace(b) / d * np.eye(d))
        self.coef = r.normal(size=(self.no, 3)) * .5 + [1., 0, 0]
        self.consts = r.uniform(.5, 1.5, (self.no, self.grids[0] * self.over))
        self.uses = str(r.choice(['u', 'u', 'x', 'y'])) if kind == 'fun' else 'u'
        if self.amp == 'even' and kind == 'fun' and r.integers(3):
            self.uses = str(r.choice(['x', 'y']))
        # terms are listed in an order that depends on the current values
        self.opkind = int(r.integers(3))
        self.turns = kind in ('fun', 'funold') and self.no > 1 and bool(r.integers(2))
        self.deriv = kind in ('fun', 'funold') and self.uses == 'u' and bool(r.integers(4))
        self.old_deriv = bool(r.integers(2)) if kind == 'funold' else False
        self.pulses, lens = [], []
        for k in range(4):
            n = self.grids[k % 2]
            y = r.normal(size=(n, nc)) * 1.5
            if r.integers(2):
                vary(r, y)
            self.pulses.append(y)
        if self.grids[0] == self.grids[1] and r.integers(2):     # nearly the same
            self.pulses[3] = self.pulses[2] + 1e-6 * r.normal(size=self.pulses[2].shape)
        if self.amp == 'even':     # equal amplitudes, different parameters
            self.pulses[2] = -self.pulses[0]
            if r.integers(2):
                self.pulses[3] = self.pulses[1] * np.where(np.arange(nc) % 2, 1, -1)
        self.lens = [len(y) for y in self.pulses]
        # cost functions: frequencies and spectra
        self.costs = []
        for _ in range(3):
            om = [None, None, None, 'few', 'list', 'two', 'few', 'list'][int(r.integers(8))]
            if om == 'few':
                om = np.sort(r.uniform(-9, 9, 5))
            elif om == 'list':
                om = [float(x) for x in np.sort(r.uniform(0, 30, 4))]
            elif om == 'two':
                om = np.sort(r.uniform(-30, 30, int(r.integers(2, 9))))
            per = bool(r.integers(2))
            w = r.uniform(.2, 2., self.no if per else 1)
            p = float(r.choice([0., 1., 2.]))
            self.costs.append((om, per, w, p))
        self.basis = None if r.integers(2) else self.bases()[int(r.integers(3)) - 1]
        self.solver_kind = str(r.choice(['closed', 'closed', 'mc', 'mccn', 'lind']))
        self.shown = kind != 'none'
        if kind == 'none' and self.solver_kind in ('mc', 'mccn'):
            # the noise operators of the solver with susceptibility one
            if self.solver_kind == 'mc':
                self.no = int(r.integers(1, 4)) if r.integers(4) else 12
                self.B = [b - np.trace(b) / d * np.eye(d) for b in (rand_h(r, d, 'full') for _ in range(self.no))]
            else:
                self.hc = [h - np.trace(h) / d * np.eye(d) for h in self.hc]
                self.no, self.B, self.traceless = nc, self.hc, True
            self.kind = 'own'
            self.ids = ['Noise%d' % n for n in range(self.no)]
            self.costs = [(om, per, r.uniform(.2, 2., self.no if per else 1), q) for om, per, w, q in self.costs]
            self.shown = True

    def bases(self):
        if not hasattr(self, '_bases'):
            self._bases = self.new_bases()
        return self._bases

    def new_bases(self):
        """A traceless basis, and one that is not traceless."""
        q, _ = np.linalg.qr(self.r.normal(size=(self.dim ** 2,) * 2))
        g = np.array(Basis.ggm(self.dim))
        mixed = np.einsum('ij,jab->iab', q, g)
        return [Basis.ggm(self.dim), Basis(mixed, traceless=False), None]

    # -- what the user writes ------------------------------------------------
    def suscept(self, n, u):
        c = self.coef[n]
        return c[0] + c[1] * u[..., 0] + c[2] * u[..., 0] * u[..., -1]

    def dsuscept(self, n, u, j):
        c = self.coef[n]
        d = 0. * u[..., 0]
        if j == 0:
            d = d + c[1] + c[2] * u[..., -1]
        if j == u.shape[-1] - 1:
            d = d + c[2] * u[..., 0]
        return d

    def order(self, v):
        """The terms in the order they are listed at the values v."""
        o = list(range(self.no))
        return o[::-1] if self.turns and v is not None and v[0, 0] > 0 else o

    def op(self, m, k):
        return [m.copy(), DenseOperator(m), qutip.Qobj(m)][(k + self.opkind) % 3]

    def h_n(self):
        if self.kind in ('none', 'own'):
            return None
        if self.kind == 'list':
            return [[self.op(b, n), self.consts[n].copy(), self.ids[n]] for n, b in enumerate(self.B)]

        def terms(v):
            return [[self.op(self.B[n], n), self.suscept(n, v), self.ids[n]] for n in self.order(v)]
        if self.kind == 'funold':
            return lambda ctrl_amps: terms(ctrl_amps)
        pick = {'y': 0, 'x': 1, 'u': 2}[self.uses]

        def new(opt_pars, transferred, ctrl_amps):
            v = (opt_pars, transferred, ctrl_amps)[pick]
            if pick == 0 and len(v) != len(ctrl_amps):
                v = np.repeat(v, self.over, axis=0)
            return terms(v)
        return new

    def deriv_fun(self):
        if not self.deriv:
            return None

        def vals(u):
            return np.array([[self.dsuscept(n, u, j) for j in range(self.nc)] for n in self.order(u)])
        if self.old_deriv:
            return lambda ctrl_amps: vals(ctrl_amps)
        return lambda y, x, u: vals(u)

    def amplitudes(self, x):
        if self.amp == 'even':
            return x * x - .4
        if self.amp == 'sq':
            return .3 * x * x + x
        if self.amp == 'mix':
            return np.stack([x @ (1. + np.arange(self.nc) % 3) * .5] + [x[:, j] - .2 * x[:, 0] * x[:, j]
                                                                     for j in range(1, self.nc)], axis=1)
        return x

    def build(self, grid):
        r = self.r
        kw = dict(h_ctrl=[DenseOperator(h) for h in self.hc], h_drift=[DenseOperator(h) for h in self.hd],
                  tau=self.taus[grid].copy(), filter_function_h_n=self.h_n(), filter_function_basis=self.basis,
                  filter_function_n_coeffs_deriv=self.deriv_fun(),
                  transfer_function=tfm.OversamplingTF(oversampling=self.over, num_ctrls=self.nc)
                  if self.over > 1 else None,
                  amplitude_function=None if self.amp == 'id' else CustomAmpFunc(
                      value_function=self.amplitudes, derivative_function=None))
        if len(self.hd) == 1 and r.integers(2):
            kw['h_drift'] = kw['h_drift'][0]
        if self.solver_kind == 'mc':
            s = sa.SchroedingerSMonteCarlo(
                h_noise=[DenseOperator(b) for b in (self.B if self.kind == 'own' else self.hc[:1])], noise_trace_generator=qn.NTGQuasiStatic(
                    standard_deviation=[.1] * (self.no if self.kind == 'own' else 1),
                    n_samples_per_trace=len(self.taus[grid]) * self.over, n_traces=2), **kw)
        elif self.solver_kind == 'mccn':
            s = sa.SchroedingerSMCControlNoise(noise_trace_generator=qn.NTGQuasiStatic(
                standard_deviation=[.1] * self.nc, n_samples_per_trace=len(self.taus[grid]) * self.over, n_traces=2), **kw)
        elif self.solver_kind == 'lind':
            z = DenseOperator(np.zeros((self.dim, self.dim), complex))
            s = sa.LindbladSolver(lindblad_operators=[z], **kw)
        else:
            s = sa.SchroedingerSolver(exponential_method=str(r.choice(['Frechet', 'spectral'])), **kw)
        fs = []
        for om, per, w, p in self.costs:
            fs.append(cf.OperatorFilterFunctionInfidelity(
                s, self.psd(per, w, p), om, label=['%d' % k for k in range(self.no)]))
        return s, fs

    def psd(self, per, w, p):
        def spectrum(omega):
            shape = 1. / (1. + np.abs(np.asarray(omega))) ** p
            return w[:, None] * shape if per else w[0] * shape
        return spectrum

    # -- what the specification says -----------------------------------------
    def value(self, p, t):
        y = self.pulses[p - 1]
        x = np.repeat(y, self.over, axis=0)
        u = self.amplitudes(x)
        dt = np.repeat(self.taus[t - 1] / self.over, self.over)
        return y, x, u, dt

    def strength(self, n, y, x, u):
        if self.kind == 'none':
            return 0. * u[:, 0]
        if self.kind == 'own':
            return 1. + 0. * u[:, 0]
        if self.kind == 'list':
            return self.consts[n][:len(u)]
        return self.suscept(n, self.seen(y, x, u))

    def seen(self, y, x, u):
        return {'y': np.repeat(y, self.over, axis=0), 'x': x, 'u': u}[self.uses]

    def interp(self, p, t, n, om, s):
        y, x, u, dt = self.value(p, t)
        hd = self.hd * len(dt) if len(self.hd) == 1 else self.hd
        st = self.strength(n, y, x, u)
        B = 0 * self.hc[0] if self.kind == 'none' else self.B[n]

        def at(name, idx):
            if name == 'u':
                return u[idx[0] - 1, idx[1] - 1]
            if name == 'dt':
                return dt[idx[0] - 1]
            if name == 's':
                return st[idx[0] - 1]
            if name == 'Hd':
                return hd[idx[0] - 1]
            if name == 'Hc':
                return self.hc[idx[0] - 1]
            return {'om': om, 'B': B, 'S': s, 'norm': 1 / (2 * np.pi * self.dim)}[name]

        def fun(name, idx, args):
            return self.suscept(n, np.array(args))

        def pd(name, idx, k, args):
            return self.dsuscept(n, np.array(args), k - 1)
        return Interp(at, fun, pd, dim=self.dim)

    def payload(self, nt):
        comp = self.kind in ('fun', 'funold')
        return self.payloads[nt, self.nc, comp, self.deriv]

    def frequencies(self, f, dt):
        om = self.costs[f - 1][0]
        if om is None:
            return np.geomspace(2 * np.pi * 1e-2 / dt.sum(), 2 * np.pi * 10 / dt.min(), 200)
        return np.array(om)

    def regular(self, p, t):
        """Whether the gradient of the package is defined (it divides by the
        differences of energies)."""
        y, x, u, dt = self.value(p, t)
        hd = self.hd * len(dt) if len(self.hd) == 1 else self.hd
        e = [np.linalg.eigvalsh(hd[k] + np.einsum('j,jab->ab', u[k], np.array(self.hc))) for k in range(len(dt))]
        return self.traceless and min(np.diff(x).min() for x in e) > 1e-3

    def answer(self, f, p, t, grad):
        y, x, u, dt = self.value(p, t)
        _, per, w, q = self.costs[f - 1]
        om = self.frequencies(f, dt)
        if self.costs[f - 1][0] is None and self.r.integers(8):
            # the answer of fresh objects to the frequencies written out (that
            # answer is compared with the specification for few frequencies)
            s, _ = self.build(t - 1)
            s.set_optimization_parameters(y.copy())
            fresh = cf.OperatorFilterFunctionInfidelity(s, self.psd(per, w, q), om)
            return np.array(fresh.grad() if grad else fresh.costs())
        pay = self.payload(len(dt))
        out = []
        listed = self.order(self.seen(y, x, u))
        for k, n in enumerate(listed):
            vals = []
            for o in om:
                s = (w[k] if per else w[0]) / (1. + abs(o)) ** q
                ev = self.interp(p, t, n, o, s)
                if grad:
                    vals.append([[np.real(ev.ev(z)) for z in row] for row in pay['grad']])
                else:
                    vals.append(np.real(ev.ev(pay['density'])))
            vals = np.array(vals)
            h = np.diff(om).reshape((-1,) + (1,) * (vals.ndim - 1))
            out.append(((vals[1:] + vals[:-1]) * h).sum(axis=0) / 2)
        out = np.array(out)
        return out.transpose(1, 0, 2) if grad else out


class Replay:
    def __init__(self, c, sc, log):
        self.c, self.sc, self.log = c, sc, log
        self.memo = {}
        self.objs = []
        self.handed = []
        self.info = dict(log=log, dim=sc.dim, controls=sc.nc, noise=sc.kind, identifiers=sc.ids, drift=sc.drift,
                         amplitudes=sc.amp, oversampling=sc.over, solver=sc.solver_kind,
                         pulses=sc.pulses, taus=sc.taus)

    def bad(self, n, what, **k):
        self.c.violation('step %d of %s: %s' % (n, [e['op'] for e in self.log], what), dict(self.info, **k))

    def give(self, p):
        y = self.sc.pulses[p - 1].copy()
        self.handed.append(y)
        return y

    def expected(self, *key):
        if key not in self.memo:
            self.memo[key] = self.sc.answer(*key)
        return self.memo[key]

    def describe(self, n, ps, d):
        """The description against the pulse."""
        sc = self.sc
        y, x, u, dt = sc.value(d['p'], d['t'])
        ids = ['Control%d' % j for j in range(sc.nc)]
        got = {k: i for i, k in enumerate(ps.c_oper_identifiers)}
        self.c.comparisons += 4
        if sorted(got) != sorted(ids):
            self.bad(n, 'controls are named %s' % list(got))
            return
        if err(ps.dt, dt) > TOL:
            self.bad(n, 'durations of the description are %s' % ps.dt, specified=dt)
        for j, k in enumerate(ids):
            if err(ps.c_coeffs[got[k]], u[:, j]) > TOL or err(ps.c_opers[got[k]], sc.hc[j]) > TOL:
                self.bad(n, 'control %d of the description is %s' % (j, ps.c_coeffs[got[k]]), specified=u[:, j])
        basis = (sc.bases()[d['b'] - 1] if d['b'] else None)
        basis = sc.basis if basis is None else basis
        if basis is not None:
            self.c.comparisons += 1
            if err(np.array(ps.basis), np.array(basis)) > TOL:
                self.bad(n, 'the description is in another basis than the one asked for', got=np.array(ps.basis),
                         specified=np.array(basis))
        if sc.shown:
            got = {k: i for i, k in enumerate(ps.n_oper_identifiers)}
            if sorted(got) != sorted(sc.ids):
                self.bad(n, 'noise operators are named %s' % list(got))
                return
            for m, k in enumerate(sc.ids):
                if err(ps.n_coeffs[got[k]], sc.strength(m, y, x, u)) > TOL or err(ps.n_opers[got[k]], sc.B[m]) > TOL:
                    self.bad(n, 'susceptibility of noise %d is %s' % (m, ps.n_coeffs[got[k]]),
                             specified=sc.strength(m, y, x, u))
        total = sc.interp(d['p'], d['t'], 0, 0., 0.).ev(sc.payload(len(dt))['total'])
        if err(ps.total_propagator, total) > TOL or err(ps.propagators[-1], total) > TOL:
            self.bad(n, 'the total propagator of the description deviates', got=ps.total_propagator, specified=total)

    def run(self):
        c, sc = self.c, self.sc
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            for n, e in enumerate(self.log):
                c.actions[e['op']] = c.actions.get(e['op'], 0) + 1
                op = e['op']
                if op == 'new':
                    self.objs.append(sc.build(e['t'] - 1))
                    continue
                s, fs = self.objs[e['o'] - 1]
                if op == 'set':
                    s.set_optimization_parameters(self.give(e['p']))
                elif op == 'times':
                    tau = sc.taus[e['t'] - 1].copy()
                    self.handed.append(tau)
                    s.set_times(tau)
                elif op == 'create':
                    kw = {}
                    if e['p']:
                        kw['new_amps'] = self.give(e['p'])
                    if e['b']:
                        kw['ff_basis'] = sc.bases()[e['b'] - 1]
                    self.describe(n, s.create_pulse_sequence(**kw), e['d'])
                elif op == 'cost':
                    got = fs[e['f'] - 1].costs()
                    want = self.expected(e['f'], e['d']['p'], e['d']['t'], False)
                    c.comparisons += 1
                    if err(got, want) > 1e-7:
                        self.bad(n, 'filter function infidelity %d is %s' % (e['f'], got), specified=want)
                    if s.pulse_sequence is not None:
                        self.describe(n, s.pulse_sequence, e['d'])
                elif op == 'grad':
                    got = fs[e['f'] - 1].grad()
                    p, t = e['d']['p'], e['d']['t']
                    if sc.regular(p, t):
                        want = self.expected(e['f'], p, t, True)
                    else:          # at least the one of fresh objects
                        s2, fs2 = sc.build(t - 1)
                        s2.set_optimization_parameters(sc.pulses[p - 1].copy())
                        want = fs2[e['f'] - 1].grad()
                        if not np.all(np.isfinite(want)):
                            if np.shape(got) != np.shape(want):
                                self.bad(n, 'gradient has the shape %s' % (np.shape(got),))
                            continue
                    c.comparisons += 1
                    if err(got, want) > 1e-6:
                        self.bad(n, 'gradient of filter function infidelity %d deviates by %.1e' % (
                            e['f'], err(got, want)), got=got, specified=want)
                elif op == 'evolve':
                    if sc.solver_kind in ('mc', 'mccn') and sc.grids[0] == sc.grids[1]:
                        s.forward_propagators_noise
                    got = s.forward_propagators[-1].data
                    dt = sc.value(e['d']['p'], e['d']['t'])[3]
                    if sc.solver_kind != 'lind':
                        total = sc.interp(e['d']['p'], e['d']['t'], 0, 0., 0.).ev(sc.payload(len(dt))['total'])
                        if err(got, total) > TOL:
                            self.bad(n, 'the propagator of the solver deviates')
                elif op == 'copy':
                    self.objs.append(copy.deepcopy((s, fs)))
                elif op == 'edit':
                    for a in self.handed:
                        a[...] = a * 1.5 + 1.
                    self.handed = []
                if c.full:
                    return
        c.traces += 1


def check(c):
    r = c.np_rng()
    combos = [(nt, nc, comp, der) for nt in (1, 2, 3, 4) for nc in (1, 2, 3)
              for comp, der in ((False, False), (True, True), (True, False))]
    combos += [(nt, 11, comp, der) for nt in (1, 2) for comp, der in ((False, False), (True, True), (True, False))]
    if c.thorough:
        combos += [(nt, nc, comp, der) for nt in (5, 6) for nc in (1, 2)
                   for comp, der in ((False, False), (True, True), (True, False))]
    res = c.tlc('FilterFunction', consts=dict(Shapes=Set([dict(nt=a, nc=b, computed=x, deriv=y)
                                                          for a, b, x, y in combos])),
                invariants=['Concatenation', 'Causal', 'EmitDone'], workers=8)
    payloads = {}
    for m in res.msgs:
        sh = m['shape']
        payloads[sh['nt'], sh['nc'], sh['computed'], sh['deriv']] = dict(
            total=freeze(m['total']), density=freeze(m['density']),
            grad=[[freeze(z) for z in row] for row in m['grad']])
    c.tlc('PulseDescription', consts=dict(Len_=[2, 1], Grid=[2, 1], NCost=1, NBasis=1, MaxObj=2, MaxLen=5,
                                          MayRegrid=True),
          invariants=['Kept', 'Agree'], properties=['Separate'], workers=8)
    logs = {}
    for regrid in (True, False):
        for same in (True, False):
            grid = [2, 2] if same else [2, 1]
            m = c.tlc('PulseDescription', consts=dict(
                Len_=[grid[k % 2] for k in range(4)], Grid=grid, NCost=3, NBasis=2, MaxObj=3, MaxLen=14,
                MayRegrid=regrid), invariants=['Kept', 'Agree', 'Emit'], simulate=c.pick(60, 400), depth=16,
                seed=c.seed + 2 * regrid + same)
            logs[regrid, same] = m.msgs
    shapes = [(nt, nc) for nt in (1, 2, 3, 4) for nc in (1, 2, 3)] + [(2, 11)]
    if c.thorough:
        shapes += [(6, 1), (6, 2)]
    n = 0
    for k in range(c.pick(80, 450)):
        nt, nc = shapes[int(r.integers(len(shapes)))]
        kind = str(r.choice(['list', 'fun', 'fun', 'funold', 'none'], p=[.35, .25, .15, .2, .05]))
        sc = Scene(r, payloads, nt, nc, kind)
        regrid = sc.drift != 'steps' or sc.grids[0] == sc.grids[1]
        pool = logs[regrid, sc.grids[0] == sc.grids[1]]
        if sc.solver_kind in ('mc', 'mccn') and sc.kind != 'own' and sc.grids[0] != sc.grids[1]:
            sc.solver_kind = 'closed'
        Replay(c, sc, pool[n % len(pool)]['log']).run()
        n += 1
        c.sample(dict(nt=nt, nc=nc, kind=kind, log=[e['op'] for e in pool[(n - 1) % len(pool)]['log']]))
        if c.full:
            return


def Set(l):
    import qv
    return qv.Raw('{' + ', '.join(qv._tla_value(x) for x in l) + '}')
