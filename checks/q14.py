"""Simulators sharing solvers: every answer belongs to the submitted pulse."""
import numpy as np

import qv
from qopt import cost_functions as cf
from qopt import noise as qn
from qopt import simulator, solver_algorithms as sa
from qopt import transfer_function as tf
from qopt.amplitude_functions import CustomAmpFunc, IdentityAmpFunc, UnaryAnalyticAmpFunc
from qopt.matrix import DenseOperator

SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]])
SZ = np.diag([1., -1.]).astype(complex)


class Boom(Exception):
    pass


def amp_value(kind, x):
    if kind == 'id':
        return x
    if kind == 'sq':
        return x * x + x
    a = x * x[:, :1]
    a[:, 0] = x.sum(axis=1)
    return a


def amp_deriv(x):                       # "mix": [time, parameter, control]
    nt, n = x.shape
    d = np.zeros((nt, n, n))
    d[:, :, 0] = 1
    for k in range(1, n):
        d[:, 0, k] += x[:, k]
        d[:, k, k] += x[:, 0]
    return d


def amp_object(kind):
    if kind == 'id':
        return IdentityAmpFunc()
    if kind == 'sq':
        return UnaryAnalyticAmpFunc(lambda x: x * x + x, lambda x: 2 * x + 1)
    return CustomAmpFunc(lambda x: amp_value('mix', x), amp_deriv)


class Recorder(sa.SchroedingerSolver):
    """An ordinary solver that remembers what it was given."""
    def set_optimization_parameters(self, y):
        self.seen = np.array(y, copy=True)
        super().set_optimization_parameters(y)


class Table(cf.CostFunction):
    """L_k . a + q_k (sum a)^2 for the amplitudes a of the solver."""
    def __init__(self, solver, f, s, r):
        super().__init__(solver, label=list(f['lab']))
        self.f, self.s = f, s
        self.L = np.array(f['L'], float)
        self.q = np.array(f['q'], float)
        self.boom = False
        self.calls = [0, 0]
        self.form = int(r.integers(4))
        self.store = np.zeros(len(f['L']))

    def _amps(self):
        return amp_value(self.s['amp'], np.repeat(self.solver.seen, self.s['os'], axis=0))

    def costs(self):
        if self.boom:
            raise Boom
        self.calls[0] += 1
        a = self._amps()
        v = np.einsum('kij,ij->k', self.L, a) + self.q * a.sum() ** 2
        if len(v) == 1 and self.form < 2:
            return float(v[0]) if self.form == 0 else np.array(v[0])
        if self.form == 2:              # one and the same array every time
            self.store[...] = v
            return self.store
        return v

    def grad(self):
        if self.boom:
            raise Boom
        self.calls[1] += 1
        a = self._amps()
        g = self.L + 2 * self.q[:, None, None] * a.sum()
        g = g.transpose(1, 0, 2)
        return np.array(g[:, 0]) if g.shape[1] == 1 and self.form < 2 else np.array(g)


def world(r):
    nt, nc = int(r.integers(1, 4)), int(r.integers(1, 4))
    sol = [dict(amp=str(r.choice(['id', 'sq', 'mix'])), os=int(r.choice([1, 1, 2, 3])))
           for _ in range(r.integers(1, 4))]
    cfs = []
    for n in range(r.integers(1, 5)):
        s = int(r.integers(len(sol)))
        k = int(r.choice([1, 1, 2, 3]))
        cfs.append(dict(s=s + 1, L=r.integers(-3, 4, (k, nt * sol[s]['os'], nc)).tolist(),
                        q=r.choice([0, 0, 1, -1, 2], k).tolist(),
                        lab=['c%d_%d' % (n, i) if r.integers(4) else 'same' for i in range(k)]))
    sims = []
    for n in range(r.integers(1, 3)):
        use = [int(x) + 1 for x in r.permutation(len(cfs))[:r.integers(1, len(cfs) + 1)]]
        need = {cfs[x - 1]['s'] for x in use}
        need |= {int(x) + 1 for x in range(len(sol)) if r.integers(2)}
        need = [int(x) for x in r.permutation(sorted(need))]
        sims.append(dict(sol=need, cf=use))
    pulses = [r.integers(-3, 4, (nt, nc)).tolist() for _ in range(3)]
    k = int(r.integers(5))
    if k == 0:
        pulses[2] = [[0] * nc for _ in range(nt)]
    elif k == 1:
        pulses[2] = [[-x for x in row] for row in pulses[0]]
    elif k == 2:
        pulses[2] = [list(row) for row in pulses[0]]
        pulses[2][-1][-1] += 1
    elif k == 3:
        pulses[2] = pulses[0][::-1]
    return dict(nt=nt, nc=nc, sol=sol, cf=cfs, sims=sims, pulses=pulses)


def tla(w):
    rec = lambda d: '[' + ', '.join('%s |-> %s' % (k, qv._tla_value(v)) for k, v in d.items()) + ']'
    return '[nt |-> %d, nc |-> %d, pulses |-> %s, sol |-> <<%s>>, cf |-> <<%s>>, sims |-> <<%s>>]' % (
        w['nt'], w['nc'], qv._tla_value(w['pulses']), ', '.join(map(rec, w['sol'])),
        ', '.join(map(rec, w['cf'])), ', '.join(map(rec, w['sims'])))


def make_solver(r, w, s, cls=Recorder, noise=False, scale=1., pool=None):
    ops = [SX, SY, SZ][:w['nc']]
    kw = {}
    if s['os'] == 1:
        kw['transfer_function'] = tf.IdentityTF(num_ctrls=w['nc'])
    else:
        kw['transfer_function'] = (tf.OversamplingTF(oversampling=s['os'], num_ctrls=w['nc']) if r.integers(2)
                                   else tf.OversamplingMTF(oversampling=s['os'], num_ctrls=w['nc']))
    kw['amplitude_function'] = amp_object(s['amp'])
    if pool is not None:        # solvers may share their amplitude function
        kw['amplitude_function'] = pool.setdefault(s['amp'], kw['amplitude_function'])
        if r.integers(2):       # ... and their pulse shaping
            kw['transfer_function'] = pool.setdefault(s['os'], kw['transfer_function'])
    kw['h_drift'] = [DenseOperator(.3 * SZ)]
    if noise:
        kw['h_noise'] = [DenseOperator(.5 * SZ)]
        kw['noise_trace_generator'] = qn.NTGQuasiStatic(
            n_samples_per_trace=w['nt'] * s['os'], standard_deviation=[.3], n_traces=4,
            sampling_mode='uncorrelated_deterministic')
        cls = sa.SchroedingerSMonteCarlo
    return cls(h_ctrl=[DenseOperator(scale * o) for o in ops], tau=np.full(w['nt'], .7), **kw)


REAL = ['op', 'state', 'leak', 'opn']


def make_real(r, w, f, kind, solver):
    if kind == 'op':
        return cf.OperationInfidelity(solver, target=DenseOperator((SX + SZ) / np.sqrt(2)), label=list(f['lab']))
    if kind == 'state':
        return cf.StateInfidelity(
            solver, target=DenseOperator(np.array([[.6, .8j]])),
            label=list(f['lab']))
    if kind == 'leak':
        return cf.LeakageError(solver, computational_states=[0], label=list(f['lab']))
    return cf.OperationNoiseInfidelity(solver, target=DenseOperator(SX), label=list(f['lab']),
                                       neglect_systematic_errors=False)


class Real:
    """A world of ordinary solvers and cost functions; answers of freshly
    built objects are the reference."""
    def __init__(self, r, w):
        self.w = w
        self.kinds = []
        for f in w['cf']:
            self.kinds.append(str(r.choice(['op', 'leak', 'opn'])))
        self.noisy = {f['s'] for f, k in zip(w['cf'], self.kinds) if k == 'opn'}
        for i, f in enumerate(w['cf']):
            if f['s'] not in self.noisy and self.kinds[i] == 'op' and r.integers(3) == 0:
                self.kinds[i] = 'op'
        self.memo = {}
        self.solvers = [self.solver(r, i) for i in range(len(w['sol']))]
        self.costs = [make_real(r, w, f, k, self.solvers[f['s'] - 1]) for f, k in zip(w['cf'], self.kinds)]

    def solver(self, r, i):
        return make_solver(r, self.w, self.w['sol'][i], cls=sa.SchroedingerSolver,
                           noise=i + 1 in self.noisy, scale=.4)

    def cost(self, r, f, y):
        key = (f, y.tobytes())
        if key not in self.memo:
            s = self.w['cf'][f]['s'] - 1
            sol = self.solver(r, s)
            fresh = make_real(r, self.w, self.w['cf'][f], self.kinds[f], sol)
            sol.set_optimization_parameters(y.copy())
            self.memo[key] = float(np.ravel(fresh.costs())[0])
        return self.memo[key]

    def grad(self, r, f, y, h=1e-4):
        g = np.zeros(y.shape)
        for ij in np.ndindex(*y.shape):
            d = np.zeros(y.shape)
            d[ij] = h
            g[ij] = (8 * (self.cost(r, f, y + d) - self.cost(r, f, y - d))
                     - (self.cost(r, f, y + 2 * d) - self.cost(r, f, y - 2 * d))) / (12 * h)
        return g


def give(r, y):
    """The same values in one of several memory layouts."""
    k = int(r.integers(4))
    if k == 0:
        return np.asfortranarray(y.copy())
    if k == 1:
        big = np.full((2 * y.shape[0], y.shape[1] + 1), 9.)
        big[::2, :-1] = y
        return big[::2, :-1]
    return y.copy()


def replay(c, r, w, wid, log, real):
    nt, nc = w['nt'], w['nc']
    scale = .2 if real else 1.
    pulses = [scale * np.array(p, float) for p in w['pulses']]
    if real:
        world_ = Real(r, w)
        solvers, costs = world_.solvers, world_.costs
    else:
        pool = {} if r.integers(2) else None
        solvers = [make_solver(r, w, s, pool=pool) for s in w['sol']]
        costs = [Table(solvers[f['s'] - 1], f, w['sol'][f['s'] - 1], r) for f in w['cf']]
    sims, stats_on = [], []
    for s in w['sims']:
        stats_on.append(bool(r.integers(4)))
        sims.append(simulator.Simulator(solvers=[solvers[i - 1] for i in s['sol']],
                                        cost_funcs=[costs[i - 1] for i in s['cf']],
                                        record_performance_statistics=stats_on[-1]))
    calls = [[0, 0] for _ in sims]      # completed evaluations per simulator
    want_rec = [[0, 0] for _ in sims]
    cell = pulses[0].copy()
    last = None
    kept = []
    info = dict(world=w, real=real, history=[(e['op'], e['sim'], e['p'], e['via']) for e in log])

    def bad(e, what, **kw):
        c.violation('simulator, step %s: %s' % ((e['op'], e['sim'], e['p'], e['via']), what), dict(info, **kw))

    def compare(e, got, want, tol, what):
        got = np.asarray(got)
        c.comparisons += int(np.size(want))
        if got.shape != want.shape or not np.abs(got - want).max() <= tol:
            bad(e, '%s deviates from the specified one' % what, got=got, specified=want)

    def numbers(e, m, kind, p):
        """Specified answer of a simulator for pulse number p."""
        y = pulses[p - 1]
        fs = w['sims'][m]['cf']
        if kind == 'cost':
            return np.array([world_.cost(r, f - 1, y) for f in fs])
        return np.stack([world_.grad(r, f - 1, y) for f in fs], axis=1)

    for e in log[1:]:
        op, m = e['op'], e['sim'] - 1
        c.actions[op + ('/real' if real else '')] = c.actions.get(op + ('/real' if real else ''), 0) + 1
        if op in ('cost', 'jac', 'njac', 'fail'):
            sim = sims[m]
            if e['via'] == 'attr' or (op == 'fail' and False):
                arg, y = None, pulses[e['p'] - 1]
            elif e['via'] == 'cell':
                arg = y = cell
            else:
                arg = y = give(r, pulses[e['p'] - 1])
            before = y.copy()
        if op == 'fail':
            victim = costs[w['sims'][m]['cf'][e['res'][0] - 1] - 1]
            if real:
                continue
            victim.boom = True
            try:
                (sim.wrapped_cost_functions if e['via'] == 'cost' else sim.wrapped_jac_function)(arg)
                if not (e['via'] == 'jac' and sim.numeric_jacobian):
                    bad(e, 'the error of a cost function is swallowed')
            except Boom:
                pass
            victim.boom = False
        elif op == 'cost':
            got = sim.wrapped_cost_functions(*([] if arg is None else [arg]))
            want = numbers(e, m, 'cost', e['p']) if real else np.array(e['res'], float)
            compare(e, got, want, 1e-9, 'vector of costs')
            want_rec[m][0] += 1
            last = got
        elif op in ('jac', 'njac'):
            got = sim.wrapped_jac_function(*([] if arg is None else [arg]))
            want = numbers(e, m, 'jac', e['p']) if real else np.array(e['res'], float)
            tol = (2e-6 if op == 'njac' else 1e-7) if real else (
                1e-9 if op == 'jac' else 1e-4 * (1 + np.abs(want).max()) + 1e-6 * 1000)
            compare(e, got, want, tol, 'gradient')
            want_rec[m][1 if op == 'jac' else 0] += 1 if op == 'jac' else 1 + nt * nc
            last = got
        elif op in ('fwd', 'sym') and not real:
            y = pulses[e['p'] - 1].copy()
            if r.integers(2):
                got = sims[m].numeric_gradient(y, 1., op == 'sym')
            else:
                got = sims[m].numeric_gradient(pulse=y, delta_eps=1, symmetric=op == 'sym')
            want = np.array(e['res'], float) / (2 if op == 'sym' else 1)
            compare(e, got, want, 1e-9, 'difference quotient')
            want_rec[m][0] += 1 + nt * nc * (2 if op == 'sym' else 1)
            before = pulses[e['p'] - 1]
            last = got
        elif op in ('cmpfwd', 'cmpsym') and not real:
            y = pulses[e['p'] - 1].copy()
            before = y.copy()
            got = sims[m].compare_numeric_to_analytic_gradient(y, delta_eps=1, symmetric=op == 'cmpsym')
            num = np.array(e['res'][0], float) / (2 if op == 'cmpsym' else 1)
            ana = np.array(e['res'][1], float)
            d = np.linalg.norm(num - ana)
            q = np.linalg.norm(num) + np.linalg.norm(ana)
            c.comparisons += 2
            if not abs(got[0] - d) <= 1e-9 * (1 + d):
                bad(e, 'difference of the gradients is %s, specified is %s' % (got[0], d))
            elif q > 0 and not abs(got[1] - 2 * d / q) <= 1e-9 * (1 + d / q):
                bad(e, 'relative difference of the gradients is %s, specified is %s' % (got[1], 2 * d / q))
            want_rec[m][0] += 1 + nt * nc * (2 if op == 'cmpsym' else 1)
            want_rec[m][1] += 1
        elif op in ('fwd', 'sym', 'cmpfwd', 'cmpsym'):      # ordinary objects
            y = pulses[e['p'] - 1].copy()
            before = y.copy()
            if op in ('fwd', 'sym'):
                got = sims[m].numeric_gradient(y, 1e-5 if op == 'sym' else 1e-7, op == 'sym')
                compare(e, got, numbers(e, m, 'jac', e['p']), 2e-5, 'difference quotient')
            else:
                got = sims[m].compare_numeric_to_analytic_gradient(y, 1e-6, op == 'cmpsym')
                c.comparisons += 1
                if not got[0] <= 1e-4:
                    bad(e, 'analytic and numeric gradients deviate by %s' % got[0])
                want_rec[m][1] += 1
            want_rec[m][0] += 1 + nt * nc * (2 if 'sym' in op else 1)
        elif op == 'store':
            sims[m].pulse = pulses[e['p'] - 1].copy()
        elif op == 'numeric':
            sims[m].numeric_jacobian = not sims[m].numeric_jacobian
        elif op == 'disturb':
            solvers[m].set_optimization_parameters(pulses[e['p'] - 1].copy())
            if r.integers(2):
                solvers[m].propagators
        elif op == 'edit':
            cell[...] = pulses[e['p'] - 1]
        elif op == 'scribble' and last is not None:
            kept = [k for k in kept if k[0] is not last]
            last[...] = -7
        if op in ('cost', 'jac', 'njac', 'fwd', 'sym', 'cmpfwd', 'cmpsym'):
            if not np.array_equal(y, before):
                bad(e, 'the pulse given is changed', got=y, specified=before)
            if not real:
                for i in w['sims'][m]['sol']:
                    if op in ('cost', 'jac') and not np.array_equal(solvers[i - 1].seen, before):
                        bad(e, 'solver %d was not given the pulse' % i, got=solvers[i - 1].seen, specified=before)
            for g, cp in kept:
                if not np.array_equal(g, cp):
                    bad(e, 'an earlier answer has changed', got=g, specified=cp)
            if op in ('cost', 'jac', 'njac'):
                kept.append((got, got.copy()))
        if op in ('store', 'cost', 'jac', 'fail', 'njac') and sims[m].pulse is not None and m < len(sims):
            pass
        for k, sim in enumerate(sims):
            want = [x for i in w['sims'][k]['cf'] for x in w['cf'][i - 1]['lab']]
            if list(sim.cost_indices) != want:
                bad(e, 'labels are %s, specified are %s' % (sim.cost_indices, want))
            if not stats_on[k]:
                if sim.stats is not None:
                    bad(e, 'statistics are recorded though they are switched off')
                continue
            n = len(w['sims'][k]['cf'])
            for which, rec in enumerate((sim.stats.cost_func_eval_times, sim.stats.grad_func_eval_times)):
                full = [x for x in rec if len(x) == n]
                # a failed evaluation may leave an incomplete record
                allowed = [x for x in rec if len(x) > n]
                if allowed or (len(full) != want_rec[k][which] and not any(x['op'] == 'fail' for x in log)):
                    bad(e, '%d evaluations of %d %s are recorded as %s' % (
                        want_rec[k][which], n, ('costs', 'gradients')[which], [len(x) for x in rec]))
                if any(t < 0 for x in full for t in x):
                    bad(e, 'a negative duration is recorded')
        if c.full:
            return
    c.traces += 1


def check(c):
    r = c.np_rng()
    n = c.pick(120, 600)
    for faults in (False, True):
        ws = [world(r) for _ in range(n)]
        res = c.tlc('Simulator', consts=dict(
            Worlds=qv.Raw('<<%s>>' % ', '.join(map(tla, ws))), Faults=faults, MaxLen=c.pick(12, 16)),
            invariants=['Agree', 'Aligned', 'LinearExact', 'Emit'],
            simulate=c.pick(500, 5000), depth=120, seed=c.seed)
        seen = {}
        for msg in res.msgs:
            seen.setdefault(repr(msg['log']), msg['log'])
        logs = list(seen.values())
        for k, log in enumerate(logs):
            wid = log[0]['sim']
            replay(c, r, ws[wid - 1], wid, log, False)
            if k % 4 == 0 and not faults:
                replay(c, r, real_world(ws[wid - 1]), wid, log, True)
            if c.full:
                return
            c.sample(dict(history=[(e['op'], e['sim'], e['p'], e['via']) for e in log]))


def real_world(w):
    """The same world with one-component cost functions."""
    return dict(w, cf=[dict(f, lab=f['lab'][:1]) for f in w['cf']])
