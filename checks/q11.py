"""Optimisers: scripted and real minimisations against Optimiser.tla."""
import clock  # noqa: F401
import copy

import numpy as np
from scipy.optimize import OptimizeResult

import optim
import qv
from optim import SimulationError, optimize

DEFAULTS = copy.deepcopy(optimize.default_termination_conditions)
GAIN = 1e-4


class Stray(Exception):
    """The simulator was asked for something nobody submitted."""


class TableLand:
    def __init__(self, world):
        self.at = {}
        for i, p in enumerate(world['pulses']):
            y = np.array(p['y'], float)
            self.at[y.shape, y.tobytes()] = (i + 1, np.array(p['c'], float), np.array(p['d'], float))
        self.events = []
        self.boom = False

    def look(self, y):
        y = np.ascontiguousarray(y, dtype=float) + 0.
        k = (y.shape, y.tobytes())
        if k not in self.at:
            raise Stray('the simulator was given %s, which was not submitted' % y.tolist())
        return self.at[k]

    def costs(self, y, first):
        if self.boom:
            raise SimulationError
        p = self.look(y)
        if first:
            self.events.append(('eval', p[0]))
        return p[1].copy()

    def grad(self, y, first):
        p = self.look(y)
        if first:
            self.events.append(('jac', p[0]))
        return p[2].copy()


def world(r):
    nf = int(r.integers(1, 4))
    shapes = [(int(r.integers(1, 4)), int(r.integers(1, 4))) for _ in range(2)]
    pulses = []
    seen = set()
    pool = r.integers(0, 5, (3, nf)).tolist() + [[0] * nf, r.integers(-4, 5, nf).tolist()]
    while len(pulses) < 6:
        g = int(r.integers(2)) if len(pulses) > 2 else 0
        y = r.integers(-9, 10, shapes[g]).tolist()
        if (shapes[g], str(y)) in seen:
            continue
        seen.add((shapes[g], str(y)))
        c = pool[int(r.integers(len(pool)))] if r.integers(2) else r.integers(0, 7, nf).tolist()
        pulses.append(dict(g=g + 1 if shapes[0] != shapes[1] else 1, y=y, c=c,
                           d=r.integers(-5, 6, (shapes[g][0], nf, shapes[g][1])).tolist()))
    opts = []
    for _ in range(3):
        w = [[], r.integers(0, 5, nf).tolist(), r.integers(1, 4, nf).tolist(),
             [1] * (nf - 1) + [7]][int(r.integers(4))]
        opts.append(dict(kind=str(r.choice(['lbfgs', 'nm', 'other', 'call', 'lsq', 'lsq'])), w=w,
                         save=bool(r.integers(4)), store=bool(r.integers(3) == 0), jac=bool(r.integers(3)),
                         it=int(r.choice([0, 0, 5, 77])), wall=int(r.choice([0, 11, 95])),
                         gain=int(r.choice([0, 0, 3, 40]))))
    return dict(pulses=pulses, opts=opts, nf=nf)


def tla(w):
    rec = lambda d: '[' + ', '.join('%s |-> %s' % (k, qv._tla_value(v)) for k, v in d.items()) + ']'
    return '[pulses |-> <<%s>>, opts |-> <<%s>>]' % (', '.join(map(rec, w['pulses'])), ', '.join(map(rec, w['opts'])))


def make(r, o, sim, method):
    cond = {}
    if o['it']:
        cond['max_iterations'] = o['it']
    if o['wall']:
        cond['max_wall_time'] = float(o['wall'])
    if o['gain']:
        cond['min_cost_gain'] = o['gain'] * GAIN
    w = o['w']
    w = [list, np.array, tuple][int(r.integers(3))](w) if w else [None, []][int(r.integers(2))]
    kw = dict(system_simulator=sim, termination_cond=cond or [None, {}][int(r.integers(2))],
              save_intermediary_steps=o['save'], cost_func_weights=w,
              use_jacobian_function=o['jac'], store_optimizer=o['store'])
    before = copy.deepcopy((cond, w))
    if o['kind'] == 'lsq':
        if r.integers(2):
            kw['bounds'] = (-np.inf, np.inf)
        opt = optimize.LeastSquaresOptimizer(**kw)
    else:
        opt = optimize.ScalarMinimizingOptimizer(method=method, **kw)
    return opt, (cond, w), before


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return a == b


def frozen(res):
    """Everything a result says."""
    s = res.optim_summary
    return copy.deepcopy((
        res.final_cost, res.final_parameters, res.init_parameters, res.final_grad_norm, res.num_iter, res.status,
        res.termination_reason, list(res.indices),
        None if s is None else (s.iter_num, list(s.costs), list(s.parameters), list(s.gradients)),
        None if res.optimization_stats is None else
        (res.optimization_stats.start_t_opt, res.optimization_stats.end_t_opt,
         [list(x) for x in res.optimization_stats.cost_func_eval_times])))


class Replay:
    def __init__(self, c, r, w, msg):
        self.c, self.r, self.w = c, r, w
        self.log = msg['log'][1:]
        self.results = msg['results']
        self.land = TableLand(w)
        self.info = dict(world=w, history=[(x['e']['op'], x['e']['n'], x['e']['p']) for x in msg['log']])
        self.pos = 0
        stats = bool(r.integers(3))
        self.stats = stats
        self.shared = optim.build_simulator(self.land, w['nf'], r, stats) if r.integers(2) else None
        self.reuse = bool(r.integers(2))

    def bad(self, what, **kw):
        self.c.violation('optimiser history: ' + what, dict(self.info, step=self.pos, **kw))

    def compare(self, got, want, what):
        self.c.comparisons += int(np.size(want))
        got = np.asarray(got)
        if got.shape != np.shape(want) or not np.allclose(got, want, rtol=0, atol=1e-12):
            self.bad('%s deviates from the specified one' % what, got=got, specified=want)

    def script(self, name, fun, x0, jac, bounds, options):
        """The minimisation algorithm of the current run."""
        start = self.log[self.pos]
        o = self.w['opts'][start['e']['n'] - 1]
        self.compare(np.asarray(x0), np.array(start['x'], float), 'initial parameter vector')
        for k in ('maxiter', 'max_nfev'):
            if k in options and options[k] != start['it']:
                self.bad('the iteration limit is %s, specified is %s' % (options[k], start['it']))
        if o['kind'] in ('lbfgs', 'lsq', 'nm', 'other', 'call') and not {'maxiter', 'max_nfev'} & set(options):
            self.bad('the iteration limit is not passed on')
        gain = start['gain'] * GAIN if start['gain'] else DEFAULTS['min_cost_gain']
        if o['kind'] in ('lbfgs', 'lsq') and 'ftol' in options and not np.isclose(options['ftol'], gain, rtol=1e-9, atol=0):
            self.bad('the cost tolerance is %s, specified is %s' % (options['ftol'], gain))
        buf = np.array(x0, float)
        both = jac is True
        nev = 0

        def ask(x):
            if self.reuse and o['kind'] == 'call':      # a working array
                buf[...] = x
                return fun(buf)
            return fun(np.array(x, float))

        while True:
            self.pos += 1
            e = self.log[self.pos]
            op = e['e']['op']
            self.c.actions[op] = self.c.actions.get(op, 0) + 1
            if op == 'eval':
                v = ask(e['x'])
                if both:
                    v = v[0]
                nev += 1
                want = np.array(e['f'], float)
                self.compare(np.ravel(v) if o['kind'] != 'lsq' else v, want, 'objective (%s)' % o['kind'])
            elif op == 'jac':
                if not callable(jac) and not both:
                    if o['kind'] in ('lbfgs', 'lsq', 'call', 'other'):
                        self.bad('the gradient is not passed to the algorithm')
                    continue
                g = fun(np.array(e['x'], float))[1] if both else jac(np.array(e['x'], float))
                d = np.array(e['d'], float)
                self.compare(g, d if o['kind'] == 'lsq' else d[0], 'slope of the objective (%s)' % o['kind'])
            elif op == 'new':
                self.new(e['e']['n'])
            elif op == 'tick':
                clock.advance(e['e']['p'])
            elif op == 'crash':
                self.land.boom = True
                ask(e['x'])
                self.bad('an error of the simulation is swallowed')
                raise SimulationError
            elif op == 'early':
                ask(e['x'])
                self.bad('an evaluation is made after the wall time of the optimiser is over')
                op = 'finish'
            if op == 'finish':
                f = np.array(e.get('f', [0.]), float)
                d = np.array(e.get('d', [[0.]]), float)
                self.nev = nev
                kw = dict(x=np.array(e['x'], float), nfev=nev, nit=nev, status=self.pos % 4, message='m%d' % self.pos,
                          success=True)
                self.end = kw
                if o['kind'] == 'lsq':
                    return OptimizeResult(fun=f, cost=.5 * (f ** 2).sum(), grad=d.T @ f, jac=d, optimality=1., **kw)
                return OptimizeResult(fun=float(f[0]), jac=d[0], **kw)

    def intercepted(self, name, fun, x0, *a, jac=None, bounds=None, options=None, **kw):
        return self.script(name, fun, x0, jac, bounds, {**(options or {}), **kw})

    def called(self, fun, x0, args=(), jac=None, bounds=None, **options):
        return self.script('minimize', fun, x0, jac, bounds, options)

    def new(self, n):
        r, w = self.r, self.w
        o = w['opts'][n - 1]
        sim = self.shared or optim.build_simulator(self.land, w['nf'], r, self.stats)
        method = {'lbfgs': 'L-BFGS-B', 'nm': 'Nelder-Mead', 'other': str(r.choice(['BFGS', 'Powell', 'TNC'])),
                  'call': self.called, 'lsq': None}[o['kind']]
        self.optims[n] = make(r, o, sim, method) + (sim,)

    def run(self):
        c, r, w = self.c, self.r, self.w
        optims = self.optims = {}
        done = []
        todo = list(self.results)
        while self.pos < len(self.log):
            e = self.log[self.pos]
            op, n, p = e['e']['op'], e['e']['n'], e['e']['p']
            c.actions[op] = c.actions.get(op, 0) + 1
            o = w['opts'][n - 1]
            if op == 'new':
                self.new(n)
            elif op == 'start':
                opt, given, before, sim = optims[n]
                y0 = np.array(w['pulses'][p - 1]['y'], float)
                if r.integers(3) == 0:
                    y0 = np.asfortranarray(y0)
                keep = y0.copy()
                first = len(self.land.events)
                if o['kind'] != 'call':
                    optim.SCRIPT.append(self.intercepted)
                clock.hold()
                start_pos = self.pos
                try:
                    res = opt.run_optimization(y0)
                except SimulationError:
                    res = None
                    if self.log[self.pos]['e']['op'] != 'crash':
                        raise
                finally:
                    clock.release()
                    optim.SCRIPT.clear()
                    self.land.boom = False
                if not same(given, before):
                    self.bad('conditions or weights of the caller are changed', got=given, specified=before)
                if not np.array_equal(y0, keep):
                    self.bad('the initial parameters of the caller are changed', got=y0, specified=keep)
                if self.pos == start_pos:
                    c.extra['not_intercepted'] = c.extra.get('not_intercepted', 0) + 1
                    return
                if res is not None:
                    if not same(res.init_parameters, keep):
                        self.bad('the initial parameters of the result are %s' % (res.init_parameters,), specified=keep)
                    self.check_result(o, opt, sim, res, todo.pop(0))
                    done.append((res, frozen(res)))
                    y0 += 100.      # the caller goes on using his array
                for a, b in done:
                    if not same(frozen(a), b):
                        self.bad('the result of an earlier run has changed', got=frozen(a), specified=b)
            self.pos += 1
            if c.full:
                return
        if not same(sorted(DEFAULTS.items()), sorted(optimize.default_termination_conditions.items())):
            self.bad('the default termination conditions have changed',
                     got=optimize.default_termination_conditions, specified=DEFAULTS)
        c.traces += 1

    def check_result(self, o, opt, sim, res, want):
        w = self.w
        P = w['pulses']
        early = want['early']
        ps = (want['best'] if want['ev'] else []) if early else [want['p']]
        final = [i for i in ps if res.final_parameters is not None
                 and np.array_equal(res.final_parameters, np.array(P[i - 1]['y'], float))
                 and np.shape(res.final_parameters) == np.shape(P[i - 1]['y'])]
        self.c.comparisons += 1
        if ps and not final:
            self.bad('final parameters of a run %s deviate from the specified ones' % (
                'stopped early' if early else 'that finished'), got=res.final_parameters,
                specified=[P[i - 1]['y'] for i in ps])
            return
        if ps:
            i = final[0]
            costs = np.array(P[i - 1]['c'], float)
            wts = np.array(o['w'] or [1] * w['nf'], float)
            forms = [costs, costs * wts, costs.sum(), (costs * wts).sum()]
            if o['kind'] == 'lsq':
                forms = forms[:2]
            if not any(np.shape(res.final_cost) == np.shape(f) and np.allclose(res.final_cost, f) for f in forms):
                self.bad('final cost %s, specified are the costs %s of the final parameters (weights %s)' % (
                    res.final_cost, costs, wts))
            slope = next((np.array(s['s'], float) for s in want['slopes'] if s['p'] == i), None)
            norms = [np.linalg.norm(slope)]
            if o['kind'] == 'lsq':
                norms.append(np.linalg.norm(slope.T @ (costs * wts)))
            if (early and o['jac']) or (not early and o['kind'] in ('lbfgs', 'lsq')):
                if res.final_grad_norm is None or not any(np.isclose(res.final_grad_norm, x) for x in norms):
                    self.bad('norm of the final gradient is %s, specified is %s' % (res.final_grad_norm, norms))
        if early and res.status != 5:
            self.bad('status of a run stopped by its wall time is %s' % res.status)
        if not early and (res.status != self.end['status'] or res.termination_reason != self.end['message']):
            self.bad('status %s and reason %s are not those of the algorithm' % (res.status, res.termination_reason))
        if res.num_iter != len(want['ev']):
            self.bad('%s evaluations are reported, there were %d' % (res.num_iter, len(want['ev'])))
        if list(res.indices) != ['cost %d' % k for k in range(w['nf'])]:
            self.bad('names of the costs are %s' % (res.indices,))
        if (res.optimizer is opt) != o['store'] or (res.optimizer is not None and not o['store']):
            self.bad('the optimiser is %sstored in the result' % ('not ' if o['store'] else ''))
        s = res.optim_summary
        if not o['save']:
            if s is not None:
                self.bad('a history is recorded though it is switched off')
        else:
            ev = want['ev']
            self.c.comparisons += len(ev)
            if s.iter_num != len(ev) or len(s.costs) != len(ev) or len(s.parameters) != len(ev):
                self.bad('%d evaluations are recorded (%d costs, %d parameters), there were %d' % (
                    s.iter_num, len(s.costs), len(s.parameters), len(ev)))
            else:
                for n, i in enumerate(ev):
                    if not np.array_equal(s.costs[n], np.array(P[i - 1]['c'], float)):
                        self.bad('recorded costs of evaluation %d are %s, reported were %s' % (
                            n, s.costs[n], P[i - 1]['c']))
                    if not np.array_equal(s.parameters[n], np.array(P[i - 1]['y'], float)):
                        self.bad('recorded parameters of evaluation %d are %s, evaluated were %s' % (
                            n, np.asarray(s.parameters[n]).tolist(), P[i - 1]['y']))
            jc = want['jc']
            extra = 1 if early and o['jac'] else 0
            if not len(jc) <= len(s.gradients) <= len(jc) + extra:
                self.bad('%d gradients are recorded, there were %d' % (len(s.gradients), len(jc)))
            for n, i in enumerate(jc[:len(s.gradients)]):
                if not np.array_equal(s.gradients[n], np.array(P[i - 1]['d'], float)):
                    self.bad('recorded gradient number %d deviates from the reported one' % n,
                             got=s.gradients[n], specified=P[i - 1]['d'])
            if list(s.indices) != ['cost %d' % k for k in range(w['nf'])]:
                self.bad('names of the recorded costs are %s' % (s.indices,))
        st = res.optimization_stats
        if self.stats != (st is not None):
            self.bad('statistics are %s' % ('missing' if self.stats else 'recorded though switched off'))
        elif st is not None:
            n = len(sim.cost_funcs)
            full = [x for x in st.cost_func_eval_times if len(x) == n]
            if len(full) != len(want['ev']):
                self.bad('statistics list %d evaluations, there were %d' % (len(full), len(want['ev'])))
            if not abs(st.end_t_opt - st.start_t_opt - want['el']) < 1e-3:
                self.bad('statistics report a duration of %s, it was %s' % (
                    st.end_t_opt - st.start_t_opt, want['el']))
            if list(st.indices) != ['cost %d' % k for k in range(w['nf'])]:
                self.bad('names of the costs in the statistics are %s' % (st.indices,))


# --- real minimisations ------------------------------------------------

class SmoothLand:
    """Convex costs; every request is recorded."""
    def __init__(self, r, shape, nf, jump):
        self.nf = nf
        n = int(np.prod(shape))
        self.A = [(lambda q: q @ q.T / n + .3 * np.eye(n))(r.normal(size=(n, n))) for _ in range(nf)]
        self.m = r.normal(size=(nf, n)) * .5
        self.b = r.uniform(0, .2, nf)
        self.shape = shape
        self.jump = jump
        self.ids = {}
        self.at = []
        self.events = []
        self.n = 0

    def ident(self, y):
        y = np.ascontiguousarray(y, dtype=float)
        k = y.tobytes()
        if k not in self.ids:
            self.ids[k] = len(self.at) + 1
            self.at.append((y.copy(), self.value(y)))
        return self.ids[k]

    def value(self, y):
        x = y.ravel()
        return np.array([self.b[k] + .5 * (x - self.m[k]) @ self.A[k] @ (x - self.m[k]) for k in range(self.nf)])

    def slope(self, y):
        x = y.ravel()
        g = np.array([self.A[k] @ (x - self.m[k]) for k in range(self.nf)])
        return g.reshape((self.nf,) + self.shape).transpose(1, 0, 2)

    def costs(self, y, first):
        i = self.ident(y)
        if first:
            self.n += 1
            self.events.append(('eval', 1, i))
            if self.n == self.jump:
                clock.advance(10000)
                self.events.append(('tick', 1, 10000))
        return self.at[i - 1][1].copy()

    def grad(self, y, first):
        if first:
            self.events.append(('jac', 1, self.ident(y)))
        return self.slope(y)


BOUNDED = ('L-BFGS-B', 'Nelder-Mead', 'trf', 'dogbox', 'TNC', 'SLSQP', 'Powell')
STRICT = ('L-BFGS-B', 'Nelder-Mead', 'trf', 'dogbox', 'anneal')
METHODS = ['L-BFGS-B', 'Nelder-Mead', 'trf', 'dogbox', 'L-BFGS-B', 'trf', 'BFGS', 'CG', 'Powell', 'TNC', 'SLSQP',
           'COBYLA', 'trust-constr', 'Newton-CG', 'lm', 'anneal', 'COBYQA']


def real_run(c, r, method):
    shape = (int(r.integers(1, 4)), int(r.integers(1, 4)))
    n = int(np.prod(shape))
    nf = int(r.integers(1, 4))
    if method == 'lm':
        nf = n + int(r.integers(0, 2))
    jump = int(r.integers(1, 9)) if r.integers(3) == 0 and method != 'anneal' else None
    land = SmoothLand(r, shape, nf, jump)
    sim = optim.build_simulator(land, nf, r, bool(r.integers(2)))
    jac = bool(r.integers(3)) or method in ('Newton-CG',)
    w = None if r.integers(2) else r.uniform(.2, 3, nf)
    y0 = r.normal(size=shape)
    lo = y0 - r.uniform(.05, 1, shape)
    hi = y0 + r.uniform(.05, 1, shape)
    bounds = bool(r.integers(2)) and method in BOUNDED
    it = int(r.choice([2, 5, 60]))
    kw = dict(system_simulator=sim, termination_cond=dict(max_iterations=it, max_wall_time=1000.),
              cost_func_weights=None if w is None else list(w), use_jacobian_function=jac)
    if method == 'anneal':
        y0 = r.integers(-3, 4, shape)
        bnd = np.array([np.full(shape, -4), np.full(shape, 3)])
        bnd[0][0, 0] = y0[0, 0]
        steps = int(r.choice([5, 40]))
        np.random.seed(int(r.integers(2**31)))
        import random
        random.seed(int(r.integers(2**31)))
        opt = optimize.SimulatedAnnealing(sim, bounds=bnd, steps=steps, updates=0, step_size=1)
        lo, hi, bounds, w = bnd[0], bnd[1], True, None
    elif method in ('trf', 'dogbox', 'lm'):
        opt = optimize.LeastSquaresOptimizer(method=method, bounds=(lo.T.ravel(), hi.T.ravel()) if bounds else None, **kw)
    else:
        opt = optimize.ScalarMinimizingOptimizer(
            method=method, bounds=list(zip(lo.T.ravel(), hi.T.ravel())) if bounds else None, **kw)
    info = dict(method=method, shape=shape, n_costs=nf, weights=w, bounds=bounds, gradient=jac, jump=jump, limit=it,
                initial=y0)

    def bad(what, **k):
        c.violation('%s on %s parameters: %s' % (method, shape, what), dict(info, **k))
    keep = y0.copy()
    res = opt.run_optimization(y0)
    if not np.array_equal(y0, keep):
        bad('the initial parameters of the caller are changed')
    if not same(res.init_parameters, keep):
        bad('the initial parameters of the result are %s' % (res.init_parameters,), specified=keep)
    final = None if res.final_parameters is None else np.array(res.final_parameters, float)
    early = res.status == 5
    k = None if final is None or final.shape != shape else land.ids.get(np.ascontiguousarray(final).tobytes())
    ev = [e for e in land.events if e[0] == 'eval']
    js = [e for e in land.events if e[0] == 'jac']
    c.comparisons += len(ev) + 3
    if js and not jac:
        bad('the Jacobian is evaluated %d times although it is not to be used' % len(js))
    if k is None:
        bad('the final parameters were never evaluated', got=final)
        return None
    costs = land.at[k - 1][1]
    wt = np.ones(nf) if w is None else w
    forms = [costs, costs * wt, costs.sum(), (costs * wt).sum(), np.linalg.norm(costs)]
    if not any(np.shape(f) == np.shape(res.final_cost) and np.allclose(f, res.final_cost, rtol=1e-12, atol=0) for f in forms):
        bad('final cost %s, the costs of the final parameters are %s' % (res.final_cost, costs))
    s = res.optim_summary
    if s is not None:
        ok = len(s.costs) == len(ev) == len(s.parameters) and len(s.gradients) == len(js) and all(
            np.array_equal(a, land.at[e[2] - 1][1]) and np.array_equal(b, land.at[e[2] - 1][0])
            for a, b, e in zip(s.costs, s.parameters, ev)) and all(
            np.array_equal(g, land.slope(land.at[e[2] - 1][0])) for g, e in zip(s.gradients, js))
        if not ok:
            bad('the recorded history is not the one of the evaluations', got=s.costs,
                specified=[land.at[e[2] - 1][1] for e in ev])
    if bounds:
        pts = [a for a, _ in land.at] if method in STRICT else [final]
        if any((p < lo - 1e-7).any() or (p > hi + 1e-7).any() for p in pts):
            bad('bounds are not respected', got=final, specified=[lo, hi])
    if not early and not bounds and it == 60 and method in ('L-BFGS-B', 'BFGS', 'SLSQP', 'TNC') and jac:
        g = np.einsum('tfc,f->tc', land.slope(final), wt)
        if not np.abs(g).max() < .05 * (1 + np.abs(wt).max()):
            bad('converged where the weighted costs are not minimal (slope %s)' % np.abs(g).max())
    if it <= 5 and method in ('L-BFGS-B', 'trf', 'dogbox') and jac and len(ev) > 25 * it:
        bad('%d evaluations with an iteration limit of %d' % (len(ev), it))
    order = np.argsort(np.argsort([np.linalg.norm(x[1]) for x in land.at], kind='stable'), kind='stable')
    norms = [np.linalg.norm(x[1]) for x in land.at]
    levels = {v: i for i, v in enumerate(sorted(set(norms)))}
    del order
    trace = [('new', 1, 0), ('start', 1, 1)] + land.events + [('early' if early else 'finish', 1, k)]
    return dict(info=info, trace=trace, ranks=[levels[v] for v in norms], jac=jac or True, jump=jump, early=early)


def check_traces(c, runs):
    worlds, traces = [], []
    for t in runs:
        worlds.append('[pulses |-> <<%s>>, opts |-> <<[kind |-> "any", w |-> <<>>, save |-> TRUE, store |-> FALSE, '
                      'jac |-> TRUE, it |-> 0, wall |-> 1000, gain |-> 0]>>]' % ', '.join(
                          '[g |-> 1, y |-> <<>>, c |-> <<%d>>, d |-> <<>>]' % k for k in t['ranks']))
        traces.append('<<%s>>' % ', '.join('[op |-> "%s", n |-> %d, p |-> %d]' % e for e in t['trace']))
    res = c.tlc('OptimiserTrace', consts=dict(
        Worlds=qv.Raw('<<%s>>' % ', '.join(worlds)), Traces=qv.Raw('<<%s>>' % ', '.join(traces)),
        DefIt=0, DefWall=0, DefGain=0, Ticks={10000}, LateJac=True, MaxLen=100000),
        spec='TSpec', invariants=['Evaluated', 'Accepted'], view='TView')
    ok = {m['id'] for m in res.msgs}
    for n, t in enumerate(runs):
        c.traces += 1
        if n + 1 not in ok:
            c.violation('%s: the recorded run is no behaviour of the specified optimiser (a result that is not the '
                        'best evaluation, or an evaluation after the wall time was over)' % t['info']['method'],
                        dict(t['info'], trace=t['trace'], ranks=t['ranks']))


def check(c):
    r = c.np_rng()
    ws = [world(r) for _ in range(c.pick(300, 1200))]
    length = c.pick(26, 40)
    res = c.tlc('Optimiser', consts=dict(
        Worlds=qv.Raw('<<%s>>' % ', '.join(map(tla, ws))), DefIt=DEFAULTS['max_iterations'],
        DefWall=int(DEFAULTS['max_wall_time']), DefGain=0, Ticks={2, 45, 700}, LateJac=False, MaxLen=length),
        invariants=['MinIsBest', 'Evaluated', 'Fresh', 'UnitWeights', 'Emit'], properties=['Punctual', 'Own'],
        simulate=c.pick(2000, 12000), depth=length + 6, seed=c.seed)
    seen = {}
    for m in res.msgs:
        seen[repr(m['log'])] = m
    for m in seen.values():
        Replay(c, r, ws[m['log'][0]['e']['n'] - 1], m).run()
        c.sample([(x['e']['op'], x['e']['n'], x['e']['p']) for x in m['log']])
        if c.full:
            return
    runs = []
    for k in range(c.pick(8, 40)):
        for m in METHODS:
            t = real_run(c, r, m)
            if t is not None:
                runs.append(t)
            if c.full:
                return
    c.t0 += clock._offset
    c.extra['real_minimisations'] = len(runs)
    c.extra['stopped_early'] = sum(t['early'] for t in runs)
    for k in range(0, len(runs), 60):
        check_traces(c, runs[k:k + 60])
