"""Multi-start optimisation: completion orders of MultiStart.tla on the real pool."""
import clock
import copy
import time

import numpy as np

import optim
import qv
from optim import optimize
from qopt import parallel
from qopt import noise as qn
from qopt import simulator, solver_algorithms as sa, cost_functions as cf
from qopt.matrix import DenseOperator

SX = np.array([[0, 1], [1, 0]], complex)
SZ = np.diag([1., -1.]).astype(complex)


class DelayedLand:
    """A landscape with memory: costs depend on how often they were asked for
    since the simulator was copied, and on the start by a delay."""
    def __init__(self, nf, shape, delays, memory):
        self.nf, self.shape, self.delays, self.memory = nf, shape, delays, memory
        self.n = 0
        self.first = True

    def costs(self, y, first):
        if first:
            self.n += 1
            if self.delays is not None and self.first:
                self.first = False
                time.sleep(self.delays.get(y.tobytes(), 0.))
        a = np.arange(1., 1 + y.size).reshape(y.shape) / 7
        v = np.array([((y - a * k) ** 2).sum() / (k + 1) + .1 * k for k in range(self.nf)])
        if self.memory:
            v = v + 1e-3 * (self.n % 5)
        return v

    def grad(self, y, first):
        a = np.arange(1., 1 + y.size).reshape(y.shape) / 7
        return np.stack([2 * (y - a * k) / (k + 1) for k in range(self.nf)], axis=1)


def land_optimiser(r, shape, nf, delays, memory, kind, wall=None):
    land = DelayedLand(nf, shape, delays, memory)
    sim = optim.build_simulator(land, nf, np.random.default_rng(3), bool(r.integers(2)))
    kw = dict(system_simulator=sim, save_intermediary_steps=bool(r.integers(2)),
              termination_cond={'max_iterations': int(r.choice([1, 3, 40])), 'max_wall_time': 1e5},
              cost_func_weights=None if r.integers(2) else list(r.uniform(.5, 2, nf)),
              store_optimizer=bool(r.integers(3) == 0), use_jacobian_function=bool(r.integers(2)))
    if kind == 'lsq':
        return optimize.LeastSquaresOptimizer(bounds=(-3., 3.), **kw), land
    return optimize.ScalarMinimizingOptimizer(method=kind, **kw), land


def noisy_optimiser(r):
    """Ordinary objects, with noise drawn anew for every pulse."""
    ntg = qn.NTGQuasiStatic(standard_deviation=[.2], n_samples_per_trace=2, n_traces=3,
                            sampling_mode='uncorrelated_deterministic', always_redraw_samples=bool(r.integers(2)))
    s = sa.SchroedingerSMonteCarlo(h_drift=[DenseOperator(.1 * SZ)], h_ctrl=[DenseOperator(SX)], tau=[1., .5],
                                   h_noise=[DenseOperator(SZ)], noise_trace_generator=ntg)
    c = [cf.OperationNoiseInfidelity(s, target=DenseOperator(SX), neglect_systematic_errors=False),
         cf.OperationInfidelity(s, target=DenseOperator(SX))]
    sim = simulator.Simulator(solvers=[s], cost_funcs=c)
    return optimize.ScalarMinimizingOptimizer(
        sim, bounds=[(-4, 4)] * 2, termination_cond={'max_iterations': 6, 'max_wall_time': 1e5})


def facts(res):
    s = res.optim_summary
    d = dict(final_cost=res.final_cost, final_parameters=res.final_parameters, status=res.status,
             init=res.init_parameters, indices=list(res.indices))
    return d, ([], []) if s is None else (s.costs, s.parameters)


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def digest(opt):
    return (copy.deepcopy(opt.termination_conditions), None if opt.cost_func_weights is None else
            opt.cost_func_weights.copy(), opt.pulse_shape, opt.save_intermediary_steps)


def compare(c, info, opt, pulses, processes, land=None, before=0):
    """Run the pool, then every start alone with a copy of the optimiser."""
    def bad(what, **kw):
        c.violation('multi-start with %s processes: %s' % (processes, what), dict(info, **kw))
    for k in range(before):
        opt.run_optimization(np.asarray(pulses[0], float) + k)
    pristine = copy.deepcopy(opt)
    if land is not None:
        n0 = land.n
    arr = [np.array(p) for p in pulses] if not isinstance(pulses, np.ndarray) else pulses
    keep = copy.deepcopy(arr)
    dig = digest(opt)
    if processes == 'default':
        data = parallel.run_optimization_parallel(opt, arr)
    else:
        data = parallel.run_optimization_parallel(opt, arr, processes=processes)
    if not same(list(arr), list(keep)):
        bad('the starting points are changed', got=arr, specified=keep)
    if not same(list(map(str, digest(opt))), list(map(str, dig))) or (land is not None and land.n != n0):
        bad('the optimiser passed in is changed')
    n = len(keep)
    got = (data.final_costs, data.final_parameters, data.status, data.init_parameters, data.costs, data.parameters,
           data.optimization_statistics)
    if len(data) != n or any(len(g) != n for g in got):
        bad('%d starts give %s results' % (n, [len(g) for g in got]))
        return
    for i in range(n):
        one = copy.deepcopy(pristine)
        if land is not None:
            one.system_simulator.cost_funcs[0].land.delays = None
        res = one.run_optimization(np.array(keep[i]))
        d, (costs, pars) = facts(res)
        c.comparisons += 5
        for name, a, b in (('final cost', data.final_costs[i], d['final_cost']),
                           ('final parameters', data.final_parameters[i], d['final_parameters']),
                           ('status', data.status[i], d['status']),
                           ('initial parameters', data.init_parameters[i], d['init']),
                           ('cost history', data.costs[i], costs),
                           ('parameter history', data.parameters[i], pars)):
            if not same(a, b):
                bad('%s of start %d of %d deviates from the one of a single run' % (name, i, n), got=a, specified=b)
        st = data.optimization_statistics[i]
        one_st = res.optimization_stats
        if (st is None) != (one_st is None) or (st is not None and (
                list(st.indices) != list(one_st.indices) or
                len(st.cost_func_eval_times) != len(one_st.cost_func_eval_times))):
            bad('statistics of start %d deviate from the ones of a single run' % i)
        if n and list(data.indices) != d['indices']:
            bad('names of the costs are %s' % (data.indices,))
    c.traces += 1


def check(c):
    r = c.np_rng()
    top = c.pick(4, 5)
    res = c.tlc('MultiStart', consts=dict(Starts=set(range(top + 1)), Workers={1, 2, 3}, Before={0, 2}),
                invariants=['InOrder', 'Once', 'Emit'], properties=['Terminates'], workers=4)
    runs = {}
    for m in res.msgs:
        runs[m['n'], m['m'], m['before'], tuple(m['order'])] = m
    keys = sorted(runs)
    c.extra['completion_orders'] = len(keys)
    few = [k for k in keys if k[0] <= 1]
    many = [k for k in keys if k[0] > 1]
    pick = few[:4] + [many[int(i)] for i in r.permutation(len(many))[:c.pick(24, 120)]]
    for n, m, before, order in pick:
        shape = (int(r.integers(1, 4)), int(r.integers(1, 3)))
        nf = int(r.integers(1, 4))
        starts = [r.normal(size=shape) for _ in range(n)]
        if n > 1 and r.integers(3) == 0:
            starts[1] = starts[0].copy()
        # a start scheduled to be finished k-th waits for k steps
        delays = {y.tobytes(): .02 * order.index(i + 1) for i, y in enumerate(starts)}
        memory = bool(r.integers(2))
        kind = str(r.choice(['L-BFGS-B', 'Nelder-Mead', 'lsq', 'BFGS']))
        opt, land = land_optimiser(r, shape, nf, delays, memory, kind)
        info = dict(order=order, workers=m, starts=starts, kind=kind, memory=memory, before=before)
        c.sample(dict(order=order, workers=m, before=before, kind=kind))
        given = np.array(starts) if r.integers(2) and n else starts
        if n == 0:
            given = [] if r.integers(2) else np.zeros((0,) + shape)
        compare(c, info, opt, given, m, land, before if n else 0)
        if c.full:
            return
    # many starts (several per task), all cores, other orders of duration
    for k in range(c.pick(3, 12)):
        n = int(r.choice([7, 13, 21]))
        shape = (int(r.integers(1, 4)), 2)
        starts = [r.normal(size=shape) for _ in range(n)]
        delays = {y.tobytes(): .03 * r.random() for y in starts}
        kind = str(r.choice(['L-BFGS-B', 'Nelder-Mead', 'lsq']))
        opt, land = land_optimiser(r, shape, 2, delays, True, kind)
        compare(c, dict(starts=starts, kind=kind), opt, starts, ['default', None, 2, 3][int(r.integers(4))], land)
        if c.full:
            return
    for k in range(c.pick(2, 6)):
        opt = noisy_optimiser(r)
        starts = [r.normal(size=(2, 1)) for _ in range(3)]
        compare(c, dict(starts=starts, kind='noisy'), opt, starts, int(r.integers(1, 4)), None, int(r.integers(2)))
