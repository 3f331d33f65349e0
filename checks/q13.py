"""Optimisation data: container histories of Containers.tla on the real classes."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

import optim
from optim import optimize
from qopt import performance_statistics
from qopt.analyser import Analyser
from qopt.data_container import DataContainer
from qopt.optimization_data import OptimizationResult, OptimizationSummary

BUMP = 10
LABELS = {1: ['fidelity'], 2: ['left', 'right'], 3: ['left', 'rightmost', 'x']}


def table(r, n):
    """Run contents with integer data."""
    out = []
    for _ in range(n):
        lab = int(r.choice([1, 2, 2, 2, 3]))
        nf, timed = len(LABELS[lab]), int(r.integers(1, 4))
        scalar = bool(r.integers(3) == 0)
        steps = int(r.choice([0, 1, 2, 3, 5]))
        ne, ng = int(r.integers(1, 4)), int(r.integers(0, 3))
        t0 = int(r.integers(0, 50))
        rec = dict(lab=lab, scalar=scalar, fc=[int(x) for x in r.integers(0, 9, 1 if scalar else nf)],
                   hist=[[int(x) for x in r.integers(0, 9, nf)] for _ in range(steps)],
                   ct=[[int(x) for x in r.integers(0, 9, timed)] for _ in range(ne)],
                   gt=[[int(x) for x in r.integers(0, 9, timed)] for _ in range(ng)],
                   t0=t0, t1=t0 + int(r.integers(1, 30)))
        rest = dict(nt=int(r.integers(1, 4)), nc=int(r.integers(1, 3)), status=[None, 0, 1, 4, 5][int(r.integers(5))],
                    grad=bool(r.integers(2)), num_iter=int(r.integers(0, 99)), summary=bool(steps or r.integers(2)),
                    gnorm=float(r.random()))
        out.append((rec, rest))
    return out


def initial(rest):
    return np.arange(1. * rest['nt'] * rest['nc']).reshape(rest['nt'], rest['nc']) + .25


def fields(rec, rest, v):
    """Everything a result with this content holds after v edits."""
    b = BUMP * v
    fc = np.array(rec['fc'], float) + b
    p0 = initial(rest)
    return dict(
        final_cost=float(fc[0]) if rec['scalar'] else fc, indices=LABELS[rec['lab']],
        final_parameters=p0 * 3 + b, init_parameters=p0 + b, final_grad_norm=rest['gnorm'],
        num_iter=rest['num_iter'], status=rest['status'], termination_reason='reason %d' % rest['num_iter'],
        costs=[np.array(h, float) + b for h in rec['hist']],
        parameters=[p0 + k + b for k in range(len(rec['hist']))],
        gradients=[np.arange(1. * rest['nt'] * len(LABELS[rec['lab']]) * rest['nc']).reshape(
            rest['nt'], -1, rest['nc']) + k + b for k in range(len(rec['hist']) if rest['grad'] else 0)],
        ct=[list(map(float, x)) for x in rec['ct']], gt=[list(map(float, x)) for x in rec['gt']],
        timed=['t%d' % k for k in range(max([len(x) for x in rec['ct'] + rec['gt']], default=0))],
        t0=float(rec['t0']), t1=float(rec['t1'] + b))


def build(rec, rest, r):
    f = copy.deepcopy(fields(rec, rest, 0))
    st = performance_statistics.PerformanceStatistics()
    st.start_t_opt, st.end_t_opt, st.indices = f['t0'], f['t1'], f['timed']
    st.cost_func_eval_times, st.grad_func_eval_times = f['ct'], f['gt']
    s = OptimizationSummary(indices=list(f['indices']), iter_num=len(f['costs']), costs=f['costs'],
                            gradients=f['gradients'], parameters=f['parameters']) if rest['summary'] else None
    kw = dict(final_cost=f['final_cost'], indices=list(f['indices']), final_parameters=f['final_parameters'],
              final_grad_norm=f['final_grad_norm'], init_parameters=f['init_parameters'], num_iter=f['num_iter'],
              termination_reason=f['termination_reason'], status=f['status'], optimization_stats=st,
              optimizer=None, optim_summary=s)
    if r.integers(2):
        return OptimizationResult(**kw)
    res = OptimizationResult()
    for k, x in kw.items():
        setattr(res, k, x)
    return res


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None or isinstance(a, (str, list, tuple)) or isinstance(b, (str, list, tuple)):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def result_fields(x):
    s, st = x.optim_summary, x.optimization_stats
    d = dict(final_cost=x.final_cost, indices=x.indices, final_parameters=x.final_parameters,
             init_parameters=x.init_parameters, final_grad_norm=x.final_grad_norm, num_iter=x.num_iter,
             status=x.status, termination_reason=x.termination_reason)
    if st is not None:
        d.update(ct=st.cost_func_eval_times, gt=st.grad_func_eval_times, t0=st.start_t_opt, t1=st.end_t_opt)
    if s is not None:
        d.update(costs=s.costs, parameters=s.parameters, gradients=s.gradients)
    return d


def run_fields(d, i):
    st = d.optimization_statistics[i]
    return dict(final_cost=d.final_costs[i], final_parameters=d.final_parameters[i],
                init_parameters=d.init_parameters[i], status=d.status[i], costs=d.costs[i],
                parameters=d.parameters[i], ct=st.cost_func_eval_times, gt=st.grad_func_eval_times,
                t0=st.start_t_opt, t1=st.end_t_opt)


class World:
    def __init__(self, c, tab, r, info):
        self.c, self.tab, self.r, self.info = c, tab, r, info
        self.res, self.con, self.an = [], [], []
        self.dir = tempfile.mkdtemp(prefix='qv13_')
        self.own = {}

    def bad(self, what, **kw):
        self.c.violation(what, dict(self.info, **kw))

    def path(self, f):
        return os.path.join(self.dir, 'file%d' % f)

    def container(self, own):
        kw = {} if not own and self.r.integers(2) else dict(append_time_to_path=False)
        if own:
            kw.update([dict(storage_path=self.dir, file_name='file%d' % own),
                       dict(storage_path=self.path(own), file_name=None),
                       dict(storage_path=self.path(own), file_name='')][int(self.r.integers(3))])
        d = DataContainer(**kw)
        self.add(d)

    def add(self, d):
        self.con.append(d)
        self.an.append(Analyser(d))

    def step(self, n, op):
        o = op['op']
        if o == 'result':
            self.res.append(build(*self.tab[op['c'] - 1], self.r))
        elif o == 'convert':
            x = self.res[op['i'] - 1]
            if op['how'] == 'dict':
                y = OptimizationResult.from_dict(x.to_dict())
            elif op['how'] == 'deepcopy':
                y = copy.deepcopy(x)
            else:
                y = pickle.loads(pickle.dumps(x))
            self.res.append(y)
        elif o == 'container':
            self.container(op['own'])
        elif o == 'append':
            try:
                self.con[op['k'] - 1].append_optim_result(self.res[op['i'] - 1])
                if not op['ok']:
                    self.bad('step %d: a result with other cost labels is accepted' % n)
            except Exception as e:
                if op['ok']:
                    self.bad('step %d: a result is refused: %r' % (n, e))
        elif o == 'copy':
            d = self.con[op['k'] - 1]
            self.add(copy.deepcopy(d) if op['how'] == 'deepcopy' else pickle.loads(pickle.dumps(d)))
        elif o == 'store':
            d = self.con[op['k'] - 1]
            if op['by'] == 'own' and self.r.integers(2):
                d.to_pickle()
            else:
                d.to_pickle(self.path(op['f']))
        elif o == 'load':
            self.add(DataContainer.from_pickle(self.path(op['f'])))
        elif o == 'edit':
            self.edit(self.con[op['k'] - 1], op['i'] - 1)
        elif o == 'editresult':
            self.edit_result(self.res[op['i'] - 1])
        else:
            self.read(n, op)

    # edits in place -------------------------------------------------------
    def edit(self, d, i):
        if isinstance(d.final_costs[i], float):
            d.final_costs[i] += BUMP
        else:
            d.final_costs[i][...] += BUMP
        for x in [d.final_parameters[i], d.init_parameters[i]] + list(d.costs[i]) + list(d.parameters[i]):
            x[...] += BUMP
        d.optimization_statistics[i].end_t_opt += BUMP

    def edit_result(self, x):
        if isinstance(x.final_cost, float):
            x.final_cost += BUMP
        else:
            x.final_cost[...] += BUMP
        s = x.optim_summary
        for y in [x.final_parameters, x.init_parameters] + ([] if s is None else s.costs + s.parameters + s.gradients):
            y[...] += BUMP
        x.optimization_stats.end_t_opt += BUMP

    # observations -----------------------------------------------------------
    def read(self, n, op):
        c = self.c
        for i, e in enumerate(op['res']):
            if not e['known']:
                continue
            want = fields(*self.tab[e['c'] - 1], e['v'])
            got = result_fields(self.res[i])
            # edits through a container do not reach everything a result holds
            for k, x in got.items():
                c.comparisons += 1
                if not same(x, want[k]):
                    self.bad('step %d: %s of result %d is %s' % (n, k, i + 1, x), specified=want[k])
        for k, (m, a) in enumerate(zip(op['con'], op['an'])):
            d = self.con[k]
            size = len(m['runs'])
            lists = dict(final_costs=d.final_costs, init_parameters=d.init_parameters, costs=d.costs,
                         final_parameters=d.final_parameters, parameters=d.parameters, status=d.status,
                         optimization_statistics=d.optimization_statistics)
            wrong = {x: len(y) for x, y in lists.items() if len(y) != size}
            if len(d) != size or wrong:
                self.bad('step %d: container %d lists %d runs %s, not %d' % (n, k + 1, len(d), wrong, size))
                continue
            if size and (list(d.indices) != LABELS[m['lab']] or list(d.index) != LABELS[m['lab']]):
                self.bad('step %d: labels of container %d are %s (index: %s)' % (n, k + 1, d.indices, d.index))
            for i, e in enumerate(m['runs']):
                want = fields(*self.tab[e['c'] - 1], e['v'])
                got = run_fields(d, i)
                for q, x in got.items():
                    # edits of a shared memory say nothing about other members;
                    # what they never touch is still known
                    if not e['known'] and q not in ('status', 'ct', 'gt', 't0'):
                        continue
                    c.comparisons += 1
                    if not same(x, want[q]):
                        self.bad('step %d: %s of run %d in container %d is %s' % (n, q, i + 1, k + 1, x),
                                 specified=want[q])
            if a['ok']:
                self.analyse(n, k, m, a)

    def analyse(self, n, k, m, a):
        c = self.c
        an = self.an[k] if self.r.integers(2) else Analyser(self.con[k])

        def cmp(what, got, want):
            c.comparisons += 1
            got, want = np.asarray(got, float), np.asarray(want, float)
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=0, equal_nan=True):
                self.bad('step %d: %s of container %d is %s' % (n, what, k + 1, got), specified=want)
        if an.n_least_square + 1 not in a['best']:
            self.bad('step %d: best run of container %d is %s' % (n, k + 1, an.n_least_square), specified=a['best'])
        sq = np.array(a['abs'], float).reshape(len(m['runs']), -1)
        want = np.where(sq < 0, np.nan, np.sqrt(np.abs(sq)))
        cmp('table of total costs', an.absolute_costs(), want)
        cmp('durations of the runs', an.opt_times(), a['opt'])
        for i in range(len(m['runs'])):
            cmp('duration of cost evaluations of run %d' % i, an.integral_cost_fkt_times(i), a['ct'][i])
            if a['gt'][i]:
                cmp('duration of gradient evaluations of run %d' % i, an.integral_grad_fkt_times(i), a['gt'][i])
        cmp('total time of costs', an.total_cost_fkt_time(), a['totc'])
        cmp('total time of gradients', an.total_grad_fkt_time(), a['totg'])
        cmp('time share of costs', an.time_share_cost_fkt(), a['totc'] / sum(a['opt']))
        cmp('time share of gradients', an.time_share_grad_fkt(), a['totg'] / sum(a['opt']))
        if self.r.integers(12) == 0:
            self.plots(n, k, m, an, want)

    def plots(self, n, k, m, an, want):
        import matplotlib.pyplot as plt
        try:
            i = int(self.r.integers(len(m['runs'])))
            e = m['runs'][i]
            f = fields(*self.tab[e['c'] - 1], e['v'])
            if f['costs']:
                log = bool(self.r.integers(2))
                ax = an.plot_costs(i, log_y=log)
                got = [(x.get_label(), list(x.get_ydata())) for x in ax.get_lines()]
                spec = [(lab, [h[j] for h in f['costs']]) for j, lab in enumerate(f['indices'])]
                if got != spec or ax.get_yscale() != ('log' if log else 'linear'):
                    self.bad('step %d: plot of run %d of container %d shows %s' % (n, i, k + 1, got), specified=spec)
                fig, ax = an.plot_absolute_costs()
                got = np.array([x.get_ydata() for x in ax.get_lines()], float)
                if not np.allclose(got, want, equal_nan=True):
                    self.bad('step %d: plot of total costs shows %s' % (n, got), specified=want)
                self.c.comparisons += 2
        finally:
            plt.close('all')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# --------------------------------------------------------------- real results
class Bowl:
    def __init__(self, nf, shape):
        self.nf, self.shape = nf, shape

    def costs(self, y, first):
        return np.array([((y - k) ** 2).sum() / (k + 1) + .1 * k for k in range(self.nf)])

    def grad(self, y, first):
        return np.stack([2 * (y - k) / (k + 1) for k in range(self.nf)], axis=1)


def real_results(c, r):
    """Results of real runs: every field survives every conversion."""
    shape = (int(r.integers(1, 4)), int(r.integers(1, 3)))
    nf = int(r.integers(1, 4))
    sim = optim.build_simulator(Bowl(nf, shape), nf, r, bool(r.integers(2)))
    kw = dict(system_simulator=sim, save_intermediary_steps=bool(r.integers(2)), store_optimizer=bool(r.integers(2)),
              termination_cond={'max_iterations': int(r.integers(1, 30)), 'max_wall_time': 1e5})
    kind = str(r.choice(['L-BFGS-B', 'Nelder-Mead', 'lsq', 'BFGS']))
    if kind == 'lsq':
        opt = optimize.LeastSquaresOptimizer(bounds=(-9., 9.), **kw)
    else:
        opt = optimize.ScalarMinimizingOptimizer(method=kind, **kw)
    res = opt.run_optimization(r.normal(size=shape))
    info = dict(kind=kind, shape=shape, nf=nf)
    want = copy.deepcopy(result_fields(res))
    ways = dict(dictionary=lambda: OptimizationResult.from_dict(res.to_dict()), deepcopy=lambda: copy.deepcopy(res),
                pickle=lambda: pickle.loads(pickle.dumps(res)),
                dictionary_file=lambda: OptimizationResult.from_dict(pickle.loads(pickle.dumps(res.to_dict()))))
    for how, f in ways.items():
        y = f()
        got = result_fields(y)
        for k in sorted(set(want) | set(got)):
            c.comparisons += 1
            if k not in got or k not in want or not same(got[k], want[k]):
                c.violation('%s of a result is lost by %s' % (k, how), dict(info, got=got.get(k), specified=want.get(k)))
        if (y.optimizer is None) != (res.optimizer is None) or (
                y.optimizer is not None and type(y.optimizer) is not type(res.optimizer)):
            c.violation('optimizer of a result is lost by %s' % how, info)
        extra = set(vars(res)) ^ set(vars(y))
        if extra:
            c.violation('attributes %s differ after %s' % (extra, how), info)


def check(c):
    r = c.np_rng()
    # exhaustive: two contents of the same labels, one with others
    small = [dict(lab=1, scalar=True, fc=[3], hist=[[1]], ct=[[1]], gt=[], t0=0, t1=2),
             dict(lab=2, scalar=False, fc=[1, 2], hist=[], ct=[[1, 1]], gt=[[1, 0]], t0=1, t1=2)]
    c.tlc('Containers', consts=dict(Runs=small, Files={1}, MaxObj=2, MaxLen=c.pick(6, 7)), workers=8,
          invariants=['KnownAgree', 'OneLabel'], properties=['FilesFrozen', 'Ordered'])
    for batch in range(c.pick(6, 30)):
        tab = table(r, 7)
        if batch % 2:      # labels alike: longer containers
            for rec, rest in tab[:5]:
                rec['lab'] = 2
                for k in ('hist', 'ct', 'gt'):
                    rec[k] = [(x * 2)[:2] for x in rec[k]]
                if not rec['scalar']:
                    rec['fc'] = (rec['fc'] * 2)[:2]
        res = c.tlc('Containers', consts=dict(Runs=[x for x, _ in tab], Files={1, 2}, MaxObj=5, MaxLen=24),
                    invariants=['KnownAgree', 'OneLabel', 'Emit'], simulate=c.pick(50, 200), depth=28,
                    seed=c.seed + batch)
        for m in res.msgs:
            w = World(c, tab, r, dict(log=[{k: x for k, x in o.items() if k not in ('res', 'con', 'an')}
                                           for o in m['log']], table=[dict(a, **b) for a, b in tab]))
            try:
                for n, op in enumerate(m['log']):
                    w.step(n, op)
                    c.actions[op['op']] = c.actions.get(op['op'], 0) + 1
            finally:
                w.close()
            c.traces += 1
            c.sample(w.info['log'][:12])
            if c.full:
                return
    for k in range(c.pick(20, 120)):
        real_results(c, r)
        c.traces += 1
        if c.full:
            return
