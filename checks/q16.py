"""Objects shared between the objects of the library: programs of Sharing.tla.

Every program is executed once on shared objects, as the caller would; every
answer is compared with the value of its tree, evaluated on separate copies.
Objects of the caller, and answers given before, are compared bit by bit
after every step."""
import copy

import numpy as np

import qv
from qopt import (analyser, cost_functions as cf, data_container, matrix as qm, noise as qn, optimize,
                  simulator as si, solver_algorithms as sa, transfer_function as tfm)
from qopt.amplitude_functions import CustomAmpFunc, IdentityAmpFunc, UnaryAnalyticAmpFunc
from qopt.matrix import DenseOperator
from scenes import rand_c, rand_h, rand_u

TOL = 1e-7
VERSIONS = 3


# ------------------------------------------------------------------ answers
def plain(x):
    """An answer as nested lists of arrays (copied)."""
    if isinstance(x, DenseOperator):
        return np.array(x.data)
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return [plain(x[k]) for k in sorted(x)]
    if x is None or isinstance(x, str):
        return str(x)
    return np.array(x)


def distance(a, b):
    if type(a) is not type(b):
        return np.inf
    if isinstance(a, list):
        return np.inf if len(a) != len(b) else max([0.] + [distance(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or a.dtype.kind in 'US':
        return 0. if np.array_equal(a, b) else np.inf
    if a.shape != b.shape:
        return np.inf
    if not a.size or np.array_equal(a, b, equal_nan=True):
        return 0.
    d = np.max(np.abs(a - b)) / max(1., np.max(np.abs(b)))
    return float(d) if np.isfinite(d) else np.inf


def snap(x, deep=True):
    """What an object of the caller looks like, down to identities."""
    if isinstance(x, DenseOperator):
        return ('op', type(x).__name__, id(x), snap(x.data, False))
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, x.dtype.str, x.strides, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple((id(i), snap(i)) for i in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (str, int, float, complex, bool, type(None), np.generic)):
        return x
    return id(x)


# -------------------------------------------------------------------- world
class World:
    """Contents of the leaves, and the calls."""

    def __init__(self, r):
        self.r = r
        self.d = 4
        self.over = int(r.integers(1, 3))
        self.nt = 2
        n = self.nt * self.over
        d = self.d
        self.leaves = []          # (types, function of (version) giving an object)
        self.salt = int(r.integers(1 << 30))
        ops = [('H%d' % i, rand_h(r, d, 'full'), {'herm', 'op', 'hd', 'any'}) for i in range(3)]
        ops += [('Hi', np.array(np.diag([1, -1, 2, 0]), dtype=float), {'herm', 'op', 'any'})]
        ops += [('U%d' % i, rand_u(r, d), {'unit', 'op', 'any'}) for i in range(2)]
        kets = [rand_c(r, d, 1) for _ in range(2)]
        kets = [k / np.linalg.norm(k) for k in kets]
        ops += [('K%d' % i, k, {'ket'}) for i, k in enumerate(kets)]
        k = rand_c(r, 2, 1)
        ops += [('R', k / np.linalg.norm(k), {'rket'})]
        ops += [('u', rand_u(r, 2), {'unit2'})]
        ops += [('J0', rand_c(r, d) * .3, {'any'}), ('J1', rand_c(r, d) * .3, {'any'})]
        self.opm = {name: m for name, m, _ in ops}
        self.id = {}
        for name, m, t in ops:
            self.add(name, t, lambda v, o, m=m: DenseOperator(m.copy()))
        G = [rand_c(r, d * d) * .1 for _ in range(2)]
        for i, g in enumerate(G):
            self.add('G%d' % i, {'sup'}, lambda v, o, g=g: DenseOperator(g.copy()))

        def lst(name, types, items):
            self.add(name, types, lambda v, o: [o(i) for i in items])
        hd = {'hd'} if n == 2 else set()
        lst('L01', {'hl2', 'hn2'} | hd, ['H0', 'H1'])
        lst('L12', {'hl2', 'hn2', 'jl'} | hd, ['H1', 'H2'])
        lst('L11', {'hl2', 'hn2'} | hd, ['H1', 'H1'])
        lst('Li', {'hl2'} | hd, ['H0', 'Hi'])
        lst('L0', {'hd', 'hn1', 'jl'}, ['H0'])
        lst('L2', {'hd', 'hn1'}, ['H2'])
        if n == 4:
            lst('L4', {'hd'}, ['H0', 'H1', 'H0', 'H2'])
        lst('JJ', {'jl'}, ['J0', 'J1'])
        lst('JH', {'jl'}, ['J0', 'H2'])
        lst('GG', {'gl'}, ['G%d' % (i % 2) for i in range(n)])
        lst('G', {'gl'}, ['G0'])

        def arr(name, types, a, how=None):
            self.add(name, types, lambda v, o: copy.deepcopy(a))
        self.pars = r.normal(size=(3, VERSIONS, self.nt, 2))
        if r.integers(2):         # small differences between the contents
            self.pars[0, 1] = self.pars[0, 0]
            self.pars[0, 1, -1, -1] += 1e-3
        for k in range(2):
            self.add('y%d' % k, {'par'}, lambda v, o, k=k: self.array(k, v))
        arr('tau', {'tau'}, r.uniform(.2, .8, self.nt))
        arr('taul', {'tau'}, [.4, .4])
        arr('std2', {'std2'}, [.3, .2])
        arr('std2a', {'std2'}, np.array([.2, .4]))
        arr('std1', {'std1'}, [.3])
        arr('nz2', {'nz2'}, r.normal(size=(2, 3, n)) * .4)
        arr('nz1', {'nz1'}, r.normal(size=(1, 3, n)) * .4)
        arr('ker', {'ker'}, np.array([.25, .5, .2]))
        arr('ker2', {'ker'}, np.array([[.1, .2], [.7, .5], [.2, .1]]))
        arr('M', {'mat'}, r.normal(size=(n, self.nt, 2)))
        arr('m', {'mat1'}, r.normal(size=(n, self.nt, 1)))
        arr('xt', {'xt'}, r.uniform(.1, .4, n))
        arr('cs', {'cs'}, [0, 1])
        arr('cs2', {'cs'}, [3, 1])
        # one factor of two levels is kept
        dims, rem = [([2, 1, 2], [2, 1]), ([2, 2, 1], [2, 0]), ([1, 2, 2], [1, 0])][int(r.integers(3))]
        arr('dims', {'dims'}, dims)
        arr('rem', {'rem'}, rem)
        arr('lab', {'lab'}, ['a'])
        arr('om', {'om'}, np.array([.1, 1., 5.]))
        arr('oml', {'om'}, [.2, 3.])
        arr('term', {'term'}, dict(max_iterations=3, max_wall_time=600, min_cost_gain=1e-12))
        arr('w', {'wts'}, np.array([.5, 2.]))
        arr('wl', {'wts'}, [2, 1])
        arr('w0', {'wts'}, None)
        arr('bndls', {'bndls'}, [np.full(4, -5.), np.full(4, 5.)])
        arr('bndlsa', {'bndls'}, np.array([[-4.] * 4, [4.5] * 4]))
        arr('bnd', {'bnd'}, [(-5., 5.)] * 4)
        arr('bnda', {'bnd'}, np.array([[-4., 4.5]] * 4))
        arr('da', {'dam'}, r.normal(size=(n, 2, 2)))
        arr('dw', {'dam'}, np.asfortranarray(r.normal(size=(n, 2, 2))))
        co = [r.uniform(.5, 1.5, n) for _ in range(2)]

        def ff(v, o):
            return [[o('H2'), co[0].copy(), 'q'], [o('H1'), co[1].copy(), 'p']]
        self.add('ff', {'ff'}, ff)

        def costs(v, o):
            return [[[.1, .5], [.05, .6]], [[.2, .3]], []]
        self.add('hist', {'hist'}, costs)
        arr('fin', {'fin'}, [np.array([.05, .6]), np.array([.2, .3]), np.array([.7, .3])])
        self.ac = r.normal(size=(2, 2))

    def add(self, name, types, make):
        self.id[name] = len(self.leaves) + 1
        self.leaves.append((name, types, make))

    def parval(self, k, v):
        return self.pars[k, v]

    def array(self, k, v):
        """The array of parameters, in the memory layout of this leaf."""
        a = self.parval(k, v)
        how = (self.salt >> (2 * k)) % 4
        if how == 1:
            return np.asfortranarray(a)
        if how == 2:
            big = np.zeros((3, 5))
            big[1:, 1::2] = a
            return big[1:, 1::2]
        return a.copy()

    def leaf(self, i, v, memo):
        """Object of leaf i; operators of lists are those of memo."""
        name, types, make = self.leaves[i - 1]

        def obj(n):
            k = self.id[n]
            if k not in memo:
                memo[k] = self.leaf(k, 0, memo)
            return memo[k]
        return make(v, obj)

    # ---- transfer functions
    def shape(self, t, tau, k):
        t.set_times(tau)
        t.verif_tau = tau
        return t


CALLS = []


def call(name, args, eff, makes=()):
    def deco(f):
        CALLS.append(dict(name=name, args=args.split(), eff=eff, makes=set(makes), f=f))
        return f
    return deco


def bind(t, tau):
    t.set_times(tau)
    t.verif_tau = tau
    return t


def kw(w, t, hd, hc):
    return dict(h_drift=hd, h_ctrl=hc, tau=t.verif_tau, transfer_function=t)


S = ('solver', 'takes', 'usolver')


def make(*a):
    return call(*a)


# over = 1 and over = 2 share the names of the kinds
@call('tf', 'tau', 'make', {'tf'})
def _tf(w, tau):
    return bind(tfm.IdentityTF(num_ctrls=2) if w.over == 1 else
                tfm.OversamplingTF(oversampling=2, num_ctrls=2), tau)


@call('tfm', 'tau', 'make', {'tf'})
def _tfm(w, tau):
    return bind(tfm.OversamplingMTF(oversampling=w.over, num_ctrls=2, offset=.2), tau)


@call('tfcustom', 'tau mat', 'make', {'tf'})
def _tfc(w, tau, mat):
    return bind(tfm.CustomMTF(mat, num_ctrls=2), tau)


@call('tftimes', 'tau mat xt', 'make', {'tf'})
def _tfx(w, tau, mat, xt):
    return bind(tfm.CustomMTF(mat, x_times=xt, num_ctrls=2), tau)


@call('tfconv', 'tau ker', 'make', {'tf'})
def _tfv(w, tau, ker):
    t = tfm.ConvolutionTF(ker, num_ctrls=2)
    if w.over > 1:
        t = tfm.ConcatenateTF(tfm.OversamplingTF(oversampling=2, num_ctrls=2), t)
    return bind(t, tau)


@call('tfpar', 'tau mat1', 'make', {'tf'})
def _tfp(w, tau, mat):
    return bind(tfm.ParallelMTF(tfm.CustomMTF(mat, num_ctrls=1), tfm.CustomMTF(mat, num_ctrls=1)), tau)


@call('tfexp', 'tau', 'make', {'tf'})
def _tfe(w, tau):
    t = np.array(tau, dtype=float)
    if np.ptp(t) > 0:
        return _tf(w, tau)
    return bind(tfm.ExponentialMTF(awg_rise_time=.3, oversampling=w.over, num_ctrls=2), tau)


@call('ntg2', 'std2', 'make', {'ntg2'})
def _n2(w, std):
    return qn.NTGQuasiStatic(std, n_samples_per_trace=w.nt * w.over, n_traces=2)


@call('ntg2keep', 'std2', 'make', {'ntg2'})
def _n2k(w, std):
    return qn.NTGQuasiStatic(std, n_samples_per_trace=w.nt * w.over, n_traces=3, always_redraw_samples=False)


@call('ntg2given', 'std2 nz2', 'make', {'ntg2'})
def _n2g(w, std, nz):
    return qn.NTGQuasiStatic(std, n_samples_per_trace=w.nt * w.over, noise_samples=nz,
                             n_traces=3, sampling_mode='monte_carlo',
                             correct_std_for_discrete_sampling=False, always_redraw_samples=False)


@call('ntg1', 'std1', 'make', {'ntg1'})
def _n1(w, std):
    return qn.NTGQuasiStatic(std, n_samples_per_trace=w.nt * w.over, n_traces=2,
                             correct_std_for_discrete_sampling=False)


@call('ntg1given', 'std1 nz1', 'make', {'ntg1'})
def _n1g(w, std, nz):
    return qn.NTGQuasiStatic(std, n_samples_per_trace=w.nt * w.over, noise_samples=nz,
                             n_traces=3, sampling_mode='monte_carlo',
                             correct_std_for_discrete_sampling=False, always_redraw_samples=False)


@call('closed', 'tf hd hl2', 'make', {'solver', 'usolver', 'takes'})
def _closed(w, t, hd, hc):
    return sa.SchroedingerSolver(**kw(w, t, hd, hc))


@call('closedinit', 'tf hd hl2 unit', 'make', {'solver', 'usolver', 'takes'})
def _closedi(w, t, hd, hc, u):
    return sa.SchroedingerSolver(initial_state=u, exponential_method='spectral',
                                 calculate_propagator_derivatives=False, **kw(w, t, hd, hc))


@call('closedff', 'tf hd hl2 ff', 'make', {'solver', 'usolver', 'ffsolver', 'takes'})
def _closedf(w, t, hd, hc, ff):
    return sa.SchroedingerSolver(filter_function_h_n=ff, **kw(w, t, hd, hc))


@call('closedlazy', 'tf hd hl2', 'make', {'solver', 'usolver', 'takes'})
def _closedl(w, t, hd, hc):
    # the amplitudes are the very array it is given
    return sa.SchroedingerSolver(amplitude_function=CustomAmpFunc(
        lambda x: x, lambda x: np.einsum('ij,t->tij', np.eye(2), np.ones(len(x)))), **kw(w, t, hd, hc))


@call('closedamp', 'tf hd hl2', 'make', {'solver', 'usolver', 'takes'})
def _closeda(w, t, hd, hc):
    return sa.SchroedingerSolver(frechet_deriv_approx_method='grape', amplitude_function=UnaryAnalyticAmpFunc(
        lambda x: x + .2 * x ** 2, lambda x: 1 + .4 * x), **kw(w, t, hd, hc))


@call('ketsolver', 'tf hd hl2 ket', 'make', {'solver', 'ksolver', 'takes'})
def _ket(w, t, hd, hc, k):
    return sa.SchroedingerSolver(initial_state=k, **kw(w, t, hd, hc))


@call('mc2', 'tf hd hl2 hn2 ntg2', 'make', {'solver', 'usolver', 'mcsolver', 'takes'})
def _mc2(w, t, hd, hc, hn, g):
    return sa.SchroedingerSMonteCarlo(h_noise=hn, noise_trace_generator=g, **kw(w, t, hd, hc))


@call('mc1', 'tf hd hl2 hn1 ntg1', 'make', {'solver', 'usolver', 'mcsolver', 'takes'})
def _mc1(w, t, hd, hc, hn, g):
    return sa.SchroedingerSMonteCarlo(
        h_noise=hn, noise_trace_generator=g, calculate_propagator_derivatives=True,
        noise_amplitude_function=lambda noise_samples, **_: noise_samples, **kw(w, t, hd, hc))


@call('mcket', 'tf hd hl2 hn1 ntg1 ket', 'make', {'solver', 'mcksolver', 'takes'})
def _mck(w, t, hd, hc, hn, g, k):
    return sa.SchroedingerSMonteCarlo(h_noise=hn, noise_trace_generator=g, initial_state=k,
                                      **kw(w, t, hd, hc))


@call('mccn', 'tf hd hl2 ntg2', 'make', {'solver', 'usolver', 'mcsolver', 'takes'})
def _mccn(w, t, hd, hc, g):
    return sa.SchroedingerSMCControlNoise(noise_trace_generator=g, **kw(w, t, hd, hc))


@call('lind', 'tf hd hl2 jl', 'make', {'solver', 'lsolver', 'takes'})
def _lind(w, t, hd, hc, jl):
    return sa.LindbladSolver(lindblad_operators=jl, **kw(w, t, hd, hc))


@call('lindsup', 'tf hd hl2 gl', 'make', {'solver', 'lsolver', 'takes'})
def _linds(w, t, hd, hc, gl):
    return sa.LindbladSolver(initial_diss_super_op=gl, **kw(w, t, hd, hc))


@call('lindboth', 'tf hd hl2 gl jl', 'make', {'solver', 'lsolver', 'takes'})
def _lindb(w, t, hd, hc, gl, jl):
    return sa.LindbladSolver(initial_diss_super_op=gl, lindblad_operators=jl,
                             prefactor_function=lambda u, x: np.stack([.1 + u[:, 0] ** 2] * len(jl), axis=1),
                             **kw(w, t, hd, hc))


@call('lindsupp', 'tf hd hl2 gl', 'make', {'solver', 'lsolver', 'takes'})
def _lindsp(w, t, hd, hc, gl):
    # rates of exactly one (and zero) among others
    return sa.LindbladSolver(initial_diss_super_op=gl, prefactor_function=lambda u, x: np.array(
        [[1., .5, 1., 0.][(i + k) % 4] for i in range(len(u)) for k in range(len(gl))]).reshape(len(u), len(gl)),
        **kw(w, t, hd, hc))


@call('lindfun', 'tf hd hl2 gl', 'make', {'solver', 'lsolver', 'takes'})
def _lindf(w, t, hd, hc, gl):
    # the very operators of the caller are returned, one for every slice
    return sa.LindbladSolver(super_operator_function=lambda u, x: [gl[i % len(gl)] for i in range(len(u))],
                             **kw(w, t, hd, hc))


# ---- cost functions
@call('op', 'usolver unit', 'make', {'cost', 'grad', 'keeps'})
def _op(w, s, u):
    return cf.OperationInfidelity(s, u)


@call('opav', 'usolver unit lab', 'make', {'cost', 'keeps'})
def _opa(w, s, u, lab):
    return cf.OperationInfidelity(s, u, label=lab)


@call('opsub', 'usolver unit2 cs', 'make', {'cost', 'grad', 'keeps'})
def _ops(w, s, u, cs):
    return cf.OperationInfidelity(s, u, computational_states=cs)


@call('opsubu', 'usolver unit2 cs', 'make', {'cost', 'grad', 'keeps'})
def _opsu(w, s, u, cs):
    return cf.OperationInfidelity(s, u, computational_states=cs, map_to_closest_unitary=True)


@call('sup', 'lsolver unit', 'make', {'cost', 'grad', 'keeps'})
def _sup(w, s, u):
    return cf.OperationInfidelity(s, u, super_operator_formalism=True)


@call('supsub', 'lsolver unit2 cs', 'make', {'cost', 'grad', 'keeps'})
def _supc(w, s, u, cs):
    return cf.OperationInfidelity(s, u, super_operator_formalism=True, computational_states=cs)


@call('norm', 'usolver unit', 'make', {'cost', 'keeps'})
def _norm(w, s, u):
    return cf.OperatorMatrixNorm(s, u, mode='scalar')


@call('normv', 'usolver unit', 'make', {'vcost', 'keeps'})
def _normv(w, s, u):
    return cf.OperatorMatrixNorm(s, u, mode='vector')


@call('state', 'ksolver ket', 'make', {'cost', 'grad', 'keeps'})
def _st(w, s, k):
    return cf.StateInfidelity(s, k)


@call('statesub', 'ksolver rket cs', 'make', {'cost', 'grad', 'keeps'})
def _sts(w, s, k, cs):
    return cf.StateInfidelity(s, k, computational_states=cs)


@call('stateres', 'ksolver rket cs', 'make', {'cost', 'keeps'})
def _str(w, s, k, cs):
    return cf.StateInfidelity(s, k, computational_states=cs, rescale_propagated_state=True)


@call('statered', 'ksolver rket dims rem', 'make', {'cost', 'grad', 'keeps'})
def _std(w, s, k, dims, rem):
    return cf.StateInfidelitySubspace(s, k, dims=dims, remove=rem)


@call('opn', 'mcsolver unit', 'make', {'cost', 'grad', 'keeps'})
def _opn(w, s, u):
    return cf.OperationNoiseInfidelity(s, u, neglect_systematic_errors=False)


@call('opnn', 'mcsolver unit', 'make', {'cost', 'grad', 'keeps'})
def _opnn(w, s, u):
    return cf.OperationNoiseInfidelity(s, u)


@call('opns', 'mcsolver unit2 cs', 'make', {'cost', 'keeps'})
def _opns(w, s, u, cs):
    return cf.OperationNoiseInfidelity(s, u, computational_states=cs, map_to_closest_unitary=True,
                                       neglect_systematic_errors=False)


@call('stn', 'mcksolver ket', 'make', {'cost', 'keeps'})
def _stn(w, s, k):
    return cf.StateNoiseInfidelity(s, k)


@call('stnf', 'mcksolver ket', 'make', {'cost', 'keeps'})
def _stnf(w, s, k):
    return cf.StateNoiseInfidelity(s, k, neglect_systematic_errors=False)


@call('lmc', 'mcsolver unit', 'make', {'cost', 'keeps'})
def _lmc(w, s, u):
    return cf.LiouvilleMonteCarloEntanglementInfidelity(s, u)


@call('ff', 'ffsolver om', 'make', {'vcost', 'keeps'})
def _ff(w, s, om):
    return cf.OperatorFilterFunctionInfidelity(s, lambda o: 1e-3 / (1 + np.abs(o)), om)


@call('leak', 'usolver cs', 'make', {'cost', 'grad', 'keeps'})
def _leak(w, s, cs):
    return cf.LeakageError(s, cs)


@call('leakl', 'lsolver cs', 'make', {'cost', 'keeps'})
def _leakl(w, s, cs):
    return cf.LeakageLiouville(s, cs)


@call('leaki', 'mcsolver cs', 'make', {'cost', 'keeps'})
def _leaki(w, s, cs):
    return cf.IncoherentLeakageError(s, cs)


# ---- simulators and optimisers
def simulator(w, costs, **k):
    solvers = []
    for x in costs:
        if not any(x.solver is s for s in solvers):
            solvers.append(x.solver)
    return si.Simulator(w.own(solvers), w.own(list(costs)), **k)


@call('sim', 'cost cost', 'make', {'sim', 'wsim', 'keeps'})
def _sim(w, a, b):
    return simulator(w, [a, b])


@call('simv', 'vcost cost', 'make', {'sim', 'keeps'})
def _simv(w, a, b):
    return simulator(w, [a, b])


@call('simg', 'grad grad', 'make', {'sim', 'gsim', 'wsim', 'keeps'})
def _simg(w, a, b):
    return simulator(w, [a, b])


@call('simn', 'cost', 'make', {'sim1', 'keeps'})
def _simn(w, a):
    return simulator(w, [a], numeric_jacobian=True)


@call('simp', 'grad par', 'makepar', {'psim', 'keeps', 'takes'})
def _simp(w, a, y):
    return simulator(w, [a], optimization_parameters=y)


@call('optls', 'gsim term wts bndls', 'make', {'opt', 'keeps'})
def _optls(w, s, term, wts, bnd):
    return optimize.LeastSquaresOptimizer(s, termination_cond=term, cost_func_weights=wts, bounds=bnd)


@call('optlb', 'gsim term wts bnd', 'make', {'opt', 'keeps'})
def _optlb(w, s, term, wts, bnd):
    return optimize.ScalarMinimizingOptimizer(s, termination_cond=term, cost_func_weights=wts, bounds=bnd)


@call('optnm', 'wsim term wts', 'make', {'opt', 'keeps'})
def _optnm(w, s, term, wts):
    return optimize.ScalarMinimizingOptimizer(s, termination_cond=term, cost_func_weights=wts,
                                              method='Nelder-Mead', use_jacobian_function=False)


# ---- parameters
@call('submit', 'solver par', 'set')
def _submit(w, s, y):
    s.set_optimization_parameters(y)


@call('pulse', 'psim par', 'set')
def _pulse(w, s, y):
    s.pulse = y


# ---- questions
@call('props', 'solver', 'ask')
def _props(w, s):
    return [s.propagators, s.forward_propagators, s.reversed_propagators]


@call('rev', 'solver', 'ask')
def _rev(w, s):
    return [s.reversed_propagators, s.forward_propagators]


@call('der', 'solver', 'ask')
def _der(w, s):
    return s.frechet_deriv_propagators


@call('nprops', 'mcsolver', 'ask')
def _nprops(w, s):
    return [s.propagators_noise, s.forward_propagators_noise, s.reversed_propagators_noise]


@call('nder', 'mcsolver', 'ask')
def _nder(w, s):
    return s.frechet_deriv_propagators_noise


@call('amps', 'solver', 'ask')
def _amps(w, s):
    return [s._ctrl_amps, s.transferred_parameters] if hasattr(s, 'transferred_parameters') else s._ctrl_amps


@call('pulseseq', 'ffsolver', 'ask')
def _ps(w, s):
    p = s.create_pulse_sequence()
    return [p.dt, p.c_coeffs, p.n_coeffs, p.total_propagator]


@call('costs', 'cost', 'ask')
def _costs(w, c):
    return c.costs()


@call('grad', 'grad', 'ask')
def _grad(w, c):
    return c.grad()


@call('vcosts', 'vcost', 'ask')
def _vgrad(w, c):
    return c.costs()


@call('label', 'cost', 'ask')
def _label(w, c):
    return list(c.label)


@call('eval', 'sim par', 'eval')
def _eval(w, s, y):
    return s.wrapped_cost_functions(y)


@call('jac', 'gsim par', 'eval')
def _jac(w, s, y):
    return s.wrapped_jac_function(y)


@call('eval1', 'sim1 par', 'eval')
def _eval1(w, s, y):
    return s.wrapped_cost_functions(y)


@call('evalown', 'psim', 'own')
def _evalown(w, s):
    return s.wrapped_cost_functions()


@call('jacown', 'psim', 'own')
def _jacown(w, s):
    return s.wrapped_jac_function()


@call('numgrad', 'sim1 par', 'run')
def _numgrad(w, s, y):
    return s.numeric_gradient(y)


@call('run', 'opt par', 'run')
def _run(w, o, y):
    r = o.run_optimization(y)
    return [r.final_cost, r.final_parameters, r.init_parameters, r.indices, r.status,
            r.optim_summary.costs, r.optim_summary.parameters]


@call('shape', 'tf par', 'ask')
def _shape(w, t, y):
    # stages and functions may hand on the very array they are called with
    return [t(y).copy(), t.x_times]


@call('amp', 'amp par', 'ask')
def _ampc(w, a, y):
    return [a(y).copy(), a.derivative_by_chain_rule(np.ones((2, 3, 2)), y)]


@call('ampid', '', 'make', {'amp'})
def _ampid(w):
    return IdentityAmpFunc()


@call('ampun', '', 'make', {'amp'})
def _ampun(w):
    return UnaryAnalyticAmpFunc(lambda x: x, lambda x: np.ones_like(x))


@call('chain', 'tf dam', 'ask')
def _chain(w, t, d):
    return t.gradient_chain_rule(d)


@call('matrix', 'tf', 'ask')
def _matrix(w, t):
    return [t.transfer_matrix if isinstance(t, tfm.MatrixTF) else 0, t.x_times]


@call('samples2', 'ntg2', 'ask')
def _samp2(w, g):
    return [g.noise_samples, g.n_traces]


@call('samples1', 'ntg1', 'ask')
def _samp1(w, g):
    return [g.noise_samples, g.n_traces]


# ---- functions of operators
@call('f_ent', 'any any', 'ask')
def _fe(w, a, b):
    return cf.entanglement_fidelity(a, b)


@call('f_entsub', 'unit2 any cs', 'ask')
def _fes(w, a, b, cs):
    return cf.entanglement_fidelity(a, b, cs, True)


@call('f_state', 'ket ket', 'ask')
def _fs(w, a, b):
    return cf.state_fidelity(a.dag(), b)


@call('f_statesub', 'ket ket dims rem', 'ask')
def _fss(w, a, b, dims, rem):
    return cf.state_fidelity_subspace(a.ptrace(dims, rem).dag() if False else DenseOperator(
        np.array([[1, 1j]]) / np.sqrt(2)), b, dims=dims, remove=rem)


@call('f_entsup', 'unit any', 'ask')
def _fsup(w, a, b):
    return cf.entanglement_fidelity_super_operator(a, qm.convert_unitary_to_super_operator(b))


@call('f_close', 'any', 'ask')
def _fc(w, a):
    return [qm.closest_unitary(a), qm.convert_unitary_to_super_operator(a), a.exp(.3), a.dexp(b := a, tau=.2),
            a.truncate_to_subspace([0, 2]), a.spectral_decomposition(), b.kron(a), a.dag(), a.conj(), a.tr()]


@call('f_expany', 'herm herm', 'ask')
def _fx(w, a, b):
    return [a.exp(-.3j, is_skew_hermitian=True, method=m) for m in ('spectral', 'Frechet', 'third_order')] + [
        a.dexp(b, tau=-.3j, method=m, compute_expm=True) for m in ('spectral', 'Frechet', 'second_order')]


@call('f_arith', 'any any', 'ask')
def _fa(w, a, b):
    x = a * b + b - a * 2.
    x += a
    x *= 2.
    y = a.copy()
    y -= b
    return [x, y, -1 * a, a / 2, a.ptrace([2, 2], [0]), a.transpose()]


@call('f_vec', 'any', 'ask')
def _fv(w, a):
    v = qm.ket_vectorize_density_matrix(a)
    return [v, qm.convert_ket_vectorized_density_matrix_to_square(v)]


@call('container', 'hist fin lab', 'ask')
def _cont(w, hist, fin, lab):
    d = data_container.DataContainer(
        storage_path='', file_name='x', indices=lab, final_costs=fin, costs=hist,
        init_parameters=w.own([np.zeros((2, 2))] * 3), final_parameters=w.own([np.ones((2, 2))] * 3),
        parameters=w.own([[], [], []]), status=w.own([1, 2, 3]), optimization_stats=w.own([None] * 3))
    from qopt.optimization_data import OptimizationResult, OptimizationSummary
    s = OptimizationSummary(indices=lab, costs=[[.4, .4]], parameters=[np.ones((2, 2))])
    d.append_optim_result(OptimizationResult(final_cost=np.array([.1, .1]), indices=lab,
                                             final_parameters=np.zeros((2, 2)), optim_summary=s, status=0))
    a = analyser.Analyser(d)
    return [d.final_costs, d.costs, d.status, d.parameters, d.indices, a.n_least_square]


# ------------------------------------------------------------------- replay
class Replay:
    def __init__(self, c, w, memo):
        self.c, self.w, self.memo = c, w, memo
        self.owned, self.answers = [], []

    def build(self, tree):
        """Value of a tree on separate copies."""
        if tree[0] == 'leaf':
            return self.w.leaf(tree[1], tree[2], {})
        k = CALLS[tree[1] - 1]
        args = [self.build(t) for t in tree[2]]
        self.w.own = lambda x: x
        x = k['f'](self.w, *args)
        par = tree[3]
        if par[0] > 0 and k['eff'] == 'make':
            x.set_optimization_parameters(self.w.leaf(par[0], par[1], {}))
        elif par[0] > 0 and k['eff'] == 'makepar':
            x.pulse = self.w.leaf(par[0], par[1], {})
        return x

    def value(self, tree):
        key = qv.json.dumps(tree)
        if key not in self.memo:
            try:
                self.memo[key] = plain(self.build(tree))
            except Exception as e:      # noqa: BLE001
                self.memo[key] = e
        return self.memo[key]

    def own(self, x):
        self.owned.append((x, snap(x)))
        return x

    def fail(self, what, m, i):
        self.c.violation('%s (step %d: %s)' % (what, i, self.text(m, i)), dict(
            log=[dict(call=CALLS[e['c'] - 1]['name'] if e['c'] else 'edit', args=e['a'])
                 for e in m['log'][:i + 1]],
            leaves=[n for n, _, _ in self.w.leaves], over=self.w.over))

    def text(self, m, i):
        made = {}
        o = len(self.w.leaves)
        for e in m['log']:
            if e['c'] and CALLS[e['c'] - 1]['eff'] in ('make', 'makepar'):
                o += 1
                made[o] = CALLS[e['c'] - 1]['name']
        e = m['log'][i]
        n = CALLS[e['c'] - 1]['name'] if e['c'] else 'edit'
        return '%s(%s)' % (n, ', '.join(
            self.w.leaves[a - 1][0] if a <= len(self.w.leaves) else '%s%d' % (made[a], a) for a in e['a']))

    def frozen(self, m, i):
        """Nothing but the edited leaf is different."""
        w = self.w
        ok = True
        for k, (name, _, _) in enumerate(w.leaves, 1):
            if snap(self.obj[k]) != self.shot[k]:
                self.fail('%s of the caller is changed' % name, m, i)
                ok = False
        for x, s in self.owned:
            if snap(x) != s:
                self.fail('a list of the caller is changed', m, i)
                ok = False
        for x, p, what in self.answers:
            if distance(plain(x), p) > 0:
                self.fail('the answer to %s given before is changed' % what, m, i)
                ok = False
        self.c.comparisons += len(w.leaves) + len(self.owned) + len(self.answers)
        return ok

    def run(self, m):
        c, w = self.c, self.w
        memo = {}
        self.obj = {}
        for i in range(1, len(w.leaves) + 1):
            if i not in memo:
                memo[i] = w.leaf(i, 0, memo)
        self.obj = dict(memo)
        self.shot = {k: snap(x) for k, x in self.obj.items()}
        n = len(w.leaves)
        for i, e in enumerate(m['log']):
            if e['c'] == 0:
                k = e['a'][0]
                c.actions['edit'] = c.actions.get('edit', 0) + 1
                self.obj[k][...] = w.parval(int(w.leaves[k - 1][0][1:]), e['v'][2])
                self.shot[k] = snap(self.obj[k])
                if not self.frozen(m, i):
                    return
                continue
            k = CALLS[e['c'] - 1]
            c.actions[k['name']] = c.actions.get(k['name'], 0) + 1
            want = self.value(e['v']) if e['v'] else None
            w.own = self.own
            try:
                x = k['f'](w, *[self.obj[a] for a in e['a']])
            except Exception as err:      # noqa: BLE001
                self.fail('raised %r' % err, m, i)
                return
            if k['eff'] in ('make', 'makepar'):
                n += 1
                self.obj[n] = x
            elif e['v']:
                if isinstance(want, Exception):
                    self.fail('answered, separate copies raise %r' % want, m, i)
                    return
                d = distance(plain(x), want)
                c.comparisons += 1
                # finite differences and line searches amplify rounding
                if not d <= (1e-5 if k['name'] in ('numgrad', 'run') else TOL):
                    self.fail('the answer differs by %.3g from the one with separate copies' % d, m, i)
                    return
                self.answers.append((x, plain(x), self.text(m, i)))
            if not self.frozen(m, i):
                return
        c.traces += 1


# ------------------------------------------------------------------ scripts
NAMES = {}


def script(r, sid):
    """A random script around a random part of the library."""
    by = lambda f: [i for i, k in enumerate(CALLS, 1) if f(k)]       # noqa: E731
    mk = lambda t: by(lambda k: k['eff'] in ('make', 'makepar') and t in k['makes'])   # noqa: E731
    pick = lambda l: int(l[r.integers(len(l))])      # noqa: E731
    n = lambda t, k: [pick(mk(t)) for _ in range(k)]       # noqa: E731
    ks = n('tf', int(r.integers(1, 3)))
    theme = str(r.choice(['all', 'mc', 'lind', 'closed', 'closed', 'ops']))
    if theme in ('all', 'mc'):
        ks += n('ntg1', 1) + n('ntg2', 1)
    st = {'all': ['solver'], 'mc': ['mcsolver', 'mcksolver'], 'lind': ['lsolver'],
          'closed': ['usolver', 'ksolver', 'ffsolver'], 'ops': ['usolver']}[theme]
    for _ in range(int(r.integers(2, 5))):
        ks += n(st[r.integers(len(st))], 1)
    ks += [CALLS_N['submit']] * int(r.integers(1, 4))
    if theme in ('all', 'ops', 'closed'):
        ks += n('vcost', 1)
    ks += n('cost', int(r.integers(1, 4))) + n('grad', int(r.integers(1, 3)))
    if r.integers(2):
        ks += n('sim', 1) + n('gsim', 1) + n('psim', 1) + n('sim1', 1)
        if r.integers(2):
            ks += n('opt', 2)
    asks = by(lambda k: k['eff'] in ('ask', 'eval', 'own', 'run'))
    if theme != 'ops':
        asks = [a for a in asks if not CALLS[a - 1]['name'].startswith('f_')]
    else:
        asks += 2 * [a for a in asks if CALLS[a - 1]['name'].startswith('f_')]
    heavy = {CALLS_N['run'], CALLS_N['numgrad']}
    tail = []
    for _ in range(int(r.integers(8, 22))):
        x = r.uniform()
        if x < .15:
            tail.append(0)
        elif x < .35:
            tail.append(CALLS_N['submit'])
        elif x < .4:
            tail.append(pick([i for i, k in enumerate(CALLS, 1) if k['eff'] in ('make', 'makepar')]))
        else:
            a = pick(asks)
            if a in heavy and sum(t in heavy for t in tail) > 1:
                a = CALLS_N['props']
            tail.append(a)
    steps = []
    for k in ks + tail:
        na = 1 if k == 0 else len(CALLS[k - 1]['args'])
        steps.append([k] + [int(v) for v in r.integers(0, 60, size=na)])
    return dict(id=sid, steps=steps)


CALLS_N = {k['name']: i for i, k in enumerate(CALLS, 1)}


def tla_calls(calls):
    return [dict(name=k['name'], args=k['args'], eff=k['eff'], makes=k['makes']) for k in calls]


def check(c):
    r = c.np_rng()
    # all histories of a small world
    small = [dict(name='solver', args=['op'], eff='make', makes={'solver', 'takes'}),
             dict(name='cost', args=['solver'], eff='make', makes={'cost'}),
             dict(name='sim', args=['cost', 'par'], eff='makepar', makes={'sim', 'takes', 'keeps'}),
             dict(name='submit', args=['takes', 'par'], eff='set', makes=set()),
             dict(name='ask', args=['solver'], eff='ask', makes=set()),
             dict(name='costs', args=['cost'], eff='ask', makes=set()),
             dict(name='eval', args=['sim', 'par'], eff='eval', makes=set()),
             dict(name='own', args=['sim'], eff='own', makes=set()),
             dict(name='run', args=['sim', 'par'], eff='run', makes=set())]
    base = dict(Leaves=[{'op'}, {'par'}, {'par'}], Calls=small, Scripts=qv.Raw('{[id |-> 0, steps |-> <<>>]}'),
                Versions=2, MaxLen=c.pick(6, 7), MaxObj=c.pick(6, 7))
    c.tlc('Sharing', consts=dict(base, CopyOnAccept=True), invariants=['NoLeak', 'Typed'],
          properties=['Frame', 'AnswersStay'], workers=4)
    bad = c.tlc('Sharing', consts=dict(base, CopyOnAccept=False), invariants=['NoLeak'], workers=4,
                expect_violation=True)
    if 'NoLeak is violated' not in bad.out:
        raise qv.TLCError('the specification accepts references to parameters of the caller')
    for rep in range(c.pick(14, 80)):
        w = World(r)
        scr = [script(r, k) for k in range(c.pick(20, 40))]
        msgs = c.tlc('Sharing', consts=dict(
            Leaves=[t for _, t, _ in w.leaves], Calls=tla_calls(CALLS), Scripts=qv.Raw(
                '{' + ', '.join(qv._tla_value(s) for s in scr) + '}'),
            Versions=VERSIONS, MaxLen=1, MaxObj=200, CopyOnAccept=True),
            invariants=['NoLeak', 'Typed', 'EmitLog'], properties=['Frame', 'AnswersStay']).msgs
        memo = {}
        for m in sorted(msgs, key=lambda m: m['id']):
            if c.full:
                return
            Replay(c, w, memo).run(m)
        if rep == 0:
            c.sample([dict(call=CALLS[e['c'] - 1]['name'] if e['c'] else 'edit', args=e['a'])
                      for e in msgs[0]['log']])
