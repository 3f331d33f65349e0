"""Families of equal solvers for history checks: every call of build(grid)
constructs the same control problem from scratch with fresh objects."""
import numpy as np

import qv  # noqa: F401
from scenes import rand_h, rand_c, rand_u, vary, FixedNoise
from qopt.matrix import DenseOperator
from qopt import solver_algorithms as sa
from qopt.amplitude_functions import CustomAmpFunc, UnaryAnalyticAmpFunc
from qopt import transfer_function as tf

BADVAL = 99.


def D(m):
    return DenseOperator(np.array(m, dtype=complex))


TFS = {
    'none': lambda n: None,
    'id': lambda n: tf.IdentityTF(num_ctrls=n),
    'over': lambda n: tf.OversamplingTF(num_ctrls=n, oversampling=2),
    'overpad': lambda n: tf.OversamplingTF(num_ctrls=n, oversampling=2, bound_type=('n', 1)),
    'overm': lambda n: tf.OversamplingMTF(num_ctrls=n, oversampling=3, offset=.3),
    'overmx': lambda n: tf.OversamplingMTF(num_ctrls=n, oversampling=2, bound_type=('right_n', 1)),
    'conv': lambda n: tf.ConvolutionTF(np.array([.25, .5, .3]), num_ctrls=n),
    'gauss': lambda n: tf.GaussianConvolution(sigma=.8, num_ctrls=n),
    'cat': lambda n: tf.ConcatenateTF(tf.OversamplingTF(num_ctrls=n, oversampling=2),
                                      tf.GaussianConvolution(sigma=1., num_ctrls=n)),
    'catm': lambda n: tf.ConcatenateMTF(tf.OversamplingMTF(num_ctrls=n, oversampling=2, offset=.1),
                                        tf.OversamplingMTF(num_ctrls=n, oversampling=2)),
    'par': lambda n: tf.ParallelTF(tf.OversamplingTF(num_ctrls=1, oversampling=2),
                                   tf.OversamplingTF(num_ctrls=n - 1, oversampling=2)),
    'parm': lambda n: tf.ParallelMTF(tf.OversamplingMTF(num_ctrls=1, oversampling=2, offset=.5),
                                     tf.OversamplingMTF(num_ctrls=n - 1, oversampling=2)),
    'exp': lambda n: tf.ExponentialMTF(awg_rise_time=.3, oversampling=2, num_ctrls=n),
}
# the exponential stage is only defined for equal time steps
EQUAL = {'exp'}


class Family:
    """One control problem; build(grid) makes a new, independent solver."""

    def __init__(self, kind, tfkind, amp, r, nc=2, ff=True, grape=False, method=None,
                 nt=3, dim=None, redraw=False, ntr=2, calc=None, unit=1.):
        # unit: size of the parameters (tau is measured in its inverse)
        self.unit = unit
        self.kind, self.tfkind, self.ampkind = kind, tfkind, amp
        self.nc = nc
        self.dim = d = dim or int(r.choice([2, 2, 3]))
        self.nt = nt
        if tfkind in EQUAL:
            self.grids = {1: np.full(nt, .3), 2: np.full(nt, .5), 3: np.full(nt + 1, .2)}
        else:
            self.grids = {1: r.uniform(.1, .7, nt), 2: r.uniform(.1, .7, nt),
                          3: r.uniform(.1, .7, nt + 1)}
            how = r.integers(6)         # a second grid that is close to, or related to the first one
            if how == 0:
                self.grids[2] = self.grids[1][::-1].copy()
            elif how == 1:
                self.grids[2] = self.grids[1] * 1
                self.grids[2][r.integers(nt)] *= 1 + 1e-6
            elif how == 2:
                self.grids[2] = self.grids[1] * 1
                self.grids[2][-1] += .2
            elif how == 3:
                self.grids[2] = self.grids[1] * 1
                self.grids[2][[0, -1]] += [.05, -.05]
        self.grids = {g: t / unit for g, t in self.grids.items()}
        self.lind = kind.startswith('lind')
        self.mc = kind in ('mc', 'mcna', 'mccn')
        self.constdrift = tfkind not in ('none', 'id', 'conv', 'gauss') or bool(r.integers(2))
        if kind == 'lind_sup':
            self.constdrift = True
        self.hd = [rand_h(r, d, 'full') * unit for _ in range(nt)]
        self.hc = [rand_h(r, d, 'full') for _ in range(nc)]
        self.hn = [rand_h(r, d, 'full') for _ in range(2)]
        self.L = [rand_c(r, d) * .4 * np.sqrt(unit) for _ in range(2)]
        self.G = [rand_c(r, d * d) * .3 * unit for _ in range(2)]
        self.psi = rand_c(r, d if not self.lind else d * d, 1) if r.integers(2) else None
        self.nz = r.normal(size=(2, ntr, 60)) * .5 * unit
        self.ac = r.normal(size=(nc, nc))
        self.ff = ff
        self.grape = grape
        self.method = method
        self.redraw = redraw
        self.calc = bool(r.integers(2)) if calc is None else calc
        self.gridset = {1, 2, 3} if (self.constdrift and not self.mc) else {1, 2}
        self.r = r
        self.vals = {}

    def par(self, v, grid):
        key = (v, len(self.grids[grid]))
        if key not in self.vals:
            r = self.r
            a = r.normal(size=(len(self.grids[grid]), self.nc))
            other = self.vals.get((3 - v, key[1]))
            if other is not None and r.integers(3):
                # a value which is close to, or related to the other one
                a = other.copy() / self.unit
                how = r.choice(['last', 'first', 'little', 'perm', 'sign', 'cols', 'equal sum',
                                'abs', 'zero'])
                if how == 'last':
                    a[-1, -1] += .5
                elif how == 'first':
                    a[0, 0] -= .5
                elif how == 'little':
                    a[r.integers(len(a)), r.integers(self.nc)] += 1e-5
                elif how == 'perm':
                    a = a[::-1].copy()
                elif how == 'sign':
                    a = -a
                elif how == 'cols':
                    a = a[:, ::-1].copy()
                elif how == 'equal sum':
                    a[0, 0] += .25
                    a[-1, -1] -= .25
                elif how == 'abs':
                    a[0] = -a[0]
                elif how == 'zero':
                    a *= 0
            elif r.integers(4) == 0:
                vary(r, a)
            self.vals[key] = a * self.unit
        return self.vals[key].copy()

    def bads(self):
        b = {'rows', 'cols'}
        if self.ampkind == 'custom':
            b.add('amp')
        return b

    def bad(self, kind, grid):
        n = len(self.grids[grid])
        y = self.par(1, grid)
        if kind == 'rows':
            return np.concatenate([y, y[:1]])
        if kind == 'cols':
            return np.concatenate([y, y[:, :1]], axis=1)
        y[n // 2, 0] = BADVAL
        return y

    def amp(self):
        if self.ampkind == 'none':
            return None
        if self.ampkind == 'unary':
            return UnaryAnalyticAmpFunc(lambda x: x + .2 * x ** 2, lambda x: 1 + .4 * x)

        def val(x):
            if np.any(np.abs(x) > 20):
                raise ValueError('amplitude out of range')
            return x @ self.ac + .2 * x ** 2

        def der(x):
            n = len(x)
            out = np.zeros((n, self.nc, self.nc))
            for c in range(self.nc):
                for j in range(self.nc):
                    out[:, j, c] = self.ac[j, c] + .4 * x[:, j] * (j == c)
            return out
        return CustomAmpFunc(val, der)

    def ffn(self, o, t, u):
        return [[D(self.hn[0]), 1 + u[:, 0] ** 2, 'b'],
                [D(self.hn[1]), t[:, -1] + o[0, 0], 'a']]

    def build(self, grid, **over):
        kw = dict(h_ctrl=[D(h) for h in self.hc], tau=self.grids[grid].copy(),
                  h_drift=[D(self.hd[0])] if self.constdrift else [D(h) for h in self.hd],
                  transfer_function=TFS[self.tfkind](self.nc), amplitude_function=self.amp())
        if self.psi is not None:
            kw['initial_state'] = D(self.psi)
        if self.method:
            kw['exponential_method'] = self.method
        if self.grape:
            kw['frechet_deriv_approx_method'] = 'grape'
        if self.ff:
            kw['filter_function_h_n'] = self.ffn
        cls = sa.SchroedingerSolver
        kw['calculate_unitary_derivatives' if self.lind
           else 'calculate_propagator_derivatives'] = self.calc
        if self.kind == 'lind_jump':
            kw['lindblad_operators'] = [D(m) for m in self.L]
        elif self.kind == 'lind_sup':
            kw['initial_diss_super_op'] = [D(m) for m in self.G[:1]]
        elif self.kind == 'lind_pref':
            kw['lindblad_operators'] = [D(m) for m in self.L]
            kw['prefactor_function'] = lambda u, w: np.stack([.1 + u[:, 0] ** 2, .2 + w[:, -1] ** 2], axis=1)
        elif self.kind == 'lind_func':
            kw['super_operator_function'] = lambda u, w: [
                D(np.sin(a[0]) * self.G[0] + b[-1] * self.G[1]) for a, b in zip(u, w)]
        if self.lind:
            cls = sa.LindbladSolver
        elif self.mc:
            probe = TFS[self.tfkind](self.nc) or tf.IdentityTF(num_ctrls=self.nc)
            probe.set_times(self.grids[grid].copy())
            n = len(probe.x_times)
            nz = self.nz[:, :, :n]
            if self.kind == 'mccn':
                cls = sa.SchroedingerSMCControlNoise
                nz = np.repeat(nz[:1], self.nc, axis=0)
            else:
                cls = sa.SchroedingerSMonteCarlo
                kw['h_noise'] = [D(h) for h in self.hn]
            kw['noise_trace_generator'] = FixedNoise([nz])
            kw['processes'] = 1
            if self.kind == 'mcna':
                kw['noise_amplitude_function'] = self.noise_amps
        kw.update(over)
        return cls(**kw)

    def noise_amps(self, noise_samples, optimization_parameters,
                   transferred_parameters, control_amplitudes):
        return noise_samples * (1 + control_amplitudes[:, None, :1] ** 2) \
            + .3 * transferred_parameters[:, None, -1:] + .1 * optimization_parameters[0, 0]

    def queries(self):
        q = ['prop', 'fwd', 'rev', 'der']
        if self.mc:
            q += ['nprop', 'nfwd', 'nrev', 'nder']
        if self.ff:
            q += ['ps']
        return q


ATTR = {'prop': 'propagators', 'fwd': 'forward_propagators', 'rev': 'reversed_propagators',
        'der': 'frechet_deriv_propagators', 'nprop': 'propagators_noise',
        'nfwd': 'forward_propagators_noise', 'nrev': 'reversed_propagators_noise',
        'nder': 'frechet_deriv_propagators_noise'}

DEP = {'prop': set(), 'fwd': {'prop'}, 'rev': {'prop'}, 'der': {'prop'},
       'nprop': {'prop'}, 'nfwd': {'nprop', 'prop'}, 'nrev': {'nprop', 'prop'},
       'nder': {'nprop', 'prop'}, 'ps': set()}


def nested(x):
    if isinstance(x, list):
        return np.array([nested(i) for i in x])
    return np.array(x.data)


def observe(s, q):
    """The answer to a query as a list of plain arrays (copied)."""
    if q == 'ps':
        p = s.create_pulse_sequence()
        return [np.array(p.dt), np.array([str(i) for i in p.c_oper_identifiers]),
                np.array(p.c_opers), np.array(p.c_coeffs),
                np.array([str(i) for i in p.n_oper_identifiers]), np.array(p.n_opers),
                np.array(p.n_coeffs), np.array(p.total_propagator)]
    return [nested(getattr(s, ATTR[q]))]


def deviation(a, b):
    if len(a) != len(b):
        return float('inf')
    e = 0.
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return float('inf')
        if x.dtype.kind in 'US':
            if not np.array_equal(x, y):
                return float('inf')
            continue
        if x.size:
            d = np.abs(x - y).max() / max(1., np.abs(y).max())
            e = max(e, d if np.isfinite(d) else float('inf'))
    return float(e)
