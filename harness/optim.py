"""Optimisers driven by scripted or real minimisation algorithms."""
import clock  # noqa: F401  (first: the code under test may bind the clock)

import numpy as np
import scipy.optimize as so

REAL = {'minimize': so.minimize, 'least_squares': so.least_squares}
SCRIPT = []          # the algorithm to use instead, if any


def _minimize(*a, **k):
    return SCRIPT[-1]('minimize', *a, **k) if SCRIPT else REAL['minimize'](*a, **k)


def _least_squares(*a, **k):
    return SCRIPT[-1]('least_squares', *a, **k) if SCRIPT else REAL['least_squares'](*a, **k)


so.minimize, so.least_squares = _minimize, _least_squares

from qopt import cost_functions, optimize, simulator  # noqa: E402
from qopt.amplitude_functions import IdentityAmpFunc  # noqa: E402
from qopt.transfer_function import IdentityTF  # noqa: E402


class SimulationError(Exception):
    pass


class Holder:
    """The least a simulator needs of a solver."""
    def __init__(self):
        self.transfer_function = IdentityTF()
        self.amplitude_function = IdentityAmpFunc()
        self.seen = None

    def set_optimization_parameters(self, y):
        self.seen = np.array(y, copy=True)


class Landscape(cost_functions.CostFunction):
    """Some components of a landscape (a function pulse -> costs, gradient)."""
    def __init__(self, holder, land, comps, n):
        super().__init__(holder, label=['cost %d' % k for k in comps])
        self.land, self.comps, self.n = land, comps, n

    def costs(self):
        v = self.land.costs(self.solver.seen, first=self.n == 0)[self.comps]
        return v if len(self.comps) > 1 or self.n % 2 else float(v[0])

    def grad(self):
        return np.array(self.land.grad(self.solver.seen, first=self.n == 0)[:, self.comps])


def build_simulator(land, nf, r, stats=True):
    h = Holder()
    cut = sorted({int(x) for x in r.integers(1, nf, int(r.integers(0, nf)))} if nf > 1 else set())
    groups = np.split(np.arange(nf), cut)
    return simulator.Simulator(
        solvers=[h], cost_funcs=[Landscape(h, land, list(g), n) for n, g in enumerate(groups)],
        record_performance_statistics=stats)
