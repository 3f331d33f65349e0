"""Cost values: exact fractions of Fidelity.tla on gate sequences, and the
symbolic costs of Costs.tla on random problems."""
import numpy as np
import scipy.linalg as sla

import costs as co
import qv
from costs import rec
from scenes import DenseOperator, Scene, rand_c, rand_u, rand_h
from qopt import cost_functions as cf
from qopt import solver_algorithms as sa

TOL = 1e-8


# ---------------------------------------------------------------- exact part
SX = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2
SY = np.array([[1 + 1j, -1 - 1j], [1 + 1j, 1 + 1j]]) / 2


def gate(name, d):
    if name == 'cyc':
        return np.roll(np.eye(d), 1, axis=0) + 0j
    if name == 's':
        return np.diag([1] * (d - 1) + [1j]).astype(complex)
    if name == 'ph':
        return 1j * np.eye(d)
    u = np.eye(d, dtype=complex)
    k = 0 if name == 'sx' else d - 2
    u[k:k + 2, k:k + 2] = SX if name == 'sx' else SY
    return u


def bras(d):
    b = np.zeros((3, 1, d), dtype=complex)
    b[0, 0, 0] = 1
    b[1, 0, 0] = 1 / np.sqrt(2)
    b[1, 0, -1] = 1j / np.sqrt(2)
    b[2] = 1 / np.sqrt(d)
    return b


def bras2(d):
    b = np.zeros((2, 1, d), dtype=complex)
    b[0, 0, 0] = 1
    b[1] = 1j / np.sqrt(d)
    b[1, 0, 0] = 1 / np.sqrt(d)
    return b


def hamiltonian(u, dt):
    """exp(-i H dt) = u."""
    t, z = sla.schur(u, output='complex')
    return DenseOperator(z @ np.diag(-np.angle(np.diag(t)) / dt) @ z.conj().T)


class Seq:
    """Real evolution of a gate sequence."""

    def __init__(self, r, cfg, seq):
        d = cfg['dim']
        nt = max(len(seq), 1)
        self.dt = r.uniform(.3, 2, nt)
        gates = [gate(g, d) for g in seq] or [np.eye(d, dtype=complex)]
        self.hd = [hamiltonian(u, t) for u, t in zip(gates, self.dt)]
        self.d, self.nt = d, nt
        self.r = r

    def kw(self, **kw):
        return dict(h_ctrl=[DenseOperator(rand_h(self.r, self.d))], h_drift=list(self.hd),
                    tau=self.dt.copy(), **kw)

    def closed(self, **kw):
        s = sa.SchroedingerSolver(**self.kw(**kw))
        s.set_optimization_parameters(np.zeros((self.nt, 1)))
        return s

    def lindblad(self, **kw):
        s = sa.LindbladSolver(
            lindblad_operators=[DenseOperator(np.zeros((self.d, self.d), dtype=complex))],
            **self.kw(**kw))
        s.set_optimization_parameters(np.zeros((self.nt, 1)))
        return s


def exact(c, r):
    cfgs = []
    for d, dims, remove, comps, ln in [
            (2, (2,), (), [(1,), (2,), (1, 2)], c.pick(3, 5)),
            (3, (3,), (), [(1, 2), (2, 3), (3, 1), (2,)], c.pick(3, 4)),
            (4, (2, 2), (1,), [(1, 2), (4, 1, 3)], c.pick(2, 3)),
            (4, (2, 2), (2,), [(1, 2, 3), (2, 4)], c.pick(2, 3)),
            (6, (2, 3), (1,), [(1, 2, 4, 5)], c.pick(1, 2)),
            (6, (3, 2), (1,), [(2, 3, 6)], c.pick(1, 2))]:
        for comp in comps:
            cfgs.append(dict(id=len(cfgs), dim=d, dims=dims, remove=set(remove) or set(),
                             comp=comp, len=ln))
    # a single factor: nothing can be removed
    msgs = c.tlc('Fidelity', consts={'Cfgs': qv.Raw('{' + ', '.join(map(qv._tla_value, cfgs)) + '}')},
                 invariants=['Unitary', 'Range', 'Faithful', 'SubFaithful', 'PhaseBlind',
                             'FormsAgree', 'LeakZero', 'LeakPopulation', 'EmitFid'],
                 workers=4).msgs
    D = DenseOperator
    order = sorted(msgs, key=lambda m: (m['cfg'], m['seq']))
    for m in order:
        if c.full:
            return
        cfg = cfgs[m['cfg']]
        if not c.thorough and len(m['seq']) == 3 and r.integers(3):
            continue
        sq = Seq(r, cfg, m['seq'])
        d = cfg['dim']
        comp = [i - 1 for i in cfg['comp']]
        full_space = [i - 1 for i in cfg['comp']] == list(range(d))
        s = sq.closed()
        ket = sq.closed(initial_state=D(np.eye(d)[:, :1] + 0j))
        lind = sq.lindblad()
        c.traces += 1
        res = []

        def test(what, got, frac):
            if frac[1] == 0:
                return
            c.comparisons += 1
            want = 1 - frac[0] / frac[1]
            if not (np.size(got) == 1 and abs(np.ravel(got)[0] - want) <= TOL):
                c.violation('%s after the gates %s is %s, exactly %d/%d is specified' % (
                    what, m['seq'], got, frac[1] - frac[0], frac[1]),
                    dict(cfg=cfg, payload=m))
            res.append(got)
        phase = [1, 1j, np.exp(1j * r.uniform(0, 6))][r.integers(3)]

        def either(x):
            """The functions take operators and arrays."""
            x = x.data if isinstance(x, D) else x
            return D(x.copy()) if r.integers(2) else x.copy()
        fin, fket, flind = s.forward_propagators[-1], ket.forward_propagators[-1], lind.forward_propagators[-1]
        for g, f in m['op'].items():
            t = np.eye(d, dtype=complex) if g == 'ph' else gate(g, d)
            test('operation infidelity with target ' + g,
                 cf.OperationInfidelity(s, D(t * phase)).costs(), f)
            test('super-operator infidelity with target ' + g,
                 cf.OperationInfidelity(lind, D(t * phase), super_operator_formalism=True).costs(), f)
            test('entanglement fidelity with ' + g,
                 1 - cf.entanglement_fidelity(either(t * phase), either(fin)), f)
            test('super-operator fidelity with ' + g,
                 1 - cf.entanglement_fidelity_super_operator(either(t * phase), either(flind)), f)
        k = len(comp)
        for g, f in m['sub'].items():
            t = {'id': np.eye(k) + 0j, 'cyc': np.roll(np.eye(k), 1, axis=0) + 0j,
                 's': np.diag([1] * (k - 1) + [1j]).astype(complex)}[g]
            test('operation infidelity on the subspace %s with target %s' % (comp, g),
                 cf.OperationInfidelity(s, D(t * phase), computational_states=list(comp)).costs(), f)
            test('super-operator infidelity on the subspace %s with target %s' % (comp, g),
                 cf.OperationInfidelity(lind, D(t * phase), super_operator_formalism=True,
                                        computational_states=list(comp)).costs(), f)
            test('entanglement fidelity on the subspace %s with %s' % (comp, g),
                 1 - cf.entanglement_fidelity(either(t * phase), either(fin), list(comp)), f)
            test('super-operator fidelity on the subspace %s with %s' % (comp, g),
                 1 - cf.entanglement_fidelity_super_operator(either(t * phase), either(flind), list(comp)), f)
        lk = (m['leak'][1] - m['leak'][0], m['leak'][1])
        test('leakage out of %s' % comp, cf.LeakageError(s, list(comp)).costs(), lk)
        for sol, uni in ((lind, False), (s, True)):
            test('leakage (super-operator) out of %s' % comp,
                 cf.LeakageLiouville(sol, list(comp), input_unitary=uni).costs(), lk)
        # realisations that are super-operators themselves: the mean of their leakages
        props = [D(rand_c(r, d * d)) for _ in range(int(r.integers(1, 4)))] + [flind]

        class Realisations:   # a solver
            h_ctrl = s.h_ctrl
            forward_propagators_noise = [[D(np.eye(d * d) + 0j), p] for p in props]
        rest = [i for i in range(d) if i not in comp]
        mean = np.mean([sum(p.data[i * d + i, j * d + j].real for i in rest for j in comp)
                        for p in props]) / len(comp)
        test('leakage (realisations of super-operators) out of %s' % comp,
             cf.LeakageLiouville(Realisations, list(comp), monte_carlo=True).costs(), (1 - mean, 1.))
        for b, f in zip(bras(d), m['st']):
            test('state infidelity', cf.StateInfidelity(ket, D(b * phase)).costs(), f)
            test('state infidelity (target as ket)',
                 cf.StateInfidelity(ket, D((b * phase).conj().T)).costs(), f)
            test('state fidelity', 1 - cf.state_fidelity(either(b * phase), either(fket)), f)
        for b, f in zip(bras2(k), m['stsub']):
            test('state infidelity on the subspace %s' % comp,
                 cf.StateInfidelity(ket, D(b * phase), computational_states=list(comp)).costs(), f)
        if m['kept']:
            for b, f in zip(bras2(k), m['stres']):
                test('rescaled state infidelity on the subspace %s' % comp,
                     cf.StateInfidelity(ket, D(b * phase), computational_states=list(comp),
                                        rescale_propagated_state=True).costs(), f)
                test('rescaled state fidelity on the subspace %s' % comp,
                     1 - cf.state_fidelity(either(b * phase), either(fket), list(comp), True), f)
        if len(cfg['dims']) > 1:
            rho0 = np.zeros((d * d, 1), dtype=complex)
            rho0[0, 0] = 1
            rl = sq.lindblad(initial_state=D(rho0))
            kd = int(np.prod([x for i, x in enumerate(cfg['dims']) if i + 1 not in cfg['remove']]))
            for b, f in zip(bras2(kd), m['red']):
                for sol in (ket, rl):
                    test('state infidelity after tracing out %s of %s' % (cfg['remove'], cfg['dims']),
                         cf.StateInfidelitySubspace(
                             sol, D(b * phase), dims=list(cfg['dims']),
                             remove=[i - 1 for i in cfg['remove']]).costs(), f)
                test('state fidelity after tracing out %s of %s' % (cfg['remove'], cfg['dims']),
                     1 - cf.state_fidelity_subspace(either(b * phase), either(fket), list(cfg['dims']),
                                                    [i - 1 for i in cfg['remove']]), f)
        if len(c.samples) < 2 and len(m['seq']) == 2:
            c.sample(dict(gates=m['seq'], dim=d, fractions=m['op'], leak=m['leak'],
                          reported=res[:4]))
        del full_space


# ------------------------------------------------------------- symbolic part
def shapes(c):
    out = []
    op = [rec('op'), rec('op', True), rec('op', True, True), rec('leak'), rec('lsuu')]
    st = [rec('state'), rec('state', True), rec('state', True, True), rec('sub')]
    opn = [rec('opn', a, b, n) for a, b, n in [
        (False, False, False), (True, False, False), (True, True, False),
        (False, False, True), (True, False, True), (True, True, True)]]
    stn = [rec('stn', a, b, n) for a, b, n in [
        (False, False, False), (True, False, False), (True, True, False),
        (False, False, True), (True, False, True), (True, True, True)]]
    oth = [rec('lmc'), rec('lmc', True), rec('inc'), rec('lmcu')]
    sup = [rec('sup'), rec('sup', True), rec('lsup'), rec('subrho')]
    for nt in c.pick([1, 3], [1, 2, 3, 5]):
        for nc, nw in [(1, 1), (2, 3)]:
            out.append(co.shape('closed', nt, nc, op + st, nw=nw, grad=False))
        for kind in ('mc', 'mcna', 'mccn'):
            for ntr in c.pick([1, 2, 4], [1, 2, 3, 4, 7]):
                if kind == 'mcna' and ntr == 1:
                    continue
                out.append(co.shape(kind, nt, 2, opn + stn + oth, ntr=ntr,
                                    no=0 if kind == 'mccn' else 1 + nt % 2, grad=False))
        for diss, pref, nl in [((), False, 1), (('jump',), True, 2), (('sup',), True, 2),
                               (('jump', 'func'), True, 1)]:
            # a random super-operator maps states to no states
            rs = sup if set(diss) <= {'jump'} else sup[:-1]
            out.append(co.shape('lind', nt, 2, rs, nl=nl, diss=diss, pref=pref, dd=pref,
                                grad=False))
    return out


def symbolic(c, r):
    shs = shapes(c)
    pays = co.payloads(c, shs)
    for rep in range(c.pick(3, 12)):
        for sh, pay in zip(shs, pays):
            for p in pay['costs']:
                if c.full:
                    return
                value(c, r, sh, p)


def value(c, r, sh, p):
    sc = co.CostScene(sh, r, p['rec'], units=bool(r.integers(3) == 0))
    s = sc.solver()
    lab = ['cost number %d' % r.integers(9)] if r.integers(2) else None
    cost = sc.cost(s, list(lab) if lab else None)
    got = cost.costs()
    if not (list(cost.label) == lab if lab else len(cost.label) == 1 and isinstance(cost.label[0], str)):
        c.violation('cost %s asked to be called %s is called %s' % (p['rec'], lab, cost.label), dict(rec=p['rec']))
    ip = sc.ip()
    want = sc.want(p, ip)
    if abs(want) > 1e4:         # evolutions that grow without bounds
        return
    tol = TOL * max(1., abs(want))
    c.traces += 1
    c.comparisons += 1
    info = dict(scene=sc.describe(), rec=p['rec'], comp=sc.comp, T=sc.T, bra=sc.bra,
                dims=sc.dims, remove=sc.remove, got=got, specified=want)
    if not (np.size(got) == 1 and np.isrealobj(np.asarray(got)) and abs(np.ravel(got)[0] - want) <= tol):
        c.violation('cost %s of a %s evolution (%d traces, %d levels) is %s, specified is %.12g' % (
            p['rec'], sh['kind'], sh['ntr'], sc.dim, got, want), info)
        return
    physical = sc.normed and not (sc.neg and sh['pref']) and sc.init_kind in ('default', 'id', 'ket') and p['rec']['c'] not in ('sup', 'lsup', 'subrho')
    if physical and not -1e-9 <= got <= 1 + 1e-9:
        c.violation('cost %s = %s is outside of [0, 1]' % (p['rec'], got), info)
    # a second reading, and a reading after other costs have been read
    if c.traces % 5 == 0:
        c.comparisons += 1
        if abs(cost.costs() - got) > 0 or abs(sc.cost(s).costs() - want) > tol:
            c.violation('cost %s changes when it is read again' % p['rec'], info)


# ------------------------------------------- elementwise norms, axes, helpers
def norms(c, r):
    for i in range(c.pick(60, 600)):
        d = int(r.choice([2, 2, 3, 4]))
        nt = int(r.integers(1, 4))
        dt = r.uniform(.2, 1, nt)
        hd = [DenseOperator(rand_h(r, d)) for _ in range(nt)]
        s = sa.SchroedingerSolver(h_ctrl=[DenseOperator(rand_h(r, d))], h_drift=hd, tau=dt)
        s.set_optimization_parameters(np.zeros((nt, 1)))
        u = np.eye(d, dtype=complex)
        for h, t in zip(hd, dt):
            u = sla.expm(-1j * t * h.data) @ u
        T = rand_u(r, d)
        v = u / (u[0, 0] / abs(u[0, 0]))
        c.traces += 1
        tests = [('scalar', np.abs(v - T).sum()),
                 ('vector', np.concatenate([(v - T).real.reshape(-1), (v - T).imag.reshape(-1)]))]
        if i % 3 == 0:      # the target itself, up to a phase
            T = v.copy()
            tests = [('scalar', 0.), ('vector', np.zeros(2 * d * d))]
        for mode, want in tests:
            got = cf.OperatorMatrixNorm(s, DenseOperator(T), mode=mode)
            c.comparisons += 1
            g = got.costs()
            if np.shape(g) != np.shape(want) or np.abs(g - want).max() > TOL:
                c.violation('matrix norm (%s) is %s, specified is %s' % (mode, g, want),
                            dict(U=u, T=T))
            if len(got.label) != np.size(want):
                c.violation('matrix norm (%s) has %d labels for %d values' % (
                    mode, len(got.label), np.size(want)))
    sig = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    for i in range(c.pick(150, 2000)):
        # a rotation by an angle below pi about a random (or special) axis
        ax = r.normal(size=3)
        if i % 4 == 0:
            ax = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, -1, 0], [-1, 0, 0], [0, 0, -1],
                           [0, 1, 1], [1, 0, -1]][r.integers(8)], dtype=float)
        ax /= np.linalg.norm(ax)
        beta = r.uniform(.05, 3.1)
        ph = np.exp(1j * r.uniform(0, 6.3)) if i % 2 else 1
        u = sla.expm(.5j * beta * np.einsum('k,kij->ij', ax, sig)) * ph
        b, n = cf.angle_axis_representation(DenseOperator(u.copy()) if i % 3 == 0 else u.copy())
        c.comparisons += 1
        if abs(b - beta) > 1e-6 or np.abs(np.asarray(n) - ax).max() > 1e-6:
            c.violation('rotation by %.6f about %s is reported as %s about %s' % (beta, ax, b, n),
                        dict(U=u))
        # cost in this representation
        ax2 = r.normal(size=3)
        ax2 /= np.linalg.norm(ax2)
        b2 = r.uniform(.05, 3.1)
        t = sla.expm(.5j * b2 * np.einsum('k,kij->ij', ax2, sig))
        s = sa.SchroedingerSolver(h_ctrl=[DenseOperator(sig[0] + 0j)],
                                  h_drift=[DenseOperator(-.5 * beta * np.einsum('k,kij->ij', ax, sig))],
                                  tau=np.array([1.]))
        s.set_optimization_parameters(np.zeros((1, 1)))
        if i % 3 == 0:
            got = cf.OperatorMatrixNorm(s, DenseOperator(t), mode='rotation_axis').costs()
            c.comparisons += 1
            if np.abs(got - (b2 * ax2 - beta * ax)).max() > 1e-6:
                c.violation('difference of rotation vectors is %s, specified is %s' % (
                    got, b2 * ax2 - beta * ax), dict(U=u, T=t))
        # average gate fidelity (d F_e + 1) / (d + 1)
        if i % 3 == 1:
            fe = abs(np.trace(t.conj().T @ u)) ** 2 / 4
            got = cf.averge_gate_fidelity(DenseOperator(u), DenseOperator(t))
            c.comparisons += 1
            if abs(got - (2 * fe + 1) / 3) > TOL:
                c.violation('average gate fidelity is %s, specified is %s' % (got, (2 * fe + 1) / 3),
                            dict(U=u, T=t))
        # no rotation up to a phase
        b, n = cf.angle_axis_representation(np.eye(2) * np.exp(1j * r.uniform(0, 7)))
        c.comparisons += 1
        if b != 0 or abs(np.linalg.norm(n) - 1) > 1e-9:
            c.violation('the identity is reported as a rotation by %s about %s' % (b, n), {})
        bad = u * r.choice([.9, 1.2]) if i % 2 else np.diag([1, 1.5])
        try:
            cf.angle_axis_representation(bad)
            c.violation('a matrix that is not unitary has been given a rotation axis', dict(U=bad))
        except ValueError:
            pass


def check(c):
    r = c.np_rng()
    exact(c, r)
    symbolic(c, r)
    norms(c, r)
