"""Programs over a heap of operators and arrays (OperatorHeap.tla)."""
import numpy as np
import qutip
import scipy.sparse

import heap
import qv
from scenes import rand_c, rand_u
from qopt import matrix as qm
from qopt.matrix import DenseOperator

PAULI = {'pauli_0': [[1, 0], [0, 1]], 'pauli_x': [[0, 1], [1, 0]], 'pauli_y': [[0, -1j], [1j, 0]],
         'pauli_z': [[1, 0], [0, -1]], 'pauli_m': [[0, 0], [1, 0]], 'pauli_p': [[0, 1], [0, 0]]}


def inexact(c, r):
    """Norms, closest unitary, normalised truncation, constructors."""
    for i in range(c.pick(200, 2000)):
        d = int(r.choice([1, 2, 3, 4, 5]))
        a = rand_c(r, d)
        if r.integers(4) == 0:      # unitary, or nearly so
            a = np.linalg.qr(a)[0] + r.choice([0, 1e-6, 1e-4]) * rand_c(r, d)
            if r.integers(2):
                a = a * np.eye(d) / np.abs(a)
                a += r.choice([0, 1e-6, 1e-4]) * rand_c(r, d)
        op = DenseOperator(a.copy())
        idx = [int(k) for k in r.permutation(d)[:int(r.integers(1, d + 1))]]
        u, s, vh = np.linalg.svd(a[np.ix_(idx, idx)])
        order = [None, 2, 1, np.inf, 'nuc', -2, 'fro'][int(r.integers(7))]
        v = rand_c(r, d, 1)
        if r.integers(4) == 0:
            v = v / np.linalg.norm(v[idx]) * (1 + r.choice([0, 1e-6, 1e-4]))
        tests = [('closest unitary', qm.closest_unitary(DenseOperator(a[np.ix_(idx, idx)])).data, u @ vh),
                 ('truncation to the closest unitary',
                  op.truncate_to_subspace(idx, map_to_closest_unitary=True).data, u @ vh),
                 ('normalised ket', DenseOperator(v.copy()).truncate_to_subspace(
                     idx, map_to_closest_unitary=True).data, v[idx] / np.linalg.norm(v[idx])),
                 ('normalised bra', DenseOperator(v.T.copy()).truncate_to_subspace(
                     idx, map_to_closest_unitary=True).data, v.T[:, idx] / np.linalg.norm(v[idx])),
                 ('Frobenius norm', op.norm('fro'), np.sqrt((np.abs(a) ** 2).sum())),
                 ('norm', op.norm(order), np.linalg.norm(a, ord=order)),
                 ('quotient', (op / 3.7).data, a / 3.7),
                 ('complex quotient', (op / (1 - 2j)).data, a / (1 - 2j))]
        lam, w = op.spectral_decomposition()
        tests.append(('spectral decomposition', a @ w, w * lam))
        h = a + a.conj().T
        lam, w = DenseOperator(h.copy()).spectral_decomposition(hermitian=True)
        tests.append(('Hermitian spectral decomposition', w @ np.diag(lam) @ w.conj().T, h))
        for what, got, want in tests:
            c.comparisons += 1
            if np.shape(got) != np.shape(want) or np.abs(np.asarray(got) - want).max() > 1e-9 * max(1, np.abs(want).max()):
                c.violation('%s of a %dx%d matrix is wrong' % (what, d, d),
                            dict(a=a, idx=idx, got=got, specified=want))
        if np.any(op.data != a):
            c.violation('a pure operation changed the operator', dict(a=a, got=op.data))
    for i in range(20):
        m, n = (int(k) for k in r.integers(1, 5, size=2))
        a = rand_c(r, m, n) * (r.integers(2, size=(m, n)) if i % 2 else 1)
        src = [qutip.Qobj(a), qutip.Qobj(a).to('csr'), scipy.sparse.csr_matrix(a), a.copy(),
               a.real.copy(), a.astype(np.complex64), (a.real * 5).astype(int), np.asfortranarray(a)]
        for x in src:
            op = DenseOperator(x)
            want = x.full() if isinstance(x, qutip.Qobj) else x.toarray() if scipy.sparse.issparse(x) else x
            c.comparisons += 1
            if not (np.array_equal(op.data, want) and op.data.dtype == np.complex128
                    and type(op.data) is np.ndarray and op.shape == (m, n)):
                c.violation('an operator made of a %s differs from it' % type(x).__name__,
                            dict(got=op.data, specified=want))
            both = DenseOperator(op)
            if not np.array_equal(both.data, want):
                c.violation('an operator made of an operator differs from it', dict(got=both.data))
    for name, want in PAULI.items():
        p = getattr(DenseOperator, name)()
        c.comparisons += 1
        if not np.array_equal(p.data, np.array(want, dtype=complex)):
            c.violation('%s is wrong' % name, dict(got=p.data))
        p *= 2                      # constructors give independent objects
        if not np.array_equal(getattr(DenseOperator, name)().data, np.array(want, dtype=complex)):
            c.violation('%s shares memory between calls' % name)




def check(c):
    r = c.np_rng()
    # every operation on every operand choice, alone (quick) or two in a row
    small = [('op', 2, 2), ('op', 2, 1), ('op', 1, 2), ('arr', 2, 2)]
    ex = [heap.script(r, 100000, 0, shapes=small)]
    if c.thorough:
        ex.append(heap.script(r, 100001, 0, shapes=[('op', 2, 2), ('arr', 2, 2)]))
    msgs = []
    for k, e in enumerate(ex):
        ln = 1 if k == 0 else 2
        ms = heap.programs(c, [e], maxlen=ln, ks=(0, 1, 2, 3) if ln == 1 else (1, 2))
        msgs += [(e, m) for m in ms]
    n = c.pick(700, 4000)
    scripts = [heap.script(r, i, int(r.integers(4, 16))) for i in range(n)]
    # programs around in-place operations and sharing
    mut = [a for a in heap.ACTS if a.startswith('i') and a != 'idlike'] + \
        ['wrap', 'copy', 'wrapop', 'truncnone', 'set', 'setarr', 'vecarr', 'dag', 'mul', 'add']
    scripts += [heap.script(r, n + i, 12, acts=mut) for i in range(c.pick(100, 1000))]
    # more subsystems
    for i in range(c.pick(80, 800)):
        d = int(r.choice([8, 12, 16]))
        scripts.append(heap.script(r, 50000 + i, 5, acts=['ptrace', 'ptrace', 'iptrace', 'dag', 'copy'],
                                   shapes=[('op', d, d), ('op', d, 1)], d=d))
    by = {s['id']: s for s in scripts}
    for k in range(0, len(scripts), 500):
        msgs += [(by[m['id']], m) for m in heap.programs(c, scripts[k:k + 500])]
    msgs.sort(key=lambda x: (x[1]['id'], str(x[1]['log'])))
    for s, m in msgs:
        if c.full:
            return
        heap.replay(c, r, s, m['log'])
        if m['id'] % 200 == 3:
            c.sample([dict(a=st['a'], o=st['o']) for st in m['log']])
    inexact(c, r)
