"""Replaying programs of OperatorHeap.tla on real operators and arrays."""
import numpy as np

import qv
from qopt import matrix as qm
from qopt.matrix import DenseOperator

ACTS = ['add', 'sub', 'mul', 'mularr', 'rmularr', 'addarr', 'subarr', 'smul', 'rsmul', 'sdiv',
        'sadd', 'ssub', 'dag', 'conj', 'tp', 'copy', 'kron', 'kronarr', 'ptrace', 'trunc', 'sup',
        'suparr', 'vec', 'vecarr', 'unvec', 'unvecarr', 'wrap', 'wrapop', 'idlike', 'trace', 'get',
        'flatten', 'iadd', 'isub', 'imul', 'iaddarr', 'isubarr', 'imularr', 'ismul', 'isdiv',
        'isadd', 'issub', 'idag', 'iconj', 'itp', 'iptrace', 'set', 'setarr', 'truncnone']
DIMS = {4: [(2, 2), (4,)], 6: [(2, 3), (3, 2)], 8: [(2, 2, 2), (2, 4), (4, 2)], 2: [(2,)], 3: [(3,)],
        9: [(3, 3)], 1: [(1, 1)], 12: [(2, 3, 2), (2, 2, 3), (3, 2, 2), (3, 4)],
        16: [(2, 2, 2, 2), (2, 2, 2, 2), (4, 4), (2, 4, 2), (2, 2, 4)]}


def num(m):
    return np.array([[x[0] + 1j * x[1] for x in row] for row in m], dtype=complex)


def gmat(m):
    return '<<' + ', '.join('<<' + ', '.join('<<%d, %d>>' % (int(x.real), int(x.imag)) for x in row)
                            + '>>' for row in m) + '>>'


def rand_g(r, n, m, lim=2):
    return r.integers(-lim, lim + 1, (n, m)) + 1j * r.integers(-lim, lim + 1, (n, m))


def script(r, i, nsteps, acts=None, shapes=None, d=None):
    d = d or int(r.choice([1, 2, 2, 2, 3, 4, 4, 6, 8], p=[.06, .14, .14, .16, .14, .12, .1, .08, .06]))
    shapes = shapes or [('op', d, d), ('op', d, d), ('op', d, 1), ('op', 1, d), ('arr', d, d),
                        ('op', 2, 2), ('arr', d, 1), ('arr', 2, 2)]
    heap = [(k, rand_g(r, n, m)) for k, n, m in shapes]
    dims = [[] for _ in range(16)]
    for k, v in DIMS.items():
        dims[k - 1] = [v[int(r.integers(len(v)))]]
    acts = acts or ACTS
    steps = [(acts[int(r.integers(len(acts)))], int(r.integers(1000)), int(r.integers(1000)))
             for _ in range(nsteps)]
    return dict(id=i, heap=heap, dims=dims, steps=steps)


def tla(s, ks=(0,)):
    return '[id |-> %d, heap |-> <<%s>>, dims |-> %s, steps |-> %s, ks |-> %s]' % (
        s['id'], ', '.join('[kind |-> "%s", val |-> %s]' % (k, gmat(m)) for k, m in s['heap']),
        qv._tla_value(s['dims']), qv._tla_value(s['steps']), qv._tla_value(set(ks)))


INVS = ['AdjointProduct', 'TraceCyclic', 'SuperIsConjugation', 'UnvecVec', 'PtraceKron',
        'PtraceTrace', 'EmitProg']


def programs(c, scripts, maxlen=0, maxobj=14, ks=(0,), workers=4):
    r = c.tlc('OperatorHeap', consts={
        'Scripts': qv.Raw('{' + ',\n'.join(tla(s, ks) for s in scripts) + '}'),
        'MaxLen': maxlen, 'MaxObj': maxobj, 'Bound': 5000},
        invariants=INVS, properties=['OnlyReceiver'], workers=workers)
    return r.msgs


def layout(r, m):
    """The same matrix in different memory layouts."""
    k = r.integers(5)
    if k == 0:
        return np.array(m, order='F')
    if k == 1:
        big = np.zeros((2 * m.shape[0], 2 * m.shape[1]), dtype=complex)
        big[::2, ::2] = m
        return big[::2, ::2]
    if k == 2:
        return m.T.copy().T
    return np.array(m)


def scalar(r, s):
    """A scalar in one of the accepted types."""
    x = s[0] + 1j * s[1]
    if s[1] == 0:
        t = r.choice(['int', 'float', 'complex', 'i64', 'i32', 'i8', 'f64', 'f32', 'c128', 'c64'])
        return {'int': int, 'float': float, 'complex': complex, 'i64': np.int64, 'i32': np.int32,
                'i8': np.int8, 'f64': np.float64, 'f32': np.float32, 'c128': np.complex128,
                'c64': np.complex64}[t](s[0])
    return [complex, np.complex128, np.complex64][r.integers(3)](x)


def replay(c, r, s, log):
    objs, want, cls, known = [], [], [], []
    for k, m in s['heap']:
        a = layout(r, m)
        objs.append(DenseOperator(a) if k == 'op' else a)
        want.append(m.copy())
        cls.append(len(cls))
        known.append(True)
    names = []
    for st in log:
        a, o, x = st['a'], [i - 1 for i in st['o']], st['x']
        names.append('%s%s' % (a, st['o']))
        A = objs[o[0]]
        B = objs[o[-1]]
        v = num(st['v'])
        info = dict(heap=[(k, m) for k, m in s['heap']], program=names, step=st)
        sc = scalar(r, x['s']) if 's' in x else None
        rem = [i - 1 for i in x['remove']] if 'remove' in x else None
        dims = list(x['dims']) if 'dims' in x else None
        at = tuple(i - 1 for i in x['at']) if 'at' in x else None
        c.actions[a] = c.actions.get(a, 0) + 1
        ret = None
        if a in ('add', 'addarr'):
            ret = A + B
        elif a in ('sub', 'subarr'):
            ret = A - B
        elif a in ('mul', 'mularr', 'rmularr'):
            ret = A * B
        elif a == 'smul':
            ret = A * sc
        elif a == 'rsmul':
            ret = sc * A
        elif a == 'sdiv':
            ret = A / sc
        elif a == 'sadd':
            ret = A + sc
        elif a == 'ssub':
            ret = A - sc
        elif a == 'dag':
            ret = A.dag() if r.integers(2) else A.dag(do_copy=True)
        elif a == 'conj':
            ret = A.conj() if r.integers(2) else A.conjugate()
        elif a == 'tp':
            ret = A.transpose()
        elif a == 'copy':
            ret = A.copy()
        elif a in ('kron', 'kronarr'):
            ret = A.kron(B)
        elif a == 'ptrace':
            ret = A.ptrace(dims=dims, remove=rem)
        elif a == 'trunc':
            ret = A.truncate_to_subspace([i - 1 for i in x['idx']])
        elif a == 'truncnone':
            ret = A.truncate_to_subspace(None)
        elif a in ('sup', 'suparr'):
            ret = qm.convert_unitary_to_super_operator(A)
        elif a in ('vec', 'vecarr'):
            ret = qm.ket_vectorize_density_matrix(A)
        elif a in ('unvec', 'unvecarr'):
            ret = qm.convert_ket_vectorized_density_matrix_to_square(A)
        elif a in ('wrap', 'wrapop'):
            ret = DenseOperator(A)
        elif a == 'idlike':
            ret = A.identity_like()
        elif a == 'trace':
            ret = A.tr()
        elif a == 'get':
            ret = A[at]
        elif a == 'flatten':
            ret = A.flatten()
        elif a in ('iadd', 'iaddarr'):
            ret = A
            ret += B
        elif a in ('isub', 'isubarr'):
            ret = A
            ret -= B
        elif a in ('imul', 'imularr'):
            ret = A
            ret *= B
        elif a == 'ismul':
            ret = A
            ret *= sc
        elif a == 'isdiv':
            ret = A
            ret /= sc
        elif a == 'isadd':
            ret = A
            ret += sc
        elif a == 'issub':
            ret = A
            ret -= sc
        elif a == 'idag':
            ret = A.dag(do_copy=False)
        elif a == 'iconj':
            ret = A.conj(do_copy=False)
        elif a == 'itp':
            ret = A.transpose(do_copy=False)
        elif a == 'iptrace':
            ret = A.ptrace(dims=dims, remove=rem, do_copy=False)
        elif a in ('set', 'setarr'):
            A[at] = complex(*x['s'])
            ret = A
        else:
            raise KeyError(a)
        if st['t'] == 'mut':
            if ret is not A:
                c.violation('in-place operation %s does not return its receiver' % a, info)
                return False
            want[o[0]] = v
            for i in range(len(objs)):
                if i != o[0] and cls[i] == cls[o[0]]:
                    known[i] = False
        elif st['t'] == 'scalar':
            c.comparisons += 1
            if ret != v[0, 0]:
                c.violation('%s is %s, exactly %s is specified (program %s)' % (a, ret, v[0, 0], names),
                            info)
                return False
        else:
            if (st['t'] == 'op') != (type(ret) is DenseOperator):
                c.violation('%s returns a %s' % (a, type(ret).__name__), info)
                return False
            if a == 'flatten':
                ret = np.asarray(ret).reshape(1, -1)
            objs.append(ret)
            want.append(v)
            known.append(True)
            shared = a in ('wrap', 'wrapop', 'truncnone', 'vecarr', 'unvecarr')
            cls.append(cls[o[0]] if shared else 1000 + len(cls))
        for i, (ob, w) in enumerate(zip(objs, want)):
            if not known[i]:
                continue
            got = ob.data if type(ob) is DenseOperator else ob
            c.comparisons += 1
            if got.shape != w.shape or not np.array_equal(got, w):
                if i == len(objs) - 1 and st['t'] in ('op', 'arr') or (st['t'] == 'mut' and i == o[0]):
                    what = 'the result of %s is not the specified matrix' % names[-1]
                else:
                    what = '%s changed object %d' % (names[-1], i + 1)
                c.violation('%s (program %s)' % (what, ' '.join(names[-6:])),
                            dict(info, got=got, specified=w))
                return False
    c.traces += 1
    return True
