"""Interpreter of the terms emitted by spec/Terms.tla.

A term is a nested JSON list.  The interpreter knows nothing about qopt: it maps
the operators of the term language to numpy / scipy primitives.
"""
import numpy as np
import scipy.linalg as sla


def freeze(t):
    return tuple(freeze(x) if isinstance(x, list) else x for x in t) \
        if isinstance(t, (list, tuple)) else t


def dexpm(a, e):
    """Frechet derivative of expm at a in direction e, by the block formula
    (independent of scipy's expm_frechet used by qopt)."""
    n = a.shape[0]
    m = np.zeros((2 * n, 2 * n), dtype=complex)
    m[:n, :n] = a
    m[n:, n:] = a
    # linear in e: scaled, so that e does not dominate the squaring
    scale = np.abs(e).max(initial=0.) or 1.
    m[:n, n:] = e / scale
    return scale * sla.expm(m)[:n, n:]


def ptrace(m, dims, remove):
    """Partial trace by its definition: sum over equal indices."""
    dims = list(dims)
    keep = [i for i in range(len(dims)) if i not in remove]
    dk = [dims[i] for i in keep]
    n = int(np.prod(dk))
    out = np.zeros((n, n), dtype=complex)
    for a in np.ndindex(*dims):
        for b in np.ndindex(*dims):
            if all(a[i] == b[i] for i in remove):
                i = int(np.ravel_multi_index([a[k] for k in keep], dk)) if keep else 0
                j = int(np.ravel_multi_index([b[k] for k in keep], dk)) if keep else 0
                out[i, j] += m[np.ravel_multi_index(a, dims), np.ravel_multi_index(b, dims)]
    return out


class Interp:
    """Evaluate frozen terms for one valuation.

    at:  function (name, idx tuple) -> number / matrix
    fun: function (name, idx, args) -> number
    pd:  function (name, idx, k, args) -> number, partial derivative by arg k
    """

    def __init__(self, at, fun=None, pd=None, dim=None, sub=None):
        self.at, self.fun, self.pd = at, fun, pd
        self.dim, self.sub = dim, sub
        self.memo = {}

    def __call__(self, t):
        t = freeze(t)
        return self.ev(t)

    def ev(self, t):
        try:
            return self.memo[t]
        except KeyError:
            pass
        r = self._ev(t)
        self.memo[t] = r
        return r

    def _ev(self, t):
        op = t[0]
        ev = self.ev
        if op == 'num':
            return t[1] / t[2]
        if op == 'im':
            return 1j
        if op == 'id':
            return np.eye(self.dim, dtype=complex)
        if op == 'at':
            return self.at(t[1], t[2])
        if op == 'add':
            r = ev(t[1][0])
            for x in t[1][1:]:
                r = r + ev(x)
            return r
        if op == 'mul':
            r = ev(t[1][0])
            for x in t[1][1:]:
                y = ev(x)
                r = r * y if np.ndim(r) == 0 or np.ndim(y) == 0 else r @ y
            return r
        if op == 'exp':
            return sla.expm(np.asarray(ev(t[1]), dtype=complex))
        if op == 'dexp':
            return dexpm(ev(t[1]), ev(t[2]))
        if op == 'dag':
            return np.conj(np.transpose(ev(t[1])))
        if op == 'conj':
            return np.conj(ev(t[1]))
        if op == 'tp':
            return np.transpose(ev(t[1]))
        if op == 'tr':
            return np.trace(ev(t[1]))
        if op == 're':
            return np.real(ev(t[1]))
        if op == 'imp':
            return np.imag(ev(t[1]))
        if op == 'abs2':
            return float(np.abs(ev(t[1])) ** 2)
        if op == 'el':
            return ev(t[1])[0, 0]
        if op == 'inv':
            return 1.0 / ev(t[1])
        if op == 'kron':
            return np.kron(ev(t[1]), ev(t[2]))
        if op == 'trunc':      # rows and columns of the computational subspace
            m = ev(t[1])
            return m[np.ix_(self.sub, self.sub)]
        if op == 'truncket':
            return ev(t[1])[np.asarray(self.sub), :]
        if op == 'polar':
            return sla.polar(ev(t[1]))[0]
        if op == 'dpolar':     # A = W P: antihermitian part of the Sylvester equation
            w, p = sla.polar(ev(t[1]))
            m = w.conj().T @ ev(t[2])
            return w @ sla.solve_sylvester(p, p, m - m.conj().T)
        if op == 'embed':      # operator on the subspace -> zero-filled operator
            m = ev(t[1])
            out = np.zeros((self.full, self.full), dtype=complex)
            out[np.ix_(self.sub, self.sub)] = m
            return out
        if op == 'ptrace':
            return ptrace(ev(t[1]), self.dims, self.remove)
        if op == 'unvec':      # column-stacked density matrix
            m = ev(t[1])
            n = int(round(np.sqrt(m.size)))
            return m.reshape(n, n).T
        if op == 'block':      # [[a, b], [0, c]]
            n = self.dim
            out = np.zeros((2 * n, 2 * n), dtype=complex)
            out[:n, :n], out[:n, n:], out[n:, n:] = ev(t[1]), ev(t[2]), ev(t[3])
            return out
        if op == 'ur':
            m = ev(t[1])
            return m[:len(m) // 2, len(m) // 2:]
        if op == 'cis':
            return np.exp(1j * ev(t[1]))
        if op == 'fun':
            return self.fun(t[1], t[2], tuple(ev(x) for x in t[3]))
        if op == 'pd':
            return self.pd(t[1], t[2], t[3], tuple(ev(x) for x in t[4]))
        raise KeyError(op)
