"""Driving Costs.tla: real cost functions for the records of the specification."""
import numpy as np

import qv
from scenes import DenseOperator, Scene, rand_u, rand_c
from qopt import cost_functions as cf

INVS = ['TimeOrdered', 'Composition', 'GrapeIdentity', 'Local', 'NoNoiseInCost',
        'AllTracesInCost', 'TracesIndependent', 'EmitCosts']


def rec(c, comp=False, map=False, neg=False):
    return dict(c=c, comp=comp, map=map, neg=neg)


def shape(kind, nt, nc, costs, nw=None, ntr=0, no=0, nl=0, diss=(), pref=False, dd=False,
          nx=None, grad=True):
    return dict(kind=kind, nt=nt, nc=nc, nw=nw or nc, ntr=ntr, no=no, nl=nl, diss=set(diss),
                pref=pref, dd=dd, costs=costs, nx=nx or nt, grad=grad)


def _tla(sh):
    d = dict(sh)
    costs = '{' + ', '.join(qv._tla_value(r) for r in d.pop('costs')) + '}'
    return qv._tla_value(d)[:-1] + ', costs |-> ' + costs + ']'


def payloads(c, shapes):
    for i, s in enumerate(shapes):
        s['id'] = i + 1
    tla = '{' + ',\n'.join(_tla(s) for s in shapes) + '}'
    r = c.tlc('Costs', consts={'Shapes': qv.Raw(tla)}, invariants=INVS)
    by = {m['id']: m for m in r.msgs}
    return [by[s['id']] for s in shapes]


class CostScene(Scene):
    """A scene with a target, computational subspace and tensor structure."""

    def __init__(self, shape, r, crec, **kw):
        c = crec['c']
        self.crec = crec
        if kw.get('dim') is None:
            lind = shape['kind'] == 'lind'
            kw['dim'] = int(r.choice([2, 3] if lind else [2, 3, 4]))
            if c in ('sub', 'subrho'):
                kw['dim'] = int(r.choice([4, 6, 8])) if not lind else 4
            elif crec['comp'] or c in ('leak', 'inc', 'lsup', 'lsuu', 'lmcu'):
                kw['dim'] = int(r.choice([3, 4, 5])) if not lind else 3
        if c in ('state', 'sub', 'stn', 'subrho'):
            kw.setdefault('init', 'ket')
        elif c in ('opn', 'lmc', 'inc', 'lmcu', 'lsuu', 'lsup', 'leak') or r.integers(3):
            kw.setdefault('init', r.choice(['default', 'id']))
        else:
            kw.setdefault('init', r.choice(['default', 'id', 'op']))
        super().__init__(shape, r, **kw)
        d = self.dim
        self.comp = None
        if crec['comp'] or c in ('leak', 'inc', 'lsup', 'lsuu', 'lmcu'):
            n = int(r.integers(1, d)) if d > 1 else 1
            if crec['map'] and n == 1 and d > 2:
                n = 2
            self.comp = [int(i) for i in r.permutation(d)[:n]]
            if r.integers(2):
                self.comp.sort()
        n = len(self.comp) if self.comp else d
        self.dims = self.remove = None
        if c in ('sub', 'subrho'):
            self.dims = {4: [2, 2], 6: [[2, 3], [3, 2]][r.integers(2)], 8: [2, 2, 2]}[d]
            k = int(r.integers(1, len(self.dims)))
            self.remove = sorted(int(i) for i in r.permutation(len(self.dims))[:k])
            n = int(np.prod([x for i, x in enumerate(self.dims) if i not in self.remove]))
        self.T = rand_u(r, n)
        self.bra = rand_c(r, 1, n)
        self.bra /= np.linalg.norm(self.bra)
        self.targets(n)
        pc = np.zeros((d, d))
        if self.comp:
            for i in self.comp:
                pc[i, i] = 1
        self.extra = {'T': self.T, 'bra': self.bra, 'invd2': 1. / n ** 2, 'invd': 1. / n,
                      'lbra': (np.eye(d) - pc).T.reshape(1, -1) + 0j,
                      'cket': pc.T.reshape(-1, 1) + 0j}

    def targets(self, n):
        """Special targets: real, permutations, phases, basis states."""
        r, k = self.r, self.r.integers(10)
        if k == 0:
            self.T = np.linalg.qr(self.T.real)[0] + (0j if r.integers(2) else 0)
        elif k == 1:
            self.T = np.eye(n)[r.permutation(n)] * r.choice([1, 1j, -1])
        elif k == 2:
            self.T = np.diag(np.exp(1j * r.uniform(0, 6, n)))
        elif k == 3:
            self.T = np.eye(n) + 0j
        k = r.integers(8)
        if k == 0:
            self.bra = self.bra.real / np.linalg.norm(self.bra.real) + (0j if r.integers(2) else 0)
        elif k == 1:
            self.bra = np.eye(n)[[r.integers(n)]] * r.choice([1, 1j, -1])
        elif k == 2:
            self.bra = np.abs(self.bra) * 1j
        self.normed = bool(r.integers(6))
        if not self.normed:     # the overlap with any state
            self.bra = self.bra * r.uniform(.3, 3)

    def ip(self, **kw):
        ip = self.interp(**kw)
        ip.sub = self.comp
        ip.full = self.dim
        ip.dims, ip.remove = self.dims, self.remove
        return ip

    def cost(self, s, label=None):
        c, comp = self.crec, self.comp
        D = DenseOperator
        T, bra = D(self.T.copy()), D(self.bra.copy())
        if self.r.integers(2):
            bra = D(self.bra.conj().T.copy())         # kets are accepted as well
        k = c['c']
        cs = list(comp) if comp else None
        lab = dict(label=label) if label else {}
        if k == 'op':
            return cf.OperationInfidelity(s, T, computational_states=cs,
                                          map_to_closest_unitary=c['map'], **lab)
        if k == 'sup':
            return cf.OperationInfidelity(s, T, super_operator_formalism=True,
                                          computational_states=cs, **lab)
        if k == 'state':
            return cf.StateInfidelity(s, bra, computational_states=cs,
                                      rescale_propagated_state=c['map'], **lab)
        if k in ('sub', 'subrho'):
            return cf.StateInfidelitySubspace(s, bra, dims=list(self.dims),
                                              remove=list(self.remove), **lab)
        if k == 'leak':
            return cf.LeakageError(s, cs, **lab)
        if k == 'opn':
            return cf.OperationNoiseInfidelity(s, None if c['neg'] else T, computational_states=cs,
                                               map_to_closest_unitary=c['map'],
                                               neglect_systematic_errors=c['neg'], **lab)
        if k == 'stn':
            return cf.StateNoiseInfidelity(s, None if c['neg'] and self.r.integers(2) else bra,
                                           computational_states=cs,
                                           rescale_propagated_state=c['map'],
                                           neglect_systematic_errors=c['neg'], **lab)
        if k == 'lmc':
            return cf.LiouvilleMonteCarloEntanglementInfidelity(s, T, computational_states=cs, **lab)
        if k == 'inc':
            return cf.IncoherentLeakageError(s, cs, **lab)
        if k == 'lsup':
            return cf.LeakageLiouville(s, cs, **lab)
        if k == 'lsuu':
            return cf.LeakageLiouville(s, cs, input_unitary=True, **lab)
        if k == 'lmcu':
            return cf.LeakageLiouville(s, cs, input_unitary=True, monte_carlo=True, **lab)
        raise KeyError(k)

    def want(self, pay, ip):
        return float(np.real(np.asarray(ip(pay['val'])).reshape(-1)[0]))

    def want_grad(self, pay, pull, ip, key='dw'):
        """Gradient by the optimisation parameters, (ny, nw)."""
        dw = np.array([[complex(np.asarray(ip(t)).reshape(-1)[0]).real for t in row]
                       for row in pay[key]])
        tm = self.tm()
        from terms import Interp

        def at(name, idx):
            i = [k - 1 for k in idx]
            return dw[i[0], i[1]] if name == 'dw' else tm[i[0], i[1], i[2]]
        ip2 = Interp(at)
        return np.array([[ip2(t) for t in row] for row in pull])
