"""Solver histories from SolverCache.tla, replayed on real solvers."""
import numpy as np

import qv
from subjects import Family, DEP, observe, deviation

TOL = 1e-9

# (kind, transfer function, amplitude function, options)
FAMILIES = [
    ('closed', 'none', 'none', {}), ('closed', 'id', 'custom', {}),
    ('closed', 'over', 'custom', {}), ('closed', 'overpad', 'unary', {}),
    ('closed', 'overm', 'custom', {}), ('closed', 'overmx', 'none', {}),
    ('closed', 'conv', 'unary', {}), ('closed', 'gauss', 'none', {}),
    ('closed', 'cat', 'custom', {}), ('closed', 'catm', 'none', {}),
    ('closed', 'par', 'custom', {}), ('closed', 'parm', 'none', {}),
    ('closed', 'exp', 'none', {}), ('closed', 'none', 'none', {'method': 'spectral'}),
    ('closed', 'none', 'unary', {'grape': True, 'calc': False}),
    ('closed', 'none', 'none', {'grape': True, 'calc': True}),
    ('mc', 'none', 'none', {}), ('mc', 'over', 'custom', {}),
    ('mc', 'none', 'custom', {'grape': True, 'calc': False}),
    ('mc', 'none', 'none', {'grape': True, 'calc': True}),
    ('mcna', 'none', 'custom', {}), ('mcna', 'overm', 'none', {}),
    ('mccn', 'none', 'none', {}), ('mccn', 'none', 'custom', {}),
    ('lind_jump', 'none', 'custom', {}), ('lind_sup', 'none', 'none', {}),
    ('lind_pref', 'none', 'none', {}), ('lind_pref', 'over', 'custom', {}),
    ('lind_func', 'none', 'none', {}), ('lind_func', 'overm', 'unary', {}),
    # small units of the parameters
    ('closed', 'none', 'none', {'unit': 1e-9}), ('mc', 'over', 'none', {'unit': 1e-12, 'ff': False}),
    ('closed', 'conv', 'none', {'unit': 1e-15, 'ff': False}), ('mccn', 'none', 'none', {'unit': 1e-9}),
    # small durations
    ('closed', 'none', 'none', {'unit': 1e9}), ('closed', 'over', 'none', {'unit': 1e9}),
    ('closed', 'catm', 'none', {'unit': 1e12, 'ff': False}), ('mc', 'none', 'none', {'unit': 1e9, 'ff': False}),
    ('lind_jump', 'none', 'none', {'unit': 1e9, 'ff': False}),
    # truncated exponential series
    ('closed', 'none', 'none', {'method': 'second_order', 'calc': False}),
    ('mc', 'none', 'none', {'method': 'third_order', 'calc': False}),
    ('lind_jump', 'none', 'none', {'method': 'first_order', 'calc': False}),
]


def signature(f):
    q = f.queries()
    return (tuple(sorted(f.gridset)), tuple(sorted(f.bads())), tuple(q))


def histories(c, sig):
    grids, bads, qs = sig
    size = '<<' + ','.join({1: '1', 2: '1', 3: '2'}[g] for g in grids) + '>>'
    dep = '[q \\in {%s} |-> CASE ' % ','.join('"%s"' % q for q in qs) + ' [] '.join(
        'q = "%s" -> {%s}' % (q, ','.join('"%s"' % d for d in sorted(DEP[q]))) for q in qs) + ']'
    consts = dict(Vals={1, 2}, Grids=set(grids), Size=qv.Raw(size), Bad=set(bads),
                  Queries=set(qs), Dep=qv.Raw(dep), Edits=True, OnlyEmitFull=True)
    # all states of the model (histories of any length; the log is no state)
    c.tlc('SolverCache', consts=dict(consts, MaxLen=1000000), view='SettingsView',
          invariants=['CacheFresh'], properties=['SettingsStable', 'Idempotent'])
    # random walks to replay: short and long ones
    out = []
    for n, length in ((c.pick(300, 3000), 5), (c.pick(60, 1500), c.pick(16, 24))):
        r = c.tlc('SolverCache', consts=dict(consts, MaxLen=length), simulate=n, depth=length + 1,
                  seed=c.seed, invariants=['CacheFresh', 'EmitDone'])
        d = {}
        for m in r.msgs:
            d.setdefault(repr(m['h']), m)
        out.append([d[k] for k in sorted(d)])
    return out


class Replay:
    def __init__(self, c, f, r):
        self.c, self.f, self.r = c, f, r
        self.fresh = {}

    def want(self, par, grid, q):
        k = (par, grid, q)
        if k not in self.fresh:
            s = self.f.build(grid)
            s.set_optimization_parameters(self.f.par(par, grid))
            self.fresh[k] = observe(s, q)
        return self.fresh[k]

    def fail(self, what, h, i, extra=None):
        f = self.f
        self.c.violation('%s (solver %s, transfer %s, amplitude %s, step %d of %s)' % (
            what, f.kind, f.tfkind, f.ampkind, i, h), dict(
                history=h, step=i, kind=f.kind, tf=f.tfkind, amp=f.ampkind,
                grids=f.grids, values={str(k): v for k, v in f.vals.items()}, extra=extra))

    def query(self, s, q, par, grid, h, i):
        c = self.c
        c.comparisons += 1
        if par == 0:
            try:
                observe(s, q)
            except Exception:
                return True
            self.fail('query %s answered although no parameters are set' % q, h, i)
            return False
        try:
            got = observe(s, q)
        except Exception as e:
            self.fail('query %s raised %r' % (q, e), h, i)
            return False
        dev = deviation(got, self.want(par, grid, q))
        if not dev <= TOL:
            self.fail('%s differs from a new solver with the same settings by %.3g' % (q, dev),
                      h, i, dict(got=got, want=self.want(par, grid, q)))
            return False
        return True

    def run(self, m):
        c, f = self.c, self.f
        h = m['h']
        grid, par = h[0][1], 0
        s = f.build(grid)
        arr = None
        for i, (act, arg, extra) in enumerate(h[1:], 1):
            c.actions[act] = c.actions.get(act, 0) + 1
            try:
                if act == 'Set':
                    arr = f.par(arg, grid)
                    s.set_optimization_parameters(arr)
                    par = arg
                elif act == 'Edit':
                    arr[...] = f.par(arg, {len(f.grids[g]): g for g in f.gridset}[len(arr)])
                elif act == 'Resubmit':
                    s.set_optimization_parameters(arr)
                    par = arg
                elif act == 'Regrid':
                    if len(f.grids[arg]) != len(f.grids[grid]):
                        par = 0
                    grid = arg
                    s.set_times(f.grids[grid].copy())
                elif act == 'Reset':
                    s.reset_cached_propagators()
            except Exception as e:
                return self.fail('%s raised %r' % (act, e), h, i)
            if act == 'Reject':
                try:
                    s.set_optimization_parameters(f.bad(arg, grid))
                except Exception:
                    pass
                else:
                    return self.fail('unacceptable parameters (%s) were accepted' % arg, h, i)
            elif act == 'Query':
                if not self.query(s, arg, extra, grid, h, i):
                    return
        qs = f.queries()
        for q in self.r.permutation(qs):
            if not self.query(s, str(q), m['par'], m['grid'], h, len(h)):
                return
        c.traces += 1


def check(c):
    r = c.np_rng()
    fams = []
    for kind, t, a, o in FAMILIES:
        for rep in range(c.pick(2, 3)):
            fams.append(Family(kind, t, a, r, **o))
    hs = {}
    for f in fams:
        sig = signature(f)
        if sig not in hs:
            hs[sig] = histories(c, sig)
    nshort = c.pick(60, 900)
    for f in fams:
        short, long_ = hs[signature(f)]
        ids = r.permutation(len(short))[:nshort]
        if not c.thorough:
            lids = r.permutation(len(long_))[:15]
        else:
            lids = r.permutation(len(long_))[:400]
        rp = Replay(c, f, r)
        for m in [short[i] for i in ids] + [long_[i] for i in lids]:
            if c.full:
                return
            rp.run(m)
        c.sample({'solver': f.kind, 'transfer': f.tfkind, 'amplitude': f.ampkind,
                  'history': long_[lids[0]]['h']})
    c.extra['short_histories_specified'] = sum(len(a) for a, _ in hs.values())
    c.extra['solver_families'] = len(fams)
