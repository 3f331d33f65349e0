"""Driving Evolution.tla and comparing whole evolutions with a real solver."""
import qv
from scenes import Scene, cmp_nested

INVS = ['TimeOrdered', 'Composition', 'ZeroNoise', 'TracesIndependent', 'EmitDone']
TOL = 1e-8


def shape(kind, nt, nc, nw=None, ntr=0, no=0, nl=0, diss=(), pref=False, dd=False):
    return dict(kind=kind, nt=nt, nc=nc, nw=nw or nc, ntr=ntr, no=no, nl=nl,
                diss=set(diss), pref=pref, dd=dd)


def payloads(c, shapes):
    """Emitted observables per shape, in the order of shapes."""
    tla = '{' + ',\n'.join(sorted({qv._tla_value(s) for s in shapes})) + '}'
    r = c.tlc('Evolution', consts={'Shapes': qv.Raw(tla)}, invariants=INVS)

    def key(s):
        return tuple(sorted((k, tuple(sorted(v)) if isinstance(v, (set, list)) else v)
                            for k, v in s.items()))
    by = {key(m['shape']): m for m in r.msgs}
    return [by[key(s)] for s in shapes]


READS = {'propagators': 'slices', 'forward_propagators': 'fwd',
         'reversed_propagators': 'rev', 'frechet_deriv_propagators': 'dslices',
         'propagators_noise': 'nslices', 'forward_propagators_noise': 'nfwd',
         'reversed_propagators_noise': 'nrev',
         'frechet_deriv_propagators_noise': 'ndslices'}


def compare(c, scene, pay, solver, reads, ip=None, tol=TOL, what='', known=None):
    """Compare the quantities named in reads (in that order) with the payload."""
    ip = ip or scene.interp()
    ok = True
    for name in reads:
        try:
            got = getattr(solver, name)
        except NotImplementedError:
            if scene.processes != 1 and name.startswith('frechet'):
                continue
            raise
        for path, e, g, want in cmp_nested(
                got, pay[READS[name]], ip, floor=min(1., scene.ku) if 'deriv' in name else 1.):
            c.comparisons += 1
            if not e <= tol:
                ok = False
                c.violation('%s%s%s deviates from the specified value by %.3g '
                            '(kind %s, dim %d, method %s, initial state %s)' % (
                                what, name, path, e, scene.kind, scene.dim,
                                scene.method, scene.init_kind),
                            dict(scene=scene.describe(), observable=name + path,
                                 got=g, specified=want, order=list(reads)),
                            known_key=known)
                break
    return ok
