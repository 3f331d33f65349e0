"""Shared machinery of the checks: running TLC, bookkeeping, evidence, verdicts.

Every check runs TLC on an explicit TLA+ specification (/verif/spec), takes the
behaviours / expected observations TLC prints (or hands TLC a trace recorded
from the real code), and compares them with what /repo's working tree does.
"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib

warnings.showwarning = lambda *a, **k: None     # deprecation notes of qopt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('QOPT_REPO', '/repo')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class TLCError(Exception):
    """The specification itself failed to check: machinery error (exit 2)."""


class TLCResult:
    def __init__(self, out, states, distinct, wall):
        self.out = out
        self.states = states        # states generated == transitions taken
        self.distinct = distinct
        self.wall = wall
        self.msgs = []


def _tla_value(v):
    """Python value -> TLA+ constant expression."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(_tla_value(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(_tla_value(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, _tla_value(x))
                               for k, x in v.items()) + ']'
    raise TypeError(type(v))


def run_tlc(module, consts=None, spec='Spec', invariants=(), properties=(),
            constraints=(), postcondition=None, simulate=None, depth=None,
            seed=None, workers=1, deadlock=False, timeout=600, files=None,
            view=None, expect_violation=False, action_constraints=()):
    """Run TLC on spec/<module>.tla; returns TLCResult whose .msgs are the
    JSON payloads printed by `Emit` (PrintT(<<"@", ToJson(x)>>))."""
    tmp = tempfile.mkdtemp(prefix='qvtlc_')
    try:
        for fn in os.listdir(SPEC):
            if fn.endswith('.tla'):
                os.symlink(os.path.join(SPEC, fn), os.path.join(tmp, fn))
        for fn, txt in (files or {}).items():
            with open(os.path.join(tmp, fn), 'w') as f:
                f.write(txt)
        consts = consts or {}
        with open(os.path.join(tmp, 'MC.tla'), 'w') as f:
            f.write('---- MODULE MC ----\nEXTENDS %s\n' % module)
            for k, v in consts.items():
                f.write('MC_%s == %s\n' % (k, v if isinstance(v, Raw) else _tla_value(v)))
            f.write('====\n')
        with open(os.path.join(tmp, 'MC.cfg'), 'w') as f:
            f.write('SPECIFICATION %s\n' % spec)
            for k in consts:
                f.write('CONSTANT %s <- MC_%s\n' % (k, k))
            for i in invariants:
                f.write('INVARIANT %s\n' % i)
            for p in properties:
                f.write('PROPERTY %s\n' % p)
            for c in constraints:
                f.write('CONSTRAINT %s\n' % c)
            for c in action_constraints:
                f.write('ACTION_CONSTRAINT %s\n' % c)
            if postcondition:
                f.write('POSTCONDITION %s\n' % postcondition)
            if view:
                f.write('VIEW %s\n' % view)
            f.write('CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE'))
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx6g', '-XX:ParallelGCThreads=2',
               '-cp', JARS, 'tlc2.TLC',
               '-metadir', os.path.join(tmp, 'st'), '-noGenerateSpecTE',
               '-workers', str(workers), '-config', 'MC.cfg']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd += ['MC.tla']
        t0 = time.time()
        p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = p.stdout
        wall = time.time() - t0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    states = distinct = 0
    for line in out.splitlines():
        if 'states generated' in line and 'distinct' in line:
            w = line.replace(',', '').split()
            try:
                states = int(w[0])
                distinct = int(w[w.index('distinct') - 1])
            except (ValueError, IndexError):
                pass
        elif line.startswith('The number of states generated:'):
            states = distinct = int(line.split(':')[1].replace(',', ''))
    res = TLCResult(out, states, distinct, wall)
    for line in out.splitlines():
        if line.startswith('"@'):
            res.msgs.append(json.loads(json.loads(line)[1:]))
    if not expect_violation and (p.returncode != 0):
        raise TLCError('TLC failed on %s (exit %d):\n%s' % (
            module, p.returncode, '\n'.join(l[:300] for l in out.splitlines() if l.startswith(('Error', 'The ')))[:2000] + out[-2000:]))
    res.returncode = p.returncode
    return res


class Raw(str):
    """A TLA+ expression passed through unchanged."""


def crc(*a):
    return zlib.crc32(repr(a).encode())


class Check:
    """Bookkeeping of one check run."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed * 1000003 + crc(pid))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.assumptions = []
        self.extra = {}
        self.actions = {}
        self.max_violations = 5
        try:
            with open(os.path.join(VERIF, 'known_findings.json')) as f:
                self.known = [k for k in json.load(f)['findings']
                              if k['property'] == pid]
        except FileNotFoundError:
            self.known = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def np_rng(self, *salt):
        import numpy as np
        return np.random.default_rng([self.seed, crc(self.pid, *salt)])

    def tlc(self, module, **kw):
        r = run_tlc(module, **kw)
        self.states += r.distinct
        self.transitions += r.states
        return r

    def sample(self, obj, n=3):
        if len(self.samples) < n:
            self.samples.append(obj)

    def violation(self, what, replay=None, known_key=None):
        """Record a violation (or the hit of a listed known finding)."""
        if known_key is not None:
            for k in self.known:
                if k['key'] == known_key and k['status'] == 'open':
                    if known_key not in self.known_hits:
                        self.known_hits[known_key] = k['what']
                        print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']), file=sys.__stdout__)
                    return
        if len(self.violations) >= self.max_violations:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'seed': self.seed,
                       'tier': self.tier, 'replay': replay}, f, indent=1,
                      default=_default)
        self.violations.append(what)
        print('VIOLATION property=%s replay=%s' % (self.pid, path), file=sys.__stdout__, flush=True)
        print('  ' + what.replace('\n', '\n  ')[:1500], file=sys.__stdout__, flush=True)
        sys.stdout.flush()

    @property
    def full(self):
        return len(self.violations) >= self.max_violations

    def time_left(self, budget):
        return budget - (time.time() - self.t0)

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'comparisons_with_impl': self.comparisons,
               'samples': self.samples}
        if self.actions:
            cov['actions_replayed'] = self.actions
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_default)
        print('%s %s: %d spec states, %d behaviours replayed, %d comparisons, '
              '%d violations, %.1fs' % (
                  self.pid, self.tier, self.states, self.traces,
                  self.comparisons, len(self.violations), ev['wall_s']))
        return 1 if self.violations else 0


def _default(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        if np.iscomplexobj(o):
            return {'re': o.real.tolist(), 'im': o.imag.tolist()}
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item() if not np.iscomplexobj(o) else repr(o.item())
    return repr(o)


def main(pid, func):
    c = Check(pid)
    try:
        func(c)
    except (TLCError, MemoryError, subprocess.SubprocessError):
        traceback.print_exc()
        if c.violations:      # a violation is already established
            return c.finish()
        return 2              # the specification or the machinery failed
    except Exception as e:
        # the code under test raised, or returned something malformed, where
        # the specification allows the step
        traceback.print_exc()
        c.violation('a permitted step raised %s: %s' % (type(e).__name__, e),
                    {'traceback': traceback.format_exc()})
    return c.finish()
