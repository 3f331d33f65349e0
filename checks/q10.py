"""Noise generators: histories of reads (Noise.tla), spectra and distributions."""
import numpy as np
from scipy import integrate, stats

import qv
from qopt import noise as qn
from qopt.noise import NTGColoredNoise, NTGQuasiStatic


def tla(s):
    return '[id |-> %d, gens |-> <<%s>>]' % (s['id'], ', '.join(
        '[' + ', '.join('%s |-> %s' % (k, qv._tla_value(g[k])) for k in
                        ('kind', 'ops', 'tr', 'len', 'redraw', 'given', 'gtr', 'glen')) + ']'
        for g in s['gens']))


def generator(r):
    kind = ['det', 'mc', 'col'][int(r.integers(3))]
    g = dict(kind=kind, ops=int(r.integers(1, 4)), tr=int(r.choice([1, 2, 3, 4, 5])),
             len=int(r.choice([1, 2, 3, 4])), redraw=bool(r.integers(2)), given=False, gtr=1, glen=1)
    g['std'] = [float(x) for x in r.choice([.1, .5, 1., 2., 3.7, 1e-3, 1e-9, 1e-18, 1e8], g['ops'])]
    g['correct'] = bool(r.integers(2)) and g['tr'] > 1
    g['given'] = kind != 'col' and bool(r.integers(3) == 0)
    if g['given']:
        g['gtr'] = g['tr'] * (g['ops'] if kind == 'det' else 1)
        g['glen'] = g['len']
        g['samples'] = r.normal(size=(g['ops'], g['gtr'], g['glen']))
    g['slope'] = float(r.choice([0., 1., -1., 2.]))
    g['ratio'] = int(r.choice([1, 1, 2, 3]))
    return g


def points(n, std, correct):
    x = stats.norm.ppf((2 * np.arange(1, n + 1) - 1) / (2 * n)) * std
    if correct:
        x = x * std / np.sqrt(np.mean((x - x.mean()) ** 2))
    return x


def build(r, g):
    if g['kind'] == 'col':
        # a length of two or more samples is needed for a non-zero frequency
        return NTGColoredNoise(n_samples_per_trace=g['len'],
                               noise_spectral_density=lambda f: 2 + f ** g['slope'], dt=.3,
                               n_traces=g['tr'], n_noise_operators=g['ops'],
                               always_redraw_samples=g['redraw'],
                               low_frequency_extension_ratio=g['ratio'] + 1)
    kw = {}
    if g['given']:
        kw['noise_samples'] = g['samples'].copy()
    ntr, ln = g['tr'], g['len']
    if g['given'] and not g['redraw'] and not g['switched']:
        if r.integers(2):
            ntr = None          # numbers are taken from the samples
        if r.integers(2):
            ln = None
    mode = {'det': 'uncorrelated_deterministic', 'mc': 'monte_carlo'}[g['kind']]
    if g['kind'] == 'mc' or r.integers(2):
        kw['sampling_mode'] = mode
    std = [list, np.array, tuple][int(r.integers(3))](g['std'])
    return NTGQuasiStatic(standard_deviation=std, n_samples_per_trace=ln, n_traces=ntr,
                          always_redraw_samples=g['redraw'],
                          correct_std_for_discrete_sampling=g['correct'] and ntr is not None, **kw)


def replay(c, r, s, log):
    for k, g in enumerate(s['gens']):
        g['switched'] = any(st['a'] == 'switch' and st['g'] == k + 1 for st in log)
    gens = [build(r, g) for g in s['gens']]
    value, owner, kept = {}, {}, []
    names = []
    for st in log:
        k = st['g'] - 1
        g, cfg = gens[k], s['gens'][k]
        names.append('%s(%d)' % (st['a'], k + 1))
        info = dict(generators=s['gens'], history=names)
        c.actions[st['a']] = c.actions.get(st['a'], 0) + 1
        if st['a'] == 'switch':
            g.always_redraw_samples = st['v']
        elif st['a'] == 'meta':
            got = (g.n_noise_operators, g.n_traces, g.n_samples_per_trace)
            c.comparisons += 1
            if got != tuple(st['v']):
                c.violation('a generator announces (operators, traces, samples) = %s, specified %s'
                            % (got, tuple(st['v'])), info)
                return
        else:
            x = g.noise_samples
            v = st['v']
            want = (len(v), len(v[0]), len(v[0][0]))
            c.comparisons += 1
            if np.shape(x) != want:
                c.violation('samples of shape %s instead of %s (%s)' % (np.shape(x), want, cfg['kind']), info)
                return
            kept.append((x, np.array(x)))
            for i in range(want[0]):
                pts = points(cfg['tr'], cfg['std'][i], cfg['correct']) if cfg['kind'] == 'det' else None
                for j in range(want[1]):
                    for t in range(want[2]):
                        sym, y = tuple(v[i][j][t]), float(x[i, j, t])
                        c.comparisons += 1
                        if sym[0] == 'zero':
                            ok = y == 0
                        elif sym[0] == 'pt':
                            ok = abs(y - pts[sym[2] - 1]) < 1e-9 * cfg['std'][i]
                        elif sym[0] == 'given':
                            ok = y == cfg['samples'][i, j, t]
                        else:
                            ok = value.setdefault(sym, y) == y and owner.setdefault(y, sym) == sym
                        if not ok:
                            c.violation('sample [%d, %d, %d] of a %s generator is %r where %s is specified '
                                        '(history %s)' % (i, j, t, cfg['kind'], y, sym, ' '.join(names)),
                                        dict(info, samples=x))
                            return
    for x, y in kept:
        c.comparisons += 1
        if np.any(x != y):
            c.violation('samples delivered earlier were changed by a later read', info)
            return
    c.traces += 1


def covariance(n, dt, spec):
    """Covariance by lag of n samples spaced dt with the one-sided spectrum, zero mean."""
    f = np.arange(n) / (n * dt)
    f = np.minimum(f, n / (n * dt) - f)
    s2 = np.zeros(n)
    s2[1:] = spec(f[1:]) / 2
    return np.real(np.fft.ifft(s2)) / dt


def zmax(x, want, var_of):
    """Largest deviation of the mean of the rows in standard errors."""
    return np.abs(x.mean(axis=0) - want) / np.sqrt(var_of / x.shape[0])


def statistics(c, r):
    np.random.seed(c.seed)
    for i in range(c.pick(14, 120)):
        n = int(r.choice([1, 2, 3, 4, 5, 7, 8, 9]))
        dt = float(r.choice([.01, .5, 1., 4., 1e-9, 1e7]))
        ratio = int(r.choice([1, 1, 2, 3, 5]))
        a, b = float(r.uniform(.2, 2) * r.choice([1, 1, 1e-12, 1e9])), float(r.choice([-1, 0, 1, 2]))
        spec = lambda f: a * f ** b
        ops = int(r.integers(1, 4))
        m = c.pick(20000, 100000)
        g = NTGColoredNoise(n_samples_per_trace=n, noise_spectral_density=spec, dt=dt, n_traces=m,
                            n_noise_operators=ops, low_frequency_extension_ratio=ratio)
        x = g.noise_samples
        cov = covariance(n * ratio, dt, spec)
        c0 = max(cov[0], 1e-300)
        info = dict(n=n, dt=dt, ratio=ratio, amplitude=a, exponent=b)
        for o in range(ops):
            for s in range(n):
                for t in range(s + 1):
                    y = x[o, :, s] * x[o, :, t]
                    w = cov[s - t]
                    c.comparisons += 1
                    z = abs(y.mean() - w) / np.sqrt((c0 ** 2 + w ** 2) / m)
                    if z > 6.5 and abs(y.mean() - w) > 1e-12 * spec(1 / dt) / dt:
                        c.violation('coloured noise: the correlation at lag %d is %g, the requested spectrum '
                                    'gives %g (%.0f standard errors)' % (s - t, y.mean(), w, z), info)
                        return
            for p in range(o):
                y = (x[o] * x[p]).mean(axis=1)
                c.comparisons += 1
                if n > 1 and abs(y.mean()) > 6.5 * c0 / np.sqrt(m):
                    c.violation('coloured noise of different operators is correlated', info)
                    return
    for i in range(c.pick(5, 40)):      # averaged periodograms
        n, m = int(r.choice([4, 5, 8, 31, 64])), 4000
        dt = float(r.choice([.01, 1., 1e-9, 1e7]))
        a, b = float(r.uniform(.2, 2)), float(r.choice([-1, 0, 1, 2]))
        spec = lambda f: a * (np.maximum(f, 1e-3 / dt) * dt) ** b
        g = NTGColoredNoise(n_samples_per_trace=n, noise_spectral_density=spec, dt=dt, n_traces=1)
        got = g.plot_periodogram(n_average=m, draw_plot=False)
        f = np.fft.rfftfreq(n, dt)[1:-1]
        want = np.sqrt((spec(f) ** 2).sum() / m)        # of exponentially distributed powers
        c.comparisons += 1
        if not got < 7 * want:
            c.violation('the averaged periodogram is reported to deviate from the spectrum by %g, expected are %g'
                        % (got, want), dict(n=n, dt=dt, amplitude=a, exponent=b))
    for i in range(c.pick(6, 40)):
        ops, m = int(r.integers(1, 4)), c.pick(40000, 200000)
        std = [float(v) for v in r.choice([.1, 1., 2.5, 1e-3, 40., 1e-11, 1e9], ops)]
        g = NTGQuasiStatic(standard_deviation=std, n_samples_per_trace=2, n_traces=m,
                           sampling_mode='monte_carlo', correct_std_for_discrete_sampling=bool(r.integers(2)))
        x = g.noise_samples[:, :, 0]
        for o in range(ops):
            y = x[o] / std[o]
            c.comparisons += 4
            se = 1 / np.sqrt(m)
            for name, got, want, dev in (('mean', y.mean(), 0, se),
                                         ('variance', (y ** 2).mean(), 1, se * np.sqrt(2)),
                                         ('third moment', (y ** 3).mean(), 0, se * np.sqrt(15)),
                                         ('fourth moment', (y ** 4).mean(), 3, se * np.sqrt(96))):
                if abs(got - want) > 6.5 * dev:
                    c.violation('Monte Carlo quasi-static noise has %s %g instead of %g in units of the '
                                'requested standard deviation' % (name, got, want), dict(std=std))
                    return
            for p in range(o):
                if abs((y * x[p] / std[p]).mean()) > 6.5 * se:
                    c.violation('Monte Carlo noise of different operators is correlated', dict(std=std))
                    return


def functions(c, r):
    for i in range(c.pick(150, 2000)):
        std = float(r.uniform(.01, 5) * r.choice([1, 1, 1e-10, 1e10]))
        mean = float(r.choice([0., r.normal() * 10]))
        n = int(r.integers(1, 60))
        c.comparisons += 5
        x = qn.sample_1dim_gaussian_distribution(std, n, mean)
        want = stats.norm.ppf((2 * np.arange(1, n + 1) - 1) / (2 * n)) * std + mean
        if np.shape(x) != (n,) or np.abs(np.sort(x) - want).max() > 1e-9 * np.abs(want).max() + 1e-12 * std:
            c.violation('sample_1dim_gaussian_distribution is not at the equal-probability points',
                        dict(std=std, n=n, mean=mean, got=x))
        z = r.uniform(.001, .999, 5)
        got = qn.inverse_cumulative_gaussian_distribution_function(z, std, mean)
        if np.abs(got - stats.norm.ppf(z, mean, std)).max() > 1e-8 * np.abs(got).max() + 1e-12 * std:
            c.violation('the inverse cumulative Gaussian distribution is wrong', dict(std=std, mean=mean))
        y = r.normal(size=4) * std
        if np.abs(qn.bell_curve_1dim(y, std) - stats.norm.pdf(y, 0, std)).max() > 1e-9 / std:
            c.violation('bell_curve_1dim is not the normal density', dict(std=std))
        s2 = float(r.uniform(.01, 5) * r.choice([1, 1, 1e-10, 1e10]))
        y2 = r.normal(size=4) * s2
        w = stats.norm.pdf(y, 0, std) * stats.norm.pdf(y2, 0, s2)
        if np.abs(qn.bell_curve_2dim(y, std, y2, s2) - w).max() > 1e-9 / std / s2:
            c.violation('bell_curve_2dim is not the normal density', dict(std=std, std2=s2))
        # fast_colored_noise: lengths
        m = int(r.integers(1, 70))
        two = bool(r.integers(2))
        sh = tuple(int(v) for v in r.integers(1, 4, int(r.integers(0, 3))))
        o = qn.fast_colored_noise(lambda f: 1 / f, float(r.uniform(.1, 3)), m, sh, r_power_of_two=two)
        ln = 2 ** (m.bit_length() - 1) if two else m
        if np.shape(o) != sh + (ln,):
            c.violation('fast_colored_noise(n_samples=%d, r_power_of_two=%s) has shape %s instead of %s'
                        % (m, two, np.shape(o), sh + (ln,)))
        if c.full:
            return


def check(c):
    r = c.np_rng()
    np.random.seed(c.seed)
    systems = [dict(id=i, gens=[generator(r) for _ in range(int(r.integers(1, 4)))])
               for i in range(c.pick(400, 4000))]
    for s in systems[::4]:      # generators of the same settings are still different generators
        g = s['gens'][0]
        s['gens'] = [dict(g, std=list(g['std'])) for _ in s['gens']] + [dict(g, std=list(g['std']))]
    by = {s['id']: s for s in systems}
    # all histories of one generator of each kind and small sizes
    base = [dict(id=100000 + i, gens=[dict(generator(r), kind=k, ops=o, tr=2, len=2, redraw=rd, given=False,
                                           gtr=1, glen=1, std=[.5, 2.][:o])])
            for i, (k, o, rd) in enumerate((k, o, rd) for k in ('det', 'mc', 'col') for o in (1, 2)
                                           for rd in (False, True))]
    by.update((s['id'], s) for s in base)
    invs = ['QuasiStatic', 'OneAtATime', 'Independent', 'EmitDone']
    props = ['FixedStays', 'RedrawsAlways']
    msgs = list(c.tlc('Noise', consts={'Systems': qv.Raw('{' + ',\n'.join(tla(s) for s in base) + '}'),
                                       'MaxLen': c.pick(4, 6)}, invariants=invs, properties=props, workers=4).msgs)
    for ln, n in ((5, 350), (14, 120)):
        for k in range(0, len(systems), 400):
            res = c.tlc('Noise', consts={'Systems': qv.Raw('{' + ',\n'.join(tla(s) for s in systems[k:k + 400]) + '}'),
                                         'MaxLen': ln}, invariants=['EmitDone'],
                        simulate=n, depth=ln + 1, seed=c.seed + k)
            seen = {}
            for m in res.msgs:
                seen.setdefault(repr((m['id'], m['log'][:-1])), []).append(m)
            msgs += [seen[q][len(q) % len(seen[q])] for q in sorted(seen)]
    for m in sorted(msgs, key=lambda m: (m['id'], str(m['log']))):
        if c.full:
            return
        replay(c, r, by[m['id']], m['log'])
        if m['id'] % 60 == 1:
            c.sample(['%s%d' % (s['a'], s['g']) for s in m['log']])
    functions(c, r)
    statistics(c, r)
