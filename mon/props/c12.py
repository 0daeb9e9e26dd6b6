"""C12: dark current."""
import math

import numpy as np

from mon import curves, ref
from mon.core import Property
from mon.props import c09

P = Property('C12', 'case = curve with few or many different exposure times and a dark signal and variance changing with exposure; '
             'non-trivial = the four dark-current figures compared with closed-form slopes (or NaN where the standard says so), '
             'distinct by number of exposures, layout and sign of the slopes')


def with_dark(ctx, texp):
    """Curve measured at the exposures texp."""
    n = len(texp)
    t, isat = curves.curve(ctx, multi=True, n=n, sat=ctx.pick([n - 1, n - 1, None]), noise=0, minpts=2)
    span = texp.max() - texp.min() or texp.max()
    yd = ctx.logu(.5, 500) + ctx.pick([0, ctx.uniform(0, 50), ctx.uniform(0, 50), -.3, -ctx.logu(1, 1e3)]) * (texp - texp.min()) / span
    vd = ctx.logu(.3, 100) * (1 + ctx.pick([0, ctx.uniform(0, 20), ctx.uniform(0, 20), -ctx.uniform(.05, .5)]) * (texp - texp.min()) / span)
    if ctx.chance(.3):
        # the dark signal does not grow linearly
        u = (texp - texp.min()) / span
        yd = yd + ctx.uniform(-50, 50) * u ** ctx.pick([2, 3, .5])
        vd = vd * (1 + ctx.uniform(0, 5) * u ** ctx.pick([2, 3, .5]))
        ctx.ev('curved')
    e = ctx.pick([0, 0, .01, .05])
    yd = yd * (1 + e * .1 * ctx.rng.normal(0, 1, n))
    vd = np.abs(vd * (1 + e * ctx.rng.normal(0, 1, n)))
    Y = t['u_y'] - t['u_ydark']
    V = t['s2_y'] - t['s2_ydark']
    V = np.maximum(V, 1e-3) if V.min() > 0 else np.abs(V) + 1e-3
    s2 = V + vd
    s2[:isat + 1] = np.maximum.accumulate(s2[:isat + 1]) + np.arange(isat + 1) * 1e-6 * s2.max()
    # behind saturation the variance breaks down
    k = n - 1 - isat
    s2[isat + 1:] = s2[isat] * .9 * np.sort(ctx.rng.uniform(0, 1, k))[::-1]
    return {'texp': texp, 'u_p': t['u_p'], 'u_y': yd + Y, 's2_y': s2, 'u_ydark': yd, 's2_ydark': vd}, isat


FIGURES = ['u_I_mean_DN', 'u_I_mean', 'u_I_var_DN', 'u_I_var']


def get(ctx, res):
    return {k: getattr(res, k) for k in ctx.shuffled(FIGURES)}


def exposures(ctx, n, distinct):
    lo = ctx.logu(1e2, 1e7)
    # also times that are nearly the same, and times of very different size
    hi = lo * ctx.pick([ctx.logu(1.5, 1e4), ctx.logu(1.5, 1e4), 1 + ctx.logu(3e-4, .5), ctx.logu(1e4, 1e7)])
    if hi / lo < 1.5:
        lo, hi = lo * 100, hi * 100
    style = ctx.pick(['linear', 'log', 'random'])
    if style == 'linear':
        e = np.linspace(lo, hi, distinct)
    elif style == 'log':
        e = np.geomspace(lo, hi, distinct)
    else:
        e = np.sort(ctx.rng.uniform(lo, hi, distinct))
        e[0], e[-1] = lo, hi
    e = np.round(e, 1)
    idx = np.sort(np.concatenate([np.arange(distinct), ctx.rng.integers(0, distinct, n - distinct)]))
    return e[idx]


@P.scenario(quick=6000, must=['slopes', 'negative_slopes', 'curved'])
def many(ctx):
    n = ctx.size(6, 100)
    d = ctx.pick([3, n, n, n, ctx.int(3, n)])
    e = exposures(ctx, n, d)
    t, isat = with_dark(ctx, e)
    if c09.near_tie(t, isat) or len(set(e)) < 3:
        ctx.check(True, 'skipped')
        return
    ctx.note(n=n, distinct=len(set(e)), texp=e[:4])
    K, _R, _k = c09.expected(t, isat)
    res = curves.results(ctx, t)
    with ctx.unchanged('the data', t):
        got = get(ctx, res)
    span = e.max() - e.min()
    am = ref.line(e, t['u_ydark'])[0]
    av = ref.line(e, t['s2_ydark'])[0]
    # accuracy of an iterative fit: relative to the size of the data, and to what the line leaves over
    left = [float(np.std(t[k] - a * e)) for k, a in (('u_ydark', am), ('s2_ydark', av))]
    tm = (2e-6 * np.abs(t['u_ydark']).max() + 3e-3 * left[0]) / span
    tv = (2e-6 * np.abs(t['s2_ydark']).max() + 3e-3 * left[1]) / span
    ctx.close(got['u_I_mean_DN'], am * 1e9, 'dark current from mean in DN/s', rtol=1e-6, atol=tm * 1e9)
    ctx.close(got['u_I_mean'], am * 1e9 / K, 'dark current from mean in electrons/s', rtol=3e-6, atol=tm * 1e9 / abs(K))
    if av < -tv:
        ctx.check(math.isnan(got['u_I_var_DN']) and math.isnan(got['u_I_var']), 'negative variance slope gives NaN', got=got)
        ctx.ev('negative_slopes')
    elif av > tv:
        ctx.close(got['u_I_var_DN'], av * 1e9 / K, 'dark current from variance in DN/s', rtol=3e-6, atol=tv * 1e9 / abs(K))
        ctx.close(got['u_I_var'], av * 1e9 / K ** 2, 'dark current from variance in electrons/s', rtol=5e-6, atol=tv * 1e9 / K ** 2)
        ctx.close(got['u_I_var'] * res.K, got['u_I_var_DN'], 'the two variance forms', rtol=1e-9)
        ctx.check(all(np.isfinite(v) for v in got.values()), 'finite figures', got=got)
    ctx.close(got['u_I_mean'] * res.K, got['u_I_mean_DN'], 'the two mean forms', rtol=1e-9)
    r = res.results
    for k in FIGURES:
        a, b = r[k]['value'], got[k]
        ctx.check(a == b or (math.isnan(a) and math.isnan(b)), k + ' in the results', got=a, want=b)
    ctx.ev('slopes')
    ctx.sig(n, len(set(e)), am > 0, av > 0)


@P.scenario(quick=1500, must=['undefined'])
def few(ctx):
    """One or two different exposure times: undefined."""
    n = ctx.size(6, 60)
    d = ctx.int(1, 2, const=0)
    e = exposures(ctx, n, d)
    t, isat = with_dark(ctx, e)
    if c09.near_tie(t, isat):
        ctx.check(True, 'skipped')
        return
    got = get(ctx, curves.results(ctx, t))
    for k in FIGURES:
        ctx.check(isinstance(got[k], float) and math.isnan(got[k]), k + ' with %d exposures' % d, got=got[k])
        ctx.ev('undefined')
    ctx.sig(n, d)


@P.scenario(quick=450, must=['black'])
def black(ctx):
    """A camera that is exactly black in the dark: no dark current, which is a number and not undefined."""
    n = ctx.size(6, 60)
    e = exposures(ctx, n, ctx.int(3, n))
    t, isat = curves.curve(ctx, multi=True, n=n, noise=0, minpts=2)
    t = dict(t, texp=e, u_y=t['u_y'] - t['u_ydark'], u_ydark=np.zeros(n))
    noiseless = ctx.chance(.5)
    if noiseless:
        t = dict(t, s2_ydark=np.zeros(n))
    if c09.near_tie(t, isat) or len(set(e)) < 3:
        ctx.check(True, 'skipped')
        return
    res = curves.results(ctx, t)
    got = get(ctx, res)
    for k in FIGURES[:4 if noiseless else 2]:
        ctx.close(got[k], 0., k + ' of a black camera', atol=1e-6 * (1 + 1 / res.K ** 2))
        ctx.ev('black')
    ctx.sig(n, len(set(e)), noiseless)
