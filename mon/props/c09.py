"""C09: gain, responsivity, quantum efficiency and dark noise."""
import math

import numpy as np

from mon import curves, ref
from mon.core import Property

P = Property('C09', 'case = photon-transfer curve (one, two or many exposures; clean and noisy); non-trivial = K, R, QE, 1/K and dark '
             'noise compared with closed-form least squares in extended precision over independently found ranges, distinct by '
             'length, number of exposures and range')


def expected(t, isat):
    Y = t['u_y'] - t['u_ydark']
    V = t['s2_y'] - t['s2_ydark']
    k = ref.last_le(Y, .7 * Y[isat]) + 1
    return ref.slope0(Y[:k], V[:k]), ref.slope0(t['u_p'][:k], Y[:k]), k


def near_tie(t, isat):
    Y = t['u_y'] - t['u_ydark']
    return any(abs(y - v * Y[isat]) <= 1e-9 * abs(Y[isat]) for v in (.7, .05, .95) for y in Y)


def dark_noise(t):
    e = sorted(set(t['texp']))
    if len(e) <= 2:
        return t['s2_ydark'][0]
    return ref.line(t['texp'], t['s2_ydark'])[1]


def fit_rtol(*slopes):
    """The fit is iterative and starts at a slope of one: tiny slopes come out less exact."""
    return 1e-6 + 2e-8 / min(abs(s) for s in slopes)


def check(ctx, t, isat, res):
    K, R, k = expected(t, isat)
    with ctx.unchanged('the data', t):
        ctx.close(res.K, K, 'system gain', rtol=fit_rtol(K))
        ctx.close(res.R, R, 'responsivity', rtol=fit_rtol(R))
        ctx.close(res.QE, 100. * R / K, 'quantum efficiency', rtol=3 * fit_rtol(K, R))
        ctx.close(res.inverse_K(), 1. / K, 'inverse gain', rtol=fit_rtol(K))
        v = dark_noise(t)
        atol = 1e-6 * np.max(np.abs(t['s2_ydark']))
        ctx.close(res.sigma_y_dark ** 2, max(v, .24), 'squared dark noise in DN', rtol=1e-6, atol=atol)
        ctx.check(res.sigma_y_dark >= math.sqrt(.24) * (1 - 1e-12), 'dark noise below the limit', got=res.sigma_y_dark)
        if v < .24 - atol:
            ctx.close(res.sigma_y_dark, math.sqrt(.24), 'limited dark noise', rtol=1e-12)
            ctx.ev('limited')
        ctx.close((res.sigma_d * K) ** 2, max(v, .24) - 1 / 12., 'squared dark noise in electrons', rtol=10 * fit_rtol(K), atol=atol)
        # the figures fit together
        ctx.close(res.sigma_d, math.sqrt(res.sigma_y_dark ** 2 - 1 / 12.) / res.K, 'dark noise in electrons', rtol=1e-9)
        ctx.close(res.QE, 100 * res.R / res.K, 'QE = R/K', rtol=1e-12)
        ctx.close(res.inverse_K(), 1 / res.K, '1/K', rtol=1e-12)
    ctx.ev('curves')
    ctx.ev('points', k)


@P.scenario(quick=4500, must=['curves', 'points', 'limited'])
def reference(ctx):
    t, isat = curves.curve(ctx, noise=ctx.pick([0, .001, .01, .05]))
    if near_tie(t, isat):
        ctx.check(True, 'skipped')
        return
    ctx.sig(len(t['u_p']), len(set(t['texp'])), isat)
    ctx.note(n=len(t['u_p']), exposures=len(set(t['texp'])), sat=isat)
    check(ctx, t, isat, curves.results(ctx, t))


@P.scenario(quick=1200, must=['curves'])
def few_exposures(ctx):
    """One or two different exposure times: dark noise of the first exposure."""
    t, isat = curves.curve(ctx, multi=False)
    n = len(t['texp'])
    if ctx.chance(.6):
        # two exposures, dark variance differs between them
        k = ctx.int(1, n - 1)
        e = np.sort(ctx.rng.uniform(1e3, 1e6, 2))
        t['texp'] = np.where(np.arange(n) < k, e[0], e[1])
        t['s2_ydark'] = np.where(np.arange(n) < k, t['s2_ydark'], t['s2_ydark'] * ctx.uniform(1.2, 4) + .5)
    if near_tie(t, isat):
        ctx.check(True, 'skipped')
        return
    ctx.sig(n, len(set(t['texp'])), isat)
    check(ctx, t, isat, curves.results(ctx, t))


@P.scenario(quick=1500, must=['curves'])
def many_exposures(ctx):
    """Three or more exposure times with dark variance growing, falling or flat; intercept positive or negative."""
    t, isat = curves.curve(ctx, multi=True)
    n = len(t['texp'])
    lo = ctx.logu(1e2, 1e7)
    hi = lo * ctx.logu(2, 1e4)
    style = ctx.pick(['linear', 'log', 'random', 'three'])
    if style == 'linear':
        e = np.linspace(lo, hi, n)
    elif style == 'log':
        e = np.geomspace(lo, hi, n)
    elif style == 'random':
        e = np.sort(ctx.rng.uniform(lo, hi, n))
        e[0], e[-1] = lo, hi
    else:
        e = np.linspace(lo, hi, 3)[np.sort(np.arange(n) % 3)]
    t['texp'] = e
    a = ctx.pick([0, ctx.uniform(0, 10), -ctx.uniform(0, 1)])
    b = ctx.pick([ctx.uniform(.3, 50), ctx.uniform(0, .3), ctx.uniform(-1, 0)])
    t['s2_ydark'] = b + a * e / hi + ctx.pick([0, .01, .1]) * ctx.rng.normal(0, 1, n)
    K = ctx.logu(.01, 10)
    Y = t['u_y'] - t['u_ydark']
    t['s2_y'] = t['s2_ydark'] + K * Y * (1 + ctx.pick([0, .01]) * ctx.rng.normal(0, 1, n))
    isat = n - 1
    if near_tie(t, isat):
        ctx.check(True, 'skipped')
        return
    ctx.sig(n, style, round(a, 3), round(b, 3))
    ctx.note(n=n, style=style, slope=a, offset=b)
    check(ctx, t, isat, curves.results(ctx, t, index_u_ysat=isat))


@P.scenario(quick=900, must=['outside'])
def outside_points(ctx):
    """Points above the 70 % limit (other than the saturation itself) have no influence on K and R."""
    t, isat = curves.curve(ctx, multi=False)
    Y = t['u_y'] - t['u_ydark']
    k = ref.last_le(Y, .7 * Y[isat]) + 1
    if near_tie(t, isat) or k >= isat:
        ctx.check(True, 'skipped')
        return
    a = curves.results(ctx, t)
    K, R = a.K, a.R
    u = {x: y.copy() for x, y in t.items()}
    for i in range(k, isat):
        f = ctx.uniform(.8, 1.)
        u['s2_y'][i] = u['s2_y'][k - 1] + (u['s2_y'][i] - u['s2_y'][k - 1]) * f
        u['u_p'][i] *= 1.001
    b = curves.results(ctx, u, index_u_ysat=isat)
    ctx.close(b.K, K, 'K after changes outside of the range', rtol=1e-9)
    ctx.close(b.R, R, 'R after changes outside of the range', rtol=1e-9)
    ctx.ev('outside', isat - k)
    ctx.sig(len(Y), k, isat)


@P.scenario(quick=900, must=['rescaled'])
def rescaled(ctx):
    """Photon axis times c: R/c and QE/c, K unchanged. Grey axis times g: K*g, R*g, QE unchanged."""
    t, isat = curves.curve(ctx)
    if near_tie(t, isat):
        ctx.check(True, 'skipped')
        return
    a = curves.results(ctx, t)
    c, g = ctx.logu(.1, 10), ctx.pick([.25, .5, 2., 4.])
    u = dict(t, u_p=t['u_p'] * c)
    b = curves.results(ctx, u)
    tol = 2 * fit_rtol(a.K, a.R, a.R / c, a.K * g, a.R * g)
    ctx.close(b.K, a.K, 'K', rtol=tol)
    ctx.close(b.R, a.R / c, 'R', rtol=tol)
    ctx.close(b.QE, a.QE / c, 'QE', rtol=3 * tol)
    u = dict(t, u_y=t['u_y'] * g, u_ydark=t['u_ydark'] * g, s2_y=t['s2_y'] * g * g, s2_ydark=t['s2_ydark'] * g * g)
    b = curves.results(ctx, u)
    ctx.close(b.K, a.K * g, 'K', rtol=tol)
    ctx.close(b.R, a.R * g, 'R', rtol=tol)
    ctx.close(b.QE, a.QE, 'QE', rtol=3 * tol)
    ctx.ev('rescaled')
    ctx.sig(len(t['u_p']), isat, round(c, 4), g)
