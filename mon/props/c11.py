"""C11: linearity."""
import numpy as np

from mon import curves, ref
from mon.core import Property
from mon.props import c09

P = Property('C11', 'case = response curve with random nonlinearity; non-trivial = slope, offset, deviations and extremes compared '
             'with a weighted least-squares fit in extended precision over an independently found range, distinct by length, range '
             'and kind of nonlinearity')

KEYS = {'fit_slope', 'fit_offset', 'relative_deviation', 'linearity_error_min', 'linearity_error_max'}


def response(ctx, n=None, kind=None):
    """Curve with at least four points between 5 and 95 % and a nonlinear response."""
    while True:
        t, isat = curves.curve(ctx, n=n or ctx.size(8, 120), noise=0)
        Y = t['u_y'] - t['u_ydark']
        x = Y / Y[isat]
        kind = kind or ctx.pick(['none', 'gamma', 'offset', 'noise', 'wave'])
        if kind == 'gamma':
            x2 = np.abs(x) ** ctx.uniform(.9, 1.1)
        elif kind == 'offset':
            x2 = x + ctx.uniform(.0, .04)
        elif kind == 'noise':
            x2 = x * (1 + .01 * ctx.rng.normal(0, 1, len(x)))
        elif kind == 'wave':
            x2 = x * (1 + .02 * np.sin(x * ctx.uniform(3, 20)))
        else:
            x2 = x
        t['u_y'] = t['u_ydark'] + x2 * Y[isat]
        Y = t['u_y'] - t['u_ydark']
        if c09.near_tie(t, isat) or Y[isat] <= 0:
            continue
        if ctx.chance(.25):
            # light levels measured again, with another exposure time or by chance
            for i in ctx.shuffled(range(1, len(Y)))[:ctx.int(1, len(Y) // 3)]:
                t['u_p'][i] = t['u_p'][i - 1]
            ctx.ev('equal_photons')
        lo, hi = ref.first_ge(Y, .05 * Y[isat]), ref.last_le(Y, .95 * Y[isat])
        if hi - lo >= 3 and len(set(t['u_p'][lo:hi + 1])) > 2 and np.all(Y[lo:hi + 1] > 0):
            return t, isat, lo, hi, kind


def check(ctx, t, isat, lo, hi, res):
    X, Y = t['u_p'], t['u_y'] - t['u_ydark']
    a, b = ref.line(X[lo:hi + 1], Y[lo:hi + 1], 1 / Y[lo:hi + 1])
    with ctx.unchanged('the data', t):
        lin = res.linearity()
    ctx.check(KEYS <= set(lin), 'keys of the linearity', got=sorted(lin))
    ctx.close(lin['fit_slope'], a, 'slope', rtol=1e-7)
    ctx.close(lin['fit_offset'], b, 'offset', rtol=1e-7, atol=1e-8 * Y[isat])
    fit = a * X + b
    dev = 100 * (Y - fit) / fit
    ok = np.abs(fit) > 1e-2 * Y[isat]
    got = np.asarray(lin['relative_deviation'])
    ctx.eq(got.shape, X.shape, 'deviations for every point')
    ctx.close(got[ok], dev[ok], 'deviations', rtol=1e-6, atol=1e-5)
    inside = dev[lo:hi + 1]
    for v, k, name in ((inside.min(), 'min', 'LE_min'), (inside.max(), 'max', 'LE_max')):
        ctx.close(lin['linearity_error_' + k], v, 'linearity error ' + k, rtol=1e-6, atol=1e-5)
        ctx.close(getattr(res, name), v, name, rtol=1e-6, atol=1e-5)
        ctx.close(lin['linearity_error_' + k], getattr(np, k)(got[lo:hi + 1]), name + ' is the extreme of the deviations', rtol=1e-12)
    # no line nearby is better
    w = 1 / Y[lo:hi + 1]

    def cost(p, q):
        return float(np.sum(((p * X + q - Y)[lo:hi + 1] * w) ** 2))
    A, B = lin['fit_slope'], lin['fit_offset']
    c0 = cost(A, B)
    for da, db in ((1e-3, 0), (-1e-3, 0), (0, 1e-3), (0, -1e-3), (1e-3, -1e-3)):
        ctx.check(cost(A + da * A, B + db * Y[isat]) >= c0 - 1e-12, 'a line nearby has smaller relative deviations')
    ctx.ev('fits')
    ctx.ev('points', hi - lo + 1)
    ctx.ev('points_outside', len(X) - (hi - lo + 1))
    return lin


@P.scenario(quick=4000, must=['fits', 'points', 'points_outside', 'equal_photons'])
def reference(ctx):
    t, isat, lo, hi, kind = response(ctx)
    ctx.sig(len(t['u_p']), lo, hi, kind)
    ctx.note(n=len(t['u_p']), range=(lo, hi), kind=kind)
    check(ctx, t, isat, lo, hi, curves.results(ctx, t))


@P.scenario(quick=800, must=['affine'])
def affine(ctx):
    t, isat, lo, hi, kind = response(ctx, kind=ctx.pick(['none', 'offset']))
    a, b = ctx.logu(1e-3, 10), 0.
    Y = a * t['u_p']
    b = ctx.uniform(0, .03) * Y[isat]
    Y = Y + b
    t['u_y'] = t['u_ydark'] + Y
    Y = t['u_y'] - t['u_ydark']
    lo, hi = ref.first_ge(Y, .05 * Y[isat]), ref.last_le(Y, .95 * Y[isat])
    if hi - lo < 2 or c09.near_tie(t, isat):
        ctx.check(True, 'skipped')
        return
    res = curves.results(ctx, t)
    lin = res.linearity()
    ctx.close(res.LE_min, 0, 'error of affine data', atol=1e-5)
    ctx.close(res.LE_max, 0, 'error of affine data', atol=1e-5)
    ctx.close(lin['fit_slope'], a, 'slope of affine data', rtol=1e-7)
    ctx.close(lin['fit_offset'], b, 'offset of affine data', atol=1e-8 * Y[isat])
    ctx.close(lin['relative_deviation'], 0 * Y, 'deviations of affine data', atol=1e-5)
    ctx.ev('affine')
    ctx.sig(len(Y), lo, hi)


@P.scenario(quick=800, must=['rescaled'])
def rescaled(ctx):
    t, isat, lo, hi, kind = response(ctx)
    a = check(ctx, t, isat, lo, hi, curves.results(ctx, t))
    c, g = ctx.logu(.01, 100), ctx.pick([.25, .5, 2., 8.])
    Y = t['u_y'] - t['u_ydark']
    for u, fs, fo in ((dict(t, u_p=t['u_p'] * c), 1 / c, 1.), (dict(t, u_y=t['u_y'] * g, u_ydark=t['u_ydark'] * g), g, g)):
        b = curves.results(ctx, u).linearity()
        ctx.close(b['fit_slope'], a['fit_slope'] * fs, 'slope after rescaling', rtol=1e-7)
        ctx.close(b['fit_offset'], a['fit_offset'] * fo, 'offset after rescaling', rtol=1e-6, atol=1e-8 * Y[isat] * fo)
        for k in ('linearity_error_min', 'linearity_error_max'):
            ctx.close(b[k], a[k], k + ' after rescaling', rtol=1e-6, atol=1e-5)
        ctx.ev('rescaled')
    ctx.sig(len(Y), lo, hi, kind, round(c, 4), g)


@P.scenario(quick=800, must=['outliers'])
def outliers(ctx):
    """Points outside of the range change neither the fit nor the errors, but have their own deviation."""
    t, isat, lo, hi, kind = response(ctx)
    a = check(ctx, t, isat, lo, hi, curves.results(ctx, t))
    out = [i for i in range(len(t['u_p'])) if (i < lo or i > hi) and i != isat]
    if not out:
        ctx.ev('outliers')
        return
    u = dict(t, u_y=t['u_y'].copy())
    Y = t['u_y'] - t['u_ydark']
    for i in ctx.shuffled(out)[:ctx.int(1, len(out), const=0)]:
        y = ctx.uniform(-.02, .045) * Y[isat] if i < lo else ctx.uniform(.96, 1.4) * Y[isat]
        u['u_y'][i] = u['u_ydark'][i] + y
        ctx.ev('outliers')
    res = curves.results(ctx, u)
    if c09.near_tie(u, isat):
        return
    b = check(ctx, u, isat, lo, hi, res)
    ctx.close(b['fit_slope'], a['fit_slope'], 'slope', rtol=1e-9)
    for k in ('linearity_error_min', 'linearity_error_max'):
        ctx.close(b[k], a[k], k, rtol=1e-9, atol=1e-9)
    ctx.sig(len(Y), lo, hi, kind)
