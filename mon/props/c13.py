"""C13: nonuniformity figures."""
import math

import numpy as np

from mon import curves, ref
from mon.core import Property

P = Property('C13', 'case = bright and dark stack (random structure, temporal noise, shape at least 3x3) processed to nonuniformity '
             'figures; non-trivial = all variance parts, DSNU and PRNU figures compared with definitions on the raw images, distinct '
             'by shape, numbers of images and signs of the parts')

PARTS = ['row', 'col', 'pixel']


def shape_of(ctx):
    if ctx.chance(.015):
        return ctx.pick([(ctx.int(100, 400), ctx.int(100, 400)), (3, ctx.int(300, 2500)), (ctx.int(300, 2500), 3)])
    return ctx.pick([(ctx.size(3, 40), ctx.size(3, 40)), (3, ctx.size(3, 90)), (ctx.size(3, 90), 3), (ctx.size(3, 12), ctx.size(3, 12))])


def stack(ctx, L, shape):
    """Mostly camera-like; sometimes with no structure at all, so that parts get negative."""
    k = ctx.pick(['scene', 'scene', 'noise', 'row', 'col', 'any', 'antinoise'])
    M, N = shape
    r = ctx.rng
    base = r.uniform(50, 3000)
    if k == 'any':
        return curves.stack(ctx, L, shape)
    s = r.uniform(0, 20, 4)
    if k == 'noise':
        s[:3] = 0
        s[3] += 5
    if k == 'row':
        s[1] = 0
        s[2] *= .2
    if k == 'col':
        s[0] = 0
        s[2] *= .2
    fix = base + s[0] * r.normal(0, 1, (M, 1)) + s[1] * r.normal(0, 1, (1, N)) + s[2] * r.normal(0, 1, (M, N))
    if k == 'antinoise':
        # deviations cancel between consecutive images: hardly any variance of the mean image
        e = r.normal(0, 10, (L, M, N))
        e -= e.mean(axis=0)
        return np.clip(np.rint(base + e), 0, 65535).astype(np.int64)
    return np.clip(np.rint(fix + s[3] * r.normal(0, 1, (L, M, N))), 0, 65535).astype(np.int64)


def build(ctx, shape, bright, dark, K=None):
    t, _i = curves.curve(ctx, n=ctx.int(8, 20), multi=False)
    from emva1288.process.data import Data1288
    sp, _b, _d = curves.spatial_input(ctx, shape, bright=bright, dark=dark)
    d = Data1288({'temporal': curves.small_temporal(ctx, shape, 1), 'spatial': sp, 'height': shape[0], 'width': shape[1]}, loglevel=50)
    return curves.results(ctx, t, d.data['spatial']), d.data['spatial']


def sq(ctx, got, var, scale, tol, what):
    """got is sqrt(var)*scale, or NaN for negative var; var known to within tol."""
    if var < -tol:
        ctx.check(isinstance(got, float) and math.isnan(got), what + ' of a negative variance is not NaN', got=got, var=var)
        ctx.ev('negative_parts')
    elif var > tol:
        ctx.check(not math.isnan(got), what + ' is NaN', var=var)
        ctx.close((got / scale) ** 2, var, what + ' squared', rtol=1e-8, atol=tol)
        ctx.check(got * scale > 0, what + ' has the wrong sign', got=got)
        ctx.ev('positive_parts')


def check(ctx, res, bright, dark, b=None, d=None):
    b, d = b or ref.stack_stats(bright), d or ref.stack_stats(dark)
    sb, sd = ref.split(b), ref.split(d)
    tb, td = 1e-12 * b['avg_mean'] ** 2 + 1e-11, 1e-12 * d['avg_mean'] ** 2 + 1e-11
    name = {'total': 's_2_y', 'row': 's_2_y_row', 'col': 's_2_y_col', 'pixel': 's_2_y_pixel'}
    for post, s, st, t in (('', sb, b, tb), ('_dark', sd, d, td)):
        v = {k: getattr(res, name[k] + post) for k in ctx.shuffled(name)}
        for k in name:
            ctx.close(v[k], s[k], name[k] + post, rtol=1e-8, atol=t)
        ctx.close(v['row'] + v['col'] + v['pixel'], v['total'], 'sum of the parts' + post, rtol=1e-9, atol=t)
        ctx.close(getattr(res, 's_2_y_measured' + post), st['avg_var'], 's_2_y_measured' + post, atol=t)
        ctx.close(getattr(res, 'sigma_2_y_stack' + post), st['var_mean'], 'sigma_2_y_stack' + post, atol=t)
        ctx.close(getattr(res, 's_2_y_cav' + post), st['avg_var_cav'], 's_2_y_cav' + post, atol=t)
        ctx.close(getattr(res, 's_2_y_rav' + post), st['avg_var_rav'], 's_2_y_rav' + post, atol=t)
        ctx.ev('splits')
    K = res.K
    sq(ctx, res.DSNU1288, sd['total'], 1 / K, td, 'DSNU')
    sq(ctx, res.DSNU1288_DN(), sd['total'], 1., td, 'DSNU in DN')
    for k in PARTS:
        sq(ctx, getattr(res, 'DSNU1288_' + k), sd[k], 1 / K, td, 'DSNU ' + k)
    den = b['avg_mean'] - d['avg_mean']
    if abs(den) > 1e-6 * (b['avg_mean'] + d['avg_mean']):
        for k in ['total'] + PARTS:
            got = float(getattr(res, 'PRNU1288' + ('' if k == 'total' else '_' + k)))
            sq(ctx, got, sb[k] - sd[k], 100. / den, tb + td, 'PRNU ' + k)
    ctx.ev('stacks')
    return sb, sd


@P.scenario(quick=2400, must=['splits', 'negative_parts', 'positive_parts'])
def reference(ctx):
    shape = shape_of(ctx)
    L = ctx.size(2, 40)
    Ld = ctx.size(2, 40) if ctx.chance(.4) else L
    b, d = stack(ctx, L, shape), stack(ctx, Ld, shape)
    if ctx.chance(.5):
        b = b + 1000
    res, sp = build(ctx, shape, b, d)
    ctx.note(shape=shape, L=(L, Ld))
    with ctx.unchanged('the spatial data', sp):
        sb, sd = check(ctx, res, b, d)
    ctx.sig(shape, L, Ld, tuple(np.sign(list(sb.values()))), tuple(np.sign(list(sd.values()))))


@P.scenario(quick=600, must=['transposed'])
def transposed(ctx):
    shape = shape_of(ctx)
    L = ctx.int(2, 8, const=0)
    b, d = stack(ctx, L, shape), stack(ctx, L, shape)
    res, _ = build(ctx, shape, b, d)
    tr, _ = build(ctx, shape[::-1], b.transpose(0, 2, 1), d.transpose(0, 2, 1))
    for post, st in (('', b), ('_dark', d)):
        t = 1e-12 * st.mean() ** 2 + 1e-11
        for k, o in (('s_2_y', 's_2_y'), ('s_2_y_row', 's_2_y_col'), ('s_2_y_col', 's_2_y_row'), ('s_2_y_pixel', 's_2_y_pixel')):
            ctx.close(getattr(tr, k + post), getattr(res, o + post), '%s%s after transposition' % (k, post), rtol=1e-8, atol=t)
        ctx.ev('transposed')
    for a, o in (('row', 'col'), ('col', 'row'), ('pixel', 'pixel')):
        x, y = getattr(tr, 'DSNU1288_' + a) * tr.K, getattr(res, 'DSNU1288_' + o) * res.K
        if not math.isnan(x) and not math.isnan(y):
            ctx.close(x ** 2, y ** 2, 'DSNU %s after transposition' % a, rtol=1e-7, atol=1e-12 * d.mean() ** 2 + 1e-10)
        x, y = getattr(tr, 'PRNU1288_' + a), getattr(res, 'PRNU1288_' + o)
        den = (b.mean() - d.mean()) / 100
        if not math.isnan(x) and not math.isnan(y) and abs(den) > 1e-5:
            ctx.close((x * den) ** 2, (y * den) ** 2, 'PRNU %s after transposition' % a, rtol=1e-7,
                      atol=1e-11 * (b.mean() ** 2 + d.mean() ** 2) + 1e-10)
    ctx.sig(shape, L)


@P.scenario(quick=600, must=['structures'])
def structures(ctx):
    """Pure row or pure column structure without noise ends up in its own part only."""
    shape = (ctx.size(3, 40), ctx.size(3, 40))
    M, N = shape
    L = ctx.int(2, 6, const=0)
    v = ctx.rng.integers(0, 200, M)
    w = ctx.rng.integers(0, 200, N)
    row = np.broadcast_to(100 + v[:, None], (M, N))
    col = np.broadcast_to(100 + w[None, :], (M, N))
    for img, dev, full, part, other in ((row, v, M, 'row', 'col'), (col, w, N, 'col', 'row')):
        st = np.repeat(img[None], L, axis=0).astype(np.int64)
        res, _ = build(ctx, shape, st + 500, st)
        tot = float(np.var(img, ddof=1))
        t = 1e-9 * (tot + 1)
        pop = float(np.var(dev))
        # with a noiseless pure structure the average variance of that direction is its population variance
        ctx.close(getattr(res, 's_2_y_%s_dark' % part) + getattr(res, 's_2_y_%s_dark' % other) + res.s_2_y_pixel_dark, tot, 'sum', atol=t)
        ctx.close(getattr(res, 's_2_y_%s_dark' % ('rav' if part == 'row' else 'cav')), pop, 'average variance', atol=t)
        ctx.close(getattr(res, 's_2_y_%s_dark' % ('cav' if part == 'row' else 'rav')), 0, 'average variance of the other', atol=t)
        D = M * N - M - N
        small = (abs(tot - pop) * max(M, N, M * N / 1.) / D) + t
        ctx.check(abs(getattr(res, 's_2_y_%s_dark' % other)) <= small + 1e-9, 'structure leaks into the other direction',
                  got=getattr(res, 's_2_y_%s_dark' % other), allowed=small)
        ctx.ev('structures')
    ctx.sig(shape, L)


@P.scenario(quick=300, must=['flat'])
def flat(ctx):
    """No structure at all: all parts are zero, and zero is not negative."""
    shape = shape_of(ctx)
    L, Ld = ctx.int(2, 20), ctx.int(2, 20)
    lev = ctx.int(0, 4000)
    res, _ = build(ctx, shape, np.full((L,) + shape, lev + ctx.int(1, 4000), np.int64), np.full((Ld,) + shape, lev, np.int64))
    for k in ['', '_row', '_col', '_pixel']:
        ctx.close(getattr(res, 'DSNU1288' + k), 0, 'DSNU%s of flat images' % k, atol=1e-9 / abs(res.K))
        ctx.close(getattr(res, 'PRNU1288' + k), 0, 'PRNU%s of flat images' % k, atol=1e-6)
    ctx.close(res.DSNU1288_DN(), 0, 'DSNU in DN of flat images', atol=1e-9)
    ctx.ev('flat')
    ctx.sig(shape, L, Ld, lev)


@P.scenario(quick=300, must=['stacks'])
def scaled(ctx):
    """DSNU in electrons follows K; PRNU does not depend on K; both scale as they should with the grey values."""
    shape = shape_of(ctx)
    L = ctx.int(2, 8, const=0)
    b, d = stack(ctx, L, shape) + 500, stack(ctx, L, shape)
    r1, _ = build(ctx, shape, b, d)
    r2, _ = build(ctx, shape, 2 * b, 2 * d)
    check(ctx, r1, b, d)
    check(ctx, r2, 2 * b, 2 * d)
    ctx.sig(shape, L)
