"""C14: defect-pixel histograms."""
import math

import numpy as np

from emva1288.process import routines
from emva1288.process.data import Data1288

from mon import curves, ref
from mon.core import Property, Violation
from mon.props.c15 import highpass

P = Property('C14', 'case = image (binning) or pair of stacks (result histograms), with outliers, wide ranges and colour masks; '
             'non-trivial = every bin count compared with a per-pixel reference algorithm, accumulated percentages with direct '
             'counts, distinct by size, value range and number of bins')

QMAX = 256


def reference(y, qmax):
    """Bin limits and counts, one pixel at a time (the algorithm of the standard)."""
    lo, hi = int(y.min()), int(y.max())
    q = hi - lo
    W, Q = 1, q + 1
    if Q > qmax:
        W = q // qmax + 1
        Q = q // W + 1
    idx = (np.asarray(y).astype(np.int64) - lo) // W
    H = np.zeros(Q, np.int64)
    np.add.at(H, idx, 1)
    return lo + W * np.arange(Q), H, W, Q


def check_model(ctx, model, at, y, W, Q, what):
    sigma = float(np.std(y.astype(np.float64)))
    if sigma == 0:
        return
    mu = float(np.mean(y.astype(np.float64)))
    z = (np.asarray(at, float) - mu) / sigma
    pdf = np.exp(-.5 * z * z) / (math.sqrt(2 * math.pi) * sigma)
    ok = np.abs(z) < 25
    ctx.eq(np.shape(model), np.shape(at), 'length of the model of ' + what)
    if not ok.any():
        return
    ratio = np.asarray(model, float)[ok] / (pdf[ok] * y.size)
    ctx.check(np.all(ratio >= W * (Q - 1.) / Q * (1 - 1e-6)) and np.all(ratio <= W * (1 + 1e-6)), 'scale of the model of ' + what,
              ratio=ratio, W=W, Q=Q)
    # the same factor for all bins: it is a normal distribution with that mean and spread
    ctx.close(ratio, np.full(ratio.shape, np.median(ratio)), 'shape of the model of ' + what, rtol=1e-6)
    ctx.ev('models')


def check_hist(ctx, h, y, qmax, what, scale=1., shift=0., values=True):
    """h describes the integer values y, bins given as (limit / scale - shift)."""
    B, H, W, Q = reference(y, qmax)
    bins = np.asarray(h['bins'], float)
    atol = 1e-9 * (np.abs(B).max() / scale + abs(shift) + 1)
    ctx.close(bins, B / float(scale) - shift, 'bins of ' + what, rtol=1e-9, atol=atol)
    ctx.check(len(bins) <= qmax, 'too many bins in ' + what, n=len(bins))
    if values:
        ctx.array_eq(np.asarray(h['values']), H, 'counts of ' + what)
        ctx.eq(int(np.sum(h['values'])), y.size, 'total of ' + what)
        check_model(ctx, h['model'], B, y, W, Q, what)
    ctx.ev('histograms')
    ctx.ev('pixels', y.size)
    ctx.ev('bins', len(bins))
    if W > 1:
        ctx.ev('wide_bins')
    return W, Q


def values(ctx, n):
    r = ctx.rng
    k = ctx.pick(['narrow', 'wide', 'edge', 'outlier', 'const', 'two', 'normal', 'negative', 'multiple'])
    if k == 'narrow':
        y = r.integers(0, ctx.int(2, 300), n) + ctx.int(0, 1000)
    elif k == 'wide':
        y = r.integers(-10 ** 6, 10 ** 6, n)
    elif k == 'edge':
        q = ctx.pick([254, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025])
        y = r.integers(0, q + 1, n)
        y[0], y[-1] = 0, q
    elif k == 'outlier':
        y = r.integers(0, 20, n)
        y[r.integers(0, n)] = ctx.int(1000, 10 ** 7)
    elif k == 'const':
        y = np.full(n, ctx.int(-5, 5000))
    elif k == 'two':
        y = np.where(r.random(n) < .5, 0, ctx.int(1, 10 ** 5))
    elif k == 'normal':
        y = np.rint(r.normal(0, ctx.logu(.5, 1e4), n))
    elif k == 'negative':
        y = -r.integers(1, 10 ** 4, n)
    else:
        y = r.integers(0, 40, n) * ctx.int(2, 300)
    return y.astype(np.int64), k


@P.scenario(quick=4500, must=['histograms', 'wide_bins', 'models', 'purity_checks', 'pixel types'])
def binning(ctx):
    shape = (ctx.size(1, 60), ctx.size(1, 60))
    y, k = values(ctx, shape[0] * shape[1])
    qmax = ctx.pick([QMAX, QMAX, QMAX, ctx.int(2, 2000), ctx.int(1, 20)])
    what = 'Histogram1288'
    if ctx.chance(.3):
        # an image of a camera, full scale included
        t = np.dtype(ctx.pick(['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32']))
        lo, hi = np.iinfo(t).min, min(np.iinfo(t).max, 10 ** 9)
        y = np.clip(y, max(lo, -10 ** 9), hi)
        if ctx.chance(.5) and t.itemsize <= 2:
            y[ctx.rng.integers(0, y.size, 2)] = lo, hi
        k = t.name
        ctx.ev('pixel types')
    else:
        t = y.dtype
    img = y.reshape(shape).astype(t)
    if ctx.chance(.3) and y.size > 1:
        mask = ctx.rng.random(shape) < ctx.uniform(.1, .8)
        if mask.all():
            mask[0, 0] = False
        img = np.ma.array(img, mask=mask)
        y = y[~mask.ravel()]
        ctx.ev('masked')
    with ctx.unchanged('the image', img):
        h = routines.Histogram1288(img, qmax)
    W, Q = check_hist(ctx, h, y, qmax, what)
    ctx.note(shape=shape, kind=k, qmax=qmax, W=W, Q=Q)
    ctx.sig(shape, k, qmax, W, Q)


def accumulated(ctx, h, y, scale, what):
    """Percentage of pixels that deviate at least that much from the mean (rounded to the integer scale of the image)."""
    m = float(np.mean(y.astype(np.float64)))
    errors = []
    for c in sorted({math.floor(m), math.ceil(m)} | {int(round(m)) + k for k in (0,)}):
        dev = np.abs(y - c)
        B, H, W, Q = reference(dev, QMAX)
        if len(h['bins']) != Q:
            errors.append('%d bins instead of %d' % (len(h['bins']), Q))
            continue
        if not np.allclose(h['bins'], B / float(scale), rtol=1e-9, atol=1e-12):
            errors.append('bins')
            continue
        want = np.array([100. * np.count_nonzero(dev >= b) / dev.size for b in B])
        if not np.allclose(h['values'], want, rtol=1e-9, atol=1e-9):
            errors.append('values')
            continue
        errors = None
        break
    ctx.check(errors is None, 'accumulated histogram of ' + what, why=errors, bins=h['bins'], values=h['values'], mean=m)
    v = np.asarray(h['values'], float)
    ctx.close(v[0], 100., what + ' starts at 100', rtol=1e-12)
    ctx.check(np.all(np.diff(v) <= 0), what + ' rises', values=v)
    ctx.ev('accumulated')


def spatial(ctx, shape, bright, dark, mask=None):
    sp, _b, _d = curves.spatial_input(ctx, shape, bright=bright, dark=dark)
    if mask is not None:
        for e in sp:
            for p in sp[e]:
                for k in ('sum', 'pvar'):
                    sp[e][p][k] = np.ma.array(sp[e][p][k], mask=mask)
    d = Data1288({'temporal': curves.small_temporal(ctx, shape, 1), 'spatial': sp, 'height': shape[0], 'width': shape[1]}, loglevel=50)
    return d.data['spatial']


def add_outliers(ctx, st):
    if ctx.chance(.5):
        st = st.copy()
        for _ in range(ctx.int(1, 5, const=0)):
            st[:, ctx.int(0, st.shape[1] - 1), ctx.int(0, st.shape[2] - 1)] = ctx.int(0, 65535)
    return st


def check_results(ctx, shape, bright, dark, mask=None):
    sp = spatial(ctx, shape, bright, dark, mask)
    t, _i = curves.curve(ctx, n=10, multi=False)
    res = curves.results(ctx, t, sp)
    L, Ld = len(bright), len(dark)
    with ctx.unchanged('the spatial data', sp):
        h = {k: getattr(res, k) for k in ctx.shuffled(['histogram_PRNU', 'histogram_DSNU', 'histogram_PRNU_accumulated',
                                                       'histogram_DSNU_accumulated'])}
    sb, sd = bright.sum(axis=0), dark.sum(axis=0)
    yd = sd.ravel() if mask is None else sd[~mask]
    check_hist(ctx, h['histogram_DSNU'], yd, QMAX, 'the DSNU histogram', scale=Ld, shift=float(np.mean(yd.astype(float))) / Ld)
    accumulated(ctx, h['histogram_DSNU_accumulated'], yd, Ld, 'the accumulated DSNU histogram')
    # the difference of the two averages in integers, which needs a common multiple of the two numbers of images
    errors = []
    for m in sorted({math.lcm(L, Ld), L * Ld} if L != Ld else {L}):
        hp, mult, inner = highpass(sb.astype(np.int64) * (m // L) - sd.astype(np.int64) * (m // Ld), 5, mask)
        yp = hp.ravel() if mask is None else hp[~inner]
        try:
            check_hist(ctx, h['histogram_PRNU'], yp, QMAX, 'the PRNU histogram', scale=m * mult)
            accumulated(ctx, h['histogram_PRNU_accumulated'], yp, m * mult, 'the accumulated PRNU histogram')
            break
        except Violation as e:
            errors.append(e)
    else:
        raise errors[0]


@P.scenario(quick=1500, must=['histograms', 'accumulated', 'wide_bins'])
def stacks(ctx):
    shape = ctx.pick([(ctx.size(5, 60), ctx.size(5, 60)), (5, ctx.size(5, 60)), (ctx.size(5, 60), 5)])
    L = ctx.size(2, 30)
    Ld = ctx.size(2, 30) if ctx.chance(.2) else L
    if ctx.chance(.06):
        # many images, not as many dark ones
        shape = (ctx.int(5, 20), ctx.int(5, 20))
        L, Ld = ctx.int(30, 300), ctx.int(30, 300)
    b, d = add_outliers(ctx, curves.stack(ctx, L, shape)), add_outliers(ctx, curves.stack(ctx, Ld, shape))
    ctx.note(shape=shape, L=L, L_dark=Ld)
    check_results(ctx, shape, b, d)
    ctx.sig(shape, L, Ld)


@P.scenario(quick=600, must=['histograms', 'accumulated'])
def colour(ctx):
    shape = (ctx.size(6, 40), ctx.size(6, 40))
    mask = np.ones(shape, bool)
    mask[ctx.int(0, 1, const=0)::2, ctx.int(0, 1, const=0)::2] = False
    L = ctx.size(2, 12)
    b, d = add_outliers(ctx, curves.stack(ctx, L, shape)), add_outliers(ctx, curves.stack(ctx, L, shape))
    # the other colours are far away
    b = np.where(mask, (b * 3 + 7) % 65536, b)
    d = np.where(mask, 65535 - d, d)
    ctx.note(shape=shape, L=L)
    check_results(ctx, shape, b, d, mask)
    ctx.sig(shape, L, tuple(mask[0, :2]))


@P.scenario(quick=36, must=['histograms', 'accumulated'])
def large(ctx):
    shape = (ctx.int(100, 500), ctx.int(100, 500))
    L = ctx.pick([2, 10, 50]) if shape[0] * shape[1] < 60000 else 2
    b, d = add_outliers(ctx, curves.stack(ctx, L, shape)), add_outliers(ctx, curves.stack(ctx, L, shape))
    check_results(ctx, shape, b, d)
    ctx.sig(shape, L)
