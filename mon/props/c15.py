"""C15: high-pass filter."""
import numpy as np
from numpy.lib.stride_tricks import sliding_window_view

from emva1288.process import routines

from mon.core import Property

P = Property('C15', 'case = image of random shape, pixel type, content, filter size and colour mask; non-trivial = every output pixel '
             'compared with the exact residual over its neighbourhood, distinct by shape, size, type and mask')


def highpass(img, n, mask=None):
    """Exact residual; returns image, factor and the cropped mask."""
    h = n // 2
    a = np.asarray(img)
    w = np.zeros(a.shape, np.int64) + 1
    if mask is not None:
        a = np.where(mask, 0, a)
        w = np.where(mask, 0, 1)
    inner = a[h:-h, h:-h]
    box = sliding_window_view(a, (n, n)).sum(axis=(2, 3))
    cnt = sliding_window_view(w, (n, n)).sum(axis=(2, 3))
    if mask is None:
        return n * n * inner - box, n * n, None
    m = mask[h:-h, h:-h]
    c = cnt[~m]
    f = int(c[0])
    return f * inner - box, f, m


def content(ctx, shape, hi):
    r = ctx.rng
    k = ctx.pick(['uniform', 'uniform', 'normal', 'spots', 'rows'])
    if k == 'uniform':
        return r.integers(-hi, hi + 1, shape)
    if k == 'normal':
        return np.rint(r.normal(hi / 2, hi / 20 + 1, shape)).astype(np.int64).clip(-hi, hi)
    a = np.zeros(shape, np.int64)
    if k == 'spots':
        for _ in range(ctx.int(1, 5, const=0)):
            a[ctx.int(0, shape[0] - 1), ctx.int(0, shape[1] - 1)] = ctx.int(-hi, hi)
        return a
    return a + r.integers(-hi, hi + 1, (shape[0], 1)) // 2 + r.integers(-hi, hi + 1, (1, shape[1])) // 2


def typed(ctx, a, n):
    """A pixel type that holds every possible result."""
    m = 2 * n * n * max(1, int(np.abs(a).max()))
    ok = [t for t in (np.int16, np.int32, np.int64) if m <= np.iinfo(t).max] + [np.float64]
    if m < 2 ** 24:
        ok.append(np.float32)
    t = ctx.pick(ok)
    a = a.astype(t)
    if ctx.chance(.2):
        a = np.asfortranarray(a)
    elif ctx.chance(.1):
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 2), t)
        big[::2, ::2] = a
        a = big[::2, ::2]
    return a


def shape_of(ctx, lo, hi):
    """Mostly small, sometimes one side long."""
    a, b = ctx.size(lo, hi), ctx.size(lo, hi)
    k = ctx.int(0, 19)
    if k < 2:
        a, b = ctx.pick([(ctx.size(lo, 8), ctx.int(hi, 2200)), (ctx.int(hi, 2200), ctx.size(lo, 8))])
    elif k == 2 and ctx.chance(.4):
        # the size of a small sensor
        a, b = ctx.pick([(ctx.int(60, 150), ctx.int(500, 2400)), (ctx.int(500, 2400), ctx.int(60, 150)), (ctx.int(200, 520), ctx.int(200, 520))])
        ctx.ev('sensor_sizes')
    return a, b


def hidden(ctx, img):
    """The fill value of a masked image has nothing to say."""
    k = ctx.pick([None, 0, 1, -7, 99, 'max', 'min'])
    if k is None:
        return img
    if isinstance(k, str):
        info = np.finfo(img.dtype) if img.dtype.kind == 'f' else np.iinfo(img.dtype)
        k = getattr(info, k)
    img.fill_value = k
    ctx.ev('fill_values')
    return img


def size_of(ctx, shape):
    m = min(shape)
    if m >= 60:
        m = 13
    return ctx.pick([3, 5, 5, 7, 9, ctx.int(1, 8, const=0) * 2 + 1, m if m % 2 else m - 1])


@P.scenario(quick=4500, must=['pixels', 'purity_checks'])
def plain(ctx):
    shape = shape_of(ctx, 3, 60)
    n = max(3, min(size_of(ctx, shape), min(shape) - (1 - min(shape) % 2)))
    a = content(ctx, shape, ctx.pick([1, 255, 65535, 10 ** 6, 2 * 10 ** 8, 5 * 10 ** 9]))
    img = typed(ctx, a, n)
    ctx.note(shape=shape, n=n, dtype=img.dtype)
    with ctx.unchanged('the image', img):
        d = routines.high_pass_filter(img, n)
    want, f, _m = highpass(a, n)
    ctx.check(not isinstance(d['img'], np.ma.MaskedArray), 'result of a plain image is masked')
    ctx.array_eq(np.asarray(d['img']), want, 'residual')
    ctx.eq(float(d['multiplicator']), float(f), 'factor')
    ctx.ev('pixels', want.size)
    ctx.sig(shape, n, str(img.dtype))


@P.scenario(quick=900, must=['zero_pixels'])
def flat(ctx):
    """Constant and planar images give zero."""
    shape = (ctx.size(3, 50), ctx.size(3, 50))
    n = max(3, min(size_of(ctx, shape), min(shape) - (1 - min(shape) % 2)))
    i, j = np.indices(shape)
    p, q = (0, 0) if ctx.chance(.3) else (ctx.int(-40, 40), ctx.int(-40, 40))
    a = ctx.int(-5000, 5000) + p * i + q * j
    d = routines.high_pass_filter(typed(ctx, a, n), n)
    ctx.array_eq(np.asarray(d['img']), np.zeros((shape[0] - n + 1, shape[1] - n + 1)), 'residual of a plane')
    ctx.ev('zero_pixels', d['img'].size)
    ctx.sig(shape, n, p, q)


@P.scenario(quick=600, must=['pixels'])
def linear(ctx):
    shape = (ctx.size(3, 40), ctx.size(3, 40))
    n = max(3, min(size_of(ctx, shape), min(shape) - (1 - min(shape) % 2)))
    a, b = content(ctx, shape, 5000), content(ctx, shape, 5000)
    x, y = ctx.int(-9, 9), ctx.int(-9, 9)
    f = lambda im: np.asarray(routines.high_pass_filter(im.astype(np.int64), n)['img'])
    ctx.array_eq(f(x * a + y * b), x * f(a) + y * f(b), 'linearity')
    # floating point grey values
    u = ctx.pick([1., 1., ctx.logu(1e-12, 1e12)])
    c = ctx.rng.normal(0, 1, shape)
    w, _f, _m = highpass(c, n)
    ctx.close(routines.high_pass_filter(c * u, n)['img'] / u, w, 'residual of a float image', rtol=1e-9, atol=1e-9 * n * n)
    ctx.ev('pixels', w.size)
    ctx.sig(shape, n, x, y)


def pattern(ctx, shape):
    """Mask with a uniform colour pattern."""
    i, j = np.indices(shape)
    k = ctx.pick(['bayer', 'bayer', 'bayer', 'green', 'rows', 'cols', 'none', 'sparse'])
    a, b = ctx.int(0, 3, const=0), ctx.int(0, 3, const=0)
    if k == 'bayer':
        keep = ((i + a) % 2 == 0) & ((j + b) % 2 == 0)
    elif k == 'green':
        keep = (i + j + a) % 2 == 0
    elif k == 'rows':
        keep = (i + a) % 2 == 0
    elif k == 'cols':
        keep = (j + a) % 2 == 0
    elif k == 'none':
        keep = i >= 0
    else:
        keep = ((i + a) % 4 == 0) & ((j + b) % 4 == 0)
    return ~keep, k


def counts(mask, n):
    h = n // 2
    c = sliding_window_view((~mask).astype(np.int64), (n, n)).sum(axis=(2, 3))
    return c[~mask[h:-h, h:-h]]


@P.scenario(quick=3000, must=['pixels', 'masked_pixels', 'purity_checks', 'fill_values'])
def colour(ctx):
    shape = shape_of(ctx, 3, 50)
    n = max(3, min(size_of(ctx, shape), min(shape) - (1 - min(shape) % 2)))
    mask, k = pattern(ctx, shape)
    c = counts(mask, n)
    if not c.size or c.min() != c.max():
        mask, k = pattern(ctx, shape)
        c = counts(mask, n)
        if not c.size or c.min() != c.max():
            ctx.check(True, 'skipped')
            return
    a = content(ctx, shape, ctx.pick([255, 65535]))
    img = hidden(ctx, np.ma.array(typed(ctx, a, n), mask=mask))
    ctx.note(shape=shape, n=n, mask=k, dtype=img.dtype)
    with ctx.unchanged('the image', img):
        d = routines.high_pass_filter(img, n)
    want, f, m = highpass(a, n, mask)
    got = d['img']
    ctx.array_eq(np.ma.getmaskarray(got), m, 'mask of the result')
    ctx.array_eq(np.ma.getdata(got)[~m], want[~m], 'residual of the unmasked pixels')
    ctx.eq(float(d['multiplicator']), float(f), 'factor')
    # grey values under the mask have no influence
    b = np.where(mask, content(ctx, shape, 255), a)
    e = routines.high_pass_filter(hidden(ctx, np.ma.array(b.astype(img.dtype), mask=mask)), n)
    ctx.array_eq(np.ma.getdata(e['img'])[~m], want[~m], 'residual after changes under the mask')
    ctx.eq(float(e['multiplicator']), float(f), 'factor after changes under the mask')
    ctx.ev('pixels', int((~m).sum()))
    ctx.ev('masked_pixels', int(m.sum()))
    ctx.sig(shape, n, k)


@P.scenario(quick=1500, must=['refusals'])
def refused(ctx):
    shape = (ctx.size(5, 40), ctx.size(5, 40))
    a = content(ctx, shape, 255)
    if ctx.chance(.5):
        n = ctx.int(1, 6, const=0) * 2
        img = np.ma.array(a, mask=pattern(ctx, shape)[0]) if ctx.chance(.4) else a
        with ctx.unchanged('the image', img):
            ctx.refused(lambda: routines.high_pass_filter(img, n), (ValueError,), 'even size')
        ctx.sig('even', n, shape)
        return
    n = max(3, min(size_of(ctx, shape), min(shape) - (1 - min(shape) % 2)))
    mask, k = pattern(ctx, shape)
    h = n // 2
    if ctx.chance(.5):
        # a regular mask with one pixel out of place
        i, j = ctx.int(0, shape[0] - 1), ctx.int(0, shape[1] - 1)
        mask[i, j] = not mask[i, j]
    else:
        mask = ctx.rng.random(shape) < ctx.uniform(.05, .9)
    c = counts(mask, n)
    img = np.ma.array(a, mask=mask)
    ctx.sig(k, n, shape)
    if not c.size or c.min() == c.max():
        ctx.check(True, 'still uniform')
        return
    with ctx.unchanged('the image', img):
        ctx.refused(lambda: routines.high_pass_filter(img, n), (ValueError,), 'irregular mask')
