"""C03: image series are reduced exactly, in integer arithmetic."""
import numpy as np

from emva1288.process import routines

from mon import ref
from mon.core import Property

P = Property('C03', 'case = random series of integer images (length, shape, pixel type, byte order, memory layout, mask, value '
             'pattern); non-trivial = complete per-pixel comparison with exact integer arithmetic, distinct by length, '
             'shape, type and pattern', ['pseudo-variances are claimed while they fit 64 bits'])

TYPES = [('u1', 0, 255), ('u2', 0, 65535), ('<u2', 0, 4095), ('>u2', 0, 65535), ('i4', 0, 65535), ('u4', 0, 65535),
         ('i2', -32768, 32767), ('i8', 0, 65535), ('i1', -128, 127), ('u2', 0, 1023), ('>i4', 0, 65535), ('u8', 0, 65535)]


def images(ctx, L, shape, typ):
    t, lo, hi = typ
    r = ctx.rng
    pat = ctx.pick(['uniform', 'uniform', 'full', 'zero', 'extremes', 'narrow', 'ramp', 'sparse'])
    out = []
    c = int(r.integers(lo, hi + 1))
    for k in range(L):
        if pat == 'uniform':
            a = r.integers(lo, hi + 1, shape)
        elif pat == 'full':
            a = np.full(shape, hi)
        elif pat == 'zero':
            a = np.zeros(shape)
        elif pat == 'extremes':
            a = np.where(r.random(shape) < .5, lo, hi)
        elif pat == 'narrow':
            a = np.clip(c + r.integers(-2, 3, shape), lo, hi)
        elif pat == 'ramp':
            a = np.clip(lo + (np.arange(int(np.prod(shape))).reshape(shape) * 7 + k * 13) % (hi - lo + 1), lo, hi)
        else:
            a = np.where(r.random(shape) < .05, hi, 0)
        a = np.asarray(a).astype(np.dtype(t))
        lay = ctx.pick('CCFVR')
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'V' and a.ndim == 2:
            big = np.zeros((a.shape[0] * 2, a.shape[1] * 2), a.dtype)
            big[::2, ::2] = a
            a = big[::2, ::2]
        elif lay == 'R':
            a.flags.writeable = False
        out.append(a)
    return out, pat


def check(ctx, imgs, exact=True):
    L = len(imgs)
    want = ref.reduce_exact(imgs) if exact else ref.reduce_int64(imgs)
    with ctx.unchanged('the input images', imgs):
        got = routines.get_int_imgs(imgs)
    ctx.eq(got['L'], L, 'number of images')
    for k in ('sum', 'pvar'):
        g = got[k]
        ctx.check(isinstance(g, np.ndarray) and g.shape == want[k].shape, 'shape of ' + k, got=g)
        ctx.check(np.issubdtype(g.dtype, np.integer), k + ' is not an integer image', dtype=g.dtype)
        m = np.ma.getmaskarray(g)
        w = np.asarray(want[k]).astype(object)
        gd = np.ma.getdata(g).astype(object)
        if isinstance(imgs[0], np.ma.MaskedArray):
            ctx.array_eq(m, np.ma.getmaskarray(imgs[0]), 'mask of ' + k)
        else:
            ctx.check(not m.any(), 'mask appeared')
        ctx.array_eq(gd[~m], w[~m], 'exact ' + k, L=L)
        ctx.ev('pixels', int((~m).sum()))
    # the running differences cancel: what remains is last minus first
    ctx.close(got['dmean'], want['dmean'], 'mean difference', rtol=1e-9, atol=1e-6 * max(1., L / 1000.))
    return got


@P.scenario(quick=800, must=['pixels', 'wide'])
def small_series(ctx):
    typ = ctx.pick(TYPES)
    L = ctx.size(2, 60)
    if ctx.chance(.2):
        # wide pixels: as large as the result allows
        hi = min(int((2. ** 62.9 / L ** 3) ** .5), 2 ** 31 - 1)
        typ = ctx.pick([('u4', 0, hi), ('i4', -hi // 2, hi // 2), ('i8', 0, hi), ('u8', 0, hi), ('>u4', 0, hi)])
        ctx.ev('wide')
    shape = (ctx.size(1, 24), ctx.size(1, 24))
    imgs, pat = images(ctx, L, shape, typ)
    if ctx.chance(.2) and shape[0] * shape[1] > 1:
        mask = ctx.rng.random(shape) < .4
        mask[0, 0] = False
        imgs = [np.ma.array(i, mask=mask) for i in imgs]
    ctx.note(L=L, shape=shape, type=typ[0], pattern=pat)
    ctx.sig(L, shape, typ[0], pat)
    got = check(ctx, imgs)
    if ctx.chance(.5):
        g2 = routines.get_int_imgs(ctx.shuffled(imgs))
        for k in ('sum', 'pvar'):
            ctx.array_eq(np.ma.getdata(g2[k]), np.ma.getdata(got[k]), 'order of the images changed ' + k)
        ctx.ev('reordered')


@P.scenario(quick=120, must=['pixels', 'beyond_2_53', 'beyond_2_31'])
def long_series(ctx):
    """Long series of wide pixels: sums of squares beyond the 53 bits of a float."""
    typ = ctx.pick([('u2', 0, 65535), ('u2', 0, 65535), ('i4', 0, 65535), ('>u2', 0, 65535)])
    L = ctx.int(250, 2000)
    if ctx.chance(.4):
        # narrow pixels and so many images that 32 bits do not hold the sums of squares
        typ, L = ctx.pick([('u1', 0, 255), ('u1', 0, 255), ('i1', -128, 127), ('u2', 0, 4095), ('u2', 0, 1023)]), ctx.size(100, 40000)
        L = min(L, int((2. ** 63.5 / (typ[2] - typ[1]) ** 2) ** (1 / 3.)))      # the result has to fit 64 bits
    shape = (ctx.int(1, 3, const=0), ctx.int(1, 3, const=0))
    imgs, pat = images(ctx, L, shape, typ)
    ctx.note(L=L, shape=shape, type=typ[0], pattern=pat)
    ctx.sig(L, shape, pat)
    got = check(ctx, imgs)
    if int(np.max(got['pvar'])) > 2 ** 31:
        ctx.ev('beyond_2_31')
    if int(np.max(got['pvar'])) > 2 ** 53 or L * L * int(np.max(got['sum'])) // L > 2 ** 53:
        ctx.ev('beyond_2_53')


@P.scenario(quick=40, must=['pixels'])
def large_images(ctx):
    typ = ctx.pick(TYPES[:5])
    shape = ctx.pick([(1100, 1000), (3, 70000), (70000, 2), (480, 640), (2049, 257), (1, 300000),
                      (ctx.int(300, 1500), ctx.int(300, 1500))])
    L = ctx.int(2, 6, const=0)
    imgs, pat = images(ctx, L, shape, typ)
    ctx.note(L=L, shape=shape, type=typ[0], pattern=pat)
    ctx.sig(L, shape, typ[0], pat)
    check(ctx, imgs, exact=False)


@P.scenario(quick=150, must=['pixels'])
def repeated_calls(ctx):
    """Earlier reductions have no influence, and the list is not consumed or changed."""
    todo = []
    for _ in range(ctx.int(2, 4, const=0)):
        typ = ctx.pick(TYPES)
        imgs, _p = images(ctx, ctx.size(2, 12), (ctx.size(1, 12), ctx.size(1, 12)), typ)
        todo.append(imgs)
    for imgs in ctx.shuffled(todo + todo):
        n = len(imgs)
        check(ctx, imgs)
        ctx.eq(len(imgs), n, 'length of the list of images')
    ctx.sig([(len(i), i[0].shape) for i in todo])
