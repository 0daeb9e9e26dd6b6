"""C16: spectrograms."""
import numpy as np

from emva1288.process import routines

from mon import curves
from mon.core import Property

P = Property('C16', 'case = image of random shape (even and odd), content and mask; non-trivial = every spectral line compared with an '
             'explicit Fourier sum, Parseval total with the variance, sine frequencies with the frequency axis, distinct by shape, '
             'content and mask')


def dft_power(a):
    """Mean over the rows of |DFT|^2 / row length, of the image without its mean."""
    a = np.asarray(a, np.float64)
    a = a - a.mean()
    n = a.shape[1]
    k = np.arange(n // 2 + 1)
    ph = 2 * np.pi / n * ((k[:, None] * np.arange(n)[None, :]) % n)
    c, s = a @ np.cos(ph).T, a @ np.sin(ph).T
    return ((c ** 2 + s ** 2) / n).mean(axis=0)


def total(r, n):
    """Sum over all (positive and negative) frequencies."""
    if n == 1:
        return float(r[0])
    return float(r[0] + 2 * np.sum(r[1:(n + 1) // 2]) + (r[n // 2] if n % 2 == 0 else 0))


def image(ctx, shape):
    k = ctx.pick(['stack', 'float', 'sum', 'big', 'spike'])
    if k == 'stack':
        return curves.typed(ctx, curves.stack(ctx, 1, shape))[0]
    if k == 'float':
        return ctx.rng.normal(100, 10, shape)
    if k == 'sum':
        return curves.stack(ctx, 4, shape).sum(axis=0)
    if k == 'big':
        return ctx.rng.integers(10 ** 6, 10 ** 6 + 50, shape)
    a = np.zeros(shape)
    a[ctx.int(0, shape[0] - 1), ctx.int(0, shape[1] - 1)] = ctx.int(1, 60000)
    return a


def shape_of(ctx):
    return ctx.pick([(ctx.size(1, 60), ctx.size(1, 60)), (ctx.size(1, 10), ctx.size(1, 250)), (ctx.size(1, 250), ctx.size(1, 10)),
                     ctx.pick([(ctx.int(200, 2500), ctx.size(1, 6)), (ctx.size(1, 6), ctx.int(200, 2500))])])


def tol(a):
    m = float(np.abs(np.asarray(a, float)).max())
    return 1e-10 + 1e-20 * m * m * np.asarray(a).size


@P.scenario(quick=3600, must=['lines', 'purity_checks'])
def reference(ctx):
    shape = shape_of(ctx)
    img = image(ctx, shape)
    n = ctx.pick([1, 1, ctx.int(2, 200), ctx.int(2, 2000)])
    # the number of images comes from user data, as any kind of integer
    n = ctx.pick([int, int, np.int64, float])(n)
    ctx.ev('kind_of_n:' + type(n).__name__)
    rot = ctx.chance(.5)
    ctx.note(shape=shape, n=n, rotate=rot)
    with ctx.unchanged('the image', img):
        r = np.asarray(routines.FFT1288(img, rotate=rot, n=n))
    a = np.asarray(img, float)
    if rot:
        a = a.T
    cols = a.shape[1]
    want = dft_power(a) / float(n) ** 2
    var = float(np.var(a))
    ctx.eq(len(r), cols // 2 + 1, 'number of lines')
    ctx.close(r, want, 'power spectrum', rtol=1e-7, atol=tol(a) + 1e-9 * var)
    ctx.close(total(r, cols), var * cols / float(n) ** 2, 'total power', rtol=1e-8, atol=tol(a) * cols)
    f = np.asarray(routines.GetFrecs(r, cols))
    ctx.close(f, np.arange(len(r)) / float(cols), 'frequencies', rtol=1e-12)
    if cols % 2 == 0:
        ctx.close(routines.GetFrecs(r), np.arange(len(r)) / float(cols), 'frequencies of even rows', rtol=1e-12)
    ctx.ev('lines', len(r))
    ctx.sig(shape, n, rot)


@P.scenario(quick=1500, must=['sines'])
def sines(ctx):
    """A pure sine shows up at its own frequency only."""
    M, N = ctx.size(1, 40), ctx.size(3, 250)
    k = ctx.int(1, N // 2)
    if 2 * k == N:
        ph = 0.
    else:
        ph = ctx.uniform(0, 6)
    A = ctx.logu(.1, 1000)
    rows = ctx.uniform(0, 6) * np.arange(M)[:, None] if 2 * k != N else 0 * np.arange(M)[:, None]
    img = 1000 + A * np.cos(2 * np.pi * k / float(N) * np.arange(N)[None, :] + ph + rows)
    rot = ctx.chance(.5)
    r = routines.FFT1288(img.T if rot else img, rotate=rot)
    f = routines.GetFrecs(r, N)
    i = int(np.argmax(r))
    ctx.close(f[i], k / float(N), 'frequency of the sine', rtol=1e-12)
    ctx.check(f[-1] <= .5 and f[0] == 0, 'range of the frequencies', f=f)
    want = A * A * N / (1. if 2 * k == N else 4.)
    ctx.close(r[i], want, 'power of the sine', rtol=1e-6)
    ctx.close(np.delete(r, i), np.zeros(len(r) - 1), 'power elsewhere', atol=1e-8 * want + 1e-12)
    ctx.ev('sines')
    ctx.sig(M, N, k, rot)


@P.scenario(quick=900, must=['scalings'])
def scaling(ctx):
    shape = shape_of(ctx)
    img = np.asarray(image(ctx, shape), float)
    rot = ctx.chance(.5)
    r = routines.FFT1288(img, rotate=rot)
    atol = 1e-9 * np.var(img) + tol(img)
    g, n, c = ctx.uniform(.5, 30), ctx.int(2, 300), ctx.uniform(-100, 100)
    ctx.close(routines.FFT1288(img * g, rotate=rot), r * g * g, 'scaled image', rtol=1e-7, atol=atol * g * g)
    ctx.close(routines.FFT1288(img, rotate=rot, n=n), r / float(n) ** 2, 'sum of n images', rtol=1e-9, atol=atol)
    ctx.close(routines.FFT1288(img * n, rotate=rot, n=n), r, 'n equal images', rtol=1e-7, atol=atol)
    ctx.close(routines.FFT1288(img + c, rotate=rot), r, 'offset', rtol=1e-6, atol=atol + tol(np.abs(img) + abs(c)) * 10)
    ctx.close(routines.FFT1288(img.T, rotate=not rot), r, 'transposed image', rtol=1e-9, atol=atol)
    # order of the rows does not matter
    q = img[:, ctx.rng.permutation(shape[1])] if rot else img[ctx.rng.permutation(shape[0])]
    ctx.close(routines.FFT1288(q, rotate=rot), r, 'rows in another order', rtol=1e-7, atol=atol)
    ctx.ev('scalings')
    ctx.sig(shape, rot, n)


def compress(a, mask):
    """Unmasked samples of the rows, empty rows dropped, truncated to the shortest."""
    rows = [a[i][~mask[i]] for i in range(a.shape[0])]
    rows = [x for x in rows if x.size]
    n = min(x.size for x in rows)
    return np.array([x[:n] for x in rows])


@P.scenario(quick=2400, must=['masked_rows', 'purity_checks'])
def masked(ctx):
    shape = (ctx.size(1, 50), ctx.size(2, 50))
    img = np.asarray(image(ctx, shape))
    i, j = np.indices(shape)
    k = ctx.pick(['bayer', 'random', 'rows', 'green', 'ragged', 'none'])
    if k == 'bayer':
        mask = ~(((i + ctx.int(0, 1, const=0)) % 2 == 0) & ((j + ctx.int(0, 1, const=0)) % 2 == 0))
    elif k == 'green':
        mask = (i + j) % 2 == 0
    elif k == 'rows':
        mask = np.repeat((ctx.rng.random(shape[0]) < .5)[:, None], shape[1], axis=1)
    elif k == 'random':
        mask = ctx.rng.random(shape) < ctx.uniform(.05, .9)
    elif k == 'ragged':
        mask = j >= ctx.rng.integers(0, shape[1] + 1, (shape[0], 1))
    else:
        mask = i < 0
    rot = ctx.chance(.4)
    if mask.all():
        mask[ctx.int(0, shape[0] - 1), ctx.int(0, shape[1] - 1)] = False
    m = np.ma.array(img, mask=mask)
    ctx.note(shape=shape, mask=k, rotate=rot)
    with ctx.unchanged('the image', m):
        r = np.asarray(routines.FFT1288(m, rotate=rot))
    a = compress(img.T, mask.T) if rot else compress(img, mask)
    want = dft_power(a)
    ctx.eq(len(r), a.shape[1] // 2 + 1, 'number of lines')
    ctx.close(r, want, 'power spectrum of the unmasked samples', rtol=1e-7, atol=tol(a) + 1e-9 * np.var(a.astype(float)))
    ctx.close(total(r, a.shape[1]), np.var(a.astype(float)) * a.shape[1], 'total power', rtol=1e-7, atol=tol(a) * a.shape[1])
    # grey values under the mask have no influence
    b = np.where(mask, ctx.int(0, 255), img).astype(img.dtype)
    r2 = routines.FFT1288(np.ma.array(b, mask=mask), rotate=rot)
    ctx.close(r2, r, 'after changes under the mask', rtol=1e-9, atol=tol(a))
    ctx.ev('masked_rows', shape[0])
    ctx.sig(shape, k, rot)
