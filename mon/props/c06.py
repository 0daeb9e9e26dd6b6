"""C06: spatial statistics of image stacks."""
import numpy as np

from emva1288.process.data import Data1288

from mon import curves, ref
from mon.core import Property

P = Property('C06', 'case = bright and dark stack of raw images reduced and given to the data stage; non-trivial = all spatial figures '
             'compared with two-pass definitions computed from the raw images, distinct by shape, number of images and content kind')

KEYS = ['avg_mean', 'avg_var', 'var_mean', 'avg_var_cav', 'avg_var_rav']


def run(ctx, shape, bright, dark, **kw):
    sp, _b, _d = curves.spatial_input(ctx, shape, bright=bright, dark=dark, **kw)
    data = {'temporal': curves.small_temporal(ctx, shape, 1), 'spatial': sp, 'height': shape[0], 'width': shape[1]}
    with ctx.unchanged('the reduced data', data):
        s = Data1288(data, loglevel=50).data['spatial']
    e = list(sp)[0]
    ctx.eq(s['texp'], e, 'exposure of the spatial part')
    ctx.eq(s['u_p'], [p for p in sp[e] if p][0], 'photon count of the spatial part')
    return s


def tol(st):
    # rounding of the means (up to some hundred ulp) times the size of the deviations: no room for differences of large squares
    return 1e-12 * st['avg_mean'] * np.sqrt(max(st['avg_var'], 0)) + 1e-12


def compare(ctx, s, bright, dark):
    for post, st in (('', bright), ('_dark', dark)):
        w = ref.stack_stats(st)
        t = tol(w)
        ctx.eq(s['L' + post], w['L'], 'L' + post)
        ctx.eq(s['M' + post], w['M'], 'M' + post)
        ctx.eq(s['N' + post], w['N'], 'N' + post)
        ctx.array_eq(s['sum' + post], w['sum'], 'sum image' + post)
        ctx.close(s['avg_mean' + post], w['avg_mean'], 'mean' + post, rtol=1e-10)
        for k in KEYS[1:]:
            ctx.close(s[k + post], w[k], k + post, rtol=1e-9, atol=t)
        ctx.ev('stacks')


def shape_of(ctx):
    return ctx.pick([(ctx.size(2, 40), ctx.size(2, 40)), (ctx.int(2, 5, const=0), ctx.size(20, 120)),
                     (ctx.size(20, 120), ctx.int(2, 5, const=0)), (ctx.int(1, 2, const=0), ctx.size(3, 30)),
                     (ctx.size(3, 30), 1)])


@P.scenario(quick=2100, must=['stacks', 'purity_checks'])
def reference(ctx):
    shape = shape_of(ctx)
    L, Ld = ctx.size(2, 40), None
    Ld = ctx.size(2, 40) if ctx.chance(.4) else L
    b, d = curves.stack(ctx, L, shape), curves.stack(ctx, Ld, shape)
    ctx.note(shape=shape, L=L, L_dark=Ld)
    compare(ctx, run(ctx, shape, b, d), b, d)
    ctx.sig(shape, L, Ld)


@P.scenario(quick=600, must=['transposed'])
def transposed(ctx):
    shape = shape_of(ctx)
    L = ctx.int(2, 8, const=0)
    b, d = curves.stack(ctx, L, shape), curves.stack(ctx, L, shape)
    s = run(ctx, shape, b, d)
    t = run(ctx, shape[::-1], b.transpose(0, 2, 1), d.transpose(0, 2, 1))
    for post in ('', '_dark'):
        a = 1e-13 * s['avg_mean' + post] ** 2 + 1e-12
        for k in ('avg_mean', 'avg_var', 'var_mean'):
            ctx.close(t[k + post], s[k + post], k + post + ' after transposition', rtol=1e-9, atol=a)
        ctx.close(t['avg_var_cav' + post], s['avg_var_rav' + post], 'column average after transposition' + post, atol=a)
        ctx.close(t['avg_var_rav' + post], s['avg_var_cav' + post], 'row average after transposition' + post, atol=a)
        ctx.array_eq(t['sum' + post], np.asarray(s['sum' + post]).T, 'sum image after transposition')
        ctx.ev('transposed')
    ctx.sig(shape, L)


@P.scenario(quick=600, must=['offsets'])
def offset(ctx):
    """A constant grey value on one of the stacks changes that stack's mean and nothing else."""
    shape = shape_of(ctx)
    L = ctx.int(2, 8, const=0)
    b, d = curves.stack(ctx, L, shape, hi=4095), curves.stack(ctx, L, shape, hi=4095)
    s = run(ctx, shape, b, d)
    c, cd = ctx.pick([(ctx.int(1, 60000), 0), (0, ctx.int(1, 60000)), (ctx.int(1, 60000), ctx.int(1, 60000))])
    t = run(ctx, shape, b + c, d + cd)
    for post, x in (('', c), ('_dark', cd)):
        ctx.close(t['avg_mean' + post], s['avg_mean' + post] + x, 'mean after offset', rtol=1e-10)
        a = 1e-13 * t['avg_mean' + post] ** 2 + 1e-11
        for k in KEYS[1:]:
            ctx.close(t[k + post], s[k + post], k + post + ' after offset', rtol=1e-9, atol=a)
        ctx.ev('offsets')
    ctx.sig(shape, L, c, cd)


@P.scenario(quick=180, must=['stacks'])
def faint(ctx):
    """Bright deep images with hardly any structure."""
    shape = shape_of(ctx)
    L = ctx.pick([2, 16, 50, 200])
    level = ctx.pick([65534, 60001, 4094, 50001])

    def stack():
        fixed = ctx.rng.random(shape) < ctx.pick([.02, .3])
        flicker = ctx.rng.random((L,) + shape) < ctx.pick([0, .001, .05])
        return (level + fixed + (flicker & ~fixed)).astype(np.uint16)
    b, d = stack(), stack()
    compare(ctx, run(ctx, shape, b, d), b, d)
    ctx.sig(shape, L, level)


@P.scenario(quick=180, must=['stacks'])
def permuted(ctx):
    """Order of the images in the stack, and of rows and columns, does not matter to mean and variances."""
    shape = shape_of(ctx)
    L = ctx.int(3, 10, const=0)
    b, d = curves.stack(ctx, L, shape), curves.stack(ctx, L, shape)
    s = run(ctx, shape, b, d)
    rows, cols = ctx.rng.permutation(shape[0]), ctx.rng.permutation(shape[1])
    f = lambda st: st[ctx.rng.permutation(L)][:, rows][:, :, cols]
    t = run(ctx, shape, f(b), f(d))
    for post in ('', '_dark'):
        for k in KEYS:
            ctx.close(t[k + post], s[k + post], k + post + ' after permutation', rtol=1e-9,
                      atol=1e-13 * s['avg_mean' + post] ** 2 + 1e-12)
    compare(ctx, s, b, d)
    ctx.sig(shape, L)


@P.scenario(quick=36, must=['stacks'])
def large(ctx):
    """Many bright 16 bit images; large images."""
    shape, L = ctx.pick([((ctx.int(100, 600), ctx.int(100, 600)), ctx.int(2, 6, const=0)),
                         ((ctx.int(2, 20), ctx.int(2, 20)), ctx.int(100, 900))])
    b = curves.stack(ctx, L, shape, hi=65535)
    d = curves.stack(ctx, L, shape, hi=65535, kind='extremes')
    compare(ctx, run(ctx, shape, b, d), b, d)
    ctx.note(shape=shape, L=L)
    ctx.sig(shape, L)
