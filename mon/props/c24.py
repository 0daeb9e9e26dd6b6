"""C24: gain and black offset take the nearest available setting."""
import numpy as np

from emva1288.camera import routines
from emva1288.camera.camera import Camera
from emva1288.camera.dataset_generator import DatasetGenerator

from mon.core import Property

P = Property('C24', 'case = random lists of settings and requests (inside, outside, on and between settings); non-trivial = chosen setting '
             'compared with every published one, distinct by list and kind of request')


def request(ctx, arr):
    lo, hi = float(arr.min()), float(arr.max())
    kind = ctx.pick(['inside', 'on', 'between', 'below', 'above', 'near', 'far'])
    if kind == 'inside':
        v = ctx.uniform(lo, hi)
    elif kind == 'on':
        v = ctx.pick(arr)
    elif kind == 'between':
        i = int(ctx.rng.integers(len(arr)))
        v = (arr[i] + arr[min(i + 1, len(arr) - 1)]) / 2
    elif kind == 'near':
        v = ctx.pick(arr) + (hi - lo) * ctx.uniform(-1, 1) * 1e-3
    elif kind == 'below':
        v = lo - ctx.uniform(0, 3) * (hi - lo + 1)
    elif kind == 'above':
        v = hi + ctx.uniform(0, 3) * (hi - lo + 1)
    else:
        v = ctx.pick([-1e5, 1e5, -1e12, 1e12])
    if ctx.chance(.1) and abs(v) < 2e8:
        return ctx.pick([int, np.int64, np.int32])(round(v)), 'whole ' + kind
    return ctx.pick([float, np.float64, float])(v), kind


def nearest(ctx, got, req, arr, what):
    ctx.check(np.any(np.asarray(arr) == got), what + ' is not one of the settings', got=got, request=req, settings=arr)
    d = np.abs(np.asarray(arr, dtype=np.longdouble) - np.longdouble(req))
    g = abs(np.longdouble(got) - np.longdouble(req))
    tol = 4e-16 * (abs(np.longdouble(req)) + np.abs(np.asarray(arr)).max())
    ctx.check(g <= d.min() + tol, 'a nearer %s exists' % what, got=got, request=req, nearest=arr[int(np.argmin(d))])
    if req <= arr.min():
        ctx.check(abs(got - arr.min()) <= 4e-16 * abs(req), what + ' below the range', got=got, request=req)
    if req >= arr.max():
        ctx.check(abs(got - arr.max()) <= 4e-16 * abs(req), what + ' above the range', got=got, request=req)
    ctx.ev('requests')


def even(ctx, arr, lo, hi, n, what):
    ctx.eq(len(arr), n, 'number of ' + what)
    want = lo + (hi - lo) * np.arange(n) / (n - 1.0) if n > 1 else np.array([lo])
    ctx.close(arr, want, what, rtol=1e-12, atol=1e-12 * (abs(lo) + abs(hi)))
    if n > 1:
        ctx.eq(float(arr[0]), float(lo), 'first of ' + what)
        ctx.eq(float(arr[-1]), float(hi), 'last of ' + what)


@P.scenario(quick=20000, must=['requests'])
def camera(ctx):
    kw = dict(width=ctx.int(1, 3), height=ctx.int(1, 3), bit_depth=ctx.int(1, 16, const=0))
    kw['qe'] = routines.Qe(width=kw['width'], height=kw['height'], wavelength=np.linspace(500, 600, 3))
    full = 2 ** kw['bit_depth'] - 1
    klo, khi, kn = 0.1, 17., 255
    if ctx.chance(.8):
        klo = kw['K_min'] = ctx.pick([ctx.logu(1e-3, 1), 1, 0.0])
        khi = kw['K_max'] = klo + ctx.pick([ctx.logu(1e-3, 50), 0.0, 1, 10])
    if ctx.chance(.7):
        kn = kw['K_steps'] = ctx.size(1, 300) if ctx.chance(.9) else ctx.int(300, 5000)
    blo, bhi, bn = 0, None, 255
    if ctx.chance(.4):
        blo = kw['blackoffset_min'] = ctx.uniform(0, .01) * full
    if ctx.chance(.5):
        bhi = kw['blackoffset_max'] = ctx.pick([blo + ctx.uniform(0, .3) * full, 0, 0.0, 1]) if blo == 0 else blo + ctx.uniform(0, .3) * full
    if ctx.chance(.7):
        bn = kw['blackoffset_steps'] = ctx.size(1, 300) if ctx.chance(.9) else ctx.int(300, 5000)
    grid_k, grid_b = np.linspace(klo, khi, kn), None
    reqk, reqb = None, None
    if ctx.chance(.7):
        reqk, _ = request(ctx, grid_k)
        kw['K'] = reqk
    if ctx.chance(.7):
        reqb, _ = request(ctx, np.linspace(blo, bhi if bhi is not None else max(full / 16., blo), bn))
        kw['blackoffset'] = reqb
    ctx.note(**{k: v for k, v in kw.items() if k != 'qe'})
    cam = Camera(**kw)
    even(ctx, cam.Ks, klo, khi, kn, 'gains')
    if bhi is None:
        top = float(np.max(cam.blackoffsets))
        if bn > 1 and blo <= full // 16:
            ctx.check(full / 16. - 1 < top <= full / 16. or top == blo, 'default maximum black offset', got=top, want=full / 16.)
        even(ctx, cam.blackoffsets, blo, float(cam.blackoffsets[-1]), bn, 'black offsets')
    else:
        even(ctx, cam.blackoffsets, blo, bhi, bn, 'black offsets')
    nearest(ctx, cam.K, .1 if reqk is None else reqk, cam.Ks, 'gain')
    nearest(ctx, cam.blackoffset, 0 if reqb is None else reqb, cam.blackoffsets, 'black offset')
    ks, bs = cam.Ks.copy(), cam.blackoffsets.copy()
    for _ in range(ctx.int(1, 5, const=0)):
        other = cam.blackoffset
        v, kind = request(ctx, cam.Ks)
        cam.K = v
        nearest(ctx, cam.K, v, ks, 'gain')
        ctx.eq(cam.blackoffset, other, 'black offset after a change of gain')
        other = cam.K
        v, kindb = request(ctx, cam.blackoffsets)
        cam.blackoffset = v
        nearest(ctx, cam.blackoffset, v, bs, 'black offset')
        ctx.eq(cam.K, other, 'gain after a change of black offset')
        ctx.sig(kind, kindb, len(ks), len(bs))
    ctx.array_eq(cam.Ks, ks, 'gains after requests')
    ctx.array_eq(cam.blackoffsets, bs, 'black offsets after requests')


@P.scenario(quick=20000, must=['requests'])
def values(ctx):
    """The helper behind it, on any list."""
    n = ctx.size(1, 300)
    kind = ctx.pick(['random', 'even', 'ints', 'same', 'down'])
    if kind == 'random':
        a = ctx.rng.normal(0, ctx.logu(1e-3, 1e6), n)
    elif kind == 'even':
        a = np.linspace(ctx.uniform(-10, 10), ctx.uniform(11, 1000), n)
    elif kind == 'ints':
        a = ctx.rng.integers(-1000, 1000, n).astype(ctx.pick([float, np.int64, np.int32]))
    elif kind == 'down':
        a = np.sort(ctx.rng.uniform(0, 100, n))[::-1].copy()
    else:
        a = np.full(n, ctx.uniform(0, 5))
    v, k = request(ctx, a)
    with ctx.unchanged('settings', a):
        got = routines.nearest_value(v, a)
    nearest(ctx, got, v, a, 'value')
    ctx.sig(kind, k, n)


@P.scenario(quick=300, must=['requests'])
def data_sets(ctx):
    """The data set generator leaves the settings asked for alone, zero included."""
    bits = ctx.pick([8, 8, 10, 12, 16])
    w, h = ctx.int(1, 5), ctx.int(1, 5)
    kw = dict(width=w, height=h, bit_depth=bits, seed=ctx.int(0, 1000), qe=routines.Qe(width=w, height=h, wavelength=np.array([540.])),
              K_min=ctx.logu(.001, .1), K_steps=ctx.size(1, 60), blackoffset_steps=ctx.size(1, 60))
    kw['K_max'] = kw['K_min'] * ctx.logu(1, 100)
    ks = np.linspace(kw['K_min'], kw['K_max'], kw['K_steps'])
    kw['K'], kind = request(ctx, ks)
    full = 2 ** bits - 1
    kw['blackoffset'] = ctx.pick([0, 0, 0., ctx.uniform(0, full / 16.), full])
    g = dict(steps=2, L=3)
    if ctx.chance(.5):
        g['exposure_fixed'] = ctx.logu(1e6, 1e8)
    ctx.note(kind=kind, **{k: v for k, v in dict(g, **kw).items() if k != 'qe'})
    cam = DatasetGenerator(outdir=ctx.tmp, **dict(g, **kw)).cam
    nearest(ctx, cam.K, kw['K'], ks, 'gain of the data set')
    nearest(ctx, cam.blackoffset, kw['blackoffset'], cam.blackoffsets, 'black offset of the data set')
    ctx.sig(kind, bits, kw['K_steps'], kw['blackoffset_steps'], len(g))
