"""C29: filters, patterns and bad pixels."""
import math

import numpy as np

from emva1288.camera import bad_images, routines
from emva1288.camera.camera import Camera

from mon import cams
from mon.core import Property

P = Property('C29', 'case = random pattern and target size, colour cells and wavelengths, efficiency cubes with filters, numbers of bad '
             'pixels on cameras with random maps; non-trivial = every element compared with the periodic pattern, the normalised '
             'transmission, the product, or the map before; distinct by sizes and kinds')


@P.scenario(quick=12000, must=['tiles'])
def tiles(ctx):
    h, w = ctx.size(1, 40), ctx.size(1, 40)
    if ctx.chance(.4):
        a = ctx.rng.normal(0, 1, ctx.size(1, 30))
        ref = np.array([[a[x % len(a)] for x in range(w)] for _ in range(h)])
        kind = 'row'
    else:
        a = ctx.rng.normal(0, 1, (ctx.size(1, 20), ctx.size(1, 20)))
        if ctx.chance(.3):
            h, w = a.shape[0] * ctx.int(1, 3), a.shape[1] * ctx.int(1, 3)
        ref = np.array([[a[y % a.shape[0], x % a.shape[1]] for x in range(w)] for y in range(h)])
        kind = '2d'
    if ctx.chance(.3):
        a = (a * 1000).astype(ctx.pick(['int64', 'int16', 'uint8', 'bool']))
        ref = np.array([[(a[x % len(a)] if a.ndim == 1 else a[y % a.shape[0], x % a.shape[1]]) for x in range(w)] for y in range(h)])
    ctx.note(pattern=a, height=h, width=w)
    with ctx.unchanged('pattern', a):
        got = routines.get_tile(a, h, w)
    # a single row comes back as a row
    ctx.array_eq(np.reshape(got, (h, w)) if np.size(got) == h * w else got, ref, 'tiled pattern')
    if h > 1:
        ctx.eq(got.shape, (h, w), 'shape of the tiled pattern')
    ctx.ev('tiles', ref.size)
    ctx.sig(kind, a.shape, h, w)


def transmission(w, peak, mu=1000):
    """Poisson shape over wavelengths, relative to its largest value, in logarithms."""
    v = np.asarray(w).astype(int) + (mu - peak)
    ln = np.array([x * math.log(mu) - mu - math.lgamma(x) for x in v])      # sum of log(1..x-1) = lgamma(x)
    return np.exp(ln - ln.max())


@P.scenario(quick=1200, must=['cells'])
def bayer(ctx):
    h, w = ctx.size(1, 24), ctx.size(1, 24)
    n = ctx.int(1, 12, const=0)
    lo = ctx.uniform(350, 600)
    wl = np.linspace(lo, lo + ctx.uniform(20, 300), n)
    if ctx.chance(.3):
        wl = np.sort(ctx.rng.uniform(300, 900, n))
    peaks = [ctx.pick([ctx.uniform(400, 750), ctx.int(400, 750), int(ctx.pick(wl))]) for _ in range(4)]
    ctx.note(wavelengths=wl, peaks=peaks, height=h, width=w)
    with ctx.unchanged('wavelengths', wl):
        f = routines.get_bayer_filter(*peaks, width=w, height=h, w=wl)
    ctx.eq(f.shape, (h, w, n), 'shape of the filter')
    cell = [transmission(wl, int(p)) for p in peaks]
    ref = np.zeros((h, w, n))
    for y in range(h):
        for x in range(w):
            ref[y, x] = cell[2 * (y % 2) + x % 2]
    ctx.close(f, ref, 'filter', rtol=1e-6, atol=1e-290)
    for y in range(min(2, h)):
        for x in range(min(2, w)):
            ctx.eq(float(f[y, x].max()), 1.0, 'peak transmission')
            ctx.array_eq(f[y::2, x::2], np.broadcast_to(f[y, x], f[y::2, x::2].shape), 'repetition of the cell')
            # the largest transmission is at the wavelength nearest to the requested peak
            v = np.abs(wl.astype(int) - int(peaks[2 * y + x]))
            k = int(np.argmax(f[y, x]))
            if v.min() <= 3:        # the shape is skewed: far from the peak sides differ
                ctx.check(v[k] <= v.min() + 1, 'wavelength of the peak', got=wl[k], want=peaks[2 * y + x])
    ctx.ev('cells', -(-h // 2) * -(-w // 2))
    ctx.sig(h, w, n, [int(p) for p in peaks])


@P.scenario(quick=8000, must=['products', 'refusals'])
def efficiency(ctx):
    h, w, n = ctx.size(1, 12), ctx.size(1, 12), ctx.int(1, 6, const=0)
    wl = np.linspace(450, 650, n)
    q = ctx.rng.uniform(0, ctx.pick([1, 1, 1, 100.]), (h, w, n))
    how = ctx.pick(['none', 'filter', 'zeros', 'int', 'default'])
    f = None
    if how in ('filter', 'default'):
        f = ctx.rng.uniform(0, 1, (h, w, n))
        if ctx.chance(.3):
            f = ctx.rng.uniform(0, 1, n)
        if ctx.chance(.3):
            f = f * ctx.logu(.01, 100)                      # not in relative units
    elif how == 'zeros':
        f = (ctx.rng.random((h, w, n)) < .5).astype(float)
    elif how == 'int':
        q = np.ones((h, w, n), dtype=int)
        f = ctx.rng.uniform(0, 1, (h, w, n))
    ctx.note(shape=(h, w, n), kind=how)
    if how == 'default':
        plain = routines.Qe(width=w, height=h, wavelength=wl).qe
        ctx.eq(plain.shape, (h, w, n), 'shape of the simulated efficiency')
        ctx.check(np.all((plain >= 0) & (plain <= 1)), 'simulated efficiency outside 0..1', got=plain)
        got = routines.Qe(width=w, height=h, wavelength=wl, filter=f)
        ctx.close(got.qe, plain * f, 'simulated efficiency with filter', rtol=1e-13)
        ctx.array_eq(routines.Qe(width=w, height=h, wavelength=wl).qe, plain, 'a filter stays in the simulated efficiency')
    else:
        with ctx.unchanged('arrays passed in', q, wl, f):
            got = routines.Qe(qe=q, wavelength=wl, width=w, height=h, filter=f)
            ctx.close(got.qe, q * f if f is not None else q, 'efficiency', rtol=1e-14)
            again = routines.Qe(qe=q, wavelength=wl, width=w, height=h, filter=f)
            ctx.close(again.qe, q * f if f is not None else q, 'efficiency of a second sensor from the same arrays', rtol=1e-14)
    ctx.array_eq(got.w, wl, 'wavelengths')
    ctx.ev('products', q.size)
    # wrong shapes
    bad = list((h, w, n))
    i = int(ctx.rng.integers(3))
    bad[i] += ctx.pick([1, 2, -1]) if bad[i] > 1 else 1
    shapes = [tuple(bad), (h, w), (n,), (h, w, n, 1)] + ([(w, h, n)] if w != h else [])
    s = ctx.pick(shapes)
    ctx.refused(lambda: routines.Qe(qe=np.ones(s), wavelength=wl, width=w, height=h, filter=f if ctx.chance(.5) else None),
                (ValueError,), 'efficiency of shape %s for %s' % (s, (h, w, n)))
    ctx.sig(h, w, n, how, len(s))


@P.scenario(quick=8000, must=['bad'])
def pixels(ctx):
    spec = cams.Spec(ctx, shape=(ctx.size(1, 30), ctx.size(1, 30)))
    if ctx.chance(.3):
        spec.kw['dsnu'] = None
    given = spec.kw.get('dsnu')
    if given is not None:
        how = ctx.pick(['', '', '', 'fortran', 'integer', 'single', 'fixed'])
        if how == 'fortran':
            given = np.asfortranarray(given)
        elif how == 'integer':
            given = np.rint(given).astype(ctx.pick([np.int64, np.int32, np.int16]))
        elif how == 'single':
            given = given.astype(np.float32)
        elif how == 'fixed':
            given = given.copy()
            given.flags.writeable = False
        spec.kw['dsnu'] = given
    # the camera and a second one are made from the same array
    cam = Camera(**dict(spec.kw, qe=routines.Qe(qe=spec.qe, wavelength=spec.w, width=spec.w_, height=spec.h)))
    other = Camera(**dict(spec.kw, qe=routines.Qe(qe=spec.qe, wavelength=spec.w, width=spec.w_, height=spec.h)))
    kept, others = (None if given is None else given.copy()), np.array(other.DSNU)
    ctx.note(**spec.note())
    k = spec.kw
    N = spec.h * spec.w_
    prnu = cam._prnu.copy() if hasattr(cam, '_prnu') else None
    for _ in range(ctx.int(1, 3, const=0)):
        before = np.array(cam.DSNU)
        st = cams.state(cam)
        n = ctx.pick([0, 1, 2, ctx.size(1, max(1, N)), N, N // 2])
        n = min(n, N)
        frac = ctx.pick([1, .5, ctx.uniform(.01, 1), 0, None, 'none'])
        want = k['u_esat'] * (1 if frac in (None, 'none') else frac)
        if frac is None:
            bad_images.bad_pixel(cam, n)
        elif frac == 'none':
            # full well, as documented
            bad_images.bad_pixel(cam, n, ctx.pick([None])) if ctx.chance(.5) else bad_images.bad_pixel(cam, n, bad_value=None)
        else:
            bad_images.bad_pixel(cam, n, frac) if ctx.chance(.5) else bad_images.bad_pixel(cam, num_bad_pixel=n, bad_value=frac)
        after = np.array(cam.DSNU)
        ctx.eq(after.shape, before.shape, 'shape of the map')
        hit = after == want
        ctx.check(np.all(hit | (after == before)), 'a bad pixel has another value, or another pixel changed', want=want,
                  values=after[~(hit | (after == before))][:5])
        changed = after != before
        # pixels that already had this value may be chosen again
        had = int(np.sum(before == want))
        ctx.check(n - had <= int(changed.sum()) <= n, 'number of changed pixels', got=changed.sum(), want=n, already=had)
        for key in st:
            if key == 'DSNU':
                continue
            ctx.check(np.array_equal(st[key], cams.state(cam)[key]) if isinstance(st[key], np.ndarray) else st[key] == cams.state(cam)[key],
                      'bad pixels change %s' % key)
        if prnu is not None:
            ctx.array_eq(cam._prnu, prnu, 'bad pixels change the light sensitivity')
        if kept is not None:
            ctx.check(given.dtype == kept.dtype and np.array_equal(given, kept), 'bad pixels change the array given for the nonuniformity')
        ctx.array_eq(np.array(other.DSNU), others, 'bad pixels of another camera')
        ctx.ev('bad', n)
        ctx.sig(spec.h, spec.w_, n, frac is None)


@P.scenario(quick=2000, must=['visible'])
def images(ctx):
    """Bad pixels show in the images, and only they do."""
    spec = cams.Spec(ctx, shape=(ctx.int(3, 12), ctx.int(3, 12)), bits=ctx.int(8, 16, const=0), dsnu=None)
    k = spec.kw
    full = k['u_esat'] = ctx.logu(2000, 50000)
    K = spec.max / full * .8
    k.update(K=K, K_min=K, K_max=K * 2, K_steps=5, blackoffset=0, dark_signal_0=.05 * full, sigma2_dark_0=(.003 * full) ** 2,
             dark_current_ref=0)
    cam = spec.make()
    ctx.note(**spec.note())
    N = spec.h * spec.w_
    n = ctx.int(1, max(1, N // 3), const=0)
    bad_images.bad_pixel(cam, n, ctx.pick([1, .7]))
    img = cam.grab(0.0).astype(float)
    seen = int(np.sum(img > .4 * full * cam.K))
    ctx.eq(seen, n, 'bright pixels in a dark image')
    ctx.check(np.all((img > .4 * full * cam.K) == (cam.DSNU > .4 * full)), 'places of the bright pixels')
    ctx.ev('visible', n)
    ctx.sig(spec.h, spec.w_, n)


@P.scenario(quick=400, must=['mosaic'])
def mosaic(ctx):
    """A camera behind a Bayer filter: every colour sees its own transmission of the light."""
    h, w = ctx.int(2, 11, const=0), ctx.int(2, 11, const=0)
    n = ctx.int(2, 5, const=0)
    wl = np.linspace(450, 650, n)
    f = routines.get_bayer_filter(530, ctx.pick([610, 640]), ctx.pick([460, 480]), 530, w, h, wl)
    full = 50000.
    base = routines.Qe(width=w, height=h, wavelength=wl).qe
    qe = routines.Qe(width=w, height=h, wavelength=wl, filter=f)
    cam = Camera(width=w, height=h, qe=qe, bit_depth=12, K=4095 / full, K_min=4095 / full, K_max=1, u_esat=full,
                 dark_current_ref=0, dark_signal_0=0, sigma2_dark_0=0, seed=ctx.int(1, 10 ** 6))
    p = np.asarray(cams.photons(1., cam.exposure, cam.pixel_area, wl, 8), dtype=float)
    e = np.sum(p * base * f, axis=2)
    rad = .8 * full / e.max()
    st = np.array([cam.grab(rad) for _ in range(20)], dtype=float)
    want = e * rad * cam.K
    sd = np.sqrt((cam.K ** 2 * e * rad + .3) / 20)
    ctx.check(np.all(np.abs(st.mean(axis=0) - want) <= 8 * sd + .6), 'mosaic image', got=st.mean(axis=0), want=want)
    ctx.ev('mosaic')
    ctx.sig(h, w, n)
