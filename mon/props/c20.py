"""C20: simulated images are valid images of the configured camera."""
import numpy as np

from mon import cams
from mon.core import Property

P = Property('C20', 'case = random camera configuration with a series of grabs from darkness to far above saturation; non-trivial = '
             'limits of every pixel checked and the mean level compared with an independent model of the configured camera, '
             'distinct by bit depth, size, limiting stage (full scale or full well) and light level')


def random_spec(ctx, low=1, **kw):
    """Mostly 1 to 16 bit and a small dark signal; now and then more of either."""
    spec = cams.Spec(ctx, bits=ctx.int(17, 32) if ctx.chance(.2) else ctx.int(low, 16, const=0), **kw)
    if ctx.chance(.1):
        spec.kw['dark_signal_0'] = ctx.pick([1, ctx.uniform(.3, 1.7), ctx.uniform(.9, 1.1)]) * spec.kw['u_esat']
        ctx.ev('large dark signal')
    if spec.bits > 16:
        ctx.ev('deep images')
    return spec


def valid(ctx, spec, cam, img):
    ctx.check(isinstance(img, np.ndarray), 'an image array')
    ctx.eq(img.shape, (spec.h, spec.w_), 'height and width of the image')
    if spec.bits <= 16:
        ctx.eq(str(img.dtype), 'uint8' if spec.bits <= 8 else 'uint16', 'type of the image')
    else:
        ctx.check(img.dtype.kind in 'ui' and np.iinfo(img.dtype).max >= spec.max, 'type of the image', got=img.dtype)
    ctx.check(int(img.max()) <= spec.max, 'value above full scale', got=img.max(), limit=spec.max)
    lim = cam.K * spec.kw['u_esat'] + cam.blackoffset
    ctx.check(float(img.max()) <= lim + 1.0 + 1e-9 * lim, 'value above the full well', got=img.max(), limit=lim)
    low = min(cam.blackoffset, spec.max)
    ctx.check(float(img.min()) >= low - 1.0, 'value below the black offset', got=img.min(), limit=low)
    ctx.ev('images')


LEVELS = [0, 0, .01, .1, .5, .9, 1., 1.2, 2., 10., 1e3, 1e6]


@P.scenario(quick=3000, must=['images', 'deep images', 'large dark signal'])
def limits(ctx):
    spec = random_spec(ctx)
    ctx.note(**spec.note())
    cam = spec.make()
    for _ in range(ctx.int(1, 4, const=0)):
        u = ctx.pick(LEVELS)
        rad = spec.radiance_for(u * spec.kw['u_esat'])
        form = ctx.pick(['scalar', 'wave', 'cube'])
        if form == 'wave':
            rad = np.full(len(spec.w), rad)
        elif form == 'cube':
            rad = np.full((spec.h, spec.w_, len(spec.w)), rad)
        if ctx.chance(.3):
            cam.K = ctx.uniform(.5, 1.5) * spec.kw['K']
        if ctx.chance(.3):
            cam.blackoffset = ctx.uniform(0, .3) * spec.max
        if ctx.chance(.2):
            spec.kw['exposure'] = cam.exposure = ctx.logu(1e3, 1e9)
            rad = spec.radiance_for(u * spec.kw['u_esat'])
        img = cam.grab(rad)
        valid(ctx, spec, cam, img)
        lim = cam.K * spec.kw['u_esat'] + cam.blackoffset
        ctx.sig(spec.bits, spec.h, spec.w_, u, lim > spec.max)


@P.scenario(quick=1500, must=['images', 'dark', 'bright'])
def ends(ctx):
    """Darkness gives the dark level, overwhelming light the full scale or the full well."""
    spec = random_spec(ctx)
    ctx.note(**spec.note())
    cam = spec.make()
    # every pixel that sees light at all is driven far into saturation
    fac = float(np.min(spec.light(1.0)) / np.mean(spec.light(1.0)))
    if fac > 1e-3:
        e = 1e3 * spec.kw['u_esat'] / fac + 10 * abs(float(np.min(spec.dsnu())))
        img = cam.grab(spec.radiance_for(e))
        valid(ctx, spec, cam, img)
        top = cam.K * spec.kw['u_esat'] + cam.blackoffset
        want = min(top, spec.max)
        ctx.check(np.all(np.abs(img.astype(float) - want) <= 1.0), 'overwhelming light', got=img, want=want,
                  full_scale=spec.max, full_well=top)
        ctx.ev('bright')
        ctx.sig('bright', spec.bits, top > spec.max)
    level(ctx, spec, cam, 0.0)
    ctx.ev('dark')


def level(ctx, spec, cam, rad, what='mean image', **over):
    """Mean of the grabbed images against the mean of an independent model of the same camera."""
    n = max(4, int(3000 // (spec.h * spec.w_)))
    imgs = [cam.grab(rad) for _ in range(n)]
    for i in range(0, n, max(1, n // 3)):
        valid(ctx, spec, cam, imgs[i])
    imgs = np.array(imgs, dtype=float)
    refs = spec.sample(ctx.rng, cam.K, cam.blackoffset, rad, n, **over)
    refs = np.clip(refs, 0, spec.max)
    got, want = imgs.mean(), refs.mean()
    # temporal noise of the mean, taken per pixel so that structure does not count
    sd = np.sqrt((np.mean(np.var(imgs, axis=0)) + np.mean(np.var(refs, axis=0)) + 1.0) / (n * spec.h * spec.w_))
    # the rounding noise is cut off at the ends of the range: up to one eighth of a grey value each
    ctx.check(abs(got - want) <= 8 * sd + .13 + 1e-9 * want, what, got=got, want=want, sd=sd, n=n)
    ctx.ev('levels')
    return got, sd


@P.scenario(quick=1000, must=['levels', 'deep images', 'large dark signal'])
def anywhere(ctx):
    """Mean level anywhere between darkness and saturation, both clipping stages included."""
    spec = random_spec(ctx, 4)
    ctx.note(**spec.note())
    cam = spec.make()
    u = ctx.uniform(0, 1.5) * min(spec.kw['u_esat'], (spec.max - cam.blackoffset) / cam.K)
    got, _ = level(ctx, spec, cam, spec.radiance_for(u))
    ctx.note(level=got)
    ctx.sig(spec.bits, round(u / spec.kw['u_esat'], 1))


@P.scenario(quick=1000, must=['increases'])
def monotone(ctx):
    """More light, exposure, black offset or gain never lowers the mean image."""
    spec = cams.Spec(ctx, shape=(ctx.int(4, 20), ctx.int(4, 20)))
    cam = spec.make()
    ctx.note(**spec.note())
    what = ctx.pick(['light', 'exposure', 'black', 'gain'])
    rad = spec.radiance_for(ctx.pick([0., .2, .6, .9, 1.1, 3.]) * spec.kw['u_esat'])
    vals = np.sort(ctx.rng.uniform(0, 1.5, 4))
    last = None
    for v in vals:
        if what == 'light':
            imgs = [cam.grab(v * spec.radiance_for(spec.kw['u_esat'])) for _ in range(12)]
        else:
            if what == 'exposure':
                cam.exposure = v * spec.kw['exposure']
            elif what == 'black':
                cam.blackoffset = v * spec.max
            else:
                cam.K = v * spec.kw['K']
            imgs = [cam.grab(rad) for _ in range(12)]
        imgs = np.array(imgs, dtype=float)
        m = imgs.mean()
        sd = np.sqrt((np.mean(np.var(imgs, axis=0)) + .3) / imgs.size)
        if last is not None:
            # a change of the gain moves the rounding noise near zero by up to an eighth
            ctx.check(m >= last[0] - 8 * np.hypot(sd, last[1]) - .13, 'more %s lowers the image' % what, got=m, before=last[0],
                      values=vals, sd=sd)
            ctx.ev('increases')
        last = (m, sd)
    ctx.sig(what, spec.bits, spec.h, spec.w_)
