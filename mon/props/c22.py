"""C22: photon and radiance conversions."""
import numpy as np

from emva1288.camera import routines

from mon import cams
from mon.core import Property

P = Property('C22', 'case = random exposure, pixel area, f-number, wavelengths, radiances, cameras and targets; non-trivial = conversions '
             'compared with the physical formula in extended precision, with their inverse, and target levels with the light they '
             'produce, distinct by shapes, options and targets')


def params(ctx):
    nw = ctx.int(1, 8, const=0)
    w = np.sort(ctx.rng.uniform(200, 1100, nw))
    return dict(exposure=ctx.logu(1, 1e11), pixel_area=ctx.logu(.1, 1000), f_number=ctx.logu(.1, 64)), w


def values(ctx, nw):
    kind = ctx.pick(['scalar', 'zero', 'wave', 'cube', 'big'])
    if kind == 'scalar':
        return ctx.logu(1e-12, 1e6), kind
    if kind == 'zero':
        return 0.0, kind
    if kind == 'wave':
        return ctx.rng.uniform(0, 1, nw) * ctx.logu(1e-9, 1e3), kind
    s = (ctx.int(1, 6), ctx.int(1, 6), nw)
    x = ctx.rng.uniform(0, 1, s) * ctx.logu(1e-9, 1e3)
    x[ctx.rng.random(s) < .1] = 0
    return x, kind


@P.scenario(quick=16000, must=['conversions'])
def formulas(ctx):
    p, w = params(ctx)
    v, kind = values(ctx, len(w))
    ctx.note(wavelengths=w, value=v, kind=kind, **p)
    with ctx.unchanged('arguments', w, v):
        ph = routines.get_photons(radiance=v, wavelength=w, **p)
        ra = routines.get_radiance(photons=v, wavelength=w, **p)
        want = cams.photons(v, p['exposure'], p['pixel_area'], w, p['f_number'])
        one = cams.photons(1.0, p['exposure'], p['pixel_area'], w, p['f_number'])
        ctx.close(ph, want, 'photons against the physical formula', rtol=1e-10)
        ctx.close(ra, np.asarray(v) / one, 'radiance against the physical formula', rtol=1e-10)
        full = np.broadcast_to(np.asarray(v, dtype=float), np.shape(ph))
        ctx.close(routines.get_radiance(photons=ph, wavelength=w, **p), full, 'photons and back', rtol=1e-11)
        ctx.close(routines.get_photons(radiance=ra, wavelength=w, **p), full, 'radiance and back', rtol=1e-11)
    # proportional to radiance, exposure and area
    a = ctx.logu(.01, 100)
    ctx.close(routines.get_photons(radiance=np.asarray(v) * a, wavelength=w, **p), ph * a, 'photons proportional to radiance', rtol=1e-11)
    for k in ('exposure', 'pixel_area'):
        q = dict(p)
        q[k] *= a
        ctx.close(routines.get_photons(radiance=v, wavelength=w, **q), ph * a, 'photons proportional to ' + k, rtol=1e-11)
    if len(w) == 1:
        ctx.close(routines.get_photons(p['exposure'], v, p['pixel_area'], float(w[0]), p['f_number']), np.ravel(ph)[0] if np.ndim(v) == 0 else np.asarray(ph),
                  'scalar wavelength', rtol=1e-12)
    ctx.ev('conversions', 6)
    ctx.sig(kind, len(w), round(np.log10(p['exposure'])), round(p['f_number'], 1))


@P.scenario(quick=10000, must=['conversions'])
def of_camera(ctx):
    """A camera converts with its own exposure, area, wavelengths and f-number unless told otherwise."""
    spec = cams.Spec(ctx)
    k = spec.kw
    cam = spec.make()
    ctx.note(**spec.note())
    before = cams.state(cam)
    v, kind = values(ctx, len(spec.w))
    if kind == 'cube':
        v = ctx.rng.uniform(0, 1, (spec.h, spec.w_, len(spec.w)))
    for _ in range(4):
        kw, t, f = {}, cam.exposure, cam.environment['f_number']
        if ctx.chance(.5):
            t = kw['exposure'] = ctx.pick([ctx.logu(1, 1e10), k['exposure_min'], k['exposure_max'], 1, 0, 1.0])
        if ctx.chance(.5):
            f = kw['f_number'] = ctx.pick([ctx.logu(.1, 60), 1, 0, 0.0])
        with ctx.unchanged('camera', before['qe'], v):
            got = cam.get_photons(v, **kw)
        ctx.close(got, cams.photons(v, t, k['pixel_area'], spec.w, f), 'photons of the camera', rtol=1e-10, given=kw)
        ctx.eq(str(sorted(cams.state(cam)['environment'].items())), str(sorted(before['environment'].items())), 'environment after a conversion')
        ctx.eq(cam.exposure, before['exposure'], 'exposure after a conversion')
        ctx.ev('conversions')
        ctx.sig(kind, sorted(kw))
        if ctx.chance(.5):
            before['exposure'] = cam.exposure = ctx.logu(1e3, 1e9)
        if ctx.chance(.5):
            before['environment']['f_number'] = cam.environment['f_number'] = ctx.logu(.5, 30)


@P.scenario(quick=10000, must=['targets'])
def target(ctx):
    """The radiance for a level gives the electrons that make this level."""
    spec = cams.Spec(ctx)
    k = spec.kw
    cam = spec.make()
    ctx.note(**spec.note())
    for _ in range(3):
        if ctx.chance(.4):
            cam.exposure = ctx.logu(k['exposure_min'], k['exposure_max'])
        if ctx.chance(.4):
            cam.K = ctx.uniform(.3, 3) * k['K']
        if ctx.chance(.4):
            cam.environment['f_number'] = ctx.logu(.5, 30)
        if ctx.chance(.4):
            cam.environment['temperature'] = ctx.uniform(-20, 60)
        kw, t, mean = {}, cam.exposure, spec.max
        if ctx.chance(.5):
            t = kw['exposure'] = ctx.pick([ctx.logu(k['exposure_min'], k['exposure_max']), k['exposure_min'], k['exposure_max'],
                                              k['exposure_max'] * ctx.uniform(1, 3), k['exposure_min'] * ctx.uniform(.3, 1)])
        if ctx.chance(.5):
            mean = kw['mean'] = ctx.uniform(.001, 1.5) * spec.max
        before = cams.state(cam)
        rad = cam.get_radiance_for(**kw)
        after = cams.state(cam)
        for key in before:
            ctx.array_eq(after[key], before[key], 'camera changed by get_radiance_for: ' + key) if key != 'environment' else \
                ctx.eq(after[key], before[key], 'environment changed')
        ctx.eq(np.shape(rad), (spec.h, spec.w_, len(spec.w)), 'shape of the radiance')
        f = cam.environment['f_number']
        th = spec.thermal(t, cam.environment['temperature'])
        ph = np.asarray(cams.photons(rad, t, k['pixel_area'], spec.w, f), dtype=float)
        e = np.sum(ph * spec.qe, axis=2).mean()
        ctx.close((e + th) * cam.K, mean, 'level reached', rtol=1e-9, atol=1e-9 * th * cam.K, given=kw, K=cam.K, thermal=th)
        # and through the camera's own conversion
        own = np.sum(cam.get_photons(rad, exposure=t) * cam.qe.qe, axis=2).mean()
        ctx.close((own + th) * cam.K, mean, 'level reached with the conversion of the camera', rtol=1e-9, atol=1e-9 * th * cam.K)
        # the same light for every pixel and the same number of photons at every wavelength
        ctx.close(ph, np.full(ph.shape, ph.mean()), 'photons over pixels and wavelengths', rtol=1e-9)
        ctx.ev('targets')
        ctx.sig(sorted(kw), spec.bits, len(spec.w), round(mean / spec.max, 1))


@P.scenario(quick=1500, must=['reached'])
def seen(ctx):
    """Grabbing under the computed radiance makes the level, above the dark offset."""
    spec = cams.Spec(ctx, shape=(ctx.int(3, 8), ctx.int(3, 8)), bits=ctx.int(8, 16, const=0), dsnu=None, prnu=None)
    k = spec.kw
    k['u_esat'] = 1e9
    k['dark_signal_0'] = ctx.uniform(10, 50)
    k['sigma2_dark_0'] = ctx.uniform(1, 1)
    full = ctx.logu(2000, 50000)
    K = spec.max / full
    k.update(K=K, K_min=K * .5, K_max=K * 2, blackoffset=0, blackoffset_max=spec.max * .1)
    k['dark_current_ref'] = spec.ref_for(ctx.uniform(0, 100))
    cam = spec.make()
    ctx.note(**spec.note())
    frac = ctx.uniform(.1, .6)
    mean = frac * spec.max
    t = ctx.pick([None, k['exposure_min'] * 2, k['exposure_max'] * .5])
    th = spec.thermal(t)
    if th * cam.K > .8 * mean or th > 1e6:
        k['dark_current_ref'] = 0
        cam = spec.make()
        th = 0.0
    # the brightest pixel stays below full scale
    peak = np.max(np.sum(spec.qe, axis=2)) / np.mean(np.sum(spec.qe, axis=2))
    if peak * frac > .85:
        mean *= .85 / (peak * frac)
        if th * cam.K > .8 * mean:
            k['dark_current_ref'] = 0
            cam = spec.make()
            th = 0.0
    rad = cam.get_radiance_for(mean=mean, exposure=t)
    if t is not None:
        cam.exposure = t
    n = 60
    imgs = np.array([cam.grab(rad) for _ in range(n)], dtype=float)
    want = mean + cam.K * k['dark_signal_0'] + cam.blackoffset
    sd = np.sqrt((np.mean(np.var(imgs, axis=0)) + .3) / imgs.size)
    ctx.check(abs(imgs.mean() - want) <= 8 * sd + 1e-6 * want, 'level of the grabbed images', got=imgs.mean(), want=want, sd=sd)
    ctx.ev('reached')
    ctx.sig(spec.bits, round(frac, 1), t is None)
