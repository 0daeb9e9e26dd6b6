"""C21: simulated pixels obey the linear camera model in mean and variance."""
import numpy as np

from mon import cams
from mon.core import Property

P = Property('C21', 'case = random camera in its linear range (margins of 9 sigma to every clipping stage), stack of images of one scene; '
             'non-trivial = per-pixel mean and variance over the stack compared with the model, distinct by configuration, '
             'light level and options of the grab')

Z = 8.5


def linear_camera(ctx, shape=None, n=None, **fixed):
    """A camera with room for signals: returns spec and usable electron range."""
    spec = cams.Spec(ctx, shape=shape or (ctx.int(1, 9, const=0), ctx.int(1, 9, const=0)), bits=ctx.int(8, 16, const=0), **fixed)
    k = spec.kw
    k['sigma2_dark_0'] = ctx.logu(1, 60)
    full = k['u_esat'] = ctx.logu(3000, 60000)
    K = spec.max / (full * ctx.logu(1.1, 3))
    k.update(K=K, K_min=K * ctx.uniform(.3, 1), K_max=K * ctx.uniform(1, 3))
    k['dark_current_ref'] = spec.ref_for(ctx.logu(1, 300))
    scale = np.sqrt(k['sigma2_dark_0'] + 300)
    if k.get('dsnu') is not None:
        k['dsnu'] = ctx.rng.normal(0, ctx.pick([1, 10, 40]), (spec.h, spec.w_))
        if ctx.chance(.3):
            # strong outliers: pixels darker than the dark signal have enough light only
            for _ in range(ctx.int(1, 3)):
                k['dsnu'][ctx.int(0, spec.h - 1), ctx.int(0, spec.w_ - 1)] = ctx.pick([-1, -.2, 1, .2]) * ctx.uniform(.05, .2) * full
    # keep the dark level off zero electrons
    low = float(np.median(spec.dsnu())) - 60 if ctx.chance(.5) else float(np.min(spec.dsnu()))
    k['dark_signal_0'] = 10 * np.sqrt(k['sigma2_dark_0']) + max(0, -low) + ctx.uniform(0, 50)
    k['blackoffset_max'] = spec.max * .1
    k['blackoffset'] = spec.max * ctx.uniform(0, .1)
    return spec, scale


def top(spec, cam):
    return min(spec.kw['u_esat'], (spec.max - cam.blackoffset - 1) / cam.K)


def scene(ctx, spec, cam, frac, exposure=None, f=None, thermal=0.0):
    """Random radiance (scalar, per wavelength, or per pixel) with every pixel below frac of the range."""
    kind = ctx.pick(['scalar', 'wave', 'cube'])
    if kind == 'scalar':
        r = 1.0
    elif kind == 'wave':
        r = ctx.rng.uniform(0, 1, len(spec.w)) + .01
    else:
        r = ctx.rng.uniform(0, 1, (spec.h, spec.w_, len(spec.w)))
    peak = float(np.max(spec.light(r, exposure=exposure, f=f)))
    room = frac * top(spec, cam) - float(np.max(spec.dsnu())) - spec.kw['dark_signal_0'] - thermal
    if room <= 0 or peak <= 0:
        return None, kind
    return r * (room / peak), kind


def verify(ctx, spec, cam, rad, n, exposure=None, temperature=None, f=None, grab={}):
    """Grab a stack and compare every pixel with the model."""
    th = spec.thermal(exposure, temperature)
    li = spec.light(rad, exposure, f)
    K, bo, k = cam.K, cam.blackoffset, spec.kw
    mu_e = th + li + k['dark_signal_0'] + spec.dsnu()
    var_e = th + li + k['sigma2_dark_0']
    sd_e = np.sqrt(var_e)
    # Poisson counts do not go below zero; only the normal part can
    if np.any(mu_e + 9 * sd_e > top(spec, cam)) or \
            np.any(mu_e - 9 * np.sqrt(var_e + 9) < 0) and \
            np.any(k['dark_signal_0'] + spec.dsnu() - 9 * np.sqrt(k['sigma2_dark_0']) < 0):
        ctx.ev('outside_linear_range')
        return False
    st = np.array([cam.grab(rad, **grab) for _ in range(n)], dtype=float)
    mu, var = K * mu_e + bo, K * K * var_e
    # whatever a correct quantiser adds: between nothing and a quarter of a grey value squared
    sd_mean = np.sqrt((var + .25) / n)
    m = st.mean(axis=0)
    bad = np.abs(m - mu) > Z * sd_mean + .02 + 1e-9 * mu
    if k['sigma2_dark_0'] * K * K < .2:
        bad = np.abs(m - mu) > Z * sd_mean + .51        # a quantiser without dither is only right to rounding
    ctx.check(not np.any(bad), 'mean of a pixel', got=m[bad][:5], want=mu[bad][:5], at=np.argwhere(bad)[:5].tolist(),
              sd=sd_mean[bad][:5], K=K, thermal=th, light=li[bad][:5])
    # overall mean: much sharper
    tot = abs(m.mean() - mu.mean())
    ctx.check(tot <= Z * np.sqrt(np.mean(var + .25) / st.size) + (.02 if K * K * k['sigma2_dark_0'] >= .2 else .51) + 1e-9 * mu.mean(),
              'mean of the image', got=m.mean(), want=mu.mean(), K=K, thermal=th)
    v = st.var(axis=0, ddof=1)
    # relative standard error of a variance, Poisson excess kurtosis included
    kurt = (th + np.maximum(li, 0)) / var_e ** 2
    rel = np.sqrt((2.0 / (n - 1)) + kurt / n)
    lo, hi = var, var + .25
    badv = (v < lo * (1 - 1.3 * Z * rel) - .02) | (v > hi * (1 + 1.7 * Z * rel) + .02)
    ctx.check(not np.any(badv), 'temporal variance of a pixel', got=v[badv][:5], low=lo[badv][:5], high=hi[badv][:5], K=K, n=n)
    # all pixels together
    r = float(np.mean(v / (var + .25 / 2)))
    relm = float(np.sqrt(np.mean(rel ** 2) / v.size))
    q_lo = 1 / 12. if np.all(var > .3) else 0.0
    q_hi = .2 if np.all(var > .3) else .25
    lo_r = float(np.mean((var + q_lo) / (var + .125))) - Z * relm * 1.5 - .003
    hi_r = float(np.mean((var + q_hi) / (var + .125))) + Z * relm * 1.5 + .003
    ctx.check(lo_r <= r <= hi_r, 'temporal variance of the image', got=r, low=lo_r, high=hi_r, K=K, thermal=th, var=var.mean())
    # noise is independent from pixel to pixel and from image to image
    x = (st - m) / np.sqrt(v + 1e-12)
    N = st.size
    if st.shape[1] * st.shape[2] >= 2 and N > 2000:
        y = x.reshape(n, -1)
        for a, b, w in ((y[:, 1:], y[:, :-1], 'pixels'), (y[1:], y[:-1], 'images')):
            c = float(np.mean(a * b))
            ctx.check(abs(c) <= Z / np.sqrt(a.size) + 1.5 / n, 'noise of neighbouring %s is correlated' % w, got=c)
    ctx.ev('pixels', st[0].size)
    ctx.ev('stacks')
    return True


@P.scenario(quick=2500, must=['stacks'])
def pixels(ctx):
    """Mean and variance of every pixel at any light level."""
    spec, _ = linear_camera(ctx)
    cam = spec.make()
    ctx.note(**spec.note())
    rad, kind = scene(ctx, spec, cam, ctx.uniform(.02, .75), thermal=spec.thermal())
    if rad is None:
        rad, kind = 0.0, 'dark'
    if verify(ctx, spec, cam, rad, ctx.pick([100, 300, 600])):
        ctx.sig(spec.bits, spec.h, spec.w_, len(spec.w), kind, 'prnu' in spec.kw, 'dsnu' in spec.kw)


@P.scenario(quick=500, must=['stacks'])
def dark(ctx):
    """Thermal electrons: exposure and temperature, also temperatures given with a grab."""
    spec, _ = linear_camera(ctx)
    k = spec.kw
    cam = spec.make()
    ctx.note(**spec.note())
    done = 0
    for _ in range(6):
        t = k['exposure'] * ctx.logu(.05, 20)
        T = k['temperature'] + k['temperature_doubling'] * ctx.uniform(-3, 4)
        how = ctx.pick(['env', 'arg', 'zero'])
        cam.exposure = t
        if how == 'env':
            cam.environment['temperature'] = T
            ok = verify(ctx, spec, cam, 0.0, 150, exposure=t, temperature=T)
        else:
            if how == 'zero':
                T = ctx.pick([0, 0.0])
            before = dict(cam.environment)
            ok = verify(ctx, spec, cam, 0.0, 150, exposure=t, temperature=T, grab={'temperature': T})
            ctx.eq(cam.environment, before, 'a temperature given with a grab stays with the camera')
            if ok:
                # the next grab without it is back at the temperature of the environment
                verify(ctx, spec, cam, 0.0, 100, exposure=t, temperature=before['temperature'])
        if ok:
            done += 1
            ctx.sig(how, round(np.log2(t / k['exposure'])), round((T - k['temperature_ref']) / k['temperature_doubling']))
    if not done:
        spec.kw['dark_current_ref'] = 0
        verify(ctx, spec, spec.make(), 0.0, 100)


@P.scenario(quick=500, must=['stacks'])
def optics(ctx):
    """Light electrons: exposure, f-number of the environment or of the grab, wavelengths."""
    spec, _ = linear_camera(ctx)
    k = spec.kw
    cam = spec.make()
    ctx.note(**spec.note())
    for _ in range(3):
        t = k['exposure'] * ctx.logu(.1, 5)
        f = ctx.logu(.5, 30)
        cam.exposure = t
        how = ctx.pick(['env', 'arg'])
        before = dict(cam.environment)
        if how == 'env':
            cam.environment['f_number'] = f
            before = dict(cam.environment)
            rad, kind = scene(ctx, spec, cam, ctx.uniform(.1, .75), exposure=t, f=f, thermal=spec.thermal(t))
            if rad is None:
                continue
            ok = verify(ctx, spec, cam, rad, 120, exposure=t, f=f)
        else:
            rad, kind = scene(ctx, spec, cam, ctx.uniform(.1, .75), exposure=t, f=f, thermal=spec.thermal(t))
            if rad is None:
                continue
            ok = verify(ctx, spec, cam, rad, 120, exposure=t, f=f, grab={'f_number': f})
            f0 = before['f_number']
            rad, kind = scene(ctx, spec, cam, ctx.uniform(.1, .75), exposure=t, f=f0, thermal=spec.thermal(t))
            if rad is not None:
                verify(ctx, spec, cam, rad, 80, exposure=t, f=f0)
        ctx.eq(cam.environment, before, 'environment after a grab')
        if ok:
            ctx.sig(how, kind, round(f), len(spec.w))


@P.scenario(quick=500, must=['stacks'])
def settings(ctx):
    """Gain, black offset and nonuniformity changed during the life of a camera."""
    spec, _ = linear_camera(ctx)
    k = spec.kw
    cam = spec.make()
    ctx.note(**spec.note())
    for _ in range(4):
        what = ctx.pick(['K', 'blackoffset', 'DSNU'])
        if what == 'K':
            cam.K = ctx.uniform(.3, 2) * k['K']
        elif what == 'blackoffset':
            cam.blackoffset = ctx.uniform(0, .1) * spec.max
        else:
            d = ctx.rng.normal(0, 20, (spec.h, spec.w_))
            d += max(0, -float((d + k['dark_signal_0'] - 9.5 * np.sqrt(k['sigma2_dark_0'])).min()))
            k['dsnu'] = d
            cam.DSNU = d.copy()
        rad, kind = scene(ctx, spec, cam, ctx.uniform(.1, .75), thermal=spec.thermal())
        if rad is None:
            rad = 0.0
        if verify(ctx, spec, cam, rad, 100):
            ctx.sig(what, kind, spec.bits)


@P.scenario(quick=600, must=['distributions', 'empty', 'full', 'dark end', 'bright end'])
def limits(ctx):
    """Where the well is empty or full, or the grey values end: the distribution is that of the clipped model."""
    spec = cams.Spec(ctx, shape=(ctx.int(4, 12, const=0), ctx.int(4, 12, const=0)), bits=ctx.int(4, 16, const=0))
    k = spec.kw
    full = k['u_esat'] = ctx.logu(50, 30000)
    K = spec.max / (full * ctx.logu(.3, 3))
    k.update(K=K, K_min=K * ctx.uniform(.3, 1), K_max=K * ctx.uniform(1, 3))
    k['sigma2_dark_0'] = ctx.pick([ctx.logu(.1, 30), (full * ctx.logu(.001, .3)) ** 2])
    k['dark_signal_0'] = ctx.pick([0., ctx.uniform(-.3, .3) * full, ctx.uniform(-30, 30)])
    k['dark_current_ref'] = spec.ref_for(ctx.logu(.1, .2 * full))
    kind = ctx.pick(['none', 'constant', 'constant', 'map'])
    k.pop('dsnu', None)
    if kind != 'none':
        k['dsnu'] = np.full((spec.h, spec.w_), ctx.uniform(-.3, .3) * full)
        if kind == 'map':
            k['dsnu'] = k['dsnu'] + ctx.rng.normal(0, .1 * full, (spec.h, spec.w_))
    cam = spec.make()
    ctx.note(dsnu_kind=kind, **spec.note())
    rad = 0.0 if ctx.chance(.4) else spec.radiance_for(full * ctx.logu(.01, 3))
    n = max(10, 6000 // (spec.h * spec.w_))
    got = np.array([cam.grab(rad) for _ in range(n)], dtype=float)
    want = np.clip(spec.sample(ctx.rng, cam.K, cam.blackoffset, rad, 3 * n), 0, spec.max)
    a, b = np.sort(got.ravel()), np.sort(want.ravel())
    # between any two grey values, whatever the quantiser
    x = np.unique(np.concatenate([np.quantile(b, np.linspace(0, 1, 21)), [0, spec.max, cam.blackoffset, cam.K * full + cam.blackoffset]]))
    x = np.unique(np.concatenate([np.floor(x) - 1, np.floor(x), np.floor(x) + 1]))
    below = np.searchsorted(a, x, 'right') / a.size
    lo, hi = np.searchsorted(b, x - .51, 'left') / b.size, np.searchsorted(b, x + 1.01, 'right') / b.size
    # counts of Poisson and normal noise: uncertainty of both fractions
    se = np.sqrt((hi * (1 - hi) + lo * (1 - lo) + below * (1 - below) + 3. / a.size) / a.size)
    bad = (below < lo - Z * se) | (below > hi + Z * se)
    ctx.check(not bad.any(), 'fraction of pixels below a grey value', x=x[bad][:5], got=below[bad][:5], low=lo[bad][:5], high=hi[bad][:5],
              K=cam.K, blackoffset=cam.blackoffset, light=float(np.mean(spec.light(rad))), thermal=spec.thermal())
    ctx.ev('distributions')
    e = (want - cam.blackoffset) / cam.K
    for name, v in (('empty', (e < 1e-6).mean()), ('full', (e > full * (1 - 1e-9)).mean()), ('dark end', (want <= 0).mean()), ('bright end', (want >= spec.max).mean())):
        if v > .02:
            ctx.ev(name)
    ctx.sig(spec.bits, kind, rad > 0, round(full, 1), spec.h, spec.w_)


@P.scenario(quick=250, must=['counts', 'light below one electron', 'thermal below one electron'])
def counting(ctx):
    """A gain so high that single electrons can be told apart: their numbers are Poisson distributed around light plus thermal electrons."""
    from scipy import stats
    spec = cams.Spec(ctx, shape=(ctx.int(2, 8, const=0), ctx.int(2, 8, const=0)), bits=ctx.int(10, 16, const=0))
    k = spec.kw
    K = ctx.uniform(4, spec.max / 80.)
    k.update(K=K, K_min=K, K_max=K * 2, u_esat=.9 * spec.max / K, blackoffset_max=spec.max * .05, blackoffset=spec.max * ctx.uniform(0, .05))
    base = ctx.int(0, 5)
    k['sigma2_dark_0'], k['dark_signal_0'] = 0., base
    k.pop('dsnu', None)
    th = ctx.pick([0, ctx.logu(.02, .9), ctx.uniform(1, 6)])
    k['dark_current_ref'] = spec.ref_for(th) if th else 0
    cam = spec.make()
    ctx.note(**spec.note())
    light = ctx.pick([0, ctx.logu(.02, .9), ctx.uniform(1, 6)])
    rad = spec.radiance_for(light) if light else 0.0
    if light and ctx.chance(.5):
        # light that is not the same everywhere
        rad = rad * ctx.rng.uniform(.2, 1.8, (spec.h, spec.w_, len(spec.w)))
    mu = spec.thermal() + (np.broadcast_to(spec.light(rad), (spec.h, spec.w_)) if light else np.zeros((spec.h, spec.w_)))
    n = 300
    e = np.array([(cam.grab(rad).astype(float) - cam.blackoffset) / cam.K for _ in range(n)]) - base
    c = np.rint(e)
    ctx.check(np.abs(e - c).max() <= 1.01 / cam.K, 'fractions of electrons', got=np.abs(e - c).max(), K=cam.K)
    # totals of every pixel and of all pixels
    small = 1e-16
    for tot, m in ((c.sum(axis=0).ravel(), (n * mu).ravel()), (np.array([c.sum()]), np.array([n * mu.sum()]))):
        with np.errstate(all='ignore'):
            p = np.minimum(stats.poisson.cdf(tot, m), stats.poisson.sf(tot - 1, m))
        p[m == 0] = (tot[m == 0] == 0)
        ctx.check(np.all(p > small / tot.size), 'number of electrons', got=tot[p.argmin()], want=m[p.argmin()], thermal=spec.thermal(), light=light)
    # how often none, one, two, ... electrons
    for j in range(8):
        q = stats.poisson.pmf(j, mu)
        got, want, var = (c == j).sum(), n * q.sum(), n * (q * (1 - q)).sum()
        ctx.check(abs(got - want) <= Z * np.sqrt(var) + 25, 'how often %d electrons' % j, got=int(got), want=float(want))
    ctx.ev('counts', c.size)
    if 0 < light < 1:
        ctx.ev('light below one electron')
    if 0 < th < 1:
        ctx.ev('thermal below one electron')
    ctx.sig(round(th, 3), round(light, 3), spec.bits, spec.h, spec.w_)
