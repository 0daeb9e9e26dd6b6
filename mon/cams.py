"""Random simulated cameras and an independent statement of the camera model."""
import numpy as np

from emva1288.camera.camera import Camera
from emva1288.camera import routines

H, C = 6.63e-34, 3.00e8


def photons(radiance, exposure, area, w, f):
    """Documented formula: irradiance times area, time and wavelength over h*c."""
    w = np.asarray(w, dtype=np.longdouble) * 1e-9
    irr = np.asarray(radiance, dtype=np.longdouble) * (np.longdouble(np.pi) / (1 + (2 * np.longdouble(f)) ** 2)) * w
    return irr * (np.longdouble(area) * 1e-12) * (np.longdouble(exposure) * 1e-9) * w / (np.longdouble(H) * C)


class Spec(object):
    """What the user configured; the model quantities are computed from this only."""

    def __init__(self, ctx, shape=None, bits=None, dark_only=False, **fixed):
        if shape is None and ctx.chance(.02):
            shape = (ctx.int(15, 150, const=0), ctx.int(15, 150, const=0))
        self.h, self.w_ = shape or (ctx.int(1, 14, const=.1), ctx.int(1, 14, const=.1))
        self.bits = bits or ctx.int(1, 16, const=0)
        self.max = 2 ** self.bits - 1
        nw = ctx.int(6, 100, const=0) if ctx.chance(.04) else ctx.int(1, 5, const=0)
        lo = ctx.uniform(350, 700)
        self.w = np.sort(lo + ctx.uniform(5, 200) * ctx.rng.random(nw)) if ctx.chance(.5) else np.linspace(lo, lo + 80, nw)
        base = ctx.uniform(.05, .9)
        kind = ctx.pick(['flat', 'spectral', 'cube'])
        if kind == 'flat':
            cube = np.full((self.h, self.w_, nw), base)
        elif kind == 'spectral':
            cube = np.zeros((self.h, self.w_, nw))
            cube[:, :] = base * ctx.rng.uniform(.2, 1, nw)
        else:
            cube = base * ctx.rng.uniform(.1, 1, (self.h, self.w_, nw))
        self.qe = cube
        self.kw = dict(bit_depth=self.bits, width=self.w_, height=self.h)
        self.kw.update(f_number=ctx.uniform(1, 16), pixel_area=ctx.logu(1, 200),
                       temperature=ctx.uniform(-20, 60), temperature_ref=ctx.uniform(0, 50),
                       temperature_doubling=ctx.uniform(4, 12))
        self.kw['exposure_min'] = ctx.logu(1e4, 1e6)
        self.kw['exposure_max'] = self.kw['exposure_min'] * ctx.logu(5, 1000)
        self.kw['exposure'] = ctx.uniform(self.kw['exposure_min'], self.kw['exposure_max'])
        full = ctx.logu(200, 60000)
        self.kw['u_esat'] = full
        # gain such that full scale is near, below or above the full well
        K = self.max / (full * ctx.logu(.3, 3))
        steps = ctx.int(61, 1000, const=0) if ctx.chance(.06) else ctx.int(1, 60, const=0)
        self.kw.update(K_min=K * ctx.uniform(.2, 1), K_max=K * ctx.uniform(1, 4), K_steps=steps, K=K)
        self.kw['blackoffset_steps'] = ctx.int(61, 1000, const=0) if ctx.chance(.06) else ctx.int(1, 60, const=0)
        if ctx.chance(.6):
            self.kw['blackoffset_max'] = max(self.max * ctx.uniform(.01, .3), 1e-3)
        if ctx.chance(.3):
            self.kw['blackoffset_min'] = self.max * ctx.uniform(0, .01)
        self.kw['blackoffset'] = self.max * ctx.uniform(0, .1)
        self.kw['dark_signal_0'] = ctx.uniform(0, .1) * full
        self.kw['sigma2_dark_0'] = ctx.pick([0., ctx.logu(.5, 400)])
        # dark current: some electrons up to a few percent of the full well
        self.kw['dark_current_ref'] = 0 if ctx.chance(.1) else self.ref_for(ctx.logu(.1, max(.2, .05 * full)))
        if ctx.chance(.5):
            self.kw['dsnu'] = ctx.rng.normal(0, .02 * full, (self.h, self.w_))
        if ctx.chance(.5):
            self.kw['prnu'] = np.abs(ctx.rng.normal(1, .1, (self.h, self.w_)))
            if ctx.chance(.3):
                # blind and weak pixels
                for _ in range(ctx.int(1, 3)):
                    self.kw['prnu'][ctx.int(0, self.h - 1), ctx.int(0, self.w_ - 1)] = ctx.pick([0, 0., ctx.uniform(0, .1)])
            if ctx.chance(.2):
                # pixels that respond strongly
                for _ in range(ctx.int(1, 3)):
                    self.kw['prnu'][ctx.int(0, self.h - 1), ctx.int(0, self.w_ - 1)] = ctx.uniform(1.5, 5)
        self.kw['seed'] = int(ctx.rng.integers(1, 2 ** 31))
        self.kw.update(fixed)

    def ref_for(self, electrons):
        k = self.kw
        return electrons / (k['exposure'] * 1e-9) / 2 ** ((k['temperature'] - k['temperature_ref']) / k['temperature_doubling'])

    def make(self, **over):
        kw = dict(self.kw, **over)
        for n in ('dsnu', 'prnu'):
            if kw.get(n) is not None:
                kw[n] = kw[n].copy()
        qe = routines.Qe(qe=self.qe.copy(), wavelength=self.w.copy(), width=self.w_, height=self.h)
        return Camera(qe=qe, **kw)

    # ---- model
    def dsnu(self):
        return self.kw.get('dsnu') if self.kw.get('dsnu') is not None else np.zeros((self.h, self.w_))

    def prnu(self):
        return self.kw.get('prnu') if self.kw.get('prnu') is not None else np.ones((self.h, self.w_))

    def thermal(self, exposure=None, temperature=None):
        k = self.kw
        T = k['temperature'] if temperature is None else temperature
        t = k['exposure'] if exposure is None else exposure
        return k['dark_current_ref'] * 2.0 ** ((T - k['temperature_ref']) / k['temperature_doubling']) * t * 1e-9

    def light(self, radiance, exposure=None, f=None):
        """Mean electrons of every pixel, PRNU included."""
        k = self.kw
        p = photons(radiance, k['exposure'] if exposure is None else exposure, k['pixel_area'], self.w,
                    k['f_number'] if f is None else f)
        e = np.sum(np.asarray(p, dtype=float) * self.qe, axis=2)
        return e * self.prnu()

    def radiance_for(self, electrons, exposure=None, f=None):
        """Scalar radiance that gives this mean number of light electrons (without PRNU)."""
        k = self.kw
        p = photons(1.0, k['exposure'] if exposure is None else exposure, k['pixel_area'], self.w,
                    k['f_number'] if f is None else f)
        per = float(np.mean(np.sum(np.asarray(p, dtype=float) * self.qe, axis=2)))
        return electrons / per

    def sample(self, rng, K, bo, radiance, n, exposure=None, temperature=None, f=None):
        """n reference images drawn from the model with an independent generator (without rounding)."""
        s = (n, self.h, self.w_)
        e = rng.poisson(self.thermal(exposure, temperature), s).astype(float)
        e += rng.poisson(self.light(radiance, exposure, f), s)
        e += self.dsnu() + rng.normal(self.kw['dark_signal_0'], np.sqrt(self.kw['sigma2_dark_0']), s)
        e = np.clip(e, 0, self.kw['u_esat'])
        return K * e + bo

    def note(self):
        return {k: (v if not isinstance(v, np.ndarray) else 'map') for k, v in self.kw.items()}


def state(cam):
    """Everything of a camera that a user can see or set."""
    return dict(bit_depth=cam.bit_depth, pixel_area=cam.pixel_area, img_max=cam.img_max, width=cam.width,
                height=cam.height, exposure=cam.exposure, exposure_min=cam.exposure_min,
                exposure_max=cam.exposure_max, K=cam.K, Ks=np.array(cam.Ks), blackoffset=cam.blackoffset,
                blackoffsets=np.array(cam.blackoffsets), DSNU=np.array(cam.DSNU), qe=np.array(cam.qe.qe),
                w=np.array(cam.qe.w), environment=dict(cam.environment))
