"""C23: simulation is reproducible from its seed and has no hidden state."""
import os

import numpy as np

from emva1288.camera.camera import Camera
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera import routines

from mon import cams
from mon.core import Property, digest

P = Property('C23', 'case = random history of grabs, conversions and setting changes over several cameras alive at once, replayed on twins '
             'alone and interleaved, or a data set generated twice; non-trivial = images compared bit by bit and every observable '
             'setting and map compared before and after each call, distinct by history')


def config(ctx, noisy=True):
    """A camera with visible noise well inside its range."""
    shape = (ctx.int(5, 12), ctx.int(5, 12)) if ctx.chance(.97) else (ctx.int(20, 120), ctx.int(20, 120))
    spec = cams.Spec(ctx, shape=shape, bits=ctx.int(8, 16, const=0))
    k = spec.kw
    full = k['u_esat']
    K = spec.max / full
    k.update(K=K, K_min=K * .5, K_max=K * 2, K_steps=ctx.int(4, 300, const=0))
    k['sigma2_dark_0'] = ctx.uniform(9, 30) / K ** 2
    k['dark_signal_0'] = full * .3
    k['dark_current_ref'] = spec.ref_for(.01 * full)
    k['seed'] = ctx.pick([0, 1, 2, int(ctx.rng.integers(0, 2 ** 32)), int(ctx.rng.integers(0, 2 ** 62))])
    return spec


def actions(ctx, spec, n):
    """A history, as data."""
    k = spec.kw
    out = []
    for _ in range(n):
        what = ctx.pick(['grab', 'grab', 'grab', 'exposure', 'K', 'blackoffset', 'env', 'DSNU', 'photons', 'radiance', 'grab_args'])
        rad = spec.radiance_for(ctx.uniform(0, .4) * k['u_esat'])
        if ctx.chance(.4):
            rad = np.full((spec.h, spec.w_, len(spec.w)), rad)
        if what == 'exposure':
            a = k['exposure'] * ctx.uniform(.5, 1.2)
        elif what == 'K':
            a = k['K'] * ctx.uniform(.5, 1.2)
        elif what == 'blackoffset':
            a = spec.max * ctx.uniform(0, .1)
        elif what == 'env':
            a = (ctx.pick(['temperature', 'f_number']), ctx.uniform(.9, 1.1))
        elif what == 'DSNU':
            a = ctx.rng.normal(0, .01 * k['u_esat'], (spec.h, spec.w_))
        elif what == 'radiance':
            a = {}
            if ctx.chance(.5):
                a['mean'] = spec.max * ctx.uniform(.1, 1)
            if ctx.chance(.5):
                a['exposure'] = k['exposure'] * ctx.uniform(.5, 2)
        else:
            a = rad
        out.append((what, a))
    return out


def reading(cam):
    return cams.state(cam)


def perform(ctx, cam, act, watch=True):
    """One step; returns the image if there is one. Reads and grabs must leave no trace."""
    what, a = act
    if what in ('exposure', 'K', 'blackoffset'):
        setattr(cam, what, a)
        return None
    if what == 'env':
        cam.environment[a[0]] = cam.environment[a[0]] * a[1]
        return None
    if what == 'DSNU':
        cam.DSNU = a.copy()
        return None
    before = digest([reading(cam), a]) if watch else None
    if what == 'photons':
        cam.get_photons(a)
        r = None
    elif what == 'radiance':
        r = cam.get_radiance_for(**a)
    elif what == 'grab_args':
        r = cam.grab(a, temperature=cam.environment['temperature'] + 1, f_number=cam.environment['f_number'] * 1.1)
    else:
        r = cam.grab(a)
    if watch:
        if digest([reading(cam), a]) != before:
            ctx.fail('%s changed the camera or its argument' % what)
        ctx.ev('purity_checks')
    return r


def images(seq):
    return [x for x in seq if x is not None]


@P.scenario(quick=4000, must=['purity_checks', 'twin_images'])
def histories(ctx):
    """The same history on a twin, alone or between the actions of other cameras, gives the same images."""
    spec = config(ctx)
    acts = actions(ctx, spec, ctx.int(3, 15, const=0))
    ctx.note(history=[a[0] for a in acts], **spec.note())
    given = dict(dsnu=spec.kw.get('dsnu'), prnu=spec.kw.get('prnu'), w=spec.w, qe=spec.qe)
    before = digest(given)
    # cameras that use the very arrays of the user
    qe = routines.Qe(qe=spec.qe, wavelength=spec.w, width=spec.w_, height=spec.h)
    a = Camera(qe=qe, **spec.kw)
    alone = [perform(ctx, a, x) for x in acts]
    ctx.check(digest(given) == before, 'an array passed in by the user was modified')
    # others: other seed, other settings; same arrays
    others = [spec.make(seed=ctx.int(0, 10 ** 6)), config(ctx).make(), Camera(qe=qe, **dict(spec.kw, seed=7))]
    b = Camera(qe=qe, **spec.kw)
    mixed = []
    for x in acts:
        for o in others:
            if ctx.chance(.4):
                if o is others[1]:
                    o.grab(0.0)
                    o.K = o.Ks[int(ctx.rng.integers(len(o.Ks)))]
                    o.environment['temperature'] += 1
                    o.get_radiance_for()
                else:
                    perform(ctx, o, x, watch=False)
        if ctx.chance(.3):
            np.random.seed(ctx.int(0, 1000))
            np.random.random(3)
        mixed.append(perform(ctx, b, x))
    for i, (x, y) in enumerate(zip(alone, mixed)):
        if x is not None:
            ctx.array_eq(y, x, 'image %d of the twin differs' % i)
            ctx.eq(str(y.dtype), str(x.dtype), 'type of the image of the twin')
            ctx.ev('twin_images')
    ctx.check(digest(given) == before, 'an array passed in by the user was modified')
    ctx.array_eq(a.K, b.K, 'gain of the twins')
    ctx.sig(*[x[0] for x in acts])


@P.scenario(quick=4000, must=['differences'])
def seeds(ctx):
    """Other seeds, no seed and later images have other noise."""
    spec = config(ctx)
    ctx.note(**spec.note())
    s = spec.kw['seed']
    rad = spec.radiance_for(ctx.uniform(0, .4) * spec.kw['u_esat'])
    near = ctx.pick([s + 1, s ^ (1 << int(ctx.rng.integers(0, 63))), s + 2 ** 32, s + 2 ** 64, s * 2 + 1])
    c = [spec.make(), spec.make(seed=s + 1), spec.make(seed=None), spec.make(seed=None), spec.make(seed=near)]
    ims = [x.grab(rad) for x in c]
    for i in range(5 if near != s + 1 else 4):
        for j in range(i):
            ctx.check(not np.array_equal(ims[i], ims[j]), 'cameras with different seeds have the same noise', seeds=(i, j))
            ctx.ev('differences')
    many = [c[0].grab(rad) for _ in range(6)] + [ims[0]]
    for i in range(7):
        for j in range(i):
            ctx.check(not np.array_equal(many[i], many[j]), 'two images of one camera have the same noise', images=(i, j))
            ctx.ev('differences')
    # every source of noise is alive: dark electrons, light, electronics
    if ctx.chance(.5):
        quiet = spec.make(sigma2_dark_0=0., dark_current_ref=0, K=spec.kw['K'])
        e = .4 * spec.kw['u_esat']
        if np.sqrt(e) * quiet.K > 1:
            r = spec.radiance_for(e)
            ctx.check(not np.array_equal(quiet.grab(r), quiet.grab(r)), 'no shot noise')
            ctx.ev('differences')
    ctx.array_eq(spec.make().grab(rad), ims[0], 'twin')
    ctx.sig(spec.bits, s, spec.h, spec.w_)


@P.scenario(quick=500, must=['defaults'])
def defaults(ctx):
    """Cameras built from defaults share nothing: simulated efficiency, nonuniformity maps, environment."""
    w = np.round(ctx.rng.uniform(380, 790, ctx.int(2, 6)), 1)
    sizes = [(ctx.int(1, 6), ctx.int(1, 6)) for _ in range(2)]
    todo = [(h, v, [int(x) for x in ctx.shuffled(range(len(w)))[:ctx.int(1, len(w))]]) for h, v in sizes for _ in range(3)]
    seen = {}
    for h, v, pick in todo:
        q = routines.Qe(wavelength=w[pick], width=v, height=h)
        ctx.eq(q.qe.shape, (h, v, len(pick)), 'shape of the simulated efficiency')
        for i, p in enumerate(pick):
            x = q.qe[:, :, i]
            ctx.check(np.all(x == x[0, 0]), 'simulated efficiency differs between pixels')
            # efficiency is a function of the wavelength, whatever sensors there were before
            ctx.close(x[0, 0], seen.setdefault(p, float(x[0, 0])), 'simulated efficiency at %s nm' % w[p], rtol=1e-12)
            ctx.ev('defaults')
        if ctx.chance(.3) and q.qe.flags.writeable:
            q.qe[...] = 2.
    h, v = sizes[0]
    kw = dict(width=v, height=h, seed=ctx.int(0, 99), dark_signal_0=100., sigma2_dark_0=30., K=1., K_min=1., bit_depth=12)
    q = lambda: routines.Qe(wavelength=w, width=v, height=h)
    a, b = Camera(qe=q(), **kw), Camera(qe=q(), **kw)
    first = Camera(qe=q(), **kw).grab(0.)
    before = digest(cams.state(b))
    # what a user may change in place
    a.DSNU[ctx.int(0, h - 1), ctx.int(0, v - 1)] = 1000.
    for x in (a.qe.qe, a.Ks, a.blackoffsets):
        if x.flags.writeable:
            x[...] = 1
    a.environment['temperature'] = 60
    a.exposure, a.K, a.blackoffset = 7., 3., 9.
    ctx.check(digest(cams.state(b)) == before, 'a change of one camera shows in another')
    ctx.array_eq(b.grab(0.), first, 'image of the other camera')
    c = Camera(qe=q(), **kw)
    ctx.check(digest(cams.state(c)) == before, 'a change of one camera shows in a later one')
    ctx.array_eq(c.grab(0.), first, 'image of a later camera')
    ctx.sig(sizes, len(w))


def generate(ctx, kw, out):
    g = DatasetGenerator(outdir=out, **kw)
    files = {}
    for d, _s, fs in os.walk(out):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as fh:
                files[os.path.relpath(os.path.join(d, f), out)] = fh.read()
    return g, files


@P.scenario(quick=300, must=['files'])
def datasets(ctx):
    """Two generators with equal parameters and seed write identical files."""
    bits = ctx.pick([8, 8, 10, 12, 16])
    w, h = ctx.int(3, 10, const=0), ctx.int(3, 10, const=0)
    kw = dict(steps=ctx.int(2, 6, const=0), L=ctx.int(2, 5, const=0), bit_depth=bits, width=w, height=h,
              image_format=ctx.pick(['png', 'tif']), seed=ctx.int(0, 10 ** 6))
    kw['qe'] = routines.Qe(width=w, height=h, wavelength=np.linspace(500, 600, 2))
    if ctx.chance(.4):
        kw['exposure_fixed'] = ctx.uniform(5e5, 5e8)
    if ctx.chance(.5):
        kw.update(K=.5 * (2 ** bits - 1) / 255., K_max=20.)
    if ctx.chance(.5):
        kw['blackoffset'] = 3
    if ctx.chance(.5):
        kw['dsnu'] = ctx.rng.normal(0, 20, (h, w))
        kw['prnu'] = ctx.rng.normal(1, .05, (h, w))
    ctx.note(**{k: v for k, v in kw.items() if k != 'qe'})
    before = digest([kw.get('dsnu'), kw.get('prnu'), kw['qe'].qe])
    _g, one = generate(ctx, kw, os.path.join(ctx.tmp, 'one'))
    Camera(seed=5, width=3, height=3).grab(0.0)
    np.random.seed(3)
    _h, two = generate(ctx, kw, os.path.join(ctx.tmp, 'deeper', 'two'))
    _i, three = generate(ctx, dict(kw, seed=kw['seed'] + 1), os.path.join(ctx.tmp, 'three'))
    ctx.check(digest([kw.get('dsnu'), kw.get('prnu'), kw['qe'].qe]) == before, 'an array passed in was modified')
    ctx.eq(sorted(one), sorted(two), 'names of the files')
    for f in one:
        ctx.check(one[f] == two[f], 'file %s differs' % f)
        ctx.ev('files')
    ctx.check(any(one[f] != three.get(f) for f in one if 'image' in f), 'other seed, same images')
    ctx.sig(bits, w, h, kw['steps'], kw['L'], 'exposure_fixed' in kw, 'K' in kw, 'blackoffset' in kw)
