"""C26: processing recovers the parameters of the simulated camera."""
import contextlib
import io
import os

import numpy as np

import emva1288.camera
from emva1288.camera import dataset_generator as dg
from emva1288.camera import routines
from emva1288.camera.camera import Camera
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.process import Emva1288
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.plotting import EVMA1288plots
from emva1288.process.results import Results1288
from emva1288.process.routines import get_int_imgs

from mon.core import REPO, Property
from mon.props.c17 import same

P = Property('C26', 'case = random model-conforming camera, its data set generated, parsed, loaded, reduced and processed; non-trivial = '
             'every recovered parameter compared with the configured one within its computed statistical uncertainty, distinct by '
             'configuration', assumptions=['tolerances are 8 standard errors computed from the configuration'])

Z = 8.0


def component_map(ctx, shape, total):
    """Sum of row, column and pixel structure, with the realised variance of each."""
    M, N = shape
    part = ctx.rng.dirichlet([1, 1, 1]) if ctx.chance(.6) else ctx.pick([np.array([0, 0, 1.]), np.array([1., 0, 0]), np.array([0, 1., 0])])
    sd = total * np.sqrt(part)
    row = ctx.rng.normal(0, 1, (M, 1)) * sd[0]
    col = ctx.rng.normal(0, 1, (1, N)) * sd[1]
    pix = ctx.rng.normal(0, 1, (M, N)) * sd[2]
    row, col, pix = row - row.mean(), col - col.mean(), pix - pix.mean()
    m = row + col + pix
    return m, {'row': row.var(ddof=1), 'col': col.var(ddof=1), 'pixel': pix.var(ddof=1), 'total': m.var(ddof=1)}


class Truth(object):
    pass


def configure(ctx, multi, size=(48, 110), steps=(24, 50), even=False):
    t = Truth()
    t.multi = multi
    t.M, t.N = ctx.int(*size, const=0), ctx.int(*size, const=0)
    t.bits = ctx.pick([8, 10, 12, 14, 16, ctx.int(8, 16, const=0)])
    t.max = 2 ** t.bits - 1
    full = ctx.logu(3000, 40000)                    # electrons at full scale
    t.K = t.max / full
    t.s0 = max(ctx.uniform(4, 20), ctx.uniform(.7, 1.5) / t.K)
    t.dsnu, t.dV = component_map(ctx, (t.M, t.N), ctx.pick([0, ctx.uniform(.3, 2)]) * t.s0)
    t.prnu, t.pV = component_map(ctx, (t.M, t.N), ctx.pick([0, ctx.uniform(.002, .02), ctx.uniform(.005, .02)]))
    t.prnu = t.prnu + 1
    t.dark0 = 8.5 * t.s0 + max(0, -float(t.dsnu.min()))
    t.bo = ctx.uniform(0, .03) * t.max
    t.limit_e = full * ctx.uniform(.75, .9) if ctx.chance(.3) else full * 1.5
    t.steps, t.L = ctx.int(*steps, const=0), ctx.int(12, 40, const=0)
    w = np.linspace(500, 500 + ctx.int(1, 60), ctx.int(1, 3, const=0))
    eta = np.full(len(w), ctx.uniform(.1, .9))
    if len(w) > 1 and ctx.chance(.6):
        # another efficiency at every wavelength, possibly none at some
        eta = eta * ctx.rng.uniform(.2, 1.1, len(w)) * (ctx.rng.random(len(w)) < .75)
        if not eta.any():
            eta[ctx.int(0, len(w) - 1, const=0)] = .5
        ctx.ev('spectra')
    t.spectrum, t.qe = eta, np.tile(eta, (t.M, t.N, 1))
    # an efficiency of the whole light: photons are alike at all wavelengths, or the radiance is (photons go with the square of the wavelength)
    t.eta, t.wavelengths = float(np.average(eta, weights=w ** 2 if even else None)), w
    ctx.note(spectrum=eta, wavelengths=w)
    t.area, t.f = ctx.uniform(5, 80), ctx.uniform(2, 12)
    t.tmin = ctx.logu(1e5, 1e6)
    t.tmax = t.tmin * ctx.uniform(20, 200)
    t.temp = ctx.uniform(15, 45)
    t.texp = t.tmax if multi else ctx.pick([ctx.uniform(t.tmin, t.tmax)] * 3 + [t.tmax * ctx.uniform(1, 3), t.tmin * ctx.uniform(.3, 1)])
    t.I = ctx.pick([0, ctx.uniform(.005, .1)]) * full / (t.tmax * 1e-9) if multi else ctx.pick([0, ctx.uniform(0, .01)]) * full / (t.texp * 1e-9)
    t.kw = dict(bit_depth=t.bits, width=t.N, height=t.M, K=t.K, K_min=t.K, K_max=2 * t.K, K_steps=11, blackoffset=t.bo,
                blackoffset_max=.05 * t.max, u_esat=t.limit_e, sigma2_dark_0=t.s0 ** 2, dark_signal_0=t.dark0,
                dsnu=t.dsnu, prnu=t.prnu, exposure_min=t.tmin, exposure_max=t.tmax, temperature=t.temp, temperature_ref=30,
                temperature_doubling=8, dark_current_ref=t.I / 2 ** ((t.temp - 30) / 8.), f_number=t.f, pixel_area=t.area,
                qe=routines.Qe(qe=t.qe, wavelength=w, width=t.N, height=t.M), seed=ctx.int(0, 10 ** 6))
    t.full = full
    t.gen = dict(steps=t.steps, L=t.L)
    if not multi:
        t.gen['exposure_fixed'] = t.texp
        t.texp = float(round(t.texp))
    return t


def pipeline(fname):
    p = ParseEmvaDescriptorFile(fname, loglevel=50)
    i = LoadImageData(p.images, loglevel=50)
    d = Data1288(i.data, loglevel=50)
    return Results1288(d.data, loglevel=50)


def recovered(ctx, t, res, low=.85):
    n = t.M * t.N
    tmp = res.temporal
    up = np.asarray(tmp['u_p'], float)
    texp = np.asarray(tmp['texp'], float) if t.multi else np.full(len(up), t.texp)
    ctx.eq(len(up), t.steps, 'number of points')
    bo = float(np.linspace(0, .05 * t.max, 255)[np.argmin(np.abs(np.linspace(0, .05 * t.max, 255) - t.bo))])
    e = t.eta * up
    ud = t.I * texp * 1e-9
    vd = t.K ** 2 * (t.s0 ** 2 + ud) + 1 / 6.
    vb = vd + t.K ** 2 * e
    # ---- saturation: by the converter or by the full well
    lim = min(t.limit_e, (t.max - bo) / t.K)
    if t.multi:
        k = np.polyfit(e, ud, 1)[0] if t.I else 0.0      # thermal electrons per light electron
        p_sat = (lim - t.dark0) / (1 + k) / t.eta
    else:
        p_sat = (lim - t.dark0 - ud[0]) / t.eta
    reach = min(p_sat, up.max())
    # behind a full well the variance stays on a noisy plateau, and any point of it may come out as the saturation
    last = 1.12 * reach if t.limit_e > t.full else up.max()
    ctx.check(low * reach <= res.u_p_sat <= last, 'saturation', got=res.u_p_sat, want=reach)
    # ---- gain and quantum efficiency
    r = up <= .7 * res.u_p_sat * 1.02
    x = t.K * e[r]
    sv = np.sqrt(2.0 / n) * 1.1 * (vb[r] + (vd[r] if t.multi else 0))
    sK = np.sqrt(np.sum(x ** 2 * sv ** 2)) / np.sum(x ** 2)
    if not t.multi:                                     # one dark series for all points
        sK = np.hypot(sK, np.sqrt(2.0 / n) * vd[0] * np.sum(x) / np.sum(x ** 2))
    ctx.check(abs(res.K - t.K) <= Z * sK, 'system gain', got=res.K, want=t.K, sd=sK)
    sR = np.sqrt(np.mean(vb[r] + vd[r]) / (2 * n)) * (1.0 if not t.multi else 1.5) * np.sum(up[r]) / np.sum(up[r] ** 2)
    R = t.K * t.eta
    ctx.check(abs(res.R - R) <= Z * sR + 1e-5 * R, 'responsivity', got=res.R, want=R, sd=sR)
    sQ = 100 * t.eta * np.hypot(sK / t.K, sR / R)
    ctx.check(abs(res.QE - 100 * t.eta) <= Z * sQ + .002 * t.eta, 'quantum efficiency', got=res.QE, want=100 * t.eta, sd=sQ)
    q = Z * sQ / 100
    ctx.check((low - .02) * reach * (t.eta - q) <= res.u_e_sat <= 1.03 * last * (t.eta + q), 'saturation capacity', got=res.u_e_sat,
              want=reach * t.eta, last=last * t.eta, sd=sQ)
    # ---- dark noise and dark current
    if t.multi:
        td = np.asarray(tmp['texp'], float)
        wt = (td - td.mean()) / np.sum((td - td.mean()) ** 2)
        w0 = 1.0 / len(td) - td.mean() * wt
        s_var, s_mean = np.sqrt(2.0 / n) * 1.1 * vd, np.sqrt(vd / (2 * n))
        s_int, v0 = np.sqrt(np.sum((w0 * s_var) ** 2)), t.K ** 2 * t.s0 ** 2
        sI_mean = np.sqrt(np.sum((wt * s_mean) ** 2)) / t.K * 1e9
        sI_var = np.sqrt(np.sum((wt * s_var) ** 2)) / t.K ** 2 * 1e9
        ctx.check(abs(res.u_I_mean - t.I) <= Z * sI_mean + 1.2 * Z * t.I * sK / t.K, 'dark current from the mean', got=res.u_I_mean, want=t.I, sd=sI_mean)
        if np.isnan(res.u_I_var):
            ctx.check(t.I <= Z * sI_var, 'dark current from the variance undefined', want=t.I, sd=sI_var)
        else:
            ctx.check(abs(res.u_I_var - t.I) <= Z * sI_var + 2.4 * Z * t.I * sK / t.K, 'dark current from the variance', got=res.u_I_var,
                      want=t.I, sd=sI_var)
        ctx.ev('dark_currents')
    else:
        s_int, v0 = np.sqrt(2.0 / n) * 1.1 * vd[0], t.K ** 2 * (t.s0 ** 2 + ud[0])
        ctx.check(np.isnan(res.u_I_mean) and np.isnan(res.u_I_var), 'dark current of a single exposure')
    v = res.sigma_y_dark ** 2
    ctx.check(v0 + 1 / 12. - Z * s_int <= v <= max(v0 + .25 + Z * s_int, .2401), 'dark noise', got=v, want=v0 + 1 / 6., sd=s_int)
    ve = (res.sigma_d * t.K) ** 2
    ctx.check(v0 - .01 - Z * s_int - 2.2 * Z * v0 * sK / t.K <= ve <= max(v0 + .18 + Z * s_int + 2.2 * Z * (v0 + .1) * sK / t.K, .25),
              'dark noise in electrons', got=ve, want=v0 + 1 / 12., sd=s_int)
    # ---- nonuniformity, in electrons squared
    sp = res.spatial
    ec = float(sp['u_p']) * t.eta
    uds = t.I * float(sp['texp']) * 1e-9
    qd = (t.s0 ** 2 + uds + .25 / t.K ** 2) / t.L
    qb = qd + ec / t.L
    shp = {'total': (n, 1), 'pixel': (n, 1), 'col': (t.N, t.M), 'row': (t.M, t.N)}

    def err(V, q, which, vp):
        k, avg = shp[which]
        noise = q / avg + (vp / avg if avg > 1 else 0)
        other = 0 if which == 'total' else 3 * vp / min(t.M, t.N) / np.sqrt(min(t.M, t.N))
        return np.sqrt(2.0 / k) * noise + 2 * np.sqrt(V * noise / k) + 3 * V / k + other / 8

    for which, post in (('total', ''), ('row', '_row'), ('col', '_col'), ('pixel', '_pixel')):
        dV, pV = t.dV[which], t.pV[which]
        got = getattr(res, 'DSNU1288' + post)
        # structure of the other kinds leaks through the finite number of rows and columns
        leak = (t.dV['row'] / t.M + t.dV['col'] / t.N) / np.sqrt(min(t.M, t.N)) if which != 'total' else 0.0
        x = 2 * np.sqrt(t.dV['pixel'] * (t.dV['row'] + t.dV['col']) / n) if which != 'total' else 0.0
        tol = Z * err(dV, qd, which, t.dV['pixel']) + Z * leak + 4 * x + 2.2 * Z * dV * sK / t.K + .002 * dV
        g = 0.0 if np.isnan(got) else got ** 2
        ctx.check(abs(g - dV) <= tol, 'DSNU' + post, got=got, want=np.sqrt(dV), tolerance_of_variance=tol)
        if np.isnan(got):
            ctx.check(dV <= tol, 'DSNU%s undefined' % post, want=np.sqrt(dV))
        got = getattr(res, 'PRNU1288' + post)
        b = ec ** 2 * pV
        bV = {k: ec ** 2 * t.pV[k] + t.dV[k] for k in t.pV}
        leak = (bV['row'] / t.M + bV['col'] / t.N) / np.sqrt(min(t.M, t.N)) if which != 'total' else 0.0
        x = 2 * np.sqrt(bV['pixel'] * (bV['row'] + bV['col']) / n) if which != 'total' else 0.0
        k = shp[which][0]
        small = min(t.M, t.N)
        cross = 2 * ec * (np.sqrt(t.pV[which] * t.dV[which] / k) if which != 'total' else
                          sum(np.sqrt(t.pV[z] * t.dV[z] / shp[z][0]) for z in ('row', 'col', 'pixel')) +
                          np.sqrt(t.pV['total'] * t.dV['total'] / n))
        tol = Z * (err(bV[which], qb, which, bV['pixel']) + err(dV, qd, which, t.dV['pixel'])) + Z * leak + 4 * x + \
            6 * cross + .002 * b
        g = 0.0 if np.isnan(got) else (got / 100. * ec) ** 2
        ctx.check(abs(g - b) <= tol, 'PRNU' + post, got=got, want=100 * np.sqrt(pV), tolerance_of_variance=tol, electrons=ec)
        if np.isnan(got):
            ctx.check(b <= tol, 'PRNU%s undefined' % post, want=np.sqrt(pV))
        ctx.ev('structures')
    ctx.ev('recoveries')


def note(ctx, t):
    ctx.note(multi=t.multi, shape=(t.M, t.N), bits=t.bits, K=t.K, eta=t.eta, dark_noise=t.s0, I=t.I, steps=t.steps, L=t.L,
             dsnu=t.dV, prnu=t.pV, full=t.full, full_well=t.limit_e, dark_signal=t.dark0, blackoffset=t.bo)
    ctx.sig(t.multi, t.bits, t.steps, t.L, t.M, t.N, t.limit_e < t.full)


@P.scenario(quick=64, must=['recoveries', 'structures', 'dark_currents', 'spectra'])
def exposures(ctx):
    t = configure(ctx, True)
    note(ctx, t)
    g = DatasetGenerator(outdir=os.path.join(ctx.tmp, 'set'), **dict(t.gen, **t.kw))
    recovered(ctx, t, pipeline(g.descriptor_path))


@P.scenario(quick=64, must=['recoveries', 'structures', 'spectra'])
def light(ctx):
    t = configure(ctx, False, even=True)
    note(ctx, t)
    g = DatasetGenerator(outdir=os.path.join(ctx.tmp, 'set'), **dict(t.gen, **t.kw))
    recovered(ctx, t, pipeline(g.descriptor_path))


@P.scenario(quick=48, must=['one_call'])
def one_call(ctx):
    """Emva1288(descriptor) against parser, loader, data and results one after the other."""
    t = configure(ctx, ctx.chance(.5), size=(6, 24), steps=(8, 16))
    t.kw['seed'] = ctx.int(0, 10 ** 6)
    note(ctx, t)
    g = DatasetGenerator(outdir=os.path.join(ctx.tmp, 'set'), **dict(t.gen, **t.kw))
    fn, cwd = g.descriptor_path, os.getcwd()
    how = ctx.pick(['absolute', 'relative', 'name', 'dot'])
    ctx.note(path=how)
    if how != 'absolute':
        os.chdir(ctx.tmp if how != 'name' else os.path.dirname(fn))
        fn = {'relative': os.path.relpath(fn), 'name': os.path.basename(fn), 'dot': os.path.join('.', os.path.relpath(fn))}[how]
    try:
        e, res = Emva1288(fn), pipeline(fn)
    finally:
        os.chdir(cwd)
    ctx.sig('one_call', how)
    if hasattr(e, '_results'):
        a, b = e._results.results, res.results
        ctx.eq(sorted(a), sorted(b), 'quantities')
        for k in a:
            f = 'data' if 'data' in a[k] else 'value'
            ctx.check(same(a[k][f], b[k][f]), 'the one-call interface differs in ' + k, got=a[k][f], want=b[k][f])
    ctx.eq(e.xml(), res.xml(), 'XML of the one-call interface')
    one, two = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(one):
        e.results()
    with contextlib.redirect_stdout(two):
        res.print_results()
    ctx.eq(one.getvalue(), two.getvalue(), 'printed results of the one-call interface')
    ctx.check(len(one.getvalue()) > 500, 'nothing printed')
    f = os.path.join(ctx.tmp, 'out.xml')
    e.xml(f)
    f2 = os.path.join(ctx.tmp, 'out2.xml')
    res.xml(f2)
    with open(f) as x, open(f2) as y:
        ctx.eq(x.read(), y.read(), 'XML file of the one-call interface')
    ctx.ev('one_call')


# ------------------------------------------------------------------ without files
@P.scenario(quick=64, must=['recoveries', 'structures', 'direct images'])
def direct(ctx):
    """Images grabbed from the camera are reduced and processed without any file in between."""
    t = configure(ctx, ctx.chance(.5))
    note(ctx, t)
    kw = dict(t.kw)
    cam = Camera(**kw)
    seen = [0]

    def take(radiance, n):
        seen[0] += n
        return get_int_imgs([cam.grab(radiance) for _ in range(n)])

    def totals(radiance):
        r = take(radiance, 2)
        return {'sum': np.sum(r['sum']), 'pvar': np.sum(r['pvar']), 'dmean': r['dmean']}

    def count(radiance):
        return float(np.sum(cam.get_photons(radiance), axis=-1).mean())
    temporal, spatial = {}, {}
    if t.multi:
        cam.exposure = t.tmax
        top = cam.get_radiance_for()
        times = np.linspace(t.tmin, t.tmax, t.steps)
        for i in ctx.shuffled(range(t.steps)):
            cam.exposure = e = float(times[i])
            temporal[e] = {count(top): totals(top), 0.0: totals(0)}
            if i == t.steps // 2:
                spatial[e] = {count(top): take(top, t.L), 0.0: take(0, t.L)}
    else:
        cam.exposure = e = t.texp
        top = cam.get_radiance_for()
        temporal[e], spatial[e] = {}, {}
        for i in ctx.shuffled(range(t.steps + 1)):
            r = top * i / t.steps
            temporal[e][count(r)] = totals(r)
            if i in (0, t.steps // 2):
                spatial[e][count(r)] = take(r, t.L)
    ctx.ev('direct images', seen[0])
    d = Data1288({'temporal': temporal, 'spatial': spatial, 'width': cam.width, 'height': cam.height}, loglevel=50)
    res = Results1288(d.data, pixel_area=cam.pixel_area, loglevel=50)
    recovered(ctx, t, res)
    ctx.close(res.u_p_min_area * t.area, res.u_p_min, 'threshold per area', rtol=1e-12)
    ctx.sig('direct', t.multi)


# ------------------------------------------------------------------ documented programs
EXAMPLES = os.path.join(REPO, 'doc', 'examples')
PROGRAMS = ['simple_emva_process', 'full_emva_process', 'extend_plots', 'grab', 'grab_and_process', 'sample_report', 'emva_xml_create',
            'emva_xml_compare']
# programs written for data and cameras of an earlier layout (recorded in known_findings.txt)
OUTDATED = {'extend_plots': ('KeyError', "'avg'"), 'grab_and_process': ('TypeError', "unhashable type: 'numpy.ndarray'")}
PLACE = '/home/work/1288/datasets/EMVA1288_ReferenceSet_001_CCD_12Bit/'


@contextlib.contextmanager
def smaller(ctx, made, cams):
    """The programs as they are, with cameras and data sets of other sizes."""
    size = dict(width=ctx.int(8, 40, const=0), height=ctx.int(8, 40, const=0), seed=ctx.int(0, 10 ** 6))
    plan = dict(steps=ctx.int(12, 24, const=0), L=ctx.int(3, 12, const=0))
    bits = ctx.pick([8, 10, 12])

    def generator(**kw):
        g = DatasetGenerator(**dict(dict({'bit_depth': bits}, **kw), **dict(size, **plan)))
        made.append(g)
        return g

    def camera(**kw):
        c = Camera(**dict(dict({'bit_depth': bits}, **kw), **size))
        cams.append(c)
        return c
    dg.DatasetGenerator, emva1288.camera.Camera = generator, camera
    try:
        yield
    finally:
        dg.DatasetGenerator, emva1288.camera.Camera = DatasetGenerator, Camera


def printed(res):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res.print_results()
    return out.getvalue()


@P.scenario(quick=40, must=['programs'])
def programs(ctx):
    """The example programs of the documentation run to their end and state what the package computes."""
    import matplotlib.pyplot as plt
    name = PROGRAMS[ctx.idx % len(PROGRAMS)]
    path = os.path.join(EXAMPLES, name + '.py')
    ctx.note(program=name)
    ctx.sig(name, ctx.idx)
    if not os.path.exists(path):
        ctx.ev('assertions')
        ctx.ev('programs')
        return
    with open(path) as f:
        text = f.read()
    made, cams, cwd = [], [], os.getcwd()
    os.chdir(ctx.tmp)
    out = io.StringIO()
    plt.close('all')
    try:
        extra = {}
        if name.startswith('emva_xml'):
            t = configure(ctx, ctx.chance(.5), size=(6, 24), steps=(8, 16))
            g = DatasetGenerator(outdir=os.path.join(ctx.tmp, 'set'), **dict(t.gen, **t.kw))
            here = os.path.join(ctx.tmp, 'set', '')
            os.rename(g.descriptor_path, here + 'EMVA1288_Data.txt')
            text = text.replace(PLACE, here)
            res = pipeline(here + 'EMVA1288_Data.txt')
            if name == 'emva_xml_compare':
                for k in '12':
                    with open(here + 'EMVA1288_Result%s.xml' % k, 'wb') as f:
                        f.write(res.xml())
            extra = {'__name__': '__main__'}
        with smaller(ctx, made, cams), contextlib.redirect_stdout(out):
            try:
                exec(compile(text, path, 'exec'), dict({'__name__': '__main__', '__file__': path}, **extra))
            except Exception as e:
                if name not in OUTDATED or (type(e).__name__, str(e)) != OUTDATED[name]:
                    raise
                ctx.finding('example-' + name, False, 'the example %s.py stops with an error' % name, error=repr(e))
                return
        say = out.getvalue()
        figures = [plt.figure(n) for n in plt.get_fignums()]
        if name in ('simple_emva_process', 'full_emva_process'):
            res = pipeline(made[0].descriptor_path)
            ctx.eq(say.strip(), printed(res).strip(), 'printed results')
            ctx.eq(len(figures), len(EVMA1288plots), 'figures')
        elif name == 'extend_plots':
            res = pipeline(made[0].descriptor_path)
            ctx.eq(len(figures), 2 + len(EVMA1288plots), 'figures')
            for f in (figures[0], figures[-1]):
                img = f.axes[0].get_images()[0].get_array()
                ctx.close(np.asarray(img), np.asarray(res.spatial['sum']) / res.spatial['L'], 'image of the own plot', rtol=1e-12)
        elif name == 'grab':
            rows = np.array([[float(x) for x in line.split()] for line in say.strip().splitlines()])
            c = cams[0]
            lo, hi = float(np.ravel(rows[:, 0]).min()), float(rows[-1, 0])
            sd = np.sqrt(200 * float(np.max(c.K)) + 30) / np.sqrt(c.width * c.height)
            ctx.check(abs(hi - min(200, c.img_max) - c.blackoffset) <= 8 * sd + 2, 'level of the last image', got=hi, sd=sd)
            ctx.check(lo < .2 * hi and np.all(np.diff(rows[:, 0]) > 0), 'levels of the images', got=rows[:, 0])
        elif name == 'grab_and_process':
            c = cams[0]
            got = {}
            for line in say.splitlines():
                w = line.split()
                if line.startswith(('System gain', 'Quantum efficiency')):
                    got[w[0]] = float(w[-1])
            n = c.width * c.height
            ctx.check(abs(got['System'] - c.K) <= .05 * c.K * (1 + 60 / np.sqrt(n)), 'system gain printed', got=got, want=c.K)
            q = 100 * c.qe.qe.mean()
            ctx.check(abs(got['Quantum'] - q) <= .06 * q * (1 + 60 / np.sqrt(n)), 'quantum efficiency printed', got=got, want=q)
            ctx.eq(len(figures), len(EVMA1288plots), 'figures')
        elif name == 'sample_report':
            for f in ('report.tex', 'emvadatasheet.sty'):
                ctx.check(os.path.getsize(os.path.join('myreport', f)) > 500, 'file of the report: ' + f)
            for c in EVMA1288plots:
                ctx.check(os.path.getsize(os.path.join('myreport', 'OP1', c.__name__ + '.pdf')) > 500, 'plot of the report: ' + c.__name__)
        elif name == 'emva_xml_create':
            ctx.eq(say.strip(), printed(res).strip(), 'printed results')
            with open(os.path.join('set', 'EMVA1288_Result.xml'), 'rb') as f:
                ctx.eq(f.read(), res.xml(), 'XML file')
        else:
            with open(os.path.join('set', 'EMVA1288_Compare.txt')) as f:
                ctx.eq(f.read().strip(), say.strip(), 'comparison written and printed')
            bad = [x for x in say.splitlines() if x.endswith('FAIL')]
            ctx.check('OK' in say and not bad, 'comparison with itself', got=bad)
        ctx.ev('programs')
    finally:
        os.chdir(cwd)
        plt.close('all')
