"""C32: colour cameras are measured by the pixels of one colour."""
import os

import numpy as np

from emva1288.camera import routines as cr
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.plotting import EVMA1288plots, Plotting1288
from emva1288.process.results import Results1288
from emva1288.process.routines import cls_1288_info, dict_to_xml, load_image, xml_to_dict

from mon import curves
from mon.core import Property
from mon.props import c14, c26, c27
from mon.props.c17 import read

P = Property('C32', 'case = measurement of a camera with a regular colour pattern, processed by the masked pixels of one colour; non-trivial = '
             'every figure compared with the one of the images made of only these pixels (or, for simulated cameras, with the configured '
             'one), distinct by pattern, image size and layout of the measurement',
             assumptions=['the comparison rests on C03 to C16, which decide the figures of images without mask'])

PATTERNS = [(2, 2), (2, 2), (2, 2), (1, 2), (2, 1)]


class Colour(object):
    """The pixels with the same place in a cell of rows x cols."""

    def __init__(self, ctx, shape, cell=None):
        self.shape = shape
        self.cell = cell or ctx.pick(PATTERNS)
        self.at = tuple(ctx.int(0, c - 1, const=0) for c in self.cell)
        self.sl = tuple(slice(a, None, c) for a, c in zip(self.at, self.cell))
        self.mask = np.ones(shape, bool)
        self.mask[self.sl] = False
        self.count = int((~self.mask).sum())
        self.sub = np.empty(shape)[self.sl].shape


# ------------------------------------------------------------------ measurements without a camera
def scene(ctx, shape, level, noise, fixed, hi):
    return np.clip(np.rint(level + fixed + ctx.rng.normal(0, noise, shape)), 0, hi).astype(np.int64)


def measurement(ctx, col):
    """Images by file name, in the layout of the parser: a plausible camera, the other colours anything."""
    shape, multi = col.shape, ctx.chance(.5)
    n, hi = ctx.int(8, 16, const=0), ctx.pick([255, 1023, 4095, 65535])
    L = ctx.int(3, 8, const=0)
    Ld = ctx.int(3, 8, const=0) if ctx.chance(.3) else L
    store, images, k = {}, {'temporal': {}, 'spatial': {}}, [0]
    K = hi / ctx.logu(3000, 30000)
    dark, eta = .06 * hi, ctx.uniform(.1, .9)
    rowcol = ctx.pick([0, 1, 1])
    dsnu = ctx.rng.normal(0, .004 * hi, shape) + rowcol * (ctx.rng.normal(0, .003 * hi, (shape[0], 1)) + ctx.rng.normal(0, .003 * hi, (1, shape[1])))
    prnu = 1 + ctx.rng.normal(0, .01, shape) + rowcol * (ctx.rng.normal(0, .01, (shape[0], 1)) + ctx.rng.normal(0, .01, (1, shape[1])))
    other = ctx.pick(['noise', 'bright', 'black', 'same'])

    def series(m, level):
        names = []
        for _ in range(m):
            i = scene(ctx, shape, dark, max(.6, .001 * hi), dsnu, hi) if level == 0 else \
                scene(ctx, shape, dark, np.sqrt(max(.4, (.001 * hi) ** 2) + K * level), dsnu + level * prnu, hi)
            if other == 'noise':
                i = np.where(col.mask, ctx.rng.integers(0, hi + 1, shape), i)
            elif other != 'same':
                i = np.where(col.mask, hi if other == 'bright' else 0, i)
            name = 'i%d' % k[0]
            k[0] += 1
            store[name] = i.astype(np.uint8 if hi < 256 else np.uint16)
            names.append(name)
        return names
    levels = np.linspace(.03, 1.05, n) * hi
    photons = [round(float(v / K / eta), 3) for v in levels]
    mid = n // 2
    if multi:
        for j in ctx.shuffled(range(n)):
            e = 1000. * (j + 1)
            images['temporal'][e] = {photons[j]: series(2, levels[j]), 0.0: series(2, 0)}
        images['spatial'][1000. * (mid + 1)] = {photons[mid]: series(L, levels[mid]), 0.0: series(Ld, 0)}
    else:
        images['temporal'][5000.] = {photons[j]: series(2, levels[j]) for j in ctx.shuffled(range(n))}
        images['temporal'][5000.][0.0] = series(2, 0)
        images['spatial'][5000.] = {0.0: series(Ld, 0), photons[mid]: series(L, levels[mid])}
    for name in store:
        open(os.path.join(ctx.tmp, name), 'w').close()
    ctx.note(shape=shape, cell=col.cell, at=col.at, multi=multi, points=n, L=L, L_dark=Ld, full_scale=hi, other_pixels=other)
    ctx.sig(shape, col.cell, col.at, multi, n, L, Ld, hi, other)
    return store, images


def load(ctx, store, images, col, masked):
    def fload(path, which, fill=None):
        i = store[os.path.basename(path)]
        if which == 'masked':
            return np.ma.array(i, mask=col.mask, fill_value=fill)
        return i[col.sl]
    d = LoadImageData(images, path=ctx.tmp, loglevel=50, fload=fload, fload_args=['masked' if masked else 'pixels'],
                      fload_kwargs={'fill': ctx.pick([0, 7, 200])} if masked and ctx.chance(.5) else {})
    return Data1288(d.data, loglevel=50, pixels=col.count if masked or ctx.chance(.5) else None)


def both(ctx, col):
    store, images = measurement(ctx, col)
    kw = {'pixel_area': ctx.logu(1, 100)} if ctx.chance(.5) else {}
    a, b = load(ctx, store, images, col, True), load(ctx, store, images, col, False)
    return Results1288(a.data, loglevel=50, **kw), Results1288(b.data, loglevel=50, **kw), store, images


# ------------------------------------------------------------------ comparison
def compare_values(ctx, a, b, ref):
    """Values of the colour against those of its pixels alone."""
    n = 0
    ctx.eq(sorted(a), sorted(b), 'quantities')
    dV = max(abs(ref.s_2_y_measured_dark), ref.sigma_2_y_stack_dark)
    pV = max(abs(ref.s_2_y_measured), ref.sigma_2_y_stack, dV)
    for k in sorted(a):
        if k.startswith('histogram_PRNU'):
            continue                                   # filtered within the whole image (C14)
        if 'data' in a[k]:
            for q in b[k]['data']:
                ctx.close(a[k]['data'][q], b[k]['data'][q], '%s %s' % (k, q), rtol=1e-9, atol=1e-9)
            n += 1
            continue
        x, y = a[k]['value'], b[k]['value']
        if y is None:
            ctx.check(x is None, k + ' is not defined', got=x)
        elif k.startswith('s_2_y') or k.startswith('sigma_2_y'):
            ctx.close(x, y, k, rtol=1e-9, atol=1e-11 * (dV if k.endswith('_dark') else pV))
        elif k.startswith(('DSNU', 'PRNU')):
            # roots of differences: an exact zero may come out on either side
            scale = {'DSNU1288_DN': 1.}.get(k, abs(ref.K)) if k[0] == 'D' else \
                abs(ref.spatial['avg_mean'] - ref.spatial['avg_mean_dark']) / 100.
            g, w = [0. if np.isnan(v) else (v * scale) ** 2 for v in (x, y)]
            ctx.close(g, w, k + ' squared', rtol=1e-8, atol=1e-10 * (dV if k[0] == 'D' else pV))
        else:
            ctx.close(x, y, k, rtol=1e-9)
        n += 1
    ctx.ev('quantities', n)


@P.scenario(quick=500, must=['quantities', 'histograms'])
def patterns(ctx):
    """Masked images of one colour against the images of its pixels."""
    col = Colour(ctx, (ctx.int(12, 40, const=0), ctx.int(12, 40, const=0)))
    a, b, store, images = both(ctx, col)
    for k in ('u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark', 'texp'):
        ctx.array_eq(a.temporal[k], b.temporal[k], 'temporal ' + k)
    before = [a.spatial[k].copy() for k in ('sum', 'sum_dark')]
    compare_values(ctx, a.results, b.results, b)
    for k, o in zip(('sum', 'sum_dark'), before):
        ctx.check(np.array_equal(o.mask, a.spatial[k].mask) and np.array_equal(o.compressed(), a.spatial[k].compressed()),
                  'images changed while computing the results')
        ctx.array_eq(np.ma.getmaskarray(a.spatial[k]), col.mask, 'mask of ' + k)
        ctx.array_eq(np.ma.compressed(a.spatial[k]).reshape(col.sub), b.spatial[k], 'pixels of ' + k)
    # the PRNU histograms have every pixel with a whole neighbourhood once
    inner = (~col.mask[2:-2, 2:-2]).sum()
    h = read(a, "histogram_PRNU")
    ctx.eq(int(np.sum(h['values'])), int(inner), 'pixels in the PRNU histogram')
    # as XML
    x, y = xml_to_dict(a.xml()), xml_to_dict(b.xml())
    ctx.eq(sorted(x), sorted(y), 'sections')
    by_name = {k.lower(): v for k, v in a.results.items()}
    for s in y:
        for k in y[s]:
            if 'value' in y[s][k]:
                r = by_name[k]['value']
                ctx.check(x[s][k]['value'] == r or (r is not None and x[s][k]['value'] is not None and np.isnan(r) and np.isnan(x[s][k]['value'])),
                          'XML value of ' + k, got=x[s][k], want=r)
    ctx.ev('histograms')


@P.scenario(quick=200, must=['histograms', 'accumulated'])
def defects(ctx):
    """Histograms of the colour, with outliers, against the reference algorithm."""
    col = Colour(ctx, (ctx.int(8, 40, const=0), ctx.int(8, 40, const=0)))
    L = ctx.size(2, 12)
    b, d = [c14.add_outliers(ctx, curves.stack(ctx, L, col.shape)) for _ in range(2)]
    b, d = np.where(col.mask, (b * 3 + 7) % 65536, b), np.where(col.mask, 65535 - d, d)
    ctx.note(shape=col.shape, cell=col.cell, at=col.at, L=L)
    ctx.sig(col.shape, col.cell, col.at, L)
    c14.check_results(ctx, col.shape, b, d, col.mask)


@P.scenario(quick=100, must=['garbage'])
def others(ctx):
    """Whatever the other colours show, the results stay the same."""
    col = Colour(ctx, (ctx.int(12, 30, const=0), ctx.int(12, 30, const=0)))
    store, images = measurement(ctx, col)
    out = []
    for k in range(3):
        r = Results1288(load(ctx, store, images, col, True).data, loglevel=50)
        out.append(r.results)
        top = int(np.iinfo(store['i0'].dtype).max)
        for name in store:
            new = [0, top, ctx.rng.integers(0, top + 1, col.shape)][ctx.int(0, 2, const=0)]
            store[name] = np.where(col.mask, new, store[name]).astype(store[name].dtype)
    for r in out[1:]:
        for k in r:
            f = 'data' if 'data' in r[k] else 'value'
            ctx.check(c26.same(r[k][f], out[0][k][f]), 'grey values of other colours change ' + k, got=r[k][f], want=out[0][k][f])
    ctx.ev('garbage', len(out) - 1)


class Scattered(object):
    """All pixels but some defect ones, or but a frame around the image."""

    def __init__(self, ctx, shape):
        self.shape, self.cell, self.at = shape, 'scattered', None
        self.mask = np.zeros(shape, bool)
        kind = ctx.pick(['few', 'many', 'frame', 'row', 'one row less', 'one'])
        if kind in ('few', 'many'):
            self.mask = ctx.rng.random(shape) < (.02 if kind == 'few' else .4)
        elif kind == 'frame':
            self.mask[:ctx.int(0, 3)] = self.mask[:, :ctx.int(0, 3)] = True
            self.mask[shape[0] - ctx.int(0, 3):] = True
        elif kind == 'row':
            self.mask[ctx.int(0, shape[0] - 1)] = self.mask[:, ctx.int(0, shape[1] - 1)] = True
        elif kind == 'one row less':
            k = ctx.int(0, shape[0] - 1)
            self.mask[k, ctx.int(0, 1)::2] = True
        else:
            self.mask[ctx.int(0, shape[0] - 1), ctx.int(0, shape[1] - 1)] = True
        self.mask[1, 1] = self.mask[2, 3] = False
        self.sl, self.kind = ~self.mask, kind
        self.count = int((~self.mask).sum())


@P.scenario(quick=120, must=['statistics', 'accumulated histograms', 'garbage'])
def scattered(ctx):
    """Masks without a pattern: the statistics of the pixels that are left, and no influence of the others."""
    col = Scattered(ctx, (ctx.int(8, 30, const=0), ctx.int(8, 30, const=0)))
    store, images = measurement(ctx, col)
    ctx.note(mask=col.kind, pixels=col.count)
    ctx.sig(col.shape, col.kind, col.count)
    flat = {k: v[col.sl].reshape(1, -1) for k, v in store.items()}
    a = load(ctx, store, images, col, True)
    d = LoadImageData(images, path=ctx.tmp, loglevel=50, fload=lambda p: flat[os.path.basename(p)])
    b = Data1288(d.data, loglevel=50)
    for k in ('u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark', 'texp'):
        ctx.array_eq(a.data['temporal'][k], b.data['temporal'][k], 'temporal ' + k)
    for k in ('avg_mean', 'avg_var', 'var_mean', 'L'):
        for s in ('', '_dark'):
            ctx.close(a.data['spatial'][k + s], b.data['spatial'][k + s], 'spatial ' + k + s, rtol=1e-9)
    ctx.ev('statistics', 14)
    ra, rb = Results1288(a.data, loglevel=50), Results1288(b.data, loglevel=50)
    info = cls_1288_info(Results1288)
    names = [k for k, v in info.items() if v['section'] in ('sensitivity', 'linearity', 'dark_current')]
    names += ['s_2_y_measured', 's_2_y_measured_dark', 'sigma_2_y_stack', 'sigma_2_y_stack_dark']
    # rows, columns and profiles exist, whatever they show
    more = [k for k, v in info.items() if v['section'] == 'spatial' and k not in names]
    one = {k: read(ra, k) for k in names + more}
    for k in names:
        if isinstance(one[k], dict):
            for q in one[k]:
                ctx.close(one[k][q], read(rb, k)[q], '%s %s' % (k, q), rtol=1e-9, atol=1e-9)
            continue
        w = read(rb, k)
        ctx.check(one[k] is None and w is None or one[k] is not None and w is not None and np.isclose(one[k], w, rtol=1e-9, atol=0, equal_nan=True),
                  'value of ' + k, got=one[k], want=w)
        ctx.ev('values')
    for k in ('histogram_DSNU', 'histogram_DSNU_accumulated'):
        g, w = read(ra, k), read(rb, k)
        for q in w:
            ctx.close(g[q], w[q], k + ' ' + q, rtol=1e-9, atol=1e-9)
        ctx.ev('accumulated histograms')
    top = int(np.iinfo(store['i0'].dtype).max)
    for name in store:
        new = [0, top, ctx.rng.integers(0, top + 1, col.shape)][ctx.int(0, 2, const=0)]
        store[name] = np.where(col.mask, new, store[name]).astype(store[name].dtype)
    r = Results1288(load(ctx, store, images, col, True).data, loglevel=50)
    for k in one:
        g = read(r, k)
        ctx.check(c26.same(g, one[k]), 'grey values of masked pixels change ' + k, got=g, want=one[k])
    ctx.ev('garbage')


# ------------------------------------------------------------------ a simulated camera
def through(ctx, t):
    """Give the camera of c26.configure a filter pattern, and every colour its own nonuniformity. List of (Colour, truth)."""
    cell = ctx.pick([(2, 2), (2, 2), (1, 2), (2, 1)])
    shape, w, n = (t.M, t.N), t.wavelengths, cell[0] * cell[1]
    flat = ctx.chance(.5)
    if flat:
        trans = ctx.rng.uniform(.6, 1, (n, 1)) * np.ones((n, len(w)))
    else:
        trans = ctx.rng.uniform(.6, 1, (n, len(w)))
    full, out = np.zeros(shape + (len(w),)), []
    t.dsnu, t.prnu = np.zeros(shape), np.ones(shape)
    ds, ps = [ctx.pick([0, ctx.uniform(.3, 2)]) * t.s0 for _ in range(n)], [ctx.pick([0, ctx.uniform(.005, .02)]) for _ in range(n)]
    for k in range(n):
        c = Colour(ctx, shape, cell)
        c.at = (k // cell[1], k % cell[1])
        c.sl = tuple(slice(a, None, s) for a, s in zip(c.at, cell))
        c.mask = np.ones(shape, bool)
        c.mask[c.sl] = False
        c.count, c.sub = int((~c.mask).sum()), np.empty(shape)[c.sl].shape
        u = c26.Truth()
        u.__dict__.update(t.__dict__)
        u.M, u.N = c.sub
        m, u.dV = c26.component_map(ctx, c.sub, ds[k])
        t.dsnu[c.sl] = m
        m, u.pV = c26.component_map(ctx, c.sub, ps[k])
        t.prnu[c.sl] += m
        full[c.sl] = trans[k]
        out.append((c, u, trans[k]))
    t.dark0 = 8.5 * t.s0 + max(0, -float(t.dsnu.min()))
    qe = routines_qe(t, w, full)
    t.kw.update(dsnu=t.dsnu, prnu=t.prnu, dark_signal_0=t.dark0, qe=qe)
    for c, u, f in out:
        u.dark0 = t.dark0
    return out


def routines_qe(t, w, transmission):
    return cr.Qe(qe=t.qe.copy(), wavelength=w, width=t.N, height=t.M, filter=transmission)


def bayer(ctx, multi):
    t = c26.configure(ctx, multi, size=(80, 130), steps=(24, 40))
    t.limit_e = t.kw['u_esat'] = t.full * 1.5           # saturation of the converter
    colours = through(ctx, t)
    ctx.note(multi=multi, shape=(t.M, t.N), bits=t.bits, K=t.K, spectrum=t.spectrum, transmission=[f for _c, _u, f in colours], steps=t.steps, L=t.L)
    ctx.sig(multi, t.bits, t.steps, t.L, t.M, t.N, colours[0][0].cell)
    out = os.path.join(ctx.tmp, 'set')
    g = DatasetGenerator(outdir=out, **dict(t.gen, **t.kw))
    # share of the wavelengths in the light of a test
    light = max((r for rs in g.points['temporal'].values() for r in rs), key=np.mean)
    share = np.mean(np.asarray(g.cam.get_photons(light), float), axis=(0, 1))
    share = share / share.sum()
    desc = ParseEmvaDescriptorFile(g.descriptor_path, loglevel=50)
    for c, u, f in [colours[k] for k in ctx.shuffled(range(len(colours)))[:2]]:
        def fload(path, mask):
            return np.ma.array(load_image(path), mask=mask)
        i = LoadImageData(desc.images, loglevel=50, fload=fload, fload_args=[c.mask])
        res = Results1288(Data1288(i.data, loglevel=50, pixels=c.count).data, loglevel=50)
        u.eta = float(np.sum(share * t.spectrum * f))
        # a dim colour may not saturate: the last points differ by less than their noise
        c26.recovered(ctx, u, res, low=.8 - 9 * np.sqrt(2.0 / c.count))
        ctx.ev('colours')


@P.scenario(quick=24, must=['colours', 'recoveries', 'structures'])
def bayer_exposures(ctx):
    """A simulated camera with a filter pattern, exposure series: every colour comes out as configured."""
    bayer(ctx, True)


@P.scenario(quick=24, must=['colours', 'recoveries', 'structures'])
def bayer_light(ctx):
    bayer(ctx, False)


# ------------------------------------------------------------------ plots
@P.scenario(quick=60, must=['curves', 'profiles', 'spectrograms'])
def plots(ctx):
    """The plots of the colour have the curves of its pixels, at the places of these pixels."""
    import matplotlib.pyplot as plt
    col = Colour(ctx, (ctx.int(12, 40, const=0), ctx.int(12, 40, const=0)))
    a, b, _s, _i = both(ctx, col)
    got = []
    try:
        for r in (a, b):
            plt.close('all')
            r.id = 5
            with c27.no_layout(ctx):
                Plotting1288(r).plot()
            figs = [plt.figure(n) for n in plt.get_fignums()]
            ctx.eq(len(figs), len(EVMA1288plots), 'figures')
            # positions along the lines of pixels that have no colour are left out by matplotlib as by the package
            got.append([[(np.asarray(np.ma.filled(np.ma.asarray(l.get_xdata(orig=True)).astype(float), np.nan)),
                          np.asarray(np.ma.filled(np.ma.asarray(l.get_ydata(orig=True)).astype(float), np.nan)), '%s %s' % (l.get_gid(), l.get_label()))
                         for ax in f.axes for l in ax.get_lines() if ':' in str(l.get_gid())] for f in figs])
    finally:
        plt.close('all')
    for cls, x, y in zip(EVMA1288plots, *got):
        name = cls.__name__
        if 'HistogramPRNU' in name or 'HistPRNU' in name or name.endswith('LogHistogramPRNU'):
            h = read(a, "histogram_PRNU_accumulated" if "Accumulated" in name else "histogram_PRNU")
            ctx.check(any(len(l[0]) == len(h['bins']) for l in x), 'histogram in ' + name)
            continue
        ctx.eq([l[2] for l in x], [l[2] for l in y], 'lines of ' + name)
        for (gx, gy, gid), (wx, wy, _g) in zip(x, y):
            what = '%s %s' % (name, gid)
            if 'Spectrogram' in name and len(wx) > 2:
                step = col.cell[1] if 'Horizontal' in name else col.cell[0]
                full = col.shape[1] if 'Horizontal' in name else col.shape[0]
                sub = col.sub[1] if 'Horizontal' in name else col.sub[0]
                ctx.close(gy, wy, what, rtol=1e-7, atol=1e-9 * np.max(np.abs(wy)))
                ctx.close(gx * full, wx * sub, what + ' frequencies', rtol=1e-9)
                ctx.check(gx.max() <= .5 / step * (1 + 1e-9) * (sub * step / full), 'frequencies above what the pixels can show', got=gx.max())
                ctx.ev('spectrograms')
            elif 'Profile' in name:
                vertical = 'Vertical' in name
                (gp, gv), (wp, wv) = ((gy, gx), (wy, wx)) if vertical else ((gx, gy), (wx, wy))
                d = 0 if vertical else 1
                ctx.close(gp, wp * col.cell[d] + col.at[d], what + ' places', rtol=1e-12)
                if gid.endswith(' Mid'):
                    # the line next to the middle that has the colour
                    dark = b.spatial['sum_dark'] / b.spatial['L_dark']
                    v = dark if ':data' in gid else b.spatial['sum'] / b.spatial['L'] - dark
                    v = v.T if vertical else v
                    m = v.shape[0] // 2
                    ok = any(np.allclose(gv, v[k], rtol=1e-9, atol=1e-9 * np.abs(v).max()) for k in (m - 1, m, m + 1))
                    ctx.check(ok, what, got=gv, want=wv)
                else:
                    ctx.close(gv, wv, what, rtol=1e-9, atol=1e-9 * np.nanmax(np.abs(wv)))
                ctx.ev('profiles')
            else:
                ctx.close(gx, wx, what + ' x', rtol=1e-9, atol=1e-12)
                ctx.close(gy, wy, what + ' y', rtol=1e-9, atol=1e-9)
                ctx.ev('curves')
    ctx.sig('plots', col.shape, col.cell, col.at)
