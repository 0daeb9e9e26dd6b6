"""C27: every plot shows the measured and fitted curves of every test given."""
import contextlib

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt          # noqa: E402
import numpy as np                       # noqa: E402
from matplotlib.figure import Figure     # noqa: E402

from emva1288.process import plotting    # noqa: E402
from emva1288.process.results import Results1288     # noqa: E402

from mon import curves                   # noqa: E402
from mon.core import Property            # noqa: E402
from mon.props.c16 import dft_power      # noqa: E402

P = Property('C27', 'case = one or more tests with different random data plotted with all or some of the standard plots in random order; '
             'non-trivial = every line of every axes read back and compared with values from separate result objects, distinct by '
             'plots, number of tests and layouts')

NAMES = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity',
         'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU', 'PlotVerticalSpectrogramPRNU',
         'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
         'PlotAccumulatedLogHistogramDSNU', 'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile', 'PlotVerticalProfile']


def line_data(ln):
    return np.asarray(ln.get_xdata(orig=True), float), np.asarray(ln.get_ydata(orig=True), float)


def lines_of(fig, tid):
    out = []
    for ax in fig.axes:
        for ln in ax.get_lines():
            g = str(ln.get_gid())
            if g.split(':')[0] == str(tid):
                out.append((g.split(':', 1)[1], ax, ln))
    return out


def agree(a, b, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(all='ignore'):
        s = np.nanmax(np.abs(b)) if np.any(np.isfinite(b)) else 0.0
        return bool(np.all((np.abs(a - b) <= rtol * np.abs(b) + 1e-12 * s + atol) | (np.isnan(a) & np.isnan(b)) | (a == b)))


class Seen(object):
    """The lines of one test in one figure, ticked off as they are recognised."""

    def __init__(self, ctx, fig, res, name):
        self.ctx, self.res, self.name = ctx, res, name
        self.left = lines_of(fig, res.id)

    def take(self, kind, x, y, what, alternatives=(), rtol=1e-9, kinds=None):
        for i, (k, ax, ln) in enumerate(self.left):
            if k not in (kinds or (kind,)):
                continue
            lx, ly = line_data(ln)
            if x is not None and not agree(lx, x):
                continue
            if any(agree(ly, v, rtol) for v in [y] + list(alternatives)):
                del self.left[i]
                self.ctx.ev('lines')
                self.ctx.ev('assertions')
                return ax
        got = [line_data(ln) for k, ax, ln in self.left if k in (kinds or (kind,))]
        near = [g for g in got if x is None or len(g[0]) == len(np.atleast_1d(x))]
        self.ctx.fail('%s: no %s' % (self.name, what), want_x=x, want_y=y, lines=len(got), near=near[:2] or got[:2])

    def level(self, value, what, vertical=False):
        """A marker across the axes."""
        for i, (k, ax, ln) in enumerate(self.left):
            if k != 'marker':
                continue
            lx, ly = line_data(ln)
            v = lx if vertical else ly
            if len(v) >= 1 and agree(v, np.full(v.shape, value)):
                del self.left[i]
                self.ctx.ev('lines')
                return
        self.ctx.fail('%s: no marker %s' % (self.name, what), want=value, markers=[line_data(ln) for k, ax, ln in self.left if k == 'marker'])

    def line_of(self, fn, lo, hi, what, rtol=1e-9):
        """A fit line: every point on the function, covering lo..hi."""
        for i, (k, ax, ln) in enumerate(self.left):
            if k != 'fit':
                continue
            lx, ly = line_data(ln)
            if len(lx) >= 2 and agree(ly, fn(lx), rtol) and np.min(lx) <= lo + 1e-9 * abs(lo) and np.max(lx) >= hi - 1e-9 * abs(hi):
                del self.left[i]
                self.ctx.ev('lines')
                return
        self.ctx.fail('%s: no fit line %s' % (self.name, what), fits=[line_data(ln) for k, ax, ln in self.left if k == 'fit'],
                      want=[fn(line_data(ln)[0]) for k, ax, ln in self.left if k == 'fit'])

    def points(self, pts, what):
        """Markers at these points, in whatever lines."""
        have = []
        for k, ax, ln in self.left:
            if k == 'marker':
                have += list(zip(*line_data(ln)))
        for p in pts:
            ok = any(agree(h, p) for h in have)
            self.ctx.check(ok, '%s: no marker of the %s' % (self.name, what), want=p, markers=have)
            self.ctx.ev('markers')
        self.left = [x for x in self.left if x[0] != 'marker']

    def done(self):
        extra = [k for k, ax, ln in self.left if k == 'data']
        self.ctx.check(not extra, '%s: data curves of the test that it does not have' % self.name,
                       lines=[line_data(ln) for k, ax, ln in self.left if k == 'data'])


# what the axes (x, y) must say their values are
PHOTONS, DN, CYCLES, PIXELS, PERCENT, TIME = ['photon'], ['[dn]'], ['pixel'], ['number of pixels'], ['%', 'percent'], ['[ns]']
UNITS = {'PlotPTC': (DN, ['[dn$^2$]']), 'PlotSensitivity': (PHOTONS, DN), 'PlotUyDark': (TIME, DN), 'PlotSNR': (PHOTONS, ['snr']),
         'PlotLinearity': (PHOTONS, DN), 'PlotDeviationLinearity': (PHOTONS, PERCENT),
         'PlotHorizontalSpectrogramPRNU': (CYCLES, PERCENT), 'PlotVerticalSpectrogramPRNU': (CYCLES, PERCENT),
         'PlotHorizontalSpectrogramDSNU': (CYCLES, DN), 'PlotVerticalSpectrogramDSNU': (CYCLES, DN),
         'PlotLogarithmicHistogramDSNU': (DN, PIXELS), 'PlotLogarithmicHistogramPRNU': (DN, PIXELS),
         'PlotAccumulatedLogHistogramDSNU': (DN, PERCENT), 'PlotAccumulatedLogHistogramPRNU': (DN, PERCENT)}


def units(ctx, name, fig):
    """The units that the axes state are those of the curves."""
    if name not in UNITS:
        return
    ax = fig.axes[0]
    for axis, label, want in zip('xy', (ax.get_xlabel(), ax.get_ylabel()), UNITS[name]):
        others = [u for u in (DN, PERCENT, TIME) if u is not want]
        label = label.lower()
        ctx.check(any(u in label for u in want) and not any(u in label for o in others for u in o),
                  '%s: unit of the %s axis' % (name, axis), label=label, want=want)
        ctx.ev('units')


def judge(ctx, name, fig, res, ref):
    """res: the test plotted (only its id is used); ref: a separate results object of the same data."""
    units(ctx, name, fig)
    t, sp = ref.temporal, ref.spatial
    s = Seen(ctx, fig, res, name)
    up, sig = t['u_p'], t['u_y'] - t['u_ydark']
    noise = t['s2_y'] - t['s2_ydark']
    a, b, sat = ref.index_sensitivity_min, ref.index_sensitivity_max, ref.index_u_ysat
    if name == 'PlotPTC':
        s.take('data', sig, noise, 'photon transfer curve')
        s.line_of(lambda x: ref.K * x, sig[a], sig[b], 'with the gain as slope')
        pts = [(sig[sat], noise[sat]), (sig[a], noise[a]), (sig[b], noise[b])]
        s.points(pts, 'saturation and fit range')
    elif name == 'PlotSensitivity':
        s.take('data', up, sig, 'sensitivity curve')
        s.line_of(lambda x: ref.R * x, up[a], up[b], 'with the responsivity as slope')
        s.points([(up[a], sig[a]), (up[b], sig[b])], 'fit range')
    elif name == 'PlotUyDark':
        s.take('data', t['texp'], t['u_ydark'], 'dark signal')
    elif name == 'PlotLinearity':
        lin = ref.linearity()
        i, j = ref.index_linearity_min, ref.index_linearity_max
        s.take('data', up, sig, 'linearity curve')
        s.line_of(lambda x: lin['fit_slope'] * x + lin['fit_offset'], up[i], up[j], 'of the linearity')
        s.points([(up[i], sig[i]), (up[j], sig[j])], 'fit range')
    elif name == 'PlotDeviationLinearity':
        i, j = ref.index_linearity_min, ref.index_linearity_max
        d = ref.linearity()['relative_deviation']
        s.take('data', up[i:j + 1], d[i:j + 1], 'deviation from linearity', rtol=1e-7)
        s.points([(up[i], d[i]), (up[j], d[j])], 'fit range')
    elif name == 'PlotSNR':
        nz = t['s2_y'] != 0
        s.take('data', up[nz], sig[nz] / np.sqrt(t['s2_y'][nz]), 'signal to noise curve')
        q = ref.QE / 100.

        def theory(x):
            return q * x / np.sqrt(ref.sigma_d ** 2 + ref.s2q / ref.K ** 2 + q * x)

        def total(x):
            return q * x / np.sqrt(ref.sigma_d ** 2 + ref.s2q / ref.K ** 2 + q * x + ref.DSNU1288 ** 2 + (ref.PRNU1288 / 100. * q * x) ** 2)
        hi = ref.u_p_sat - (ref.u_p_sat - ref.u_p_min) * .0101
        s.line_of(theory, ref.u_p_min, hi, 'of the theoretical SNR')
        s.line_of(np.sqrt, ref.u_p_min, hi, 'of the ideal SNR')
        s.line_of(total, ref.u_p_min, hi, 'of the total SNR')
        s.level(ref.u_p_min, 'sensitivity threshold', vertical=True)
        s.level(ref.u_p_sat, 'saturation', vertical=True)
    elif 'Spectrogram' in name:
        L = float(sp['L'])
        if name.endswith('PRNU'):
            img = sp['sum'] / L - sp['sum_dark'] / float(sp['L_dark'])
            mean = img.mean()
        else:
            img = sp['sum_dark'] / float(sp['L_dark'])
        if 'Vertical' in name:
            img = img.T
        p = dft_power(img)
        f = np.arange(len(p)) / float(img.shape[1])
        tol = 1e-6
        if name.endswith('PRNU'):
            s_take_spec(s, f, p, [lambda v: (v * mean / 100.) ** 2], img, tol)
            s.level(ref.PRNU1288, 'PRNU')
            s.level(100 * np.sqrt(ref.sigma_2_y_stack) / mean, 'temporal noise')
        else:
            s_take_spec(s, f, p, [lambda v: v ** 2], img, tol)
            s.level(ref.DSNU1288_DN(), 'DSNU')
            s.level(np.sqrt(ref.sigma_2_y_stack_dark), 'temporal noise in dark')
    elif 'Histogram' in name:
        h = {'PlotLogarithmicHistogramDSNU': lambda: ref.histogram_DSNU, 'PlotLogarithmicHistogramPRNU': lambda: ref.histogram_PRNU,
             'PlotAccumulatedLogHistogramDSNU': lambda: ref.histogram_DSNU_accumulated,
             'PlotAccumulatedLogHistogramPRNU': lambda: ref.histogram_PRNU_accumulated}[name]()
        s.take('data', h['bins'], h['values'], 'histogram')
        if 'Accumulated' not in name:
            s.take('fit', h['bins'], h['model'], 'model of the histogram')
    else:
        L = float(sp['L'])
        axes = {}
        for part, img in (('bright', sp['sum'] / L - sp['sum_dark'] / float(sp['L_dark'])), ('dark', sp['sum_dark'] / float(sp['L_dark']))):
            if 'Vertical' in name:
                img = img.T
            x = np.arange(img.shape[1])
            m = img.shape[0]
            for what, y, alt in (('mid', img[m // 2], [img[(m - 1) // 2]]), ('min', img.min(axis=0), []), ('max', img.max(axis=0), []),
                                 ('mean', img.mean(axis=0), [])):
                if 'Vertical' in name:
                    ax = None
                    for y_ in [y] + alt:
                        try:
                            ax = s.take('data', y_, x, '%s profile, %s' % (what, part), kinds=('data', 'marker'))
                            break
                        except Exception:
                            if y_ is ([y] + alt)[-1]:
                                raise
                else:
                    ax = s.take('data', x, y, '%s profile, %s' % (what, part), alternatives=alt, kinds=('data', 'marker'))
                axes.setdefault(part, set()).add(id(ax))
                if what == 'mean' and part == 'bright' and y.mean() > 0:
                    lim = ax.get_xlim() if 'Vertical' in name else ax.get_ylim()
                    ctx.check(min(lim) <= y.mean() <= max(lim), '%s: the mean profile of a test is out of view' % name, limits=lim, level=y.mean())
                    ctx.ev('views')
        ctx.check(len(axes['bright']) == 1 and len(axes['dark']) == 1 and axes['bright'] != axes['dark'],
                  '%s: bright and dark profiles are mixed' % name)
    s.done()


def view(ctx, name, fig, res):
    """When all tests are plotted the axes reach over the curves of each."""
    ax = fig.axes[0]
    if 'Profile' in name:
        other = fig.axes[1]
        if 'Vertical' in name:
            ctx.eq(ax.yaxis_inverted(), other.yaxis_inverted(), '%s: direction of the lines in the two halves' % name)
        return
    for r in res:
        for kind, ax, ln in lines_of(fig, r.id):
            if kind == 'marker' or kind == ('data' if name == 'PlotSNR' else 'fit'):
                # the signal to noise ratio behind saturation is of no interest
                continue
            x, y = line_data(ln)
            if name == 'PlotSNR':
                # up to the ideal ratio
                y = np.minimum(y, np.sqrt(x))
            for axis, v, (lo, hi) in zip('xy', (x, y), (ax.get_xlim(), ax.get_ylim())):
                lo, hi = min(lo, hi), max(lo, hi)
                log = getattr(ax, 'get_%sscale' % axis)() == 'log'
                v = v[np.isfinite(v) & ((v > 0) | (not log))]
                if not v.size or kind != 'data' and axis == 'x':
                    continue
                tol = 1e-9 * max(abs(lo), abs(hi))
                ctx.check(v.max() <= hi + tol, '%s: curve of a test out of view' % name, axis=axis, top=v.max(), limits=(lo, hi))
                if not log and kind == 'data':
                    ctx.check(v.min() >= lo - tol, '%s: curve of a test out of view' % name, axis=axis, low=v.min(), limits=(lo, hi))
                ctx.ev('views')


def bent(ctx, t):
    """A camera that is far from linear."""
    y = t['u_y'] - t['u_ydark']
    top = y.max()
    u = y / top
    k = ctx.pick([ctx.uniform(.6, .95), ctx.uniform(1.05, 1.6)])
    return dict(t, u_y=t['u_ydark'] + top * u ** k)


def s_take_spec(s, f, p, inverse, img, tol):
    """A spectrogram line; compared as power, where rounding of the mean has a known size."""
    m = float(np.abs(img).max())
    atol = 1e-10 + 1e-20 * m * m * img.size
    for i, (k, ax, ln) in enumerate(s.left):
        if k != 'data':
            continue
        lx, ly = line_data(ln)
        if agree(lx, f) and len(ly) == len(p):
            for inv in inverse:
                v = inv(ly)
                if np.all((np.abs(v - p) <= tol * np.abs(p) + atol)):
                    del s.left[i]
                    s.ctx.ev('lines')
                    return
    s.ctx.fail('%s: no spectrogram of the test against frequency' % s.name, want_f=f, want_power=p,
               lines=[line_data(ln) for k, ax, ln in s.left if k == 'data'])


# ------------------------------------------------------------------ workloads
def data(ctx, few_lines=False):
    """A measurement whose figures are all defined."""
    for _ in range(50):
        t, isat = curves.curve(ctx, n=ctx.int(10, 40, const=0), noise=ctx.pick([0, .005, .03]))
        if ctx.chance(.2):
            t = bent(ctx, t)
        shape = (ctx.size(5, 40), ctx.size(5, 40)) if ctx.chance(.97) else (ctx.int(40, 300), ctx.int(40, 300))
        if few_lines:
            shape = (ctx.int(2, 4, const=0), shape[1]) if ctx.chance(.5) else (shape[0], ctx.int(2, 4, const=0))
        L = ctx.int(2, 8, const=0) if ctx.chance(.8) else ctx.int(9, 60, const=0)
        kinds = ['camera', 'uniform', 'rowcol', 'gradient']
        b = curves.stack(ctx, L, shape, hi=60000, kind=ctx.pick(kinds))
        Ld = L if ctx.chance(.75) else ctx.int(2, 60, const=0)
        d = curves.stack(ctx, Ld, shape, hi=250, kind=ctx.pick(kinds))
        if b.mean() <= d.mean() + 1:
            continue
        sp, _b, _d = curves.spatial_data(ctx, shape, bright=b, dark=d)
        if ctx.chance(.2):
            # a point without noise among the others
            t['s2_y'] = np.array(t['s2_y'])
            t['s2_y'][ctx.int(1, len(t['s2_y']) - 2, const=0)] = 0
        v = {'temporal': t, 'spatial': sp}
        r = Results1288(v, loglevel=50)
        up = np.array([r.u_p_min, r.u_p_sat, r.K, r.QE, r.sigma_d])
        if np.all(np.isfinite(up)) and np.all(up[[0, 1, 2, 3]] > 0) and r.u_p_sat > 1.5 * r.u_p_min and np.isfinite(r.PRNU1288):
            # a zero in the corrected signal has no relative deviation
            return v
    raise RuntimeError('no usable measurement')


def tests(ctx, n, few_lines=0):
    vs = [data(ctx, ctx.chance(few_lines)) for _ in range(n)]
    kw = [{'index_u_ysat': int(ctx.int(6, len(v['temporal']['u_p']) - 1))} if ctx.chance(.15) else {} for v in vs]
    out = []
    small = ctx.shuffled(list(range(1, 2 * n + 1)))
    ids = ctx.chance(.5)
    for i, v in enumerate(vs):
        r = Results1288(v, loglevel=50, **kw[i])
        if ctx.chance(.6):
            r.id = int(small[i]) if ids else int(ctx.int(1, 10 ** 6)) * 10 + i
        out.append(r)
    refs = [Results1288({k: dict(v[k]) for k in v}, loglevel=50, **kw[i]) for i, v in enumerate(vs)]
    return vs, out, refs


@contextlib.contextmanager
def no_layout(ctx):
    """Text layout costs most of the time and shows no curve; leave it out now and then in."""
    if ctx.chance(.1):
        yield
        return
    old = Figure.tight_layout
    Figure.tight_layout = lambda self, *a, **k: None
    try:
        yield
    finally:
        Figure.tight_layout = old


def usable(refs):
    for r in refs:
        if not (r.u_p_sat > 1.05 * r.u_p_min):
            return False
    return True


@P.scenario(quick=110, must=['lines', 'figures'])
def together(ctx):
    """Plotting1288 with any number and order of tests and any subset and order of plots."""
    n = ctx.pick([1, 2, 2, 3, 4]) if ctx.idx % 40 != 25 else ctx.int(6, 14, const=0)
    vs, res, refs = tests(ctx, n)
    ctx.note(tests=n, points=[len(v['temporal']['u_p']) for v in vs], exposures=[len(set(v['temporal']['texp'])) for v in vs],
             shapes=[v['spatial']['sum'].shape for v in vs], ids=[getattr(r, 'id', None) for r in res])
    if not usable(refs):
        return
    plt.close('all')
    real_show = plt.show
    given = {id(r): getattr(r, 'id', None) for r in res}
    names = NAMES if ctx.chance(.3) else ctx.shuffled(NAMES)[:ctx.int(1, 8, const=0)]
    try:
        with ctx.unchanged('the data of the tests', vs), no_layout(ctx):
            pl = plotting.Plotting1288(*res)
            ctx.eq([id(x) for x in pl.tests], [id(r) for r in res], 'tests taken')
            shown = []
            show, plt.show = plt.show, lambda *a, **k: shown.append(len(plt.get_fignums()))
            if names is NAMES and ctx.chance(.5):
                pl.plot()
            else:
                pl.plot(*[getattr(plotting, x) for x in names])
            plt.show = show
            ctx.check(shown and set(shown) == {len(names)}, 'the figures are shown when all are made', figures=len(names), shown=shown)
        for r in res:
            if given[id(r)] is not None:
                ctx.eq(r.id, given[id(r)], 'id given to a test')
        ctx.eq(len({r.id for r in res}), n, 'distinct ids')
        ctx.eq(len(plt.get_fignums()), len(names), 'number of figures')
        # with no names given, the standard list in its order
        order = names if names is not NAMES else [c.__name__ for c in plotting.EVMA1288plots]
        ctx.eq(sorted(order), sorted(names), 'plots made')
        for num, name in zip(sorted(plt.get_fignums()), order):
            fig = plt.figure(num)
            title = ' '.join([a.get_title() for a in fig.axes] + [fig._suptitle.get_text() if fig._suptitle else ''])
            ctx.check(title.strip(), name + ' has no title')
            for r, ref in zip(res, refs):
                judge(ctx, name, fig, r, ref)
            view(ctx, name, fig, res)
            own = {str(r.id) for r in res}
            others = [ln.get_gid() for a in fig.axes for ln in a.get_lines() if ':' in str(ln.get_gid()) and str(ln.get_gid()).split(':')[0] not in own]
            ctx.check(not others, name + ' has lines of other tests', gids=others)
            ctx.ev('figures')
        ctx.sig(n, names if names is not NAMES else 'all', [len(set(v['temporal']['texp'])) > 1 for v in vs])
    finally:
        plt.show = real_show
        plt.close('all')


@P.scenario(quick=350, must=['lines'])
def single(ctx):
    """One plot class on its own figure, tests added one by one, as the report does."""
    name = NAMES[ctx.idx % len(NAMES)]
    n = ctx.pick([1, 1, 2])
    # the histogram of the PRNU needs neighbourhoods, the others do with few lines
    vs, res, refs = tests(ctx, n, few_lines=.15 if 'HistogramPRNU' not in name else 0)
    ctx.note(plot=name, tests=n, points=[len(v['temporal']['u_p']) for v in vs], shapes=[v['spatial']['sum'].shape for v in vs],
             exposures=[len(set(v['temporal']['texp'])) for v in vs])
    if not usable(refs):
        return
    for i, r in enumerate(res):
        r.id = i + 1
    with ctx.unchanged('the data of the tests', vs), no_layout(ctx):
        fig = plt.figure()
        try:
            p = getattr(plotting, name)(fig)
            for k, r in enumerate(res):
                p.plot(r)
                for q in range(k + 1):          # earlier curves stay
                    if 'Profile' not in name:
                        judge(ctx, name, fig, res[q], refs[q])
            p.rearrange()
            for r, ref in zip(res, refs):
                judge(ctx, name, fig, r, ref)
            view(ctx, name, fig, res)
        finally:
            plt.close(fig)
    ctx.sig(name, n, [v['spatial']['sum'].shape for v in vs])


# ------------------------------------------------------------------ own plots, repeated plots
def content(fig):
    """Everything visible of a figure."""
    out = []
    for ax in fig.axes:
        out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(), len(ax.patches), len(ax.texts),
                    len(ax.get_images()), len(ax.collections),
                    [(str(ln.get_gid()), line_data(ln)[0].tobytes(), line_data(ln)[1].tobytes()) for ln in ax.get_lines()]))
    return out


TEXTS = ['Own plot', 'Größe', 'a $x^2$', 'Image mean', 'm']


def own_class(ctx, k, log):
    """A plot of the user, as in doc/examples/extend_plots.py."""
    labels = {a: (ctx.pick(TEXTS) if ctx.chance(.6) else None) for a in ('title', 'xlabel', 'ylabel')}
    scales = {a: (ctx.pick(['log', 'linear']) if ctx.chance(.5) else None) for a in ('xscale', 'yscale')}
    name = 'own %d' % k
    base = plotting.Emva1288Plot
    if ctx.chance(.25):
        base = getattr(plotting, ctx.pick(NAMES[:6]))
        labels = scales = {}

    def plot(self, test):
        log.append((k, 'plot', id(self.figure), test))
        # the markers of the tests are told apart by the axes used
        ax = self.ax if hasattr(self, 'ax') else self.figure.axes[0]
        ax.plot(test.temporal['u_p'], test.temporal['u_y'], gid='%s:own%d' % (test.id, k))

    def rearrange(self):
        log.append((k, 'rearrange', id(self.figure), None))

    body = dict(labels, name=name, plot=plot, **scales)
    default = ctx.chance(.4)
    if not default:
        body['rearrange'] = rearrange
    return type('Own%d' % k, (base,), body), labels, scales, default, base


@P.scenario(quick=60, must=['own figures'])
def own(ctx):
    """Plots that the user wrote, alone and between the standard ones, each on a figure of its own with every test once."""
    n = ctx.pick([1, 1, 2, 3])
    vs, res, refs = tests(ctx, n)
    if not usable(refs):
        return
    log = []
    made = [own_class(ctx, k, log) for k in range(ctx.int(1, 4, const=0))]
    kinds = [(m[0], m) for m in made]
    if ctx.chance(.5):
        kinds += [(getattr(plotting, x), None) for x in ctx.shuffled(NAMES)[:ctx.int(1, 3, const=0)]]
    kinds = ctx.shuffled(kinds)
    if ctx.chance(.2):
        kinds = kinds + [kinds[0]]           # the same plot twice
    ctx.note(plots=[c.__name__ for c, _ in kinds], tests=n)
    plt.close('all')
    try:
        first = set()
        for _ in range(ctx.pick([0, 0, 1, 3])):
            f = plt.figure(ctx.int(1, 12, const=0))
            if not f.axes:
                f.add_subplot(111).plot([1, 2, 3], gid='mine')
            first.add(f.number)
        before = {k: content(plt.figure(k)) for k in first}
        with ctx.unchanged('the data of the tests', vs), no_layout(ctx):
            plotting.Plotting1288(*res).plot(*[c for c, _ in kinds])
        for k in first:
            ctx.check(plt.fignum_exists(k) and content(plt.figure(k)) == before[k], 'a figure that was open has changed', figure=k)
        new = [k for k in plt.get_fignums() if k not in first]
        ctx.eq(len(new), len(kinds), 'number of new figures')
        # numbers are given in the order made, except that free numbers below are not used again
        at, want = 0, []
        for num, (cls, m) in zip(sorted(new), kinds):
            fig = plt.figure(num)
            if m is None:
                for r, ref in zip(res, refs):
                    judge(ctx, cls.__name__, fig, r, ref)
                ctx.ev('figures')
                continue
            k = made.index(m)
            calls = [(k, 'plot', id(fig), r) for r in res] + ([] if m[3] else [(k, 'rearrange', id(fig), None)])
            got = log[at:at + len(calls)]
            at += len(calls)
            ctx.check(len(got) == len(calls) and all(g[:3] == c[:3] and g[3] is c[3] for g, c in zip(got, calls)),
                      'calls of an own plot: every test once and in order, then the end', got=[g[:2] for g in got], want=[c[:2] for c in calls],
                      figures=[g[2] == id(fig) for g in got])
            for r in res:
                mine = [line_data(ln) for kind, ax, ln in lines_of(fig, r.id) if kind == 'own%d' % k]
                ctx.check(len(mine) == 1 and agree(mine[0][0], r.temporal['u_p']) and agree(mine[0][1], r.temporal['u_y']),
                          'curve of an own plot', lines=len(mine))
            if m[4] is plotting.Emva1288Plot:
                ax = fig.axes[0]
                ctx.eq(len(fig.axes), 1, 'axes of an own plot')
                ctx.eq(ax.get_title(), m[1]['title'] or cls.name, 'title of an own plot')
                for a in 'xy':
                    ctx.eq(getattr(ax, 'get_%slabel' % a)(), m[1][a + 'label'] or '', 'axis label of an own plot')
                    ctx.eq(getattr(ax, 'get_%sscale' % a)(), m[2][a + 'scale'] or 'linear', 'scale of an own plot')
            ctx.ev('own figures')
        ctx.eq(at, len(log), 'calls of the own plots')
        ctx.sig('own', n, [c.__name__ for c, _ in kinds], sorted(first))
    finally:
        plt.close('all')


@P.scenario(quick=60, must=['kept figures'])
def again(ctx):
    """Plotting several times, other tests or the same ones: earlier figures stay, later ones are complete."""
    plt.close('all')
    kept = {}
    rounds = ctx.int(2, 4, const=0)
    vs, res, refs = tests(ctx, ctx.pick([1, 2]))
    if not usable(refs):
        return
    pl = plotting.Plotting1288(*res)
    try:
        with no_layout(ctx):
            for k in range(rounds):
                if k and ctx.chance(.4):
                    vs, res, refs = tests(ctx, ctx.pick([1, 2]))
                    if not usable(refs):
                        return
                    pl = plotting.Plotting1288(*res)
                elif k and ctx.chance(.3):
                    pl = plotting.Plotting1288(*res)
                if kept and ctx.chance(.3):
                    # the user closes one
                    num = ctx.pick(sorted(kept))
                    plt.close(num)
                    del kept[num]
                names = ctx.shuffled(NAMES)[:ctx.int(1, 4, const=0)]
                with ctx.unchanged('the data of the tests', vs):
                    pl.plot(*[getattr(plotting, x) for x in names])
                new = sorted(set(plt.get_fignums()) - set(kept))
                ctx.eq(len(new), len(names), 'number of new figures')
                for num, old in kept.items():
                    ctx.check(plt.fignum_exists(num) and content(plt.figure(num)) == old, 'a figure made before has changed', figure=num, round=k)
                    ctx.ev('kept figures')
                todo = list(names)
                for num in new:
                    fig = plt.figure(num)
                    for r, ref in zip(res, refs):
                        judge(ctx, todo[0], fig, r, ref)
                    todo.pop(0)
                    own_ids = {str(r.id) for r in res}
                    others = [ln.get_gid() for a in fig.axes for ln in a.get_lines()
                              if ':' in str(ln.get_gid()) and str(ln.get_gid()).split(':')[0] not in own_ids]
                    ctx.check(not others, 'lines of other tests in a new figure', gids=others)
                    kept[num] = content(fig)
                    ctx.ev('figures')
        ctx.sig('again', rounds, len(kept))
    finally:
        plt.close('all')
