"""C28: the report contains every operation point with its own results and plots."""
import contextlib
import os
import re

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                      # noqa: E402
import numpy as np                                   # noqa: E402
from matplotlib.figure import Figure                 # noqa: E402

from emva1288 import report                          # noqa: E402
from emva1288.process.results import Results1288     # noqa: E402

from mon.core import Property                        # noqa: E402
from mon import curves                               # noqa: E402
from mon.props import c27                            # noqa: E402
from mon.props.c17 import DOCUMENTED                 # noqa: E402
from mon.props.c18 import quiet as _quiet           # noqa: E402

P = Property('C28', 'case = history of one or more reports built side by side, operation points added with random names, settings and data, '
             'rendered once or several times; non-trivial = every figure, text, file and plot of every operation point compared, distinct '
             'by history and options')

# figure -> decimals displayed; None for figures that show a dash when they are missing
SHOWN = {'QE': 2, 'K': 3, 'inverse_K': 3, 'sigma_d': 3, 'sigma_y_dark': 3, 'SNR_max': 0, 'SNR_max_dB': 2, 'SNR_max_bit': 1,
         'inverse_SNR_max': 3, 'u_p_min': 3, 'u_p_min_area': 3, 'u_e_min': 3, 'u_e_min_area': 3, 'u_p_sat': 0, 'u_p_sat_area': 3,
         'u_e_sat': 0, 'u_e_sat_area': 0, 'DR': 0, 'DR_dB': 1, 'DSNU1288': 1, 'DSNU1288_row': 1, 'DSNU1288_col': 1,
         'DSNU1288_pixel': 1, 'PRNU1288': 1, 'PRNU1288_row': 1, 'PRNU1288_col': 1, 'PRNU1288_pixel': 1, 'LE_min': 3, 'LE_max': 3,
         'u_I_mean': 3, 'u_I_mean_DN': 3, 'u_I_var': 3, 'u_I_var_DN': 3}
NO_SYMBOL = {'SNR_max_dB', 'SNR_max_bit', 'DR_dB', 'u_I_mean_DN', 'u_I_var_DN'}      # in the row of the figure before
DASH = {'u_p_min_area', 'u_e_min_area', 'u_p_sat_area', 'u_e_sat_area', 'u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN'}
SUMMARY_PLOTS = {'PlotPTC', 'PlotSNR'}
BASIC = {'vendor': 'Vendor', 'model': 'Model', 'data_type': 'Data type', 'sensor_type': 'Sensor type', 'sensor_diagonal': 'Diagonal',
         'lens_category': 'Lens category', 'resolution': 'Resolution', 'pixel_size': 'Pixel size',
         'maximum_readout_rate': 'Maximum readout rate', 'dark_current_compensation': 'Dark current compensation',
         'interface_type': 'Interface type'}
BY_TYPE = {'CCD': {'readout_type': 'Readout type', 'transfer_type': 'Transfer type'},
           'CMOS': {'shutter_type': 'Shutter type', 'overlap_capabilities': 'Overlap capabilities'}}


def quiet(fn, *a, **k):
    return _quiet(fn, *a, **k)[0]


# ------------------------------------------------------------------ reading the report
def uncomment(tex):
    out = []
    for line in tex.splitlines():
        out.append(re.sub(r'(?<!\\)%.*', '', line))
    return '\n'.join(out)


def flat(s):
    return ' '.join(s.split())


def environments(ctx, tex):
    """Every environment that is opened is closed, in order, and braces are balanced."""
    stack = []
    for m in re.finditer(r'\\(begin|end)\{(\w+)\}', tex):
        if m.group(1) == 'begin':
            stack.append(m.group(2))
        else:
            ctx.check(stack and stack[-1] == m.group(2), 'environment closed that is not open', got=m.group(2), open=stack)
            stack.pop()
    ctx.eq(stack, [], 'environments left open')
    depth = 0
    for c in re.sub(r'\\[{}]', '', tex):
        depth += {'{': 1, '}': -1}.get(c, 0)
        if depth < 0:
            ctx.fail('closing brace without an opening one')
    ctx.eq(depth, 0, 'braces left open')


def graphics(tex):
    return re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^{}]*)\}', tex)


def item(ctx, tex, key, value, what):
    """\\textsl{key} \\hfill value \\\\ : the value shown next to a key."""
    want = flat(r'\textsl{%s} \hfill %s \\[1mm]' % (key, value))
    ctx.check(want in flat(tex), what, want=want, got=[flat(x) for x in tex.splitlines() if key in x][:6])
    ctx.ev('texts')


def number_ok(text, value, decimals):
    m = re.match(r'^-?\d+(?:\.(\d+))?$', text)
    if not m:
        return text.lower() == str(float(value)).lower()            # nan, inf
    d = len(m.group(1) or '')
    return d >= decimals and abs(float(text) - float(value)) <= 0.5000001 * 10.0 ** -d + 1e-9 * abs(value)


def figures(ctx, tex, ref, name):
    rows = [[flat(c) for c in r.split('&')] for r in re.split(r'\\\\(?:\[[^\]]*\])?', tex)]
    for k, dec in SHOWN.items():
        info = DOCUMENTED[k]
        v = getattr(ref, k)
        v = v() if callable(v) else v
        unit = info.get('unit')
        if k in NO_SYMBOL:
            cand = [r[-2] for r in rows if len(r) >= 3 and r[-3] == '' and r[-1] == unit]
        elif unit is None:
            cand = [r[1] for r in rows if len(r) == 2 and r[0] == info['symbol']]
        else:
            cand = [r[1] for r in rows if len(r) == 3 and r[0] == info['symbol'] and r[2] == unit]
        if v is None:
            ok = '-' in cand
        elif k in DASH and np.isnan(v):
            # no dark current with a single exposure; a fit that has no root
            ok = any(c == '-' or c.lower() == 'nan' for c in cand)
        else:
            ok = any(number_ok(c, v, dec) for c in cand)
        ctx.check(ok, '%s: %s is not shown with its value and unit' % (name, k), value=v, unit=unit, shown=cand)
        ctx.ev('figures')
        if v is None or np.isnan(v):
            ctx.ev('missing_values')


# ------------------------------------------------------------------ information
def text(ctx):
    words = [''.join(ctx.pick('abcdefghiklmnoprstuvwxyzABCDEFGHKLMNPRSTUVW0123456789') for _ in range(ctx.int(1, 8, const=0)))
             for _ in range(ctx.int(1, 3, const=0))]
    s = ' '.join(words)
    u = ctx.rng.random()
    if u < .1:
        s += r' $\mu m$'
    elif u < .2:
        s += ' <"%s"> \\& Co' % words[0]
    elif u < .25:
        s = "O'" + s
    elif u < .3:
        s += ' {x}'
    elif u < .38:
        s += ' ' + ctx.pick(['Müller', 'café', 'Ω-line', 'Łódź', 'µm', '日本', '«x»'])
    return s


def value(ctx):
    return ctx.pick([text(ctx), text(ctx), text(ctx), ctx.int(0, 1000), 0, ctx.uniform(-5, 5), True, False])


def word(ctx):
    return 'k' + ''.join(ctx.pick('abcdefghiklmnoprstuvwxyz') for _ in range(7))


def given(ctx, keys, p):
    return {k: text(ctx) for k in keys if ctx.chance(p)}


def make_file(ctx, content):
    d = os.path.join(ctx.tmp, 'src_' + word(ctx))
    os.makedirs(d)
    f = os.path.join(d, ctx.pick(['logo.pdf', 'plot.pdf', 'image.pdf', word(ctx) + '.pdf', word(ctx) + '.v2.png']))
    with open(f, 'wb') as o:
        o.write(content)
    return f


class Info(object):
    """What the user says about the camera."""

    def __init__(self, ctx):
        self.files = {}
        b = given(ctx, list(BASIC) + [k for t in BY_TYPE.values() for k in t], .7)
        b.pop('sensor_type', None)
        u = ctx.rng.random()
        if u < .7:
            b['sensor_type'] = ctx.pick(['CCD', 'CMOS'])
        elif u < .8:
            b['sensor_type'] = text(ctx)
        if ctx.chance(.2):
            b['sensor_diagonal'] = ctx.pick([0, 12.5, 2048])
        m = {}
        if ctx.chance(.5):
            m['watermark'] = text(ctx)
        if ctx.chance(.15):
            m['vendor'] = text(ctx)
        for key, where in (('qe_plot', b), ('logo', m), ('missingplot', m)):
            if ctx.chance(.4):
                content = ('%%PDF-1.4 %s %s' % (key, word(ctx))).encode()
                where[key] = make_file(ctx, content)
                self.files[key] = content
        self.basic_given, self.marketing_given = b, m
        s = given(ctx, ['Light source', 'Light source non uniformity', 'Irradiation calibration accuracy',
                        'Irradiation measurement error', 'Standard version'], .6)
        if ctx.chance(.3):
            s[word(ctx)] = value(ctx)
        self.setup_given = s
        self.cover = None
        self.kw = {}
        if b or ctx.chance(.5):
            self.kw['basic'] = report.info_basic(**b)
        if m or ctx.chance(.5):
            self.kw['marketing'] = report.info_marketing(**m)
        if s or ctx.chance(.5):
            self.kw['setup'] = report.info_setup(**s)
        if ctx.chance(.4):
            self.cover = os.path.join(ctx.tmp, word(ctx) + '.tex')
            with open(self.cover, 'w') as f:
                f.write('cover\n\\newpage\n')
            if ctx.chance(.5) or 'marketing' not in self.kw:
                self.kw['cover_page'] = self.cover
                if 'marketing' in self.kw and ctx.chance(.5):
                    self.kw['marketing']['cover_page'] = 'another.tex'      # the one given to the report counts
            else:
                self.kw['marketing']['cover_page'] = self.cover


def read_bytes(outdir, rel):
    with open(os.path.join(outdir, rel), 'rb') as f:
        return f.read()


def packaged(name):
    return read_bytes(os.path.join(os.path.dirname(report.__file__), 'files'), name)


def check_info(ctx, info, outdir, tex, sty):
    head = tex
    b = info.basic_given
    shown = dict(BASIC)
    st = b.get('sensor_type')
    shown.update(BY_TYPE.get(st, {}))
    for k, label in shown.items():
        v = b.get(k)
        v = '-' if v is None else v
        v = {'resolution': '%s pixels', 'pixel_size': r'%s $\mu m$'}.get(k, '%s') % (v,)
        item(ctx, head, label, v, 'basic information ' + k)
    for t, keys in BY_TYPE.items():
        if t != st:
            for k, label in keys.items():
                ctx.check(r'\textsl{%s}' % label not in head, 'entry of another type of sensor', key=k, sensor_type=st)
    pos = -1
    for k, v in report.info_setup(**info.setup_given).items():
        item(ctx, head, k, '-' if v is None else v, 'setup information ' + k)
        p = head.find(r'\textsl{%s}' % k)
        ctx.check(p > pos, 'order of the setup information', key=k)
        pos = p
    wm = info.marketing_given.get('watermark')
    if wm:
        ctx.check('text={%s}' % wm in tex, 'watermark', want=wm)
        ctx.ev('texts')
    else:
        ctx.check('watermark' not in tex, 'watermark that nobody asked for')
    if info.cover:
        ctx.check(r'\input{%s}' % info.cover in tex, 'cover page', want=info.cover)
        ctx.check(tex.index(r'\input{%s}' % info.cover) < tex.index('Datasheet'), 'cover page comes first')
        ctx.ev('texts')
    else:
        ctx.check(r'\input{' not in tex, 'cover page that nobody gave')
    # logo in the page header, the plot of the quantum efficiency on the first page
    logos = [read_bytes(outdir, g) for g in graphics(sty)]
    ctx.check(info.files.get('logo', packaged('missinglogo.pdf')) in logos, 'logo', got=graphics(sty), given=info.marketing_given.get('logo'))
    first = [read_bytes(outdir, g) for g in graphics(tex.split(r'\ReportSection{Operation Point', 1)[0])]
    want = info.files.get('qe_plot') or info.files.get('missingplot') or packaged('missingplot.pdf')
    ctx.eq(first, [want], 'plot of the quantum efficiency', given=b.get('qe_plot'))
    if b.get('model'):
        ctx.check(b['model'] in sty, 'model in the page header')
    vendor = info.marketing_given.get('vendor') or b.get('vendor')
    if vendor:
        ctx.check(vendor in sty, 'vendor in the page header', want=vendor)
    ctx.ev('files')


# ------------------------------------------------------------------ monitored plots
SAVED = []


def in_file(path):
    """The figure of a stand-in."""
    with open(path, 'rb') as f:
        m = re.match(rb'%PDF-1.4 stand-in (\d+)$', f.read(100))
    return SAVED[int(m.group(1))] if m else None


@contextlib.contextmanager
def watched(ctx, saved, real):
    """Records which figure goes to which file; writing the files for real takes most of the time."""
    old_save, old_layout = Figure.savefig, Figure.tight_layout

    def savefig(self, fname, *a, **k):
        if isinstance(fname, (str, os.PathLike)):
            saved.append((os.path.abspath(os.fspath(fname)), self))
            if not real:
                # the file says which figure it holds
                SAVED.append(self)
                with open(fname, 'wb') as f:
                    f.write(b'%%PDF-1.4 stand-in %d' % (len(SAVED) - 1))
                return
        return old_save(self, fname, *a, **k)

    Figure.savefig = savefig
    if not real:
        Figure.tight_layout = lambda self, *a, **k: None
    try:
        yield
    finally:
        Figure.savefig, Figure.tight_layout = old_save, old_layout


class Point(object):
    """An operation point as the user gives it."""

    def __init__(self, ctx, like=None, same=None):
        self.data = c27.data(ctx)
        self.flat = ctx.chance(.12)
        if self.flat:
            # figures that are zero are not missing
            sp = self.data['spatial']
            s = sp['sum'].shape
            lev = ctx.int(0, 20)
            L = ctx.int(2, 9)
            v, _b, _d = curves.spatial_data(ctx, s, bright=np.full((L,) + s, lev + 3000), dark=np.full((L,) + s, lev))
            t = dict(self.data['temporal'])
            t['u_y'] = np.asarray(t['u_y'], dtype=float) - t['u_ydark']
            t['u_ydark'] = np.zeros(len(t['u_y']))
            self.data = dict(self.data, spatial=v, temporal=t)
            ctx.ev('zero_figures')
        self.op = report.info_op()
        ctx.eq(len(self.op['camera_settings']) + len(self.op['test_parameters']), 0, 'a new operation point has no settings')
        if same is not None:
            # the object of an earlier point, filled in again
            self.op = same
            self.op['name'] = None
            self.op['camera_settings'].clear()
            self.op['test_parameters'].clear()
            ctx.ev('objects used again')
        self.name = ctx.pick([text(ctx), 'Point', 'OP1', 'OP2', 'Gain 0']) if ctx.chance(.75) else None
        if like is not None:
            # an earlier point is used as a form
            self.op = dict(like, camera_settings=self.op['camera_settings'], test_parameters=self.op['test_parameters'], name=None)
            ctx.ev('copied_points')
        if self.name is not None or ctx.chance(.5):
            self.op['name'] = self.name
        self.summary = ctx.pick([None, False, True, True])
        self.op['summary_only'] = self.summary
        self.camera = {word(ctx): value(ctx) for _ in range(ctx.int(0, 4, const=0))}
        self.params = {word(ctx): value(ctx) for _ in range(ctx.int(0, 4, const=0))}
        if ctx.chance(.6):
            self.params['Wavelength'] = ctx.pick(['%d nm' % ctx.int(300, 1100), text(ctx)])
        self.op['camera_settings'].update(self.camera)
        self.op['test_parameters'].update(self.params)
        self.kw = {}
        if ctx.chance(.4):
            self.kw['pixel_area'] = ctx.logu(.5, 200)
        if ctx.chance(.2):
            self.kw['index_u_ysat'] = int(ctx.int(6, len(self.data['temporal']['u_p']) - 1))
        self.ref = Results1288({k: dict(self.data[k]) for k in self.data}, loglevel=50, **self.kw)
        self.plots_ok = self.ref.u_p_sat > 1.05 * self.ref.u_p_min

    def add(self, ctx, rep):
        res = None
        before = dict(self.op)
        if self.kw:
            res = Results1288(self.data, loglevel=50, **self.kw)
            if ctx.chance(.3):
                res.id = ctx.int(2, 9, const=0)         # a number it had elsewhere
        with ctx.unchanged('the data of the operation point', self.data):
            if res is None:
                quiet(rep.add, self.op, self.data)
            elif ctx.chance(.5):
                quiet(rep.add, self.op, self.data, res)
            else:
                quiet(rep.add, self.op, self.data, results=res)
        ctx.check(list(self.op) == list(before) and all(self.op[k] is v for k, v in before.items() if not isinstance(v, dict)),
                  'the object of the operation point was changed', was=before, now={k: v for k, v in self.op.items() if k in before})
        for k, v in (('camera_settings', self.camera), ('test_parameters', self.params)):
            ctx.eq(list(self.op[k].items()), list(v.items()), k + ' of the operation point was changed')


class Report(object):
    def __init__(self, ctx, k):
        self.info = Info(ctx)
        self.outdir = os.path.join(ctx.tmp, 'report%d' % k)
        arg = self.outdir
        if ctx.chance(.3):
            arg = os.path.relpath(self.outdir)
        if ctx.chance(.2):
            os.makedirs(self.outdir, exist_ok=True)
            if ctx.chance(.5):
                # something is there already
                for d in ctx.shuffled(['files', 'upload', 'OP1'])[:ctx.int(1, 3, const=0)]:
                    os.makedirs(os.path.join(self.outdir, d), exist_ok=True)
                    with open(os.path.join(self.outdir, d, 'notes.txt'), 'w') as f:
                        f.write('notes')
                ctx.ev('directories there before')
        self.saved = []
        self.points = []
        kw = dict(self.info.kw)
        with ctx.unchanged('the information objects', kw):
            self.rep = quiet(report.Report1288, arg, **kw)
        self.watch_info = kw

    def check(self, ctx):
        info = self.info
        with ctx.unchanged('the information objects', self.watch_info):
            quiet(self.rep.latex)
        raw = read_bytes(self.outdir, 'report.tex')
        # as LaTeX reads it
        m = re.search(rb'^[^%\n]*\\usepackage\[(\w+)\]\{inputenc\}', raw, re.M)
        code = {'latin1': 'iso8859-1', 'ansinew': 'cp1252', 'utf8x': 'utf-8'}.get(m.group(1).decode(), m.group(1).decode()) if m else 'utf-8'
        try:
            raw = raw.decode(code)
            sty = read_bytes(self.outdir, 'emvadatasheet.sty').decode(code)
        except UnicodeDecodeError as e:
            ctx.fail('the files are not in the encoding that the report states', encoding=code, error=e)
        tex, sty = uncomment(raw), uncomment(sty)
        ctx.check('%{' not in raw and '%}' not in raw, 'template code in the report')
        environments(ctx, tex)
        for g in graphics(tex) + graphics(sty):
            p = os.path.realpath(os.path.join(self.outdir, g))
            ctx.check(g and not os.path.isabs(g) and p.startswith(os.path.realpath(self.outdir) + os.sep), 'file outside the report', file=g)
            ctx.check(os.path.isfile(p) and os.path.getsize(p) > 0, 'file that does not exist in the report directory', file=g)
            ctx.ev('files')
        parts = re.split(r'\\ReportSection\{Operation Point', tex)
        head, parts = parts[0], parts[1:]
        check_info(ctx, info, self.outdir, tex, sty)
        ctx.eq(len(parts), len(self.points), 'number of operation points in the report')
        labels = [re.findall(r'\\label\{([^{}]*)\}', p) for p in parts]
        ctx.check(all(len(x) == 1 for x in labels), 'one label per operation point', labels=labels)
        labels = [x[0] for x in labels]
        ctx.eq(len(set(labels)), len(labels), 'distinct labels', labels=labels)
        ctx.eq(re.findall(r'\\pageref\{([^{}]*)\}', head), labels, 'points listed on the first page, in their order')
        overview = re.split(r'Operation Point: ', head)[1:]
        used = []
        for pt, part, label, over in zip(self.points, parts, labels, overview):
            name = pt.name if pt.name else None
            for where, t in (('section', part), ('overview', over)):
                if name is not None:
                    ctx.check(r'\textbf{%s}' % name in t, 'name of the operation point in the ' + where, want=name, got=flat(t)[:200])
                for k, v in list(pt.camera.items()) + list(pt.params.items()):
                    item(ctx, t, k, v, 'setting of the operation point in the ' + where)
                pos, ft = -1, flat(t)
                for k, v in list(pt.camera.items()) + list(pt.params.items()):
                    pos = ft.find(flat(r'\textsl{%s} \hfill %s \\[1mm]' % (k, v)), pos + 1)
                    ctx.check(pos >= 0, 'settings of the operation point in the order given, in the ' + where, key=k)
                for other in self.points:
                    for k in list(other.camera) + list(other.params):
                        if k not in pt.camera and k not in pt.params:
                            ctx.check(r'\textsl{%s}' % k not in t, 'setting of another operation point in the ' + where, key=k)
            if 'Wavelength' in pt.params:
                ctx.check('@' + str(pt.params['Wavelength']) in part, 'wavelength in the title of the section')
            if name is None:
                t = re.findall(r'\\textbf\{([^{}]*)\}', part.split('\\begin', 1)[0])
                ctx.check(t and all(x.strip() for x in t) and 'None' not in t, 'name of an operation point without a name', got=t)
            figures(ctx, part, pt.ref, label)
            gs = graphics(part)
            names = [os.path.splitext(os.path.basename(g))[0] for g in gs]
            want = sorted(SUMMARY_PLOTS if pt.summary else c27.NAMES)
            ctx.eq(sorted(names), want, 'plots of the operation point', summary=pt.summary)
            for g, n in zip(gs, names):
                p = os.path.realpath(os.path.join(self.outdir, g))
                used.append(p)
                figs = [f for q, f in self.saved if os.path.realpath(q) == p]
                fig = in_file(p) or (figs[-1] if figs else None)
                if fig is not None and pt.plots_ok:
                    ids = {str(ln.get_gid()).split(':')[0] for ax in fig.axes for ln in ax.get_lines() if ':' in str(ln.get_gid())}
                    ctx.eq(len(ids), 1, n + ': tests in the plot of one operation point')
                    c27.judge(ctx, n, fig, Tested(ids.pop()), pt.ref)
                    ctx.ev('plots')
            ctx.ev('points')
        ctx.eq(len(set(used)), len(used), 'plot files used once')
        return raw, sty


class Tested(object):
    def __init__(self, id_):
        self.id = id_


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@P.scenario(quick=120, must=['points', 'figures', 'texts', 'files', 'missing_values', 'copied_points', 'objects used again', 'same_directory', 'directories there before'])
def histories(ctx):
    """Several reports built side by side, points added in turns, rendered in between."""
    n = ctx.pick([1, 1, 2, 3])
    real = ctx.chance(.03)
    hist = []
    SAVED.clear()
    os.makedirs(os.path.join(ctx.tmp, 'elsewhere'))
    with inside(ctx.tmp):
        reps = [Report(ctx, k) for k in range(n)]
    total = ctx.int(1, 2 if real else 5, const=0)
    if ctx.idx % 60 == 35 and not real:
        total = ctx.int(9, 13, const=0)
    ctx.note(reports=n, points=total, info=[sorted(r.info.kw) for r in reps], files=[sorted(r.info.files) for r in reps])
    try:
        with inside(os.path.join(ctx.tmp, 'elsewhere')):
            for _ in range(total):
                i = ctx.int(0, n - 1, const=0)
                earlier = [p.op for r in reps for p in r.points]
                how = ctx.pick(['', '', 'form', 'again']) if earlier else ''
                pt = Point(ctx, ctx.pick(earlier) if how == 'form' else None, ctx.pick(earlier) if how == 'again' else None)
                with watched(ctx, reps[i].saved, real):
                    pt.add(ctx, reps[i].rep)
                reps[i].points.append(pt)
                hist.append((i, bool(pt.summary), bool(pt.kw), pt.name is not None))
                if ctx.chance(.2):
                    j = ctx.int(0, n - 1, const=0)
                    reps[j].check(ctx)
                    hist.append(('latex', j))
                    ctx.ev('early_rendering')
            texts = [r.check(ctx) for r in reps]
            for r, t in zip(reps, texts):           # once more: nothing left behind by the others
                ctx.check(r.check(ctx) == t, 'a report rendered again differs')
            if not real and ctx.chance(.25):
                # later, another report in the directory of an earlier one
                with inside(ctx.tmp):
                    r = Report(ctx, ctx.int(0, n - 1, const=0))
                pt = Point(ctx)
                with watched(ctx, r.saved, False):
                    pt.add(ctx, r.rep)
                r.points.append(pt)
                r.check(ctx)
                ctx.ev('same_directory')
        ctx.note(history=hist)
        ctx.sig(n, hist, [sorted(r.info.kw) for r in reps], [sorted(r.info.files) for r in reps])
    finally:
        plt.close('all')


@P.scenario(quick=200, must=['texts', 'files'])
def information(ctx):
    """Reports without measurements: the information of the user in all combinations."""
    n = ctx.pick([1, 2, 3])
    with inside(ctx.tmp):
        reps = [Report(ctx, k) for k in range(n)]
    for k in ctx.rng.permutation(n):
        reps[k].check(ctx)
    ctx.note(info=[sorted(r.info.kw) for r in reps], basic=[sorted(r.info.basic_given) for r in reps])
    ctx.sig([(sorted(r.info.basic_given), sorted(r.info.marketing_given), sorted(r.info.setup_given), bool(r.info.cover)) for r in reps])


def same_info(ctx, got, want):
    ctx.eq(list(got.items()), list(want.items()), 'information object')


@P.scenario(quick=100, must=['containers'])
def containers(ctx):
    """The information containers hold what they are given, and share nothing."""
    for fn in (report.info_basic, report.info_marketing, report.info_setup):
        empty = fn()
        ctx.check(len(empty) > 0 and all(v is None for v in empty.values()), fn.__name__ + ' without information', got=empty)
        kw = given(ctx, [k for k in empty if ' ' not in k] or list(empty), .5)
        kw[word(ctx)] = value(ctx)
        d = fn(**kw)
        for k in empty:
            ctx.eq(d[k], kw.get(k), 'entry of ' + fn.__name__, key=k)
        for k in kw:
            ctx.eq(d[k], kw[k], 'entry of ' + fn.__name__, key=k)
        ctx.eq(len(d), len(set(empty) | set(kw)), 'entries of ' + fn.__name__)
        d[word(ctx)] = 1
        same_info(ctx, fn(), empty)
        ctx.ev('containers')
    a, b = report.info_op(), report.info_op()
    a['camera_settings']['x'] = 1
    a['test_parameters']['y'] = 2
    ctx.check(not b['camera_settings'] and not b['test_parameters'], 'operation points share their settings')
    ctx.check(not report.info_op()['camera_settings'], 'operation points share their settings')
    ctx.sig(ctx.idx % 50)
