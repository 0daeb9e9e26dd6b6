"""C25: a generated data set holds exactly the images that were captured."""
import contextlib
import gc
import os
import tempfile

import numpy as np
from PIL import Image

from emva1288.camera import camera as camera_module
from emva1288.camera import routines
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.points_generator import PointsGenerator
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile

from mon import cams, ref
from mon.core import Property
from mon.props import c05, c06

P = Property('C25', 'case = data set generated with a random configuration while an interposed grab logs every capture (settings in force, '
             'light, pixels); non-trivial = the log compared event by event with descriptor and files, and the loaded data with the '
             'reduction of the logged pixels; distinct by configuration')


@contextlib.contextmanager
def capture_log():
    log = []
    original = camera_module.Camera.grab

    def grab(self, radiance, *a, **k):
        img = original(self, radiance, *a, **k)
        log.append(dict(cam=self, texp=self.exposure, K=self.K, bo=self.blackoffset, rad=radiance, extra=(a, k),
                        f=self.environment['f_number'], T=self.environment['temperature'], img=np.array(img)))
        return img
    camera_module.Camera.grab = grab
    try:
        yield log
    finally:
        camera_module.Camera.grab = original


def config(ctx, bits=None):
    bits = bits or ctx.pick([8, 8, ctx.int(1, 8, const=0), 10, 12, 14, 16, ctx.int(9, 16, const=0)])
    w, h = ctx.int(2, 14, const=.1), ctx.int(2, 14, const=.1)
    if ctx.chance(.06):
        # a share of 99.5 % of the pixels exists
        w, h = ctx.pick([(10, 20), (20, 10), (25, 8), (40, 5)])
    full = 2 ** bits - 1
    kw = dict(bit_depth=bits, width=w, height=h, seed=ctx.int(0, 10 ** 6))
    kw['qe'] = routines.Qe(width=w, height=h, wavelength=np.linspace(480, 480 + ctx.int(1, 150), ctx.int(1, 4, const=0)))
    kw['u_esat'] = ctx.logu(2000, 60000)
    K = full / kw['u_esat'] * ctx.uniform(.6, 1.5)
    kw.update(K_min=K * .5, K_max=K * 2, K_steps=ctx.int(2, 30, const=0))
    if ctx.chance(.6):
        kw['K'] = K * ctx.uniform(.5, 2)
    if ctx.chance(.5):
        kw['blackoffset'] = ctx.pick([ctx.uniform(0, .05) * full] * 3 + [0])
    kw['blackoffset_steps'] = ctx.int(2, 30, const=0)
    if ctx.chance(.5):
        kw['exposure_min'] = ctx.logu(*ctx.pick([(1e4, 1e6), (1e4, 1e6), (1e3, 1e9)]))
        kw['exposure_max'] = kw['exposure_min'] * ctx.logu(3, 1e4)
    faint = ctx.chance(.05)
    if faint:
        # large pixels and long exposures: very little light saturates them
        kw['exposure_min'] = ctx.logu(1e6, 1e9)
        kw['exposure_max'] = kw['exposure_min'] * ctx.logu(3, 1e3)
    if not faint and ctx.chance(.04):
        # flashes
        kw['exposure_min'] = ctx.logu(5, 1e3)
        kw['exposure_max'] = kw['exposure_min'] * ctx.logu(10, 1e3)
    tmax = kw.get('exposure_max', 5e8)
    kw['temperature'] = ctx.uniform(10, 40)
    kw['dark_current_ref'] = ctx.pick([0, ctx.uniform(0, .2) * full / kw['K_max'] / (tmax * 1e-9) / 2 ** ((kw['temperature'] - 30) / 8)])
    kw['dark_signal_0'] = ctx.uniform(0, .02) * kw['u_esat']
    kw['sigma2_dark_0'] = ctx.uniform(0, 50)
    if ctx.chance(.4):
        kw['f_number'] = ctx.uniform(1, 16)
    if ctx.chance(.4):
        kw['pixel_area'] = ctx.pick([ctx.uniform(2, 100), ctx.logu(.3, 1e4)])
    if faint:
        kw['pixel_area'] = ctx.logu(1e3, 1e5)
    if ctx.chance(.4):
        kw['dsnu'] = ctx.rng.normal(0, .005 * kw['u_esat'], (h, w))
        kw['prnu'] = np.abs(ctx.rng.normal(1, .05, (h, w)))
    g = dict(steps=ctx.int(2, 9, const=0), L=ctx.int(3, 8, const=0))
    if ctx.chance(.04):
        g['steps'] = ctx.int(10, 70, const=0)
    if ctx.chance(.04):
        g['L'] = ctx.int(9, 60, const=0)
    formats = ['png', 'png', 'tif', 'tiff'] + (['bmp', 'pgm'] if bits <= 8 else [])
    if ctx.chance(.8):
        g['image_format'] = ctx.pick(formats)
    if ctx.chance(.3):
        g['version'] = ctx.pick(['3.0', '4.0', '3.1', '4.0R', '4', '3.1a'])
    if ctx.chance(.5):
        lo, hi = kw.get('exposure_min', 5e5), tmax
        g['exposure_fixed'] = ctx.pick([ctx.uniform(lo, hi), float(int(ctx.uniform(lo, hi))), int(ctx.uniform(lo, hi)),
                                      hi * ctx.uniform(1, 4)])
        if ctx.chance(.4):
            light_range(ctx, g, kw)
        resolvable(g, kw)
    return g, kw


def resolvable(g, kw):
    """Without a range of light asked for, a step is at least a grey value: a dark image says nothing finer about the dark level."""
    if 'radiance_min' not in g:
        g['steps'] = min(g['steps'], max(2, 2 ** kw['bit_depth'] - 1))


def light_range(ctx, g, kw, fixed=None):
    """The user asks for a range of light instead of the whole one."""
    cam = camera_module.Camera(**kw)
    top = float(np.mean(cam.get_radiance_for(exposure=float(fixed or g['exposure_fixed'])))) * ctx.uniform(.2, 1.1)
    bottom = top * ctx.uniform(.03, .4)
    which = ctx.pick(['both', 'both', 'max', 'min'])
    spread = ctx.uniform(0, .05) * ctx.rng.uniform(-1, 1, (kw['height'], kw['width'], len(kw['qe'].w)))
    for name, value in (('radiance_max', top), ('radiance_min', bottom)):
        if which == 'both' or name.endswith(which):
            g[name] = value if ctx.chance(.7) else value * (1 + spread)


def outdir(ctx):
    return ctx.pick([os.path.join(ctx.tmp, ctx.name()), os.path.join(ctx.tmp, ctx.name(), 'a b', ctx.name()), ctx.tmp, None])


def lines(ctx, path):
    """The descriptor as data: header and points, each with the files listed under it."""
    with open(path) as f:
        rows = [x.rstrip('\n') for x in f]
    head, points = {}, []
    for r in rows:
        t = r.split()
        if not t:
            continue
        if t[0] in 'vn':
            ctx.check(t[0] not in head and not points, 'header line', line=r)
            head[t[0]] = t[1:]
        elif t[0] == 'd':
            ctx.eq(len(t), 2, 'dark line ' + r)
            points.append((float(t[1]), 0.0, [], r))
        elif t[0] == 'b':
            ctx.eq(len(t), 3, 'bright line ' + r)
            points.append((float(t[1]), float(t[2]), [], r))
        elif t[0] == 'i':
            ctx.check(points, 'image before the first point')
            points[-1][2].append(r[2:].strip())
        else:
            ctx.fail('unknown line in the descriptor', line=r)
    return head, points


def read(path):
    with Image.open(path) as im:
        return np.array(im)


def expected_series(g, kw):
    """Number of images of the series, in order of capture, and whether it is dark."""
    if 'exposure_fixed' in g:
        return 2 * (g['steps'] + 1) + 2 * g['L']
    return 4 * g['steps'] + 2 * g['L']


def one(ctx, pipeline=True, unsaid=False, bits=None, **change):
    g, kw = config(ctx, bits)
    g.update(change)
    pipeline = pipeline and (1 << 2 * kw['bit_depth']) * max(g['L'], 2) ** 3 < 2 ** 61         # 64 bits hold the pseudo-variance
    out = outdir(ctx)
    ctx.note(out=out, **{k: np.mean(v) if k.startswith('radiance') else v
                         for k, v in dict(g, **kw).items() if k not in ('qe', 'dsnu', 'prnu')})
    tempfile.tempdir = ctx.tmp
    try:
        with capture_log() as log:
            gen = DatasetGenerator(outdir=out, **{k: v for k, v in dict(g, **kw).items() if not unsaid or k not in ('steps', 'L')})
        return judge(ctx, g, kw, out, gen, log, pipeline)
    finally:
        tempfile.tempdir = None


def judge(ctx, g, kw, out, gen, log, pipeline):
    steps, L = g['steps'], g['L']
    root = gen.outdir
    if out is not None:
        ctx.eq(os.path.realpath(root), os.path.realpath(out), 'output directory')
    ctx.eq(os.path.dirname(os.path.realpath(gen.descriptor_path)), os.path.realpath(root), 'place of the descriptor')
    head, points = lines(ctx, gen.descriptor_path)
    ctx.eq(head.get('v'), [g.get('version', '4.0')], 'version')
    ctx.eq([int(x) for x in head.get('n', [])], [kw['bit_depth'], kw['width'], kw['height']], 'format line')
    # ---- nothing lost, nothing twice
    listed = [f for p in points for f in p[2]]
    files = [os.path.realpath(os.path.join(root, *f.split('\\'))) for f in listed]
    ctx.eq(len(set(files)), len(files), 'a file is listed twice')
    want = expected_series(g, kw)
    ctx.eq(len(files), want, 'number of images in the descriptor')
    there = {os.path.realpath(os.path.join(d, f)) for d, _s, fs in os.walk(root) for f in fs}
    there.discard(os.path.realpath(gen.descriptor_path))
    ctx.check(there == set(files), 'files in the output directory', extra=sorted(there - set(files))[:5],
              missing=sorted(set(files) - there)[:5])
    # ---- the captures of the run are the last ones; before them the generator looks for its settings
    ctx.check(len(log) >= len(files), 'more images than captures')
    events = log[len(log) - len(files):]
    ctx.ev('captures', len(events))
    i = 0
    series = []
    for texp, photons, names, row in points:
        grabbed = events[i:i + len(names)]
        for e, n in zip(grabbed, names):
            fn = os.path.join(root, *n.split('\\'))
            ctx.eq(fn.rsplit('.', 1)[1], g.get('image_format', 'png'), 'format of the files')
            ctx.array_eq(read(fn).astype(np.int64), e['img'].astype(np.int64), 'stored pixels of image %d' % i, file=n, point=row)
            ctx.check(abs(texp - e['texp']) <= .0500001, 'exposure of image %d' % i, listed=texp, in_force=e['texp'])
            ctx.eq(texp, float('%.1f' % e['texp']), 'rounding of the exposure')
            p = float(np.sum(np.asarray(cams.photons(e['rad'], e['texp'], kw.get('pixel_area', 25), kw['qe'].w, e['f']), dtype=float),
                             axis=2).mean())
            ctx.check(abs(photons - p) <= .00050001 + 1e-9 * p, 'photons of image %d' % i, listed=photons, in_force=p)
            ctx.eq(row.startswith('d'), not np.any(e['rad']), 'dark or bright, image %d' % i, point=row)
            ctx.check(e['K'] == events[0]['K'] and e['bo'] == events[0]['bo'] and e['f'] == events[0]['f'] and e['T'] == events[0]['T'],
                      'settings change within the data set', image=i)
            a, k = e['extra']
            for v, own in [(k.get('temperature', (a + (None,))[0]), 'T'), (k.get('f_number', (a + (None, None))[1]), 'f')]:
                ctx.check(v is None or v == e[own], 'other conditions given with a capture', given=v, own=e[own])
            i += 1
        for e in grabbed[1:]:
            ctx.array_eq(e['rad'], grabbed[0]['rad'], 'light changes within a series')
        series.append(dict(texp=texp, photons=photons, n=len(names), events=grabbed, dark=photons == 0.0))
        ctx.ev('series')
    if 'K' in kw:
        ctx.check(abs(events[0]['K'] - kw['K']) <= (kw['K_max'] - kw['K_min']) / (kw['K_steps'] - 1) / 2 * (1 + 1e-9), 'gain of the data set')
    search(ctx, kw, gen, log[:len(log) - len(files)], events[0])
    if 'blackoffset' in kw:
        near = np.min(np.abs(np.asarray(gen.cam.blackoffsets) - kw['blackoffset']))
        ctx.check(abs(events[0]['bo'] - kw['blackoffset']) <= near * (1 + 1e-9) + 1e-9, 'black offset of the data set', got=events[0]['bo'],
                  given=kw['blackoffset'])
    # ---- the plan
    temporal = [s for s in series if s['n'] == 2]
    spatial = [s for s in series if s['n'] == L]
    ctx.eq(len(temporal) + len(spatial), len(series), 'lengths of the series', got_lengths=[s['n'] for s in series])
    ctx.eq(len(spatial), 2, 'spatial series')
    ctx.eq(sorted(s['dark'] for s in spatial), [False, True], 'spatial pair is bright and dark')
    ctx.eq(spatial[0]['texp'], spatial[1]['texp'], 'exposure of the spatial pair')
    bright = [s for s in temporal if not s['dark']]
    dark = [s for s in temporal if s['dark']]
    ctx.eq(len(bright), steps, 'temporal points')
    sb = [s for s in spatial if not s['dark']][0]
    if 'exposure_fixed' not in g:
        lo, hi = kw.get('exposure_min', 500000), kw.get('exposure_max', 500000000)
        grid = [round(lo + (hi - lo) * k / (steps - 1.0), 1) for k in range(steps)]
        for what, ss in (('bright', bright), ('dark', dark)):
            ctx.eq(len(ss), steps, what + ' series')
            ctx.close(sorted(s['texp'] for s in ss), grid, 'exposures of the %s series' % what, rtol=0, atol=.12)
        mid = sorted(s['texp'] for s in bright)
        ctx.check(sb['texp'] in (mid[steps // 2], mid[(steps - 1) // 2]), 'spatial exposure', got=sb['texp'], grid=mid)
        for s in bright:
            ctx.array_eq(s['events'][0]['rad'], bright[0]['events'][0]['rad'], 'light changes in an exposure test')
        ctx.array_eq(sb['events'][0]['rad'], bright[0]['events'][0]['rad'], 'light of the spatial pair')
        e = bright[0]['events'][0]
        reach = level(kw, e, max(s['texp'] for s in bright))
        ctx.close(reach, 2 ** kw['bit_depth'] - 1, 'level at the longest exposure', rtol=1e-5 + .12 / max(s['texp'] for s in bright))
    else:
        ctx.eq(len(dark), 1, 'dark series')
        ctx.eq({s['texp'] for s in series}, {float(round(g['exposure_fixed']))}, 'exposure of all series')
        lv = np.array([level(kw, s['events'][0], s['texp']) for s in bright])
        order = np.argsort(lv)
        full = 2 ** kw['bit_depth'] - 1
        d = np.diff(lv[order])
        ctx.close(d, np.full(len(d), d.mean()), 'steps of light', rtol=1e-6, atol=1e-6 * full)
        # the light is made equal over the wavelengths, which moves the level by a few percent
        lights = [float(np.mean(bright[k]['events'][0]['rad'])) for k in order]
        if 'radiance_max' in g:
            requested(ctx, g, lights)
            ctx.ev('requested light')
        else:
            ctx.check(.95 * full <= lv.max() <= 1.1 * full, 'brightest level', got=lv.max(), full=full)
        if 'radiance_min' in g:
            requested(ctx, g, lights)
            ctx.ev('requested light')
        else:
            # the generator looks at one dark image of its own
            image = [np.asarray(e['img'], float) for s in dark for e in s['events']]
            spread = 7 * max(.5, max(i.std() for i in image)) / np.sqrt(image[0].size)
            ctx.check(lv.min() <= full / steps + dark_level(dark) + spread + .1 * full, 'lowest level', got=lv.min(), full=full,
                      dark=dark_level(dark), spread=spread)
        for s in bright:
            ctx.check(np.ptp(s['events'][0]['rad']) <= 1e-12 * np.max(s['events'][0]['rad']), 'light is the same everywhere')
        m = sorted(s['photons'] for s in bright)
        ctx.check(sb['photons'] in (m[steps // 2], m[(steps - 1) // 2]), 'light of the spatial pair', got=sb['photons'], points=m)
    ctx.sig(kw['bit_depth'], kw['width'], kw['height'], steps, L, g.get('image_format'), 'exposure_fixed' in g, out is None)
    if pipeline and len({(s['texp'], s['photons']) for s in temporal}) == len(temporal):
        process(ctx, gen, series, temporal, spatial, kw)
    if out is None:
        ctx.check(os.path.isdir(root), 'temporary directory while the generator lives')
        ctx.check(os.path.realpath(root).startswith(os.path.realpath(ctx.tmp)), 'place of the temporary directory')


def requested(ctx, g, lights):
    """The range asked for ends the lights. One asked for alone may lie beyond the automatic other one."""
    lo, hi = min(lights), max(lights)
    ask = [float(np.mean(g[n])) if n in g else None for n in ('radiance_min', 'radiance_max')]
    ctx.check(ask[0] is None or abs(lo - ask[0]) <= 1e-9 * ask[0] or (ask[1] is None and abs(hi - ask[0]) <= 1e-9 * ask[0]),
              'lowest light', got=(lo, hi), asked=ask)
    ctx.check(ask[1] is None or abs(hi - ask[1]) <= 1e-9 * ask[1] or (ask[0] is None and abs(lo - ask[1]) <= 1e-9 * ask[1]),
              'brightest light', got=(lo, hi), asked=ask)


def search(ctx, kw, gen, before, event):
    """Where the user gives no black offset or gain, the lowest one is taken that the standard allows."""
    dark = [e for e in before if not np.any(e['rad'])]
    if 'blackoffset' not in kw:
        low = [b for b in gen.cam.blackoffsets if b < event['bo']]
        seen = {}
        for e in dark:
            seen.setdefault(float(e['bo']), []).append(np.count_nonzero(e['img']) / float(e['img'].size))
        for b in low:
            ctx.check(any(x <= .995 for x in seen.get(float(b), [0])), 'a lower black offset would do', lower=b, chosen=event['bo'])
        ctx.check(event['bo'] == max(gen.cam.blackoffsets) or any(x > .995 for x in seen.get(float(event['bo']), [])),
                  'too many zeros at the black offset chosen', chosen=event['bo'], seen=seen.get(float(event['bo'])))
        ctx.ev('black offset found')
    if 'K' not in kw:
        seen = {}
        for e in dark:
            seen.setdefault(float(e['K']), []).append(e['img'].astype(np.int64))

        def noise(K):
            ii = seen.get(float(K), [])
            return [(ii[a] - ii[b]).std() for a in range(len(ii)) for b in range(a)]
        for K in gen.cam.Ks:
            if K < event['K']:
                ctx.check(any(x <= .5 for x in noise(K) or [0]), 'a lower gain would do', lower=K, chosen=event['K'], noise=noise(K))
        ctx.check(event['K'] == max(gen.cam.Ks) or any(x > .5 for x in noise(event['K'])), 'too little noise at the gain chosen',
                  chosen=event['K'], noise=noise(event['K']))
        ctx.ev('gain found')


def level(kw, e, texp):
    """Grey value that light and dark current make together."""
    ph = np.asarray(cams.photons(e['rad'], texp, kw.get('pixel_area', 25), kw['qe'].w, e['f']), dtype=float)
    el = np.sum(ph * kw['qe'].qe, axis=2).mean()
    th = kw['dark_current_ref'] * 2.0 ** ((e['T'] - 30) / 8.) * texp * 1e-9
    return (el + th) * e['K']


def dark_level(dark):
    return float(np.mean([np.mean(e['img']) for s in dark for e in s['events']]))


def process(ctx, gen, series, temporal, spatial, kw):
    """Parsing, loading and reducing the files gives what the captured pixels give."""
    desc = ParseEmvaDescriptorFile(gen.descriptor_path, loglevel=50)
    ctx.eq(desc.format['bits'], kw['bit_depth'], 'bits parsed')
    ctx.eq((desc.format['height'], desc.format['width']), (kw['height'], kw['width']), 'size parsed')
    ld = LoadImageData(desc.images, loglevel=50).data
    ctx.eq((ld['height'], ld['width']), (kw['height'], kw['width']), 'size loaded')
    for kind, ss in (('temporal', temporal), ('spatial', spatial)):
        ctx.eq({(e, p) for e in ld[kind] for p in ld[kind][e]}, {(s['texp'], s['photons']) for s in ss}, 'points loaded, ' + kind)
        for s in ss:
            got = ld[kind][s['texp']][s['photons']]
            want = ref.reduce_int64([e['img'] for e in s['events']])
            if kind == 'temporal':
                want = ref.totals(want)
                ctx.eq(int(got['sum']), want['sum'], 'sum of a loaded point')
                ctx.eq(int(got['pvar']), want['pvar'], 'pseudo-variance of a loaded point')
            else:
                ctx.eq(got['L'], s['n'], 'images of a loaded spatial point')
                ctx.array_eq(got['sum'], want['sum'], 'sum image')
                ctx.array_eq(got['pvar'], want['pvar'], 'pseudo-variance image')
            ctx.ev('loaded')
    d = Data1288(ld, loglevel=50).data
    raw = {}
    for s in temporal:
        raw.setdefault(s['texp'], {})[s['photons']] = [e['img'] for e in s['events']]
    c05.compare(ctx, d['temporal'], raw)
    b = np.array([e['img'] for e in [s for s in spatial if not s['dark']][0]['events']])
    k = np.array([e['img'] for e in [s for s in spatial if s['dark']][0]['events']])
    c06.compare(ctx, d['spatial'], b, k)


@P.scenario(quick=1500, must=['captures', 'series', 'loaded', 'requested light', 'black offset found', 'gain found'])
def generated(ctx):
    one(ctx)


@P.scenario(quick=150, must=['captures', 'refused'])
def deep(ctx):
    """More than 16 bits: stored completely or refused."""
    bits = ctx.pick([17, ctx.int(17, 24, const=0), ctx.int(17, 31, const=0), 31, 32])
    fmt = ctx.pick(['png', 'tif', 'tiff', 'tif', 'TIF', 'pgm'])
    try:
        one(ctx, pipeline=bits <= 24, bits=bits, image_format=fmt)
    except (ValueError, OSError):
        ctx.check(bits > 31 or not fmt.lower().startswith('tif'), 'images refused that the format can hold', bits=bits, format=fmt)
        ctx.ev('refused')


@P.scenario(quick=4, thorough=24, must=['captures', 'series', 'loaded'])
def large(ctx):
    """More images than fit in three or four digits."""
    n = ctx.pick([1100, 2500]) if ctx.tier == 'quick' else ctx.pick([1100, 2500, 10500, 10500])
    if ctx.idx % 4 == 3:
        # as many as when nothing is said
        one(ctx, steps=100, L=50, unsaid=True)
    elif ctx.idx % 4 == 0 or ctx.chance(.3):
        one(ctx, L=n // 2)
    else:
        one(ctx, steps=n // 4, L=ctx.int(3, 40, const=0))


@P.scenario(quick=30, thorough=300, must=['removed'])
def temporary(ctx):
    """Without an output directory the files live as long as the generator."""
    g, kw = config(ctx)
    tempfile.tempdir = ctx.tmp
    try:
        gen = DatasetGenerator(**dict(g, **kw))
        root = gen.outdir
        ctx.check(os.path.isfile(gen.descriptor_path), 'descriptor while the generator lives')
        keep = os.path.join(ctx.tmp, 'mine')
        with open(keep, 'w') as f:
            f.write('x')
        other = DatasetGenerator(**dict(g, **kw))
        ctx.check(other.outdir != root, 'two generators share a directory')
        del gen
        gc.collect()
        ctx.check(not os.path.exists(root), 'temporary directory after the generator is gone')
        ctx.check(os.path.isfile(other.descriptor_path) and os.path.exists(keep), 'other files removed too')
        ctx.ev('removed')
        ctx.sig(kw['bit_depth'], g['steps'])
        del other
        gc.collect()
    finally:
        tempfile.tempdir = None


@P.scenario(quick=800, must=['plan', 'gain asked', 'black offset asked', 'exposure asked', 'light asked'])
def plan(ctx):
    """The points of a test for an existing camera, in any state."""
    g, kw = config(ctx)
    for n in ('steps', 'K_steps', 'blackoffset_steps'):
        if ctx.chance(.1):
            (g if n == 'steps' else kw)[n] = ctx.int(2, 150, const=0)
    resolvable(g, kw)
    cam = camera_module.Camera(**kw)
    full = 2 ** kw['bit_depth'] - 1
    lo, hi = kw.get('exposure_min', 500000), kw.get('exposure_max', 500000000)
    cam.exposure = ctx.uniform(lo, hi)
    cam.K, cam.blackoffset = ctx.uniform(kw['K_min'], kw['K_max']), ctx.uniform(0, .06) * full
    opts = dict(steps=g['steps'])
    before = dict(K=cam.K, bo=cam.blackoffset)
    if ctx.chance(.5):
        opts['gain'] = ctx.pick([ctx.uniform(kw['K_min'], kw['K_max']), float(ctx.pick(list(cam.Ks)))])
        ctx.ev('gain asked')
    if ctx.chance(.5):
        opts['blackref'] = ctx.pick([0, 0., ctx.uniform(0, .06) * full, float(ctx.pick(list(cam.blackoffsets)))])
        ctx.ev('black offset asked')
    fixed = g.get('exposure_fixed')
    if fixed:
        opts['exposure_fixed'] = fixed
        for n in ('radiance_min', 'radiance_max'):
            if n in g:
                opts[n] = g[n]
                ctx.ev('light asked')
    if ctx.chance(.4):
        opts['exposure_min'] = ctx.uniform(lo, lo + .3 * (hi - lo))
        ctx.ev('exposure asked')
    if ctx.chance(.4):
        opts['exposure_max'] = ctx.uniform(lo + .4 * (hi - lo), hi)
        ctx.ev('exposure asked')
    ctx.note(before=before, **{k: np.mean(v) for k, v in opts.items()})
    pts = PointsGenerator(cam, **opts).points
    ctx.eq(sorted(pts), ['spatial', 'temporal'], 'kinds of points')
    # ---- the camera is at the settings asked for
    for name, got, asked, values in (('gain', cam.K, opts.get('gain', before['K']), cam.Ks),
                                     ('black offset', cam.blackoffset, opts.get('blackref', before['bo']), cam.blackoffsets)):
        ctx.check(abs(got - asked) <= np.min(np.abs(np.asarray(values) - asked)) * (1 + 1e-9) + 1e-12 * abs(asked), name + ' of the test',
                  got=got, asked=asked)
    shape = (kw['height'], kw['width'], len(kw['qe'].w))
    for kind in pts:
        for texp in pts[kind]:
            for r in pts[kind][texp]:
                ctx.eq(np.shape(r), shape, 'shape of the light')
                ctx.check(np.all(np.asarray(r) >= 0), 'negative light')
    temporal, spatial = pts['temporal'], pts['spatial']
    ctx.eq(len(spatial), 1, 'spatial exposures')
    st, sr = list(spatial.items())[0]
    ctx.eq(sorted(bool(np.any(r)) for r in sr), [False, True], 'spatial pair')
    sb = [r for r in sr if np.any(r)][0]

    def level_of(r, texp):
        return level(kw, dict(rad=r, f=cam.environment['f_number'], T=cam.environment['temperature'], K=cam.K), texp)
    if not fixed:
        a, b = opts.get('exposure_min', lo), opts.get('exposure_max', hi)
        n = g['steps']
        grid = sorted({round(a + (b - a) * k / (n - 1.0), 1) for k in range(n)})
        ctx.close(sorted(temporal), grid, 'exposures of the test', rtol=0, atol=.12)
        for texp, rr in temporal.items():
            ctx.eq(sorted(bool(np.any(r)) for r in rr), [False, True], 'light of a point')
            ctx.array_eq([r for r in rr if np.any(r)][0], sb, 'light of the exposure test')
        ts = sorted(temporal)
        ctx.check(st in (ts[n // 2], ts[(n - 1) // 2]), 'spatial exposure', got=st)
        ctx.close(level_of(sb, max(ts)), full, 'level at the longest exposure', rtol=1e-5 + .12 / max(ts))
    else:
        ctx.eq(list(temporal), [round(fixed)], 'exposure of the test')
        ctx.eq(st, round(fixed), 'exposure of the spatial pair')
        rr = list(temporal.values())[0]
        br = sorted([r for r in rr if np.any(r)], key=np.mean)
        ctx.eq(len(br), g['steps'], 'bright points')
        ctx.eq(len(rr), len(br) + 1, 'dark points')
        means = [float(np.mean(r)) for r in br]
        d = np.diff(means)
        ctx.close(d, np.full(len(d), d.mean()), 'steps of light', rtol=1e-6, atol=1e-9 * means[-1])
        if 'radiance_max' in opts:
            requested(ctx, opts, means)
        elif 'radiance_min' not in opts:
            ctx.check(.95 * full <= level_of(br[-1], round(fixed)) <= 1.1 * full, 'brightest level', got=level_of(br[-1], round(fixed)), full=full)
        if 'radiance_min' in opts:
            requested(ctx, opts, means)
        n = g['steps']
        ctx.check(any(np.array_equal(sb, br[k]) for k in (n // 2, (n - 1) // 2)), 'light of the spatial pair')
    ctx.ev('plan')
    ctx.sig(kw['bit_depth'], g['steps'], bool(fixed), sorted(opts))
