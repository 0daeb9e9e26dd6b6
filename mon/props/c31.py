"""C31: measurements handled at the same time in several threads do not mix."""
import contextlib
import hashlib
import io
import os
import random
import sys
import threading
import time

import numpy as np

from emva1288.camera import camera as camera_module
from emva1288.camera import routines as cr
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.points_generator import PointsGenerator
from emva1288.process import routines
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.results import Results1288

from mon import core, curves, imgfiles
from mon.core import SRC, Property
from mon.props import c25

P = Property('C31', 'case = two to six jobs (parse, load, reduce, results, histograms, spectrograms, XML, comparison, simulation, generation) '
             'run alone and then at the same time in threads whose switches are forced at random lines of the code under test; '
             'non-trivial = all outcomes compared with those of the jobs alone; distinct by the order of the switches observed')

TARGET = os.path.join(SRC, 'emva1288')


# ------------------------------------------------------------------ schedules
class Scheduler(object):
    """Switches threads at random lines of the code under test and records the order."""

    def __init__(self, seed, rate):
        self.seed, self.rate = seed, rate
        self.order = []
        self.lines = set()
        self.codes = {}

    def tracer(self, number):
        rnd = random.Random('%s/%s' % (self.seed, number))
        rate, order, codes = self.rate, self.order, self.codes

        def line(frame, event, arg):
            if event == 'line' and rnd.random() < rate:
                order.append(number)
                self.lines.add((frame.f_code.co_name, frame.f_lineno))
                # gives the interpreter lock to any thread that can run
                time.sleep(0 if rnd.random() < .8 else rnd.random() * 5e-4)
            return line

        def call(frame, event, arg):
            c = frame.f_code
            t = codes.get(c)
            if t is None:
                t = codes[c] = os.path.realpath(c.co_filename).startswith(TARGET)
            return line if t else None
        return call


def run_together(ctx, jobs, rate):
    sch = Scheduler(ctx.int(0, 10 ** 9, const=0), rate)
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def body(i):
        sys.settrace(sch.tracer(i))
        try:
            gate.wait()
            out[i] = ('done', jobs[i]())
        except Exception as e:
            out[i] = ('raised', '%s: %s' % (type(e).__name__, e))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            ctx.check(not t.is_alive(), 'a thread does not end')
    finally:
        sys.setswitchinterval(old)
    switches = sum(1 for a, b in zip(sch.order, sch.order[1:]) if a != b)
    ctx.ev('switches', switches)
    ctx.ev('switch places', len(sch.lines))
    return out, hashlib.sha256(bytes(sch.order)).hexdigest()[:12], switches


# ------------------------------------------------------------------ jobs
def side(ctx, a, b):
    """A size; often the same one for all jobs of the case."""
    same = getattr(ctx, 'same', None)
    if same is None:
        same = ctx.same = {'on': ctx.chance(.6)}
    if not same['on']:
        return ctx.size(a, b)
    if (a, b) not in same:
        same[a, b] = ctx.size(a, b)
    return same[a, b]


def where(ctx, *parts):
    """A path, at times relative to the directory of the case."""
    p = os.path.join(ctx.tmp, *parts)
    return os.path.relpath(p, ctx.tmp) if ctx.relative else p


def plain(v):
    """A value that can be compared."""
    return core.digest(v)


def job_process(ctx, n):
    m = imgfiles.random_measurement(ctx, where(ctx, 'm%d' % n), shape=(side(ctx, 4, 16), side(ctx, 4, 16)),
                                    fmt=ctx.pick(['png8', 'png16', 'tif16', 'bmp8', 'pngrgb']), small=True)
    rows = ['v 4.0', 'n %d %d %d' % (ctx.int(8, 16), m.shape[1], m.shape[0])]
    for kind, e, p, names in m.points():
        rows.append('d %r' % e if p == 0.0 else 'b %r %r' % (e, p))
        rows += ['i ' + x for x in names]
    path = os.path.join(m.root, 'desc.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(rows) + '\n')

    def run():
        d = ParseEmvaDescriptorFile(path, loglevel=50)
        ld = LoadImageData(d.images, loglevel=50).data
        return plain([d.format, d.version, d.images, ld, Data1288(ld, loglevel=50).data])
    return 'process', run


def measurement(ctx):
    t, _i = curves.curve(ctx)
    sp, _b, _d = curves.spatial_data(ctx, (side(ctx, 8, 20), side(ctx, 8, 20)))
    return {'temporal': t, 'spatial': sp}


def values(r):
    return plain(r.results)


def job_results(ctx, n):
    data = measurement(ctx)
    kw = {}
    if ctx.chance(.4):
        kw['pixel_area'] = ctx.uniform(1, 50)
    if ctx.chance(.3):
        kw['index_u_ysat'] = ctx.int(5, len(data['temporal']['u_p']) - 1, const=0)
    order = ctx.shuffled(['results', 'xml', 'hist', 'again'])

    def run():
        r = Results1288(data, loglevel=50, **kw)
        out = {}
        for o in order:
            if o in ('results', 'again'):
                out[o] = values(r)
            elif o == 'xml':
                out[o] = r.xml()
            else:
                out[o] = plain([r.histogram_PRNU, r.histogram_DSNU, r.histogram_PRNU_accumulated, r.histogram_DSNU_accumulated,
                                r.linearity(), r.u_p_sat])
        return sorted(out.items())
    return 'results', run


def job_xml(ctx, n):
    data = [measurement(ctx) for _ in range(2)]
    rs = [Results1288(d, loglevel=50) for d in data]
    texts = [r.xml() for r in rs]
    d = where(ctx, 'x%d' % n)
    os.makedirs(d)
    names = [os.path.join(d, 'same.xml'), os.path.join(d, 'other.xml')]
    for x, t in zip(names, texts):
        with open(x, 'wb') as f:
            f.write(t)

    def run():
        a, b = [routines.xml_to_dict(x) for x in names]
        again = routines.dict_to_xml(a)
        rep = routines.compare_xml(names[0], names[1], filename=os.path.join(d, 'report.txt'))
        self = routines.compare_xml(names[0], names[0])
        with open(os.path.join(d, 'report.txt')) as f:
            text = f.read()
        return plain([a, b, again, rep, self, text])
    return 'xml', run


def job_numbers(ctx, n):
    imgs = [np.asarray(i) for i in curves.stack(ctx, ctx.int(2, 6, const=0), (side(ctx, 8, 24), side(ctx, 8, 24)))]
    x = np.sort(ctx.rng.uniform(0, 1e3, 12))
    y = 3 * x + ctx.rng.normal(0, 1, 12) + 100

    def run():
        red = routines.get_int_imgs(list(imgs))
        img = np.asarray(red['sum'], dtype=float)
        return plain([red, routines.FFT1288(img), routines.FFT1288(img, rotate=True), routines.GetFrecs(routines.FFT1288(img)),
                      routines.high_pass_filter(img, 5), routines.Histogram1288(np.asarray(red['sum']), 256), routines.LinearB(x, y),
                      routines.LinearB0(x, y)])
    return 'numbers', run


def camera(ctx):
    g, kw = c25.config(ctx)
    kw.pop('qe')
    nw = ctx.int(1, 3, const=0)
    wl = np.linspace(480, 560, nw)
    if not any(isinstance(v, np.ndarray) for v in kw.values()):
        kw['width'], kw['height'] = side(ctx, 2, 12), side(ctx, 2, 12)
    w, h = kw['width'], kw['height']

    def make():
        k = {n: (np.array(v) if isinstance(v, np.ndarray) else v) for n, v in kw.items()}
        return camera_module.Camera(qe=cr.Qe(width=w, height=h, wavelength=wl), **k)
    return g, kw, make


def job_camera(ctx, n):
    g, kw, make = camera(ctx)
    script = []
    for _ in range(ctx.int(3, 10, const=0)):
        script.append((ctx.pick(['grab', 'grab', 'dark', 'K', 'black', 'exposure', 'convert']), ctx.uniform(0, 1), ctx.chance(.3)))

    def run():
        cam = make()
        out = []
        for what, u, own in script:
            if what == 'K':
                cam.K = cam.Ks[0] + u * (cam.Ks[-1] - cam.Ks[0])
            elif what == 'black':
                cam.blackoffset = cam.blackoffsets[0] + u * (cam.blackoffsets[-1] - cam.blackoffsets[0])
            elif what == 'exposure':
                cam.exposure = cam.exposure_min + u * (cam.exposure_max - cam.exposure_min)
            elif what == 'dark':
                out.append(cam.grab(0))
            elif what == 'convert':
                r = cam.get_radiance_for(mean=u * cam.img_max + 1)
                out.append([r, cam.get_photons(r), cam.get_photons(r, exposure=cam.exposure_max, f_number=4)])
            else:
                out.append(cam.grab(np.maximum(cam.get_radiance_for(mean=u * cam.img_max + 1), 0), **({'temperature': 20 + 10 * u} if own else {})))
            out.append([cam.K, cam.blackoffset, cam.exposure, dict(cam.environment)])
        return plain(out)
    return 'camera', run


def job_generate(ctx, n):
    g, kw = c25.config(ctx)
    kw.pop('qe')
    g['steps'], g['L'] = ctx.int(2, 4, const=0), 3
    for x in ('radiance_min', 'radiance_max'):
        g.pop(x, None)
    wl = np.linspace(480, 560, ctx.int(1, 3, const=0))
    runs = [0]

    def run():
        runs[0] += 1
        out = where(ctx, 'g%d_%d' % (n, runs[0]))
        k = {a: (np.array(v) if isinstance(v, np.ndarray) else v) for a, v in dict(g, **kw).items()}
        gen = DatasetGenerator(outdir=out, qe=cr.Qe(width=kw['width'], height=kw['height'], wavelength=wl), **k)
        files = {}
        for d, _s, fs in os.walk(out):
            for f in fs:
                with open(os.path.join(d, f), 'rb') as h:
                    files[os.path.relpath(os.path.join(d, f), out)] = hashlib.sha256(h.read()).hexdigest()
        del gen
        return sorted(files.items())
    return 'generate', run


def job_filters(ctx, n):
    h, w = ctx.int(2, 20, const=0), ctx.int(2, 20, const=0)
    layer = ctx.rng.uniform(0, 1, (ctx.int(1, 4, const=0), ctx.int(1, 4, const=0)))
    eh, ew = 2 * (h // 2) or 2, 2 * (w // 2) or 2
    wl = np.linspace(400, 700, ctx.int(2, 5, const=0))

    def run():
        b = cr.get_bayer_filter(530, 610, 470, 530, ew, eh, wl)
        q = cr.Qe(width=ew, height=eh, wavelength=wl, filter=b)
        return plain([b, q.qe, q.w, cr.get_tile(layer, h, w)])
    return 'filters', run


JOBS = [job_process, job_process, job_results, job_results, job_xml, job_numbers, job_numbers, job_camera, job_camera, job_generate, job_filters]


@contextlib.contextmanager
def silent():
    """Everything printed by any thread goes nowhere."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def place(ctx):
    """The jobs are made and run in a directory of their own."""
    ctx.relative = ctx.chance(.5)
    old = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        yield
    finally:
        os.chdir(old)


def go(ctx, jobs, rate):
    names, jobs = [j[0] for j in jobs], [j[1] for j in jobs]
    ctx.note(jobs=names)
    with silent():
        try:
            alone = [j() for j in jobs]
        except ValueError:
            # data without any point to fit
            ctx.check(True, 'no outcome')
            return
        together, order, switches = run_together(ctx, jobs, rate)
    for i, (a, t) in enumerate(zip(alone, together)):
        ctx.check(t is not None and t[0] == 'done', 'a job fails in the company of others: ' + names[i], got=t, jobs=names)
        ctx.check(t[1] == a, 'a job has another outcome in the company of others: ' + names[i], alone=a, together=t[1], jobs=names)
        ctx.ev('outcomes')
    if switches:
        ctx.sig(order)
    with silent():
        after = [j() for j in jobs[:2]]
    ctx.check(after == alone[:2], 'a job has another outcome afterwards', jobs=names)


@P.scenario(quick=160, thorough=3000, must=['outcomes', 'switches'])
def mixed(ctx):
    """Jobs of all kinds side by side."""
    n = ctx.int(2, 6, const=0)
    with place(ctx):
        go(ctx, [ctx.pick(JOBS)(ctx, k) for k in range(n)], ctx.pick([.02, .1, .3]))


@P.scenario(quick=160, thorough=3000, must=['outcomes', 'switches'])
def alike(ctx):
    """The same kind of job on different data, where shared state would meet."""
    kind = ctx.pick(sorted(set(JOBS), key=lambda f: f.__name__))
    n = ctx.int(2, 4, const=0)
    with place(ctx):
        go(ctx, [kind(ctx, k) for k in range(n)], ctx.pick([.05, .2, .5]))


@P.scenario(quick=60, thorough=1000, must=['outcomes', 'switches'])
def shared(ctx):
    """Several threads read one results object, one measurement, or one description."""
    data = measurement(ctx)
    kind = ctx.pick(['object', 'data', 'descr'])
    if kind == 'object':
        want = Results1288(data, loglevel=50)
        alone = values(want)
        box = [Results1288(data, loglevel=50)]
        jobs = [lambda: values(box[0])] * ctx.int(2, 4, const=0)
    elif kind == 'data':
        alone = values(Results1288(data, loglevel=50))
        jobs = [lambda: values(Results1288(data, loglevel=50))] * ctx.int(2, 4, const=0)
    else:
        m = imgfiles.random_measurement(ctx, os.path.join(ctx.tmp, 'm'), fmt=ctx.pick(['png8', 'tif16']), small=True)
        images = m.described()

        def load():
            ld = LoadImageData(images, loglevel=50).data
            return plain([ld, Data1288(ld, loglevel=50).data])
        alone = load()
        jobs = [load] * ctx.int(2, 4, const=0)
    with silent(), ctx.unchanged('shared data', data):
        out, order, switches = run_together(ctx, jobs, ctx.pick([.05, .2, .5]))
    for o in out:
        ctx.check(o == ('done', alone), 'outcome of sharing: ' + kind, got=o, want=alone)
        ctx.ev('outcomes')
    if switches:
        ctx.sig(order)
