"""C30: damaged files and failing writes are never passed over, and nothing stays open."""
import builtins
import contextlib
import errno
import gc
import io
import os
import re
import resource
import shutil
import sys
import tracemalloc

import numpy as np
from matplotlib.figure import Figure

from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.process import Emva1288
from emva1288.process import routines
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.results import Results1288
from emva1288.report import report

from mon import curves, imgfiles, ref
from mon.core import Property
from mon.props import c25, c28

P = Property('C30', 'case = operation (load, parse, generate, export, compare, report) with a file cut at a byte or a read, open or write that '
             'fails at a chosen point; non-trivial = the fault struck, the outcome was judged, open files were counted and the operation '
             'was repeated without the fault; distinct by operation and place of the fault')


# ------------------------------------------------------------------ monitors
def open_files():
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            out.append((int(fd), os.readlink('/proc/self/fd/' + fd)))
        except OSError:
            pass
    return sorted(x for x in out if not x[1].startswith('/proc/'))


@contextlib.contextmanager
def nothing_left_open(ctx, what):
    gc.collect()
    before = open_files()
    yield
    gc.collect()
    left = [f for f in open_files() if f not in before and f[1].startswith(os.path.realpath(ctx.tmp))]
    ctx.check(not left, 'files left open: ' + what, left=left)
    ctx.ev('open files counted')


class Injected(OSError):
    pass


class Faults(object):
    """Makes the k-th opening for writing below a directory fail, and counts them."""

    def __init__(self, root, k=None, errno_=errno.ENOSPC):
        self.root, self.k, self.errno = os.path.realpath(root), k, errno_
        self.count = 0
        self.struck = False

    def __enter__(self):
        self.real = builtins.open

        def opener(file, mode='r', *a, **k):
            if isinstance(file, (str, os.PathLike)) and any(c in mode for c in 'wxa+'):
                if os.path.realpath(os.fspath(file)).startswith(self.root + os.sep):
                    self.count += 1
                    if self.count - 1 == self.k:
                        self.struck = True
                        raise Injected(self.errno, 'injected: ' + os.strerror(self.errno), os.fspath(file))
            return self.real(file, mode, *a, **k)
        builtins.open = opener
        self.old_io = io.open
        io.open = opener
        return self

    def __exit__(self, *a):
        builtins.open = self.real
        io.open = self.old_io


@contextlib.contextmanager
def file_limit(n):
    """No file can grow beyond n bytes (the kernel refuses the write, as on a full disk)."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, e


def tree(root):
    out = {}
    for d, _s, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as g:
                out[os.path.relpath(os.path.join(d, f), root)] = g.read()
    return out


# ------------------------------------------------------------------ reading
def loaded(m, **kw):
    kw.setdefault('loglevel', 50)
    if m.fmt == 'npy':
        kw.setdefault('fload', np.load)
    return LoadImageData(m.described(), **kw).data


def right(ctx, data, m, what):
    """The loaded data are the reduction of the true pixels."""
    for kind, e, p, names in m.points():
        want = ref.reduce_int64([m.files[n] for n in names])
        got = data[kind][e][p]
        if kind == 'temporal':
            want = ref.totals(want)
            ctx.check(int(got['sum']) == want['sum'] and int(got['pvar']) == want['pvar'], what + ': wrong totals', point=(kind, e, p))
        else:
            ctx.array_eq(got['sum'], want['sum'], what + ': wrong sum', point=(kind, e, p))
            ctx.array_eq(got['pvar'], want['pvar'], what + ': wrong pseudo-variance', point=(kind, e, p))


@P.scenario(quick=240, thorough=2500, must=['refused', 'open files counted', 'cuts', 'replaced'])
def damaged(ctx):
    """One image file of a measurement is cut short, at any byte, or is no image."""
    fmt = ctx.pick(imgfiles.FORMATS)
    m = imgfiles.random_measurement(ctx, ctx.tmp, shape=(ctx.size(1, 24), ctx.size(1, 24)), fmt=fmt, small=True)
    victim = ctx.pick(sorted(m.files))
    path = os.path.join(m.root, victim)
    with open(path, 'rb') as f:
        whole = f.read()
    n = len(whole)
    cuts = {0, 1, n - 1, n // 2} | {ctx.int(0, n - 1, const=0) for _ in range(12 if ctx.tier == 'quick' else 60)}
    other = [b'not an image', b'\x89PNG\r\n\x1a\n', b'v 3\nn 8 2 2\n', bytes(len(whole)), whole[::-1], 'directory', 'dangling']
    ctx.note(fmt=fmt, shape=m.shape, files=len(m.files), victim=victim, size=n)
    with nothing_left_open(ctx, 'loading'):
        for c in sorted(cuts) + ctx.shuffled(other)[:3]:
            os.remove(path)
            if c == 'directory':
                os.mkdir(path)
            elif c == 'dangling':
                os.symlink(os.path.join(m.root, 'nowhere'), path)
            else:
                with open(path, 'wb') as f:
                    f.write(whole[:c] if isinstance(c, int) else c)
            done, r = attempt(lambda: loaded(m))
            ctx.ev('cuts' if isinstance(c, int) else 'replaced')
            if done:
                # the missing bytes held no pixels
                ctx.check(isinstance(c, int), 'something that is no image was read', content=c)
                right(ctx, r, m, 'file cut at byte %d of %d' % (c, n))
                ctx.ev('harmless')
            else:
                ctx.ev('refused')
            ctx.sig(fmt, c, n)
            if c == 'directory':
                os.rmdir(path)
                c = None
            if os.path.lexists(path):
                os.remove(path)
            with open(path, 'wb') as f:
                f.write(whole)
    right(ctx, loaded(m), m, 'after the file is repaired')


class Broken(Exception):
    pass


@P.scenario(quick=100, thorough=1500, must=['refused', 'open files counted'])
def reading_fails(ctx):
    """The reading of one image fails, whichever it is, with any error."""
    m = imgfiles.random_measurement(ctx, ctx.tmp, small=True)
    total = sum(len(x[3]) for x in m.points())
    errors = [OSError(errno.EIO, 'Input/output error'), MemoryError('injected'), ValueError('injected'), Broken('injected'),
              PermissionError(errno.EACCES, 'Permission denied'), EOFError('injected'), SyntaxError('injected'), KeyError('injected'),
              TypeError('injected'), IndexError('injected'), AttributeError('injected'), ArithmeticError('injected'),
              ZeroDivisionError('injected'), RuntimeError('injected'), FileNotFoundError(errno.ENOENT, 'injected')]
    real = np.load if m.fmt == 'npy' else routines.load_image
    with nothing_left_open(ctx, 'loading'):
        for k in range(total):
            err = ctx.pick(errors)
            calls = [0]

            def fload(name):
                calls[0] += 1
                if calls[0] - 1 == k:
                    raise err
                return real(name)
            done, r = attempt(lambda: loaded(m, fload=fload))
            ctx.check(not done, 'the failure of a reading is passed over', image=k, error=repr(err), reads=calls[0], total=total)
            ctx.ev('refused')
        calls = [0]

        def fload(name):
            calls[0] += 1
            return real(name)
        right(ctx, loaded(m, fload=fload), m, 'without a failure')
        ctx.check(calls[0] >= total, 'images read', got=calls[0], want=total)
    ctx.sig(m.fmt, total)


def small_config(ctx):
    g, kw = c25.config(ctx)
    g['steps'], g['L'] = ctx.int(2, 4, const=0), ctx.int(3, 5, const=0)
    return dict(g, **kw)


@P.scenario(quick=60, thorough=400, must=['refused', 'struck', 'unharmed', 'open files counted'])
def generating(ctx):
    """The disk fills up, or a file cannot be opened, while a data set is generated."""
    kw = small_config(ctx)
    home = os.path.join(ctx.tmp, 'reference')
    with Faults(ctx.tmp) as f:
        quiet(DatasetGenerator, outdir=home, **kw)
    want = tree(home)
    sizes = sorted(len(v) for v in want.values())
    ctx.note(files=len(want), largest=sizes[-1])
    top = max(f.count - 1, 0)
    plan = [('open', k) for k in {0, 1, top, ctx.int(0, top, const=0), ctx.int(0, top, const=0)}]
    # the library that writes the other formats passes over short writes itself
    png = kw.get('image_format', 'png') == 'png'
    plan += [('limit', n) for n in {sizes[0] - 1, sizes[-1] - 1, sizes[-1], ctx.int(0, sizes[-1], const=0), ctx.int(0, sizes[0], const=0)} if png or n >= sizes[-1]]
    with nothing_left_open(ctx, 'generating'):
        for i, (how, n) in enumerate(plan):
            out = os.path.join(ctx.tmp, 'o%d' % i)
            if how == 'open':
                with Faults(out, n, ctx.pick([errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EIO])) as f:
                    done, r = attempt(lambda: quiet(DatasetGenerator, outdir=out, **kw))
                hit = f.struck
            else:
                with file_limit(n):
                    done, r = attempt(lambda: quiet(DatasetGenerator, outdir=out, **kw))
                hit = n < sizes[-1]
            judge_write(ctx, hit, done, r, lambda: tree(out) == want, 'data set', (how, n))
            ctx.sig('generate', how, n, len(want))
            del r
        again = os.path.join(ctx.tmp, 'again')
        quiet(DatasetGenerator, outdir=again, **kw)
        ctx.check(tree(again) == want, 'a data set generated after failures differs')


def judge_write(ctx, hit, done, r, same, what, where):
    if hit:
        ctx.ev('struck')
        ctx.check(not done, 'a failing write is passed over: ' + what, fault=where)
        ctx.ev('refused')
    else:
        if not done:
            ctx.fail('a fault that does not strike makes it fail: ' + what, fault=where, error=repr(r))
        ctx.check(same(), 'contents written: ' + what, fault=where)
        ctx.ev('unharmed')


@P.scenario(quick=60, thorough=800, must=['refused', 'struck', 'unharmed', 'open files counted'])
def exporting(ctx):
    """The export of results and of a comparison, with a disk that is full."""
    t, _i = curves.curve(ctx)
    sp, _b, _d = curves.spatial_data(ctx, (ctx.size(8, 20), ctx.size(8, 20)))
    r = Results1288({'temporal': t, 'spatial': sp}, loglevel=50)
    full = os.path.join(ctx.tmp, 'full.xml')
    cmp_ = os.path.join(ctx.tmp, 'full.txt')
    jobs = [('xml', lambda fn: r.xml(fn), full)]
    r.xml(full)
    jobs.append(('comparison', lambda fn: routines.compare_xml(full, full, filename=fn), cmp_))
    routines.compare_xml(full, full, filename=cmp_)
    for what, job, reference in jobs:
        with open(reference, 'rb') as f:
            want = f.read()
        n = len(want)
        out = os.path.join(ctx.tmp, 'out')
        with nothing_left_open(ctx, what):
            for how, k in [('open', 0), ('limit', n - 1), ('limit', n), ('limit', ctx.int(0, n - 1, const=0)), ('missing', 0), ('limit', 0)]:
                if ctx.chance(.5) and os.path.exists(out):
                    os.remove(out)
                if how == 'open':
                    with Faults(ctx.tmp, 0) as f:
                        done, x = attempt(lambda: quiet(job, out))
                    hit = f.struck
                elif how == 'missing':
                    done, x = attempt(lambda: quiet(job, os.path.join(ctx.tmp, 'no', 'such', 'place')))
                    hit = True
                else:
                    with file_limit(k):
                        done, x = attempt(lambda: quiet(job, out))
                    hit = k < n

                def same():
                    with open(out, 'rb') as f:
                        return f.read() == want
                judge_write(ctx, hit, done, x, same, what, (how, k))
                ctx.sig(what, how, k, n)
            quiet(job, out)
            with open(out, 'rb') as f:
                ctx.check(f.read() == want, what + ' written after failures differs')


@P.scenario(quick=120, must=['nothing', 'open files counted', 'same'])
def cut_results(ctx):
    """A result file that is cut short yields nothing, never part of the results."""
    t, _i = curves.curve(ctx)
    r = curves.results(ctx, t)
    path = os.path.join(ctx.tmp, 'r.xml')
    r.xml(path)
    with open(path, 'rb') as f:
        whole = f.read()
    want = routines.xml_to_dict(path)
    n = len(whole.rstrip())
    with nothing_left_open(ctx, 'reading results'):
        for c in sorted({0, 1, n - 1, n - 2} | {ctx.int(0, n - 1, const=0) for _ in range(12)}):
            with open(path, 'wb') as f:
                f.write(whole[:c])
            done, got = attempt(lambda: quiet(routines.xml_to_dict, path if ctx.chance(.5) else whole[:c]))
            ctx.check(not done or not got, 'results from a file cut short', at=c, of=n, got=got)
            ctx.ev('nothing')
            ctx.sig(c, n)
        with open(path, 'wb') as f:
            f.write(whole[:n])
        ctx.eq(sorted(routines.xml_to_dict(path)), sorted(want), 'sections of the whole file')
        ctx.ev('same')


@P.scenario(quick=80, must=['open files counted', 'refused', 'prefix'])
def cut_description(ctx):
    """A descriptor cut short is refused, or says what stands in the part that is there."""
    m = imgfiles.random_measurement(ctx, ctx.tmp, fmt=ctx.pick(['png8', 'tif16', 'bmp8']), small=True)
    rows, marks = ['v 4.0', 'n 16 %d %d' % (m.shape[1], m.shape[0])], []
    for kind, e, p, names in m.points():
        rows.append('d %r' % e if p == 0.0 else 'b %r %r' % (e, p))
        rows += ['i ' + x for x in names]
    text = '\n'.join(rows) + '\n'
    path = os.path.join(m.root, 'desc.txt')
    truth = {(k, e, p): [os.path.normpath(os.path.join(m.root, x)) for x in names] for k, e, p, names in m.points()}
    with nothing_left_open(ctx, 'parsing'):
        for c in sorted({ctx.int(0, len(text) - 2, const=0) for _ in range(25)} | {len(text) - 2, 0, 1}):
            with open(path, 'w') as f:
                f.write(text[:c])
            # whole lines, and the begin of one
            done, d = attempt(lambda: ParseEmvaDescriptorFile(path, loglevel=50))
            if not done:
                ctx.check(isinstance(d, (SyntaxError, ValueError)), 'error of a descriptor cut short', at=c, got=repr(d))
                ctx.ev('refused')
                continue
            ctx.ev('prefix')
            for kind in ('temporal', 'spatial'):
                for e in d.images.get(kind, {}):
                    for p, names in d.images[kind][e].items():
                        have = [os.path.normpath(x) for x in names]
                        want = truth.get((kind, e, p)) or truth.get(('spatial', e, p)) or []
                        # only the last line can be damaged; the loader tells a missing file
                        ok = have == want or have[:-1] == want[:len(have) - 1] or text[:c].rstrip().endswith(names[-1].rsplit('/', 1)[-1])
                        ctx.check(ok, 'series of a descriptor cut short', at=c, got=have, want=want)
            done, data = attempt(lambda: Data1288(LoadImageData(d.images, loglevel=50).data, loglevel=50))
            if done:
                for kind in ('temporal', 'spatial'):
                    ctx.check(all(d.images[kind].values()), 'empty series')
            ctx.sig(c, len(text))


@P.scenario(quick=24, thorough=160, must=['refused', 'struck', 'open files counted', 'complete'])
def reporting(ctx):
    """A report that could not be written is reported, and complete when tried again."""
    pt = c28.Point(ctx)
    data = pt.data
    out = os.path.join(ctx.tmp, 'report')
    given = None
    if ctx.chance(.5):
        given = os.path.join(ctx.tmp, 'mine.pdf')
        with open(given, 'wb') as f:
            f.write(b'%PDF-1.4 mine')

    def job():
        kw = {'marketing': report.info_marketing(logo=given)} if given else {}
        rep = report.Report1288(out, **kw)
        rep.add(pt.op, data)
        rep.latex()

    with (plain_layout() if ctx.idx % 24 == 7 else c28.watched(ctx, [], False)), nothing_left_open(ctx, 'reporting'):
        with Faults(ctx.tmp) as f:
            quiet(job)
        n = max(f.count, 1)
        for _ in range(3 if ctx.tier == 'quick' else 6):
            shutil.rmtree(out)
            stage = ctx.pick(['open', 'open', 'limit', 'first'])
            if stage == 'limit':
                with file_limit(ctx.pick([0, ctx.int(1, 2000, const=0)])):
                    done, r = attempt(lambda: quiet(job))
                hit = True
            else:
                k = ctx.int(0, n - 1, const=0) if stage == 'open' else ctx.int(0, min(5, n - 1), const=0)
                with Faults(ctx.tmp, k, ctx.pick([errno.ENOSPC, errno.EACCES, errno.EIO])) as f:
                    done, r = attempt(lambda: quiet(job))
                hit = f.struck
            judge_write(ctx, hit, done, r, lambda: True, 'report', stage)
            ctx.sig(stage, n, bool(given))
            # again, in the directory as it was left
            quiet(job)
            complete(ctx, out)
        shutil.rmtree(out)


@contextlib.contextmanager
def plain_layout():
    old = Figure.tight_layout
    Figure.tight_layout = lambda self, *a, **k: None
    try:
        yield
    finally:
        Figure.tight_layout = old


def complete(ctx, out):
    texts = {}
    for n in ('report.tex', 'emvadatasheet.sty'):
        with open(os.path.join(out, n), encoding='utf-8') as f:
            texts[n] = c28.uncomment(f.read())
    ctx.check(r'\end{document}' in texts['report.tex'], 'end of the report')
    for n, t in texts.items():
        for g in c28.graphics(t):
            p = os.path.join(out, g)
            ctx.check(os.path.isfile(p) and os.path.getsize(p) > 0, 'file of the report that is not there', file=g)
            with open(p, 'rb') as f:
                b = f.read()
            ctx.check(b.startswith(b'%PDF') and (b'%%EOF' in b[-64:] or b.startswith((b'%PDF-1.4 mine', b'%PDF-1.4 stand-in'))), 'plot cut short', file=g, size=len(b))
    ctx.ev('complete')


# ------------------------------------------------------------------ resources
@P.scenario(quick=8, thorough=40, must=['few files', 'open files counted'])
def few_files(ctx):
    """Any number of images is generated, loaded and processed with a handful of open files."""
    kw = small_config(ctx)
    kw.update(width=ctx.int(8, 16, const=0), height=ctx.int(8, 16, const=0), steps=ctx.int(10, 40, const=0), L=ctx.int(40, 120, const=0))
    kw.update(bit_depth=12, u_esat=20000., K_min=.01, K_max=2., K=.2, blackoffset=20., dark_current_ref=0, sigma2_dark_0=25.)
    kw['image_format'] = ctx.pick(['png', 'tif', 'tiff'])
    for k in ('qe', 'dsnu', 'prnu', 'radiance_min', 'radiance_max', 'exposure_fixed'):
        kw.pop(k, None)
    from emva1288.camera import routines as cr
    kw['qe'] = cr.Qe(width=kw['width'], height=kw['height'])
    old = resource.getrlimit(resource.RLIMIT_NOFILE)
    gc.collect()
    top = max(f[0] for f in open_files())
    out = os.path.join(ctx.tmp, 'o')
    with nothing_left_open(ctx, 'whole pipeline'):
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(top + 14, old[1]), old[1]))
        try:
            gen = quiet(DatasetGenerator, outdir=out, **kw)
            e = quiet(Emva1288, gen.descriptor_path)
            try:
                quiet(e.results)
            except ValueError:
                # so small images are noisy, and there may be no point to fit
                ctx.ev('no fit')
        except OSError as x:
            resource.setrlimit(resource.RLIMIT_NOFILE, old)
            ctx.check(x.errno not in (errno.EMFILE, errno.ENFILE), 'too many open files', images=len(tree(out)), error=repr(x))
            raise
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, old)
        ctx.ev('few files')
        ctx.sig(kw['steps'], kw['L'])
        del gen, e


def peak(fn):
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        r = fn()
        return tracemalloc.get_traced_memory()[1] - base, r
    finally:
        tracemalloc.stop()


@P.scenario(quick=8, thorough=80, must=['peaks'])
def memory(ctx):
    """The memory needed does not grow with the number of series or images of a data set."""
    shape = (ctx.int(60, 90, const=0), ctx.int(60, 90, const=0))
    pixels = shape[0] * shape[1]

    def measurement(n):
        d = os.path.join(ctx.tmp, 'm%d' % n)
        os.makedirs(d)
        return imgfiles.Measurement(ctx, d, shape, 'tif16', *(
            ([1e3 * (k + 1) for k in range(n)], [[1.0]] * n) if multi else ([1e3], [[float(k + 1) for k in range(n)]])), [1e3], [[1.0]], 4)
    multi = ctx.chance(.5)
    few, many = measurement(3), measurement(60)
    for _ in range(2):
        a, _r = peak(lambda: loaded(few))
    b, _r = peak(lambda: loaded(many))
    # sixty series more than few: a series that stays would add its images (2 bytes a pixel each) or sums (8 bytes)
    ctx.check(b - a <= 30 * 2 * pixels, 'memory of loading grows with the number of series', few=a, many=b, pixels=pixels)
    ctx.ev('peaks', 2)
    kw = small_config(ctx)
    from emva1288.camera import routines as cr
    w, h = shape[1], shape[0]
    for k in ('dsnu', 'prnu', 'exposure_fixed', 'radiance_min', 'radiance_max'):
        kw.pop(k, None)
    kw.update(width=w, height=h, qe=cr.Qe(width=w, height=h), steps=2, L=3)
    for _ in range(2):
        a, _g = peak(lambda: quiet(DatasetGenerator, outdir=os.path.join(ctx.tmp, 'g%d' % _), **kw))
        del _g
    big = dict(kw, **({'L': 60} if ctx.chance(.5) else {'steps': 30}))
    b, _g = peak(lambda: quiet(DatasetGenerator, outdir=os.path.join(ctx.tmp, 'big'), **big))
    del _g
    # about a hundred images more
    ctx.check(b - a <= 40 * pixels, 'memory of generating grows with the number of images', few=a, many=b, pixels=pixels)
    ctx.ev('peaks', 2)
    ctx.note(few=a, many=b, pixels=pixels)
    ctx.sig(shape, multi)
