"""C04: loading keeps every series, exactly once, with its own images."""
import os

import numpy as np

from emva1288.process import routines
from emva1288.process.loader import LoadImageData

from mon import imgfiles, ref
from mon.core import Property

P = Property('C04', 'case = random measurement written to image files (format, layout, shape, series) and loaded; non-trivial = '
             'every point of the loaded data compared with the exact reduction of the pixel values written, distinct by '
             'layout, format and shape')


def npload(fn, *a, **k):
    return np.load(fn)


def check(ctx, ld, m):
    d = ld.data
    ctx.eq(d['height'], m.shape[0], 'height')
    ctx.eq(d['width'], m.shape[1], 'width')
    for kind in ('temporal', 'spatial'):
        ctx.eq(set(d[kind]), set(m.images[kind]), 'exposures of ' + kind)
        for e in m.images[kind]:
            ctx.eq(set(d[kind][e]), set(m.images[kind][e]), 'photon counts of %s %r' % (kind, e))
    for kind, e, p, names in m.points():
        want = ref.reduce_int64([m.files[n] for n in names])
        got = d[kind][e][p]
        where = '%s %r %r' % (kind, e, p)
        if kind == 'temporal':
            want = ref.totals(want)
            ctx.eq(int(got['sum']), want['sum'], 'total sum of ' + where)
            ctx.eq(int(got['pvar']), want['pvar'], 'total pseudo-variance of ' + where)
        else:
            ctx.eq(got['L'], want['L'], 'number of images of ' + where)
            ctx.array_eq(got['sum'], want['sum'], 'sum image of ' + where)
            ctx.array_eq(got['pvar'], want['pvar'], 'pseudo-variance image of ' + where)
        ctx.close(got['dmean'], want['dmean'], 'mean difference of ' + where, rtol=1e-9, atol=1e-6)
        ctx.ev('points')
        ctx.ev('images', len(names))


def load(ctx, m, **kw):
    prefix = ctx.chance(.6)
    desc = m.described(prefix)
    if not prefix:
        kw['path'] = m.root
    if m.fmt == 'npy':
        kw['fload'] = npload
    with ctx.unchanged('the description', desc):
        return LoadImageData(desc, **kw)


@P.scenario(quick=300, must=['points', 'images'])
def one_load(ctx):
    m = imgfiles.random_measurement(ctx, ctx.tmp, multi_spatial=ctx.chance(.3))
    ctx.note(shape=m.shape, fmt=m.fmt, points=len(list(m.points())))
    ctx.sig(m.shape, m.fmt, len(list(m.points())))
    check(ctx, load(ctx, m), m)


@P.scenario(quick=100, must=['reads'])
def readers(ctx):
    """Every file format is read exactly; depth and first channel preserved."""
    for _ in range(6):
        fmt = ctx.pick([f for f in imgfiles.FORMATS if f != 'npy'])
        a = imgfiles.image(ctx, (ctx.size(1, 200), ctx.size(1, 200)), imgfiles.fmax(fmt))
        fn = os.path.join(ctx.tmp, 'x' + imgfiles.EXT[fmt])
        imgfiles.save(ctx, fn, a, fmt, tag=ctx.chance(.3))
        got = routines.load_image(fn)
        ctx.array_eq(np.asarray(got).astype(np.int64), a, 'image read from a %s file' % fmt)
        ctx.check(np.issubdtype(got.dtype, np.integer), 'pixel type', dtype=got.dtype)
        ctx.ev('reads')
        ctx.sig(fmt, a.shape)


@P.scenario(quick=120, must=['points', 'reader_calls'])
def custom_reader(ctx):
    """A custom reader is called with every listed file and with its own arguments, and its images are used."""
    m = imgfiles.random_measurement(ctx, ctx.tmp, fmt='npy', small=True)
    calls = []
    args = tuple(range(ctx.int(0, 3, const=0)))
    kwargs = {k: ctx.int(0, 9) for k in ['gain', 'mode', 'x'][:ctx.int(0, 3, const=0)]}
    box = {'add': ctx.int(0, 5)}

    def reader(fn, *a, **k):
        calls.append((os.path.relpath(fn, m.root), a, k))
        return np.load(fn) + np.uint16(0) if not box['add'] else np.load(fn).astype(np.int32) + box['add']
    a = ctx.pick([list(args), args])
    with ctx.unchanged('the reader arguments', a, kwargs):
        ld = load(ctx, _Fake(m), fload=reader, fload_args=a, fload_kwargs=kwargs)
    for n in m.files:
        m.files[n] = m.files[n] + box['add']
    check(ctx, ld, m)
    listed = sorted(n for _k, _e, _p, ns in m.points() for n in ns)
    ctx.eq(sorted({c[0] for c in calls}), sorted(set(listed)), 'files given to the reader')
    for fn, ca, ck in calls:
        ctx.check(ca == tuple(args) and ck == kwargs, 'arguments of the reader', got=(ca, ck))
        ctx.ev('reader_calls')
    ctx.sig(m.shape, len(calls), len(args), sorted(kwargs))


class _Fake(object):
    """The measurement without its own reader."""

    def __init__(self, m):
        self.m, self.fmt, self.root = m, 'custom', m.root
        self.described = m.described


@P.scenario(quick=60, must=['points', 'masked_points'])
def masked_reader(ctx):
    """Readers may deliver masked images (colour planes)."""
    m = imgfiles.random_measurement(ctx, ctx.tmp, fmt='npy', small=True, shape=(2 * ctx.int(2, 6, const=0), 2 * ctx.int(2, 6, const=0)))
    mask = np.ones(m.shape, bool)
    mask[ctx.int(0, 1, const=0)::2, ctx.int(0, 1, const=0)::2] = False

    def reader(fn):
        return np.ma.array(np.load(fn), mask=mask)
    d = load(ctx, _Fake(m), fload=reader).data
    for kind, e, p, names in m.points():
        imgs = [m.files[n] for n in names]
        want = ref.reduce_int64(imgs)
        got = d[kind][e][p]
        if kind == 'temporal':
            ctx.eq(int(got['sum']), int(want['sum'][~mask].sum()), 'sum over the unmasked pixels')
            ctx.eq(int(got['pvar']), int(want['pvar'][~mask].sum()), 'pseudo-variance over the unmasked pixels')
        else:
            for k in ('sum', 'pvar'):
                ctx.array_eq(np.ma.getmaskarray(got[k]), mask, 'mask of ' + k)
                ctx.array_eq(np.ma.getdata(got[k])[~mask], want[k][~mask], k)
        ctx.ev('masked_points')
        ctx.ev('points')
    ctx.sig(m.shape, len(list(m.points())))


@P.scenario(quick=80, must=['points', 'reloads'])
def histories(ctx):
    """Loads of several measurements with files changing in between: every load sees the current contents."""
    ms = []
    shape = (ctx.size(1, 8), ctx.size(1, 8))
    for k in range(ctx.int(1, 3, const=0)):
        root = os.path.join(ctx.tmp, 'm%d' % k)
        ms.append(imgfiles.random_measurement(ctx, root, small=True, shape=shape if ctx.chance(.5) else None))
    alive = []
    for step in range(ctx.int(3, 6, const=0)):
        m = ctx.pick(ms)
        if ctx.chance(.6):
            # rewrite some files in place, same size, same time stamps
            for n in ctx.shuffled(list(m.files))[:ctx.int(1, len(m.files), const=0)]:
                full = os.path.join(m.root, n)
                st = os.stat(full)
                m.write(n)
                if ctx.chance(.5):
                    os.utime(full, ns=(st.st_atime_ns, st.st_mtime_ns))
                ctx.ev('rewritten_files')
        ld = load(ctx, m)
        check(ctx, ld, m)
        alive.append((ld, {n: a.copy() for n, a in m.files.items()}, m))
        # results of earlier loads are not affected
        old, files, mm = ctx.pick(alive)
        cur, mm.files = mm.files, files
        check(ctx, old, mm)
        mm.files = cur
        ctx.ev('reloads')
    ctx.sig(len(ms), len(alive), shape)


@P.scenario(quick=40, must=['points'])
def repeated_files(ctx):
    """One file may be listed in several series or twice in one; series may be long."""
    m = imgfiles.random_measurement(ctx, ctx.tmp, small=True)
    allf = list(m.files)
    for _ in range(ctx.int(1, 4, const=0)):
        k, e, p, names = ctx.pick(list(m.points()))
        names[ctx.int(0, len(names) - 1, const=0)] = ctx.pick(allf)
    if ctx.chance(.4):
        k, e, p, names = ctx.pick([x for x in m.points() if x[0] == 'spatial'])
        while len(names) < ctx.int(50, 120):
            names.append(ctx.pick(allf))
    m.images = {k: {e: {p: list(ns) for p, ns in ps.items()} for e, ps in es.items()} for k, es in m.images.items()}
    ctx.sig(m.shape, m.fmt, max(len(x[3]) for x in m.points()))
    check(ctx, load(ctx, m), m)


@P.scenario(quick=8, must=['points'])
def large(ctx):
    """Large images and many points."""
    if ctx.chance(.5):
        m = imgfiles.random_measurement(ctx, ctx.tmp, small=True, shape=(ctx.int(200, 1100), ctx.int(200, 1100)), exps=(1, 2),
                                        fmt=ctx.pick(['png8', 'png16', 'tif16', 'npy']))
    else:
        m = imgfiles.random_measurement(ctx, ctx.tmp, exps=ctx.pick([(1, 120), (120, 1)]), shape=(ctx.int(2, 9), ctx.int(2, 9)))
    ctx.sig(m.shape, m.fmt)
    ctx.note(shape=m.shape, fmt=m.fmt, points=len(list(m.points())))
    check(ctx, load(ctx, m), m)
