"""C07: incomplete or inconsistent measurements are refused."""
import os

import numpy as np

from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData

from mon import curves, imgfiles
from mon.core import Property
from mon.props.c04 import npload

P = Property('C07', 'case = complete measurement (accepted) and the same measurement with one defect at a random place (refused); '
             'non-trivial = both runs observed, distinct by kind and place of the defect')


def measurement(ctx, root):
    if ctx.chance(.5):
        n_e, n_p = 1, ctx.size(1, 6)
    else:
        n_e, n_p = ctx.size(1, 8), 1
    fmt = ctx.pick(['npy', 'npy', 'png8', 'png16'])
    m = imgfiles.random_measurement(ctx, root, shape=(ctx.size(1, 9), ctx.size(1, 9)), fmt=fmt, exps=(n_e, n_p))
    return m


def process(m):
    """Loader and data stage."""
    kw = {'fload': npload} if m.fmt == 'npy' else {}
    ld = LoadImageData(m.described(), loglevel=50, **kw)
    return Data1288(ld.data, loglevel=50)


def place(ctx, m, kind=None):
    pts = [p for p in m.points() if kind is None or p[0] == kind]
    return ctx.pick(pts)


def other_shape(ctx, shape):
    h, w = shape
    o = [(h + 1, w), (h, w + 1)]
    if h > 1:
        o.append((h - 1, w))
    if w > 1:
        o.append((h, w - 1))
    if h != w:
        o.append((w, h))
        o.append((w, h))
    for k in range(2, h + 1):
        if h % k == 0:
            o.append((h // k, w * k))                      # same number of pixels
            break
    if ctx.chance(.2):
        # one row, one column or one pixel goes with any image in a sum
        one = [s for s in [(1, w), (h, 1), (1, 1)] if s != (h, w)]
        o = one or o
    return ctx.pick(o)


@P.scenario(quick=1200, must=['refusals', 'accepted'])
def missing_points(ctx):
    m = measurement(ctx, ctx.tmp)
    process(m)
    ctx.ev('accepted')
    kind, e, p, names = place(ctx, m)
    what = ctx.pick(['dark', 'bright', 'series'])
    if what == 'dark':
        del m.images[kind][e][0.0]
    elif what == 'bright':
        for q in [q for q in m.images[kind][e] if q]:
            del m.images[kind][e][q]
    else:
        m.images[kind][e] = {}
    ctx.note(what=what, kind=kind, exposure=e, of=sorted(m.images[kind]))
    ctx.sig(what, kind, sorted(m.images[kind]).index(e), len(m.images[kind]))
    ctx.refused(lambda: process(m), (ValueError,), '%s exposure without %s' % (kind, what))


@P.scenario(quick=1200, must=['refusals', 'accepted'])
def sizes(ctx):
    m = measurement(ctx, ctx.tmp)
    process(m)
    ctx.ev('accepted')
    pts = list(m.points())
    kind, e, p, names = ctx.pick(pts)
    mode = ctx.pick(['image', 'image', 'point', 'exposure', 'kind'])
    if mode == 'image':
        bad = [ctx.pick(names)]
    elif mode == 'point':
        bad = names
    elif mode == 'exposure':
        bad = [n for q in m.images[kind][e].values() for n in q]
    else:
        bad = [n for x in pts if x[0] == kind for n in x[3]]
    sh = other_shape(ctx, m.shape)
    for n in bad:
        m.write(n, sh)
    ctx.note(mode=mode, kind=kind, shape=m.shape, other=sh)
    ctx.sig(mode, kind, len(pts), m.shape, sh)
    ctx.refused(lambda: process(m), (ValueError,), '%s with images of another size' % mode)


@P.scenario(quick=750, must=['refusals', 'accepted'])
def missing_files(ctx):
    m = measurement(ctx, ctx.tmp)
    process(m)
    ctx.ev('accepted')
    kind, e, p, names = place(ctx, m)
    i = ctx.int(0, len(names) - 1, const=0)
    mode = ctx.pick(['removed', 'renamed', 'never', 'directory', 'dangling'])
    full = os.path.join(m.root, names[i])
    if mode == 'never':
        names[i] = names[i] + 'x'
    else:
        os.rename(full, full + '~')
        if mode == 'removed':
            os.unlink(full + '~')
        elif mode == 'directory':
            os.mkdir(full)
        elif mode == 'dangling':
            os.symlink('nowhere', full)
    ctx.note(mode=mode, kind=kind, position=i, of=len(names))
    ctx.sig(mode, kind, i, len(list(m.points())))
    ctx.refused(lambda: process(m), (IOError,), 'missing image file')


@P.scenario(quick=750, must=['refusals', 'accepted'])
def spatial_points(ctx):
    """The spatial part needs one exposure with one dark and one bright point."""
    m = measurement(ctx, ctx.tmp)
    process(m)
    ctx.ev('accepted')
    (e, pts), = m.images['spatial'].items()
    mode = ctx.pick(['bright', 'exposure', 'none'])
    L = 3
    if mode == 'bright':
        b = [p for p in pts if p][0]
        q = ctx.pick([b * 2, b / 2, b + .001])
        pts[q] = [m.new() for _ in range(L)]
    elif mode == 'exposure':
        e2 = ctx.pick([e * 2, e / 2, e + .1])
        m.images['spatial'][e2] = {0.0: [m.new() for _ in range(L)], 7.0: [m.new() for _ in range(L)]}
    else:
        m.images['spatial'] = {}
    ctx.note(mode=mode)
    ctx.sig(mode, len(list(m.points())))
    ctx.refused(lambda: process(m), (ValueError,), 'spatial part: ' + mode)


@P.scenario(quick=1200, must=['refusals', 'accepted'])
def data_stage(ctx):
    """The same defects in reduced data given to the data stage directly."""
    shape = (ctx.size(1, 6), ctx.size(1, 6))
    ne = ctx.size(1, 10)
    tmp = {}
    for k in range(ne):
        tmp[100.0 * (k + 1)] = {p: curves.reduced_pair(*curves.stack(ctx, 2, shape))
                                for p in [0.0] + [10.0 * (j + 1) for j in range(ctx.int(1, 3, const=0) if ne == 1 else 1)]}
    sp, _b, _d = curves.spatial_input(ctx, shape)
    data = {'temporal': tmp, 'spatial': sp, 'height': shape[0], 'width': shape[1]}
    Data1288(data, loglevel=50)
    ctx.ev('accepted')
    kind = ctx.pick(['temporal', 'spatial'])
    part = data[kind]
    e = ctx.pick(list(part))
    what = ctx.pick(['dark', 'bright', 'both'] + (['extra_bright', 'extra_exposure', 'none', 'dark_pair'] if kind == 'spatial' else []))
    if what == 'dark':
        del part[e][0.0]
    elif what == 'dark_pair':                              # two points but none of them dark
        part[e][5.25] = part[e].pop(0.0)
    elif what == 'bright':
        for q in [q for q in part[e] if q]:
            del part[e][q]
    elif what == 'both':
        part[e].clear()
    elif what == 'extra_bright':
        q = [q for q in part[e] if q][0]
        part[e][q + 1] = part[e][q]
    elif what == 'extra_exposure':
        part[e + 1] = dict(part[e])
    else:
        part.clear()
    ctx.note(kind=kind, what=what, exposures=ne)
    ctx.sig(kind, what, ne, shape)
    ctx.refused(lambda: Data1288(data, loglevel=50), (ValueError,), '%s part: %s' % (kind, what))
