"""C05: temporal statistics."""
import os

import numpy as np

from emva1288.process import routines
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData

from mon import curves, imgfiles, ref
from mon.core import Property
from mon.props.c04 import npload

P = Property('C05', 'case = random measurement of image pairs (one exposure with many photon counts, or many exposures) reduced to '
             'temporal arrays; non-trivial = every element of the six arrays compared with a two-pass reference on the raw pixel '
             'values, distinct by layout, shape and order of insertion')


def build(ctx, shape, texps, photons):
    """Raw pairs {exposure: {photons: (a, b)}}."""
    raw = {}
    for e, ps in zip(texps, photons):
        raw[e] = {}
        for p in [0.0] + list(ps):
            st = curves.stack(ctx, 2, shape)
            if ctx.chance(.1):
                st[1] = np.clip(st[1] + ctx.int(0, 300), 0, 65535)      # drift between the images
            raw[e][p] = (st[0], st[1])
    return raw


def layout(ctx, n_max=40):
    mode = ctx.pick(['single', 'single', 'multi', 'multi', 'two', 'both'])
    if mode == 'single':
        ne, npts = 1, ctx.size(1, n_max)
    elif mode == 'multi':
        ne, npts = ctx.size(3, n_max), 1
    elif mode == 'two':
        ne, npts = 2, 1
    else:
        ne, npts = ctx.int(2, 4, const=0), ctx.int(2, 4, const=0)
    # numeric order differs from the order of the strings, and integral values occur
    texps = set()
    while len(texps) < ne:
        texps.add(ctx.pick([round(ctx.logu(9, 1e9), 1), float(ctx.int(1, 2000))]))
    base = ctx.chance(.3) and [round(ctx.logu(.001, 1e6), 3) for _ in range(npts)]
    photons = []
    for _ in range(ne):
        s = set(base or ())
        while len(s) < npts:
            s.add(ctx.pick([round(ctx.logu(.001, 1e6), 3), float(ctx.int(1, 2000))]))
        photons.append(list(s))
    return mode, list(texps), photons


def reduced(ctx, raw):
    out = {}
    for e in ctx.shuffled(list(raw)):
        out[e] = {}
        for p in ctx.shuffled(list(raw[e])):
            out[e][p] = curves.reduced_pair(*raw[e][p])
            if ctx.chance(.3):
                out[e][p] = {k: (int(v) if k != 'dmean' else float(v)) for k, v in out[e][p].items()}
    return out


def expected(raw):
    texp = sorted(raw)
    cols = {k: [] for k in ('u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark')}
    scale = []
    for e in texp:
        m, v = ref.pair_stats(*raw[e][0.0])
        cols['u_ydark'].append(m)
        cols['s2_ydark'].append(v)
        scale.append(m)
        for p in sorted(raw[e]):
            if p == 0.0:
                continue
            m, v = ref.pair_stats(*raw[e][p])
            cols['u_p'].append(p)
            cols['u_y'].append(m)
            cols['s2_y'].append(v)
            scale.append(m)
    cols['texp'] = texp
    if len(texp) == 1:
        n = len(cols['u_p'])
        for k in ('texp', 'u_ydark', 's2_ydark'):
            cols[k] = cols[k] * n
    return cols, max(scale)


def compare(ctx, got, raw):
    want, scale = expected(raw)
    ctx.eq(sorted(got), sorted(want), 'temporal arrays')
    for k in ('texp', 'u_p'):
        ctx.array_eq(np.asarray(got[k], float), np.asarray(want[k], float), k)
    for k in ('u_y', 'u_ydark'):
        ctx.close(got[k], want[k], k, rtol=1e-10)
    for k in ('s2_y', 's2_ydark'):
        ctx.close(got[k], want[k], k, rtol=1e-9, atol=1e-13 * scale ** 2 + 1e-10)
    ctx.ev('points', len(want['u_p']))
    ctx.ev('dark_points', len(raw))


@P.scenario(quick=500, must=['points', 'dark_points', 'purity_checks'])
def reference(ctx):
    shape = (ctx.size(1, 40), ctx.size(1, 40))
    mode, texps, photons = layout(ctx)
    raw = build(ctx, shape, texps, photons)
    tmp = reduced(ctx, raw)
    sp, _b, _d = curves.spatial_input(ctx, shape)
    data = {'temporal': tmp, 'spatial': sp, 'height': shape[0], 'width': shape[1]}
    ctx.note(shape=shape, mode=mode, exposures=texps[:5], n=len(photons[0]))
    kw = {'pixels': shape[0] * shape[1]} if ctx.chance(.5) else {}
    with ctx.unchanged('the reduced data', data):
        d = Data1288(data, loglevel=50, **kw)
        compare(ctx, d.data['temporal'], raw)
    ctx.sig(shape, mode, tuple(tmp), bool(kw))


@P.scenario(quick=150, must=['orders'])
def orders(ctx):
    """Storage order and the way the pixel count is given do not matter at all."""
    shape = (ctx.size(1, 12), ctx.size(1, 12))
    mode, texps, photons = layout(ctx, 15)
    raw = build(ctx, shape, texps, photons)
    first = None
    for k in range(4):
        sp, _b, _d = curves.spatial_input(ctx, shape)
        data = {'temporal': reduced(ctx, raw), 'spatial': sp, 'height': shape[0], 'width': shape[1]}
        kw = {'pixels': shape[0] * shape[1]} if k % 2 else {}
        t = Data1288(data, loglevel=50, **kw).data['temporal']
        t = {a: np.asarray(b, float) for a, b in t.items()}
        if first is None:
            first = t
        for a in first:
            ctx.close(t[a], first[a], a + ' after reordering', rtol=1e-12)
        ctx.ev('orders')
    compare(ctx, first, raw)
    ctx.sig(shape, mode, len(texps))


@P.scenario(quick=60, must=['masked_points'])
def colour(ctx):
    """Masked pairs (one colour plane): the caller gives the number of pixels that count."""
    shape = (2 * ctx.size(1, 12), 2 * ctx.size(1, 12))
    mask = np.ones(shape, bool)
    if ctx.chance(.5):
        mask[ctx.int(0, 1, const=0)::2, ctx.int(0, 1, const=0)::2] = False
    else:
        mask[::2, ::2] = mask[1::2, 1::2] = False
    mode, texps, photons = layout(ctx, 8)
    raw = build(ctx, shape, texps, photons)
    tmp = {}
    for e in raw:
        tmp[e] = {}
        for p, (a, b) in raw[e].items():
            r = routines.get_int_imgs([np.ma.array(a, mask=mask), np.ma.array(b, mask=mask)])
            tmp[e][p] = {'sum': np.sum(r['sum']), 'pvar': np.sum(r['pvar']), 'dmean': r['dmean']}
    sp, _b, _d = curves.spatial_input(ctx, shape)
    data = {'temporal': tmp, 'spatial': sp, 'height': shape[0], 'width': shape[1]}
    d = Data1288(data, pixels=int((~mask).sum()), loglevel=50)
    compare(ctx, d.data['temporal'], {e: {p: (a[~mask], b[~mask]) for p, (a, b) in ps.items()} for e, ps in raw.items()})
    ctx.ev('masked_points', sum(len(p) for p in photons))
    ctx.sig(shape, mode, len(texps))


@P.scenario(quick=60, must=['points'])
def swapped(ctx):
    """Swapping the two images of a pair, or adding a constant to one of them, leaves the variance alone."""
    shape = (ctx.size(1, 30), ctx.size(1, 30))
    mode, texps, photons = layout(ctx, 8)
    raw = build(ctx, shape, texps, photons)
    swp = {e: {p: ((b, a) if ctx.chance(.5) else (a, b)) for p, (a, b) in ps.items()} for e, ps in raw.items()}
    c = ctx.int(1, 1000)
    off = {e: {p: (a, b + c) for p, (a, b) in ps.items()} for e, ps in raw.items()}
    res = []
    for x in (raw, swp, off):
        sp, _b, _d = curves.spatial_input(ctx, shape)
        data = {'temporal': reduced(ctx, x), 'spatial': sp, 'height': shape[0], 'width': shape[1]}
        res.append(Data1288(data, loglevel=50).data['temporal'])
    compare(ctx, res[0], raw)
    scale = max(res[0]['u_y'].max(), res[0]['u_ydark'].max()) + c
    for k in ('u_y', 'u_ydark', 's2_y', 's2_ydark'):
        ctx.close(res[1][k], res[0][k], k + ' after swapping pairs', rtol=1e-9, atol=1e-13 * scale ** 2 + 1e-10)
    for k in ('u_y', 'u_ydark'):
        ctx.close(res[2][k], np.asarray(res[0][k]) + c / 2., k + ' after offset', rtol=1e-10, atol=1e-9)
    for k in ('s2_y', 's2_ydark'):
        ctx.close(res[2][k], res[0][k], k + ' after offset', rtol=1e-8, atol=1e-12 * scale ** 2 + 1e-9)
    ctx.sig(shape, mode, len(texps), c)


@P.scenario(quick=40, must=['points'])
def from_files(ctx):
    """The same, through image files and the loader."""
    shape = (ctx.size(1, 20), ctx.size(1, 20))
    fmt = ctx.pick(['npy', 'png16', 'png8', 'tif16'])
    _mode, texps, photons = layout(ctx, 8)
    m = imgfiles.Measurement(ctx, ctx.tmp, shape, fmt, texps, photons, [texps[0]], [[photons[0][0]]], 3)
    kw = {'fload': npload} if fmt == 'npy' else {}
    ld = LoadImageData(m.described(), loglevel=50, **kw)
    d = Data1288(ld.data, loglevel=50)
    raw = {e: {p: tuple(m.files[n] for n in ns) for p, ns in ps.items()} for e, ps in m.images['temporal'].items()}
    compare(ctx, d.data['temporal'], raw)
    ctx.sig(shape, fmt, len(texps))


@P.scenario(quick=10, must=['points'])
def large(ctx):
    """Bright 16 bit pairs of large images."""
    shape = (ctx.int(300, 1500), ctx.int(300, 1500))
    a = np.clip(65535 - ctx.rng.integers(0, 5, shape), 0, 65535)
    b = ctx.pick([np.clip(65535 - ctx.rng.integers(0, 5, shape), 0, 65535), ctx.rng.integers(0, 65536, shape)])
    raw = {10.0: {0.0: (a * 0 + ctx.rng.integers(0, 3, shape), a * 0), 5.0: (a, b)}}
    sp, _b, _d = curves.spatial_input(ctx, (3, 4))
    data = {'temporal': reduced(ctx, raw), 'spatial': sp, 'height': shape[0], 'width': shape[1]}
    compare(ctx, Data1288(data, loglevel=50).data['temporal'], raw)
    ctx.sig(shape)


@P.scenario(quick=60, must=['points'])
def given_pixels(ctx):
    """A number of pixels given by the caller is the one the means count with."""
    shape = (ctx.size(1, 12), ctx.size(1, 12))
    mode, texps, photons = layout(ctx, 8)
    raw = build(ctx, shape, texps, photons)
    n = shape[0] * shape[1]
    given = ctx.pick([max(n // 4, 1), n // 2 + 1, n + ctx.int(1, 50), 3 * n, 10 * n])
    out = []
    for kw in ({}, {'pixels': given}):
        sp, _b, _d = curves.spatial_input(ctx, shape)
        data = {'temporal': reduced(ctx, raw), 'spatial': sp, 'height': shape[0], 'width': shape[1]}
        out.append(Data1288(data, loglevel=50, **kw).data['temporal'])
    for q in ('u_y', 'u_ydark'):
        ctx.close(np.asarray(out[1][q], float) * given, np.asarray(out[0][q], float) * n, q + ' with the given number of pixels', rtol=1e-9)
    for q in ('u_p', 'texp'):
        ctx.array_eq(out[1][q], out[0][q], q + ' with the given number of pixels')
    ctx.ev('points', len(np.atleast_1d(out[1]['u_y'])))
    ctx.sig(shape, mode, given)
