"""Measurements in the form the processing uses: temporal curves and reduced image stacks."""
import numpy as np

from mon import imgfiles, ref


# ------------------------------------------------------------------ raw images
def stack(ctx, L, shape, hi=None, kind=None):
    """L images of a camera-like or hostile scene (int64 values)."""
    r = ctx.rng
    hi = hi or ctx.pick([255, 1023, 4095, 65535])
    kind = kind or ctx.pick(['camera', 'camera', 'uniform', 'extremes', 'flat', 'rowcol', 'gradient'])
    M, N = shape
    if kind == 'uniform':
        return r.integers(0, hi + 1, (L, M, N))
    if kind == 'extremes':
        return np.where(r.random((L, M, N)) < .5, 0, hi)
    if kind == 'flat':
        return np.full((L, M, N), int(r.integers(0, hi + 1)))
    mean = r.uniform(.1, .8) * hi
    base = np.full((M, N), mean)
    if kind == 'camera':
        base = base + r.normal(0, r.uniform(0, .03) * hi, (M, N))
    if kind == 'rowcol':
        base = base + r.normal(0, r.uniform(0, .05) * hi, (1, N)) + r.normal(0, r.uniform(0, .05) * hi, (M, 1))
    if kind == 'gradient':
        base = base + np.linspace(0, .1 * hi, N)[None, :] - np.linspace(0, .07 * hi, M)[:, None]
    noise = r.normal(0, r.uniform(0, .03) * hi + .3, (L, M, N))
    return np.clip(np.rint(base[None] + noise), 0, hi).astype(np.int64)


def typed(ctx, st):
    """The stack as a list of images of a camera's pixel type."""
    hi = int(st.max()) if st.size else 0
    types = [t for t in (np.uint8, np.uint16, np.uint32) if hi <= np.iinfo(t).max]
    t = types[0] if ctx.chance(.7) else ctx.pick(types)
    return [np.ascontiguousarray(i.astype(t)) for i in st]


def reduced_pair(a, b):
    """What the loader delivers for a temporal point."""
    a, b = a.astype(np.int64), b.astype(np.int64)
    d = a - b
    return {'sum': np.int64((a + b).sum()), 'pvar': np.int64(2 * (d * d).sum()), 'dmean': ref.mean(b) - ref.mean(a)}


def reduced_stack(st):
    r = ref.reduce_int64(list(st))
    return r


def spatial_input(ctx, shape, L=None, Ld=None, texp=None, photons=None, bright=None, dark=None):
    """{exposure: {0.0: ..., photons: ...}} and the two stacks."""
    L = L or ctx.int(3, 9, const=0)
    Ld = Ld or L
    if bright is None:
        bright = stack(ctx, L, shape)
    if dark is None:
        dark = stack(ctx, Ld, shape)
    e = texp if texp is not None else round(ctx.logu(1e2, 1e9), 1)
    p = photons if photons is not None else round(ctx.logu(.01, 1e6), 3)
    pts = {0.0: reduced_stack(dark), p: reduced_stack(bright)}
    return {e: {k: pts[k] for k in ctx.shuffled(list(pts))}}, bright, dark


def small_temporal(ctx, shape, n=3):
    """A plain valid temporal part for checks about something else."""
    pts = {0.0: reduced_pair(*stack(ctx, 2, shape))}
    for k in range(n):
        pts[float(10 * (k + 1))] = reduced_pair(*stack(ctx, 2, shape))
    return {1000.0: pts}


# ------------------------------------------------------------------ curves
def curve(ctx, multi=None, n=None, sat=None, noise=None, tail=None, minpts=4):
    """Photon-transfer curve of a linear camera, one peak in the variance, dark-corrected signal growing.

    Returns the temporal dictionary and the index of the variance maximum.
    """
    r = ctx.rng
    multi = ctx.chance(.4) if multi is None else multi
    # now and then a long measurement
    n = n or (ctx.int(200, 1500, const=0) if ctx.chance(.015) else ctx.size(minpts + 3, 120))
    noise = ctx.pick([0, 0, .001, .01]) if noise is None else noise
    K = ctx.pick([ctx.logu(.005, 20), ctx.logu(.005, 20), ctx.logu(1e-4, 300)])
    qe = ctx.uniform(.05, 1.0)
    s2d0 = ctx.pick([ctx.uniform(0, .5), ctx.logu(.1, 1e3)])
    d0 = ctx.logu(.5, 500)
    pmax = ctx.pick([ctx.logu(100, 1e6), ctx.logu(100, 1e6), ctx.logu(10, 1e9)])
    isat = sat if sat is not None else int(r.integers(max(minpts, ctx.pick([n // 2, n // 2, 0])), n))
    isat = min(isat, n - 1)
    style = ctx.pick(['linear', 'linear', 'quadratic', 'log', 'random'])
    if style == 'linear':
        p = np.linspace(pmax / n, pmax, n)
    elif style == 'quadratic':
        p = pmax * np.linspace(1. / n, 1, n) ** 2
    elif style == 'log':
        p = np.geomspace(pmax * 1e-3, pmax, n)
    else:
        p = np.cumsum(r.uniform(.2, 1.8, n))
        p = p / p[-1] * pmax
    sig = K * qe * p                                  # dark-corrected mean
    while sat is None and isat < n - 1 and (np.sum(p[:isat + 1] <= .6 * p[isat]) < 2 or
                                            np.sum((p <= .93 * p[isat]) & (p >= .07 * p[isat])) < 3):
        isat += 1
    sat_level = sig[isat]
    over = np.arange(n) > isat
    full = sat_level * (1 + .05 * np.arange(n) / n)
    sig = np.where(over, np.minimum(full, sig), sig)
    sig = sig * (1 + noise * r.normal(0, 1, n) * .2)
    sig = np.maximum.accumulate(np.abs(sig))
    sig = sig + np.arange(n) * sig[-1] * 1e-9         # strictly increasing
    s2 = K * sig
    s2 = s2 * (1 + noise * r.normal(0, 1, n))
    if multi:
        texp = np.sort(np.round(np.linspace(ctx.logu(1e3, 1e5), ctx.logu(1e6, 1e9), n), 1))
        dc = ctx.pick([0., ctx.logu(1e-3, .2)]) * d0  # dark mean rises by dc over the range
        u_yd = d0 + dc * (texp / texp[-1]) + noise * r.normal(0, 1, n) * .1
        s2d = s2d0 + ctx.pick([1, 1, 1, -0.1]) * K * dc * (texp / texp[-1])
        s2d = s2d * (1 + noise * r.normal(0, 1, n))
        s2d = np.abs(s2d) + 1e-3
    else:
        texp = np.full(n, round(ctx.logu(1e3, 1e9), 1))
        u_yd = np.full(n, d0)
        s2d = np.full(n, s2d0)
    # one peak in the variance: rising up to isat, falling behind it
    s2_y = s2 + s2d
    rise = np.maximum.accumulate(s2_y[:isat + 1])
    rise = rise + np.arange(isat + 1) * rise[-1] * 1e-7
    s2_y[:isat + 1] = rise
    ntail = n - 1 - isat
    if ntail:
        tail = tail or ctx.pick(['drop', 'zero', 'slow'])
        if tail == 'drop':
            f = .7 ** np.arange(1, ntail + 1)
        elif tail == 'zero':
            f = np.zeros(ntail)
            if ntail > 1 and ctx.chance(.5):
                f[0] = .5
        else:
            f = np.linspace(.99, .3, ntail)
        s2_y[isat + 1:] = rise[-1] * f
    t = {'texp': texp, 'u_p': p, 'u_y': u_yd + sig, 's2_y': s2_y, 'u_ydark': u_yd, 's2_ydark': s2d}
    return t, isat


def plain_spatial():
    """Some valid spatial part, for checks that are about something else."""
    if not PLAIN:
        from emva1288.process.data import Data1288
        r = np.random.default_rng(5)
        b, d = r.integers(80, 120, (3, 9, 11)), r.integers(0, 20, (3, 9, 11))
        pair = reduced_pair(b[0], b[1])
        data = {'temporal': {1.0: {0.0: pair, 1.0: pair}}, 'height': 9, 'width': 11,
                'spatial': {1.0: {0.0: reduced_stack(d), 1.0: reduced_stack(b)}}}
        PLAIN.update(Data1288(data, loglevel=50).data['spatial'])
    return dict(PLAIN)


PLAIN = {}


def results(ctx, temporal, spatial=None, **kw):
    from emva1288.process.results import Results1288
    if spatial is None:
        spatial = plain_spatial()
    return Results1288({'temporal': temporal, 'spatial': spatial}, loglevel=50, **kw)


def spatial_data(ctx, shape, L=None, Ld=None, **kw):
    """The spatial dictionary of Data1288 for random stacks, and the stacks."""
    from emva1288.process.data import Data1288
    sp, bright, dark = spatial_input(ctx, shape, L, Ld, **kw)
    d = Data1288({'temporal': small_temporal(ctx, shape, 1), 'spatial': sp, 'height': shape[0], 'width': shape[1]}, loglevel=50)
    return d.data['spatial'], bright, dark
