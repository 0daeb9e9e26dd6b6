"""C08: saturation point and fit ranges."""
import numpy as np

from mon import curves, ref
from mon.core import Property

P = Property('C08', 'case = photon-transfer curve with a known peak (place of the peak, tail, dips, earlier peaks vary) and known '
             'dark-corrected means; non-trivial = saturation index and the three range ends compared with direct scans, distinct '
             'by length, place of the peak and kind of tail')


def temporal(ctx, s2, Y=None, dark=None, texp=None):
    n = len(s2)
    if dark is None:
        dark = np.full(n, ctx.pick([0., ctx.logu(.1, 500)])) if ctx.chance(.5) else ctx.rng.uniform(0, 200, n)
    if Y is None:
        Y = np.cumsum(ctx.rng.uniform(.1, 2, n)) * ctx.logu(.1, 100)
    p = np.cumsum(ctx.rng.uniform(.1, 2, n)) * ctx.logu(.1, 1e4)
    s2d = np.full(n, .3)
    texp = np.full(n, 1e6) if texp is None else texp
    return {'texp': texp, 'u_p': p, 'u_y': Y + dark, 's2_y': np.asarray(s2, float), 'u_ydark': dark, 's2_ydark': s2d}


def single_peak(ctx, n, j):
    """Strictly rising up to j, falling behind it."""
    r = ctx.rng
    top = ctx.logu(1, 1e4)
    s2 = np.empty(n)
    if j:
        up = np.sort(r.uniform(0, 1, j)) * .98
        up += np.arange(j) * 1e-6
        s2[:j] = top * up / (up[-1] / .985 if up[-1] > .985 else 1)
    s2[j] = top
    k = n - 1 - j
    tail = ctx.pick(['random', 'zero', 'flat', 'step', 'slow'])
    if k:
        if tail == 'random':
            t = np.sort(r.uniform(0, .98, k))[::-1]
        elif tail == 'zero':
            t = np.zeros(k)
        elif tail == 'flat':
            t = np.full(k, r.uniform(0, .9))
        elif tail == 'step':
            t = np.repeat(np.sort(r.uniform(0, .9, k))[::-1], 3)[:k]
        else:
            t = np.linspace(.999, .95, k)
        s2[j + 1:] = top * t
    if ctx.chance(.25):
        # a flat peak: the neighbours are hardly lower
        e = 10 ** -ctx.uniform(2.3, 12)
        for i in ctx.pick([[j - 1], [j + 1], [j - 1, j + 1]]):
            if 0 <= i < n:
                s2[i] = max(s2[i], top * (1 - e))
        ctx.ev('flat_peaks')
    return s2, tail


def check_index(ctx, t, j, what):
    res = curves.results(ctx, t)
    with ctx.unchanged('the data', t):
        got = res.index_u_ysat
        ctx.eq(got, j, what, s2_y=t['s2_y'])
        ctx.eq(res.index_u_ysat, j, what + ' read again')
        ctx.eq(res.u_p_sat, t['u_p'][j], 'saturation capacity is the photon count there')
    ctx.ev('saturation_points')


@P.scenario(quick=6000, must=['saturation_points', 'flat_peaks'])
def peak(ctx):
    n = ctx.size(1, 150) if ctx.chance(.99) else ctx.int(150, 1500)
    j = ctx.pick([0, n - 1, max(n - 2, 0), min(1, n - 1), ctx.int(0, n - 1), ctx.int(0, n - 1), ctx.int(n // 2, n - 1)])
    s2, tail = single_peak(ctx, n, j)
    ctx.sig(n, j, tail)
    ctx.note(n=n, peak=j, tail=tail)
    check_index(ctx, temporal(ctx, s2), j, 'saturation index')


@P.scenario(quick=3000, must=['dips'])
def dips(ctx):
    """Isolated low samples are ignored."""
    n = ctx.size(4, 150) if ctx.chance(.99) else ctx.int(150, 1500)
    j = ctx.int(0, n - 1)
    s2, tail = single_peak(ctx, n, j)
    allowed = [i for i in range(n) if i != j]
    at, last = [], -5
    for i in sorted(ctx.shuffled(allowed)[:ctx.int(1, max(1, n // 3))]):
        # never next to each other; a dip next to the peak leaves the peak a peak
        if i - last >= 2:
            at.append(i)
            last = i
    for i in at:
        s2[i] *= ctx.pick([0, ctx.uniform(0, .9)])
        ctx.ev('dips')
    ctx.sig(n, j, tuple(at), tail)
    ctx.note(n=n, peak=j, dips=at, tail=tail)
    check_index(ctx, temporal(ctx, s2), j, 'saturation index with dips')


@P.scenario(quick=2000, must=['saturation_points'])
def two_peaks(ctx):
    """An earlier peak does not count, even if it is higher (a valley is wider than one sample)."""
    n1, n2 = ctx.size(1, 40), ctx.size(3, 40)
    a, _t = single_peak(ctx, n1, ctx.int(0, n1 - 1))
    j = ctx.int(2, n2 - 1)
    b, tail = single_peak(ctx, n2, j)
    # at least two samples lower than the last peak lie between the peaks
    s2 = np.concatenate([a * ctx.logu(.1, 10), b])
    ctx.sig(n1, n2, j)
    ctx.note(n=(n1, n2), peak=n1 + j, tail=tail)
    check_index(ctx, temporal(ctx, s2), n1 + j, 'saturation index with an earlier peak')


@P.scenario(quick=600, must=['saturation_points'])
def plateau(ctx):
    n = ctx.size(2, 60)
    j = ctx.int(0, n - 2)
    s2, tail = single_peak(ctx, n, j)
    k = ctx.int(1, n - 1 - j)
    s2[j:j + k + 1] = s2[j]
    res = curves.results(ctx, temporal(ctx, s2))
    got = res.index_u_ysat
    ctx.check(j <= got <= j + k, 'saturation index outside of the plateau', got=got, plateau=(j, j + k), s2=s2)
    ctx.ev('saturation_points')
    ctx.sig(n, j, k)


def means(ctx, n, j):
    """Dark-corrected means with saturation at j; sometimes exactly on the limits."""
    r = ctx.rng
    mode = ctx.pick(['grow', 'grow', 'exact', 'exact', 'bumpy', 'clip', 'noisy', 'noisy', 'recross', 'recross', 'negative'])
    if mode == 'exact':
        # points exactly on 5, 70 and 95 %
        sat = ctx.pick([1000., 100., 200., 2000.])
        lower = sorted({0.} | {float(x) for x in r.integers(1, int(sat), max(j, 1))})
        Y = np.array((lower + [sat * .05, sat * .7, sat * .95])[:])
        Y = np.unique(np.concatenate([Y[Y < sat], [sat * 5 / 100, sat * 70 / 100, sat * 95 / 100]]))
        Y = np.concatenate([Y, [sat], sat + np.cumsum(r.integers(0, 3, max(n - j - 1, 0)))])
        j = int(np.flatnonzero(Y == sat)[0])
        return Y, j, mode
    Y = np.cumsum(r.uniform(.05, 2, n)) * ctx.logu(.1, 100)
    Y = Y - Y[0] * ctx.pick([1, 1, .5])
    if mode == 'clip':
        Y[j + 1:] = Y[j]
    if mode == 'bumpy' and n - j > 2:
        # after saturation the mean may fall again
        Y[j + 1:] = Y[j] * r.uniform(.96, 1.1, n - j - 1)
    if mode == 'noisy':
        # the mean is not monotonic, up to and behind saturation
        Y = Y * (1 + ctx.pick([.01, .1, .3]) * r.normal(0, 1, n))
        Y[j] = max(abs(Y[j]), .5 * np.abs(Y).max())
    if mode == 'recross' and j > 1:
        # single points beyond a limit, amid others on the other side of it
        for i in ctx.shuffled(range(j))[:ctx.int(1, 4)]:
            Y[i] = Y[j] * (ctx.pick([.05, .7, .95, 0]) + ctx.pick([1, -1]) * ctx.logu(1e-4, .2))
        ctx.ev('recrossings')
    if mode == 'negative':
        # first points darker than the dark images
        k = ctx.int(1, max(1, j - 1))
        Y[:k] = -np.abs(Y[:k]) * ctx.uniform(0, .3)
    return Y, j, mode


def check_ranges(ctx, t, Y, j, res):
    Y = t['u_y'] - t['u_ydark']
    lim = {k: k * Y[j] for k in (.7, .05, .95)}
    if any(0 < abs(y - v) <= 1e-9 * abs(Y[j]) for v in lim.values() for y in Y):
        ctx.check(True, 'rounding decides')
        return
    if Y.min() > lim[.7]:
        ctx.check(True, 'no sensitivity range')
        return
    with ctx.unchanged('the data', t):
        ctx.eq(res.index_sensitivity_min, 0, 'first point of the sensitivity fit')
        ctx.eq(res.index_sensitivity_max, ref.last_le(Y, lim[.7]), 'last point of the sensitivity fit', Y=Y, sat=j)
        ctx.eq(res.index_linearity_min, ref.first_ge(Y, lim[.05]), 'first point of the linearity fit', Y=Y, sat=j)
        ctx.eq(res.index_linearity_max, ref.last_le(Y, lim[.95]), 'last point of the linearity fit', Y=Y, sat=j)
    ctx.ev('ranges')


@P.scenario(quick=8000, must=['ranges', 'recrossings'])
def ranges(ctx):
    n = ctx.size(3, 120)
    j = ctx.int(1, n - 1)
    Y, j, mode = means(ctx, n, j)
    n = len(Y)
    s2, tail = single_peak(ctx, n, j)
    dark = np.full(n, float(ctx.int(0, 500))) if mode == 'exact' else None
    texp = np.sort(ctx.rng.uniform(1e3, 1e6, n)) if ctx.chance(.3) else None
    if mode == 'exact' and ctx.chance(.5):
        dark = np.arange(n) * 2. + 1                       # dark signal grows with the exposure
    t = temporal(ctx, s2, Y=Y, dark=dark, texp=texp)
    ctx.sig(n, j, mode, tail)
    ctx.note(n=n, peak=j, mode=mode)
    check_ranges(ctx, t, Y, j, curves.results(ctx, t))


@P.scenario(quick=3000, must=['ranges', 'forced'])
def forced(ctx):
    """The user's saturation index wins, index 0 included."""
    n = ctx.size(3, 120)
    j = ctx.int(1, n - 1)
    Y, j, mode = means(ctx, n, j)
    n = len(Y)
    s2, _tail = single_peak(ctx, n, j)
    k = ctx.pick([0, n - 1, ctx.int(0, n - 1), ctx.int(0, n - 1)])
    t = temporal(ctx, s2, Y=Y, dark=np.full(n, 3.) if mode == 'exact' else None)
    kk = ctx.pick([k, np.int64(k)])
    res = curves.results(ctx, t, index_u_ysat=kk)
    ctx.eq(res.index_u_ysat, k, 'forced saturation index')
    ctx.eq(res.u_p_sat, t['u_p'][k], 'saturation capacity at the forced index')
    ctx.ev('forced')
    ctx.sig(n, j, k)
    ctx.note(n=n, peak=j, forced=k)
    Yd = t['u_y'] - t['u_ydark']
    if Yd[k] > 0 and Yd.min() < .7 * Yd[k]:
        check_ranges(ctx, t, Y, k, res)
        ctx.eq(res.index_u_ysat, k, 'forced saturation index afterwards')
