"""C10: thresholds, capacity, SNR and dynamic range."""
import math

import numpy as np

from mon import curves, ref
from mon.core import Property
from mon.props import c09

P = Property('C10', 'case = photon-transfer curve with a pixel area (none, zero, set, changed later); non-trivial = every figure '
             'recomputed from the definitions with independently fitted K and QE, distinct by curve length, saturation and area')

FIGURES = ['u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat', 'SNR_max', 'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'DR', 'DR_dB']
AREA = ['u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat']


def value(res, name):
    v = getattr(res, name)
    return v() if callable(v) else v


def areas(ctx, res, area):
    for k in AREA:
        got = value(res, k + '_area')
        if not area:
            ctx.check(got is None, k + '_area without a pixel area', got=got)
            ctx.ev('absent_areas')
        else:
            ctx.check(got is not None, k + '_area is missing')
            ctx.close(got, value(res, k) / area, k + '_area', rtol=1e-12)
            ctx.ev('areas')


def together(ctx, p_sat, res, area):
    """The figures fit together, whatever the accuracy of the fits."""
    g = {k: value(res, k) for k in FIGURES}
    QE, K, s = res.QE, res.K, res.sigma_y_dark
    ctx.close(g['u_p_min'], 100 / QE * (s / K + .5), 'u_p_min from QE, K and dark noise', rtol=1e-12)
    ctx.close(g['u_e_min'], g['u_p_min'] * QE / 100, 'u_e_min', rtol=1e-12)
    ctx.eq(g['u_p_sat'], p_sat, 'u_p_sat')
    ctx.close(g['u_e_sat'], p_sat * QE / 100, 'u_e_sat', rtol=1e-12)
    ctx.close(g['SNR_max'], math.sqrt(g['u_e_sat']), 'SNR_max', rtol=1e-12)
    ctx.close(g['SNR_max_dB'], 20 * math.log10(g['SNR_max']), 'SNR_max_dB', rtol=1e-12, atol=1e-12)
    ctx.close(g['SNR_max_bit'], math.log(g['SNR_max'], 2), 'SNR_max_bit', rtol=1e-12, atol=1e-12)
    ctx.close(g['inverse_SNR_max'], 100 / g['SNR_max'], 'inverse_SNR_max', rtol=1e-12)
    ctx.close(g['DR'], p_sat / g['u_p_min'], 'DR', rtol=1e-12)
    ctx.close(g['DR_dB'], 20 * math.log10(g['DR']), 'DR_dB', rtol=1e-12, atol=1e-12)
    areas(ctx, res, area)


def check(ctx, t, isat, res, area):
    K, R, _k = c09.expected(t, isat)
    QE = 100. * R / K
    s2 = max(c09.dark_noise(t), .24)
    p_min = 100. / QE * (math.sqrt(s2) / K + .5)
    p_sat = t['u_p'][isat]
    e_sat = QE * p_sat / 100.
    noise = 1e-6 + 1e-6 * np.max(np.abs(t['s2_ydark'])) / s2
    want = {'u_p_min': p_min, 'u_e_min': p_min * QE / 100, 'u_p_sat': p_sat, 'u_e_sat': e_sat, 'SNR_max': math.sqrt(e_sat),
            'SNR_max_dB': 20 * math.log10(math.sqrt(e_sat)), 'SNR_max_bit': math.log(math.sqrt(e_sat), 2),
            'inverse_SNR_max': 100 / math.sqrt(e_sat), 'DR': p_sat / p_min, 'DR_dB': 20 * math.log10(p_sat / p_min)}
    with ctx.unchanged('the data', t):
        for k in ctx.shuffled(list(want)):
            log = k in ('SNR_max_dB', 'SNR_max_bit', 'DR_dB')
            ctx.close(value(res, k), want[k], k, rtol=1e-5 + noise, atol=(20 * noise + 1e-4) if log else 0)
            ctx.ev('figures')
        together(ctx, p_sat, res, area)


def curve(ctx, **kw):
    while True:
        t, isat = curves.curve(ctx, **kw)
        if not c09.near_tie(t, isat):
            return t, isat


@P.scenario(quick=4500, must=['figures', 'areas', 'absent_areas'])
def reference(ctx):
    t, isat = curve(ctx, noise=ctx.pick([0, .001, .02]))
    area = ctx.pick([None, 0, 0.0, ctx.logu(.1, 500), ctx.logu(.1, 500), 25, 1, 1.0])
    n = len(t['u_p'])
    ctx.sig(n, isat, area)
    ctx.note(n=n, sat=isat, area=area)
    check(ctx, t, isat, curves.results(ctx, t, pixel_area=area), area)


@P.scenario(quick=1200, must=['areas', 'changes'])
def changed_area(ctx):
    """The per-area figures follow the pixel area that is set at the time."""
    t, isat = curve(ctx)
    res = curves.results(ctx, t, pixel_area=ctx.pick([None, 0, ctx.logu(.1, 500)]))
    other = curves.results(ctx, t, pixel_area=7.5)
    for _ in range(ctx.int(2, 6, const=0)):
        if ctx.chance(.5):
            res.results
        area = ctx.pick([None, 0, ctx.logu(.1, 500), ctx.logu(.1, 500)])
        res.pixel_area = area
        areas(ctx, res, area)
        r = res.results
        for k in AREA:
            ctx.eq(r[k + '_area']['value'], value(res, k + '_area'), k + '_area in the results')
        areas(ctx, other, 7.5)
        ctx.ev('changes')
    check(ctx, t, isat, res, area)
    ctx.sig(len(t['u_p']), isat, area)


@P.scenario(quick=1200, must=['figures', 'forced'])
def forced_saturation(ctx):
    """Capacity, SNR and dynamic range follow a forced saturation index."""
    t, isat = curve(ctx, n=ctx.int(12, 60))
    k = ctx.int(max(6, isat // 2), len(t['u_p']) - 1)
    Y = t['u_y'] - t['u_ydark']
    if c09.near_tie(t, k) or Y[0] > .7 * Y[k]:
        ctx.check(True, 'skipped')
        return
    check(ctx, t, k, curves.results(ctx, t, index_u_ysat=k, pixel_area=4.), 4.)
    ctx.ev('forced')
    ctx.sig(len(t['u_p']), isat, k)


@P.scenario(quick=1200, must=['figures', 'areas'])
def any_order(ctx):
    """Points that are not in the order of their light, as with illumination that changes with the exposure time."""
    t, isat = curves.curve(ctx, n=ctx.int(8, 60))
    n = len(t['u_p'])
    o = ctx.pick([np.arange(n)[::-1], ctx.rng.permutation(n), np.roll(np.arange(n), ctx.int(1, n - 1))])
    t = {k: np.asarray(v)[o].copy() if len(v) == n else v for k, v in t.items()}
    forced = ctx.int(0, n - 1, const=0) if ctx.chance(.7) else None
    area = ctx.logu(.1, 500)
    res = curves.results(ctx, t, index_u_ysat=forced, pixel_area=area)
    k = res.index_u_ysat
    ctx.note(order=o, forced=forced)
    Y = t['u_y'] - t['u_ydark']
    if not np.any(Y <= .7 * Y[k]):
        ctx.check(True, 'no fit range')
        return
    K, R = res.K, res.R
    if not (K > 0 and R > 0):
        ctx.check(True, 'no gain')
        return
    together(ctx, t['u_p'][k], res, area)
    ctx.ev('figures')
    ctx.sig(n, k, forced is None)
