"""C19: comparison of result files."""
import copy
import math
import os
from decimal import Decimal, ROUND_HALF_EVEN, localcontext

import numpy as np

from emva1288.process import routines

from mon.core import Property
from mon.props import c17, c18

P = Property('C19', 'case = pair of result files (equal, perturbed around the seventh digit, missing or additional entries); '
             'non-trivial = the verdict of every section and quantity compared with exact decimal rounding, distinct by kind of '
             'change and contents')


def dec7(v):
    """v rounded to seven significant digits, and whether that is close to a tie."""
    if v == 0:
        return Decimal(0), False
    d = Decimal(v)
    with localcontext() as c:
        c.prec = 50
        e = d.adjusted() - 6
        q = Decimal(1).scaleb(e)
        f = (d / q) % 1
        tie = abs(abs(f) - Decimal('0.5')) < Decimal('1e-6')
        return d.quantize(q, rounding=ROUND_HALF_EVEN), tie


def agree(a, b):
    """True, False, or None if rounding of the rounding decides."""
    if a is None or b is None:
        return a is None and b is None
    if not (math.isfinite(a) and math.isfinite(b)):
        return a == b or (math.isnan(a) and math.isnan(b))
    (x, tx), (y, ty) = dec7(float(a)), dec7(float(b))
    if a == b:
        return True
    if tx or ty:
        return None
    return x == y


def verdicts(ctx, text):
    """{section: 'FAIL' or {quantity: verdict}} from the report text; everything listed once."""
    out = {}
    lines = text.split('\n')
    i = 0
    sec = None
    while i < len(lines):
        x = lines[i]
        if x.strip() and not x.strip('*'):
            sec = lines[i + 1].strip()
            ctx.check(sec not in out, 'section %s is listed twice' % sec)
            out[sec] = {}
            ctx.check(lines[i + 2].strip() and not lines[i + 2].strip('*'), 'layout of the report', at=lines[i:i + 3])
            i += 3
            continue
        if x.strip():
            v = 'OK' if x.rstrip().endswith('OK') else 'FAIL' if x.rstrip().endswith('FAIL') else None
            name = x.split()[0]
            ctx.check(v is not None, 'line without verdict', line=x)
            ctx.check(name not in out[sec], '%s is listed twice' % name)
            out[sec][name] = v
            ctx.ev('verdicts')
        i += 1
    return out


def scalar(ctx, arrays=False):
    r = ctx.rng
    e = 12 if arrays else ctx.pick([3, 12, 280])
    k = ctx.pick(['any', 'any', 'digits', 'int', 'zero', 'power'])
    if k == 'any':
        v = r.choice([-1, 1]) * r.uniform(1, 10) * 10. ** r.uniform(-e, e)
    elif k == 'digits':
        v = float('%de%d' % (r.integers(-10 ** 7, 10 ** 7), r.integers(-10, 6)))
    elif k == 'int':
        v = float(r.integers(-10 ** 6, 10 ** 6))
    elif k == 'zero':
        v = 0.
    else:
        v = 10. ** int(r.integers(-e, e)) * ctx.pick([1, 1, .99999996, .99999994, -1])
    return float(v)


def missing(ctx):
    """A value that could not be computed."""
    return ctx.pick([None, None, np.nan, np.inf, -np.inf])


def perturb(ctx, v):
    """A value near v: same to seven digits or just not."""
    if v is None or not math.isfinite(v):
        if ctx.chance(.5):
            return v
        return ctx.pick([scalar(ctx), np.nan if v is None else v, 0.])
    if ctx.chance(.03):
        return np.nan
    k = ctx.pick(['same', 'same', 'eps', 'tiny', 'edge', 'edge', 'digit', 'digit', 'big', 'sign', 'zero'])
    if k == 'same':
        return v
    if v == 0:
        return ctx.pick([0., -0., 1e-12, -1e-9, 1.])
    if k == 'eps':
        return float(np.nextafter(v, v * 2))
    if k == 'tiny':
        return v * (1 + ctx.rng.uniform(-1, 1) * 1e-9)
    if k == 'edge':
        return v * (1 + ctx.rng.uniform(-1, 1) * 2e-7)
    if k == 'digit':
        # one unit in one of the first eight digits
        return v + ctx.pick([-1, 1]) * 10. ** (math.floor(math.log10(abs(v))) - ctx.int(0, 7, const=0))
    if k == 'big':
        return v * ctx.uniform(.5, 2)
    if k == 'sign':
        return -v
    return 0.


def random_results(ctx):
    d = {}
    many = ctx.chance(.04)
    for _ in range(ctx.int(5, 30, const=0) if many else ctx.int(1, 4, const=0)):
        s = c18.word(ctx)
        d[s] = {}
        for _ in range(ctx.int(30, 90, const=0) if many and ctx.chance(.2) else ctx.int(1, 8, const=0)):
            if ctx.chance(.35):
                keys = ctx.shuffled(['bins', 'values', 'model'])[:ctx.int(1, 3, const=0)]
                n = ctx.size(1, 40) if ctx.chance(.97) else ctx.int(200, 2000)
                info = {'data': {k: np.array([scalar(ctx, True) for _ in range(n)]) for k in keys}}
                if ctx.chance(.15):
                    a = info['data'][ctx.pick(keys)]
                    for _ in range(ctx.int(1, 3, const=0)):
                        a[ctx.int(0, n - 1)] = ctx.pick([np.nan, np.nan, np.inf, -np.inf])
            else:
                info = {'value': missing(ctx) if ctx.chance(.15) else scalar(ctx)}
            d[s][c18.word(ctx)] = info
    return d


def mutate(ctx, d):
    """A second result set."""
    e = copy.deepcopy(d)
    p = ctx.pick([.1, .4, 1])
    for s in list(e):
        for k in list(e[s]):
            if not ctx.chance(p):
                continue
            info = e[s][k]
            if 'value' in info:
                info['value'] = perturb(ctx, info['value'])
                continue
            a = ctx.pick(['element', 'element', 'element', 'length', 'key', 'extra', 'last', 'order'])
            key = ctx.pick(list(info['data']))
            arr = info['data'][key]
            if a == 'element' or a == 'last':
                i = len(arr) - 1 if a == 'last' else ctx.int(0, len(arr) - 1)
                arr[i] = perturb(ctx, float(arr[i]))
            elif a == 'length':
                info['data'][key] = np.append(arr, arr[-1]) if ctx.chance(.5) or len(arr) == 1 else arr[:-1]
                if ctx.chance(.3):
                    info['data'][key] = arr[:1]
            elif a == 'key':
                info['data'][key + 'x'] = info['data'].pop(key)
            elif a == 'extra':
                info['data']['extra'] = arr.copy()
            else:
                info['data'][key] = arr[::-1].copy()
    for s in list(e):
        u = ctx.rng.random()
        if u < .1:
            e[s].pop(ctx.pick(list(e[s])))
            if not e[s]:
                del e[s]
        elif u < .2:
            e[s][c18.word(ctx)] = {'value': 1.}
        elif u < .25:
            del e[s]
        elif u < .35:
            # as many quantities as before, but others
            k = ctx.pick(list(e[s]))
            e[s][c18.word(ctx)] = e[s].pop(k)
        elif u < .4:
            k = ctx.pick(list(e[s]))
            e[s][k] = {'value': 2.5} if 'data' in e[s][k] else {'data': {'bins': np.arange(3.)}}
    if ctx.chance(.2) or not e:
        e[c18.word(ctx)] = {c18.word(ctx): {'value': 3.}}
    # order of the entries does not matter
    return {s: {k: e[s][k] for k in ctx.shuffled(list(e[s]))} for s in ctx.shuffled(list(e))}


def expected(d, e):
    out = {}
    for s in set(d) | set(e):
        if s not in d or s not in e:
            out[s] = 'missing'
            continue
        out[s] = {}
        for k in set(d[s]) | set(e[s]):
            if k not in d[s] or k not in e[s]:
                out[s][k] = False
                continue
            a, b = d[s][k], e[s][k]
            if 'value' in a and 'value' in b:
                out[s][k] = agree(a['value'], b['value'])
            elif 'data' in a and 'data' in b and set(a['data']) == set(b['data']):
                v = [False if len(a['data'][x]) != len(b['data'][x]) else
                     (lambda q: False if False in q else None if None in q else True)([agree(p, q) for p, q in zip(a['data'][x], b['data'][x])])
                     for x in a['data']]
                out[s][k] = False if False in v else None if None in v else True
            else:
                out[s][k] = False
    return out


def check(ctx, got, want):
    ctx.eq(set(got), set(want), 'sections in the report')
    for s in want:
        if want[s] == 'missing':
            ctx.check(got[s] and set(got[s].values()) == {'FAIL'}, 'section %s is missing in one file' % s, got=got[s])
            ctx.ev('missing_sections')
            continue
        ctx.eq(set(got[s]), set(want[s]), 'quantities of section ' + s)
        for k, v in want[s].items():
            if v is None:
                ctx.ev('ties')
                continue
            ctx.eq(got[s][k], 'OK' if v else 'FAIL', 'verdict of %s in %s' % (k, s))
            ctx.ev('ok' if v else 'fail')


def export(ctx, d):
    if ctx.chance(.7):
        fn = c18.filename(ctx)
        c18.quiet(routines.dict_to_xml, d, filename=fn)
        return fn
    return c18.quiet(routines.dict_to_xml, d)[0]


def compare(ctx, x1, x2):
    fn = os.path.join(ctx.tmp, ctx.name() + '.txt') if ctx.chance(.5) else None
    if fn and ctx.chance(.5):
        with open(fn, 'w') as f:                            # an earlier report
            f.write('old\n' * ctx.int(1, 3000))
    r, _out = c18.quiet(routines.compare_xml, x1, x2, **({'filename': fn} if fn else {}))
    ctx.check(isinstance(r, str), 'report text', got=r)
    if fn:
        with open(fn) as f:
            ctx.eq(f.read(), r, 'report in the file')
        ctx.ev('report_files')
    return verdicts(ctx, r)


@P.scenario(quick=1000, must=['verdicts', 'ok', 'fail', 'missing_sections', 'report_files'])
def pairs(ctx):
    d = random_results(ctx)
    e = mutate(ctx, d)
    x, y = export(ctx, d), export(ctx, e)
    got = compare(ctx, x, y)
    want = expected(d, e)
    ctx.note(sections=list(d))
    check(ctx, got, want)
    back = compare(ctx, y, x)
    ctx.eq(back, got, 'verdicts of the files in the other order')
    ctx.sig(tuple(sorted((s, str(want[s])) for s in want)))


@P.scenario(quick=300, must=['ok'])
def itself(ctx):
    d = random_results(ctx)
    x = export(ctx, d)
    got = compare(ctx, x, x)
    check(ctx, got, {s: {k: True for k in d[s]} for s in d})
    ctx.sig(tuple(sorted(d)))


@P.scenario(quick=2500, must=['ok', 'fail'])
def single(ctx):
    """One quantity, values around the seventh digit."""
    arr = ctx.chance(.4)
    v = scalar(ctx, arr)
    w = perturb(ctx, v)
    a = agree(v, w)
    if a is None:
        ctx.check(True, 'tie')
        return
    if arr:
        base = np.array([scalar(ctx, True) for _ in range(ctx.size(1, 20))])
        i = ctx.int(0, len(base) - 1)
        p, q = base.copy(), base.copy()
        p[i], q[i] = v, w
        d, e = {'s': {'q': {'data': {'bins': p}}}}, {'s': {'q': {'data': {'bins': q}}}}
    else:
        d, e = {'s': {'q': {'value': v}}}, {'s': {'q': {'value': w}}}
    got, _o = c18.quiet(routines.compare_xml, c18.quiet(routines.dict_to_xml, d)[0], c18.quiet(routines.dict_to_xml, e)[0])
    check(ctx, verdicts(ctx, got), {'s': {'q': a}})
    ctx.note(v=v, w=w, equal=a)
    ctx.sig(v, w)


@P.scenario(quick=40, must=['ok', 'measured'])
def measured(ctx):
    """Real results: against themselves, and after another measurement."""
    from emva1288.process.results import Results1288
    data = c17.measurement(ctx)
    kw, res = c17.new(ctx, data)
    d = res.results_by_section
    x = os.path.join(ctx.tmp, 'a.xml')
    c18.quiet(res.xml, x)
    got = compare(ctx, x, x)
    low = c18.lower(d)
    ctx.eq(set(got), set(low), 'sections')
    for s in low:
        ctx.eq(set(got[s]), set(low[s]), 'quantities of ' + s)
        for k, info in low[s].items():
            v = info.get('value', info.get('data'))
            ctx.eq(got[s][k], 'OK', 'verdict of %s against itself' % k, value=v)
            ctx.ev('ok')
    ctx.ev('measured')
    # same measurement, another gain: everything proportional to it differs
    g = ctx.uniform(1.001, 2)
    t = dict(data['temporal'], u_p=data['temporal']['u_p'] * g)
    y = os.path.join(ctx.tmp, 'b.xml')
    c18.quiet(Results1288({'temporal': t, 'spatial': data['spatial']}, loglevel=50, **kw).xml, y)
    got = compare(ctx, x, y)
    for k in ('u_p_sat', 'r', 'qe', 'u_p_min'):
        ctx.eq(got['sensitivity'][k], 'FAIL', 'verdict of %s for different photon counts' % k)
    ctx.eq(got['spatial']['s_2_y'], 'OK', 'verdict of s_2_y for the same images')
    ctx.sig(len(t['u_p']))
