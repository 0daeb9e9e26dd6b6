"""C17: results are complete, repeatable and free of side effects."""
import contextlib
import io
import json
import math
import os

import numpy as np

from emva1288.process.data import Data1288
from emva1288.process.results import Results1288

from mon import curves
from mon.core import Property

P = Property('C17', 'case = measurement (one or many exposures, random images) with a random history of reads on one or more result '
             'objects; non-trivial = every documented quantity compared between the results dictionary and individual reads, '
             'distinct by measurement layout and order of reads')

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'documented.json')) as f:
    DOCUMENTED = json.load(f)


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        return np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and \
            np.array_equal(np.ma.compressed(a), np.ma.compressed(b), equal_nan=True)
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y))))


def read(res, name):
    v = getattr(res, name)
    return v() if callable(v) else v


def measurement(ctx, mask=False):
    """Data dictionary of the data stage, from a random curve and random stacks."""
    t, isat = curves.curve(ctx, n=ctx.int(8, 30), noise=ctx.pick([0, .01]))
    shape = (ctx.size(5, 20), ctx.size(5, 20))
    L = ctx.int(2, 6, const=0)
    kinds = ['camera', 'uniform', 'rowcol', 'gradient']
    b = curves.stack(ctx, L, shape, hi=60000, kind=ctx.pick(kinds))
    d = curves.stack(ctx, L, shape, hi=250, kind=ctx.pick(kinds))
    sp, _b, _d = curves.spatial_data(ctx, shape, bright=b, dark=d)
    return {'temporal': t, 'spatial': sp}


def new(ctx, data):
    kw = {}
    if ctx.chance(.5):
        kw['pixel_area'] = ctx.logu(.5, 100)
    return kw, Results1288(data, loglevel=50, **kw)


def check_dict(ctx, res, r):
    ctx.eq(sorted(r), sorted(DOCUMENTED), 'documented quantities')
    for k, info in DOCUMENTED.items():
        for f in ('section', 'short', 'symbol', 'unit'):
            ctx.eq(r[k].get(f), info.get(f), '%s of %s' % (f, k))
        v = read(res, k)
        if isinstance(v, dict):
            ctx.check('data' in r[k] and 'value' not in r[k], k + ' is data')
            ctx.check(same(r[k]['data'], v), k + ' in the results differs from its own value', got=r[k]['data'], want=v)
        else:
            ctx.check('value' in r[k] and 'data' not in r[k], k + ' is a value')
            ctx.check(same(r[k]['value'], v), k + ' in the results differs from its own value', got=r[k]['value'], want=v)
        ctx.ev('quantities')


def check_sections(ctx, res, r):
    s = res.results_by_section
    seen = {}
    for sec in s:
        ctx.check(len(s[sec]) > 0, 'empty section ' + sec)
        for k in s[sec]:
            ctx.check(k not in seen, k + ' is in two sections')
            seen[k] = sec
            ctx.eq(s[sec][k]['section'], sec, 'section of ' + k)
            ctx.eq(set(s[sec][k]), set(r[k]), 'fields of ' + k)
            for f in r[k]:
                ctx.check(same(s[sec][k][f], r[k][f]) if f in ('data', 'value') else s[sec][k][f] == r[k][f],
                          '%s of %s by section' % (f, k))
    ctx.eq(sorted(seen), sorted(r), 'quantities in the sections')
    ctx.ev('sections', len(s))


def check_print(ctx, res, r):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res.print_results()
    lines = out.getvalue().splitlines()
    left = list(lines)
    for k in r:
        if 'value' not in r[k]:
            continue
        v = str(r[k]['value'])
        m = [x for x in left if r[k]['short'] in x and x.rstrip().endswith(v) and (str(r[k].get('symbol')) in x)]
        ctx.check(m, 'printed results do not show ' + k, value=v, short=r[k]['short'], printed=[x for x in lines if r[k]['short'] in x])
        left.remove(m[0])
        ctx.ev('printed')
    for s in {r[k]['section'] for k in r}:
        ctx.check(any(x.strip() == s for x in lines), 'section %s is not printed' % s)


@P.scenario(quick=250, must=['quantities', 'sections', 'printed'])
def complete(ctx):
    data = measurement(ctx)
    with ctx.unchanged('the measurement data', data):
        kw, res = new(ctx, data)
        r = res.results
        check_dict(ctx, res, r)
        check_sections(ctx, res, r)
        check_print(ctx, res, r)
    ctx.note(points=len(data['temporal']['u_p']), area=kw)
    ctx.sig(len(data['temporal']['u_p']), len(set(data['temporal']['texp'])), data['spatial']['M'], data['spatial']['N'])


def alter(v):
    if isinstance(v, dict):
        for k in list(v):
            alter(v[k])
            if not isinstance(v[k], dict):
                v[k] = None
    elif isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = -7


def histories(ctx, plots):
    """Random reads on several result objects, each time compared with a fresh object."""
    datas = [measurement(ctx) for _ in range(ctx.int(1, 3, const=0))]
    n = len(datas)
    objs, truth = [], []
    names = list(DOCUMENTED)
    for d in datas:
        kw, res = new(ctx, d)
        objs.append((kw, res))
        fresh = {}
        for k in ctx.shuffled(names):
            # every quantity read first on an object of its own
            fresh[k] = read(Results1288(d, loglevel=50, **kw), k)
        truth.append(fresh)
    order, held = [], []

    def hold(d, i):
        """What was given away stays as it was."""
        held.append((d, i, order[-1:]))
        if len(held) > 6:
            held.pop(0)
    with ctx.unchanged('the measurement data', *datas):
        for step in range(ctx.int(30, 120)):
            i = ctx.int(0, n - 1, const=0)
            kw, res = objs[i]
            if ctx.chance(.1):
                # another object on the same data takes over
                objs[i] = (kw, Results1288(datas[i], loglevel=50, **kw))
            a = ctx.pick(['read'] * 12 + ['results', 'sections', 'print', 'linearity', 'xml', 'alter', 'alter'])
            if a == 'read':
                k = ctx.pick(names)
                got = read(res, k)
                ctx.check(same(got, truth[i][k]), '%s depends on what was read before' % k, got=got, want=truth[i][k], history=order[-10:])
                ctx.ev('reads')
                order.append((i, k))
                continue
            order.append((i, a))
            if a == 'results':
                r = res.results
                hold(r, i)
                for k in names:
                    ctx.check(same(r[k].get('value', r[k].get('data')), truth[i][k]), '%s in the results after other reads' % k,
                              got=r[k], want=truth[i][k])
            elif a == 'sections':
                s = res.results_by_section
                hold({k: v for sec in s.values() for k, v in sec.items()}, i)
            elif a == 'print':
                with contextlib.redirect_stdout(io.StringIO()):
                    res.print_results()
            elif a == 'xml':
                res.xml()
            elif a == 'alter':
                # the caller works on with what was given away
                k = ctx.pick(['linearity', 'results'] + [q for q in names if q.startswith('histogram')])
                alter(read(res, k))
                ctx.ev('altered')
            else:
                res.linearity()
        if plots:
            plots(ctx, [o[1] for o in objs])
        for _kw, res in objs:
            res.results
        for d, i, when in held:
            for k in names:
                ctx.check(same(d[k].get('value', d[k].get('data')), truth[i][k]), '%s in results read earlier has changed' % k,
                          got=d[k], want=truth[i][k], read=when)
            ctx.ev('held')
        for (kw, res), fresh in zip(objs, truth):
            for k in ctx.shuffled(names):
                got = read(res, k)
                ctx.check(same(got, fresh[k]), '%s at the end of the history' % k, got=got, want=fresh[k])
    ctx.sig(n, tuple(order))


@P.scenario(quick=60, must=['reads', 'held', 'altered', 'purity_checks'])
def histories_reads(ctx):
    histories(ctx, None)


def draw(ctx, tests):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from emva1288.process import plotting
    classes = ctx.shuffled(plotting.EVMA1288plots)[:ctx.int(3, 8)]
    plotting.Plotting1288(*tests).plot(*classes)
    ctx.ev('plots', len(classes))
    plt.close('all')


@P.scenario(quick=12, must=['reads', 'plots', 'purity_checks'])
def histories_plots(ctx):
    histories(ctx, draw)


@P.scenario(quick=6, must=['reports', 'purity_checks'])
def reports(ctx):
    """Putting a measurement in a report changes neither the data nor the results."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from emva1288.report import report
    data = measurement(ctx)
    res = Results1288(data, loglevel=50, pixel_area=25.)
    before = res.results
    with ctx.unchanged('the measurement data', data):
        cwd = os.getcwd()
        os.chdir(ctx.tmp)
        try:
            r = report.Report1288(outdir=os.path.join(ctx.tmp, 'r'))
            op = report.info_op()
            r.add(op, data)
            r.latex()
        finally:
            os.chdir(cwd)
            plt.close('all')
        ctx.ev('reports')
    after = res.results
    for k in before:
        ctx.check(same(before[k].get('value', before[k].get('data')), after[k].get('value', after[k].get('data'))), k + ' after the report')
    ctx.sig(len(data['temporal']['u_p']))
