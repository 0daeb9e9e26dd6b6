"""C18: exported XML carries every result without loss."""
import contextlib
import io
import math
import os
import struct

import numpy as np

from emva1288.process import routines
from emva1288.process.results import Results1288

from mon.core import Property
from mon.props import c17

P = Property('C18', 'case = results (from measurements, or dictionaries with arbitrary numbers) exported to a file or string and read '
             'back; non-trivial = every scalar, array element and text compared bit for bit, distinct by form of export and contents')


def bits(x):
    return struct.pack('<d', float(x))


def same_number(a, b):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or bits(a) == bits(b)


def lower(d):
    """Section and quantity names and fields are lower case after reading."""
    return {s.lower(): {k.lower(): {f.lower(): v for f, v in info.items()} for k, info in ks.items()} for s, ks in d.items()}


def compare(ctx, got, want):
    want = lower(want)
    ctx.eq(set(got), set(want), 'sections')
    for s in want:
        ctx.eq(set(got[s]), set(want[s]), 'quantities of ' + s)
        for k, info in want[s].items():
            g = got[s][k]
            ctx.eq(set(g), set(info), 'fields of ' + k)
            for f, v in info.items():
                if f == 'data':
                    ctx.eq({x.lower() for x in v}, set(g['data']), 'arrays of ' + k)
                    for name, arr in v.items():
                        a, b = np.asarray(g['data'][name.lower()], float), np.asarray(np.ma.getdata(arr), float)
                        ctx.eq(a.shape, b.shape, 'length of %s of %s' % (name, k))
                        ok = (a.view(np.int64) == b.view(np.int64)) | (np.isnan(a) & np.isnan(b))
                        ctx.check(ok.all(), 'array %s of %s' % (name, k), got=a[~ok][:3], want=b[~ok][:3])
                        ctx.ev('array_elements', a.size)
                elif f == 'value':
                    ctx.check(same_number(g['value'], v), 'value of ' + k, got=g['value'], want=v)
                    ctx.ev('scalars')
                    if v is None:
                        ctx.ev('absent')
                    elif math.isnan(v):
                        ctx.ev('nans')
                else:
                    ctx.eq(g[f], v, '%s of %s' % (f, k))
                    ctx.ev('texts')


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = fn(*a, **k)
    return r, out.getvalue()


def read(ctx, xml, what):
    d, out = quiet(routines.xml_to_dict, xml)
    ctx.check(d is not None, 'reading back %s failed' % what, out=out)
    return d


@P.scenario(quick=150, must=['scalars', 'array_elements', 'texts', 'absent', 'nans'])
def measured(ctx):
    data = c17.measurement(ctx)
    kw, res = c17.new(ctx, data)
    want = res.results_by_section
    form = ctx.pick(['file', 'string', 'text'])
    ctx.note(form=form, points=len(data['temporal']['u_p']))
    with ctx.unchanged('the measurement data', data):
        if form == 'file':
            fn = filename(ctx)
            if ctx.chance(.3):
                with open(fn, 'w') as f:
                    f.write('<old/>' * 100000)             # an earlier export is replaced
            quiet(res.xml, fn)
            xml = fn
        else:
            xml, _o = quiet(res.xml)
            if form == 'text' and isinstance(xml, bytes):
                xml = xml.decode('utf-8')
    compare(ctx, read(ctx, xml, form), want)
    ctx.sig(form, tuple(data['temporal']['u_p'][:3]))


def filename(ctx):
    return os.path.join(ctx.tmp, ctx.name() + ctx.pick(['.xml', '.xml', '', '.XML', '.results', '.1', ' a b.xml', 'é.xml', '<x>.xml']))


def number(ctx):
    r = ctx.rng
    k = ctx.pick(['plain', 'bits', 'small', 'big', 'special', 'int', 'round', 'denormal'])
    if k == 'plain':
        return float(r.normal(0, 1000))
    if k == 'bits':
        while True:
            v = struct.unpack('<d', r.bytes(8))[0]
            if math.isfinite(v):
                return v
    if k == 'small':
        return float(10 ** r.uniform(-300, -5) * r.choice([-1, 1]))
    if k == 'big':
        return float(10 ** r.uniform(5, 300) * r.choice([-1, 1]))
    if k == 'special':
        return ctx.pick([0.0, -0.0, float('nan'), 1e16, 123456789.0, 0.1, 1. / 3, 1e22, 5e-324, 1.7976931348623157e308])
    if k == 'int':
        return float(r.integers(-10 ** 6, 10 ** 6))
    if k == 'round':
        return round(float(r.uniform(0, 1000)), ctx.int(0, 6, const=0))
    return float(r.integers(1, 2 ** 40)) * 5e-324


TYPES = [float, np.float64]


def word(ctx):
    return 'abcdefghkmnpqrstuvwxyz'[ctx.int(0, 19, const=0)] + ''.join(ctx.pick('abcdefghijkmnpqrstuvwxyz0123456789_') for _ in range(ctx.int(3, 12, const=0)))


def random_results(ctx, finite=False):
    d = {}
    for _ in range(ctx.int(1, 4, const=0)):
        s = word(ctx)
        d[s] = {}
        for _ in range(ctx.int(1, 6, const=0)):
            info = {'section': s, 'short': ctx.pick(['Gain', 'a < b & c', 'µ of σ', 'Saturation Capacity', 'two  blanks', 'l1\nl2', "quote's \"x\""])}
            if ctx.chance(.5):
                info['symbol'] = ctx.pick([r'$\mu_{p.min}$', 'K', r'$\sigma^2$'])
            if ctx.chance(.5):
                info['unit'] = ctx.pick(['DN', r'\%', '$e^-$'])
            if ctx.chance(.3):
                info['data'] = {k: np.array([number(ctx) for _ in range(ctx.size(1, 60) if ctx.chance(.97) else ctx.int(60, 3000))])
                                for k in ctx.shuffled(['bins', 'values', 'model'])[:ctx.int(1, 3, const=0)]}
                if ctx.chance(.3):
                    info['data']['values'] = ctx.rng.integers(0, 10 ** 6, ctx.size(1, 60))
            else:
                v = number(ctx)
                info['value'] = ctx.pick([v, np.float64(v), np.float64(v), None, np.int64(ctx.int(0, 1000)), ctx.int(0, 10 ** 6)])
            d[s][word(ctx)] = info
    return d


@P.scenario(quick=500, must=['scalars', 'array_elements', 'texts', 'absent', 'nans', 'purity_checks'])
def numbers(ctx):
    """Any numbers survive the export."""
    d = random_results(ctx)
    form = ctx.pick(['file', 'string'])
    with ctx.unchanged('the exported dictionary', d):
        if form == 'file':
            xml = filename(ctx)
            quiet(routines.dict_to_xml, d, filename=xml)
        else:
            xml, _o = quiet(routines.dict_to_xml, d)
    compare(ctx, read(ctx, xml, form), d)
    ctx.sig(form, tuple(sorted(d)))
    ctx.note(form=form, sections=list(d))


def camel(ctx, word):
    k = ctx.pick(['title', 'upper', 'mixed'])
    if k == 'title':
        return '_'.join(p[:1].upper() + p[1:] for p in word.split('_'))
    if k == 'upper':
        return word.upper()
    return ''.join(c.upper() if ctx.chance(.4) else c for c in word)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def foreign(ctx, d, comma):
    """The results in the spelling of other programs."""
    def num(v):
        if v is None:
            return ctx.pick(['None', 'none'])
        s = repr(float(v))
        return s.replace('.', ',') if comma else s
    nl = ctx.pick(['\n', '', '\r\n', '\n    '])
    remarks = ctx.chance(.3)

    def note():
        # comments and instructions of other programs are not part of the results
        if not remarks or ctx.chance(.85):
            return ''
        ctx.ev('remarks')
        return ctx.pick(['<!-- by hand -->', '<!---->', '<!-- <value>7</value> 1,5 -->', '<?editor keep?>', '<!-- K -->'])
    out = ctx.pick(['', '<?xml version="1.0"?>' + nl]) + '<%s>' % 'Results' + nl
    for s, ks in d.items():
        st = camel(ctx, s)
        out += note() + '<%s>%s' % (st, nl)
        for k, info in ks.items():
            kt = camel(ctx, k)
            out += note() + '<%s>%s' % (kt, nl)
            for f, v in info.items():
                ft = camel(ctx, f)
                out += note() + '<%s>' % ft + note()
                if f == 'data':
                    for a, arr in v.items():
                        at = camel(ctx, a)
                        sep = ctx.pick([' ', '  ', '\n', '\t'])
                        pad = ctx.pick(['', ' ', '\n'])
                        out += '<%s>%s%s%s</%s>' % (at, pad, sep.join(num(x) + note() for x in arr), pad, at) + note()
                elif f == 'value':
                    out += num(v)
                else:
                    out += esc(v)
                out += note() + '</%s>%s' % (ft, nl)
            out += '</%s>%s' % (kt, nl)
        out += '</%s>%s' % (st, nl)
    return out + '</Results>' + nl


@P.scenario(quick=500, must=['scalars', 'array_elements', 'comma_files', 'remarks'])
def spellings(ctx):
    d = random_results(ctx)
    for s in d:
        for k in d[s]:
            for f in ('short', 'symbol'):
                if f in d[s][k]:
                    d[s][k][f] = 'plain text'
    comma = ctx.chance(.7)
    text = foreign(ctx, d, comma)
    if comma:
        ctx.ev('comma_files')
    form = ctx.pick(['file', 'string', 'bytes'])
    if form == 'file':
        xml = filename(ctx)
        with open(xml, 'w', newline='') as f:
            f.write(text)
    else:
        xml = text if form == 'string' else text.encode()
    compare(ctx, read(ctx, xml, form), d)
    ctx.sig(form, comma, tuple(sorted(d)))


@P.scenario(quick=200, must=['not_xml'])
def not_xml(ctx):
    data = c17.measurement(ctx) if ctx.chance(.1) else None
    d = random_results(ctx)
    good, _o = quiet(routines.dict_to_xml, d)
    good = good.decode() if isinstance(good, bytes) else good
    k = ctx.pick(['truncated', 'text', 'empty', 'nofile', 'tag', 'descriptor'])
    if k == 'truncated':
        bad = good.rstrip()[:ctx.int(0, len(good.rstrip()) - 1)]
    elif k == 'text':
        bad = 'these are no results, ' + ctx.name(20)
    elif k == 'empty':
        bad = ''
    elif k == 'nofile':
        bad = os.path.join(ctx.tmp, ctx.name() + '.xml')
    elif k == 'tag':
        i = good.rindex('</')
        bad = good[:i] + '</wrong>'
    else:
        bad = 'v 3.0\nn 8 640 480\n'
    if k != 'nofile' and ctx.chance(.5):
        fn = os.path.join(ctx.tmp, ctx.name() + '.xml')
        with open(fn, 'w') as f:
            f.write(bad)
        bad = fn
    r, out = quiet(routines.xml_to_dict, bad)
    ctx.check(not r, 'text that is not XML yields results', kind=k, got=r)
    ctx.check(out.strip(), 'text that is not XML is not reported', kind=k)
    ctx.ev('not_xml')
    ctx.sig(k, len(bad))
