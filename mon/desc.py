"""Generator of descriptor files: a measurement (list of series) and its spellings."""
import os
from decimal import Decimal


class Series(object):
    """One image series: kind 'b' or 'd', exposure and photons as Decimal, image path components."""

    def __init__(self, cmd, exposure, photons, files):
        self.cmd, self.exposure, self.photons, self.files = cmd, exposure, photons, files

    @property
    def kind(self):
        return 'temporal' if len(self.files) == 2 else 'spatial'

    @property
    def key(self):
        return (self.kind, float(self.exposure), float(self.photons) if self.cmd == 'b' else 0.0)


def decimal(ctx, lo=0.0, hi=1e9):
    """A decimal number with a random number of places."""
    places = ctx.pick([0, 0, 1, 1, 3, 6])
    v = ctx.pick([ctx.logu(max(lo, 1e-3), hi), ctx.uniform(lo, min(hi, 1000)), float(ctx.int(max(1, lo), 1000000))])
    if hi >= 1e9 and ctx.chance(.03):
        v = ctx.logu(1e9, 1e15)         # seconds, hours and days
    d = Decimal(repr(round(v, places)))
    return d if d > 0 else Decimal(1)


def spell_number(ctx, d):
    """A textual spelling of d that parses to the same float."""
    forms = [str(d)]
    f = '{:f}'.format(d)
    forms += [f, f + '0' if '.' in f else f + '.0', f + '00' if '.' in f else f + '.00', '0' + f, '+' + f]
    if '.' in f:
        forms += [f.replace('.', ','), f.replace('.', ',')]
    else:
        forms.append(f + ',0')
    forms.append('{:e}'.format(d) if float('{:e}'.format(d)) == float(d) else f)
    s = ctx.pick(forms)
    assert float(s.replace(',', '.')) == float(d)
    return s


PARTS = ['images', 'img', 'data', 'Bilder', 'a.b', 'x-y', 'dark', 'n', 'v', 'b', 'd', 'i', '0', '1.0', 'données', 'r_8']
EXT = ['png', 'tif', 'tiff', 'bmp', 'PNG', 'raw', '']


def measurement(ctx, max_series=12, max_images=12, big=False):
    """Random well-formed measurement: series with unique keys."""
    n = ctx.size(1, max_series)
    out, keys = [], set()
    exps = [decimal(ctx) for _ in range(ctx.size(1, n))]
    used = 0
    while len(out) < n:
        cmd = ctx.pick('bbd')
        e = ctx.pick(exps) if ctx.chance(.7) else decimal(ctx)
        if ctx.chance(.06):
            # hardly another exposure time
            e += Decimal(1).scaleb(-ctx.pick([0, 1, 3]))
        p = decimal(ctx, 0.0, 1e6) if cmd == 'b' else Decimal(0)
        if cmd == 'b' and out and ctx.chance(.06):
            # hardly other light, or none other at another exposure time
            p = max(ctx.pick(out).photons + Decimal(1).scaleb(-ctx.pick([0, 1, 3])), Decimal(1).scaleb(-3))
        if cmd == 'b' and ctx.chance(.06):
            # hardly any light, or none at all
            p = ctx.pick([Decimal(0), Decimal(ctx.int(1, 999)).scaleb(-6), Decimal(ctx.int(1, 99)).scaleb(-9)])
        L = 2 if ctx.chance(.5) else ctx.size(3, max_images)
        if big and not out:
            L = ctx.int(200, 1500)
        files = []
        flat = ctx.chance(.3)
        sub = [ctx.pick(PARTS) for _ in range(ctx.pick([0, 1, 1, 2, 3]))]
        if ctx.chance(.08):
            sub = ['..'] * ctx.pick([1, 1, 2]) + sub
        for k in range(L):
            stem = ctx.pick(['image%d' % used, 'img_%04d' % used, '%d' % used, 'i%d' % k, 'same', 'a#%d' % used,
                             ctx.name(), '#%d' % used])
            if stem == 'same' and not flat:
                sub = sub[:-1] + ['p%d' % used]
            used += 1
            ext = ctx.pick(EXT)
            files.append(list(sub) + [stem + ('.' + ext if ext else '')])
        s = Series(cmd, e, p, files)
        if s.key in keys:
            exps.append(decimal(ctx))
            continue
        keys.add(s.key)
        out.append(s)
    return out


def spell_path(ctx, comps, style):
    st = style if style != 'mixed' else ctx.pick(['/', '\\', 'alt'])
    if st == 'alt':
        s = comps[0]
        for c in comps[1:]:
            s += ctx.pick('/\\') + c
    else:
        s = st.join(comps)
    if st == '/' and ctx.chance(.2):
        s = './' + s
    if st == '/' and len(comps) > 1 and ctx.chance(.1):
        s = s.replace('/', '//', 1)
    return s


class Document(object):
    """A descriptor as blocks of lines; blocks may be reordered, noise inserted."""

    def __init__(self, ctx, series, fmt=None, version=None, spelled=True):
        self.ctx = ctx
        self.blocks = []
        self.series = list(series)
        style = ctx.pick(['/', '\\', 'mixed']) if spelled else '/'
        num = (lambda d: spell_number(ctx, d)) if spelled else (lambda d: '{:f}'.format(d))
        if version is not None:
            self.blocks.append(['v %s' % version])
        if fmt is not None:
            self.blocks.append(['n %d %d %d' % fmt])
        for s in self.series:
            head = 'b %s %s' % (num(s.exposure), num(s.photons)) if s.cmd == 'b' else 'd %s' % num(s.exposure)
            self.blocks.append([head] + ['i ' + spell_path(ctx, f, style) for f in s.files])

    def shuffle(self):
        self.blocks = self.ctx.shuffled(self.blocks)

    def lines(self, noise=True):
        ctx = self.ctx
        if not noise:
            return [l for b in self.blocks for l in b]
        out = []
        comments = ['# comment', '#', '   # i not an image', '#b 1 2', '#n 8 1 1', '\t#d 5', '# \u00e9\u00df']
        unknown = ['x y', 'author me too', 'vv 3', 'B 1 2', 'nn 8 640 480', 'D 10', 'I images/x.png', 'bb 1 2', 'temperature 22.5']

        def filler(allow_unknown):
            while ctx.chance(.25):
                k = ctx.int(0, 2, const=0)
                if k == 0:
                    out.append(ctx.pick(comments))
                elif k == 1:
                    out.append(ctx.pick(['', ' ', '\t', '  \t ']))
                elif allow_unknown:
                    out.append(ctx.pick(unknown))
        for b in self.blocks:
            filler(True)
            for l in b:
                if ctx.chance(.2):
                    l = ctx.pick([' ', '\t', '   ']) + l
                if ctx.chance(.2):
                    l = l + ctx.pick([' ', '\t', '  '])
                if ctx.chance(.2):
                    l = l.replace(' ', ctx.pick(['\t', '   ', ' \t']))
                out.append(l)
                filler(False)
        filler(True)
        return out

    def text(self, noise=True, eol='\n', final=True):
        return join(self.lines(noise), eol, final)


def join(lines, eol='\n', final=True):
    return eol.join(lines) + (eol if final else '')


def expected(series, base):
    """The images dictionary that the descriptor describes."""
    d = {'temporal': {}, 'spatial': {}}
    for s in series:
        kind, e, p = s.key
        d[kind].setdefault(e, {})[p] = [os.path.normpath(os.path.join(base, *f)) for f in s.files]
    return d


def normalised(images):
    return {k: {e: {p: [os.path.normpath(f) for f in fs] for p, fs in ps.items()} for e, ps in es.items()}
            for k, es in images.items()}
