"""C02: malformed descriptor files are refused, never silently misread."""
import builtins
import os
from decimal import Decimal

from emva1288.process.parser import ParseEmvaDescriptorFile as Parser

from mon import desc
from mon.core import Property

P = Property('C02', 'case = well-formed random descriptor with one defect of a known kind injected at a random place; '
             'non-trivial = the defective file was refused with the right kind of error and left no open file, '
             'distinct by kind of defect, place and layout')

BAD_NUMBERS = ['nan', 'NaN', 'inf', '-inf', 'Infinity', '1e999', '-nan', 'abc', '12x', '1,2,3', '--5', '0x10', '1.2.3', '5.', 'ten', '1e', '.', ',', '1-2', '1/2', '5e+', '=3', '8bit']
BAD_NUMBERS = [x for x in BAD_NUMBERS if x != '5.']


class OpenSpy(object):
    """Records every file object opened for the descriptor."""

    def __init__(self, fn):
        self.fn, self.files = os.path.realpath(fn), []

    def __enter__(self):
        self.orig = builtins.open

        def spy(file, *a, **k):
            f = self.orig(file, *a, **k)
            try:
                if os.path.realpath(os.fspath(file)) == self.fn:
                    self.files.append(f)
            except (TypeError, ValueError):
                pass
            return f
        builtins.open = spy
        return self

    def __exit__(self, *a):
        builtins.open = self.orig

    def left_open(self):
        n = [f for f in self.files if not f.closed]
        fds = []
        for d in os.listdir('/proc/self/fd'):
            try:
                if os.readlink('/proc/self/fd/' + d) == self.fn:
                    fds.append(d)
            except OSError:
                pass
        for f in n:
            f.close()
        return len(n) + len(fds)


def write(fn, lines, eol='\n', final=True):
    with open(fn, 'w', newline='', encoding='utf-8') as f:
        f.write(desc.join(lines, eol, final))


def refuse(ctx, fn, what):
    box = {}

    def go():
        box['p'] = Parser(fn)
        return getattr(box['p'], 'images', None)
    with OpenSpy(fn) as spy:
        e = ctx.refused(go, (SyntaxError, ValueError), what)
        left = spy.left_open()
    ctx.check(str(e).strip() != '', 'the error describes the problem')
    ctx.check(left == 0, 'descriptor file left open after a refusal', open=left)
    ctx.ev('files_watched', len(spy.files))


def base(ctx):
    series = desc.measurement(ctx, max_series=8, max_images=8)
    d = desc.Document(ctx, series, (8, 640, 480) if ctx.chance(.8) else None, '4.0')
    if ctx.chance(.5):
        d.shuffle()
    return d


def series_blocks(d):
    return [i for i, b in enumerate(d.blocks) if b[0].split()[0] in 'bd' and len(b) > 1]


def too_few_images(ctx, d):
    i = ctx.pick(series_blocks(d))
    k = ctx.pick([0, 1])
    d.blocks[i] = d.blocks[i][:1 + k]
    return (k, i == len(d.blocks) - 1)


def duplicate_series(ctx, d):
    s = ctx.pick(d.series)
    how = ctx.pick(['same', 'respelled', 'zero', 'files'])
    n = len(s.files) if s.kind == 'temporal' else ctx.int(3, 9, const=0)
    files = [['dup', 'd%d.png' % k] for k in range(n)]
    e, p = s.exposure, s.photons
    if how in ('same', 'files'):
        if how == 'files':
            files = s.files
        t = desc.Series(s.cmd, e, p, files)
        blk = desc.Document(ctx, [t], spelled=False).blocks[0]
    elif how == 'respelled' or s.cmd == 'b':
        blk = desc.Document(ctx, [desc.Series(s.cmd, e, p, files)]).blocks[0]
    else:
        # a dark series and a bright series with zero photons are the same point
        blk = desc.Document(ctx, [desc.Series('b', e, Decimal(0), files)], spelled=False).blocks[0]
    pos = ctx.int(0, len(d.blocks), const=0)
    d.blocks.insert(pos, blk)
    return (how, s.kind, s.cmd)


def second_format(ctx, d):
    if not any(b[0].startswith('n ') for b in d.blocks):
        d.blocks.insert(0, ['n 12 100 50'])
    l = ctx.pick(['n 8 640 480', 'n 12 1 1', 'n 16 4000 3000'] + [b[0] for b in d.blocks if b[0].startswith('n ')])
    d.blocks.insert(ctx.int(0, len(d.blocks), const=0), [l])
    return l.split()[1]


def wrong_fields(ctx, d):
    which = ctx.pick(['n+', 'n-', 'b+', 'b-', 'd+', 'd++', 'i+'])
    if which[0] == 'n':
        d.blocks = [b for b in d.blocks if not b[0].startswith('n ')]
        l = ctx.pick({'n+': ['n 8 640 480 3', 'n 8 640 480 1 1'], 'n-': ['n 8 640', 'n 8']}[which])
        d.blocks.insert(ctx.int(0, len(d.blocks), const=0), [l])
        return which
    if which[0] == 'i':
        i = ctx.pick(series_blocks(d))
        k = ctx.int(1, len(d.blocks[i]) - 1, const=0)
        d.blocks[i][k] += ctx.pick([' x', ' 1', ' other.png', '\ty z'])
        return which, k
    c = which[0]
    bl = [i for i in series_blocks(d) if d.blocks[i][0].startswith(c)]
    imgs = ['i q/a.png', 'i q/b.png', 'i q/c.png'][:ctx.int(2, 3, const=0)]
    new = {'b+': '%s 7 7 7', 'b-': '%s 7', 'd+': '%s 7 7', 'd++': '%s 7 7 7'}[which] % c
    if bl and ctx.chance(.6):
        i = ctx.pick(bl)
        if which[1] == '-':
            d.blocks[i][0] = ' '.join(d.blocks[i][0].split()[:-1])
        else:
            d.blocks[i][0] += ' 5' * (len(which) - 1)
    else:
        d.blocks.insert(ctx.int(0, len(d.blocks), const=0), [new] + imgs)
    return which


def single_word(ctx, d):
    w = ctx.pick(['v', 'n', 'b', 'd', 'x', 'hello', 'i', '4.0', 'b,1,2', 'images/a.png'])
    i = ctx.int(0, len(d.blocks) - 1, const=0)
    k = ctx.int(0, len(d.blocks[i]), const=0)
    d.blocks[i].insert(k, w)
    return w, k == 0


def bad_number(ctx, d):
    bad = ctx.pick(BAD_NUMBERS)
    which = ctx.pick('nbd')
    if which == 'n':
        f = ['8', '640', '480']
        k = ctx.int(0, 2, const=0)
        bad = f[k] = ctx.pick([bad, bad, '8.5', '10.25', '12,5', '640.001', '7,75'])    # whole numbers only
        d.blocks = [b for b in d.blocks if not b[0].startswith('n ')]
        d.blocks.insert(ctx.int(0, len(d.blocks), const=0), ['n ' + ' '.join(f)])
        return which, k, bad
    i = ctx.pick(series_blocks(d))
    f = d.blocks[i][0].split()
    k = ctx.int(1, len(f) - 1, const=0)
    f[k] = bad
    d.blocks[i][0] = ' '.join(f)
    return f[0], k, bad


DEFECTS = [too_few_images, duplicate_series, second_format, wrong_fields, single_word, bad_number]


def defect_scenario(fn):
    def run(ctx):
        d = base(ctx)
        info = fn(ctx, d)
        path = os.path.join(ctx.tmp, 'descriptor.txt')
        lines = d.lines(noise=ctx.chance(.5))
        write(path, lines, ctx.pick(['\n', '\r\n']), ctx.chance(.8))
        ctx.note(defect=fn.__name__, info=info, text='\n'.join(lines))
        refuse(ctx, path, 'malformed file (%s %s)' % (fn.__name__, info))
        ctx.sig(info, len(d.blocks))
    run.__name__ = fn.__name__
    return run


for _f in DEFECTS:
    P.scenario(quick=600, must=['refusals'])(defect_scenario(_f))


@P.scenario(quick=600, must=['refusals'])
def undecodable_bytes(ctx):
    d = base(ctx)
    raw = d.text(noise=ctx.chance(.5)).encode('utf-8')
    bad = ctx.pick([b'\xff', b'\xfe', b'\x80', b'\xc3', b'\xe9t\xe9', b'\xb5m', b'\xf5', b'\xc0\xaf'])
    where = ctx.pick(['start', 'end', 'any', 'comment'])
    if where == 'comment':
        raw = b'# Kommentar ' + bad + b'x\n' + raw
    elif where == 'any':
        nl = [i for i, c in enumerate(raw) if c in (10, 32)]
        k = ctx.pick(nl)
        raw = raw[:k] + bad + b' ' + raw[k:]
    else:
        raw = bad + b'\n' + raw if where == 'start' else raw + b'# ' + bad + b' \n'
    try:
        raw.decode('utf-8')
        ctx.ev('assertions')
        return
    except UnicodeDecodeError:
        pass
    path = os.path.join(ctx.tmp, 'descriptor.txt')
    with open(path, 'wb') as f:
        f.write(raw)
    ctx.note(bad=bad, where=where)
    refuse(ctx, path, 'file with bytes that are not text')
    ctx.sig(bad, where, len(raw))


@P.scenario(quick=400, must=['accepted'])
def twin_accepted(ctx):
    """The defect-free twin is accepted, also right after a refusal, and leaves no file open."""
    d = base(ctx)
    good = d.lines(noise=False)
    bad_doc = desc.Document(ctx, d.series, None, None)
    ctx.pick(DEFECTS)(ctx, bad_doc)
    path = os.path.join(ctx.tmp, 'descriptor.txt')
    for k in range(2):
        write(path, bad_doc.lines(noise=False))
        refuse(ctx, path, 'malformed file')
        write(path, good)
        with OpenSpy(path) as spy:
            p = Parser(path)
            left = spy.left_open()
        ctx.eq(desc.normalised(p.images), desc.expected(d.series, ctx.tmp), 'defect-free twin')
        ctx.check(left == 0, 'descriptor file left open')
        ctx.ev('accepted')
        ctx.ev('files_watched', len(spy.files))
    ctx.sig(len(good))


@P.scenario(quick=40, must=['refusals'])
def large_then_defect(ctx):
    """The defect is found in files with very many series and images."""
    series = desc.measurement(ctx, max_series=250, max_images=60, big=ctx.chance(.3))
    d = desc.Document(ctx, series, (8, 640, 480), '4.0')
    d.shuffle()
    fn = ctx.pick(DEFECTS)
    info = fn(ctx, d)
    path = os.path.join(ctx.tmp, 'descriptor.txt')
    write(path, d.lines(noise=False))
    ctx.note(defect=fn.__name__, info=info, series=len(series))
    refuse(ctx, path, 'malformed large file (%s %s)' % (fn.__name__, info))
    ctx.sig(fn.__name__, info, len(series))
