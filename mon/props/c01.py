"""C01: parsing a descriptor file reproduces the measurement it describes."""
import os

from emva1288.process.parser import ParseEmvaDescriptorFile as Parser

from mon import desc
from mon.core import Property

P = Property('C01', 'case = random measurement (series with exposures, photons, image paths) written in a random spelling; '
             'non-trivial = at least one series parsed and compared completely, distinct by series layout and spelling')


def write(path, text, eol='\n'):
    with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(text)


def check(ctx, p, series, base, fmt, version):
    got = p.images
    ctx.check(isinstance(got, dict) and set(got) == {'temporal', 'spatial'}, 'kinds of the parsed images', got=got)
    got, want = desc.normalised(got), desc.expected(series, base)
    for kind in want:
        ctx.eq(set(got[kind]), set(want[kind]), 'exposures of the %s part' % kind)
        for e in want[kind]:
            ctx.eq(set(got[kind][e]), set(want[kind][e]), 'photon counts of %s exposure %r' % (kind, e))
            for ph in want[kind][e]:
                ctx.check(got[kind][e][ph] == want[kind][e][ph], 'image list of %s %r %r' % (kind, e, ph),
                          got=got[kind][e][ph], want=want[kind][e][ph])
                ctx.ev('series')
                ctx.ev('paths', len(want[kind][e][ph]))
    if fmt is None:
        ctx.check(not p.format, 'format without a format line', got=p.format)
    else:
        ctx.eq(dict(p.format), {'bits': fmt[0], 'width': fmt[1], 'height': fmt[2]}, 'pixel format')
    ctx.eq(p.version, version, 'version')


def random_doc(ctx, **kw):
    series = desc.measurement(ctx, **kw)
    fmt = (ctx.int(1, 16), ctx.int(1, 9000), ctx.int(1, 9000)) if ctx.chance(.85) else None
    version = ctx.pick(['4.0', '3.1', '3.0', '4.0R', 'x', '4', '4,0', 'v4.0', '4.00', '04', '1e3', '#4', 'b', '3.1\\a', None])
    return desc.Document(ctx, series, fmt, version), series, fmt, version


@P.scenario(quick=5000, must=['series', 'paths'])
def spelled_files(ctx):
    d, series, fmt, version = random_doc(ctx)
    if ctx.chance(.6):
        d.shuffle()
    eol = ctx.pick(['\n', '\n', '\r\n', '\r'])
    text = d.text(noise=ctx.chance(.8), eol=eol, final=ctx.chance(.7))
    sub = os.path.join(ctx.tmp, ctx.pick(['', 'a b', 'x.y', 'deep/er']))
    os.makedirs(sub, exist_ok=True)
    fn = os.path.join(sub, ctx.pick(['EMVA1288descriptor.txt', 'd', 'descriptor.x.y', 'b']))
    write(fn, text)
    ctx.note(text=text)
    mode = ctx.pick(['plain', 'plain', 'path', 'relpath', 'cwd', 'slash', 'empty', 'relfile'])
    ctx.sig(len(series), sorted((s.cmd, len(s.files)) for s in series), eol, mode, fmt is None)
    if mode == 'plain':
        check(ctx, Parser(fn), series, sub, fmt, version)
    elif mode == 'path':
        check(ctx, Parser(fn, path=os.path.join(ctx.tmp, 'other')), series, os.path.join(ctx.tmp, 'other'), fmt, version)
    elif mode == 'slash':
        check(ctx, Parser(fn, path=ctx.tmp + '/'), series, ctx.tmp, fmt, version)
    elif mode == 'relpath':
        check(ctx, Parser(fn, 'some/where'), series, 'some/where', fmt, version)
    elif mode == 'empty':
        # an empty path given by the caller is a path: the current directory
        check(ctx, Parser(fn, path=''), series, '', fmt, version)
    elif mode == 'relfile':
        cwd = os.getcwd()
        os.chdir(os.path.dirname(ctx.tmp))
        try:
            rel = os.path.relpath(sub)
            check(ctx, Parser(os.path.join(ctx.pick(['', '.']), rel, os.path.basename(fn))), series, rel, fmt, version)
        finally:
            os.chdir(cwd)
    else:
        cwd = os.getcwd()
        os.chdir(sub)
        try:
            check(ctx, Parser(os.path.basename(fn)), series, '', fmt, version)
        finally:
            os.chdir(cwd)


@P.scenario(quick=60, must=['series', 'paths'])
def large_files(ctx):
    """Many series and very long series."""
    d, series, fmt, version = random_doc(ctx, max_series=400, max_images=40, big=ctx.chance(.5))
    d.shuffle()
    fn = os.path.join(ctx.tmp, 'd.txt')
    write(fn, d.text())
    ctx.sig(len(series), max(len(s.files) for s in series))
    ctx.note(series=len(series), longest=max(len(s.files) for s in series))
    check(ctx, Parser(fn), series, ctx.tmp, fmt, version)


@P.scenario(quick=700, must=['series', 'metamorphic'])
def respelling(ctx):
    """The same measurement in two spellings and orders gives the same description."""
    series = desc.measurement(ctx)
    fmt, version = (8, 640, 480), '4.0'
    res = []
    for k in range(3):
        d = desc.Document(ctx, ctx.shuffled(series), fmt, version)
        d.shuffle()
        fn = os.path.join(ctx.tmp, 'd%d.txt' % k)
        write(fn, d.text(noise=k > 0, eol=['\n', '\r\n', '\n'][k]))
        res.append(Parser(fn))
        check(ctx, res[-1], series, ctx.tmp, fmt, version)
    a = desc.normalised(res[0].images)
    for r in res[1:]:
        ctx.eq(desc.normalised(r.images), a, 'respelled file')
        ctx.ev('metamorphic')
    ctx.sig(sorted(s.key for s in series))


@P.scenario(quick=500, must=['series'])
def several_parsers(ctx):
    """Parsers do not influence one another, and a rewritten file is read anew."""
    docs = []
    for k in range(ctx.int(2, 4, const=0)):
        d, series, fmt, version = random_doc(ctx, max_series=6)
        sub = os.path.join(ctx.tmp, 'm%d' % k)
        os.makedirs(sub)
        docs.append((os.path.join(sub, 'd.txt'), d, series, fmt, version, sub))
    alive = []
    for step in range(ctx.int(3, 7, const=0)):
        k = ctx.int(0, len(docs) - 1, const=0)
        fn, d, series, fmt, version, sub = docs[k]
        if ctx.chance(.4):
            d, series, fmt, version = random_doc(ctx, max_series=6)
            docs[k] = (fn, d, series, fmt, version, sub)
        write(fn, d.text())
        alive.append((Parser(fn), series, sub, fmt, version))
        for a in alive:
            check(ctx, *a)
    ctx.sig(len(alive), [len(a[1]) for a in alive])
