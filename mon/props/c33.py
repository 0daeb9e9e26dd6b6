"""C33: outcomes do not depend on the process they are computed in."""
import contextlib
import hashlib
import io
import json
import os
import shutil
import subprocess
import sys

import numpy as np
from matplotlib.figure import Figure

from emva1288.process import Emva1288, routines
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.plotting import Plotting1288
from emva1288.process.results import Results1288
from emva1288.report import report

from mon import core
from mon.core import HERE, REPO, Property
from mon.props import c27, c31

P = Property('C33', 'case = three to six jobs run in a plain process and again in processes with another environment, other interpreter flags '
             'and other global settings; non-trivial = all outcomes compared; distinct by jobs and process')


# ------------------------------------------------------------------ jobs besides those of C31
def files_below(root):
    out = {}
    for d, _s, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as h:
                out[os.path.relpath(os.path.join(d, f), root)] = hashlib.sha256(h.read()).hexdigest()
    return sorted(out.items())


def outcome(f):
    try:
        return ['done', f()]
    except Exception as e:
        return ['raised', type(e).__name__]


def job_refusal(ctx, n):
    """Measurements with something missing."""
    root = c31.where(ctx, 'refusals%d' % n)
    os.makedirs(root)
    names, image = {}, np.arange(16).reshape(4, 4) + ctx.int(0, 9, const=0)
    full = ['v 4.0', 'n 8 4 4', 'b 10 5', 'i a1', 'i a2', 'd 10', 'i b1', 'i b2', 'b 10 5', 'i c1', 'i c2', 'i c3', 'd 10', 'i d1', 'i d2', 'i d3']
    for r in full + ['i e1', 'i e2']:
        if r[0] == 'i':
            open(os.path.join(root, r[2:]), 'w').close()
    kinds = ['version', 'format', 'dark', 'bright', 'spatial', 'image', 'series', 'number', 'nothing', 'unknown', 'twice', 'two formats', 'file', 'shape',
             'new exposure', 'only dark']
    for what in kinds:
        rows = list(full)
        if what == 'version':
            rows.pop(0)
        elif what == 'format':
            rows.pop(1)
        elif what == 'dark':
            rows = [r for r in rows if r not in ('d 10', 'i b1', 'i b2', 'i d1', 'i d2', 'i d3')]
        elif what == 'bright':
            rows += ['d 20', 'i e1', 'i e2']
        elif what == 'only dark':
            rows = rows[:2] + rows[5:8] + rows[12:]
        elif what == 'new exposure':
            rows += ['b 20 7', 'i e1', 'i e2']
        elif what == 'spatial':
            rows = rows[:8]
        elif what == 'image':
            rows.remove('i a2')
        elif what == 'series':
            rows.append('b 20 8')
        elif what == 'number':
            rows[2] = 'b ten 5'
        elif what == 'unknown':
            rows.insert(ctx.int(0, len(rows)), 'x 1 2')
        elif what == 'twice':
            rows += ['b 10 5', 'i e1', 'i e2']
        elif what == 'two formats':
            rows.insert(2, 'n 8 6 6')
        elif what == 'file':
            rows[3] = 'i none'
        names[what] = os.path.join(root, what + '.txt')
        with open(names[what], 'w') as f:
            f.write('\n'.join(rows) + '\n')

    def load(what):
        def fload(path):
            return image[:3] if what == 'shape' and os.path.basename(path) == 'a2' else image
        d = ParseEmvaDescriptorFile(names[what], loglevel=50)
        return [sorted(d.images['temporal']), Data1288(LoadImageData(d.images, path=root, loglevel=50, fload=fload).data, loglevel=50).data]
    return 'refusal', lambda: [[w, outcome(lambda: load(w))] for w in kinds]


def job_incomplete(ctx, n):
    """Reduction of data that lack something."""
    def make(what):
        s = {'sum': np.full((4, 4), 40), 'pvar': np.full((4, 4), 480), 'L': 4}
        pt = {'sum': 1000, 'pvar': 50, 'dmean': 0.}
        data = {'width': 4, 'height': 4, 'temporal': {1.: {0.: dict(pt), 5.: dict(pt)}, 2.: {0.: dict(pt), 6.: dict(pt)}},
                'spatial': {1.: {0.: dict(s), 5.: dict(s)}}}
        if what == 'dark':
            del data['temporal'][2.][0.]
        elif what == 'bright':
            del data['temporal'][2.][6.]
        elif what == 'spatial dark':
            del data['spatial'][1.][0.]
        elif what == 'spatial bright':
            del data['spatial'][1.][5.]
        elif what == 'two':
            data['spatial'][2.] = {0.: dict(s), 5.: dict(s)}
        return data
    kinds = ['nothing', 'dark', 'bright', 'spatial dark', 'spatial bright', 'two']
    return 'incomplete', lambda: [[w, outcome(lambda: Data1288(make(w), loglevel=50).data)] for w in kinds]


def job_printed(ctx, n):
    data = c31.measurement(ctx)
    area = ctx.pick([None, ctx.uniform(1, 50)])

    def run():
        r = Results1288(data, loglevel=50, pixel_area=area)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r.print_results()
        name = c31.where(ctx, 'r%d.xml' % n)
        r.xml(name)
        with open(name, 'rb') as f:
            return [out.getvalue(), f.read(), r.xml(), r.results]
    return 'printed', run


def job_compare(ctx, n):
    """Files that have not the same sections and quantities."""
    r = Results1288(c31.measurement(ctx), loglevel=50)
    a = routines.xml_to_dict(r.xml())
    b = routines.xml_to_dict(r.xml())
    for s in sorted(b):
        for k in sorted(b[s]):
            u = ctx.rng.random()
            if u < .2:
                del b[s][k]
            elif u < .3:
                b[s]['own%d' % ctx.int(0, 99)] = {'value': ctx.uniform(0, 9)}
            elif u < .5 and b[s][k].get('value') is not None:
                b[s][k] = dict(b[s][k], value=b[s][k]['value'] * 1.1)
    for k in range(ctx.int(0, 4, const=0)):
        b['section%d' % ctx.int(0, 99)] = {'q': {'value': 1.0}}
    x, y = [routines.dict_to_xml(d) for d in ((a, b) if ctx.chance(.5) else (b, a))]

    def run():
        name = c31.where(ctx, 'cmp%d.txt' % n)
        s = routines.compare_xml(x, y, filename=name)
        with open(name, encoding='utf-8') as f:
            return [s, f.read()]
    return 'compare', run


@contextlib.contextmanager
def no_files():
    """Files of plots have the date in them, and drawing them takes long."""
    old = Figure.savefig, Figure.tight_layout

    def savefig(self, fname, *a, **k):
        if isinstance(fname, (str, os.PathLike)):
            with open(fname, 'wb') as f:
                f.write(b'plot')
        else:
            fname.savefig(self) if hasattr(fname, 'savefig') else None
    Figure.savefig, Figure.tight_layout = savefig, lambda self, *a, **k: None
    try:
        yield
    finally:
        Figure.savefig, Figure.tight_layout = old


def job_plots(ctx, n):
    """The curves of some plots."""
    import matplotlib.pyplot as plt
    from emva1288.process.plotting import EVMA1288plots
    data = c27.data(ctx)
    which = ctx.shuffled(list(EVMA1288plots))[:3]

    def run():
        plt.close('all')
        r = Results1288(data, loglevel=50)
        with no_files():
            Plotting1288(r).plot(*which)
        out = []
        for k in plt.get_fignums():
            for ax in plt.figure(k).axes:
                out.append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel()])
                out += [[str(l.get_label()), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)] for l in ax.get_lines()]
        plt.close('all')
        return out
    return 'plots', run


def job_report(ctx, n):
    import matplotlib.pyplot as plt
    datas = [c27.data(ctx) for _ in range(ctx.int(1, 2, const=0))]
    note = ctx.pick(['plain', 'plain', 'Müller', 'café'])
    basic = {'vendor': note, 'model': 'M%d' % ctx.int(0, 99)}
    summary = ctx.chance(.5)

    def run():
        out = c31.where(ctx, 'report%d' % n)
        shutil.rmtree(out, ignore_errors=True)
        with no_files():
            rep = report.Report1288(out, basic=report.info_basic(**basic), setup=report.info_setup(**{'Light source': note}))
            for k, d in enumerate(datas):
                op = report.info_op()
                op['name'] = 'point %d' % k
                op['summary_only'] = summary
                op['camera_settings']['Gain'] = k
                rep.add(op, d)
            rep.latex()
        plt.close('all')
        return files_below(out)
    return 'report ' + ('plain' if note == 'plain' else 'accents'), run


def job_one_call(ctx, n):
    import matplotlib.pyplot as plt
    from emva1288.camera.dataset_generator import DatasetGenerator
    kw = dict(steps=ctx.int(5, 8, const=0), L=3, width=ctx.int(8, 14), height=ctx.int(8, 14), seed=ctx.int(0, 10 ** 6),
              bit_depth=ctx.pick([8, 10, 12]), K=.1, blackoffset=3)
    if ctx.chance(.5):
        kw['exposure_fixed'] = 1e8

    def run():
        out = c31.where(ctx, 'call%d' % n)
        shutil.rmtree(out, ignore_errors=True)
        g = DatasetGenerator(outdir=out, **kw)
        e = Emva1288(g.descriptor_path)
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            e.results()
        return [files_below(out), s.getvalue(), e.xml()]
    return 'one call', run


JOBS = [c31.job_process, c31.job_results, c31.job_xml, c31.job_numbers, c31.job_camera, c31.job_generate, c31.job_filters,
        job_refusal, job_incomplete, job_printed, job_compare, job_compare, job_plots, job_report, job_one_call]


def build(ctx):
    ctx.relative = True                          # outcomes with paths in them are the same everywhere
    n = ctx.int(4, 8, const=0)
    kinds = ctx.shuffled(JOBS)[:n]
    return [k(ctx, i) for i, k in enumerate(kinds)]


# ------------------------------------------------------------------ processes
def plain_env():
    return {'PATH': os.environ.get('PATH', ''), 'HOME': os.environ.get('HOME', '/'), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
            'PYTHONUTF8': '1', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
            'VERIF_REPO': REPO}


STATES = ['printoptions', 'random', 'gc', 'warnings', 'decimal', 'seterr', 'logging', 'matplotlib', 'errcall', 'encoding']


def other(ctx):
    """Another process: environment, interpreter flags, and what is done in it before the jobs."""
    env, flags, case = plain_env(), [], {}
    env['PYTHONHASHSEED'] = str(ctx.int(1, 2 ** 31))
    what = ['hash seed']
    for k in ctx.shuffled(['locale', 'zone', 'umask', 'flags', 'home', 'backend', 'columns', 'state', 'state', 'reverse', 'again'])[:ctx.int(2, 6, const=0)]:
        what.append(k)
        if k == 'locale':
            env['LC_ALL'] = env['LANG'] = ctx.pick(['C', 'POSIX', 'C.utf8'])
            if ctx.chance(.6):
                env['PYTHONUTF8'], env['PYTHONCOERCECLOCALE'] = '0', '0'
            what.append(env['LC_ALL'] + env['PYTHONUTF8'])
        elif k == 'zone':
            env['TZ'] = ctx.pick(['UTC-14', 'UTC+12', 'EST5EDT'])
        elif k == 'umask':
            case['umask'] = ctx.pick([0, 0o077, 0o027])
        elif k == 'flags':
            flags += ctx.pick([['-O'], ['-X', 'dev'], ['-O', '-X', 'dev'], ['-b'], ['-I']])
            what.append(' '.join(flags))
        elif k == 'home':
            env.pop('HOME')
        elif k == 'backend':
            env['MPLBACKEND'] = ctx.pick(['pdf', 'svg', 'ps', 'template'])
        elif k == 'columns':
            env['COLUMNS'] = '20'
        elif k == 'state':
            case['state'] = sorted(set(case.get('state', [])) | set(ctx.shuffled(STATES)[:ctx.int(1, 4, const=0)]))
            what += case['state']
        else:
            case[k] = True
    return env, flags, case, what


def process(ctx, n, env, flags, case):
    tmp = os.path.join(ctx.tmp, 'w')
    path, out = os.path.join(ctx.tmp, 'case%d.json' % n), os.path.join(ctx.tmp, 'out%d.json' % n)
    with open(path, 'w') as f:
        json.dump(dict(case, idx=ctx.idx, seed=ctx.seed, tier=ctx.tier, here=HERE, tmp=tmp, out=out), f)
    p = subprocess.run([sys.executable, '-B'] + flags + [os.path.join(HERE, 'mon', 'envjob.py'), path], cwd=ctx.tmp, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(out):
        raise RuntimeError('no outcome: %s' % p.stderr.decode('utf-8', 'replace')[-2000:])
    with open(out) as f:
        return json.load(f)


@P.scenario(quick=36, thorough=1200, must=['outcomes', 'processes', 'hash seed', 'locale', 'flags', 'state'])
def anywhere(ctx):
    names, want = process(ctx, 0, plain_env(), [], {})
    ctx.note(jobs=names)
    ctx.check(any(w[0] == 'done' for w in want), 'no job ended', outcomes=want)
    for n in range(3):
        env, flags, case, what = other(ctx)
        names2, got = process(ctx, n + 1, env, flags, case)
        if names2 != names:
            raise RuntimeError('the jobs are not the same: %s %s' % (names, names2))
        for i, (a, b) in enumerate(zip(want, got)):
            same = a == b if a[0] == 'done' else a[:2] == b[:2]
            ctx.check(same, 'another outcome in another process: ' + names[i], plain=a, other=b, process=what, environment=env, flags=flags, case=case)
            ctx.ev('outcomes')
        for w in what:
            ctx.ev(w)
        ctx.ev('processes')
        ctx.sig(tuple(names), tuple(what))
