"""Mutation campaign: mutate.py OUT.jsonl [FILE...]  (development tool, no check uses it)

Makes every mutant of the listed operators in src/emva1288 (one token or one
statement each), runs the checks of the file's properties on it until one
reports a violation, and the tests on those that no check reports. What
remains ("SURVIVED" and tests pass) is read by hand: equivalent, outside the
properties, or a gap to close.
"""
import ast
import json
import multiprocessing.dummy
import os
import re
import shutil
import subprocess
import sys
import threading

import plant

V = plant.V
REL = {
    'camera/bad_images.py': 'C29',
    'camera/camera.py': 'C24 C20 C22 C23 C21 C26 C25',
    'camera/routines.py': 'C29 C22 C20 C24 C23 C21 C26',
    'camera/dataset_generator.py': 'C25 C26',
    'camera/points_generator.py': 'C25 C26',
    'process/__init__.py': 'C26 C17',
    'process/parser.py': 'C01 C02 C26',
    'process/loader.py': 'C04 C03 C07 C26',
    'process/data.py': 'C05 C06 C07 C26',
    'process/results.py': 'C08 C09 C10 C11 C12 C13 C14 C17 C18 C27 C28 C26 C16',
    'process/routines.py': 'C03 C15 C16 C14 C18 C19 C17 C11 C12 C09 C13 C27 C04 C26 C02',
    'process/plotting.py': 'C27 C17 C28',
    'report/report.py': 'C28 C17',
}
CMP = {ast.Lt: [('<', '<=')], ast.LtE: [('<=', '<')], ast.Gt: [('>', '>=')], ast.GtE: [('>=', '>')], ast.Eq: [('==', '!=')],
       ast.NotEq: [('!=', '==')], ast.In: [('in', 'not in')], ast.NotIn: [('not in', 'in')], ast.Is: [('is', 'is not')],
       ast.IsNot: [('is not', 'is')]}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/'), ast.Pow: ('**', '*'),
       ast.Mod: None, ast.LShift: ('<<', '>>')}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'mean': 'median', 'floor': 'ceil', 'ceil': 'floor', 'any': 'all',
         'all': 'any', 'nonzero': None, 'ones': 'zeros', 'zeros': 'ones', 'uint8': 'uint16', 'uint16': 'uint8', 'uint32': 'uint16', 'int64': 'int32',
         'float64': 'float32', 'append': None, 'cumsum': None, 'width': 'height', 'height': 'width', 'var': 'std', 'std': 'var',
         '_width': '_height', '_height': '_width'}
UNWRAP = {'abs', 'round', 'int', 'float', 'sorted', 'copy', 'deepcopy', 'list', 'sqrt', 'flipud', 'transpose', 'asarray', 'array', 'reversed',
          'set', 'str', 'dict', 'lower', 'strip', 'astype', 'rstrip', 'lstrip', 'upper', 'compressed'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    out = []

    def put(n, i, j, new):
        out.append((n.lineno, i, j, new))

    def between(n, l, r, old, new):
        i, j = span(l)[1], span(r)[0]
        m = re.search(re.escape(old).replace(r'\ ', r'\s+'), b[i:j].decode())
        if m:
            put(n, i + m.start(), i + m.end(), new)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                for o, w in CMP.get(type(op), []):
                    between(n, left, right, o, w)
                    if o in ('<', '>', '<=', '>='):
                        between(n, left, right, o, {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[o])
                left = right
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            between(n, n.left, n.right, *BIN[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                o = 'and' if isinstance(n.op, ast.And) else 'or'
                between(n, x, y, o, 'or' if o == 'and' else 'and')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, span(n)[0], span(n.operand)[0], '')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            i, j = span(n)
            v = n.value
            if isinstance(v, bool):
                put(n, i, j, str(not v))
            elif isinstance(v, int):
                put(n, i, j, str(v + 1))
                if v > 0:
                    put(n, i, j, str(v - 1))
            elif isinstance(v, float):
                put(n, i, j, repr(v * 1.02 if v else .01))
            elif isinstance(v, str) and re.search(r'%\.?\d|%i', v) and b[i:j].count(b'\n') == 0:
                t = b[i:j].decode()
                m = re.search(r'%\.(\d)f', t)
                if m:
                    put(n, i, j, t.replace(m.group(0), '%%.%df' % max(0, int(m.group(1)) - 1), 1))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            i, j = span(n.test)
            put(n, i, j, 'not (%s)' % b[i:j].decode())
            if not isinstance(n, ast.While):
                put(n, i, j, 'True')
                put(n, i, j, 'False')
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and id(n) not in docs:
            i, j = span(n)
            t = b[i:j].decode()
            if 'log' not in t.split('(')[0] and not t.startswith(('print', 'yield')):
                put(n, i, j, 'pass')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            i, j = span(n)
            put(n, i, j, 'pass')
        elif isinstance(n, ast.Break):
            put(n, *span(n), 'pass')
        elif isinstance(n, ast.Continue):
            put(n, *span(n), 'pass')
        elif isinstance(n, ast.Raise):
            put(n, *span(n), 'pass')
        if isinstance(n, (ast.Attribute, ast.Name)):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            if NAMES.get(nm) and isinstance(n.ctx, ast.Load):
                j = span(n)[1]
                put(n, j - len(nm.encode()), j, NAMES[nm])
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if nm in UNWRAP:
                i, j = span(n)
                isnp = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'copy', 'math')
                if (isinstance(f, ast.Name) or isnp) and n.args:
                    put(n, i, j, '(%s)' % b[slice(*span(n.args[0]))].decode())
                elif isinstance(f, ast.Attribute):
                    put(n, i, j, b[slice(*span(f.value))].decode())
            items = n.args + [k for k in n.keywords]
            for k in n.keywords:
                if k.arg is None:
                    continue
                i, j = span(k)
                p = items.index(k)
                if p:
                    i = span(items[p - 1])[1]
                elif p + 1 < len(items):
                    j = span(items[p + 1])[0]
                if len(n.keywords) and nm not in ('dict', 'plot', 'axhline', 'axvline', 'legend', 'set_xlabel'):
                    out.append((k.value.lineno, i, j, ''))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                (i, j), (k, l) = span(n.args[0]), span(n.args[1])
                put(n, i, l, (b[k:l] + b[j:k] + b[i:j]).decode())
    seen = set()
    for line, i, j, new in sorted(out):
        m = b[:i] + new.encode() + b[j:]
        if m == b or m in seen:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        yield line, b[i:j].decode(), new, m


LOCK = threading.Lock()


def run(job):
    k, f, line, old, new, m = job
    d = '/tmp/mut_%d' % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(['cp', '-a', '/repo/src', '/repo/.circleci', '/repo/doc', '/repo/tests', d])
    for extra in ('setup.cfg', 'pyproject.toml', 'pytest.ini', 'tox.ini'):
        if os.path.exists('/repo/' + extra):
            shutil.copy('/repo/' + extra, d)
    r = dict(file=f, line=line, old=old, new=new, by=None, tests=None)
    try:
        with open(os.path.join(d, 'src/emva1288', f), 'wb') as o:
            o.write(m)
        e = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_WORKERS='2')
        for p in REL[f].split():
            rc, out = plant.sh(['python3', V + '/check.py', p], V, e, 900)
            if rc != 0:
                r['by'] = p if rc == 1 else '%s rc=%d' % (p, rc)
                break
        if r['by'] is None:
            r['tests'] = plant.tests(d)[:3]
    except Exception as ex:
        r['error'] = repr(ex)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with LOCK:
        with open(sys.argv[1], 'a') as o:
            o.write(json.dumps(r) + '\n')


if __name__ == '__main__':
    done = set()
    if os.path.exists(sys.argv[1]):
        for x in open(sys.argv[1]):
            x = json.loads(x)
            done.add((x['file'], x['line'], x['old'], x['new']))
    jobs = []
    for f in sys.argv[2:] or REL:
        src = open('/repo/src/emva1288/' + f, newline='').read()
        for line, old, new, m in mutants(src):
            if (f, line, old, new) not in done:
                jobs.append((len(jobs), f, line, old, new, m))
    print(len(jobs), 'mutants', {f: sum(1 for j in jobs if j[1] == f) for f in REL}, flush=True)
    if os.environ.get('MUT_LIST'):
        sys.exit()
    with multiprocessing.dummy.Pool(int(os.environ.get('MUT_JOBS', '4'))) as pool:
        list(pool.imap_unordered(run, jobs))
