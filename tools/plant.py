"""Plants bugs: plant.py SPEC.py [ID...]  (development tool, no check uses it)

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (text of demo.py), needs, breaks. Each bug is made in a scratch copy of
/repo, has to pass the tests there and to fail its demonstration, is stored in
/verif/seeded/<id>, and the check of its property is run on the copy.
"""
import json
import multiprocessing.dummy
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec %s "$(dirname "$0")/demo.py"\n' % PY


def env(copy, **kw):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
             PYTHONPATH=os.path.join(copy, 'src'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(kw)
    return e


def sh(cmd, cwd, e, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout


def tests(copy):
    w = tempfile.mkdtemp(prefix='plant_t_')
    try:
        e = env(copy, TMPDIR=w)
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=%s/j.xml' % w], copy, e)
        ok = set()
        for c in ET.parse(w + '/j.xml').getroot().iter('testcase'):
            if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
                ok.add(c.get('classname') + '::' + c.get('name'))
        os.mkdir(w + '/example')
        rc, _ = sh([PY, copy + '/.circleci/test_doc_examples/ci_test_sample_report.py'], w + '/example',
                   env(copy, TMPDIR=w, PYTHONPATH=copy + '/src:' + copy + '/doc/examples'))
        if rc == 0 and os.path.exists(w + '/example/myreport/report.tex'):
            ok.add('ci_test_sample_report')
        want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        return sorted(want - ok)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(copy, prop, seed='1', tier='quick'):
    rc, out = sh(['python3', V + '/check.py', prop, '--tier', tier], V, dict(os.environ, VERIF_REPO=copy, VERIF_SEED=seed, VERIF_WORKERS='4'), 1200)
    m = re.search(r'^VIOLATION.*$', out, re.M)
    d = re.search(r'^  .*$', out, re.M)
    return rc, (m.group(0) if m else out.strip()[-300:])


def one(b):
    i = b['id']
    copy = '/tmp/plant_%s' % i
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    try:
        for f, old, new in b['edits']:
            p = os.path.join(copy, 'src/emva1288', f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                return i, 'EDIT: %d matches in %s for %r' % (s.count(old), f, old[:60])
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE).stdout
        out = os.path.join(V, 'seeded', i)
        new = not os.path.exists(out)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        e0 = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        rc0, o0 = sh(['bash', out + '/demo.sh'], '/repo', e0, 300)
        rc1, o1 = sh(['bash', out + '/demo.sh'], copy, e0, 300)
        bad = None
        if rc0 != 0:
            bad = 'DEMO fails on the clean tree: ' + o0[-600:]
        elif rc1 == 0:
            bad = 'DEMO passes with the bug'
        elif rc1 == 124:
            bad = 'DEMO timeout'
        else:
            failed = tests(copy)
            if failed:
                bad = 'TESTS fail: %s' % failed[:4]
        if bad:
            shutil.rmtree(out)
            return i, bad
        rc, msg = check(copy, b['property'])
        return i, ('caught ' if rc == 1 else 'MISSED rc=%d ' % rc) + msg + '   | demo: ' + o1.strip()[-120:].replace('\n', ' / ')
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with multiprocessing.dummy.Pool(int(os.environ.get('PLANT_JOBS', '4'))) as pool:
        for i, m in pool.imap(one, bugs):
            print(i, m, flush=True)
