"""A process of C33: makes the jobs of a case, runs them in this process and writes their outcomes as JSON.

usage: python -m mon.envjob CASE.json   (with the environment, flags and directory the monitor wants)
"""
import json
import os
import sys


def main(path):
    with open(path, encoding='utf-8') as f:
        case = json.load(f)
    os.umask(case.get('umask', 0o022))
    sys.path.insert(0, case['here'])
    from mon import core, harvest
    core.import_target()
    import builtins
    import contextlib
    import gc
    import io
    import logging
    import random
    import warnings
    import numpy as np
    from mon.props import c33
    ctx = core.Ctx('C33', 'jobs', case['idx'], case['seed'], case['tier'], case['tmp'], harvest.Constants(core.SRC))
    ctx._tmp = case['tmp']
    os.makedirs(ctx._tmp)
    os.chdir(ctx._tmp)
    logging.disable(logging.NOTSET)
    jobs = c33.build(ctx)                        # random state and files are made before anything is changed
    for k in case.get('state', []):
        if k == 'printoptions':
            np.set_printoptions(precision=2, threshold=4, suppress=True, linewidth=20, floatmode='fixed')
        elif k == 'random':
            np.random.seed(case['idx'] % 1000 + 7)
            random.seed(case['idx'])
        elif k == 'gc':
            gc.disable()
        elif k == 'warnings':
            warnings.resetwarnings()
            warnings.simplefilter('always')
        elif k == 'decimal':
            import decimal
            decimal.getcontext().prec = 3
        elif k == 'seterr':
            np.seterr(all='warn')
        elif k == 'logging':
            logging.basicConfig(level=1, stream=io.StringIO())
        elif k == 'matplotlib':
            import matplotlib
            matplotlib.rcParams.update({'axes.formatter.use_locale': True, 'font.size': 5, 'lines.linewidth': 3, 'figure.max_open_warning': 1})
        elif k == 'errcall':
            np.seterrcall(lambda *a: None)
            np.seterr(all='call')
        elif k == 'encoding':
            # text files without a stated encoding are those of another system
            real = builtins.open

            def other(file, mode='r', buffering=-1, encoding=None, *a, **kw):
                if 'b' not in mode and encoding is None:
                    encoding = 'cp1252'
                return real(file, mode, buffering, encoding, *a, **kw)
            builtins.open = other
    order = list(range(len(jobs)))
    if case.get('reverse'):
        order.reverse()
    out = [None] * len(jobs)
    for i in order + order[:1] * bool(case.get('again')):
        name, job = jobs[i]
        printed = io.StringIO()
        try:
            with contextlib.redirect_stdout(printed), contextlib.redirect_stderr(io.StringIO()):
                r = ['done', core.digest(job())]
        except Exception as e:
            r = ['raised', type(e).__name__, str(e)[:300]]
        if out[i] is None:
            out[i] = r
        elif out[i] != r:
            out[i] = ['second time different', out[i], r]
    with open(case['out'], 'w', encoding='utf-8') as f:
        json.dump([[n for n, _j in jobs], out], f)


if __name__ == '__main__':
    main(sys.argv[1])
