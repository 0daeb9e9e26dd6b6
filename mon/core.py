"""Workload driver: runs the scenarios of a property against the real code,
collects what the monitors saw, writes the evidence and the verdict.
"""
import argparse
import contextlib
import errno
import hashlib
import importlib
import json
import math
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_TIMEOUT = 240          # seconds for a single case; typical cases need milliseconds
MEMORY_LIMIT = 3 << 30      # bytes a worker may add to what it has at the start
MAX_VIOLATIONS = 5


# ------------------------------------------------------------------ violations
class Violation(Exception):
    """The oracle says that the execution it observed breaks the property."""

    def __init__(self, what, detail=None, finding=None):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail or {}
        self.finding = finding


class CaseTimeout(BaseException):
    pass


def short(v, n=400):
    try:
        if isinstance(v, np.ndarray) and v.size > 40:
            s = 'array%s %s %s...' % (v.shape, v.dtype, np.ravel(v)[:12].tolist())
        else:
            s = repr(v)
    except Exception as e:                                  # repr of foreign objects
        s = '<unprintable %s>' % e
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ digests
def digest(obj):
    """Deep fingerprint of nested dicts, lists, arrays and masks."""
    h = hashlib.sha256()

    def put(o):
        if isinstance(o, dict):
            h.update(b'{%d' % len(o))
            for k in o:                                     # order matters to users too
                put(k)
                put(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[%d' % len(o))
            for x in o:
                put(x)
        elif isinstance(o, np.ma.MaskedArray):
            h.update(b'M')
            put(np.asarray(o.data))
            put(np.asarray(np.ma.getmaskarray(o)))
        elif isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, np.generic):
            h.update(str(o.dtype).encode() + o.tobytes())
        else:
            h.update(repr(o).encode())
    put(obj)
    return h.hexdigest()


# ------------------------------------------------------------------ the context of one case
class Ctx(object):
    def __init__(self, pid, scenario, idx, seed, tier, scratch, constants):
        self.pid, self.scenario, self.idx, self.seed, self.tier = pid, scenario, idx, seed, tier
        key = '%s|%s|%s|%s' % (seed, pid, scenario, idx)
        n = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], 'big')
        self.rng = np.random.default_rng(n)
        np.random.seed(n % (2 ** 32))
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.trace = {}
        self._scratch = scratch
        self._tmp = None
        self.constants = constants
        self.findings = []

    # ---- observation
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sig(self, *parts):
        """A distinct, non-trivial execution was observed."""
        self.sigs.add(hashlib.sha256(repr((self.scenario,) + parts).encode()).hexdigest()[:16])

    def note(self, **kw):
        """Description of the case (goes to samples and replay files)."""
        for k, v in kw.items():
            self.trace[k] = short(v)

    # ---- verdicts
    def fail(self, what, **detail):
        raise Violation(what, dict(self.trace, **{k: short(v) for k, v in detail.items()}))

    def check(self, cond, what, **detail):
        self.ev('assertions')
        if not cond:
            self.fail(what, **detail)

    def eq(self, got, want, what, **detail):
        self.ev('assertions')
        try:
            same = type(got) is not dict and bool(np.all(np.asarray(got == want)))
            if type(got) is dict:
                same = got == want
        except Exception:
            same = False
        if not same:
            self.fail(what, got=got, want=want, **detail)

    def array_eq(self, got, want, what, **detail):
        """Same shape and identical values (NaN equal to NaN)."""
        self.ev('assertions')
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            try:
                ok = np.array_equal(g, w, equal_nan=True)
            except TypeError:
                ok = np.array_equal(g, w)
        if not ok:
            detail2 = dict(detail)
            if g.shape == w.shape and g.size:
                bad = np.argwhere(~((g == w) | ((g != g) & (w != w))))
                if len(bad):
                    i = tuple(bad[0])
                    detail2.update(at=i, got_at=g[i], want_at=w[i], nbad=len(bad))
            self.fail(what, got=g, want=w, **detail2)

    def close(self, got, want, what, rtol=1e-9, atol=0.0, **detail):
        """Same shape and values within rtol*|want| + atol (NaN equal to NaN)."""
        self.ev('assertions')
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(what + ' (not a number)', got=got, want=want, **detail)
        ok = g.shape == w.shape
        if ok:
            with np.errstate(all='ignore'):
                good = (np.abs(g - w) <= rtol * np.abs(w) + atol) | (np.isnan(g) & np.isnan(w)) | (g == w)
            ok = bool(np.all(good))
        if not ok:
            detail2 = dict(detail)
            if g.shape == w.shape and g.ndim:
                i = tuple(np.argwhere(~good)[0])
                detail2.update(at=i, got_at=g[i], want_at=w[i], nbad=int(np.sum(~good)))
            self.fail(what, got=g, want=w, rtol=rtol, atol=atol, **detail2)

    def refused(self, fn, excs, what, **detail):
        """fn must raise one of excs."""
        self.ev('assertions')
        try:
            r = fn()
        except excs as e:
            self.ev('refusals')
            return e
        except Exception as e:
            self.fail(what + ': refused with the wrong kind of error %s: %s' % (type(e).__name__, e),
                      want=[x.__name__ for x in excs], **detail)
        self.fail(what + ': accepted', got=r, **detail)

    def finding(self, key, cond, what, **detail):
        """A check whose failure may be a listed known finding."""
        self.ev('assertions')
        if not cond:
            v = Violation(what, dict(self.trace, **{k: short(x) for k, x in detail.items()}), finding=key)
            self.findings.append(v)

    @contextlib.contextmanager
    def unchanged(self, what, *objs):
        before = [digest(o) for o in objs]
        yield
        after = [digest(o) for o in objs]
        self.ev('purity_checks', len(objs))
        if before != after:
            self.fail('modified: ' + what)

    # ---- inputs
    def chance(self, p):
        return bool(self.rng.random() < p)

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def int(self, lo, hi, const=0.2):
        """Integer in [lo, hi], biased to the ends and to constants of the code under test."""
        lo, hi = int(lo), int(hi)
        u = self.rng.random()
        if u < const:
            c = self.constants.ints(lo, hi)
            if c:
                return int(self.pick(c))
        if u < const + 0.05:
            return self.pick([lo, hi, min(lo + 1, hi), max(hi - 1, lo)])
        return int(self.rng.integers(lo, hi + 1))

    def size(self, lo, hi, const=0.15):
        """Like int, but log-distributed: small values common, large ones occur."""
        if self.rng.random() < const:
            return self.int(lo, hi, const=0.8)
        v = math.exp(self.rng.uniform(math.log(lo), math.log(hi + 1)))
        return max(lo, min(hi, int(v)))

    def uniform(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def logu(self, lo, hi):
        return float(math.exp(self.rng.uniform(math.log(lo), math.log(hi))))

    def shuffled(self, seq):
        seq = list(seq)
        self.rng.shuffle(seq)
        return seq

    def name(self, n=6):
        return ''.join(self.pick('abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ0123456789_-') for _ in range(n))

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=self._scratch)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


# ------------------------------------------------------------------ code under test
def import_target():
    """Import emva1288 from the working tree of the repository."""
    sys.dont_write_bytecode = True
    if SRC not in sys.path[:1]:
        sys.path.insert(0, SRC)
    if not os.path.exists(os.path.join(SRC, 'emva1288', '_version.py')):
        # written by the build, not tracked
        m = types.ModuleType('emva1288._version')
        m.version = m.__version__ = '0.0'
        m.version_tuple = m.__version_tuple__ = (0, 0)
        sys.modules['emva1288._version'] = m
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import emva1288
    f = os.path.realpath(emva1288.__file__)
    if not f.startswith(os.path.realpath(SRC)):
        raise RuntimeError('wrong emva1288: %s' % f)


# ------------------------------------------------------------------ one case
def from_target(tb):
    """Frames of the traceback that lie in the code under test."""
    out = []
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(os.path.realpath(SRC)):
            out.append('%s:%d %s' % (os.path.relpath(fr.filename, SRC), fr.lineno, fr.name))
    return out


def run_case(pid, scen, idx, seed, tier, scratch, constants):
    ctx = Ctx(pid, scen.name, idx, seed, tier, scratch, constants)
    res = {'scenario': scen.name, 'idx': idx, 'violation': None, 'error': None, 'findings': []}

    def on_alarm(*_a):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        scen.fn(ctx)
    except Violation as v:
        res['violation'] = (v.what, v.detail, v.finding)
    except CaseTimeout:
        res['violation'] = ('no answer within %d s' % CASE_TIMEOUT, ctx.trace, None)
    except MemoryError as e:
        # the workers may use MEMORY_LIMIT more than they had at the start: no case needs a tenth of that
        res['violation'] = ('out of memory: %s' % e, dict(ctx.trace, traceback=traceback.format_exc().splitlines()[-8:]), None)
    except Exception as e:
        frames = from_target(e.__traceback__)
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT):
            res['error'] = 'resource: %s' % e
        else:
            tb = traceback.format_exc().splitlines()[-14:]
            what = 'unexpected %s: %s' % (type(e).__name__, e)
            res['violation'] = (what, dict(ctx.trace, target_frames=frames, traceback=tb), None)
    finally:
        signal.alarm(0)
        ctx.cleanup()
    res['findings'] = [(v.what, v.detail, v.finding) for v in ctx.findings]
    res['wall'] = time.time() - t0
    res['events'] = ctx.events
    res['sigs'] = ctx.sigs
    res['trace'] = ctx.trace
    return res


# ------------------------------------------------------------------ scenarios
class Scenario(object):
    def __init__(self, name, fn, quick, thorough, must=()):
        self.name, self.fn, self.quick, self.thorough, self.must = name, fn, quick, thorough, tuple(must)

    def count(self, tier):
        return self.quick if tier == 'quick' else self.thorough


class Property(object):
    """Collects the scenarios of a property module."""

    def __init__(self, pid, rule, assumptions=(), setup=None):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.scenarios = []
        self.setup = setup

    def scenario(self, quick, thorough=None, must=()):
        def deco(fn):
            self.scenarios.append(Scenario(fn.__name__, fn, quick,
                                           thorough if thorough is not None else quick * 25, must))
            return fn
        return deco


# ------------------------------------------------------------------ parallel driver
def schedule(prop, tier):
    """Round robin over the scenarios, so that an early stop covers all of them."""
    todo = [(s, i) for s in prop.scenarios for i in range(s.count(tier))]
    return sorted(todo, key=lambda t: (t[1] / float(t[0].count(tier)), t[0].name))


def limit_memory():
    """Code that runs away with the memory fails in its own process."""
    try:
        with open('/proc/self/statm') as f:
            now = int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (now + MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (OSError, ValueError):
        pass


def child(prop, tasks, counter, stop, out, seed, tier, scratch, constants, deadline):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, 'w')
    limit_memory()
    with open(out, 'wb') as f:
        while True:
            if stop.value >= MAX_VIOLATIONS or time.time() > deadline:
                break
            with counter.get_lock():
                k = counter.value
                counter.value += 1
            if k >= len(tasks):
                break
            s, i = tasks[k]
            r = run_case(prop.pid, s, i, seed, tier, scratch, constants)
            if r['violation']:
                with stop.get_lock():
                    stop.value += 1
            pickle.dump(r, f)
        pickle.dump('done', f)


def run_all(prop, tier, seed, scratch, constants, deadline):
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    counter, stop = mpc.Value('i', 0), mpc.Value('i', 0)
    tasks = schedule(prop, tier)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(max(1, min(WORKERS, len(tasks)))):
        out = os.path.join(scratch, 'w%d.pickle' % w)
        p = mpc.Process(target=child, args=(prop, tasks, counter, stop, out, seed, tier, scratch, constants, deadline))
        p.start()
        procs.append((p, out))
    results, errors = [], []
    for p, out in procs:
        p.join(max(1.0, deadline + CASE_TIMEOUT + 60 - time.time()))
        if p.is_alive():
            p.kill()
            p.join()
            errors.append('worker %s did not end' % out)
        done = False
        try:
            with open(out, 'rb') as f:
                while True:
                    r = pickle.load(f)
                    if r == 'done':
                        done = True
                        break
                    results.append(r)
        except (EOFError, OSError, pickle.UnpicklingError):
            pass
        if not done:
            errors.append('worker ended early, exit code %s' % p.exitcode)
    return results, errors, len(tasks)


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """Lines 'known: property=<id> key=<key> <text>' of known_findings.txt."""
    out = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                w = line.split()
                if len(w) > 3 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('key='):
                    out[w[2][4:]] = ' '.join(w[3:])
    except OSError:
        pass
    return out


# ------------------------------------------------------------------ main
def load(pid):
    import_target()
    mod = importlib.import_module('mon.props.%s' % pid.lower())
    return mod.P


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run a single scenario')
    ap.add_argument('--times', action='store_true', help='print the time per scenario')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vmon_')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    try:
        return _main(a, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, seed, t0, scratch):
    pid = a.pid.upper()
    from mon import harvest
    try:
        constants = harvest.Constants(SRC)
        prop = load(pid)
    except BaseException as e:
        # the package cannot even be imported: nothing to observe
        print('ERROR %s: cannot load the code under test: %s: %s' % (pid, type(e).__name__, e))
        traceback.print_exc()
        return 2

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        scen = [s for s in prop.scenarios if s.name == rp['scenario']][0]
        limit_memory()
        r = run_case(pid, scen, rp['idx'], rp['seed'], rp['tier'], scratch, constants)
        bad = r['violation']
        print(json.dumps({'violation': bad, 'findings': r['findings'], 'error': r['error']}, indent=1, default=str))
        return 1 if bad else 0

    if a.only:
        prop.scenarios = [s for s in prop.scenarios if s.name == a.only]
    budget = 300 if tier == 'quick' else 720
    deadline = t0 + float(os.environ.get('VERIF_BUDGET', budget))
    results, errors, planned = run_all(prop, tier, seed, scratch, constants, deadline)

    events, sigs, per = {}, set(), {}
    samples, seen_scen = [], set()
    violations = []
    known = known_findings(pid)
    hit = {}
    for r in sorted(results, key=lambda r: (r['scenario'], r['idx'])):
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        sigs |= r['sigs']
        p = per.setdefault(r['scenario'], {'cases': 0, 'events': {}, 'wall': 0.0, 'max': 0.0})
        p['cases'] += 1
        p['wall'] += r['wall']
        p['max'] = max(p['max'], r['wall'])
        for k, v in r['events'].items():
            p['events'][k] = p['events'].get(k, 0) + v
        if r['trace'] and r['scenario'] not in seen_scen and not r['violation']:
            seen_scen.add(r['scenario'])
            samples.append(dict(scenario=r['scenario'], idx=r['idx'], **r['trace']))
        if r['error']:
            errors.append('%s/%d: %s' % (r['scenario'], r['idx'], r['error']))
        allv = list(r['findings'])
        if r['violation']:
            allv.append(r['violation'])
        for what, detail, finding in allv:
            if finding is not None and finding in known:
                hit[finding] = hit.get(finding, 0) + 1
                continue
            violations.append((r['scenario'], r['idx'], what, detail))

    # monitors that saw nothing prove nothing
    if not violations:
        for s in prop.scenarios:
            p = per.get(s.name)
            if p is None:
                errors.append('scenario %s did not run' % s.name)
                continue
            for m in ('assertions',) + s.must:
                if not p['events'].get(m):
                    errors.append('scenario %s: monitor saw no %s' % (s.name, m))

    wall = time.time() - t0
    evdir = os.path.join(HERE, 'evidence')
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': len(results), 'distinct_nontrivial': len(sigs), 'rule': prop.rule,
                       'samples': samples[:12] or [{'none': 'no sample'}],
                       'planned': planned, 'observed_events': events,
                       'scenarios': {k: {'cases': v['cases'], 'events': v['events']} for k, v in per.items()},
                       'known_findings_hit': hit, 'errors': errors},
          'assumptions': prop.assumptions, 'wall_s': round(wall, 3), 'violations': len(violations)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    if a.times:
        for k, v in sorted(per.items(), key=lambda kv: -kv[1]['wall']):
            print('%-34s %6d cases %8.2f s cpu  %6.1f ms/case  max %.2f s' % (
                k, v['cases'], v['wall'], 1000 * v['wall'] / v['cases'], v['max']))
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    seen = set()
    for scen, idx, what, detail in violations:
        if len(seen) >= MAX_VIOLATIONS:
            break
        path = os.path.join(rpdir, '%s-%s-%d.json' % (pid, scen, idx))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'scenario': scen, 'idx': idx, 'seed': seed, 'tier': tier,
                       'what': what, 'detail': detail}, f, indent=1, default=str)
        seen.add(path)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, HERE)))
        print('  %s/%d: %s' % (scen, idx, what))
        for k, v in detail.items():
            print('    %s: %s' % (k, short(v, 300) if not isinstance(v, list) else '\n      '.join(map(str, v))))
    print('%s %s seed=%d: %d/%d cases, %d distinct, %d assertions, %d violations, %.1f s' % (
        pid, tier, seed, len(results), planned, len(sigs), events.get('assertions', 0), len(violations), wall))
    if violations:
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR %s: %s' % (pid, e))
        return 2
    return 0
