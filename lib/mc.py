"""
mc.py: the bounded exhaustive exploration harness shared by every check.

A check module creates one ``Check`` and registers *blocks*.  A block is a
function ``fn(rec, param)`` that enumerates a finite, fully listed space of
cases (inputs, configurations, operation histories, fault sequences) against
the code imported from /repo and compares every one of them with an oracle.
Blocks run in forked worker processes, each with its own scratch directory
and time limit.

Outcome: exit 0 when nothing (unlisted) failed, exit 1 and one line
``VIOLATION property=<id> replay=<path>`` otherwise.  There is no third
outcome: an exception raised by the code under test, a crashed worker and a
worker that does not come back are all recorded as failures.
"""
import contextlib
import copy
import fnmatch
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_KEYS = 4000
MAX_MSGS = 200


def digest(*parts):
    """canonical hash of nested python / numpy values"""
    h = hashlib.blake2b(digest_size=12)

    def feed(x):
        if x is None or isinstance(x, (bool, int, str, bytes)):
            h.update(repr((type(x).__name__, x)).encode())
        elif isinstance(x, (float, np.floating)):
            h.update(b'f' + (b'nan' if np.isnan(x) else
                np.format_float_scientific(float(x), precision=9,
                unique=False).encode()))
        elif isinstance(x, np.ma.MaskedArray):
            h.update(b'M')
            feed(np.ma.getmaskarray(x))
            feed(np.where(np.ma.getmaskarray(x), 0, np.ma.getdata(x)))
        elif isinstance(x, (np.ndarray, np.generic)):
            x = np.asarray(x)
            h.update(repr(('a', x.shape)).encode())
            if x.dtype.kind == 'f':
                # signed zeros and last-digit noise do not distinguish states
                y = np.array(x, dtype=np.float64) + 0.0
                with np.errstate(all='ignore'):
                    m = np.where((y == 0) | ~np.isfinite(y), 1.0, np.abs(y))
                    e = 10.0**(10 - np.ceil(np.log10(m)))
                    y = np.where(np.isfinite(y), np.round(y*e)/e, y) + 0.0
                h.update(y.tobytes())
            else:
                h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            h.update(b'd')
            for k in sorted(x, key=repr):
                feed(k)
                feed(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(repr(('l', len(x))).encode())
            for i in x:
                feed(i)
        else:
            h.update(repr(x).encode())
    for p in parts:
        feed(p)
    return h.hexdigest()


class Recorder:
    """what one block observed"""
    def __init__(self, block, tmp):
        self.block = block
        self.tmp = tmp
        self.evaluations = 0
        self.seen = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.fails = []      # (key, message)
        self.failkeys = set()
        self.samples = []
        self.notes = {}

    # -- counting -----------------------------------------------------------
    def case(self, key, nontrivial=True, n=1):
        """count one explored case; key identifies it within the block"""
        self.evaluations += n
        if nontrivial:
            self.seen.add(digest(self.block, key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------
    def fail(self, key, msg=''):
        key = str(key)
        if key in self.failkeys:
            return
        if len(self.failkeys) < MAX_KEYS:
            self.failkeys.add(key)
            self.fails.append((key, str(msg)[:800]
                if len(self.fails) < MAX_MSGS else ''))

    def check(self, cond, key, msg=''):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def eq(self, got, want, key):
        """exact equality (arrays elementwise, nan == nan)"""
        try:
            ok = _equal(got, want)
        except Exception as exc:  # incomparable
            self.fail(key, f'incomparable: {exc!r}: got {got!r} want {want!r}')
            return False
        if not ok:
            self.fail(key, f'got {_short(got)} want {_short(want)}')
        return ok

    def close(self, got, want, key, rtol=1e-10, atol=0.0, shape=True):
        """elementwise closeness; masks and nan patterns must agree"""
        try:
            msg = _notclose(got, want, rtol, atol, shape)
        except Exception as exc:
            msg = f'incomparable: {exc!r}: got {_short(got)} want {_short(want)}'
        if msg:
            self.fail(key, msg)
        return not msg

    @contextlib.contextmanager
    def guard(self, key):
        """an exception escaping the code under test is a failure"""
        try:
            yield
        except (KeyboardInterrupt, SystemExit, BlockTimeout):
            raise
        except BaseException as exc:
            self.fail(key, f'raised {type(exc).__name__}: {exc} '
                f'[{_where(exc)}]')

    def raises(self, fn, key, kinds=Exception):
        """fn must refuse"""
        try:
            out = fn()
        except kinds:
            return True
        except Exception as exc:
            self.fail(key, f'raised {type(exc).__name__}: {exc}')
            return False
        self.fail(key, f'accepted, returned {_short(out)}')
        return False

    # -- scratch ------------------------------------------------------------
    def mkdir(self):
        return tempfile.mkdtemp(dir=self.tmp)


class BlockTimeout(BaseException):
    pass


def _short(x):
    s = repr(x).replace('\n', ' ')
    return s if len(s) < 260 else s[:260] + '...'


def _where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
        for f in reversed(tb[-4:]))


def _equal(a, b):
    if isinstance(a, (np.ndarray, np.generic)) or \
            isinstance(b, (np.ndarray, np.generic)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fc' or y.dtype.kind in 'fc':
            return bool(np.all((x == y) | ((x != x) & (y != y))))
        return bool(np.all(x == y))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def _notclose(got, want, rtol, atol, shape):
    gm = np.ma.getmaskarray(got) if isinstance(got, np.ma.MaskedArray) else None
    wm = np.ma.getmaskarray(want) if isinstance(want, np.ma.MaskedArray) else None
    g = np.ma.getdata(got) if gm is not None else np.asarray(got)
    w = np.ma.getdata(want) if wm is not None else np.asarray(want)
    if shape and g.shape != w.shape:
        return f'shape {g.shape} expected {w.shape}'
    if gm is not None or wm is not None:
        a = gm if gm is not None else np.zeros(g.shape, bool)
        b = wm if wm is not None else np.zeros(w.shape, bool)
        if np.any(a != b):
            i = np.argwhere(np.atleast_1d(a != b))[0].tolist()
            return f'mask differs first at {i}'
        g = np.where(a, 0, g)
        w = np.where(b, 0, w)
    dt = np.complex128 if (g.dtype.kind == 'c' or w.dtype.kind == 'c') \
        else np.float64
    g, w = np.broadcast_arrays(g.astype(dt), w.astype(dt))
    if not g.size:
        return ''
    with np.errstate(all='ignore'):
        d = np.abs(g - w)
        same = (g == w) | ((g != g) & (w != w))
        tol = atol + rtol*np.abs(w)
        bad = ~(same | (d <= tol))
    if bad.any():
        i = np.argwhere(np.atleast_1d(bad))[0]
        ii = tuple(i) if bad.ndim else ()
        return (f'{int(bad.sum())}/{bad.size} values differ, first at '
            f'{[int(k) for k in i]}: got {g[ii]!r} want {w[ii]!r}')
    return ''


class Check:
    def __init__(self, pid, level, rule, assumptions=(), exhaustive=True):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.exhaustive = exhaustive
        self._blocks = []

    def block(self, name, params=None, timeout=600):
        """register a block; params: tier -> list of parameters"""
        def deco(fn):
            self._blocks.append((name, fn, params, timeout))
            return fn
        return deco

    def tasks(self, tier):
        out = []
        for name, fn, params, timeout in self._blocks:
            plist = [None] if params is None else list(params(tier))
            for i, p in enumerate(plist):
                bid = name if params is None else f'{name}[{i}]'
                out.append((bid, fn, p, timeout))
        return out


# ---------------------------------------------------------------------------
# explicit-state search over operation histories of the real objects
# ---------------------------------------------------------------------------
def bfs(rec, init, ops, depth, observe, clone=copy.deepcopy, name='',
        max_states=10**9):
    """
    Breadth first search.

    init:    list of (label, state); a state bundles the real object and its
             reference model
    ops:     callable(state) -> list of (label, step) with step(state) mutating
             or returning the successor (None: operation not enabled)
    observe: callable(rec, state, history) -> canonical digest; also compares
             the real object with the model and reports disagreements
    """
    frontier = []
    seen = set()
    for label, st in init:
        k = observe(rec, st, (label,))
        if k not in seen:
            seen.add(k)
            rec.states += 1
            frontier.append(((label,), st))
    for d in range(depth):
        nxt = []
        for hist, st in frontier:
            for label, step in ops(st):
                h = hist + (label,)
                key = '>'.join(h)
                cur = clone(st)
                before = len(rec.failkeys)
                with rec.guard(key):
                    out = step(cur)
                    cur = cur if out is None else out
                    if cur is SKIP:
                        continue
                    rec.transitions += 1
                    rec.traces += 1
                    k = observe(rec, cur, h)
                    rec.case(k)
                    if len(rec.failkeys) > before:
                        continue        # do not explore past a disagreement
                    if k not in seen:
                        seen.add(k)
                        rec.states += 1
                        if len(rec.samples) < 2 and d == depth - 1:
                            rec.sample({'history': list(h), 'state': k})
                        nxt.append((h, cur))
                if len(seen) > max_states:
                    raise RuntimeError('state bound exceeded')
        frontier = nxt
        if not frontier:
            break
    return len(seen)


SKIP = object()


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------
def _worker(fn, param, bid, out, timeout, seed):
    tmp = tempfile.mkdtemp(prefix='vmc_')
    os.environ['HOME'] = tmp
    os.chdir(tmp)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VMC_VERBOSE'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    rec = Recorder(bid, tmp)

    def onalarm(*_):
        raise BlockTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        fn(rec, param)
    except BlockTimeout:
        rec.fail(f'{bid}:timeout', f'no answer within {timeout} s')
    except BaseException as exc:
        rec.fail(f'{bid}:exception', f'raised {type(exc).__name__}: {exc} '
            f'[{_where(exc)}]')
    signal.alarm(0)
    os.chdir('/')
    with open(out, 'wb') as f:
        pickle.dump({k: getattr(rec, k) for k in ('evaluations', 'seen',
            'states', 'transitions', 'traces', 'fails', 'samples', 'notes')}, f)
    shutil.rmtree(tmp, ignore_errors=True)
    os._exit(0)


def run_tasks(tasks, seed):
    """run blocks in forked workers, longest-registered first"""
    jobs = int(os.environ.get('VMC_JOBS', '0')) or os.cpu_count() or 4
    outdir = tempfile.mkdtemp(prefix='vmcout_')
    pending = list(enumerate(tasks))
    live = {}
    results = {}
    try:
        while pending or live:
            while pending and len(live) < jobs:
                i, (bid, fn, param, timeout) = pending.pop(0)
                out = os.path.join(outdir, f'{i}.pkl')
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        _worker(fn, param, bid, out, timeout, seed)
                    finally:
                        os._exit(3)
                live[pid] = (i, bid, out, time.time() + timeout + 30)
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid in live:
                i, bid, out, _ = live.pop(pid)
                try:
                    with open(out, 'rb') as f:
                        results[i] = pickle.load(f)
                except Exception:
                    results[i] = _dead(bid, f'worker ended with status {status}')
                if results[i]['fails'] and os.environ.get('VMC_FIRST'):
                    # development only: the first violation is enough
                    for p in live:
                        with contextlib.suppress(OSError):
                            os.killpg(p, signal.SIGKILL)
                    return list(results.values())
                continue
            now = time.time()
            for p, (i, bid, out, limit) in list(live.items()):
                if now > limit:
                    with contextlib.suppress(OSError):
                        os.killpg(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    live.pop(p)
                    results[i] = _dead(bid, 'worker did not come back')
            time.sleep(0.01)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return [results[i] for i in range(len(tasks))]


def _dead(bid, msg):
    return dict(evaluations=0, seen=set(), states=0, transitions=0, traces=0,
        fails=[(f'{bid}:crash', msg)], samples=[], notes={})


def known_findings(pid):
    """(key pattern, text) of the findings listed for a property"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    with contextlib.suppress(FileNotFoundError):
        for line in open(path, encoding='utf8'):
            line = line.rstrip('\n')
            head = f'KNOWN-FINDING: property={pid} key='
            if line.startswith(head) and ' :: ' in line:
                key, text = line[len(head):].split(' :: ', 1)
                out.append((key, text))
    return out


def _listed(key, patterns):
    for pat, text in patterns:
        if key == pat or (pat.endswith('*') and key.startswith(pat[:-1])):
            return pat, text
    return None


def main(pid, tier=None, replay=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module(f'checks.{pid}')
        check = mod.CHECK
        tasks = check.tasks(tier)
    except BaseException as exc:
        # the code under test cannot even be imported
        traceback.print_exc()
        return _report_import_failure(pid, tier, seed, exc, t0)
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        tasks = [t for t in check.tasks(rp.get('tier', tier))
            if t[0] in rp['blocks']]
    only = os.environ.get('VMC_ONLY')
    if only:
        tasks = [t for t in tasks if fnmatch.fnmatch(t[0], only)]
    if not replay:
        with contextlib.suppress(OSError):
            os.remove(os.path.join(VERIF, 'replays', f'{pid}.json'))
    results = run_tasks(tasks, seed)
    known = known_findings(pid)
    hit, bad, badblocks = {}, [], []
    for task, res in zip(tasks, results):
        for key, msg in res['fails']:
            m = _listed(key, known)
            if m:
                hit[m[0]] = m[1]
            else:
                bad.append((task[0], key, msg))
                if task[0] not in badblocks:
                    badblocks.append(task[0])
    seen = set().union(*[r['seen'] for r in results]) if results else set()
    cov = {'blocks': len(tasks)}
    evals = sum(r['evaluations'] for r in results)
    samples = []
    for r in results:
        samples += r['samples'][:1]
    samples = samples[:8] or [{'block': t[0]} for t in tasks[:2]]
    if check.level == 'model_checking':
        cov.update(states=sum(r['states'] for r in results),
            transitions=sum(r['transitions'] for r in results),
            traces_validated_against_impl=sum(r['traces'] for r in results))
        extra = evals - cov['transitions']
        if extra > 0:
            cov.update(evaluations=evals, distinct_nontrivial=len(seen),
                rule=check.rule)
        else:
            cov['rule'] = check.rule
    else:
        cov.update(evaluations=evals, distinct_nontrivial=len(seen),
            rule=check.rule)
    for r in results:
        for k, v in r['notes'].items():
            cov[k] = (max(cov.get(k, 0), v) if k.startswith('max_')
                else cov.get(k, 0) + v) if isinstance(v, int) else v
    cov['samples'] = json.loads(json.dumps(samples, default=str))
    cov['exhaustive'] = bool(check.exhaustive)
    if not replay and not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough')
            else 'quick', seed=seed, level=check.level, coverage=cov,
            assumptions=check.assumptions, wall_s=round(time.time()-t0, 2),
            violations=len(bad))
        path = os.path.join(VERIF, 'evidence', f'{pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
    for pat, text in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={pid} {text}')
    counts = ' '.join(f'{k}={v}' for k, v in cov.items()
        if isinstance(v, int))
    print(f'{pid} tier={tier} {counts} wall={time.time()-t0:.1f}s')
    if bad:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed,
                blocks=badblocks, failures=[dict(block=b, key=k, message=m)
                for b, k, m in bad[:1500]],
                how=f'./run.sh {pid} {tier} --replay {path}'), f, indent=1)
        for b, k, m in bad[:12]:
            print(f'  [{b}] {k}: {m}')
        if len(bad) > 12:
            print(f'  ... {len(bad)} failures in all')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def _report_import_failure(pid, tier, seed, exc, t0):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', f'{pid}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, blocks=[], failures=[
            dict(block='import', key='import', message=repr(exc))]), f)
    print(f'VIOLATION property={pid} replay={path}')
    return 1


if __name__ == '__main__':
    # make 'import mc' in the checks resolve to this module
    sys.modules['mc'] = sys.modules['__main__']
    args = sys.argv[1:]
    rp = None
    if '--replay' in args:
        i = args.index('--replay')
        rp = args[i+1]
        del args[i:i+2]
    sys.exit(main(args[0], args[1] if len(args) > 1 else None, rp))
