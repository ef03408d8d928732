"""Bounded exhaustive exploration of the real code: driver, evidence, reports.

A check module (checks/pNN.py) provides

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> iterable of JSON-able cases: the complete bounded space
    run(ctx, case)   -> drives the real code, reports through ctx

Every case of the space is run; nothing is sampled and nothing is cut by time.
"""

import argparse
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('STRATA_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'evidence', 'replay')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAX_REPORTS = 20
MAX_FAILURES = int(os.environ.get('MC_MAX_FAILURES') or 400)


# A case takes milliseconds to a few seconds; one that takes this long hangs.
CASE_LIMIT_S = 90
MEMORY_LIMIT = 6 << 30


class HarnessError(Exception):
    """The harness itself misbehaved; never reported as a violation."""


class _Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Timeout()


class Ctx(object):
    """Collects what one or more cases did."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.failures = []
        self.samples = []
        self._tmp = None
        self.case = None
        self.timed_out = False

    # -- coverage -----------------------------------------------------------
    def state(self, *key):
        raw = repr(key).encode()
        h = hashlib.blake2b(raw, digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """One complete behaviour of the real code compared with the oracle."""
        self.traces += n

    def sample(self, **obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------
    def fail(self, what, sig=''):
        if len(self.failures) < 200:
            self.failures.append({'case': self.case, 'what': str(what)[:1500],
                                  'sig': sig})

    def check(self, cond, what, sig=''):
        if not cond:
            self.fail(what() if callable(what) else what, sig)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, doing, sig=''):
        """An exception out of the code under test is a failed obligation."""
        try:
            yield
        except HarnessError:
            raise
        except (KeyboardInterrupt, _Timeout):
            raise
        except BaseException as err:
            tb = traceback.extract_tb(err.__traceback__)
            where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                              for f in tb[-3:])
            self.fail('%s: raised %r (%s)' % (doing, err, where), sig)

    # -- scratch ------------------------------------------------------------
    def tmpdir(self):
        """A fresh, empty scratch directory for this case."""
        base = _scratch_base()
        self._tmp_n = getattr(self, '_tmp_n', 0) + 1
        path = os.path.join(base, 'c%d_%d' % (os.getpid(), self._tmp_n))
        os.makedirs(path)
        self._tmps = getattr(self, '_tmps', []) + [path]
        return path

    def clean(self):
        for path in getattr(self, '_tmps', []):
            shutil.rmtree(path, ignore_errors=True)
        self._tmps = []


_BASE = None


def _scratch_base():
    if _BASE is None:
        raise HarnessError('no scratch directory')
    return _BASE


_MODULE = None


def _init_worker(modname, base):
    global _MODULE, _BASE
    _BASE = base
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = os.fdopen(1, 'w')
    sys.stderr = os.fdopen(2, 'w')
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    _MODULE = importlib.import_module(modname)


def _run_one(ctx, case):
    ctx.case = case
    n0 = len(ctx.failures)
    signal.alarm(CASE_LIMIT_S)
    try:
        _MODULE.run(ctx, case)
    except HarnessError:
        raise
    except KeyboardInterrupt:
        raise
    except _Timeout:
        ctx.timed_out = True
        ctx.fail('did not terminate within %d s' % CASE_LIMIT_S)
    except BaseException as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                          for f in tb[-4:])
        ctx.fail('raised %r (%s)' % (err, where))
    finally:
        signal.alarm(0)
        ctx.clean()
    return len(ctx.failures) - n0


def _run_chunk(chunk):
    ctx = Ctx()
    err = None
    try:
        for case in chunk:
            _run_one(ctx, case)
            if len(ctx.failures) >= 50 or ctx.timed_out:
                break
    except BaseException:
        err = traceback.format_exc()
    return {'states': ctx.states, 'transitions': ctx.transitions,
            'traces': ctx.traces, 'failures': ctx.failures,
            'samples': ctx.samples, 'n': len(chunk), 'error': err,
            'nontrivial': ctx.nontrivial, 'timed_out': ctx.timed_out}


def load_known(pid):
    """(sig, text) of the findings recorded for this property."""
    out = []
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return out
    for line in lines:
        if line.startswith('finding: property=%s ' % pid):
            rest = line.split(' ', 2)[2]
            sig, _, text = rest.partition(' :: ')
            if not sig.startswith('sig='):
                raise HarnessError('bad known finding line %r' % line)
            out.append((sig[4:].strip(), text.strip()))
    return out


def _chunks(seq, size):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) == size:
            yield buf
            buf = []
    if buf:
        yield buf


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay', help='re-run the case of a replay file')
    ap.add_argument('--jobs', type=int, default=0)
    args = ap.parse_args(argv)

    pid = args.property.upper()
    modname = 'checks.%s' % pid.lower()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)

    base = tempfile.mkdtemp(prefix='mc_%s_' % pid.lower(), dir=_tmp_root())
    try:
        return _main(args, pid, modname, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _tmp_root():
    shm = '/dev/shm'
    if os.path.isdir(shm) and os.access(shm, os.W_OK):
        try:
            st = os.statvfs(shm)
            if st.f_bavail * st.f_frsize > 512 * 1024 * 1024:
                return shm
        except OSError:
            pass
    return None


def _main(args, pid, modname, seed, base, t0):
    if args.replay:
        cases = [json.load(open(args.replay))['case']]
        njobs = 1
    else:
        mod = importlib.import_module(modname)
        cases = list(mod.cases(args.tier))
        njobs = args.jobs or min(8, os.cpu_count() or 1)
    mod = importlib.import_module(modname)
    for name in ('strata', 'droplets'):
        where = os.path.realpath(importlib.import_module(name).__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError('%s imported from %s' % (name, where))

    # Simplest cases stay first; interleave so that chunks are balanced.
    size = max(1, min(getattr(mod, 'CHUNK', 64), len(cases) // (njobs * 6) + 1))
    chunks = list(_chunks(cases, size))

    total = {'states': set(), 'transitions': 0, 'traces': 0, 'n': 0,
             'failures': [], 'samples': [], 'nontrivial': 0}
    errors = []
    mp = multiprocessing.get_context('fork')
    pool = mp.Pool(njobs, _init_worker, (modname, base))
    try:
        # determinism probe: the same case twice must observe the same
        probe = [cases[0], cases[len(cases) // 2]] if not args.replay else []
        for case in probe:
            a = pool.apply(_run_chunk, ([case],))
            if a['timed_out']:
                total['failures'] += a['failures']
                chunks = []
                break
            b = pool.apply(_run_chunk, ([case],))
            if (a['states'], a['transitions'], a['traces'],
                    [f['what'] for f in a['failures']]) != (
                    b['states'], b['transitions'], b['traces'],
                    [f['what'] for f in b['failures']]) and not (
                    a['failures'] or b['failures']):
                errors.append('non-deterministic harness on case %r' % (case,))
        for res in pool.imap(_run_chunk, chunks):
            total['states'] |= res['states']
            for k in ('transitions', 'traces', 'n', 'nontrivial'):
                total[k] += res[k]
            total['failures'] += res['failures']
            if len(total['samples']) < 4:
                total['samples'] += res['samples'][:1]
            if res['error']:
                errors.append(res['error'])
                break
            if len(total['failures']) >= MAX_FAILURES or res['timed_out']:
                break
    finally:
        pool.terminate()
        pool.join()

    known = load_known(pid)
    seen_known = set()
    fresh = []
    for f in total['failures']:
        hit = [sig for sig, _ in known if f['sig'] and f['sig'] == sig]
        if hit:
            seen_known.add(hit[0])
        else:
            fresh.append(f)

    for sig, text in known:
        if sig in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))

    os.makedirs(REPLAY, exist_ok=True)
    for old in os.listdir(REPLAY):
        if old.startswith(pid + '-') and not args.replay:
            os.unlink(os.path.join(REPLAY, old))
    for i, f in enumerate(fresh[:MAX_REPORTS]):
        path = os.path.join(REPLAY, '%s-%d.json' % (pid, i))
        if not args.replay:
            with open(path, 'w') as fp:
                json.dump({'property': pid, 'case': f['case'],
                           'what': f['what'], 'sig': f['sig'],
                           'rerun': './check %s --replay %s' % (pid, path)},
                          fp, indent=1)
        if i < 5:
            print('  case %s' % json.dumps(f['case'])[:600])
            print('  %s' % f['what'])
            print('VIOLATION property=%s replay=%s' % (pid, path))

    level = getattr(mod, 'LEVEL', 'model_checking')
    coverage = {
        'states': len(total['states']),
        'transitions': total['transitions'],
        'traces_validated_against_impl': total['traces'],
        'evaluations': total['n'],
        'samples': total['samples'] or [{'case': cases[0]}],
        'rule': mod.RULE,
        'exhaustive': not fresh and not errors and not args.replay
                      and total['n'] == len(cases),
    }
    if level in ('fault_enumeration', 'exploration'):
        coverage['distinct_nontrivial'] = total['nontrivial']
    evidence = {
        'property': pid, 'tier': args.tier, 'seed': seed, 'level': level,
        'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if not args.replay:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as fp:
            json.dump(evidence, fp, indent=1, default=str)

    print('%s %s: %d cases, %d states, %d transitions, %d traces, '
          '%d violations, %.1f s' % (
              pid, args.tier, total['n'], len(total['states']),
              total['transitions'], total['traces'], len(fresh),
              time.time() - t0))
    if fresh:
        return 1
    if errors:
        print('HARNESS ERROR\n' + '\n'.join(errors[:3]))
        return 2
    return 0
