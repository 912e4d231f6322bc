"""A small bounded-exhaustive explorer for real code.

A check enumerates, deterministically and completely, a bounded space of *cases*: inputs, operation
histories, fault or crash points, or schedules.  Every case is executed against the code in /repo and
compared with an independent reference model.  Nothing is sampled.

The space is partitioned over worker processes (case i goes to worker i mod N), so every worker walks the
same enumeration and the union of what they execute is the whole space.
"""
import array
import hashlib
import itertools
import json
import mmap
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEGPY_MC_REPO', '/repo')
CASE_TIMEOUT_S = 240
CASE_KILL_S = 270  # for a case which can not even be interrupted
CASE_MEMORY_GB = {'quick': 2.5, 'thorough': 5}


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = detail


class Hang(BaseException):
    pass


def short(value, limit=600):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + '...[%d chars]' % len(text)


def digest(key):
    if not isinstance(key, bytes):
        key = repr(key).encode('utf8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'little')


class Context:
    """What a check uses to report what it explored, and to judge what it saw."""

    def __init__(self, known, scratch, tier):
        self.tier = tier
        self.scratch = scratch
        self._known = known
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self._states = set()
        self._nontrivial = set()
        self.samples = []
        self.known_hits = {}
        self.extra = {}

    # -- coverage ---------------------------------------------------------------------------------
    def evaluated(self, n=1):
        self.evaluations += n

    def state(self, key):
        """A distinct state of the model (or of the implementation, as observed)."""
        self._states.add(digest(key))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A complete behaviour of the model was replayed against, and agreed with, the implementation."""
        self.traces += n

    def nontrivial(self, key):
        self._nontrivial.add(digest(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=repr)))

    # -- verdicts ---------------------------------------------------------------------------------
    def fail(self, message, key=None, detail=None):
        """Report a breach.  A breach whose key is a listed known finding is noted and explored past."""
        if key is not None and key in self._known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(message, detail)

    def require(self, condition, message, *args, key=None):
        if not condition:
            self.fail(message.format(*[short(a) for a in args]) if args else message, key)

    def equal(self, actual, expected, what, key=None):
        if not (actual == expected):
            self.fail('{}: expected {}, got {}'.format(what, short(expected), short(actual)), key)

    def raises(self, exc_types, fn, what):
        """fn must raise one of exc_types; returns the exception."""
        try:
            result = fn()
        except exc_types as e:
            return e
        except Exception as e:
            raise Violation('{}: expected {}, but {!r} was raised'.format(what, _names(exc_types), e))
        raise Violation('{}: expected {}, but {} was returned'.format(what, _names(exc_types), short(result)))

    def call(self, fn, what):
        """fn must not raise."""
        try:
            return fn()
        except Exception as e:
            raise Violation('{}: unexpected {!r}'.format(what, e),
                            detail=traceback.format_exc(limit=-6))


def _names(exc_types):
    return '/'.join(t.__name__ for t in (exc_types if isinstance(exc_types, tuple) else (exc_types,)))


def outcome(fn, *excs):
    """The result of fn() as comparable data: ('ok', value) or ('raised', exception-type-name)."""
    try:
        return ('ok', fn())
    except (excs or Exception) as e:
        return ('raised', type(e).__name__)


# --------------------------------------------------------------------------------------------------


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    known = {}
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            entry = json.loads(line)
            if entry.get('kind') == 'finding' and entry['property'] == prop:
                known[entry['key']] = entry
    return known


def _on_alarm(signum, frame):
    raise Hang()


def _repo_frame(tb):
    innermost = None
    while tb is not None:
        filename = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if filename.startswith(REPO + os.sep):
            innermost = '{}:{}'.format(os.path.relpath(filename, REPO), tb.tb_lineno)
        tb = tb.tb_next
    return innermost


def run_one(check, case, ctx):
    """Execute one case.  Returns None, or a dict describing the violation, or raises (a harness error)."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        check.run(case, ctx)
    except Violation as v:
        return {'message': v.message, 'detail': v.detail}
    except Hang:
        return {'message': 'no answer within {} s'.format(CASE_TIMEOUT_S), 'detail': traceback.format_exc(limit=-8)}
    except RecursionError as e:
        return {'message': 'unbounded recursion', 'detail': traceback.format_exc(limit=-8)}
    except Exception as e:
        where = _repo_frame(e.__traceback__)
        if where is None:
            if isinstance(e, (MemoryError, OSError)):
                raise
            # The check's own code met something the code under test never gives while the property holds,
            # such as an object of another type.
            where = 'the check, handling what the code under test gave'
        return {'message': 'unexpected {!r} from {}'.format(e, where), 'detail': traceback.format_exc(limit=-10)}
    finally:
        signal.alarm(0)
    return None


class Watched:
    """A process which tells which case it is running, and is ended if that one takes too long or too much memory."""

    def __init__(self, fn):
        self._shared = memoryview(mmap.mmap(-1, 8)).cast('q')
        self.peak = 0
        self.verdict = None
        self.running(-1)
        self._seen = None       # the case it was last seen running,
        self._elapsed = 0       # for how long,
        self._last = time.monotonic()   # and when
        self.pid = _fork(lambda: fn(self))

    def running(self, index):
        """Called in the process before each case."""
        self._shared[0] = index

    @property
    def index(self):
        return self._shared[0]

    def check(self, tier):
        """Called in the parent now and then.  Only time during which the parent runs too counts."""
        index, now = self.index, time.monotonic()
        self._elapsed = self._elapsed + min(now - self._last, 1) if index == self._seen else 0
        self._seen, self._last = index, now
        used = sum(_rss(pid) for pid in [self.pid] + _children(self.pid))
        self.peak = max(self.peak, used)
        if self._elapsed > CASE_KILL_S:
            self.verdict = 'no answer within {} s'.format(CASE_KILL_S)
        elif used > CASE_MEMORY_GB[tier] * 2 ** 30:
            self.verdict = 'no answer within {} GB of memory'.format(CASE_MEMORY_GB[tier])
        if self.verdict is not None:
            for pid in _children(self.pid) + [self.pid]:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass


def _rss(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * mmap.PAGESIZE
    except (OSError, IndexError):
        return 0


def _children(pid):
    """All descendants of a process."""
    found = []
    try:
        for task in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/children' % (pid, task)) as f:
                for child in map(int, f.read().split()):
                    found.append(child)
                    found.extend(_children(child))
    except OSError:
        pass
    return found


def _watch(processes, tier):
    """Wait for the processes to end."""
    running = list(processes)
    while running:
        for w in list(running):
            pid, status = os.waitpid(w.pid, os.WNOHANG)
            if pid:
                w.status = status
                running.remove(w)
            elif w.verdict is None:
                w.check(tier)
        time.sleep(0.02 if len(running) < len(processes) else 0.1)


def _worker(check, tier, index, jobs, known, scratch, out_path, stop_path, upto, watched):
    result = {'violation': None, 'error': None}
    ctx = Context(known, scratch, tier)
    n = 0
    try:
        check.setup(ctx)
        for i, case in enumerate(check.cases(tier)):
            n = i + 1
            if i % jobs != index:
                continue
            if upto is not None and i > upto:
                break
            if os.path.exists(stop_path):
                result['stopped'] = True
                break
            before = ctx.evaluations
            watched.running(i)
            bad = run_one(check, case, ctx)
            if ctx.evaluations == before:
                ctx.evaluated()
            if bad is not None:
                bad.update(index=i, case=case, worker=index)
                result['violation'] = bad
                with open(stop_path, 'w'):
                    pass
                break
            if upto is not None and i == upto:
                break
    except BaseException as e:
        where = _repo_frame(e.__traceback__) if isinstance(e, Exception) and n == 0 else None
        if where is not None:
            # The code under test failed before any case could be run
            result['violation'] = dict(message='unexpected {!r} from {} in preparing the cases'.format(e, where), index=0, case=None, worker=index,
                                       detail=traceback.format_exc(limit=-10))
        else:
            result['error'] = traceback.format_exc()
    result['cases'] = n
    result['ctx'] = dict(evaluations=ctx.evaluations, transitions=ctx.transitions, traces=ctx.traces,
                         states=array.array('Q', ctx._states).tobytes(),
                         nontrivial=array.array('Q', ctx._nontrivial).tobytes(),
                         samples=ctx.samples, known_hits=ctx.known_hits, extra=ctx.extra)
    with open(out_path, 'wb') as f:
        pickle.dump(result, f)


def _fork(fn):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            fn()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    return pid


def _explore(check, tier, jobs, known, scratch, upto=None, only=None):
    stop_path = os.path.join(scratch, 'stop-%s' % only)
    workers = [only] if only is not None else list(range(jobs))
    processes = []
    for w in workers:
        wdir = os.path.join(scratch, 'w%d' % w)
        os.makedirs(wdir, exist_ok=True)
        out = os.path.join(scratch, 'out%d' % w)
        if os.path.exists(out):
            os.remove(out)
        process = Watched(lambda watched, w=w, wdir=wdir, out=out: _worker(
            check, tier, w, jobs, known, wdir, out, stop_path, upto, watched))
        process.worker, process.out, process.stop = w, out, stop_path
        processes.append(process)
    _watch(processes, tier)
    results = []
    for process in processes:
        if process.verdict is not None and process.index >= 0:
            case = next(itertools.islice(check.cases(tier), process.index, None), None)
            results.append({'error': None, 'cases': process.index + 1, 'peak': process.peak,
                            'violation': dict(message=process.verdict, detail='', index=process.index, case=case, worker=process.worker,
                                              ended=True)})
        elif not os.path.exists(process.out):
            results.append({'error': 'worker %d ended with status %r and no result (%s)' % (process.worker, process.status, process.verdict),
                            'violation': None})
        else:
            with open(process.out, 'rb') as f:
                results.append(dict(pickle.load(f), peak=process.peak))
    return results


def main(check, tier, replay=None, jobs=None):
    prop = check.id
    t0 = time.time()
    jobs = jobs or min(8, max(1, len(os.sched_getaffinity(0))))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(prop)
    shm = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK | os.X_OK) else None
    scratch = tempfile.mkdtemp(prefix='segpymc-%s-' % prop, dir=shm)
    try:
        if replay is not None:
            return _replay(check, replay, known, scratch)
        results = _explore(check, tier, jobs, known, scratch)
        errors = [r['error'] for r in results if r.get('error')]
        violations = sorted((r['violation'] for r in results if r.get('violation')), key=lambda v: v['index'])
        if errors and not violations:
            for e in errors[:1]:
                sys.stdout.write('HARNESS-ERROR property=%s\n%s\n' % (prop, e))
            return 2
        violation = None
        if violations:
            violation = violations[0]
            # What had to be ended once is not tried again
            violation['needs_history'] = not violation.get('ended') and not _confirm(check, violation, known, scratch, tier)
        code = 0
        evidence = _evidence(check, tier, seed, results, time.time() - t0, violation)
        hits = {}
        for r in results:
            for k, n in r.get('ctx', {}).get('known_hits', {}).items():
                hits[k] = hits.get(k, 0) + n
        for k in sorted(known):
            if hits.get(k):
                print('KNOWN-FINDING: property=%s %s [%s; met %d times]' % (prop, known[k]['what'], k, hits[k]))
        if violation is not None:
            path = os.path.join(VERIF, 'evidence', 'replay-%s.json' % prop)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'jobs': jobs, **violation}, f, indent=1, default=repr)
            print('violated: %s' % violation['message'])
            print('case %d: %s' % (violation['index'], short(json.dumps(violation['case'], default=repr), 1500)))
            if violation.get('detail'):
                print(violation['detail'])
            print('replay with: %s %s --replay %s' % (os.path.join(VERIF, 'run.sh'), prop, path))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            code = 1
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        if os.environ.get('SEGPY_MC_VERBOSE'):
            print('greatest memory used by a worker: %d MB' % (max(r.get('peak', 0) for r in results) >> 20))
        print('%s %s: %s in %.1f s' % (prop, tier, _summary(evidence), evidence['wall_s']))
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def unusable(prop, e):
    """The code under test could not be imported."""
    text = ''.join(traceback.format_exception(e))
    where = _repo_frame(e.__traceback__)
    if where is None and isinstance(e, (MemoryError, OSError)):
        print('HARNESS-ERROR property=%s\n%s' % (prop, text))
        return 2
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', 'replay-%s.json' % prop)
    message = 'unexpected {!r} from {} when it was imported'.format(e, where or 'importing the code under test')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'message': message, 'detail': text, 'case': None}, f, indent=1)
    print('violated: %s\n%s' % (message, text))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def _confirm(check, violation, known, scratch, tier):
    """Does the case on its own, in a fresh process, show the violation again?"""
    bad = _alone(check, violation['case'], known, scratch, tier)
    return bad is not None


def _alone(check, case, known, scratch, tier):
    """Run one case in a new process."""
    out = os.path.join(scratch, 'alone')

    def attempt(watched):
        wdir = os.path.join(scratch, 'alone-w')
        os.makedirs(wdir, exist_ok=True)
        ctx = Context(known, wdir, tier)
        check.setup(ctx)
        watched.running(0)
        bad = run_one(check, case, ctx)
        with open(out, 'wb') as f:
            pickle.dump(bad, f)
    process = Watched(attempt)
    _watch([process], tier)
    if process.verdict is not None:
        return {'message': process.verdict, 'detail': ''}
    if not os.path.exists(out):
        return None
    with open(out, 'rb') as f:
        return pickle.load(f)


def _replay(check, path, known, scratch):
    with open(path) as f:
        record = json.load(f)
    if record.get('needs_history'):
        results = _explore(check, record['tier'], record['jobs'], known, scratch,
                           upto=record['index'], only=record['worker'])
        bad = results[0].get('violation')
        if results[0].get('error'):
            print(results[0]['error'])
            return 2
    else:
        bad = _alone(check, record['case'], known, scratch, record['tier'])
    if bad is None:
        print('replay of %s: the property held' % path)
        return 0
    print('violated: %s' % bad['message'])
    if bad.get('detail'):
        print(bad['detail'])
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1


def _evidence(check, tier, seed, results, wall, violation):
    states, nontrivial = set(), set()
    evaluations = transitions = traces = 0
    samples, extra = [], {}
    for r in results:
        c = r.get('ctx')
        if not c:
            continue
        evaluations += c['evaluations']
        transitions += c['transitions']
        traces += c['traces']
        a = array.array('Q')
        a.frombytes(c['states'])
        states.update(a)
        a = array.array('Q')
        a.frombytes(c['nontrivial'])
        nontrivial.update(a)
        for k, n in c['extra'].items():
            extra[k] = extra.get(k, 0) + n
    for k in range(6):
        for r in results:
            s = r.get('ctx', {}).get('samples', [])
            if k < len(s) and len(samples) < 6:
                samples.append(s[k])
    complete = violation is None and not any(r.get('stopped') for r in results)
    cases = max((r.get('cases', 0) for r in results), default=0)
    coverage = {'cases_in_bounded_space': cases, 'exhaustive': complete, 'samples': samples or ['(none)'],
                'rule': check.rule, **extra}
    if check.level == 'model_checking':
        coverage.update(states=len(states), transitions=transitions, traces_validated_against_impl=traces)
    else:
        coverage.update(evaluations=evaluations, distinct_nontrivial=len(nontrivial))
    return {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': coverage,
            'assumptions': list(check.assumptions), 'wall_s': round(wall, 3),
            'violations': 0 if violation is None else 1}


def _summary(evidence):
    c = evidence['coverage']
    return ', '.join('%s=%s' % (k, c[k]) for k in ('cases_in_bounded_space', 'states', 'transitions',
                                                   'traces_validated_against_impl', 'evaluations',
                                                   'distinct_nontrivial') if k in c)


class Check:
    id = None
    level = 'model_checking'
    technique = ''
    level_note = ''
    rule = ''
    assumptions = ()

    def setup(self, ctx):
        pass

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError
