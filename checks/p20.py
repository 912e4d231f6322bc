import builtins
import io
import itertools
import os
import shutil
import sys

from segpy.reader import create_reader

from mc.engine import Check, REPO
from mc import histories, sched, spaces, sut, threads
from mc.zygote import Zygote

FILES = {
    'x': dict(fmt=3, lens=[2, 3], geometry=[[1, 1, 1], [1, 2, 2]]),
    'z': dict(fmt=3, lens=[2, 3], geometry=[[2, 1, 1], [1, 2, 4]], k=11),
    'y': dict(fmt=3, lens=[1, 0, 2], geometry=[[1, 1, 3], [1, 1, 2], [1, 1, 1]], lines=spaces.text_lines(3)),
}
MODELS = {k: spaces.build(v) for k, v in FILES.items()}
DATA = {k: m.to_bytes() for k, m in MODELS.items()}
VIEWS = {k: sut.expected_view(m) for k, m in MODELS.items()}

# (threads: (file, contents, options, openings), cache directory)
SCENARIOS = {
    'same_rel': ([('a.segy', 'x', {}, 1), ('a.segy', 'x', {}, 1)], '.segpy'),
    'same_nested': ([('a.segy', 'x', {}, 1), ('a.segy', 'x', {}, 1)], 'p/q'),
    'same_abs': ([('a.segy', 'y', {}, 1), ('a.segy', 'y', {}, 1)], 'ABS'),
    'copies': ([('a.segy', 'x', {}, 1), ('other_name.segy', 'x', {}, 1)], 'ABS'),
    'encodings': ([('a.segy', 'x', {'encoding': 'ascii'}, 1), ('a.segy', 'x', {}, 1)], '.segpy'),
    'different': ([('a.segy', 'x', {}, 1), ('b.segy', 'y', {}, 1)], '.segpy'),
    'same_size': ([('a.segy', 'x', {}, 1), ('b.segy', 'z', {}, 1)], '.segpy'),
    'twice': ([('a.segy', 'x', {}, 2), ('a.segy', 'x', {}, 1)], '.segpy'),
    'three': ([('a.segy', 'x', {}, 1), ('a.segy', 'x', {}, 1), ('c.segy', 'x', {}, 1)], 'ABS'),
}
STARTS = ('none', 'valid', 'damaged', 'truncated', 'empty', 'renamed')


class Shared:
    """Makes every operation on the cache a scheduling point, and every write and read visible in two steps."""

    NAMES = ('stat', 'mkdir', 'unlink', 'remove', 'rename', 'replace', 'open', 'listdir', 'scandir', 'access', 'link')

    def __init__(self, root):
        self.root = root
        self.saved = []
        self.s = None

    def mine(self, path):
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        return p.startswith(self.root) and not p.endswith('.segy')

    def wrap(self, fn, name):
        def inner(path, *a, **k):
            if self.s is not None and self.mine(path):
                self.s.point(name)
            return fn(path, *a, **k)
        return inner

    def __enter__(self):
        for name in self.NAMES:
            self.saved.append((os, name, getattr(os, name)))
            setattr(os, name, self.wrap(getattr(os, name), name))
        real = io.open

        def opener(path, mode='r', *a, **k):
            if self.s is None or isinstance(path, int) or not self.mine(path) or 'b' not in mode:
                return real(path, mode, *a, **k)
            self.s.point('open ' + mode)
            return SharedFile(real(path, mode, 0), self.s)
        for module in (io, builtins):
            self.saved.append((module, 'open', module.open))
            module.open = opener
        return self

    def __exit__(self, *exc):
        for module, name, fn in reversed(self.saved):
            setattr(module, name, fn)


class SharedFile:
    def __init__(self, raw, s):
        self._raw = raw
        self._s = s

    def write(self, data):
        data = bytes(data)
        if len(data) > 1:
            self._s.point('write')
            self._raw.write(data[:len(data) // 2])
        self._s.point('write on')
        self._raw.write(data[(len(data) // 2 if len(data) > 1 else 0):])
        return len(data)

    def read(self, n=-1):
        self._s.point('read')
        if n is None or n < 0:
            size = os.fstat(self._raw.fileno()).st_size
            first = self._raw.read(size // 2)
            self._s.point('read on')
            return first + self._raw.readall()
        return self._raw.read(n)

    def readinto(self, b):
        self._s.point('readinto')
        return self._raw.readinto(b)

    def readline(self, *a):
        self._s.point('readline')
        return self._raw.readline(*a)

    def close(self):
        if not self._raw.closed:
            self._s.point('close')
            self._raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._raw, name)

    def __iter__(self):
        return iter(self._raw)


class P20(Check):
    id = 'P20'
    level = 'model_checking'
    technique = 'stateless exploration of all preemption-bounded interleavings of real threads under a controlled scheduler'
    level_note = ('Every schedule of 2 or 3 threads with at most 2 (thorough 3; 3-thread 1 and 2) preemptions at cache file-system '
                  'operations, each write and read visible in two steps, and with one (thorough two) at source lines of reader.py, or one at any of segpy in a new process, from six '
                  'starting states of the cache. Operations are sequentially consistent.')
    rule = ('A case is a scenario, a starting state and a first preemption; every schedule extending it is run. States are '
            'distinct schedules, transitions their steps; each call, and later calls with what is left, must give the expected reader.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        for name in SCENARIOS:
            for start in STARTS:
                if start == 'renamed' and name in ('different', 'encodings', 'twice'):
                    continue
                n = len(SCENARIOS[name][0])
                bound = (1 if n == 3 else 2) + thorough
                for part in range(8):
                    yield dict(kind='fs', scenario=name, start=start, bound=bound, part=part)
        for name in ('same_rel', 'copies', 'different', 'same_size'):
            for start in ('none', 'valid', 'damaged'):
                for part in range(8):
                    yield dict(kind='lines', scenario=name, start=start, bound=1 + (thorough and start != 'valid'), part=part)

        for names in ('xx', 'xy', 'xz'):
            for start in ('none', 'valid', 'damaged'):
                for part in range(16):
                    if thorough or start == 'none' or names == 'xx' and start == 'valid':
                        yield dict(kind='cold', names=names, start=start, bound=1, times=1 + thorough, part=part)

    def setup(self, ctx):
        self.prepared = {}
        self.zygote = None
        # Only one thread runs at a time, and switching between them is faster on one processor.
        cpus = sorted(os.sched_getaffinity(0))
        worker = ''.join(filter(str.isdigit, os.path.basename(ctx.scratch)))
        os.sched_setaffinity(0, {cpus[int(worker or 0) % len(cpus)]})

    def world(self, case, ctx):
        """A directory with the files and the cache in its starting state."""
        root = os.path.join(ctx.scratch, 'r')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        threads, cache = SCENARIOS[case['scenario']]
        cache = os.path.join(root, 'cache') if cache == 'ABS' else cache
        start = case['start']
        for f, content, _, _ in threads:
            with open(os.path.join(root, f), 'wb') as fh:
                fh.write(DATA[content])
        key = (case['scenario'], start)
        if start != 'none':
            if key not in self.prepared:
                for f, content, kw, _ in threads:
                    path = os.path.join(root, f)
                    if start == 'renamed':
                        # made when the file had another name, which is gone
                        os.rename(path, path + '.old.segy')
                        path += '.old.segy'
                    with open(path, 'rb') as fh:
                        create_reader(fh, cache_directory=cache, **kw)
                    if start == 'renamed':
                        os.rename(path, os.path.join(root, f))
                made = {}
                for base, _, names in os.walk(root):
                    for n in names:
                        if not n.endswith('.segy'):
                            p = os.path.join(base, n)
                            with open(p, 'rb') as fh:
                                good = fh.read()
                            made[p] = {'valid': good, 'renamed': good, 'empty': b'', 'truncated': good[:len(good) // 2],
                                       'damaged': good[:300] + b'\0\0\xff' + good[303:]}[start]
                            os.remove(p)
                self.prepared[key] = made
            for p, content in self.prepared[key].items():
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as fh:
                    fh.write(content)
        return root, threads, cache

    def run_cold(self, case, ctx):
        """Preemption at any source line of segpy, in a process which has not yet used any of it."""
        if self.zygote is None:
            self.zygote = Zygote('mc.threads')
        views = {n: sut.expected_view(spaces.build(spec)) for n, spec in threads.CACHED.items()}
        names = case['names']

        def execute(prefix):
            answer = self.zygote.ask('mc.threads', 'cached', list(names), prefix, case['bound'], case['times'], case['start'], ctx.scratch)
            what = 'opening {} at once, cache initially {}'.format(list(names), case['start'])
            if answer[0] != 'ok':
                ctx.fail('{}: {}'.format(what, answer[1:]))
            results, later, again, decisions, log = answer[1]
            what += ', switching at {}'.format([log[k] for k in range(1, len(log)) if log[k][0] != log[k - 1][0]])
            for n, (status, value), once_more in zip(names, results, again):
                ctx.require(status == 'ok', '{}: raised {}', what, value)
                for view in (value, once_more):
                    problem = sut.diff(view, views[n])
                    ctx.require(problem is None, '{}: {}', what, problem)
            s = sched.Scheduler(prefix, case['bound'])
            s.decisions = decisions
            ctx.transition(len(decisions))
            ctx.state((names, case['start'], 'cold', tuple(d[1] for d in decisions)))
            ctx.trace()
            ctx.count('schedules')
            return s
        roots = []
        for first in (0, 1):
            roots += sched.alternatives(execute([first]), 1)
        todo = [r for k, r in enumerate(roots) if k % 16 == case['part']]
        while todo:
            prefix = todo.pop()
            todo += sched.alternatives(execute(prefix), len(prefix))

    def run(self, case, ctx):
        if case['kind'] == 'cold':
            return self.run_cold(case, ctx)
        self.sizes = 0
        # The schedules which start with each thread and then let every thread run to its end without preemption are the
        # roots; the alternatives to them are shared out between the parts of a case.
        roots = []
        for n in range(len(SCENARIOS[case['scenario']][0])):
            first = sched.Scheduler([n], case['bound'])
            self.execute(case, ctx, first)
            roots += sched.alternatives(first, 1)
        mine = [r for k, r in enumerate(roots) if k % 8 == case['part']]
        n = sched.explore(lambda s: self.execute(case, ctx, s), case['bound'], mine) if mine else 0
        ctx.count('schedules', n)
        ctx.sample(dict(case, schedule=[list(x) for x in first.log][:40]))

    def execute(self, case, ctx, s):
        root, threads, cache = self.world(case, ctx)
        shared = Shared(root)
        files = []

        def body(f, content, kw, times):
            def go():
                out = []
                for _ in range(times):
                    fh = open(os.path.join(root, f), 'rb')
                    files.append(fh)
                    out.append(create_reader(fh, cache_directory=cache, **kw))
                return out
            if case['kind'] != 'lines':
                return go

            def traced():
                def on_line(frame, event, arg):
                    if event == 'line':
                        s.point('{}:{}'.format(frame.f_code.co_name, frame.f_lineno))
                    return on_line

                def on_call(frame, event, arg):
                    return on_line if frame.f_code.co_filename.endswith('segpy/reader.py') else None
                sys.settrace(on_call)
                try:
                    return go()
                finally:
                    sys.settrace(None)
            return traced

        with shared:
            if case['kind'] == 'fs':
                shared.s = s
            results = s.run([body(*t) for t in threads])
            shared.s = None
        what = 'scenario {}, cache initially {}, schedule {}'.format(case['scenario'], case['start'], s.log[:120])
        for (f, content, kw, times), (status, value) in zip(threads, results):
            if status == 'raised':
                ctx.fail('create_reader({}) raised {!r}; {}'.format(f, value, what))
            for reader in value:
                problem = sut.diff(sut.observe_reader(reader), VIEWS[content])
                ctx.require(problem is None, 'the reader of {}: {}; {}', f, problem, what)
        for fh in files:
            ctx.require(not fh.closed, 'the file given was closed; {}', what)
            fh.close()
        for again in range(1 if ctx.tier == 'quick' else 2):
            for f, content, kw, _ in {t[0]: t for t in threads}.values() if case['scenario'] != 'encodings' else threads:
                with open(os.path.join(root, f), 'rb') as fh:
                    try:
                        reader = create_reader(fh, cache_directory=cache, **kw)
                    except Exception as e:
                        ctx.fail('a later create_reader({}) raised {!r}; {}'.format(f, e, what))
                    problem = sut.diff(sut.observe_reader(reader), VIEWS[content])
                    ctx.require(problem is None, 'a later reader of {}: {}; {}', f, problem, what)
        ctx.transition(len(s.log))
        ctx.state((case['scenario'], case['start'], case['kind'], tuple(d[1] for d in s.decisions)))
        ctx.trace()
        if s.stuck:
            ctx.count('threads_blocked_on_locks', s.stuck)


CHECK = P20()
