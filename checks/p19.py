import builtins
import errno
import io
import itertools
import os
import pathlib
import pickle
import shutil

from segpy.reader import create_reader

from mc.engine import Check
from mc import spaces, sut

FILES = {
    '3d': dict(fmt=3, lens=[2, 3], ext='one', geometry=[[1, 1, 1], [1, 2, 2]]),
    '2d': dict(fmt=1, lens=[1, 0, 2], geometry=[[1, 1, 3], [1, 1, 2], [1, 1, 1]]),
    'basic': dict(fmt=5, lens=[1, 2], geometry=[[1, 1, 1], [1, 1, 1]]),
}
EXPECTED = {}


def expected(name):
    if name not in EXPECTED:
        m = spaces.build(FILES[name])
        EXPECTED[name] = (m.to_bytes(), sut.expected_view(m))
    return EXPECTED[name]


class Raising:
    """Pickles to something which executes a statement when it is restored."""

    def __init__(self, statement):
        self.statement = statement

    def __reduce__(self):
        return exec, (self.statement,)


class Stale:
    """Pickles to an object of a class restored from a given state."""

    def __init__(self, cls, state):
        self.cls, self.state = cls, state

    def __reduce__(self):
        return object.__new__, (self.cls,), self.state


class FaultPoint(Exception):
    pass


class Injector:
    """Numbers every cache-related system operation made while active, and fails the chosen ones with an OSError.

    Operations on paths below `root` are intercepted at the os / io level, so that it does not matter how the code under
    test reaches them.  With fail_at=None it only records.
    """

    NAMES = ('stat', 'lstat', 'mkdir', 'makedirs', 'unlink', 'remove', 'rename', 'replace', 'open', 'listdir', 'scandir', 'access',
             'fsync', 'link', 'utime', 'chmod')

    def __init__(self, root, seg_y, fail_at=(), error=errno.EACCES, effect='before'):
        self.root = root
        self.seg_y = seg_y
        self.fail_at = frozenset(fail_at)
        self.error = error
        self.effect = effect
        self.log = []
        self.saved = []

    def mine(self, path):
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        return p.startswith(self.root) and p != self.seg_y

    def step(self, what):
        self.log.append(what)
        if len(self.log) - 1 in self.fail_at:
            raise OSError(self.error, os.strerror(self.error), what)

    def wrap(self, fn, name):
        def inner(path, *a, **k):
            if self.mine(path):
                self.step('{} {}'.format(name, os.path.basename(os.fsdecode(path))))
            return fn(path, *a, **k)
        return inner

    def wrap_open(self, fn):
        injector = self

        def inner(path, mode='r', *a, **k):
            if not isinstance(path, int) and injector.mine(path):
                injector.step('open {} {}'.format(os.path.basename(os.fsdecode(path)), mode))
                return FaultyFile(fn(path, mode, *a, **k), injector)
            return fn(path, mode, *a, **k)
        return inner

    def __enter__(self):
        for name in self.NAMES:
            self.saved.append((os, name, getattr(os, name)))
            setattr(os, name, self.wrap(getattr(os, name), name))
        opener = self.wrap_open(io.open)
        for module in (io, builtins):
            self.saved.append((module, 'open', getattr(module, 'open')))
            setattr(module, 'open', opener)
        return self

    def __exit__(self, *exc):
        for module, name, fn in reversed(self.saved):
            setattr(module, name, fn)


class FaultyFile:
    """A cache entry opened through the injector: each read, write, flush and close is a numbered operation."""

    def __init__(self, fh, injector):
        self._fh = fh
        self._injector = injector

    def _step(self, what, partial=None):
        inj = self._injector
        index = len(inj.log)
        if index in inj.fail_at and partial is not None and inj.effect == 'torn':
            partial()
        inj.step(what)

    def read(self, *a):
        self._step('read')
        return self._fh.read(*a)

    def readline(self, *a):
        self._step('readline')
        return self._fh.readline(*a)

    def readinto(self, buf):
        self._step('readinto')
        return self._fh.readinto(buf)

    def write(self, data):
        def torn():
            self._fh.write(bytes(data)[:len(data) // 2])
            self._fh.flush()
        self._step('write', torn)
        return self._fh.write(data)

    def flush(self):
        self._step('flush')
        return self._fh.flush()

    def close(self):
        if not self._fh.closed:
            try:
                # Closing a file which was only read does not fail; one which was written may.
                if self._fh.writable():
                    self._step('close')
            finally:
                self._fh.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._fh, name)

    def __iter__(self):
        return iter(self._fh)

    def __del__(self):
        self._fh.close()


class World:
    def __init__(self, scratch, name, mode):
        self.root = os.path.join(scratch, 'w')
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.name = name
        self.data, self.view = expected(name)
        self.path = os.path.join(self.root, 'file.segy')
        with open(self.path, 'wb') as fh:
            fh.write(self.data)
        self.setting = {'rel': '.segpy', 'nested': 'a/b/c', 'abs': os.path.join(self.root, 'cache')}[mode]
        self.cache = os.path.join(self.root, self.setting)

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def open(self, ctx, what, injector=None):
        ctx.transition()
        with open(self.path, 'rb') as fh:
            try:
                if injector is not None:
                    with injector:
                        reader = create_reader(fh, cache_directory=self.setting)
                else:
                    reader = create_reader(fh, cache_directory=self.setting)
            except Exception as e:
                ctx.fail('{}: create_reader raised {!r}'.format(what, e))
            problem = sut.diff(sut.observe_reader(reader), self.view)
            ctx.require(problem is None, '{}: {}', what, problem)
            try:
                fh.seek(0)
                unharmed = fh.read() == self.data
            except ValueError:
                unharmed = False
            ctx.require(unharmed, '{}: the SEG-Y file was closed or altered', what)
        return reader

    def entry(self):
        names = os.listdir(self.cache) if os.path.isdir(self.cache) else []
        return os.path.join(self.cache, names[0]) if names else None

    def settled(self, ctx, what):
        """Afterwards, without faults, everything works and the entry is good again."""
        self.open(ctx, 'a second opening after ' + what)
        self.open(ctx, 'a third opening after ' + what)


class P19(Check):
    id = 'P19'
    level = 'fault_enumeration'
    technique = 'exhaustive enumeration of crash remnants of a cache entry and of injected OSErrors at every cache operation, on the real code'
    level_note = ('Every prefix of an entry, every byte changed (thorough: in 11 ways, for three files), every run of zeroed 64-byte blocks, stale '
                  'entries of wrong kinds; an OSError (and a torn write) at each single operation, and at every pair of operations, '
                  'of filling, using and discarding an entry. Two faults at most.')
    rule = ('Evaluations are executions of create_reader after or during a distinct damage or fault, each compared with the expected '
            'content, then twice more without the fault. Non-trivial: the damage or fault took effect (a distinct one per key).')

    def cases(self, tier):
        for name in FILES:
            for part in range(16):
                if tier == 'thorough' or name == '3d':
                    yield dict(kind='prefix', file=name, part=part)
                    yield dict(kind='bytes', file=name, part=part)
            yield dict(kind='zeros', file=name)
            yield dict(kind='trailing', file=name)
            yield dict(kind='raising', file=name)
            yield dict(kind='stale', file=name)
        for mode in ('rel', 'nested', 'abs'):
            for state in ('none', 'valid', 'damaged', 'truncated', 'unpicklable', 'dir'):
                for error in (errno.EACCES, errno.ENOSPC, errno.EIO, errno.ENOENT, errno.EEXIST, errno.EROFS):
                    yield dict(kind='faults', file='3d', mode=mode, state=state, error=error)
                yield dict(kind='pairs', file='2d', mode=mode, state=state)
        for mode in ('rel', 'nested', 'abs'):
            for obstacle in ('file', 'file_parent', 'readonly_entry', 'dangling', 'loop', 'entry_dir', 'entry_dir_full', 'empty_name', 'longname'):
                yield dict(kind='obstacle', mode=mode, obstacle=obstacle)

    def run(self, case, ctx):
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.sample(case)

    def damaged(self, w, ctx, entry, content, what, key):
        with open(entry, 'wb') as fh:
            fh.write(content)
        ctx.evaluated()
        ctx.nontrivial(key)
        w.open(ctx, 'opening with ' + what)
        # An entry which could not be restored has been discarded (or replaced): what is there now must be good
        if os.path.exists(entry):
            with open(entry, 'rb') as fh:
                now = fh.read()
            ctx.require(now != content or case_is_harmless(content, self.good), '{}: the entry was neither discarded nor replaced', what)
        w.open(ctx, 'opening again after ' + what)

    def start(self, case, ctx):
        w = World(ctx.scratch, case['file'], 'rel')
        w.open(ctx, 'the first opening')
        entry = w.entry()
        with open(entry, 'rb') as fh:
            self.good = fh.read()
        return w, entry, self.good

    def run_prefix(self, case, ctx):
        w, entry, good = self.start(case, ctx)
        for n in range(len(good)):
            if n % 16 == case['part']:
                self.damaged(w, ctx, entry, good[:n], 'the first {} bytes of {} of an entry'.format(n, len(good)), ('prefix', case['file'], n))
        w.remove()

    def run_bytes(self, case, ctx):
        w, entry, good = self.start(case, ctx)
        masks = (0x11,) if ctx.tier == 'quick' else (1, 2, 4, 8, 16, 32, 64, 128, 255, 0x7f, 0x20)
        for n in range(len(good)):
            if n % 16 != case['part']:
                continue
            for mask in masks:
                bad = good[:n] + bytes([good[n] ^ mask]) + good[n + 1:]
                self.damaged(w, ctx, entry, bad, 'byte {} of an entry xor {:#x}'.format(n, mask), ('byte', case['file'], n, mask))
        w.remove()

    def run_zeros(self, case, ctx):
        """Blocks which never reached the disk."""
        w, entry, good = self.start(case, ctx)
        size = 64
        blocks = range(0, len(good) + size, size)
        for a, b in itertools.combinations(blocks, 2):
            if b - a <= 4 * size or b >= len(good):
                bad = good[:a] + bytes(len(good[a:b])) + good[b:]
                if bad != good:
                    self.damaged(w, ctx, entry, bad, 'bytes {} to {} of an entry zero'.format(a, b), ('zeros', case['file'], a, b))
        w.remove()

    def run_trailing(self, case, ctx):
        w, entry, good = self.start(case, ctx)
        for k, extra in enumerate((b'', b'\0', bytes(512), b'x' * 4096, good, good[:100])):
            if extra:
                self.damaged(w, ctx, entry, good + extra, 'an entry followed by {} bytes'.format(len(extra)), ('trailing', case['file'], k))
            if extra:
                self.damaged(w, ctx, entry, extra + b'!' + good, 'an entry preceded by {} bytes'.format(len(extra)), ('leading', case['file'], k))
        w.remove()

    def run_raising(self, case, ctx):
        """Entries whose pickles are sound, but of something which cannot be restored, for every kind of reason."""
        w, entry, good = self.start(case, ctx)
        for name, cls in sorted(vars(builtins).items()):
            if not (isinstance(cls, type) and issubclass(cls, Exception)):
                continue
            args = {'UnicodeDecodeError': "'ascii', b'x', 0, 1, 'y'", 'UnicodeEncodeError': "'ascii', 'x', 0, 1, 'y'", 'UnicodeTranslateError': "'x', 0, 1, 'y'",
                    'ExceptionGroup': "'x', [ValueError()]", 'BaseExceptionGroup': "'x', [ValueError()]"}.get(name, "'raised by the entry'")
            self.damaged(w, ctx, entry, pickle.dumps(Raising('raise {}({})'.format(name, args))), 'an entry whose restoration raises ' + name,
                         ('raising', case['file'], name))
        self.damaged(w, ctx, entry, pickle.dumps(Raising('class Own(Exception): pass\nraise Own(1, 2)')), 'an entry whose restoration raises an exception of its own',
                     ('raising', case['file'], 'own'))
        w.remove()

    def run_stale(self, case, ctx):
        """Entries made of another state than readers now have: one or two items missing or of another value."""
        w, entry, good = self.start(case, ctx)
        with open(w.path, 'rb') as fh:
            reader = create_reader(fh, cache_directory=None)
            state = reader.__getstate__()
        keys = sorted(k for k in state if k == '__version__' or k.startswith('_file_'))
        changes = {'missing': None, 'none': None, 'text': 'zz', 'path': os.path.join(w.root, 'gone'), 'list': [], 'negative': -5, 'object': {}}
        for n in (1, 2):
            for names in itertools.combinations(keys, n):
                for how in itertools.product(changes, repeat=n):
                    stale = dict(state)
                    for k, h in zip(names, how):
                        stale[k] = changes[h]
                        if h == 'missing':
                            del stale[k]
                    content = pickle.dumps(Stale(type(reader), stale))
                    try:
                        pickle.loads(content)
                    except Exception:
                        what = 'an entry with {}'.format(', '.join('{} {}'.format(k, h) for k, h in zip(names, how)))
                        self.damaged(w, ctx, entry, content, what, ('stale', case['file'], names, how))
        w.remove()

    # -- faults -----------------------------------------------------------------------------------

    def prepared(self, case, ctx):
        w = World(ctx.scratch, case['file'], case['mode'])
        state = case['state']
        if state != 'none':
            w.open(ctx, 'the first opening')
            entry = w.entry()
            with open(entry, 'rb') as fh:
                good = fh.read()
            if state == 'damaged':
                content = good[:200] + b'\0\xff' + good[202:]
            elif state == 'truncated':
                content = good[:len(good) // 2]
            elif state == 'unpicklable':
                content = b''
            else:
                content = good
            if state == 'dir':
                os.remove(entry)
                os.mkdir(entry)
            else:
                with open(entry, 'wb') as fh:
                    fh.write(content)
        return w

    def run_faults(self, case, ctx):
        w = self.prepared(case, ctx)
        dry = Injector(w.root, w.path)
        w.open(ctx, 'a recorded opening', dry)
        n = len(dry.log)
        ctx.require(n > 0 or case['state'] == 'dir', 'no operation was intercepted')
        for k, effect in itertools.product(range(n + 2), ('before', 'torn')):
            w = self.prepared(case, ctx)
            inj = Injector(w.root, w.path, [k], case['error'], effect)
            what = '{} {} (cache {}, entry {}) failing with {}'.format(
                effect if effect == 'torn' else '', dry.log[k] if k < n else 'nothing', case['mode'], case['state'],
                errno.errorcode[case['error']])
            ctx.evaluated()
            if k < n:
                ctx.nontrivial((case['mode'], case['state'], case['error'], k, effect, dry.log[k]))
                ctx.count('operations_failed')
            w.open(ctx, what, inj)
            w.settled(ctx, what)
            w.remove()

    def run_pairs(self, case, ctx):
        w = self.prepared(case, ctx)
        dry = Injector(w.root, w.path)
        w.open(ctx, 'a recorded opening', dry)
        # a fault may lead to more operations than the fault-free run has
        n = len(dry.log) + 8
        for a in range(n):
            for b in range(a + 1, n):
                if ctx.tier == 'quick' and (a + b) % 2:
                    continue
                w = self.prepared(case, ctx)
                inj = Injector(w.root, w.path, [a, b], errno.EIO, 'torn')
                what = 'operations {} and {} failing (cache {}, entry {})'.format(a, b, case['mode'], case['state'])
                ctx.evaluated()
                w.open(ctx, what, inj)
                if b < len(inj.log):
                    ctx.nontrivial((case['mode'], case['state'], a, b, inj.log[a], inj.log[b]))
                # and a fault in the next opening as well
                inj2 = Injector(w.root, w.path, [a], errno.ENOSPC)
                w.open(ctx, 'then operation {} failing again after {}'.format(a, what), inj2)
                w.settled(ctx, what)
                w.remove()
                if b >= len(inj.log):
                    break

    def run_obstacle(self, case, ctx):
        w = World(ctx.scratch, '3d', case['mode'])
        kind = case['obstacle']
        ctx.evaluated()
        ctx.nontrivial((case['mode'], kind))
        if kind == 'file':
            os.makedirs(os.path.dirname(w.cache), exist_ok=True)
            open(w.cache, 'w').close()
        elif kind == 'file_parent':
            w.setting = os.path.join(w.setting, 'below')
            os.makedirs(os.path.dirname(w.cache), exist_ok=True)
            open(w.cache, 'w').close()
        elif kind == 'dangling':
            os.makedirs(os.path.dirname(w.cache), exist_ok=True)
            os.symlink(os.path.join(w.root, 'nowhere'), w.cache)
        elif kind == 'loop':
            os.makedirs(os.path.dirname(w.cache), exist_ok=True)
            os.symlink(w.cache, w.cache)
        elif kind in ('entry_dir', 'entry_dir_full', 'readonly_entry'):
            w.open(ctx, 'the first opening')
            entry = w.entry()
            if kind == 'readonly_entry':
                os.truncate(entry, 10)
                os.chmod(entry, 0)
            else:
                os.remove(entry)
                os.mkdir(entry)
                if kind == 'entry_dir_full':
                    open(os.path.join(entry, 'x'), 'w').close()
        elif kind == 'empty_name':
            w.setting = w.root if case['mode'] == 'abs' else '.'
        elif kind == 'longname':
            w.setting = os.path.join(w.setting, 'x' * 300)
        what = 'cache {}: {}'.format(case['mode'], kind)
        w.open(ctx, what)
        w.settled(ctx, what)
        w.remove()


def case_is_harmless(content, good):
    """Trailing bytes after an intact entry, and damage confined to its check, need not lead to its being discarded."""
    return content.startswith(good[:len(good) - 64]) or content.startswith(good)


CHECK = P19()
