import errno
import io
import itertools
import os
import shutil

from segpy.reader import create_reader
from segpy.toolkit import catalog_traces
from segpy.trace_header import TraceHeaderRev1
from segpy.writer import write_segy

from mc.engine import Check
from mc import ref, spaces, sut

FILES = {
    'small': dict(fmt=3, lens=[2]),
    'lines': dict(fmt=2, lens=[2, 0, 3], geometry=[[1, 1, 5], [1, 2, 5], [2, 1, 6]], endian='<'),
    'cdps': dict(fmt=1, lens=[1, 2], geometry=[[1, 1, 7], [1, 1, 8]], enc='cp037'),
    'plain': dict(fmt=8, lens=[3, 1], geometry=[[1, 1, 7], [1, 1, 7]]),
    'rev0': dict(fmt=5, kind='trace0', lens=[1, 2]),
    'paged': dict(fmt=5, ext='two', lens=[2, 1]),
    'ended': dict(fmt=3, ext='end', lens=[1], enc='cp037'),
    'empty': dict(fmt=3, lens=[]),
    'guessed': dict(fmt=3, lens=[2, 1], enc='cp037', guess=True),
    'guessed_ascii': dict(fmt=8, lens=[1], endian='<', guess=True),
}


class Fault(OSError):
    pass


class Failing:
    """A file, whose calls with the numbers given fail."""
    calls = 0
    failing = {}
    log = ()

    def arm(self, *numbers, torn=False, error=None):
        self.calls = 0
        self.failing = {n: torn for n in numbers}
        self.error = error or Fault(errno.EIO, 'injected')
        self.log = []
        self.raised = 0

    def _point(self, name, partial=None):
        n = self.calls
        self.calls += 1
        self.log.append(name)
        if n in self.failing:
            if self.failing[n] and partial is not None:
                partial()
            self.raised += 1
            raise self.error

    def read(self, *a):
        self._point('read')
        return super().read(*a)

    def readinto(self, b):
        self._point('readinto')
        return super().readinto(b)

    def seek(self, *a):
        self._point('seek')
        return super().seek(*a)

    def tell(self):
        self._point('tell')
        return super().tell()

    def write(self, data):
        plain = super().write
        self._point('write', lambda: plain(bytes(data)[:len(data) // 2]))
        return plain(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)


class Faulty(Failing, io.BytesIO):
    def __init__(self, data=b''):
        super().__init__(data)
        self.arm()


class FaultyFile(Failing, io.FileIO):
    def __init__(self, path):
        super().__init__(path, 'rb')
        self.arm()


ERRORS = {'io': lambda: Fault(errno.EIO, 'injected'), 'space': lambda: Fault(errno.ENOSPC, 'injected'),
          'missing': lambda: FileNotFoundError(errno.ENOENT, 'injected'), 'busy': lambda: BlockingIOError(errno.EAGAIN, 'injected'),
          'eof': lambda: ConnectionResetError(errno.ECONNRESET, 'injected'), 'perm': lambda: PermissionError(errno.EPERM, 'injected'),
          'timeout': lambda: TimeoutError(errno.ETIMEDOUT, 'injected')}


class DatasetError(Exception):
    pass


class Bad(sut.MemDataset):
    """A dataset of which one use fails."""

    def __init__(self, model, failing=None, error=None):
        super().__init__(model)
        self.uses = 0
        self.failing = failing
        self.error = error

    def _use(self):
        self.uses += 1
        if self.uses - 1 == self.failing:
            raise self.error

    @property
    def textual_reel_header(self):
        self._use()
        return self._lines()

    def _lines(self):
        for line in super().textual_reel_header:
            yield line

    @property
    def binary_reel_header(self):
        self._use()
        return super().binary_reel_header

    @property
    def extended_textual_header(self):
        self._use()
        return super().extended_textual_header

    def num_traces(self):
        self._use()
        return super().num_traces()

    def trace_indexes(self):
        self._use()
        for i in range(len(self._m.traces)):
            self._use()
            yield i

    def trace_header(self, i):
        self._use()
        return super().trace_header(i)

    def trace_samples(self, i, start=None, stop=None):
        self._use()
        return super().trace_samples(i, start, stop)


class P22(Check):
    id = 'P22'
    level = 'fault_enumeration'
    technique = 'exhaustive fault injection at every call on the file object, the dataset and the callback, with retries'
    level_note = ('Every single failing call of each operation on 10 files, with seven kinds of OSError and whole or torn writes, pairs of '
                  'faults over an operation and its retry, of opening with a cache, and every dataset member use and callback call failing; thorough also every '
                  'operation following every faulted one.')
    rule = ('An evaluation is one operation with one fault (or pair) at one call: non-trivial if the fault was met. The error must be '
            'the one raised to the caller, output a prefix of the file, and repeating must give the right result.')

    def cases(self, tier):
        for name in FILES:
            for op in ('open', 'header', 'samples', 'part', 'all', 'copy_in', 'copy_out', 'write', 'catalog'):
                for err in ERRORS:
                    yield dict(kind='io', file=name, op=op, error=err)
                if tier == 'thorough':
                    for then in ('header', 'samples', 'part', 'all', 'copy_in'):
                        yield dict(kind='then', file=name, op=op, then=then)
            for op in ('open', 'all', 'write', 'copy_in'):
                for part in range(4):
                    yield dict(kind='retry', file=name, op=op, part=part)
            for error in ('DatasetError', 'OSError', 'ValueError', 'KeyError', 'StopIteration', 'RuntimeError', 'EOFError', 'TypeError'):
                yield dict(kind='dataset', file=name, error=error)
                yield dict(kind='callback', file=name, error=error)
            for state in ('cold', 'warm', 'damaged'):
                for err in ERRORS:
                    yield dict(kind='cached', file=name, state=state, error=err)

    def run(self, case, ctx):
        m = spaces.build(FILES[case['file']])
        self.m, self.data = m, m.to_bytes()
        self.kw = dict(encoding=None if FILES[case['file']].get('guess') else m.encoding, endian=m.endian, trace_header_format=sut.TRACE_FORMATS[m.kind])
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def opened(self, fh=None):
        fh = Faulty(self.data) if fh is None else fh
        fh.arm()
        return fh, create_reader(fh, cache_directory=None, **self.kw)

    def operation(self, op, fh=None, reader=None):
        """(file to fault, the operation, a judge of its result, a way of getting ready to repeat)"""
        m = self.m
        n = len(m.traces)
        if op == 'open':
            fh = fh or Faulty(self.data)
            return fh, lambda: create_reader(fh, cache_directory=None, **self.kw), self.judge_reader, lambda: io.BytesIO.seek(fh, 0)
        if op == 'catalog':
            fh = fh or Faulty(self.data)
            start = ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES
            io.BytesIO.seek(fh, start)
            run = lambda: [None if c is None else dict(c.items()) for c in catalog_traces(
                fh, ref.FORMATS[m.fmt][2], self.kw['trace_header_format'], m.endian)]
            return fh, run, self.judge_catalog, lambda: io.BytesIO.seek(fh, start)
        if op == 'write':
            out = fh or Faulty()
            ds = sut.MemDataset(m)

            def again():
                io.BytesIO.seek(out, 0)
                out.truncate()
            return out, lambda: write_segy(out, ds, **self.kw), lambda ctx, r, what: ctx.equal(out.getvalue(), self.data, what), again
        if reader is None:
            fh, reader = self.opened()
        if op in ('copy_in', 'copy_out'):
            out = Faulty()
            out.arm()

            def again():
                io.BytesIO.seek(out, 0)
                out.truncate()
            return ((fh if op == 'copy_in' else out), lambda: write_segy(out, reader, **self.kw),
                    lambda ctx, r, what: ctx.equal(out.getvalue(), self.data, what), again)
        run = {'header': lambda: [sut.header_values(reader.trace_header(i)) for i in range(n)],
               'samples': lambda: [sut.samples_of(m.fmt, reader.trace_samples(i)) for i in range(n)],
               'part': lambda: [sut.samples_of(m.fmt, reader.trace_samples(i, len(m.traces[i][1]) // 2)) for i in range(n)],
               'all': lambda: sut.observe_reader(reader)}[op]
        key = lambda s: [ref.expected_key(m.fmt, v) for v in s]
        want = {'header': lambda: [h for h, _ in m.traces], 'samples': lambda: [key(s) for _, s in m.traces],
                'part': lambda: [key(s[len(s) // 2:]) for _, s in m.traces]}
        if op == 'all':
            judge = lambda ctx, r, what: self.judge_view(ctx, r, what)
        else:
            judge = lambda ctx, r, what: ctx.equal(r, want[op](), what)
        return fh, run, judge, lambda: None

    def judge_view(self, ctx, view, what):
        d = sut.diff(view, sut.expected_view(self.m))
        ctx.require(d is None, what + ': {}', d)

    def judge_reader(self, ctx, reader, what):
        self.judge_view(ctx, sut.observe_reader(reader), what)

    def judge_catalog(self, ctx, catalogs, what):
        m = self.m
        offsets, _ = m.offsets()
        geometry, index = ref.survey(m.traces, m.kind == 'trace1')
        n = len(m.traces)
        ctx.equal(catalogs[0], dict(enumerate(offsets)) if n else catalogs[0] and {}, what + ', offsets')
        ctx.equal(catalogs[1], {i: len(s) for i, (_, s) in enumerate(m.traces)} if n else catalogs[1] and {}, what + ', lengths')
        if n:
            if geometry == 3:
                ctx.equal(catalogs[3], index, what + ', lines')
            else:
                ctx.equal(catalogs[3], None, what + ', lines')
            if geometry == 2:
                ctx.equal(catalogs[2], index, what + ', cdps')

    def calls_of(self, ctx, op, what):
        fh, run, judge, again = self.operation(op)
        fh.arm()
        result = ctx.call(run, what + ' without a fault')
        calls = list(fh.log)
        fh.arm()
        judge(ctx, result, what + ' without a fault')
        return calls

    def faulted(self, ctx, fh, run, error, what):
        """The operation must fail, with the injected error."""
        try:
            result = run()
        except Exception as e:
            chain = []
            x = e
            while x is not None and x not in chain:
                chain.append(x)
                x = x.__cause__ or x.__context__
            ctx.require(error in chain and isinstance(e, OSError), what + ' raised {} instead of the error', e)
        else:
            ctx.fail('{} returned {} in spite of the error'.format(what, type(result).__name__))

    def written(self, ctx, fh, op, what):
        if op in ('write', 'copy_out') or op == 'copy_in':
            out = fh.getvalue()
            ctx.require(self.data.startswith(out), what + ' left {} bytes which are not the beginning of the file', len(out))

    def do_io(self, case, ctx):
        op = case['op']
        calls = self.calls_of(ctx, op, op)
        for n, name in enumerate(calls):
            for torn in ((False, True) if name == 'write' else (False,)):
                ctx.evaluated()
                what = '{} of {} with {} at call {} ({}{})'.format(op, case['file'], case['error'], n, name, ', torn' if torn else '')
                fh, run, judge, again = self.operation(op)
                error = ERRORS[case['error']]()
                fh.arm(n, torn=torn, error=error)
                self.faulted(ctx, fh, run, error, what)
                ctx.nontrivial((case['file'], op, case['error'], n, torn))
                if op in ('write', 'copy_out'):
                    self.written(ctx, fh, op, what)
                fh.arm()
                again()
                judge(ctx, ctx.call(run, 'repeating ' + what), 'repeating ' + what)
        ctx.count('fault_points', len(calls))
        ctx.sample(dict(case, calls=calls[:12]))

    def do_retry(self, case, ctx):
        """A fault, then another while repeating, then none."""
        op = case['op']
        calls = self.calls_of(ctx, op, op)
        for i, (a, b) in enumerate(itertools.product(range(len(calls)), repeat=2)):
            if i % 4 != case['part']:
                continue
            ctx.evaluated()
            what = '{} of {} with faults at call {} and, repeated, at call {}'.format(op, case['file'], a, b)
            fh, run, judge, again = self.operation(op)
            for n in (a, b):
                error = Fault(errno.EIO, 'injected')
                fh.arm(n, error=error)
                self.faulted(ctx, fh, run, error, what)
                if op == 'write':
                    self.written(ctx, fh, op, what)
                fh.arm()
                again()
            judge(ctx, ctx.call(run, 'repeating ' + what), 'repeating ' + what)
            ctx.nontrivial((case['file'], op, a, b))

    def do_then(self, case, ctx):
        """A fault in one operation must not disturb a different one after it."""
        if case['op'] in ('open', 'write', 'catalog', 'copy_out'):
            return
        fh, reader = self.opened()
        f, run, judge, again = self.operation(case['op'], fh, reader)
        f.arm()
        run()
        n = len(f.log)
        for k in range(n):
            for torn in (False, True):
                ctx.evaluated()
                what = '{} after {} of {} failed at call {}'.format(case['then'], case['op'], case['file'], k)
                fh, reader = self.opened()
                f, run, judge, again = self.operation(case['op'], fh, reader)
                error = Fault(errno.EIO, 'injected')
                f.arm(k, error=error)
                self.faulted(ctx, f, run, error, what)
                fh.arm()
                f, run, judge, again = self.operation(case['then'], fh, reader)
                judge(ctx, ctx.call(run, what), what)
                ctx.nontrivial((case['file'], case['op'], case['then'], k))

    def do_cached(self, case, ctx):
        """A fault of the caller's file while it is opened with a cache: the error is raised, or the reader is right all the same."""
        root = os.path.join(ctx.scratch, 'cached')
        os.makedirs(root)
        try:
            path = os.path.join(root, 'file.segy')
            with open(path, 'wb') as f:
                f.write(self.data)
            cache = os.path.join(root, 'cache')

            def prepare():
                shutil.rmtree(cache, ignore_errors=True)
                if case['state'] != 'cold':
                    with open(path, 'rb') as f:
                        create_reader(f, cache_directory=cache, **self.kw)
                if case['state'] == 'damaged':
                    for name in os.listdir(cache):
                        os.truncate(os.path.join(cache, name), 100)

            def attempt(fh):
                return create_reader(fh, cache_directory=cache, **self.kw)
            prepare()
            with FaultyFile(path) as fh:
                fh.arm()
                self.judge_reader(ctx, ctx.call(lambda: attempt(fh), 'opening with a cache'), 'opening with a cache')
            prepare()
            with FaultyFile(path) as fh:
                fh.arm()
                attempt(fh)
                calls = fh.calls
            for n in range(calls):
                ctx.evaluated()
                prepare()
                error = ERRORS[case['error']]()
                what = 'opening {} with a {} cache with a fault at call {}'.format(case['file'], case['state'], n)
                with FaultyFile(path) as fh:
                    fh.arm(n, error=error)
                    try:
                        reader = attempt(fh)
                    except Exception as e:
                        ctx.require(e is error, what + ' raised {!r} instead', e)
                    else:
                        self.judge_reader(ctx, reader, what)
                    fh.arm()
                    fh.seek(0)
                    self.judge_reader(ctx, ctx.call(lambda: attempt(fh), 'repeating ' + what), 'repeating ' + what)
                with open(path, 'rb') as f:
                    self.judge_reader(ctx, ctx.call(lambda: attempt(f), 'once more after ' + what), 'once more after ' + what)
                ctx.nontrivial((case['file'], 'cached', case['state'], case['error'], n))
        finally:
            shutil.rmtree(root)

    def do_dataset(self, case, ctx):
        make = (lambda: DatasetError('injected')) if case['error'] == 'DatasetError' else (
            lambda: getattr(__import__('builtins'), case['error'])('injected'))
        clean = Bad(self.m)
        ctx.equal(sut.write_bytes(clean, **self.kw), self.data, 'writing without a fault')
        for n in range(clean.uses):
            ctx.evaluated()
            error = make()
            ds = Bad(self.m, n, error)
            what = 'writing {} where use {} of the dataset raises {}'.format(case['file'], n, case['error'])
            out = io.BytesIO()
            try:
                write_segy(out, ds, **self.kw)
            except Exception as e:
                # (a generator can't let a StopIteration out)
                ctx.require(e is error or isinstance(e, RuntimeError) and e.__cause__ is error, what + ' raised {} instead', e)
            else:
                ctx.fail(what + ' returned')
            ctx.require(self.data.startswith(out.getvalue()), what + ' wrote {} wrong bytes', len(out.getvalue()))
            ctx.nontrivial((case['file'], 'dataset', case['error'], n))
            out = io.BytesIO()
            ctx.call(lambda: write_segy(out, ds, **self.kw), 'repeating ' + what)
            ctx.equal(out.getvalue(), self.data, 'repeating ' + what)

    def do_callback(self, case, ctx):
        make = (lambda: DatasetError('injected')) if case['error'] == 'DatasetError' else (
            lambda: getattr(__import__('builtins'), case['error'])('injected'))
        m = self.m

        def opening(progress):
            r = create_reader(io.BytesIO(self.data), cache_directory=None, progress=progress, **self.kw)
            return sut.diff(sut.observe_reader(r), sut.expected_view(m))

        def writing(progress):
            out = io.BytesIO()
            try:
                write_segy(out, sut.MemDataset(m), progress=progress, **self.kw)
            finally:
                ctx.require(self.data.startswith(out.getvalue()), 'writing with a failing callback wrote {} wrong bytes', len(out.getvalue()))
            return None if out.getvalue() == self.data else 'wrong bytes'

        def cataloguing(progress):
            fh = io.BytesIO(self.data)
            fh.seek(ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES)
            got = catalog_traces(fh, ref.FORMATS[m.fmt][2], self.kw['trace_header_format'], m.endian, progress)
            return None if len(m.traces) == 0 or len(got[0]) == len(m.traces) else 'wrong catalogue'

        for name, fn in (('opening', opening), ('writing', writing), ('cataloguing', cataloguing)):
            calls = []
            ctx.equal(ctx.call(lambda: fn(calls.append), name), None, name)
            for n in range(len(calls)):
                ctx.evaluated()
                error = make()
                left = [n]

                def progress(p):
                    left[0] -= 1
                    if left[0] == -1:
                        raise error
                what = '{} {} where call {} of the callback raises {}'.format(name, case['file'], n, case['error'])
                try:
                    fn(progress)
                except Exception as e:
                    ctx.require(e is error, what + ' raised {} instead', e)
                else:
                    ctx.fail(what + ' returned')
                ctx.nontrivial((case['file'], name, case['error'], n))
                ctx.equal(ctx.call(lambda: fn(None), 'repeating ' + what), None, 'repeating ' + what)


CHECK = P22()
