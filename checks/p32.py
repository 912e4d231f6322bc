import copy
import io
import itertools
import os
import pickle
import shutil
import tempfile

from segpy.reader import create_reader

from mc.engine import Check
from mc import formats, otherprocess, ref, spaces, sut

SHAPES = {
    '1': dict(lens=[2, 0, 3], geometry=[[1, 1, 1], [1, 1, 1], [1, 1, 2]]),
    '2': dict(lens=[2, 0, 3], geometry=[[1, 1, 5], [1, 1, 9], [1, 1, 6]]),
    '3': dict(lens=[2, 0, 3, 1], geometry=[[1, 1, 1], [1, 2, 1], [2, 1, 1], [2, 2, 1]]),
    '3sparse': dict(lens=[2, 1, 3], geometry=[[1, 7, 1], [9, 2, 1], [4, 4, 1]]),
    'empty': dict(lens=[]),
    'single': dict(lens=[4]),
}
NATURAL = {'1': 1, '2': 2, '3': 3, '3sparse': 3, 'empty': None, 'single': None}
CALLS = ('h', 's', 'm', 'x', 'k', 'e')          # a header, samples, the longest trace, the index, positions in the file
RESTORES = ('p0', 'p2', 'p5', 'copy', 'deep', 'other')
OPS = CALLS + RESTORES
KINDS = {1: 'SegYReader', 2: 'SegYReader2D', 3: 'SegYReader3D'}


class P32(Check):
    id = 'P32'
    technique = 'exhaustive exploration of sequences of reader calls, pickling and restoring, here and in another process, against the reference model'
    level_note = ('Every sequence of up to three (thorough: four) of six kinds of use and six ways of restoring, for readers of every dimensionality, format '
                  'and byte order; every way of opening the file and naming it; every way in which pickling or unpickling must be refused.')
    rule = ('A state is a distinct reader after a sequence; a transition is one operation. A restored reader must be of the same kind, at the same position '
            'of the file, and everything it shows must be what the model of the file dictates; the original must be as it was.')

    other = None

    def setup(self, ctx):
        self.other = otherprocess.OtherProcess()

    def cases(self, tier):
        depth = 4 if tier == 'thorough' else 3
        for n, (shape, fmt, endian) in enumerate(itertools.product(('1', '2', '3'), spaces.FMTS, '<>')):
            for first in OPS:
                yield dict(kind='sequence', shape=shape, fmt=fmt, endian=endian, first=first, depth=depth, dim=None)
        for shape in SHAPES:
            for dim in (None, 1, 2, 3):
                for first in OPS:
                    yield dict(kind='sequence', shape=shape, fmt=3, endian='>', first=first, depth=2, dim=dim)
        for how in ('rb', 'r+b', 'w+b', 'x+b', 'a+b', 'unbuffered', 'unbuffered r+b', 'unbuffered x+b', 'unbuffered a+b', 'wrapped', 'wrapped r+b', 'wrapped x+b', 'temporary', 'bytes', 'relative', 'unicode'):
            for shape in SHAPES:
                yield dict(kind='opened', how=how, shape=shape)
        for shape in SHAPES:
            yield dict(kind='positions', shape=shape)
        for shape in SHAPES:
            for dim in (None, 1, 2, 3):
                yield dict(kind='refused', shape=shape, dim=dim)
                yield dict(kind='two', shape=shape, dim=dim)
        for tf, rf, shape, endian in itertools.product(('rev0', 'rev1', 'user'), ('standard', 'user'), SHAPES, '<>'):
            yield dict(kind='formats', trace=tf, reel=rf, shape=shape, endian=endian)
        for ext, enc, fmt in itertools.product(spaces.EXT, spaces.ENCODINGS, spaces.FMTS):
            yield dict(kind='texts', ext=ext, enc=enc, fmt=fmt)

    def run(self, case, ctx):
        self.dir = tempfile.mkdtemp(dir=ctx.scratch)
        self.opened = []
        before = os.getcwd()
        try:
            getattr(self, 'do_' + case['kind'])(case, ctx)
        finally:
            os.chdir(before)
            for fh in self.opened:
                fh.close()
            shutil.rmtree(self.dir)

    def write(self, m, name='file.segy'):
        path = os.path.join(self.dir, name)
        with open(path, 'wb') as f:
            f.write(m.to_bytes())
        return path

    def open(self, path, mode='rb', **kw):
        fh = open(path, mode, **kw)
        self.opened.append(fh)
        return fh

    def use(self, ctx, reader, op, m):
        n = len(m.traces)
        if op == 'h':
            if n:
                ctx.equal(sut.header_values(reader.trace_header(n - 1)), m.traces[-1][0], 'the last header')
        elif op == 's':
            if n:
                ctx.equal(sut.samples_of(m.fmt, reader.trace_samples(0)), [ref.expected_key(m.fmt, v) for v in m.traces[0][1]], 'the first samples')
        elif op == 'm':
            ctx.equal(reader.max_num_trace_samples(), max((len(s) for _, s in m.traces), default=0), 'the longest trace')
        elif op == 'x':
            sut.observe_index(reader)
        elif op == 'k':
            reader._fh.seek(17)
        elif op == 'e':
            reader._fh.seek(0, 2)

    def restore(self, ctx, reader, op, view, what):
        """A restored reader, the original having been left as it was."""
        fh = reader._fh
        where = fh.tell()
        kind = type(reader)
        if op == 'copy':
            restored = ctx.call(lambda: copy.copy(reader), what)
        elif op == 'deep':
            restored = ctx.call(lambda: copy.deepcopy(reader), what)
        else:
            data = ctx.call(lambda: pickle.dumps(reader, int(op[1]) if op[0] == 'p' else 4), what + ', pickling')
            if op == 'other':
                answer = self.other.ask(data, 4)
                ctx.require(answer is not None, what + ': the other process ended')
                ctx.require(answer[0] == 'ok', what + ': in another process, {}', answer)
                ctx.equal(answer[1], kind.__name__, what + ', kind in another process')
                ctx.equal(answer[2], where, what + ', position of the file in another process')
                ctx.equal(sut.diff(answer[3], view), None, what + ', seen in another process')
                data = answer[4]
            restored = ctx.call(lambda: pickle.loads(data), what + ', unpickling')
        self.opened.append(restored._fh)
        ctx.require(type(restored) is kind, what + ' gave a {}', type(restored))
        ctx.require(restored is not reader and restored._fh is not fh, what + ' gave the same reader')
        ctx.equal(restored._fh.tell(), where, what + ', position of the file')
        ctx.require(not fh.closed and fh.tell() == where, what + ' disturbed the file of the original')
        ctx.require(reader._fh is fh, what + ' gave the original another file')
        ctx.equal(restored._fh.name, fh.name, what + ', name of the file')
        ctx.equal(restored._fh.mode, fh.mode, what + ', mode of the file')
        return restored

    def judge(self, ctx, reader, view, what):
        where = reader._fh.tell()
        ctx.equal(sut.diff(ctx.call(lambda: sut.observe_reader(reader), what), view), None, what)
        reader._fh.seek(where)

    def do_sequence(self, case, ctx):
        m = spaces.build(dict(SHAPES[case['shape']], fmt=case['fmt'], endian=case['endian']))
        path = self.write(m)
        view = sut.expected_view(m, case['dim'])
        cdps_lost = None
        for length in range(case['depth']):
            for rest in itertools.product(OPS, repeat=length):
                ops = (case['first'],) + rest
                if ops[-1] in CALLS and length < case['depth'] - 1:
                    continue    # a prefix of longer sequences
                what = 'sequence {} on {}'.format(ops, case)
                fh = self.open(path)
                original = reader = create_reader(fh, endian=case['endian'], cache_directory=None, dimensionality=case['dim'])
                for op in ops:
                    ctx.transition()
                    if op in CALLS:
                        self.use(ctx, reader, op, m)
                    else:
                        reader = self.restore(ctx, reader, op, view, what)
                self.judge(ctx, reader, view, what)
                if original is not reader:
                    self.judge(ctx, original, view, what + ', the original')
                ctx.state(what)
                ctx.trace()
                while self.opened:
                    self.opened.pop().close()
        ctx.sample(case)

    def do_opened(self, case, ctx):
        m = spaces.build(dict(SHAPES[case['shape']], fmt=2))
        how = case['how']
        view = sut.expected_view(m)
        path = self.write(m, 'ünï cöde.segy' if how == 'unicode' else 'file.segy')
        if how == 'rb' or how == 'unicode':
            fh = self.open(path)
        elif how == 'r+b':
            fh = self.open(path, 'r+b')
        elif how[-3:] in ('w+b', 'x+b', 'a+b'):
            os.remove(path)
            if how.startswith('wrapped'):
                fh = io.BufferedRandom(io.FileIO(path, how[-3:]))
                self.opened.append(fh)
            else:
                fh = self.open(path, how[-3:], buffering=0 if how.startswith('unbuffered') else -1)
            fh.write(m.to_bytes())
            fh.flush()
            fh.seek(0)
        elif how == 'wrapped r+b':
            fh = io.BufferedRandom(io.FileIO(path, 'r+b'))
            self.opened.append(fh)
        elif how == 'temporary':
            fh = tempfile.NamedTemporaryFile(dir=self.dir, delete=False)
            self.opened.append(fh)
            fh.write(m.to_bytes())
            fh.flush()
            fh.seek(0)
            path = fh.name
        elif how == 'unbuffered':
            fh = self.open(path, buffering=0)
        elif how == 'unbuffered r+b':
            fh = self.open(path, 'r+b', buffering=0)
        elif how == 'wrapped':
            fh = io.BufferedReader(io.FileIO(path))
            self.opened.append(fh)
        elif how == 'bytes':
            fh = self.open(os.fsencode(path))
        elif how == 'relative':
            os.chdir(self.dir)
            fh = self.open('file.segy')
        reader = create_reader(fh, cache_directory=None)
        for op in ('p0', 'p1', 'p2', 'p3', 'p4', 'p5') + (('other',) if how != 'relative' else ()):
            what = 'a reader of {} opened {} restored by {}'.format(case['shape'], how, op)
            data = pickle.dumps(reader)
            if op == 'other':
                answer = self.other.ask(data, 4)
                ctx.require(answer is not None and answer[0] == 'ok', what + ': {}', answer)
                ctx.equal(sut.diff(answer[3], view), None, what)
            else:
                where = fh.tell()
                restored = pickle.loads(pickle.dumps(reader, int(op[1])))
                self.opened.append(restored._fh)
                ctx.equal(restored._fh.tell(), where, what + ', position')
                self.judge(ctx, restored, view, what)
            with open(path, 'rb') as f:
                ctx.require(f.read() == m.to_bytes(), what + ': the file was changed')
            ctx.transition()
            ctx.state(what)
            # When the file is gone, none is made
            os.rename(path, path + '.away')
            ctx.raises(TypeError, lambda: pickle.loads(data), what + ' when the file is gone')
            ctx.require(not os.path.exists(path), what + ': a file was made')
            os.rename(path + '.away', path)
        self.judge(ctx, reader, view, 'the original, {}'.format(case))

    def do_positions(self, case, ctx):
        """The file may be anywhere, also beyond its end."""
        m = spaces.build(dict(SHAPES[case['shape']], fmt=2))
        view = sut.expected_view(m)
        path = self.write(m)
        size = len(m.to_bytes())
        powers = [2 ** p + d for p in (7, 8, 15, 16, 31, 32, 40, 62) for d in (-1, 0, 1)]
        for buffering in (-1, 0):
            fh = self.open(path, buffering=buffering)
            reader = create_reader(fh, cache_directory=None)
            for at in sorted({0, 1, 3199, 3200, 3599, 3600, 3601, 3839, 3840, size - 1, size, size + 1} | set(powers)):
                for op in RESTORES:
                    fh.seek(at)
                    what = 'a reader of {} at {} restored by {}'.format(case['shape'], at, op)
                    restored = self.restore(ctx, reader, op, view, what)
                    self.judge(ctx, restored, view, what)
                    ctx.equal(fh.tell(), at, what + ', position of the original')
                    ctx.transition()
                    ctx.state((case, buffering, at, op))
                    self.opened.pop().close()
        ctx.trace()

    def do_refused(self, case, ctx):
        m = spaces.build(dict(SHAPES[case['shape']], fmt=2))
        view = sut.expected_view(m, case['dim'])
        path = self.write(m)
        kw = dict(cache_directory=None, dimensionality=case['dim'])
        for protocol in range(6):
            # No name
            for nameless in (io.BytesIO(m.to_bytes()), open(os.open(path, os.O_RDONLY), 'rb')):
                self.opened.append(nameless)
                reader = create_reader(nameless, **kw)
                ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of a file without a name')
                self.judge(ctx, reader, view, 'a reader refused pickling, {}'.format(case))
                ctx.raises(TypeError, lambda: copy.copy(reader), 'copying a reader of a file without a name')
            # Closed
            fh = self.open(path)
            reader = create_reader(fh, **kw)
            data = pickle.dumps(reader, protocol)
            fh.close()
            ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of a closed file')
            # Gone
            away = path + '.away'
            os.rename(path, away)
            ctx.raises(TypeError, lambda: pickle.loads(data), 'unpickling when the file is gone')
            answer = self.other.ask(data, 4)
            ctx.require(answer is not None and answer[:2] == ('raised', 'TypeError'), 'unpickling elsewhere when the file is gone: {}', answer)
            os.mkdir(path)
            ctx.raises(TypeError, lambda: pickle.loads(data), 'unpickling when there is a directory of that name')
            os.rmdir(path)
            os.rename(away, path)
            # and back
            restored = pickle.loads(data)
            self.opened.append(restored._fh)
            self.judge(ctx, restored, view, 'restored once the file was back')
            ctx.transition(7)
        for version in ('0.0.1', '2.1.1', '99.0', '2.1.0.dev0', '2.1', 'x'):
            old = otherprocess.OtherProcess(version)
            try:
                answer = old.ask(data, 4)
            finally:
                old.close()
            ctx.require(answer is not None and answer[:2] == ('raised', 'TypeError'), 'unpickling in version {}: {}', version, answer)
            ctx.transition()
            if ctx.tier != 'thorough' and case['dim'] is not None:
                break
        ctx.state(case)

    def do_two(self, case, ctx):
        """Restored readers are independent of each other and of the original."""
        m = spaces.build(dict(SHAPES[case['shape']], fmt=3))
        view = sut.expected_view(m, case['dim'])
        path = self.write(m)
        for closing in itertools.permutations(range(3)):
            fh = self.open(path)
            original = create_reader(fh, cache_directory=None, dimensionality=case['dim'])
            data = pickle.dumps(original)
            readers = [original, pickle.loads(data), pickle.loads(data)]
            self.opened.extend(r._fh for r in readers)
            for k, which in enumerate(closing):
                readers[which]._fh.seek(1000 * which)
                for other in closing[k + 1:]:
                    readers[other]._fh.seek(5)
                ctx.equal(readers[which]._fh.tell(), 1000 * which, 'position of one reader\'s file')
                readers[which]._fh.close()
                for other in closing[k + 1:]:
                    self.judge(ctx, readers[other], view, 'closing order {}, {}'.format(closing, case))
                ctx.transition()
            # What is done to the headers of one isn't seen by others
            a = create_reader(self.open(path), cache_directory=None, dimensionality=case['dim'])
            b = pickle.loads(pickle.dumps(a))
            self.opened.append(b._fh)
            b.binary_reel_header.line_num = 99
            self.judge(ctx, a, view, 'after assigning to a header of a restored reader')
            ctx.state((case, closing))

    def do_formats(self, case, ctx):
        kind = 'trace0' if case['trace'] == 'rev0' else 'trace1'
        tf = {'rev0': sut.TRACE_FORMATS['trace0'], 'rev1': sut.TRACE_FORMATS['trace1'], 'user': formats.UserTraceHeader}[case['trace']]
        m = spaces.build(dict(SHAPES[case['shape']], fmt=5, kind=kind, endian=case['endian']))
        path = self.write(m)
        kw = dict(cache_directory=None, trace_header_format=tf, endian=case['endian'])
        if case['reel'] == 'user':
            kw['binary_reel_header_format'] = formats.UserReelHeader
        reader = create_reader(self.open(path), **kw)
        view = sut.expected_view(m)
        if case['reel'] == 'user':
            view['reel']['mine'] = 0
        if case['trace'] == 'user':
            for h in view['headers']:
                h.update(first_of_mine=0, second_of_mine=0)
        for op in ('p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'copy', 'deep', 'other'):
            what = '{} restored by {}'.format(case, op)
            reader = self.restore(ctx, reader, op, view, what)
            self.judge(ctx, reader, view, what)
            ctx.require(type(reader.binary_reel_header) is kw.get('binary_reel_header_format', type(reader.binary_reel_header)), what + ', reel header format')
            for i in range(len(m.traces)):
                ctx.require(type(reader.trace_header(i)) is tf, what + ', trace header format')
            # and its headers
            for h in [reader.binary_reel_header] + [reader.trace_header(i) for i in range(len(m.traces))]:
                for protocol in range(6):
                    again = pickle.loads(pickle.dumps(h, protocol))
                    ctx.require(type(again) is type(h) and sut.header_values(again) == sut.header_values(h), what + ', a header pickled and restored')
            ctx.transition()
            ctx.state(what)

    def do_texts(self, case, ctx):
        m = spaces.build(dict(SHAPES['3'], fmt=case['fmt'], ext=case['ext'], enc=case['enc']))
        path = self.write(m)
        view = sut.expected_view(m)
        for given in (None, case['enc']):
            reader = create_reader(self.open(path), cache_directory=None, encoding=given)
            for op in RESTORES:
                what = '{} restored by {}'.format(case, op)
                reader = self.restore(ctx, reader, op, view, what)
                self.judge(ctx, reader, view, what)
                ctx.equal(sut.write_bytes(reader), m.to_bytes(), what + ', rewritten')
                ctx.transition()
                ctx.state((what, given))


CHECK = P32()
