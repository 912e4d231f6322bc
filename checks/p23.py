import io
import itertools
import os
import shutil

from segpy.reader import create_reader
from segpy.toolkit import catalog_traces
from segpy.writer import write_segy

from mc.engine import Check
from mc import ref, spaces, sut

BAD = {'zero': 0, 'string': 'progress', 'list': [], 'object': object(), 'bytes': b'', 'true': True, 'false': False, 'tuple': (),
       'dict': {}, 'float': 0.5}


class Ordered(sut.MemDataset):
    def __init__(self, model, order):
        super().__init__(model)
        self._order = order

    def trace_indexes(self):
        return iter(self._order)


class Collector:
    """A callback, which is also checked to be usable as one in a boolean context and returns something odd."""

    def __init__(self, answer):
        self.values = []
        self.answer = answer

    def __bool__(self):
        return False

    def __call__(self, p):
        self.values.append(p)
        return self.answer


class P23(Check):
    id = 'P23'
    technique = 'bounded-exhaustive execution over files, truncations, trace orders and cache states, monitoring every callback value'
    level_note = ('Every vector of up to four trace lengths (thorough five) in every format and page arrangement, 0 to 64 traces and more, '
                  'every truncation point of two files, over-long claims, every order of up to four traces, each cache state.')
    rule = ('A state is a distinct sequence of progress values; a transition is one callback. Each must lie in [0, 1] and not be less '
            'than the one before, the last must be 1, and the result must be the same as without a callback.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        for fmt, ext in itertools.product(spaces.FMTS, spaces.EXT):
            for lens in spaces.length_vectors(5 if thorough else 4, (0, 1, 3) if thorough else (0, 2)):
                yield dict(kind='file', spec=dict(fmt=fmt, ext=ext, lens=list(lens)))
        for n in list(range(65)) + [99, 100, 101, 255, 256, 257, 1000] + ([3000, 10000] if thorough else []):
            for lens in ([1] * n, [n] * 3, [n % 7, 2 * n, 1]):
                for kind in spaces.KINDS:
                    yield dict(kind='file', spec=dict(fmt=8, lens=lens, kind=kind))
        for geometry in ([[1, 1, 1], [1, 1, 2]], [[1, 1, 1], [1, 1, 1]], [[2, 1, 1], [1, 2, 1]]):
            yield dict(kind='file', spec=dict(fmt=5, lens=[2, 2], geometry=geometry))
        for claim in (1, 2, 3, 5, 100, 1000, 32767):
            for fmt in spaces.FMTS:
                for at in range(3):
                    yield dict(kind='claim', spec=dict(fmt=fmt, lens=[1, 1, 1]), at=at, claim=claim)
        for spec in (dict(fmt=3, lens=[3, 0, 2]), dict(fmt=1, lens=[1], ext='one')):
            for part in range(4):
                yield dict(kind='cut', spec=spec, part=part)
        for n in range(5):
            for order in itertools.permutations(range(n)):
                yield dict(kind='order', n=n, order=list(order))
        for n in range(5):
            for count in range(n):
                for order in itertools.permutations(range(n), count):
                    yield dict(kind='order', n=n, order=list(order))
        for n in (10, 64, 100, 1000):
            for order in ([], [0], [n - 1], list(range(n - 1)), list(range(0, n, 2)), list(range(n // 2, n)), list(range(n - 1, 0, -3))):
                yield dict(kind='order', n=n, order=order)
        for name in BAD:
            yield dict(kind='bad', bad=name)
        for spec in (dict(fmt=3, lens=[3, 0, 2]), dict(fmt=1, lens=[]), dict(fmt=1, lens=[1], ext='end')):
            for first in (False, True):
                yield dict(kind='cache', spec=spec, first=first)

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def judge(self, ctx, values, what, final=True):
        ctx.transition(len(values))
        ctx.state(tuple(values))
        ctx.evaluated()
        for a in values:
            ctx.require(isinstance(a, (int, float)) and 0 <= a <= 1, '{}: progress of {}', what, a)
        for a, b in zip(values, values[1:]):
            ctx.require(a <= b, '{}: progress goes from {} to {}', what, a, b)
        ctx.require(values and values[-1] == 1, '{}: progress ends with {}', what, values[-1:])
        ctx.trace()

    def all_operations(self, ctx, m, data, what, complete=True):
        kind = sut.TRACE_FORMATS[m.kind]
        kw = dict(encoding=m.encoding, endian=m.endian, trace_header_format=kind)
        for answer in (None, True):
            views = []
            for progress in (None, Collector(answer)):
                r = ctx.call(lambda: create_reader(io.BytesIO(data), cache_directory=None, progress=progress, **kw), what)
                seen = sut.observe_index(r)
                seen.update(n=r.num_traces(), lengths=[r.num_trace_samples(i) for i in range(r.num_traces())])
                if complete:
                    seen.update(headers=[sut.header_values(r.trace_header(i)) for i in range(r.num_traces())])
                views.append(seen)
            self.judge(ctx, progress.values, 'reading ' + what)
            ctx.equal(views[1], views[0], 'what is read from {} with a callback'.format(what))
            start = ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES
            found = []
            for progress in (None, Collector(answer)):
                fh = io.BytesIO(data)
                fh.seek(start)
                cats = catalog_traces(fh, ref.FORMATS[m.fmt][2], kind, m.endian, progress)
                found.append([None if c is None else dict(c.items()) for c in cats])
            self.judge(ctx, progress.values, 'cataloguing ' + what)
            ctx.equal(found[1], found[0], 'the catalogues of {} with a callback'.format(what))
            if not complete:
                continue
            for source in (sut.MemDataset(m), r):
                progress = Collector(answer)
                out = io.BytesIO()
                write_segy(out, source, progress=progress, **kw)
                self.judge(ctx, progress.values, 'writing ' + what)
                ctx.require(out.getvalue() == data, 'the bytes written differ when there is a callback, for ' + what)

    def do_file(self, case, ctx):
        m = spaces.build(case['spec'])
        self.all_operations(ctx, m, m.to_bytes(), repr(case['spec'])[:80])
        ctx.sample(case)

    def do_claim(self, case, ctx):
        m = spaces.build(case['spec'])
        m.traces[case['at']][0]['num_samples'] = case['claim']
        self.all_operations(ctx, m, m.to_bytes(), repr(case), complete=False)

    def do_cut(self, case, ctx):
        m = spaces.build(case['spec'])
        data = m.to_bytes()
        start = ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES
        for n in range(start + case['part'], len(data) + 1, 4):
            self.all_operations(ctx, m, data[:n], '{} bytes of {}'.format(n, case['spec']), complete=False)

    def do_order(self, case, ctx):
        m = spaces.build(dict(fmt=3, lens=[2] * case['n']))
        want = m.replaced(traces=[m.traces[i] for i in case['order']])
        progress = Collector(None)
        got = sut.write_bytes(Ordered(m, case['order']), progress=progress)
        self.judge(ctx, progress.values, 'writing traces in the order {}'.format(case['order']))
        ctx.require(got == want.to_bytes(), 'writing traces in the order {} gave wrong bytes', case['order'])

    def do_bad(self, case, ctx):
        m = spaces.build(dict(fmt=3, lens=[1]))
        data = m.to_bytes()
        bad = BAD[case['bad']]
        ctx.raises(TypeError, lambda: create_reader(io.BytesIO(data), progress=bad, cache_directory=None), 'create_reader(progress={!r})'.format(bad))
        out = io.BytesIO()
        ctx.raises(TypeError, lambda: write_segy(out, sut.MemDataset(m), progress=bad), 'write_segy(progress={!r})'.format(bad))
        ctx.equal(out.getvalue(), b'', 'what was written with an unusable callback')
        fh = io.BytesIO(data)
        fh.seek(3600)
        ctx.raises(TypeError, lambda: catalog_traces(fh, 2, progress=bad), 'catalog_traces(progress={!r})'.format(bad))
        ctx.trace(3)

    def do_cache(self, case, ctx):
        m = spaces.build(case['spec'])
        root = os.path.join(ctx.scratch, 'cache')
        os.makedirs(root)
        try:
            path = os.path.join(root, 'a.segy')
            with open(path, 'wb') as f:
                f.write(m.to_bytes())
            for n in range(3):
                for directory in ('.segpy', os.path.join(root, 'abs'), None):
                    progress = Collector(None) if case['first'] or n else None
                    with open(path, 'rb') as fh:
                        reader = create_reader(fh, cache_directory=directory, progress=progress)
                        d = sut.diff(sut.observe_reader(reader), sut.expected_view(m))
                        ctx.require(d is None, 'reading with a callback, time {}: {}', n, d)
                    if progress is not None:
                        self.judge(ctx, progress.values, 'opening number {} with cache_directory={}'.format(n, directory))
        finally:
            shutil.rmtree(root)


CHECK = P23()
