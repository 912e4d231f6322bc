import bisect
import io
import itertools
import pickle
import struct
import tracemalloc

from segpy.catalog import CatalogBuilder
from segpy.dataset import DelegatingDataset
from segpy.reader import create_reader
from segpy.toolkit import catalog_traces
from segpy.writer import write_segy

from mc.engine import Check
from mc import ref, spaces, sut


class Watched(io.BytesIO):
    """A file which notes the extents read."""

    def __init__(self, data):
        super().__init__(data)
        self.extents = []

    def _note(self, start):
        end = io.BytesIO.tell(self)
        if end > start:
            self.extents.append((start, end))

    def read(self, *a):
        start = io.BytesIO.tell(self)
        out = super().read(*a)
        self._note(start)
        return out

    def read1(self, *a):
        return self.read(*a)

    def readinto(self, b):
        start = io.BytesIO.tell(self)
        n = super().readinto(b)
        self._note(start)
        return n

    def readline(self, *a):
        start = io.BytesIO.tell(self)
        out = super().readline(*a)
        self._note(start)
        return out

    def getbuffer(self):
        raise AssertionError('the whole of the file was asked for')

    getvalue = getbuffer


class Counted:
    """An output file which keeps nothing but how far it has been written, and its beginning and end."""

    def __init__(self):
        self.pos = self.size = 0
        self.closed = False

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + {0: 0, 1: self.pos, 2: self.size}[whence]
        return self.pos

    def write(self, data):
        self.pos += len(data)
        self.size = max(self.size, self.pos)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass


class Asked(sut.MemDataset):
    """A dataset which notes what is asked of it, and how much had been written by then."""

    def __init__(self, model, out, order):
        super().__init__(model)
        self.out = out
        self.order = order
        self.log = []

    def trace_indexes(self):
        for i in self.order:
            self.log.append(('next', i, self.out.size))
            yield i

    def trace_header(self, i):
        self.log.append(('header', i, self.out.size))
        return super().trace_header(i)

    def trace_samples(self, i, start=None, stop=None):
        self.log.append(('samples', i, self.out.size))
        return super().trace_samples(i, start, stop)


class Enormous:
    """A file of any size, none of which is held in memory."""

    def __init__(self, num_traces, num_samples, fmt, endian):
        reel = {'data_sample_format': fmt}
        m = ref.Model(spaces.text_lines(), reel, [], endian=endian)
        self.top = m.to_bytes()
        self.endian = endian
        self.num_traces, self.num_samples, self.fmt = num_traces, num_samples, fmt
        self.bps = ref.FORMATS[fmt][2]
        self.stride = 240 + num_samples * self.bps
        self.size = 3600 + num_traces * self.stride
        self.pos = 0
        self.closed = False
        self.bytes_read = 0

    def header(self, i):
        return {'inline_number': 1 + i // 200, 'crossline_number': 1 + i % 200, 'ensemble_num': i, 'num_samples': self.num_samples,
                'line_sequence_num': i}

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + {0: 0, 1: self.pos, 2: self.size}[whence]
        return self.pos

    def sample_bytes(self, i, first, last):
        """Every sample of trace i is i, in the low bytes."""
        n = i % (1 << (8 * self.bps - 1))
        one = n.to_bytes(self.bps, 'big' if self.endian == '>' else 'little')
        return (one * ((last - first) // self.bps + 2))[first % self.bps:][:last - first]

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.size - self.pos
        if n > 1 << 24:
            raise MemoryError('read of {} bytes'.format(n))
        out = []
        end = min(self.pos + n, self.size)
        while self.pos < end:
            if self.pos < 3600:
                part = self.top[self.pos:end]
            else:
                i, at = divmod(self.pos - 3600, self.stride)
                if at < 240:
                    part = ref.encode_trace_header('trace1', self.header(i), self.endian)[at:at + end - self.pos]
                else:
                    part = self.sample_bytes(i, at - 240, min(self.stride - 240, at - 240 + end - self.pos))
            out.append(part)
            self.pos += len(part)
        data = b''.join(out)
        self.bytes_read += len(data)
        return data


class Generated(sut.MemDataset):
    """Traces made as they are asked for."""

    def __init__(self, n, length, fmt):
        super().__init__(spaces.build(dict(fmt=fmt, lens=[])))
        self._n, self._length = n, length

    def num_traces(self):
        return self._n

    def trace_header(self, i):
        return self._format(num_samples=self._length, line_sequence_num=i)

    def trace_samples(self, i, start=None, stop=None):
        return range(i % 50, i % 50 + self._length)[start:stop] if self._m.fmt == 2 else [i % 100] * self._length


def peak(fn):
    """(peak of memory traced while running fn, what is still held afterwards)"""
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        kept = fn()
        now, top = tracemalloc.get_traced_memory()
        return top - base, now - base, kept
    finally:
        tracemalloc.stop()


class P29(Check):
    id = 'P29'
    technique = 'bounded-exhaustive execution with every call on the file and on the dataset monitored'
    level_note = ('Every vector of up to three trace lengths in each format and page arrangement, every sub-range of every trace, every order of '
                  'up to four traces (thorough five), files of 2^31 and 2^32 bytes and more of which nothing is held in memory, and catalogs of regular surveys ten times as large.')
    rule = ('A state is a distinct file or order; a transition is one monitored operation. The extents read, the order of the questions asked of '
            'the dataset, and how much was written at each, must be as stated.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        k = 0
        for fmt, ext, endian in itertools.product(spaces.FMTS, spaces.EXT, '<>'):
            for lens in spaces.length_vectors(3, (0, 1, 2, 5)):
                k += 1
                yield dict(kind='read', spec=dict(fmt=fmt, ext=ext, endian=endian, lens=list(lens), k=k % 7,
                                                  geometry=None if k % 3 else [[1, 1, 5]] * len(lens)))
        for lens in ([300, 2, 4000], [0, 32767, 1], [1000] * 20):
            yield dict(kind='read', spec=dict(fmt=2, lens=lens))
        # Every length, one after the other, and some of them for several traces in a row
        for fmt in spaces.FMTS:
            for endian in '<>':
                for step, repeat in ((1, 1), (1, 2), (-1, 1)) + (((1, 3), (7, 4)) if thorough else ((29, 4),)):
                    lens = [n for n in range(0, 600, abs(step)) for _ in range(repeat)][::1 if step > 0 else -1]
                    yield dict(kind='lengths', fmt=fmt, endian=endian, lens=lens)
        for fmt in spaces.FMTS:
            for ext in spaces.EXT:
                for n in range(6 if thorough else 5):
                    for order in itertools.permutations(range(n)):
                        for lens in ((1, 0, 3, 2, 1), (4, 4, 4, 4, 4)):
                            yield dict(kind='write', fmt=fmt, ext=ext, order=list(order), lens=list(lens[:n]))
        for source in ('reader', 'delegating', 'generated'):
            for fmt in (2, 8, 1):
                yield dict(kind='memory', source=source, fmt=fmt)
        for n, length, fmt, endian in ((17000, 32767, 2, '>'), (17000, 32767, 2, '<'), (34000, 32767, 2, '>'), (9000, 32767, 8, '<')) + (
                ((100000, 32767, 2, '>'), (70000, 30000, 3, '<')) if thorough else ()):
            yield dict(kind='enormous', n=n, length=length, fmt=fmt, endian=endian)

        for lines, xlines, order, first, step in itertools.product((1, 3), (2, 40), ('last', 'first', 'cdp'), (1, -7, 10 ** 6), (1, 2, 5)):
            yield dict(kind='compact', lines=lines, xlines=xlines, order=order, first=first, step=step)
        for traces, lines in ((70000, 250), (140000, 7)) + (((1050000, 1000), (33000000 // 64, 64)) if thorough else ()):
            for order in ('last', 'first', 'cdp'):
                yield dict(kind='large', traces=traces, lines=lines, order=order)

    def do_large(self, case, ctx):
        """What is kept of a large regular survey is no more than of a small one."""
        sizes = []
        for n, lines in ((2 * case['lines'], case['lines']), (case['traces'], case['lines'])):
            across = n // lines
            if case['order'] == 'cdp':
                keys = range(5, 5 + 3 * lines * across, 3)
            elif case['order'] == 'last':
                keys = [(10 + 2 * i, 7 + 3 * j) for i in range(lines) for j in range(across)]
            else:
                keys = [(10 + 2 * i, 7 + 3 * j) for j in range(across) for i in range(lines)]
            made = []
            for items in (((i, 3600 + 244 * i) for i in range(len(keys))), ((i, 1) for i in range(len(keys))), zip(keys, range(len(keys)))):
                catalog = CatalogBuilder(items).create()
                ctx.require(catalog is not None and len(catalog) == len(keys), 'a regular survey of {} traces is not catalogued', len(keys))
                ctx.transition()
                made.append(len(pickle.dumps(catalog)))
            for k in (0, 1, len(keys) // 2, len(keys) - 1):
                ctx.equal(catalog[keys[k]], k, 'trace number {}'.format(k))
            sizes.append(made)
        for name, a, b in zip(('positions', 'lengths', 'numbers'), *sizes):
            ctx.require(b <= a + 100, 'the catalog of {} takes {} bytes for {} traces and {} for {}: {}', name, a, 2 * case['lines'], b, case['traces'], case)
        ctx.state(repr(case))
        ctx.trace()

    def do_compact(self, case, ctx):
        """What is kept of a regular survey doesn't grow with it."""
        sizes = []
        for times in (1, 10):
            lines, xlines = case['lines'] * times, case['xlines'] * times
            keys = [(i, j) for i in range(lines) for j in range(xlines)]
            if case['order'] == 'first':
                keys.sort(key=lambda k: (k[1], k[0]))
            at = lambda k: case['first'] + case['step'] * k
            geometry = [[at(i), at(j), 1] for i, j in keys] if case['order'] != 'cdp' else [[1, 1, at(k)] for k in range(len(keys))]
            m = spaces.build(dict(fmt=8, lens=[1] * len(keys), geometry=geometry))
            fh = io.BytesIO(m.to_bytes())
            fh.seek(3600)
            catalogs = catalog_traces(fh, 1)
            ctx.transition()
            which = 2 if case['order'] == 'cdp' else 3
            ctx.require(all(catalogs[k] is not None for k in (0, 1, which)), 'a regular survey of {} traces is not catalogued', len(keys))
            ctx.equal([len(catalogs[k]) for k in (0, 1, which)], [len(keys)] * 3, 'sizes of the catalogs')
            sizes.append([len(pickle.dumps(catalogs[k])) for k in (0, 1, which)])
        for name, a, b in zip(('positions', 'lengths', 'numbers'), *sizes):
            ctx.require(b <= a + 100, 'the catalog of {} takes {} bytes for {} traces and {} for {}: {}', name, a, case['lines'] * case['xlines'], b,
                        100 * case['lines'] * case['xlines'], case)
        ctx.state(repr(case))
        ctx.trace()

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def do_read(self, case, ctx):
        m = spaces.build(case['spec'])
        data = m.to_bytes()
        offsets, total = m.offsets()
        size = ref.FORMATS[m.fmt][2]
        regions = [(o + 240, o + 240 + len(s) * size) for o, (_, s) in zip(offsets, m.traces)]

        def within(extents, what):
            for a, b in extents:
                for i, (p, q) in enumerate(regions):
                    ctx.require(b <= p or a >= q, '{} read bytes {} to {}, where the samples of trace {} are', what, a, b, i)
        fh = Watched(data)
        reader = create_reader(fh, endian=m.endian, cache_directory=None)
        ctx.transition()
        within(fh.extents, 'opening ' + repr(case['spec'])[:100])
        ctx.state(repr(case['spec']))
        fh.extents.clear()
        reader.num_traces(), reader.max_num_trace_samples(), reader.dimensionality, list(reader.trace_indexes()), sut.observe_index(reader)
        reader.textual_reel_header, reader.binary_reel_header, reader.extended_textual_header
        [reader.num_trace_samples(i) for i in range(len(offsets))]
        within(fh.extents, 'asking about the file')
        for i, o in enumerate(offsets):
            fh.extents.clear()
            reader.trace_header(i)
            ctx.transition()
            within(fh.extents, 'reading the header of trace {}'.format(i))
            for a, b in fh.extents:
                ctx.require(a >= o and b <= o + 240, 'reading the header of trace {} read bytes {} to {}', i, a, b)
        for i, (p, q) in enumerate(regions):
            n = len(m.traces[i][1])
            bounds = range(n + 1) if n <= 5 else [0, 1, n // 2, n - 1, n]
            for start, stop in itertools.product(bounds, repeat=2):
                if start > stop:
                    continue
                fh.extents.clear()
                got = reader.trace_samples(i, start, stop)
                ctx.transition()
                ctx.equal(len(got), stop - start, 'number of samples read')
                for a, b in fh.extents:
                    ctx.require(a >= p - 240 and b <= q, 'reading samples {} to {} of trace {} read bytes {} to {} outside of the trace', start, stop, i, a, b)
                read = sum(b - a for a, b in fh.extents)
                ctx.require(read <= (stop - start) * size + 240, 'reading {} samples read {} bytes', stop - start, read)
        ctx.trace()
        ctx.sample(case)

    def do_lengths(self, case, ctx):
        fmt, endian, lens = case['fmt'], case['endian'], case['lens']
        size = ref.FORMATS[fmt][2]
        header = bytearray(ref.encode_trace_header('trace1', ref.defaults('trace1'), endian))
        parts, regions = [spaces.build(dict(fmt=fmt, lens=[], endian=endian)).to_bytes()], []
        at = len(parts[0])
        for n in lens:
            struct.pack_into(endian + 'h', header, 114, n)
            parts += [bytes(header), b'\x41' * (n * size)]
            regions.append((at + 240, at + 240 + n * size))
            at += 240 + n * size
        fh = Watched(b''.join(parts))
        reader = create_reader(fh, endian=endian, cache_directory=None)
        ctx.transition()
        ctx.equal([reader.num_trace_samples(i) for i in range(reader.num_traces())], lens, 'lengths')
        starts = [p for p, _ in regions]
        for a, b in fh.extents:
            # The first region which ends beyond the start of what was read
            for i in range(max(0, bisect.bisect_right(starts, a) - 1), len(regions)):
                p, q = regions[i]
                if p >= b:
                    break
                ctx.require(b <= p or a >= q, 'opening read bytes {} to {}, where the samples of trace {} of {} samples are', a, b, i, lens[i])
        for i, (p, q) in enumerate(regions):
            n = lens[i]
            for start, stop in {(0, n), (n // 3, n - n // 3), (n // 2, n // 2), (n // 2, n)}:
                fh.extents.clear()
                got = reader.trace_samples(i, start, stop)
                ctx.transition()
                ctx.equal(len(got), stop - start, 'number of samples read')
                read = sum(b - a for a, b in fh.extents)
                ctx.require(all(a >= p - 240 and b <= q for a, b in fh.extents) and read <= (stop - start) * size + 240,
                            'reading samples {} to {} of trace {}, which are {} bytes at {}, read {}', start, stop, i, (stop - start) * size, p + start * size, fh.extents)
        ctx.state((fmt, endian, tuple(lens)))
        ctx.trace()
        ctx.sample(dict(case, lens='...'))

    def do_write(self, case, ctx):
        m = spaces.build(dict(fmt=case['fmt'], ext=case['ext'], lens=case['lens']))
        order = case['order']
        size = ref.FORMATS[m.fmt][2]
        out = Counted()
        ds = Asked(m, out, order)
        write_segy(out, ds)
        ctx.transition(len(ds.log))
        ctx.state((case['fmt'], case['ext'], tuple(order), tuple(case['lens'])))
        what = 'writing traces {} of lengths {}'.format(order, case['lens'])
        ctx.equal([i for k, i, _ in ds.log if k == 'header'], order, 'headers asked for when ' + what)
        ctx.equal([i for k, i, _ in ds.log if k == 'samples'], order, 'samples asked for when ' + what)
        start = at = ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES
        ends = {}
        for i in order:
            ends[i] = (at, at + 240 + case['lens'][i] * size)
            at = ends[i][1]
        for kind, i, written in ds.log:
            ctx.require(written >= ends[i][0] or kind == 'next' and i == order[0], '{}: only {} bytes written when the {} of trace {} was asked for, which '
                        'starts at {}', what, written, kind, i, ends[i][0])
        ctx.equal(out.size, at, 'bytes written when ' + what)
        ctx.trace()

    def do_memory(self, case, ctx):
        """The memory needed doesn't depend on the number of traces."""
        fmt, length = case['fmt'], 6000
        size = ref.FORMATS[fmt][2]

        def source(n):
            if case['source'] == 'generated':
                return Generated(n, length, fmt)
            if fmt == 1:
                fh = Enormous(n, length, 2, '>')
                fh.top = spaces.build(dict(fmt=1, lens=[])).to_bytes()
            else:
                fh = Enormous(n, length, fmt, '>')
            reader = create_reader(fh, cache_directory=None)
            return DelegatingDataset(reader) if case['source'] == 'delegating' else reader
        tops = []
        for n in (4, 4, 40):
            ds = source(n)
            out = Counted()
            top, kept, _ = peak(lambda: write_segy(out, ds))
            ctx.equal(out.size, 3600 + n * (240 + length * size), 'bytes written')
            ctx.transition()
            tops.append((top, kept))
            if case['source'] != 'generated':
                one, held, _ = peak(lambda: [len(ds.trace_samples(i)) for i in range(n)] and None)
                tops[-1] += (one, held)
        volume = 36 * length * size
        for name, a, b in zip(('most used when writing', 'kept after writing', 'most used when reading', 'kept after reading'), tops[1], tops[2]):
            ctx.require(b - a < volume // 2, 'memory {}: {} bytes for 4 traces and {} for 40', name, a, b)
        ctx.state(repr(case))
        ctx.trace()

    def do_enormous(self, case, ctx):
        n, length, fmt, endian = case['n'], case['length'], case['fmt'], case['endian']
        fh = Enormous(n, length, fmt, endian)
        reader = create_reader(fh, endian=endian, cache_directory=None)
        ctx.require(fh.bytes_read <= 3600 * 3 + 2 * 240 * (n + 1), 'opening read {} bytes of {}', fh.bytes_read, fh.size)
        ctx.equal((reader.num_traces(), reader.dimensionality, reader.max_num_trace_samples()), (n, 3, length), 'what is in a file of {} bytes'.format(fh.size))
        borders = [b // fh.stride + d for b in (2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32) for d in (-1, 0, 1)]
        for i in sorted({0, 1, n // 2, n - 2, n - 1} | {b for b in borders if 0 <= b < n}):
            ctx.transition(3)
            want = fh.header(i)
            h = reader.trace_header(i)
            ctx.equal({k: getattr(h, k) for k in want}, want, 'header {} at byte {}'.format(i, 3600 + i * fh.stride))
            ctx.equal(reader.trace_index((want['inline_number'], want['crossline_number'])), i, 'index of trace {}'.format(i))
            for a, b in ((0, 3), (length - 2, length), (length // 2, length // 2 + 1)):
                x = i % (1 << (8 * fh.bps - 1))
                ctx.equal(list(reader.trace_samples(i, a, b)), [x] * (b - a), 'samples {} to {} of trace {}'.format(a, b, i))
        ctx.state(repr(case))
        ctx.count('bytes_of_the_largest_files', fh.size)
        ctx.trace()


CHECK = P29()
