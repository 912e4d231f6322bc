import io
import itertools
import os
import struct

from segpy.header import SubFormatMeta
from segpy.packer import make_header_packer
from segpy.trace_header import TraceHeaderRev1

from mc.engine import Check
from mc import ref, spaces, sut


class VirtualFile:
    """A read-only file of many equal-length traces whose bytes are computed on demand."""

    def __init__(self, head, num_traces, num_samples, endian):
        self._head = head
        self._n = num_traces
        self._ns = num_samples
        self._endian = endian
        self._tlen = 240 + 4 * num_samples
        self._length = len(head) + num_traces * self._tlen
        self._pos = 0
        self.closed = False

    def seekable(self):
        return True

    def readable(self):
        return True

    def tell(self):
        return self._pos

    def seek(self, pos, whence=os.SEEK_SET):
        self._pos = pos + (0 if whence == os.SEEK_SET else self._pos if whence == os.SEEK_CUR else self._length)
        return self._pos

    def value(self, trace, sample):
        v = (trace * 40503 + sample * 7919) & 0xffffffff
        return v - (1 << 32) if v >> 31 else v

    def header(self, trace):
        return ref.encode_trace_header('trace1', dict(ref.defaults('trace1'), num_samples=self._ns, ensemble_num=trace,
                                                      inline_number=trace // 100, crossline_number=trace % 100),
                                       self._endian)

    def read(self, n=-1):
        stop = self._length if n is None or n < 0 else min(self._length, self._pos + n)
        out = []
        pos = self._pos
        while pos < stop:
            if pos < len(self._head):
                chunk = self._head[pos:stop]
            else:
                t, rel = divmod(pos - len(self._head), self._tlen)
                if rel < 240:
                    chunk = self.header(t)[rel:rel + stop - pos]
                else:
                    s, b = divmod(rel - 240, 4)
                    last = min(self._ns, (rel - 240 + stop - pos + 3) // 4)
                    chunk = b''.join(struct.pack(self._endian + 'i', self.value(t, i))
                                     for i in range(s, last))[b:b + stop - pos]
            out.append(chunk)
            pos += len(chunk)
        self._pos = max(self._pos, stop)
        return b''.join(out)


class P05(Check):
    id = 'P05'
    level = 'model_checking'
    technique = 'exhaustive enumeration of (trace, start, stop) accesses on the real reader against slicing of the model'
    level_note = ('Every index and bound, valid or not, for every trace length to the bound; offsets beyond 4 GiB through a '
                  'computed file. Field subsets: all singletons, all pairs of neighbours, prefixes, (thorough) all pairs.')
    rule = ('A case is a file and a class of accesses; each access is a transition, compared with the model. States are the '
            'distinct (file, access) results.')

    def cases(self, tier):
        top = 6 if tier == 'quick' else 10
        for fmt in spaces.FMTS:
            for endian in spaces.ENDIANS:
                for n in range(top + 1):
                    for ext in ('none', 'end'):
                        yield dict(kind='slices', spec=dict(fmt=fmt, endian=endian, lens=[n, 2, 0, n + 1], ext=ext, k=n))
                for n in (127, 128, 255, 256, 257, 4096) if tier == 'quick' else (127, 128, 255, 256, 257, 4096, 16384, 32767):
                    yield dict(kind='edges', spec=dict(fmt=fmt, endian=endian, lens=[1, n, 2]))
        names = [f[0] for f in ref.TRACE1_FIELDS]
        subsets = [[n] for n in names] + [list(p) for p in zip(names, names[1:])] + [[b, a] for a, b in zip(names, names[1:])]
        subsets += [names[:i] for i in range(1, len(names) + 1)] + [names[i:] for i in range(len(names))]
        subsets += [names[i::j] for j in (2, 3, 7) for i in range(j)]
        if tier == 'thorough':
            subsets += [list(p) for p in itertools.permutations(names, 2)]
        for i, s in enumerate(subsets):
            yield dict(kind='fields', names=s, endian='><'[i % 2])
        for endian in spaces.ENDIANS if tier == 'thorough' else ('>',):
            yield dict(kind='huge', endian=endian)

    def run(self, case, ctx):
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.trace()
        ctx.sample(case)

    def access(self, ctx, reader, fmt, key, t, start, stop, samples, how):
        n = len(samples)
        lo = 0 if start is None else start
        hi = n if stop is None else stop
        legal = 0 <= lo <= hi <= n
        what = 'trace_samples({}, {}, {}) of a trace of {}'.format(t, start, stop, n)
        if how == 'kw':
            call = lambda: reader.trace_samples(t, start=start, stop=stop)
        else:
            call = lambda: reader.trace_samples(t, start, stop)
        ctx.transition()
        if legal:
            got = ctx.call(lambda: sut.samples_of(fmt, call()), what)
            ctx.equal(got, samples[lo:hi], what)
            ctx.state((key, t, start, stop, len(got)))
        else:
            ctx.raises(ValueError, call, what)
            ctx.state((key, t, start, stop, 'ValueError'))

    def run_slices(self, case, ctx):
        model = spaces.build(case['spec'])
        reader = sut.open_reader(model.to_bytes(), endian=model.endian, encoding='ascii')
        key = repr(case)
        expected = [[ref.expected_key(model.fmt, v) for v in s] for _, s in model.traces]
        for t in range(len(expected)):
            n = len(expected[t])
            bounds = [None] + list(range(-2, n + 3)) + [-n - 1, 2 * n + 7, 10 ** 6]
            for start in bounds:
                for stop in bounds:
                    self.access(ctx, reader, model.fmt, key, t, start, stop, expected[t], 'pos')
            self.access(ctx, reader, model.fmt, key, t, 0, n, expected[t], 'kw')
        k = len(expected)
        for t in (-1, -2, -k, -k - 1, k, k + 1, 10 ** 9):
            for args in ((), (0,), (0, 0), (None, 0)):
                ctx.transition()
                ctx.raises(ValueError, lambda: reader.trace_samples(t, *args), 'trace_samples({}, {})'.format(t, args))
            ctx.raises(ValueError, lambda: reader.trace_header(t), 'trace_header({})'.format(t))

    def run_edges(self, case, ctx):
        model = spaces.build(case['spec'])
        reader = sut.open_reader(model.to_bytes(), endian=model.endian, encoding='ascii')
        key = repr(case)
        expected = [[ref.expected_key(model.fmt, v) for v in s] for _, s in model.traces]
        n = len(expected[1])
        bounds = sorted({b for p in (0, 127, 128, 255, 256, n // 2, n) for b in (p - 1, p, p + 1)} | {None}, key=lambda x: (
            x is not None, x))
        for start in bounds:
            for stop in bounds:
                self.access(ctx, reader, model.fmt, key, 1, start, stop, expected[1], 'kw')

    def run_fields(self, case, ctx):
        endian = case['endian']
        header = {}
        for i, f in enumerate(ref.TRACE1_FIELDS):
            legal = [v for v in spaces.boundary_values(f) if v >= 0] if f[0] == 'num_samples' else spaces.boundary_values(f)
            header[f[0]] = legal[i % len(legal)]
        header['num_samples'] = 2
        model = ref.Model([], dict(data_sample_format=3, num_samples=2), [({}, [1, 2]), (header, [3, 4])], endian=endian)
        reader = sut.open_reader(model.to_bytes(fill=0xff), endian=endian, encoding='ascii')
        sub = SubFormatMeta('Sub', (), {}, parent_format=TraceHeaderRev1, parent_field_names=case['names'])
        packer = make_header_packer(sub, endian)
        for t in (1, 0):
            ctx.transition(2)
            full = reader.trace_header(t)
            part = reader.trace_header(t, packer)
            for name in case['names']:
                expected = model.traces[t][0][name]
                ctx.equal(int(getattr(full, name)), expected, 'trace_header({}).{}'.format(t, name))
                ctx.equal(int(getattr(part, name)), expected, 'trace_header({}, packer for {}).{}'.format(
                    t, case['names'], name))
            ctx.equal(sorted(part.ordered_field_names()), sorted(case['names']), 'fields of the partial header')
            ctx.state((tuple(case['names']), t))
        ctx.raises(ValueError, lambda: reader.trace_header(2, packer), 'trace_header(2, packer)')

    def run_huge(self, case, ctx):
        endian = case['endian']
        ns = 32767
        num = 33000
        head = ref.Model([], dict(data_sample_format=2, num_samples=ns), [], endian=endian).to_bytes()
        fh = VirtualFile(head, num, ns, endian)
        from segpy.reader import create_reader
        reader = create_reader(fh, encoding='ascii', endian=endian, cache_directory=None)
        ctx.equal(reader.num_traces(), num, 'number of traces of a {} byte file'.format(fh._length))
        tlen = 240 + 4 * ns
        targets = set()
        for limit in (2 ** 31, 2 ** 32, fh._length):
            t = (limit - len(head)) // tlen
            targets.update(x for x in (t - 1, t, t + 1) if 0 <= x < num)
        targets.update((0, 1, num - 1))
        for t in sorted(targets):
            at = len(head) + t * tlen
            samples = [fh.value(t, i) for i in range(ns)]
            ctx.equal(int(reader.trace_header(t).ensemble_num), t, 'header of trace {} at offset {}'.format(t, at))
            ctx.equal(reader.trace_index((t // 100, t % 100)), t, 'trace_index')
            cuts = {0, 1, ns - 1, ns, ns // 2}
            for limit in (2 ** 31, 2 ** 32):
                s = (limit - at - 240) // 4
                cuts.update(x for x in (s - 1, s, s + 1) if 0 <= x <= ns)
            for start in sorted(cuts):
                for stop in (start, min(ns, start + 1), min(ns, start + 3), ns):
                    self.access(ctx, reader, 2, 'huge', t, start, stop, samples, 'pos')


CHECK = P05()
