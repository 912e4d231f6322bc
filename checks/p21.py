import io
import os

from segpy.reader import create_reader

from mc.engine import Check
from mc import ref, spaces, sut

FILES = {}
for _fmt in spaces.FMTS:
    for _endian in spaces.ENDIANS:
        FILES['plain%d%s' % (_fmt, _endian)] = dict(fmt=_fmt, endian=_endian, lens=[2, 0, 3])
for _ext in spaces.EXT:
    if _ext != 'none':
        FILES['ext_' + _ext] = dict(fmt=3, ext=_ext, enc='cp037', lens=[1, 2], geometry=[[1, 1, 5], [1, 1, 4]])
FILES['empty'] = dict(fmt=2, lens=[])
FILES['zeros'] = dict(fmt=8, lens=[0, 0, 0, 1], geometry=[[1, 1, 1]] * 4)
FILES['2d'] = dict(fmt=5, lens=[2, 2, 1], geometry=[[1, 1, 9], [1, 1, 7], [2, 2, 8]])
FILES['dup_later'] = dict(fmt=3, lens=[1, 1, 2], geometry=[[1, 1, 9], [1, 2, 7], [1, 1, 9]])
FILES['rev0'] = dict(fmt=3, kind='trace0', lens=[2, 1, 1], endian='<')
FILES['long'] = dict(fmt=8, lens=[300, 5])
FILES['wide'] = dict(fmt=1, lens=[0, 70, 1], ext='one')
# A trace which claims more samples than the file holds hides nothing but itself
FILES['claims'] = dict(fmt=3, lens=[1, 4, 2], claim=[1, 2000])


class P21(Check):
    id = 'P21'
    level = 'fault_enumeration'
    technique = 'exhaustive enumeration of every truncation point of a set of files through the real reader, against the format model'
    level_note = ('Every prefix of 25 files covering each format, byte order, encoding, page arrangement and geometry, with each trace and '
                  'each sub-range of it read; thorough also through real files and for longer files.')
    rule = ('An evaluation is one prefix of one file, opened and read in full: non-trivial if the prefix is a proper one. Every '
            'header, every sample range and the index must be as the model says for those bytes, or be refused.')

    def cases(self, tier):
        for name in FILES:
            for part in range(8):
                yield dict(file=name, part=part)
        if tier == 'thorough':
            for fmt in spaces.FMTS:
                for ext in spaces.EXT + ('three',):
                    for lens in ([7, 1, 0, 12], [0], [1, 1, 1, 1, 1, 1], [40]):
                        for part in range(8):
                            yield dict(file='t', part=part, spec=dict(fmt=fmt, ext=ext, lens=lens, endian='<', k=3))

    def run(self, case, ctx):
        spec = case.get('spec') or FILES[case['file']]
        m = spaces.build(spec)
        if 'claim' in spec:
            i, n = spec['claim']
            m.traces[i][0]['num_samples'] = n
        data = m.to_bytes()
        offsets, _ = m.offsets()
        for n in range(case['part'], len(data) + 1, 8):
            ctx.evaluated()
            if n < len(data):
                ctx.nontrivial((case['file'], repr(spec), n))
            self.judge(ctx, m, data, offsets, n, case)
        ctx.sample(dict(case, file_bytes=len(data)))

    def judge(self, ctx, m, data, offsets, n, case):
        what = 'the first {} of {} bytes of {}'.format(n, len(data), case['file'])
        kind = sut.TRACE_FORMATS[m.kind]

        def make(fh):
            return create_reader(fh, encoding=m.encoding, endian=m.endian, trace_header_format=kind, cache_directory=None)
        first_trace = ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES
        fh = io.BytesIO(data[:n])
        if n < first_trace:
            ctx.raises((ValueError, EOFError), lambda: make(fh), 'opening ' + what)
            return
        reader = ctx.call(lambda: make(fh), 'opening ' + what)
        self.compare(ctx, m, offsets, n, reader, what)
        if ctx.tier == 'thorough' and n % 5 == 0:
            path = os.path.join(ctx.scratch, 'f.segy')
            with open(path, 'wb') as f:
                f.write(data[:n])
            with open(path, 'rb') as f:
                self.compare(ctx, m, offsets, n, ctx.call(lambda: make(f), 'opening a real file of ' + what), what)

    def compare(self, ctx, m, offsets, n, reader, what):
        size = ref.FORMATS[m.fmt][2]
        # The traces found: each starts where the header of the one before it says that it ends
        present, starts, at = [], [], ref.HEADERS_BYTES + len(m.pages) * ref.TEXT_BYTES
        for (h, s), o in zip(m.traces, offsets):
            if at != o or at + 240 > n:
                break
            present.append((h, s))
            starts.append(at)
            at += 240 + h['num_samples'] * size
        lengths = [h['num_samples'] for h, _ in present]
        ctx.equal(reader.num_traces(), len(present), 'number of traces of ' + what)
        ctx.equal(list(reader.trace_indexes()), list(range(len(present))), 'trace indexes of ' + what)
        ctx.equal(list(reader.textual_reel_header), list(m.lines), 'text of ' + what)
        ctx.equal(sut.header_values(reader.binary_reel_header), m.reel, 'reel header of ' + what)
        ctx.equal([list(p) for p in reader.extended_textual_header], m.pages, 'pages of ' + what)
        ctx.equal([reader.num_trace_samples(i) for i in range(len(present))], lengths, 'lengths of ' + what)
        ctx.equal(reader.max_num_trace_samples(), max(lengths, default=0), 'greatest length of ' + what)
        geometry, index = ref.survey(present, m.kind == 'trace1')
        seen = sut.observe_index(reader)
        if present:
            want = {3: 'lines', 2: 'cdps', 1: None}[geometry]
            ctx.equal([k for k in ('lines', 'cdps') if k in seen], [want] if want else [], 'geometry of ' + what)
            if want:
                ctx.equal(seen[want], index, 'index of ' + what)
        whole = True
        for i, (h, s) in enumerate(present):
            ctx.equal(sut.header_values(reader.trace_header(i)), h, 'header {} of {}'.format(i, what))
            count = h['num_samples']
            held = min(len(s), count)
            bounds = range(count + 1) if count <= 12 else sorted({0, 1, count // 2, count - 1, count})
            for start in bounds:
                for stop in bounds:
                    if start > stop:
                        continue
                    end = starts[i] + 240 + stop * size
                    label = 'samples {} to {} of trace {} of {}'.format(start, stop, i, what)
                    if start == stop:
                        ctx.equal(list(reader.trace_samples(i, start, stop)), [], label)
                    elif end <= n and stop <= held:
                        got = ctx.call(lambda: reader.trace_samples(i, start, stop), label)
                        ctx.equal(sut.samples_of(m.fmt, got), [ref.expected_key(m.fmt, v) for v in s[start:stop]], label)
                    elif end > n:
                        whole = False
                        ctx.raises(EOFError, lambda: reader.trace_samples(i, start, stop), label)
        if not whole:
            ctx.raises(EOFError, lambda: sut.write_bytes(reader, encoding=m.encoding, endian=m.endian,
                                                                trace_header_format=sut.TRACE_FORMATS[m.kind]), 'writing ' + what)


CHECK = P21()
