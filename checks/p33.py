import array
import io
import itertools
import math
import numbers
import struct
from fractions import Fraction

import segpy.datatypes as dt
from segpy.toolkit import (bytes_per_sample, pack_values, read_binary_values, samples_per_trace, trace_length_bytes, unpack_values,
                           write_binary_values, write_trace_samples)
from segpy.writer import write_segy

from mc.engine import Check
from mc import ref, spaces, sut

# type: (struct code, size, least, greatest, code in the reel header)
TYPES = {
    'ibm': (None, 4, -float(ref.IBM_MAX), float(ref.IBM_MAX), 1),
    'int32': ('i', 4, -2 ** 31, 2 ** 31 - 1, 2),
    'int16': ('h', 2, -2 ** 15, 2 ** 15 - 1, 3),
    'float32': ('f', 4, -spaces.f32_bits(0x7f7fffff), spaces.f32_bits(0x7f7fffff), 5),
    'int8': ('b', 1, -128, 127, 8),
    'nnint32': ('I', 4, 0, 2 ** 31 - 1, None),
    'nnint16': ('H', 2, 0, 2 ** 15 - 1, None),
    'nnint8': ('B', 1, 0, 127, None),
}
CODES = {t[4]: name for name, t in TYPES.items() if t[4]}
REFUSALS = (struct.error, OverflowError, ValueError, TypeError, ArithmeticError, AttributeError)


def dense(lo, hi):
    """The integers within three of every power of two, and every pattern of repeated bytes, in a range."""
    out = {lo, hi}
    for b in range(33):
        for d in range(-3, 4):
            out.update((2 ** b + d, -2 ** b + d))
    for size in (1, 2, 4):
        for pattern in itertools.product((0, 1, 0x7f, 0x80, 0xff), repeat=size):
            v = int.from_bytes(bytes(pattern), 'big')
            out.update((v, v - (1 << 8 * size)))
    return sorted(v for v in out if lo <= v <= hi)


def floats():
    """Every exponent and sign of float32 with the significands at the ends and middle."""
    out = []
    for sign in (0, 1):
        for e in range(255):
            for frac in (0, 1, 2, 0x3fffff, 0x400000, 0x400001, 0x7ffffe, 0x7fffff, 0x123456, 0x00ff00):
                out.append(spaces.f32_bits(sign << 31 | e << 23 | frac))
    return out + [math.inf, -math.inf]


def encode(name, values, endian):
    if name == 'ibm':
        return ref.encode_samples(1, values, endian)
    return b''.join(struct.pack(endian + TYPES[name][0], v) for v in values)


class P33(Check):
    id = 'P33'
    technique = 'exhaustive enumeration of the values of the narrow sample formats, and of boundary sets of the wide ones, by position and byte order'
    level_note = ('Every int8 and int16 value at every position of a short trace; for int32, float32 and ibm every power of two and its neighbours, every '
                  'exponent, every pattern of extreme bytes (thorough: every 16-bit half of an int32 and every upper half of a float32); values beyond '
                  'each range, among others, in whole files and through the functions of the toolkit.')
    rule = ('A state is a distinct (format, byte order, value); a transition is one writing or reading. The bytes written must be those of the format, '
            'reading must give the values back, and a value beyond the range be refused with nothing of it written.')

    def cases(self, tier):
        for endian in '<>':
            for first in range(-32768, 32768, 1024):
                yield dict(kind='values', type='int16', endian=endian, first=first, count=1024)
            yield dict(kind='values', type='int8', endian=endian, first=-128, count=256)
            for name in ('int32', 'float32', 'ibm', 'nnint32', 'nnint16', 'nnint8'):
                yield dict(kind='values', type=name, endian=endian, first=None, count=None)
            for name in TYPES:
                yield dict(kind='beyond', type=name, endian=endian)
            for fmt in spaces.FMTS:
                yield dict(kind='file', fmt=fmt, endian=endian)
            if tier == 'thorough':
                for first in range(0, 65536, 1024):
                    yield dict(kind='halves', type='int32', endian=endian, first=first)
                    yield dict(kind='halves', type='float32', endian=endian, first=first)
        # Traces of every length
        for fmt in (2, 3, 5, 8) if tier == 'thorough' else (8,):
            for first in range(0, 32768, 64):
                yield dict(kind='lengths', fmt=fmt, first=first, endian='<>'[first // 64 % 2])
        yield dict(kind='tables')

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def pool(self, name):
        if name == 'float32':
            return floats()
        if name == 'ibm':
            return [float(ref.ibm_value(bytes((a, b, c, d)))) for a in range(256) for b, c, d in ((0x10, 0, 0), (0xff, 0xff, 0xff), (0x12, 0x34, 0x56), (1, 0, 1), (0, 0, 0))]
        return dense(*TYPES[name][2:4])

    def same(self, name, got, want):
        if name in ('ibm', 'float32'):
            fmt = TYPES[name][4]
            return [ref.sample_key(fmt, v) for v in got] == [ref.expected_key(fmt, v) for v in want]
        return list(got) == list(want) and all(isinstance(v, numbers.Integral) for v in got)

    def round_trip(self, ctx, name, endian, values, pos=0):
        seg_y_type = dt.SegYType(name)
        raw = encode(name, values, endian)
        for writing in (write_trace_samples, write_binary_values):
            fh = io.BytesIO(b'\xee' * pos)
            fh.seek(pos)
            writing(fh, values, seg_y_type, endian)
            ctx.transition()
            if fh.getvalue() != b'\xee' * pos + raw:
                one = next((v for v in values if self.written(name, endian, v) != encode(name, [v], endian)), values)
                ctx.fail('{} of {} as {} {}: expected {}, wrote {}'.format(writing.__name__, one, name, endian, raw[:40].hex(), fh.getvalue()[pos:][:40].hex()))
            ctx.equal(fh.tell(), pos + len(raw), 'position after {}'.format(writing.__name__))
        fh = io.BytesIO(b'\xee' * pos + raw + b'\xdd' * 5)
        for given in (None, pos):
            fh.seek(pos if given is None else 0)
            got = read_binary_values(fh, given, seg_y_type, len(values), endian)
            ctx.transition()
            ctx.require(self.same(name, got, values), 'read_binary_values of {} {}: expected {}, got {}', name, endian, values, got)
            ctx.equal(fh.tell(), pos + len(raw), 'position after reading')
        if TYPES[name][0]:
            ctx.require(pack_values(values, TYPES[name][0], endian) == raw, 'pack_values {} {} {}', name, endian, values)
            ctx.require(self.same(name, unpack_values(raw, TYPES[name][0], endian), values), 'unpack_values {} {} {}', name, endian, values)
        ctx.trace()

    def written(self, name, endian, v):
        fh = io.BytesIO()
        write_trace_samples(fh, [v], dt.SegYType(name), endian)
        return fh.getvalue()

    def do_values(self, case, ctx):
        name, endian = case['type'], case['endian']
        values = self.pool(name) if case['first'] is None else list(range(case['first'], case['first'] + case['count']))
        filler = [0, 1, 1, 0]
        for n, v in enumerate(values):
            ctx.state((name, endian, v))
            if case['first'] is None or case['type'] == 'int8' or ctx.tier == 'thorough' or n % 8 == 0:
                for at in range(4):
                    t = list(filler)
                    t[at] = v
                    self.round_trip(ctx, name, endian, t, pos=at)
        for length in (1, 2, 3, 4, 5, 7, 8, 16, 17, 255, 256, 257, len(values)):
            for k in range(0, len(values), length):
                if length < 7 and case['type'] == 'int16' and k % 16:
                    continue
                self.round_trip(ctx, name, endian, values[k:k + length], pos=length % 5)
        self.round_trip(ctx, name, endian, [])
        ctx.sample(case)

    def do_halves(self, case, ctx):
        """Every 16-bit value as the upper and as the lower half of a 32-bit sample."""
        name, endian = case['type'], case['endian']
        code = '>' + TYPES[name][0]
        for shift in (16, 0):
            for other in (0, 0xffff, 0x0180) if name == 'int32' else (0, 0xffff):
                values = []
                for h in range(case['first'], case['first'] + 1024):
                    bits = h << 16 | other if shift else other << 16 | h
                    v = struct.unpack(code, struct.pack('>I', bits))[0]
                    if v == v:
                        values.append(v)
                        ctx.state((name, endian, v))
                self.round_trip(ctx, name, endian, values)

    def beyond(self, name):
        lo, hi = TYPES[name][2:4]
        if name == 'float32':
            step = [3.4028235677973366e38, 3.5e38, 1e39, 1e100, 1.7e308]
            return step + [-v for v in step] + [10 ** 400, -10 ** 400]
        if name == 'ibm':
            over = [math.nextafter(hi, math.inf), 7.3e75, 1e76, 1e100, 1.7e308]
            return over + [-v for v in over] + [math.inf, -math.inf, math.nan, 10 ** 400, -10 ** 400]
        if name.startswith('nn'):
            top = 2 ** (8 * TYPES[name][1])
            return [-1, -2, lo - 128, -2 ** 31, top, top + 1, 2 * top, 2 ** 64, 1.5, math.nan, math.inf]
        return [lo - 1, lo - 2, hi + 1, hi + 2, 2 * hi + 1, 2 * hi + 2, 2 * lo, 2 ** 32, 2 ** 63, 2 ** 64, -2 ** 63, -2 ** 64, 10 ** 30, 1.5, math.nan, math.inf, -math.inf]

    def do_beyond(self, case, ctx):
        name, endian = case['type'], case['endian']
        seg_y_type = dt.SegYType(name)
        for v in self.beyond(name) + [None, 'a', b'a', [1], 1j]:
            for length in range(1, 6):
                for at in range(length):
                    t = [1] * length
                    t[at] = v
                    for writing in (write_trace_samples, write_binary_values):
                        fh = io.BytesIO()
                        ctx.raises(REFUSALS, lambda: writing(fh, t, seg_y_type, endian), '{} of {!r} at {} as {} {}'.format(writing.__name__, v, at, name, endian))
                        ctx.require(encode(name, t[:at], endian).startswith(fh.getvalue()), 'what was written when {} was refused: {}', v, fh.getvalue())
                        ctx.transition()
            fmt = TYPES[name][4]
            if fmt:
                for trace, at in itertools.product(range(3), range(3)):
                    lens = [3, 3, 3]
                    m = spaces.build(dict(fmt=fmt, lens=lens, endian=endian))
                    m.traces[trace][1][at] = v
                    fh = io.BytesIO()
                    ctx.raises(REFUSALS, lambda: write_segy(fh, Given(m), endian=endian), 'write_segy of {!r} in {}'.format(v, name))
                    # Whatever was written comes before the value
                    m.traces[trace][1][at] = 0
                    whole = m.to_bytes()
                    done = fh.getvalue()
                    limit = m.offsets()[0][trace] + 240 + at * TYPES[name][1]
                    ctx.require(len(done) <= limit and whole[:len(done)] == done, 'what was written before {} was refused', v)
                    ctx.transition()
            ctx.state((name, endian, repr(v)))

    def do_file(self, case, ctx):
        fmt, endian = case['fmt'], case['endian']
        name = CODES[fmt]
        values = list(range(-128, 128)) if fmt == 8 else list(range(-32768, 32768)) if fmt == 3 else self.pool(name)
        for length in (1, 64, 1000):
            chunks = [values[k:k + length] for k in range(0, len(values), length)]
            if length == 1:
                chunks = chunks[:: max(1, len(chunks) // 512)]
            m = spaces.build(dict(fmt=fmt, endian=endian, lens=[len(c) for c in chunks], values=chunks))
            data = m.to_bytes()
            ctx.require(sut.write_bytes(Given(m), endian=endian) == data, 'write_segy of format {} in traces of {}', fmt, length)
            reader = sut.open_reader(data, endian=endian)
            ctx.equal(reader.num_traces(), len(chunks), 'number of traces')
            reel = reader.binary_reel_header
            ctx.equal(samples_per_trace(reel), reel.num_samples, 'samples per trace by the reel header')
            ctx.equal(trace_length_bytes(reel, bytes_per_sample(reel)), 240 + reel.num_samples * TYPES[name][1], 'bytes of a trace by the reel header')
            for i, c in enumerate(chunks):
                got = reader.trace_samples(i)
                ctx.transition()
                ctx.require(self.same(name, got, c), 'trace {} of format {}: expected {}, got {}', i, fmt, c, got)
                for v in c:
                    ctx.state((name, endian, v))
            ctx.require(sut.write_bytes(reader, endian=endian) == data, 'rewriting format {} in traces of {}', fmt, length)
            # The same values held differently
            for holder in (tuple, (lambda c: array.array(TYPES[name][0], c)) if TYPES[name][0] else tuple):
                held = Given(m, holder)
                ctx.require(sut.write_bytes(held, endian=endian) == data, 'write_segy of format {} from {}', fmt, holder)
            ctx.trace()
        if fmt != 1:
            import numpy
            kind = {2: numpy.int32, 3: numpy.int16, 5: numpy.float32, 8: numpy.int8}[fmt]
            for order in '<>=':
                t = numpy.dtype(kind).newbyteorder(order)
                ctx.require(sut.write_bytes(Given(m, lambda c: numpy.array(c, t)), endian=endian) == data, 'write_segy of format {} from numpy {}', fmt, t)

    def do_lengths(self, case, ctx):
        """Traces of each of 64 successive lengths, the longest first (so that nothing depends on growing)."""
        fmt, endian = case['fmt'], case['endian']
        name = CODES[fmt]
        code, size = TYPES[name][:2]
        if not hasattr(self, '_long'):
            self._long = {}
        if (name, endian) not in self._long:
            pool = self.pool(name) if fmt != 8 else list(range(-128, 128))
            values = [pool[(i * 7 + i // 256) % len(pool)] for i in range(32767)]
            self._long[name, endian] = values, encode(name, values, endian)
        values, raw = self._long[name, endian]
        lengths = list(range(min(case['first'] + 63, 32767), case['first'] - 1, -1))
        lengths[1:1] = [0]
        m = spaces.build(dict(fmt=fmt, endian=endian, lens=[0] * len(lengths)))
        m = m.replaced(traces=[(dict(h, num_samples=n), values[:n]) for n, (h, _) in zip(lengths, m.traces)])
        data = sut.write_bytes(Given(m), endian=endian)
        at = 3600
        for i, n in enumerate(lengths):
            ctx.transition()
            ctx.require(data[at + 240:at + 240 + n * size] == raw[:n * size], 'what was written of a trace of {} samples of format {}', n, fmt)
            at += 240 + n * size
            ctx.state((name, 'length', n))
        ctx.equal(len(data), at, 'bytes of traces of {} and fewer samples'.format(lengths[0]))
        reader = sut.open_reader(data, endian=endian)
        for i, n in enumerate(lengths):
            got = reader.trace_samples(i)
            ctx.transition()
            ctx.require(len(got) == n and list(got) == values[:n], 'what was read of a trace of {} samples of format {}', n, fmt)
        ctx.trace()

    def do_tables(self, case, ctx):
        ctx.equal({int(f): f.name for f in dt.DataSampleFormat}, {1: 'IBM', 2: 'INT32', 3: 'INT16', 5: 'FLOAT32', 8: 'INT8'}, 'the data sample formats')
        ctx.equal(sorted(t.value for t in dt.SegYType), sorted(TYPES), 'the types')
        ctx.equal({int(k): str(v.value) for k, v in dt.DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE.items()}, CODES, 'types of the formats')
        ctx.equal({str(k.value): int(v) for k, v in dt.SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT.items()}, {v: k for k, v in CODES.items()}, 'formats of the types')
        for t in dt.SegYType:
            code, size, lo, hi, fmt = TYPES[t.value]
            ctx.equal(dt.SEG_Y_TYPE_TO_CTYPE[t], code or 'ibm', 'ctype of {}'.format(t))
            ctx.equal(dt.SEG_Y_TYPE_TO_CTYPE[t.value], code or 'ibm', 'ctype of {}, by its value'.format(t))
            ctx.equal(dt.size_in_bytes(code or 'ibm'), size, 'size of {}'.format(t))
            ctx.equal(dt.CTYPE_TO_SIZE[code or 'ibm'], size, 'size of {}'.format(t))
            words = dt.SEG_Y_TYPE_DESCRIPTION[t]
            ctx.require(str(8 * size) in words, 'the description {} of {} does not give its width', words, t)
            for other in (8, 16, 32):
                ctx.require(other == 8 * size or str(other) not in words, 'the description {} of {} gives another width', words, t)
            ctx.require(('float' in words) == (t.value in ('ibm', 'float32')), 'the description {} of {}', words, t)
            ctx.require(('IBM' in words) == (t.value == 'ibm'), 'the description {} of {}', words, t)
            ctx.require(('non-negative' in words or 'unsigned' in words) == t.value.startswith('nn'), 'the description {} of {}', words, t)
            least, greatest = dt.LIMITS[t]
            ctx.equal((dt.LIMITS[t].min, dt.LIMITS[t].max), (least, greatest), 'limits of {}'.format(t))
            if t.value == 'float32':
                ctx.require(greatest == hi and least == -hi, 'limits of float32 are {}', dt.LIMITS[t])
            else:
                ctx.equal((Fraction(least), Fraction(greatest)), (Fraction(lo), Fraction(hi)), 'limits of {}'.format(t))
            ctx.require(dt.PY_TYPES[t] is (float if t.value in ('ibm', 'float32') else int), 'python type of {}', t)
            for endian in '<>':
                if t.value == 'float32':
                    fh = io.BytesIO()
                    write_trace_samples(fh, [least, greatest], t, endian)
                    ctx.equal(len(fh.getvalue()), 8, 'bytes of the limits of float32')
                else:
                    self.round_trip(ctx, t.value, endian, [dt.PY_TYPES[t](least), dt.PY_TYPES[t](greatest), dt.PY_TYPES[t](0)])
            if fmt:
                f = dt.DataSampleFormat(fmt)
                ctx.equal(dt.data_sample_format_size_in_bytes(f), size, 'size of {}'.format(f))
                ctx.equal(dt.data_sample_format_description(f), words, 'description of {}'.format(f))
                m = spaces.build(dict(fmt=fmt, lens=[3, 2]))
                reader = sut.open_reader(m.to_bytes())
                ctx.equal(bytes_per_sample(reader.binary_reel_header), size, 'bytes_per_sample of {}'.format(f))
                ctx.equal(reader.bytes_per_sample, size, 'reader.bytes_per_sample of {}'.format(f))
                ctx.equal(reader.data_sample_format_description, words, 'reader.data_sample_format_description of {}'.format(f))
                ctx.require(reader.data_sample_format == t, 'reader.data_sample_format of {} is {}', f, reader.data_sample_format)
            ctx.state(t.value)
            ctx.transition(10)
        for bad in ('', 'q', 'd', 'int32', 'IBM', 'x', None, 4):
            ctx.raises(ValueError, lambda: dt.size_in_bytes(bad), 'size_in_bytes({!r})'.format(bad))
        ctx.equal(dict(dt.ENDIAN), {'<': 'little', '>': 'big'}, 'byte orders')
        for bad in range(-5, 300):
            if bad not in CODES:
                ctx.raises(ValueError, lambda: dt.DataSampleFormat(bad), 'DataSampleFormat({})'.format(bad))
                class R:
                    data_sample_format = bad
                ctx.raises(ValueError, lambda: bytes_per_sample(R), 'bytes_per_sample of format {}'.format(bad))
        # Too few bytes
        for name, (code, size, lo, hi, fmt) in TYPES.items():
            for n, short_by, endian in itertools.product(range(1, 6), range(1, 9), '<>'):
                if short_by <= n * size:
                    fh = io.BytesIO(bytes(n * size - short_by))
                    ctx.raises(EOFError, lambda: read_binary_values(fh, None, dt.SegYType(name), n, endian), '{} {} from {} bytes too few'.format(n, name, short_by))
                    ctx.transition()


class Given(sut.MemDataset):
    """Gives the samples as they are held."""

    def __init__(self, m, holder=list):
        super().__init__(m)
        self._holder = holder

    def trace_samples(self, trace_index, start=None, stop=None):
        return self._holder(self._m.traces[trace_index][1])[start:stop]


CHECK = P33()
