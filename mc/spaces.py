"""Bounded spaces of SEG-Y files, shared by several checks.  A spec is plain JSON; build() makes the model."""
import itertools
import struct

from mc import ref

ENCODINGS = ('ascii', 'cp037')
ENDIANS = ('>', '<')
FMTS = (1, 2, 3, 5, 8)
KINDS = ('trace1', 'trace0')
STYLES = ('fresh', 'reused', 'reused_header', 'reused_samples', 'reused_array', 'array', 'tuple', 'memo')


def f32(x):
    return struct.unpack('>f', struct.pack('>f', x))[0]


def f32_bits(bits):
    return struct.unpack('>f', struct.pack('>I', bits))[0]


POOLS = {
    1: [0.0, 1.0, -1.0, 0.1, 1 / 3, -118.625, 16.0, 15.999999, 255.99999999, 16777215.0, -16777216.0, 16777217.0,
        float(ref.IBM_MAX), -float(ref.IBM_MAX), 5.397605346934028e-79, -1e-78, 2.0 ** -280, -2.0 ** -261, 3.14159e-70,
        1e70, 4096.0625, -0.0625, 0.5, 1e-10, 123456789.0, 2.5e-79],
    2: [0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 0x01020304,
        -0x01020304, 0x7fffffff, -0x80000000, 0x00ff00ff, -0x7f000001, 10 ** 9],
    3: [0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 0x0102, -0x0102, 32767, -32768, 32766, -32767, 0x00ff, 0x7f00],
    5: [0.0, -0.0, 1.0, -1.0, f32(0.1), f32(1 / 3), f32(3.4028234e38), f32(-3.4028234e38), f32_bits(1),
        f32_bits(0x80000001), f32_bits(0x007fffff), f32_bits(0x00800000), 1.5, -2.5, 65536.0, f32(1e-30), float('inf'),
        float('-inf'), float('nan'), 16777216.0, f32_bits(0x01020304)],
    8: [0, 1, -1, 127, -128, 126, -127, 64, -64, 0x55, 42, 7],
}

EXT = ('none', 'one', 'two', 'end', 'endonly', 'counted_end')
PAGE_CHARS = 'The quick brown fox 0123456789 :_-'


def page(k):
    lines = []
    for i in range(40):
        text = '' if (i + k) % 7 == 3 else 'page {} line {} {}'.format(k, i, PAGE_CHARS[(i + k) % 20:])
        lines.append(ref.pad_line(text, 78) + '\r\n')
    return lines


def end_page():
    return [ref.pad_line(ref.END_TEXT, 78) + '\r\n'] + [' ' * 78 + '\r\n'] * 39


def ext_pages(mode):
    """(declared number, pages)"""
    return {'none': (0, []),
            'one': (1, [page(1)]),
            'two': (2, [page(1), page(2)]),
            'end': (-1, [page(1), end_page()]),
            'endonly': (-1, [end_page()]),
            'counted_end': (2, [page(3), end_page()]),
            'three': (3, [page(4), page(5), page(6)])}[mode]


def uniform_page(c):
    return [c * 80] * 40


def uniform_pages(names, c, open_ended):
    """Pages, those which are named 'uniform' of nothing but the character c: (declared number, pages)."""
    pages = [uniform_page(c) if name == 'uniform' else page(i) for i, name in enumerate(names)] + [end_page()] * open_ended
    return (-1 if open_ended else len(pages)), pages


def all_alike(fields, value):
    """Every field which may have it given the same value."""
    return {f[0]: value for f in fields if f[3] <= value <= f[4] and (f[5] is None or value in f[5])}


def text_lines(k=0):
    return ['C{:2d} {}'.format(i + 1, 'CLIENT line number {} of header {}'.format(i + 1, k)[:76]) for i in range(40)]


def printable_lines(k):
    n = len(ref.PRINTABLE)
    return [''.join(ref.PRINTABLE[(i * 80 + j + k) % n] for j in range(80)) for i in range(40)]


def code_lines(encoding, k):
    """Forty lines of every character the encoding has, control characters included."""
    codes = [chr(c) for c in range(128)] if encoding == 'ascii' else ref.CP037_TABLE
    return [''.join(codes[(i * 80 + j + k) % len(codes)] for j in range(80)) for i in range(40)]


def run_lines(encoding, k):
    """Forty lines, each of which begins, ends, or does both, with a run of one character (or is nothing else):
    k runs over the characters and the four positions."""
    codes = [chr(c) for c in range(128)] if encoding == 'ascii' else ref.CP037_TABLE
    first, where = divmod(k, 4)
    lines = []
    for i in range(40):
        c = codes[(first * 40 + i) % len(codes)]
        text = 'C{:2d} LINE'.format(i + 1)
        n = 1 + i % 7 if i % 2 else 40
        lines.append((text.ljust(80 - n, 'x') + c * n, c * n + text.rjust(80 - n, 'x'), c * 80,
                      c * 20 + text.ljust(40, c) + c * 20)[where])
    return lines


def samples(fmt, n, k):
    pool = POOLS[fmt]
    return [pool[(k + i) % len(pool)] for i in range(n)]


def boundary_values(field, dense=False):
    """Legal values of a field worth distinguishing."""
    name, pos, size, lo, hi, legal, default = field
    if legal is not None:
        return list(legal)
    vals = {lo, lo + 1, hi, hi - 1, 0, 1, -1, default, 2, 0x0102, -0x0102, 127, 128, 255, 256, -128, -129, -256}
    if size == 4:
        vals.update([0x01020304, -0x01020304, 32767, 32768, -32768, -32769, 65535, 65536, 0x00ff00ff, 0x7f0000])
    if dense:
        bits = size * 8
        for b in range(bits):
            for d in (-1, 0, 1):
                vals.update([2 ** b + d, -2 ** b + d])
    return sorted(v for v in vals if lo <= v <= hi)


def build(spec):
    """spec -> ref.Model"""
    fmt = spec.get('fmt', 5)
    kind = spec.get('kind', 'trace1')
    k = spec.get('k', 0)
    declared, pages = uniform_pages(**spec['uniform']) if 'uniform' in spec else ext_pages(spec.get('ext', 'none'))
    reel = {'data_sample_format': fmt, 'num_extended_textual_headers': declared, 'sample_interval': 4000 + k % 7}
    reel.update(spec.get('reel', {}))
    lens = spec.get('lens', [])
    traces = []
    geometry = spec.get('geometry')
    for i, n in enumerate(lens):
        h = {'line_sequence_num': i + 1, 'ensemble_num': 100 + i, 'trace_num': -i}
        if kind == 'trace1':
            h.update(inline_number=1 + i // 2, crossline_number=1 + i % 2)
        if geometry:
            il, xl, cdp = geometry[i]
            h['ensemble_num'] = cdp
            if kind == 'trace1':
                h.update(inline_number=il, crossline_number=xl)
        h.update(spec.get('hdr', {}))
        h.update(spec.get('hdrs', {}).get(str(i), {}))
        if 'values' in spec:
            vals = spec['values'][i]
            if fmt == 1:
                vals = [bytes.fromhex(v) if isinstance(v, str) else v for v in vals]
            if fmt == 5:
                vals = [f32_bits(int(v, 16)) if isinstance(v, str) else v for v in vals]
        else:
            vals = samples(fmt, n, k + 3 * i)
        h['num_samples'] = len(vals)
        traces.append((h, vals))
    reel.setdefault('num_samples', max([len(s) for _, s in traces], default=0))
    if 'codes' in spec:
        lines = code_lines(spec['codes'], k)
    elif 'runs' in spec:
        lines = run_lines(spec['runs'], k)
    elif 'printable' in spec:
        lines = printable_lines(spec['printable'])
    else:
        lines = spec.get('lines') or text_lines(k)
    return ref.Model(lines, reel, traces, spec.get('enc', 'ascii'), spec.get('endian', '>'), pages, kind)


def ibm_patterns(a, b):
    """The four bytes, in hexadecimal, of IBM floats with the first byte a: unnormalised ones and the many zeros too."""
    return ['%02x%02x%02x%02x' % (a, x, c, d) for x in b for c, d in ((0, 0), (0, 1), (0xab, 0xcd))]


def pattern_specs(per_file=1):
    """Files in which the samples have every first byte of an IBM float, or every sign and exponent of a float32."""
    for a in range(0, 256, per_file):
        vals = [v for i in range(per_file) for v in ibm_patterns(a + i, (0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xff))]
        yield dict(fmt=1, lens=[len(vals)], values=[vals])
    for e in range(0, 256, per_file):
        vals = ['%08x' % (sign << 31 | (e + i) << 23 | m) for i in range(per_file) for sign in (0, 1) for m in (0, 1, 0x400000, 0x7fffff)
                if (e + i, m) != (255, 1)]
        yield dict(fmt=5, endian='><'[e // per_file % 2], lens=[len(vals)], values=[vals])


DECIMAL_LENGTHS = [n + d for n in (10, 20, 50, 100, 200, 250, 300, 400, 500, 1500, 2000, 2500, 3000, 4000, 5000, 6000, 8000, 10000, 12000, 15000,
                              20000, 24000, 25000, 30000, 32000) for d in (-1, 0, 1)]


def length_vectors(max_traces, lengths):
    for n in range(max_traces + 1):
        yield from itertools.product(lengths, repeat=n)


def many(n, geometry, odd, endian='>'):
    """(start of a file, headers and samples of n traces of one byte each but the last but one): the bytes of a file of many traces."""
    m = build(dict(fmt=8, lens=[1], endian=endian))
    first = m.to_bytes()[:3600]
    base = bytearray(ref.encode_trace_header('trace1', dict(ref.defaults('trace1'), num_samples=1), endian))
    headers, samples = [], []
    for i in range(n):
        length = odd if i == n - 2 else 1
        h = dict(line_sequence_num=i + 1, ensemble_num=i * 2 if geometry == 'cdp' else 5, inline_number=1 + i // 100 if geometry == 'lines' else 1,
                 crossline_number=1 + i % 100 if geometry == 'lines' else 1, num_samples=length)
        headers.append(h)
        samples.append([(i + j) % 251 - 125 for j in range(length)])
    chunks = [first]
    for h, s in zip(headers, samples):
        struct.pack_into(endian + 'i', base, 0, h['line_sequence_num'])
        struct.pack_into(endian + 'i', base, 20, h['ensemble_num'])
        struct.pack_into(endian + 'h', base, 114, h['num_samples'])
        struct.pack_into(endian + 'ii', base, 188, h['inline_number'], h['crossline_number'])
        chunks.append(bytes(base))
        chunks.append(struct.pack('%db' % len(s), *s))
    return m, headers, samples, b''.join(chunks)


MANY = [dict(many=n, geometry=g, odd=odd, endian='<>'[k % 2]) for k, (n, g, odd) in enumerate(
    [(10001, 'none', 0), (16385, 'lines', 3), (20001, 'cdp', 1), (32769, 'lines', 1), (40000, 'cdp', 2), (65537, 'none', 1), (70001, 'lines', 2), (100003, 'cdp', 0)])]


def file_specs(tier):
    """The common space of whole files (see DESIGN.md)."""
    thorough = tier == 'thorough'
    k = 0
    # A. every configuration x every vector of trace lengths
    vectors = list(length_vectors(2, (0, 1, 2, 3)))
    vectors += list(itertools.product((0, 1, 2), repeat=3))
    if thorough:
        vectors = list(length_vectors(3, (0, 1, 2, 3))) + list(itertools.product((0, 1, 2), repeat=4))
    for fmt, enc, endian, kind, ext in itertools.product(FMTS, ENCODINGS, ENDIANS, KINDS, EXT):
        for lens in vectors:
            if not thorough and len(lens) > 1 and (kind == 'trace0' or enc == 'cp037') and ext not in ('none', 'end'):
                continue
            k += 1
            yield dict(fmt=fmt, enc=enc, endian=endian, kind=kind, ext=ext, lens=list(lens), k=k % 97)
    # B. every field at every boundary value
    for endian in ENDIANS:
        for kind in KINDS:
            for field in ref.fields_of(kind):
                if field[0] == 'num_samples':
                    continue
                for v in boundary_values(field, thorough):
                    yield dict(fmt=8, endian=endian, kind=kind, lens=[1, 1], hdr={field[0]: v})
        for field in ref.REEL_FIELDS:
            if field[0] in ('data_sample_format', 'num_extended_textual_headers'):
                continue
            for v in boundary_values(field, thorough):
                yield dict(fmt=3, endian=endian, lens=[2], reel={field[0]: v})
    # C. every printable character in every position class of the text
    for enc in ENCODINGS:
        for j in range(0, 95, 1 if thorough else 19):
            yield dict(fmt=2, enc=enc, lens=[1], printable=j)
        for j in range(0, 128, 5 if thorough else 31):
            yield dict(fmt=2, enc=enc, lens=[1], codes=enc, k=j)
            yield dict(fmt=2, enc=enc, lens=[1], codes='ascii', k=j, ext='end')
        for j in range(4 * (4 if enc == 'ascii' else 7)):
            yield dict(fmt=2, enc=enc, lens=[1], runs=enc, k=j, ext='two' if j % 2 else 'none')
    # D. trace lengths at powers of two and at the limit
    for fmt in FMTS:
        for endian in ENDIANS:
            for n in (4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000,
                      1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097):
                yield dict(fmt=fmt, endian=endian, lens=[n, 1], k=n % 5)
            for n in (8191, 8192, 16383, 16384, 16385, 32766, 32767):
                if thorough or (fmt in (3, 8)) or n in (8192, 16384, 32767) and endian == '>':
                    yield dict(fmt=fmt, endian=endian, lens=[1, n, 2], k=1)
        for n in DECIMAL_LENGTHS if fmt != 1 or thorough else DECIMAL_LENGTHS[:30]:
            yield dict(fmt=fmt, endian='<>'[n % 2], lens=[n, 1], k=n % 5)
    # E. numbers of traces
    for n in (5, 8, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300) + ((1000, 4096, 10000, 70000) if thorough
                                                                                  else (1000,)):
        for pattern in ([1], [0], [2, 1], [3, 0, 1]):
            yield dict(fmt=8, lens=[pattern[i % len(pattern)] for i in range(n)])
    # ... of which all but one, after many, have the same length
    for n in (10, 16, 50, 64, 100, 128, 200, 250, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000,
              2048, 4096, 5000) + ((10000, 16384, 32768, 65535, 65536, 100000) if thorough else ()):
        for odd in (0, 3):
            yield dict(fmt=(8, 3)[n % 2], lens=[1] * n + [odd, 1])
    # F. every pool value in every position of a short trace
    for fmt in FMTS:
        for endian in ENDIANS:
            for j in range(len(POOLS[fmt])):
                yield dict(fmt=fmt, endian=endian, lens=[1, 2, 3], k=j)
    # G. datasets which hand out one header or one series of samples again and again, or series of other types
    for fmt, endian, style in itertools.product(FMTS, ENDIANS, STYLES[1:]):
        for lens in ([2, 2], [3, 3, 3], [1, 2, 0, 2], [0, 0], [4] * 6):
            k += 1
            yield dict(fmt=fmt, endian=endian, style=style, lens=lens, k=k % 11)
            yield dict(fmt=fmt, endian=endian, style=style, lens=lens, k=k % 11, kind='trace0', ext='one', enc='cp037')
    # H. parts all of whose characters or fields are alike
    for enc, c in itertools.product(ENCODINGS, '\0 @a\n\r\x1a'):
        k += 1
        yield dict(fmt=3, enc=enc, lens=[1], lines=uniform_page(c), k=k % 11)
        for names in itertools.chain.from_iterable(itertools.product(('uniform', 'page'), repeat=n) for n in (1, 2, 3)):
            for open_ended in (False, True):
                if 'uniform' in names:
                    yield dict(fmt=3, enc=enc, endian='<>'[k % 2], lens=[[1, 2], [], [0]][k % 3], uniform=dict(names=names, c=c, open_ended=open_ended))
                    k += 1
    for fmt, endian, kind, value in itertools.product((1, 2, 8), ENDIANS, KINDS, (0, -1, 0x01010101, 0x0101, 0x2020, 0x20202020)):
        alike = all_alike(ref.fields_of(kind), value)
        geometry = [(alike.get('inline_number', 0), alike.get('crossline_number', 0), alike['ensemble_num'])] if 'ensemble_num' in alike else None
        for lens in ([0], [0, 1], [1, 0, 1], [1, 0], [0, 0, 0], [2, 0, 0, 1], [1, 1]):
            # One of the traces, then all of them
            for i in range(len(lens)):
                yield dict(fmt=fmt, endian=endian, kind=kind, lens=lens, hdrs={str(i): alike})
            yield dict(fmt=fmt, endian=endian, kind=kind, lens=lens, hdr=alike, geometry=geometry * len(lens) if geometry else None)
        alike = all_alike(ref.REEL_FIELDS, value)
        for name in ('data_sample_format', 'num_extended_textual_headers', 'format_revision_num'):
            alike.pop(name, None)
        yield dict(fmt=fmt, endian=endian, kind=kind, lens=[1, 0], reel=alike)
