"""An independent, deliberately plain model of the SEG-Y format.

Nothing here is derived from segpy at run time: the byte positions come from the SEG Y rev 1 specification
(fields.json, frozen), and encoding is done with struct, one field at a time.
"""
import json
import os
import struct
from fractions import Fraction

_HERE = os.path.dirname(os.path.abspath(__file__))

with open(os.path.join(_HERE, 'fields.json')) as _f:
    _raw = json.load(_f)

# name, position of first byte (one-based, as printed in the specification), size, min, max, legal values, default
REEL_FIELDS = [tuple(r) for r in _raw['reel']]
TRACE1_FIELDS = [tuple(r) for r in _raw['trace1']]
TRACE0_FIELDS = [r for r in TRACE1_FIELDS if r[1] < 181]

# data sample format code -> (segy type, struct code, size)
FORMATS = {1: ('ibm', None, 4), 2: ('int32', 'i', 4), 3: ('int16', 'h', 2), 5: ('float32', 'f', 4), 8: ('int8', 'b', 1)}

TEXT_BYTES = 3200
REEL_BYTES = 400
HEADERS_BYTES = TEXT_BYTES + REEL_BYTES
TRACE_BYTES = 240
END_TEXT = '((SEG: EndText))'


def fields_of(kind):
    return {'reel': REEL_FIELDS, 'trace0': TRACE0_FIELDS, 'trace1': TRACE1_FIELDS}[kind]


def encode_header(fields, first_byte, length, values, endian):
    buf = bytearray(length)
    for name, pos, size, lo, hi, legal, default in fields:
        v = int(values.get(name, default))
        struct.pack_into(endian + {1: 'b', 2: 'h', 4: 'i'}[size], buf, pos - first_byte, v)
    return bytes(buf)


def decode_header(fields, first_byte, buf, endian):
    return {name: struct.unpack_from(endian + {1: 'b', 2: 'h', 4: 'i'}[size], buf, pos - first_byte)[0]
            for name, pos, size, lo, hi, legal, default in fields}


def encode_reel(values, endian):
    return encode_header(REEL_FIELDS, 3201, REEL_BYTES, values, endian)


def encode_trace_header(kind, values, endian):
    return encode_header(fields_of(kind), 1, TRACE_BYTES, values, endian)


def defaults(kind):
    return {f[0]: f[6] for f in fields_of(kind)}


# ---- IBM hexadecimal floating point ---------------------------------------------------------------

def ibm_value(b):
    """The exact value of four bytes."""
    sign = -1 if b[0] & 0x80 else 1
    mantissa = (b[1] << 16) | (b[2] << 8) | b[3]
    e = (b[0] & 0x7f) - 64 - 6
    return sign * (Fraction(mantissa) * 16 ** e if e >= 0 else Fraction(mantissa, 16 ** -e))


IBM_MAX = Fraction(0xffffff) * 16 ** 57
IBM_TINY = Fraction(1, 16 ** 70)


def ibm_encode(x):
    """Encode an exact rational: truncate toward zero to the normalised 24-bit form (subnormal at the bottom).

    Returns four bytes, 'overflow' or 'underflow'.
    """
    x = Fraction(x)
    if x == 0:
        return b'\0\0\0\0'
    sign = 0x80 if x < 0 else 0
    m = abs(x)
    if m > IBM_MAX:
        return 'overflow'
    e = -64
    # Smallest e >= -64 with m < 16**e
    num, den = m.numerator, m.denominator
    approx = (num.bit_length() - den.bit_length()) // 4 - 2
    e = max(-64, approx)
    while not (num < den * 16 ** e if e >= 0 else num * 16 ** -e < den):
        e += 1
    k = 6 - e
    mantissa = (num * 16 ** k) // den if k >= 0 else num // (den * 16 ** -k)
    if mantissa == 0:
        return 'underflow'
    return bytes([sign | (e + 64), mantissa >> 16 & 255, mantissa >> 8 & 255, mantissa & 255])


# ---- text -----------------------------------------------------------------------------------------

# cp037, written out from the code page table rather than taken from the codec in use.
_CP037 = {' ': 0x40, '.': 0x4b, '<': 0x4c, '(': 0x4d, '+': 0x4e, '|': 0x4f, '&': 0x50, '!': 0x5a, '$': 0x5b,
          '*': 0x5c, ')': 0x5d, ';': 0x5e, '-': 0x60, '/': 0x61, ',': 0x6b, '%': 0x6c, '_': 0x6d, '>': 0x6e,
          '?': 0x6f, '`': 0x79, ':': 0x7a, '#': 0x7b, '@': 0x7c, "'": 0x7d, '=': 0x7e, '"': 0x7f, '~': 0xa1,
          '^': 0xb0, '[': 0xba, ']': 0xbb, '{': 0xc0, '}': 0xd0, '\\': 0xe0, '\r': 0x0d, '\n': 0x25, '\0': 0,
          '\t': 0x05}
for _i in range(9):
    _CP037['abcdefghi'[_i]] = 0x81 + _i
    _CP037['jklmnopqr'[_i]] = 0x91 + _i
    _CP037['ABCDEFGHI'[_i]] = 0xc1 + _i
    _CP037['JKLMNOPQR'[_i]] = 0xd1 + _i
for _i in range(8):
    _CP037['stuvwxyz'[_i]] = 0xa2 + _i
    _CP037['STUVWXYZ'[_i]] = 0xe2 + _i
for _i in range(10):
    _CP037['0123456789'[_i]] = 0xf0 + _i

# The whole code page, in the order of the codes
CP037_TABLE = ('\x00\x01\x02\x03\x9c\t\x86\x7f\x97\x8d\x8e\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x9d\x85\x08\x87\x18\x19\x92\x8f\x1c\x1d\x1e\x1f'
               '\x80\x81\x82\x83\x84\n\x17\x1b\x88\x89\x8a\x8b\x8c\x05\x06\x07\x90\x91\x16\x93\x94\x95\x96\x04\x98\x99\x9a\x9b\x14\x15\x9e\x1a'
               ' \xa0\xe2\xe4\xe0\xe1\xe3\xe5\xe7\xf1\xa2.<(+|&\xe9\xea\xeb\xe8\xed\xee\xef\xec\xdf!$*);\xac'
               '-/\xc2\xc4\xc0\xc1\xc3\xc5\xc7\xd1\xa6,%_>?\xf8\xc9\xca\xcb\xc8\xcd\xce\xcf\xcc`:#@\'="'
               '\xd8abcdefghi\xab\xbb\xf0\xfd\xfe\xb1\xb0jklmnopqr\xaa\xba\xe6\xb8\xc6\xa4'
               '\xb5~stuvwxyz\xa1\xbf\xd0\xdd\xde\xae^\xa3\xa5\xb7\xa9\xa7\xb6\xbc\xbd\xbe[]\xaf\xa8\xb4\xd7'
               '{ABCDEFGHI\xad\xf4\xf6\xf2\xf3\xf5}JKLMNOPQR\xb9\xfb\xfc\xf9\xfa\xff'
               '\\\xf7STUVWXYZ\xb2\xd4\xd6\xd2\xd3\xd50123456789\xb3\xdb\xdc\xd9\xda\x9f')
assert len(set(CP037_TABLE)) == 256 and all(CP037_TABLE[_code] == _c for _c, _code in _CP037.items())
_CP037.update((_c, _code) for _code, _c in enumerate(CP037_TABLE))

PRINTABLE = ''.join(c for c in map(chr, range(32, 127)))
assert all(c in _CP037 for c in PRINTABLE)


def encode_text(text, encoding):
    if encoding == 'ascii':
        return bytes(ord(c) for c in text)
    assert encoding == 'cp037'
    return bytes(_CP037[c] for c in text)


def pad_line(line, width=80):
    return (line + ' ' * width)[:width]


# ---- samples --------------------------------------------------------------------------------------

def encode_samples(fmt, values, endian):
    if fmt == 1:
        out = []
        for v in values:
            b = ibm_encode(v) if not isinstance(v, (bytes, bytearray)) else bytes(v)
            assert isinstance(b, bytes), (v, b)
            out.append(b)
        return b''.join(out)
    code = FORMATS[fmt][1]
    return b''.join(struct.pack(endian + code, v) for v in values)


def sample_key(fmt, value):
    """A comparable rendering of a sample value as read: bit-faithful for float32 (so -0.0 and NaN count)."""
    if fmt == 1:
        f = float(value)
        return Fraction(f)
    if fmt == 5:
        f = float(value)
        return 'nan' if f != f else struct.pack('>f', f)
    if isinstance(value, float):
        raise TypeError('float sample in an integer format')
    return int(value)


def expected_key(fmt, value):
    """The rendering sample_key() should give for a value which was written."""
    if fmt == 1:
        b = bytes(value) if isinstance(value, (bytes, bytearray)) else ibm_encode(value)
        return ibm_value(b)
    if fmt == 5:
        return 'nan' if value != value else struct.pack('>f', value)
    return int(value)


# ---- whole files ----------------------------------------------------------------------------------

class Model:
    """The logical content of one SEG-Y file."""

    def __init__(self, lines, reel, traces, encoding='ascii', endian='>', pages=(), kind='trace1'):
        self.lines = [pad_line(l) for l in lines] + [' ' * 80] * (40 - len(lines))
        self.reel = dict(defaults('reel'), **reel)
        self.encoding = encoding
        self.endian = endian
        self.pages = [list(p) for p in pages]
        self.kind = kind
        self.traces = []
        for header, samples in traces:
            h = dict(defaults(kind), num_samples=len(samples))
            h.update(header)
            self.traces.append((h, list(samples)))

    @property
    def fmt(self):
        return self.reel['data_sample_format']

    def replaced(self, **kw):
        m = object.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.__dict__.update(kw)
        return m

    def to_bytes(self, fill=None):
        """Serialise.  fill, if given, is the byte put in every unassigned position of the headers."""
        out = [encode_text(''.join(self.lines), self.encoding)]
        out.append(_filled(REEL_FIELDS, 3201, encode_reel(self.reel, self.endian), fill))
        for page in self.pages:
            assert len(page) == 40 and all(len(l) == 80 for l in page)
            out.append(encode_text(''.join(page), self.encoding))
        for header, samples in self.traces:
            out.append(_filled(fields_of(self.kind), 1, encode_trace_header(self.kind, header, self.endian), fill))
            out.append(encode_samples(self.fmt, samples, self.endian))
        return b''.join(out)

    def offsets(self):
        pos = HEADERS_BYTES + len(self.pages) * TEXT_BYTES
        size = FORMATS[self.fmt][2]
        result = []
        for header, samples in self.traces:
            result.append(pos)
            pos += TRACE_BYTES + len(samples) * size
        return result, pos


def _filled(fields, first_byte, buf, fill):
    if not fill:
        return buf
    used = set()
    for name, pos, size, *_ in fields:
        used.update(range(pos - first_byte, pos - first_byte + size))
    return bytes(b if i in used else fill for i, b in enumerate(buf))


# ---- survey indexing ------------------------------------------------------------------------------

def survey(model_traces, has_lines=True, has_cdp=True):
    """What the specification of the reader says about indexing, from the headers alone.

    Returns (kind, index) where kind is 1, 2 or 3 and index maps a cdp or an (inline, crossline) to a trace.
    """
    if has_lines:
        lines = [(h['inline_number'], h['crossline_number']) for h, _ in model_traces]
        if len(set(lines)) == len(lines):
            return 3, {k: i for i, k in enumerate(lines)}
    if has_cdp:
        cdps = [h['ensemble_num'] for h, _ in model_traces]
        if len(set(cdps)) == len(cdps):
            return 2, {k: i for i, k in enumerate(cdps)}
    return 1, {}
