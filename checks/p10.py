import math
from fractions import Fraction

from segpy.ibm_float import IBMFloat, ibm2ieee, ieee2ibm
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats

from mc.engine import Check
from mc import ref

MANTISSAS = sorted(set(
    [0, 1, 2, 3, 0xf, 0x10, 0x11, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0xfffff, 0x100000, 0x100001, 0x123456,
     0x1fffff, 0x200000, 0x200001, 0x3fffff, 0x400000, 0x400001, 0x7fffff, 0x800000, 0x800001, 0xabcdef, 0xfffffe, 0xffffff]
    + [1 << i for i in range(24)] + [(1 << i) - 1 for i in range(25)] + [0xffffff ^ (1 << i) for i in range(24)]
    + [b << s for b in (0x01, 0x80, 0xff, 0x5a) for s in (0, 8, 16)]))


def double(e, frac, sign):
    """The double with biased exponent e and 52-bit fraction frac."""
    import struct
    return struct.unpack('>d', struct.pack('>Q', (sign << 63) | (e << 52) | frac))[0]


def fractions_of(tier):
    """Significands around every truncation boundary: 24-bit mantissas lose 29..32 low bits of a double."""
    out = {0, 1, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) - 1, 0x123456789abcd, 0xfedcba9876543, 0x8000000000001}
    for kept in (20, 21, 22, 23, 24):
        low = 53 - kept
        for d in (-1, 0, 1):
            out.add(((1 << low) + d) & ((1 << 52) - 1))          # one unit of the last kept place
            out.add((1 << 52) - (1 << low) + d)                  # all ones in the kept places
            out.add((1 << (low - 1)) + d)                        # half a unit
    if tier == 'thorough':
        for i in range(52):
            for d in (-1, 0, 1):
                out.add(((1 << i) + d) & ((1 << 52) - 1))
                out.add((((1 << 52) - (1 << i)) + d) & ((1 << 52) - 1))
    return sorted(x for x in out if 0 <= x < 1 << 52)


class P10(Check):
    id = 'P10'
    level = 'model_checking'
    technique = 'exhaustive enumeration of exponents x significand patterns through the real codec, against exact rationals'
    level_note = ('Every IBM sign/exponent byte and every double exponent and sign is covered; significands are the patterns at '
                  'the boundaries of truncation and all single-bit patterns, not all 2^24 (2^52). thorough: every 16-bit leading '
                  'mantissa for every sign/exponent byte.')
    rule = ('A case is one sign/exponent byte (decoding) or one double exponent (encoding) with all significand patterns; states '
            'are distinct (input, output) pairs, transitions conversions executed; a trace is a decode or encode compared with '
            'exact arithmetic.')

    def cases(self, tier):
        for a in range(256):
            yield dict(decode=a)
        for e in range(0, 2048):
            yield dict(encode=e)
        yield dict(special=True)
        for n in list(range(0, 12)) + [255, 256, 257, 1000]:
            yield dict(sequence=n)
        if tier == 'thorough':
            for a in range(256):
                for hi in range(0, 256, 16):
                    yield dict(decode=a, block=hi)

    def run(self, case, ctx):
        ctx.sample(case)
        if 'decode' in case:
            a = case['decode']
            if 'block' in case:
                mantissas = [(b << 16) | (c << 8) | d for b in range(case['block'], case['block'] + 16) for c in range(256)
                             for d in (0, 1, 255)]
            else:
                mantissas = MANTISSAS
            for m in mantissas:
                self.decode(ctx, bytes([a, m >> 16, m >> 8 & 255, m & 255]))
        elif 'encode' in case:
            e = case['encode']
            for frac in fractions_of('thorough'):
                for sign in (0, 1):
                    self.encode(ctx, double(e, frac, sign))
        elif 'sequence' in case:
            self.sequence(ctx, case['sequence'])
        else:
            self.special(ctx)

    def decode(self, ctx, raw):
        value = ref.ibm_value(raw)
        ctx.transition(2)
        got = ibm2ieee(raw)
        ctx.require(type(got) is float, 'ibm2ieee({}) is {}', raw.hex(), got)
        ctx.require(Fraction(got) == value, 'ibm2ieee({}): expected exactly {}, got {}', raw.hex(), value, got)
        x = IBMFloat.from_bytes(raw)
        ctx.require(bytes(x) == raw, 'bytes(IBMFloat({}))', raw.hex())
        ctx.require(Fraction(float(x)) == value, 'float(IBMFloat({})): expected {}', raw.hex(), value)
        n, d = x.as_integer_ratio()
        ctx.require(Fraction(n, d) == value and d > 0 and math.gcd(n, d) == 1, 'as_integer_ratio({}) is {}/{}', raw.hex(), n, d)
        ctx.state(raw)
        ctx.trace()
        # Encoding a decoded value gives back a representation of the same value, except that an unnormalised
        # form below the smallest normalised... has the same value in every case: no bits can be lost.
        ctx.transition()
        back = ieee2ibm(got)
        ctx.require(ref.ibm_value(back) == value, 'ieee2ibm(ibm2ieee({})) is {}', raw.hex(), back.hex())
        ctx.require(back == ref.ibm_encode(value), 'ieee2ibm(ibm2ieee({})) is {}', raw.hex(), back.hex())

    def encode(self, ctx, f):
        ctx.transition(2)
        ctx.trace()
        if f != f or f in (math.inf, -math.inf):
            for fn in (ieee2ibm, IBMFloat.from_float, IBMFloat.from_real, IBMFloat.from_float_without_underflow):
                ctx.raises(ValueError, lambda: fn(f), '{}({!r})'.format(fn.__name__, f))
            return
        expected = ref.ibm_encode(Fraction(float(f)))  # ints are taken as floats
        ctx.state((f, expected))
        if expected == 'overflow':
            for fn in (ieee2ibm, IBMFloat.from_float, IBMFloat.from_float_without_underflow):
                ctx.raises(OverflowError, lambda: fn(f), '{}({!r})'.format(fn.__name__, f))
        elif expected == 'underflow':
            for fn in (ieee2ibm, IBMFloat.from_float, IBMFloat.from_real):
                ctx.raises(FloatingPointError, lambda: fn(f), '{}({!r})'.format(fn.__name__, f))
            ctx.equal(bytes(IBMFloat.from_float_without_underflow(f)), bytes(4), 'from_float_without_underflow({!r})'.format(f))
        else:
            got = ctx.call(lambda: ieee2ibm(f), 'ieee2ibm({!r})'.format(f))
            ctx.require(got == expected, 'ieee2ibm({}): expected {}, got {}', f, expected.hex(), got.hex())
            got = bytes(IBMFloat.from_float_without_underflow(f))
            ctx.require(got == expected, 'from_float_without_underflow({}): expected {}, got {}', f, expected.hex(), got.hex())
            got = bytes(IBMFloat.from_float(f))
            ctx.require(got == expected, 'from_float({}): expected {}, got {}', f, expected.hex(), got.hex())

    def special(self, ctx):
        for base in (float(ref.IBM_MAX), float(ref.IBM_TINY), float(Fraction(1, 16 ** 65)), 16.0 ** 62, 1.0, 16.0, 1 / 16,
                     5.397605346934028e-79, 7.2370051459731155e75, float(Fraction(0xffffff, 16 ** 70))):
            f = base
            for _ in range(40):
                f = math.nextafter(f, math.inf)
            for _ in range(80):
                self.encode(ctx, f)
                self.encode(ctx, -f)
                f = math.nextafter(f, -math.inf)
        for i in range(-300, 300):
            self.encode(ctx, i)
            self.encode(ctx, float(i))
            self.encode(ctx, i * 65537)
        for i in range(0, 60):
            for d in (-1, 0, 1):
                self.encode(ctx, 2 ** i + d)
                self.encode(ctx, -(2 ** i + d))
        for n in (0, 1, 2, 3, 5, 8):
            ctx.raises(ValueError, lambda: IBMFloat.from_bytes(bytes(n)), 'IBMFloat of {} bytes'.format(n))
        for s in range(256):
            self.decode(ctx, bytes([0x41, s, 255 - s, s]))

    def sequence(self, ctx, n):
        for offset in range(0, 40, 7):
            raws = [bytes([(37 * i + offset * 5) & 255, 0x10 + (i * 29 + offset) % 240, i & 255, (i * 7) & 255]) for i in range(n)]
            buf = b''.join(raws)
            ctx.transition(2)
            items = unpack_ibm_floats(buf, n)
            ctx.equal(len(items), n, 'number of items unpacked')
            ctx.equal([Fraction(float(x)) for x in items], [ref.ibm_value(r) for r in raws], 'unpacking {} items'.format(n))
            ctx.equal(pack_ibm_floats(items).hex(), buf.hex(), 'packing {} IBMFloats'.format(n))
            floats = [float(x) for x in items]
            expected = b''.join(ref.ibm_encode(f) for f in floats)
            ctx.equal(pack_ibm_floats(floats).hex(), expected.hex(), 'packing {} floats'.format(n))
            ctx.equal(pack_ibm_floats(iter(floats)).hex(), expected.hex(), 'packing an iterator of {} floats'.format(n))
            mixed = [x if i % 2 else float(x) for i, x in enumerate(items)]
            expected = b''.join(raws[i] if i % 2 else ref.ibm_encode(floats[i]) for i in range(n))
            ctx.equal(pack_ibm_floats(mixed).hex(), expected.hex(), 'packing {} mixed items'.format(n))
            ctx.state((n, offset))
            ctx.trace()
        for bad, exc in ((1e80, OverflowError), (math.nan, ValueError), (-math.inf, ValueError)):
            for at in range(min(n, 4)):
                values = [1.0] * n
                values[at] = bad
                ctx.raises(exc, lambda: pack_ibm_floats(values), 'packing {} at {} of {}'.format(bad, at, n))


CHECK = P10()
