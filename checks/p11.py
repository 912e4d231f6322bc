import copy
import math
import operator
import pickle
from fractions import Fraction

from segpy.ibm_float import IBMFloat

from mc.engine import Check, outcome
from mc import ref


def patterns(tier):
    out = [bytes(4), bytes([0x80, 0, 0, 0]), bytes([0x41, 0, 0, 0]), bytes([0xc1, 0, 0, 0]), bytes([0x7f, 0, 0, 0])]
    values = [1, 2, 3, 15, 16, 17, 255, 256, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24, 1 << 28, Fraction(1, 2), Fraction(1, 16),
              Fraction(3, 2), Fraction(5, 2), Fraction(255, 256), Fraction(4097, 16), Fraction(1, 3), Fraction(1, 10),
              Fraction(0xffffff, 0x100000), 10 ** 9, 10 ** 12, Fraction(1, 10 ** 6)]
    for v in values:
        for s in (1, -1):
            out.append(ref.ibm_encode(s * Fraction(v)))
    # unnormalised forms of the same or neighbouring values
    for a, m in ((0x42, 0x010000), (0x42, 0x020000), (0x43, 0x001000), (0x46, 0x000001), (0x46, 0x000010), (0x45, 0x00018), (0x47, 0x000001),
                 (0x43, 0x000800), (0x42, 0x00ffff), (0x41, 0x0fffff), (0x40, 0x000001), (0x44, 0x000fff), (0x48, 0x000001)):
        out.append(bytes([a, m >> 16, m >> 8 & 255, m & 255]))
        out.append(bytes([a | 0x80, m >> 16, m >> 8 & 255, m & 255]))
    # extremes
    for a in (0x00, 0x01, 0x05, 0x20, 0x3f, 0x60, 0x7e, 0x7f):
        for m in (1, 0x0fffff, 0x100000, 0xffffff):
            out.append(bytes([a, m >> 16, m >> 8 & 255, m & 255]))
            if tier == 'thorough' or m in (1, 0xffffff):
                out.append(bytes([a | 0x80, m >> 16, m >> 8 & 255, m & 255]))
    if tier == 'thorough':
        for a in (0x40, 0x41, 0x42, 0x44, 0x46, 0x47):
            for m in (0x000010, 0x000100, 0x001001, 0x010001, 0x123456, 0x800000, 0x7fffff, 0x888888, 0xf00000):
                out.append(bytes([a, m >> 16, m >> 8 & 255, m & 255]))
                out.append(bytes([a | 0x80, m >> 16, m >> 8 & 255, m & 255]))
    seen = []
    for b in out:
        if b not in seen:
            seen.append(b)
    return seen


PY_OTHERS = [0, 1, -1, 2, 16, 255, -256, 65536, 2 ** 24, 2 ** 24 + 1, 2 ** 53, -2 ** 53, True, 0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 0.1, 1 / 3,
             16777216.5, 1e-78, 5e-324, 1e75, 1e80, -1e80, 1.7976931348623157e308, 2.5, 1.0000000000000002, math.inf, -math.inf]
COMPARISONS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
ARITHMETIC = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '%': operator.mod,
              '//': operator.floordiv, '**': operator.pow}


def exact(x):
    if isinstance(x, IBMFloat):
        return ref.ibm_value(bytes(x))
    if isinstance(x, float) and math.isinf(x):
        return x
    return Fraction(x)


def same(a, b):
    """Equal floats, bit for bit but for NaN payloads."""
    return type(a) is type(b) and (a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b)


def relatives(a, m):
    """Other representations of the same number or, where some digits do not fit, of close ones."""
    out = []
    for k in range(1, 6):
        if (a & 0x7f) + k < 128:
            n = m >> 4 * k
            out.append((a + k, n))
            if m != n << 4 * k:
                out.append((a + k, n + 1))
    if m:
        out.append((a, m - 1))
    out.append((a ^ 0x80, m))
    return [bytes([e, n >> 16, n >> 8 & 255, n & 255]) for e, n in out]


FRACTIONS = {sign * f for sign in (1, -1) for f in [0.0, 1.0, 0.5, 0.75, 1 / 3, 0.1, 0.9999999999, 1 - 2.0 ** -24, 1 - 2.0 ** -53, 0.5 + 2.0 ** -25, 1.5, 2.0, 16.0,
                                                  math.nextafter(1, 2)] + [2.0 ** -k for k in range(2, 30)]}


class P11(Check):
    id = 'P11'
    level = 'model_checking'
    technique = 'exhaustive exploration of all operand pairs from a pattern set under every operator, against exact rationals'
    level_note = ('All ordered pairs of about 110 (thorough 240) byte patterns and with 32 Python numbers; unary operations also on '
                  'every exponent with every single-bit mantissa, each also compared with its other representations; ldexp at every exponent. Each is also compared with the integers around it, of any size, and with the adjacent floats. Hashes, copies and pickles too.')
    rule = ('A case is one left operand with every right operand and operator; transitions are operations executed, states the '
            'distinct (operands, operator) evaluated.')
    assumptions = ('Python double arithmetic is IEEE 754',)

    def cases(self, tier):
        for b in patterns(tier):
            yield dict(lhs=b.hex())
        for a in range(256):
            yield dict(exponent=a)
        for e in range(-262, 263, 2):
            yield dict(ldexp=e)

    def ldexp(self, ctx, e):
        for f in sorted(FRACTIONS):
            ctx.transition()
            got = outcome(lambda: IBMFloat.ldexp(f, e))
            what = 'IBMFloat.ldexp({!r}, {})'.format(f, e)
            if not -1 <= f <= 1 or not -256 <= e <= 255:
                ctx.equal(got, ('raised', 'ValueError'), what)
                continue
            want = ref.ibm_encode(Fraction(f) * Fraction(2) ** e)
            if want in ('overflow', 'underflow'):
                ctx.equal(got, ('raised', {'overflow': 'OverflowError', 'underflow': 'FloatingPointError'}[want]), what)
            else:
                ctx.require(got[0] == 'ok' and bytes(got[1]) == want, '{} is {}', what, got)
            ctx.state((f, e))

    def run(self, case, ctx):
        ctx.sample(case)
        if 'ldexp' in case:
            self.ldexp(ctx, case['ldexp'])
            self.ldexp(ctx, case['ldexp'] + 1)
            ctx.trace()
            return
        if 'exponent' in case:
            a = case['exponent']
            for m in sorted({0, 0xffffff, 0x100001, 0x0fffff} | {1 << i for i in range(24)} | {0xffffff ^ (1 << i) for i in range(24)}
                            | {(1 << i) - 1 for i in range(24)}):
                x = bytes([a, m >> 16, m >> 8 & 255, m & 255])
                self.unary(ctx, x)
                self.neighbours(ctx, x)
                for y in relatives(a, m):
                    self.compare(ctx, IBMFloat.from_bytes(x), IBMFloat.from_bytes(y))
                    self.compare(ctx, IBMFloat.from_bytes(y), IBMFloat.from_bytes(x))
            ctx.trace()
            return
        raw = bytes.fromhex(case['lhs'])
        self.unary(ctx, raw)
        self.neighbours(ctx, raw)
        x = IBMFloat.from_bytes(raw)
        others = [IBMFloat.from_bytes(b) for b in patterns(ctx.tier)] + PY_OTHERS
        for y in others:
            self.compare(ctx, x, y)
            self.arithmetic(ctx, x, y)
            if not isinstance(y, IBMFloat):
                self.compare(ctx, y, x)
                self.arithmetic(ctx, y, x)
        z = IBMFloat.from_bytes(raw)
        self.compare(ctx, x, z)
        ctx.equal(bytes(x), raw, 'bytes after all the operations')
        ctx.equal(x == x, True, 'x == x')
        for odd in ('a', None, b'', [1]):
            ctx.equal((x == odd, x != odd), (False, True), '{} compared with {!r}'.format(case['lhs'], odd))
        nan = math.nan
        ctx.equal([f(x, nan) for f in COMPARISONS.values()], [False, True, False, False, False, False], 'comparison with nan')
        ctx.trace()

    def neighbours(self, ctx, raw):
        x = IBMFloat.from_bytes(raw)
        v = ref.ibm_value(raw)
        n = math.floor(v)
        f = float(v)
        assert Fraction(f) == v
        for y in (n - 1, n, n + 1, n + 2, -n, 10 ** 400, -10 ** 400, f, math.nextafter(f, math.inf), math.nextafter(f, -math.inf),
                  v, v + Fraction(1, 10 ** 400), v - Fraction(1, 10 ** 400), v + Fraction(1, 3), -v * Fraction(3, 7)):
            self.compare(ctx, x, y)
            self.compare(ctx, y, x)
        for y in (math.inf, -math.inf):
            want = [op(0.0, y) for op in COMPARISONS.values()]
            ctx.equal([op(x, y) for op in COMPARISONS.values()], want, 'IBMFloat({}) compared with {}'.format(raw.hex(), y))
            ctx.equal([op(y, x) for op in COMPARISONS.values()], [op(y, 0.0) for op in COMPARISONS.values()],
                      '{} compared with IBMFloat({})'.format(y, raw.hex()))

    def compare(self, ctx, x, y):
        ex, ey = exact(x), exact(y)
        for name, f in COMPARISONS.items():
            ctx.transition()
            got = f(x, y)
            ctx.require(got is f(ex, ey), '{} {} {} is {}', x, name, y, got)
        ctx.state((repr(x), repr(y), 'compare'))

    def arithmetic(self, ctx, x, y):
        fx, fy = float(x), float(y)
        both = isinstance(x, IBMFloat) and isinstance(y, IBMFloat)
        for name, f in ARITHMETIC.items():
            ctx.transition()
            what = '{!r} {} {!r}'.format(x, name, y)
            if name == '//':
                expected = outcome(lambda: math.floor(fx / fy))
                got = outcome(lambda: f(x, y))
                ctx.equal(got, expected, what)
                continue
            expected = outcome(lambda: f(fx, fy))
            got = outcome(lambda: f(x, y))
            if expected[0] == 'ok' and isinstance(expected[1], complex):
                ctx.require(got[0] == 'ok' and isinstance(got[1], (complex, IBMFloat, float)), '{}: got {}', what, got)
                continue
            if expected[0] == 'raised' or not both:
                if expected[0] == 'ok':
                    ctx.require(got[0] == 'ok' and type(got[1]) is float and same(got[1], expected[1]), '{}: expected {}, got {}',
                                what, expected, got)
                else:
                    ctx.equal(got, expected, what)
                continue
            value = expected[1]
            if math.isnan(value) or math.isinf(value):
                ctx.equal(got, ('raised', 'ValueError'), what)
                continue
            enc = ref.ibm_encode(Fraction(value))
            if enc == 'overflow':
                ctx.equal(got, ('raised', 'OverflowError'), what)
            else:
                if enc == 'underflow':
                    enc = bytes(4)
                ctx.require(got[0] == 'ok' and isinstance(got[1], IBMFloat) and bytes(got[1]) == enc, '{}: expected {}, got {}', what,
                            enc.hex(), got)
        ctx.state((repr(x), repr(y), 'arithmetic'))

    def unary(self, ctx, raw):
        x = IBMFloat.from_bytes(raw)
        v = ref.ibm_value(raw)
        name = 'IBMFloat({})'.format(raw.hex())
        ctx.transition(18)
        ctx.state(raw)

        def is_ibm(y, value, what):
            ctx.require(isinstance(y, IBMFloat) and exact(y) == value, '{} of {} is {}', what, name, y)
        is_ibm(-x, -v, 'negation')
        is_ibm(abs(x), abs(v), 'abs')
        is_ibm(+x, v, 'plus')
        is_ibm(-(-x), v, 'double negation')
        ctx.equal(bool(x), v != 0, 'bool of ' + name)
        ctx.equal(x.is_zero(), v == 0, 'is_zero of ' + name)
        ctx.equal(x.signbit, raw[0] >= 128, 'signbit of ' + name)
        t = math.trunc(v)
        for what, fn in (('trunc', math.trunc), ('int', int)):
            got = fn(x)
            ctx.require(got == t and type(got) is int, '{} of {} is {}, not {}', what, name, got, t)
        ctx.equal(x.as_integer_ratio(), (v.numerator, v.denominator), 'as_integer_ratio of ' + name)
        m, e = x.frexp()
        ctx.require(-1.0 <= m <= 1.0 and Fraction(m) * Fraction(2) ** e == v, 'frexp of {} is {}', name, (m, e))
        ctx.require(exact(IBMFloat.ldexp(m, e)) == v, 'ldexp of frexp of {}', name)
        integral = v.denominator == 1
        for what, fn in (('floor', math.floor), ('ceil', math.ceil)):
            got = fn(x)
            want = fn(v)
            if got != want:
                key = None
                if integral and what == 'ceil' and not x.signbit and got == want + 1:
                    key = 'ceil(x) == x + 1 for an integral IBMFloat without a sign'
                if integral and what == 'floor' and x.signbit and got == want - 1:
                    key = 'floor(x) == x - 1 for an integral IBMFloat with a sign'
                ctx.fail('{} of {} = {} is {}, not {}'.format(what, name, v, got, want), key)
        # normal forms
        subnormal = raw != bytes(4) if v == 0 else raw[1] < 16
        ctx.equal(x.is_subnormal(), subnormal, 'is_subnormal of ' + name)
        ctx.equal(bytes(x.zero_subnormal()), bytes(4) if subnormal else raw, 'zero_subnormal of ' + name)
        possible = v == 0 or abs(v) >= Fraction(1, 16 ** 65)
        got = outcome(lambda: x.normalize())
        if possible:
            ctx.require(got[0] == 'ok' and bytes(got[1]) == ref.ibm_encode(v), 'normalize of {}: {}', name, got)
            ctx.equal(bytes(x.try_normalize()), ref.ibm_encode(v), 'try_normalize of ' + name)
        else:
            ctx.equal(got, ('raised', 'FloatingPointError'), 'normalize of ' + name)
            ctx.equal(bytes(x.try_normalize()), raw, 'try_normalize of ' + name)
        ctx.equal(str(x), str(float(x)), 'str of ' + name)
        ctx.equal(hash(x), hash(v), 'hash of ' + name)
        ctx.require({x: 1}.get(float(x)) == {float(x): 1}.get(x) == {v: 1}.get(x) == 1, 'finding {} in a dictionary', name)
        for what, made in [('copy', copy.copy), ('deep copy', copy.deepcopy)] + [
                ('pickle of protocol %d' % k, lambda x, k=k: pickle.loads(pickle.dumps(x, k))) for k in range(pickle.HIGHEST_PROTOCOL + 1)]:
            got = ctx.call(lambda: made([x])[0], '{} of {}'.format(what, name))
            ctx.require(type(got) is type(x) and bytes(got) == raw, 'a {} of {} is {}', what, name, got)
        if abs(v) < 1 << 20:
            for nd in (None, 0, 1):
                want = ref.ibm_encode(Fraction(round(float(x), nd)))
                got = round(x, nd)
                ctx.require(bytes(got) == (bytes(4) if want == 'underflow' else want), 'round({}, {}) is {}', name, nd, got)
        ctx.equal(bytes(x), raw, 'bytes of ' + name)


CHECK = P11()
