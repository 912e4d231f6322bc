import copy
import enum
import itertools
import struct

from segpy.field_types import Int16, Int32, IntEnumFieldMeta, IntFieldMeta, NNInt16, NNInt32
from segpy.header import BaseHeader, FormatMeta, Header, SubFormatMeta, are_equal, field
from segpy.packer import make_header_packer, compile_struct
from segpy.trace_header import TraceHeaderRev1
from segpy.binary_reel_header import BinaryReelHeader

from mc.engine import Check, outcome
from mc import ref, spaces


class Int8(int, metaclass=IntFieldMeta, seg_y_type='int8'):
    """A one byte field."""


class Small16(int, metaclass=IntFieldMeta, seg_y_type='int16', min_value=-5, max_value=5):
    pass


class UInt8(int, metaclass=IntFieldMeta, seg_y_type='nnint8', min_value=0, max_value=255):
    pass


class UInt16(int, metaclass=IntFieldMeta, seg_y_type='nnint16', min_value=0, max_value=65535):
    """All of the range, as in examples/custom_header.py."""


class UInt32(int, metaclass=IntFieldMeta, seg_y_type='nnint32', min_value=0, max_value=2 ** 32 - 1):
    pass


class Kind(enum.IntEnum):
    LEAST = -32768
    MINUS = -2
    ZERO = 0
    SOME = 0x0102
    OTHER = 0x1213
    MOST = 32767


class KindField(metaclass=IntEnumFieldMeta, enum=Kind):
    pass


class Flag(enum.IntEnum):
    OFF = 0
    ON = 1
    UNKNOWN = -1


class FlagField(metaclass=IntEnumFieldMeta, enum=Flag, seg_y_type='int8'):
    pass


class Derived16(Int16, seg_y_type='int16', min_value=-7, max_value=1000):
    """Made from another field type."""


class DerivedKindField(KindField, enum=Flag, seg_y_type='int16'):
    pass


TYPES = {'b': (Int8, 1, 'b', (-128, 127)), 'h': (Int16, 2, 'h', (-32768, 32767)), 'i': (Int32, 4, 'i', (-2 ** 31, 2 ** 31 - 1)),
         'H': (NNInt16, 2, 'h', (0, 32767)), 'I': (NNInt32, 4, 'i', (0, 2 ** 31 - 1)),
         'c': (UInt8, 1, 'B', (0, 255)), 'u': (UInt16, 2, 'H', (0, 65535)), 'U': (UInt32, 4, 'I', (0, 2 ** 32 - 1)), 's': (Small16, 2, 'h', (-5, 5)),
         'e': (KindField, 2, 'h', (-32768, 32767)), 'f': (FlagField, 1, 'b', (-1, 1)),
         'd': (Derived16, 2, 'h', (-7, 1000)), 'g': (DerivedKindField, 2, 'h', (-1, 1))}
# The bases of each of several classes
FAMILIES = {'pair': [(), (), (0, 1)], 'diamond': [(), (0,), (0,), (1, 2)], 'reversed diamond': [(), (0,), (0,), (2, 1)], 'three': [(), (0,), (0,), (0,), (1, 2, 3)],
            'chain and mixin': [(), (0,), (), (1, 2)], 'mixin of mixins': [(), (), (), (0, 1), (3, 2)]}
ENUMS = {'e': Kind, 'f': Flag, 'g': Flag}


def make_class(fields, start, length, bases=None, name='Layout'):
    """A header format class, as a class statement would make it.  fields: [(name, type letter, offset)] in order."""
    bases = bases or (Header,)
    ns = FormatMeta.__prepare__(name, bases)
    ns['__module__'] = __name__
    if start is not None:
        ns['START_OFFSET_IN_BYTES'] = start
    if length is not None:
        ns['LENGTH_IN_BYTES'] = length
    for n, t, offset in fields:
        ns[n] = field(TYPES[t][0], offset, 0, 'Field {}.'.format(n))
    return FormatMeta(name, bases, ns)


def value_of(t, k):
    lo, hi = TYPES[t][3]
    size = TYPES[t][1]
    pattern = int.from_bytes(bytes(16 * (k + 1) + b + 1 for b in range(size)), 'big')
    v = (pattern, hi, lo, -pattern, pattern ^ 1)[k % 5] if k >= 5 else pattern
    if t in ENUMS:
        legal = list(ENUMS[t])
        return int(legal[k % len(legal)])
    return max(lo, min(hi, v))


def expected_bytes(fields, values, start, length, endian):
    end = max(o - start + TYPES[t][1] for _, t, o in fields)
    buf = bytearray(end if length is None else length)
    for n, t, o in fields:
        struct.pack_into(endian + TYPES[t][2], buf, o - start, values[n])
    return bytes(buf)


def verdict(fields, start, length):
    """'ok', 'surjective', or the exceptions which may refuse the layout."""
    if not fields:
        return (TypeError,)
    refuse = set()
    shared = False
    for (n1, t1, o1), (n2, t2, o2) in itertools.combinations(fields, 2):
        s1, s2 = TYPES[t1][1], TYPES[t2][1]
        if o1 == o2 and s1 == s2:
            if t1 != t2:
                refuse.add(TypeError)
            shared = True
        elif o1 < o2 + s2 and o2 < o1 + s1:
            refuse.add(ValueError)
    if length is not None and max(o - start + TYPES[t][1] for _, t, o in fields) > length:
        refuse.add(ValueError)
    if refuse:
        return tuple(refuse)
    return 'surjective' if shared else 'ok'


class P13(Check):
    id = 'P13'
    level = 'model_checking'
    technique = 'exhaustive exploration of all small header layouts (as programs) through the real packer, against a byte model'
    level_note = ('Complete for all layouts of up to 3 (thorough 4) fields over 5 types and gaps 0-2, every declaration order, two '
                  'start offsets, exact and padded length; all pairs of types and offsets for overlap; sub-formats of all subsets.')
    rule = ('A case is a set of layouts; each is built as a class and its packer used in both byte orders. States are distinct '
            'layouts with their verdict, transitions packs and unpacks.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
            for types in itertools.product('bhiHI' if n < 4 else 'bhi', repeat=n):
                yield dict(kind='layout', types=''.join(types))
        # Types of the user's own: unsigned, of another range, and enumerations
        for types in itertools.product(TYPES, repeat=2):
            if set(types) - set('bhiHI'):
                yield dict(kind='layout', types=''.join(types))
        for types in itertools.permutations('cuUsef', 3) if thorough else ('cuU', 'Uef', 'ues', 'fUc', 'sce', 'eus'):
            yield dict(kind='layout', types=''.join(types))
        for t1, t2 in itertools.product(TYPES, repeat=2):
            if thorough or not {t1, t2} - set('bhiHI') or {t1, t2} <= set('cuUf') or {t1, t2} <= set('hseu'):
                yield dict(kind='overlap', types=t1 + t2)
        for types in itertools.product('hiue', repeat=2):
            yield dict(kind='override', types=''.join(types))
        for split in range(5):
            yield dict(kind='inherit', split=split)
        for shape in FAMILIES:
            yield dict(kind='several', shape=shape)
        for t in TYPES:
            yield dict(kind='range', types=t)
        yield dict(kind='none')
        yield dict(kind='redefine')
        for split in range(5):
            yield dict(kind='subinherit', split=split)
        for fmt in ('custom', 'trace', 'reel'):
            for k in range(8):
                yield dict(kind='subformat', format=fmt, part=k)

    def run(self, case, ctx):
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.trace()
        ctx.sample(case)

    def judge(self, ctx, cls, fields, start, length, what, positional=True):
        v = verdict(fields, start, length)
        ctx.state((tuple(fields), start, length, str(v)))
        for endian in '><':
            if isinstance(v, tuple):
                ctx.transition()
                ctx.raises(v, lambda: make_header_packer(cls, endian), what)
                continue
            packer = ctx.call(lambda: make_header_packer(cls, endian), what)
            by_offset = {}
            for n, t, o in fields:
                by_offset.setdefault(o, []).append(n)
            for k in range(6):
                values = {}
                for i, (n, t, o) in enumerate(fields):
                    values[n] = value_of(t, k + (o - start) % 5 if k != 4 else 0)
                ctx.transition(2)
                header = cls(**values)
                data = packer.pack(header)
                expected = expected_bytes(fields, values, start, length, endian)
                ctx.require(data == expected, '{} ({}-endian) with {}: packed as {}, expected {}', what, endian, values, data.hex(),
                            expected.hex())
                used = bytearray(len(expected))
                for n, t, o in fields:
                    used[o - start:o - start + TYPES[t][1]] = b'\1' * TYPES[t][1]
                noisy = bytes(b if u else 0xe7 for b, u in zip(expected, used))
                for raw in (expected, noisy):
                    back = packer.unpack(raw)
                    ctx.require(type(back) is cls, '{}: unpacked a {}', what, type(back))
                    got = {n: int(getattr(back, n)) for n, _, _ in fields}
                    ctx.equal(got, values, '{} ({}-endian) unpacked from {}'.format(what, endian, raw.hex()))
                # positional construction is in declaration order
                if positional:
                    ctx.equal({n: int(getattr(cls(*[values[n] for n, _, _ in fields]), n)) for n, _, _ in fields}, values,
                              what + ' constructed by position')
            for bad in (expected[:-1], expected + b'\0'):
                ctx.raises(ValueError, lambda: packer.unpack(bad), '{} unpacked from {} bytes'.format(what, len(bad)))
            if v == 'surjective':
                for names in by_offset.values():
                    if len(names) > 1:
                        for odd in names:
                            t = next(t for n, t, _ in fields if n == odd)
                            header = cls(**dict(values, **{odd: next(w for w in (value_of(t, k) for k in range(9)) if w != values[odd])}))
                            ctx.transition()
                            ctx.raises(ValueError, lambda: packer.pack(header), '{}: unequal coincident fields'.format(what))
            other = make_class([('z', 'h', start)], start, None)
            ctx.raises(TypeError, lambda: packer.pack(other()), '{}: packing a header of another class'.format(what))

    def run_layout(self, case, ctx):
        types = case['types']
        n = len(types)
        gaps = list(itertools.product((0, 1, 2) if n < 4 else (0, 2), repeat=n))
        for gi, gap in enumerate(gaps):
            if n == 3 and ctx.tier == 'quick' and (gi + len(set(types))) % 3:
                continue
            for start in (0, 1, 3201):
                if start == 3201 and gi % 4:
                    continue
                fields = []
                pos = start
                for k in range(n):
                    pos += gap[k]
                    fields.append(('f%d' % k, types[k], pos))
                    pos += TYPES[types[k]][1]
                end = pos - start
                perms = list(itertools.permutations(fields))
                for pi, perm in enumerate(perms):
                    if n >= 3 and ctx.tier == 'quick' and (pi + gi) % 2:
                        continue
                    for length in (None, end, end + 1 + gi % 4, end - 1):
                        if length == 0 or (length == end and gi % 2):
                            continue
                        s = None if start == 0 and length is None else start
                        cls = make_class(perm, s, length)
                        self.judge(ctx, cls, list(perm), start, length, 'layout {} start {} length {}'.format(list(perm), start, length))

    def run_overlap(self, case, ctx):
        t1, t2 = case['types']
        for o1 in range(0, 5):
            for o2 in range(0, 9):
                for extra in ([], [('c', 'h', 10)], [('c', 'i', 0)], [('c', t1, o2)], [('c', t2, o2)], [('c', 'b', 3), ('d', 'b', 3)]):
                    fields = [('a', t1, o1), ('b', t2, o2)] + extra
                    for fs in (fields, fields[::-1]):
                        cls = make_class(fs, 0, None)
                        self.judge(ctx, cls, fs, 0, None, 'layout {}'.format(fs))

    def run_inherit(self, case, ctx):
        fields = [('p', 'i', 9), ('q', 'h', 1), ('r', 'b', 4), ('s', 'h', 13)]
        for perm in itertools.permutations(fields):
            split = case['split']
            base = make_class(perm[:split], 1, 16)
            mid = make_class(perm[split:split + 1], None, None, (base,), 'Mid')
            cls = make_class(perm[split + 1:], None, 20, (mid,), 'Derived')
            ctx.equal(tuple(cls.ordered_field_names()), tuple(f[0] for f in perm), 'ordered_field_names')
            self.judge(ctx, cls, list(perm), 1, 20, 'inherited layout {}'.format(list(perm)))
            if split:
                self.judge(ctx, base, list(perm[:split]), 1, 16, 'base layout {}'.format(list(perm[:split])))
            if split < 4:
                self.judge(ctx, mid, list(perm[:split + 1]), 1, 16, 'middle layout {}'.format(list(perm[:split + 1])))

    def run_range(self, case, ctx):
        """Every value of a field type is accepted, and no other."""
        t = case['types']
        lo, hi = TYPES[t][3]
        cls = make_class([('x', t, 0), ('y', t, 8)], 0, 12)
        near = set(range(-10, 11)) | {v + d for v in (lo, hi, *(1 << b for b in (7, 8, 15, 16, 31, 32, 63)), *(-1 << b for b in (7, 8, 15, 16, 31, 32, 63)))
                                      for d in (-2, -1, 0, 1, 2)} | {int(e) for e in ENUMS.get(t, ())}
        for v in sorted(near):
            legal = v in set(map(int, ENUMS[t])) if t in ENUMS else lo <= v <= hi
            what = 'a {} given {}'.format(TYPES[t][0].__name__, v)
            ctx.transition(4)
            ctx.state((t, v))
            header = cls()
            if not legal:
                ctx.raises(ValueError, lambda: TYPES[t][0](v), what)
                ctx.raises(ValueError, lambda: setattr(header, 'x', v), what + ' by assignment')
                ctx.raises(ValueError, lambda: cls(y=v), what + ' by keyword')
                ctx.raises(ValueError, lambda: field(TYPES[t][0], 0, v, ''), what + ' as a default')
                ctx.equal((int(header.x), int(header.y)), (0, 0), what + ': the fields')
                continue
            made = ctx.call(lambda: TYPES[t][0](v), what)
            ctx.equal(int(made), v, what)
            header.x = v
            ctx.equal((int(header.x), int(header.y)), (v, 0), what + ' by assignment: the fields')
            for endian in '><':
                packer = make_header_packer(cls, endian)
                ctx.equal(int(packer.unpack(packer.pack(header)).x), v, what + ', packed and unpacked')

    def run_several(self, case, ctx):
        """Formats with several bases."""
        shape = FAMILIES[case['shape']]
        fields = [('p', 'i', 9), ('q', 'h', 1), ('r', 'b', 4), ('s', 'h', 13)]
        for homes in itertools.product(range(len(shape)), repeat=4):
            for order in (fields, fields[::-1]):
                made, held = [], []
                for k, parents in enumerate(shape):
                    own = [f for f in order if homes[fields.index(f)] == k]
                    cls = make_class(own, 1 if k == 0 else None, 20 if k == 0 else None, tuple(made[j] for j in parents) or None, 'Family%d' % k)
                    made.append(cls)
                    held.append(own + [f for j in parents for f in held[j]])
                for k, cls in enumerate(made):
                    if k and not shape[k]:
                        continue        # (its extent is not that of the others)
                    mine = [f for f in order if f in held[k]]
                    what = 'class {} of {} with the fields {} in the classes {}'.format(k, shape, [f[0] for f in order], [homes[fields.index(f)] for f in order])
                    names = list(cls.ordered_field_names())
                    ctx.equal(sorted(names), sorted(f[0] for f in mine), what + ': names of the fields')
                    by_name = {f[0]: f for f in mine}
                    self.judge(ctx, cls, [by_name[n] for n in names], 1, 20, what)
                    if mine:
                        a = cls(**{n: value_of(t, 1) for n, t, _ in mine})
                        for b in (a.copy(), copy.copy(a)):
                            ctx.equal({n: int(getattr(b, n)) for n in names}, {n: int(getattr(a, n)) for n in names}, what + ', copied')
                            ctx.require(are_equal(a, b), what + ': a copy is not equal')
                        for n, t, _ in mine:
                            b = a.copy(**{n: next(v for v in (value_of(t, k) for k in range(9)) if v != getattr(a, n))})
                            ctx.require(not are_equal(a, b), what + ': unequal in {} and yet equal', n)
                            ctx.transition()

    def run_override(self, case, ctx):
        """A derived format declares a field of its base anew, elsewhere or of another type."""
        t1, t2 = case['types']
        for o1, o2, split in itertools.product((0, 2, 4), (0, 1, 2, 6, 8), range(3)):
            others = [('q', 'h', 12), ('r', 'b', 15)]
            base = make_class(others[:split] + [('p', t1, o1)] + others[split:], 0, 20)
            cls = make_class([('p', t2, o2), ('s', 'b', 17)], None, None, (base,), 'Derived')
            what = 'p, a {} at {}, declared anew as a {} at {}'.format(t1, o1, t2, o2)
            fields = [*others, ('p', t2, o2), ('s', 'b', 17)]
            ctx.equal(set(cls.ordered_field_names()), {f[0] for f in fields}, what + ': names')
            self.judge(ctx, cls, fields, 0, 20, what, positional=False)
            self.judge(ctx, base, others[:split] + [('p', t1, o1)] + others[split:], 0, 20, what + ', the base')
            for name in ('q', 'r', 's', 'p'):
                sub = SubFormatMeta('Sub', (), {}, parent_format=cls, parent_field_names=[name])
                self.judge(ctx, sub, [f for f in fields if f[0] == name], 0, 20, what + ', a sub-format of ' + name)

    def run_subinherit(self, case, ctx):
        """Sub-formats of formats which take their fields and extent from any of three levels."""
        fields = [('p', 'i', 9), ('q', 'h', 1), ('r', 'b', 4), ('s', 'H', 13)]
        split = case['split']
        for starts, lengths in itertools.product(itertools.product((None, 1, 0), repeat=3), itertools.product((None, 20, 24), repeat=3)):
            base = make_class(fields[:split], starts[0], lengths[0])
            base.MADE_BY = 'base'
            mid = make_class(fields[split:split + 1], starts[1], lengths[1], (base,), 'Mid')
            mid.MADE_BY = 'mid'
            cls = make_class(fields[split + 1:], starts[2], lengths[2], (mid,), 'Derived')
            start = next((s for s in reversed(starts) if s is not None), 0)
            length = next((n for n in reversed(lengths) if n is not None), None)
            what = 'split {}, starts {} and lengths {} of base, middle and derived'.format(split, starts, lengths)
            if ctx.tier == 'thorough' or lengths[0] is None:
                self.judge(ctx, cls, fields, start, length, what)
            for n in range(1, 4):
                for subset in itertools.permutations(fields, n):
                    sub = SubFormatMeta('Sub', (), {}, parent_format=cls, parent_field_names=[f[0] for f in subset])
                    ctx.equal(list(sub.ordered_field_names()), [f[0] for f in subset], what + ', fields of a sub-format')
                    ctx.equal(sub.MADE_BY, 'mid', what + ', another attribute of a sub-format')
                    if n < 3 or ctx.tier == 'thorough':
                        self.judge(ctx, sub, list(subset), start, length, 'sub-format {}, {}'.format([f[0] for f in subset], what))
                    else:
                        ctx.equal((getattr(sub, 'START_OFFSET_IN_BYTES', 0), getattr(sub, 'LENGTH_IN_BYTES', None)), (start, length), what + ', extent of a sub-format')

    def run_none(self, case, ctx):
        for length in (None, 4):
            cls = make_class([], 0, length)
            for endian in '><':
                ctx.raises(TypeError, lambda: make_header_packer(cls, endian), 'a layout with no fields')
        cls = make_class([('a', 'h', 0)], None, None)
        ctx.raises(ValueError, lambda: compile_struct(cls, start_offset=-1), 'a negative start offset')
        for n in (0, -1):
            ctx.raises(ValueError, lambda: compile_struct(cls, 0, n), 'length {}'.format(n))

    def run_redefine(self, case, ctx):
        """Two formats of the same name, and changed between uses, do not affect each other."""
        for a, b in itertools.permutations([('h', 0), ('i', 0), ('h', 2), ('b', 1)], 2):
            fa, fb = [('x', a[0], a[1])], [('x', b[0], b[1])]
            ca, cb = make_class(fa, 0, 8, name='Same'), make_class(fb, 0, 8, name='Same')
            for cls, fs in ((ca, fa), (cb, fb), (ca, fa)):
                self.judge(ctx, cls, fs, 0, 8, 'format Same {}'.format(fs))

    def run_subformat(self, case, ctx):
        if case['format'] == 'custom':
            fields = [('p', 'i', 9), ('q', 'h', 1), ('r', 'b', 4), ('s', 'H', 13), ('t', 'I', 16)]
            parent = make_class(fields, 1, 24)
            types = {n: (t, o) for n, t, o in fields}
            first, length = 1, 24
            subsets = [s for n in range(1, 6) for s in itertools.permutations([f[0] for f in fields], n)]
            values = {n: value_of(t, 5 * (k % 2) + k) for k, (n, t, o) in enumerate(fields)}
            table = {n: (o, TYPES[t][1]) for n, t, o in fields}
            defaults = {n: 0 for n in table}
        else:
            parent, kind, first, length = ((TraceHeaderRev1, 'trace1', 1, 240) if case['format'] == 'trace' else
                                           (BinaryReelHeader, 'reel', 3201, 400))
            table = {f[0]: (f[1], f[2]) for f in ref.fields_of(kind)}
            defaults = ref.defaults(kind)
            names = list(table)
            n = len(names)
            subsets = [(a,) for a in names] + [names[i::j] for j in (2, 3, 5) for i in range(j)]
            subsets += [(names[i], names[(i + d) % n]) for i in range(n) for d in ((1, 2, 7, n - 1) if ctx.tier == 'quick' else range(1, n))]
            subsets += [names, names[::-1]]
            values = {}
            for k, f in enumerate(ref.fields_of(kind)):
                legal = spaces.boundary_values(f)
                values[f[0]] = legal[(k * 5) % len(legal)]
        for i, names in enumerate(subsets):
            if i % 8 != case['part']:
                continue
            names = list(names)
            sub = SubFormatMeta('Sub', (), {}, parent_format=parent, parent_field_names=names)
            what = 'sub-format {} of {}'.format(names[:6], parent.__name__)
            ctx.equal(list(sub.ordered_field_names()), names, what + ' field names')
            ctx.state((case['format'], tuple(names)))
            for endian in '><':
                ctx.transition(4)
                whole = make_header_packer(parent, endian)
                part = make_header_packer(sub, endian)
                data = whole.pack(parent(**values))
                back = part.unpack(data)
                ctx.equal({n: int(getattr(back, n)) for n in names}, {n: values[n] for n in names}, what)
                again = part.pack(back)
                expected = bytearray(length)
                for n in names:
                    o, size = table[n]
                    expected[o - first:o - first + size] = data[o - first:o - first + size]
                ctx.equal(again.hex(), bytes(expected).hex(), what + ' packed')
            for n in names[:6]:
                ctx.equal(int(getattr(sub(), n)), defaults[n], '{} default of {}'.format(what, n))
                d = getattr(sub, n)
                p = getattr(parent, n)
                ctx.equal((d.name, d.offset, d.value_type, d.documentation), (n, p.offset, p.value_type, p.documentation), what)


CHECK = P13()
