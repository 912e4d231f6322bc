import struct

import numpy

from segpy.binary_reel_header import BinaryReelHeader
from segpy.header import SubFormatMeta, are_equal
from segpy.packer import make_header_packer
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from mc.engine import Check
from mc import ref, spaces

CLASSES = {'reel': (BinaryReelHeader, 3201, 400), 'trace1': (TraceHeaderRev1, 1, 240), 'trace0': (TraceHeaderRev0, 1, 240)}
CODES = {1: 'b', 2: 'h', 4: 'i'}


def alternative(field):
    """Some legal value which is not the default."""
    name, pos, size, lo, hi, legal, default = field
    if legal is not None:
        return [v for v in legal if v != default][-1]
    return (0x1234 if size == 2 else 0x12345678) if hi > 0x1234 else hi


def illegal_values(field, raw):
    """Values which must be refused: those that fit the storage (raw), or any integers."""
    name, pos, size, lo, hi, legal, default = field
    slo, shi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
    out = set()
    if legal is not None:
        if name == 'format_revision_num':
            legal = list(legal) + [1, 100]
        for v in legal:
            out.update(x for x in (v - 1, v + 1) if x not in legal)
        out.update(x for x in (slo, shi, 127, 128, 255, 32, -2, -7, 99) if x not in legal)
    else:
        out.update((lo - 1, hi + 1, lo - 2 ** 15, hi + 2 ** 15, slo, -1, -2))
        out = {v for v in out if not lo <= v <= hi}
    if raw:
        return sorted(v for v in out if slo <= v <= shi)
    out.update(v for v in (slo - 1, shi + 1, 2 ** 16, 2 ** 32, -2 ** 32, 2 ** 64) if not slo <= v <= shi)
    return sorted(out)


class Whole(int):
    """A caller's own type of integer."""


def as_types(v):
    """v as each type of integer which can hold it: those of header fields, and others."""
    yield 'Whole', Whole(v)
    if v in (0, 1):
        yield 'bool', bool(v)
    if -2 ** 63 <= v < 2 ** 63:
        yield 'int64', numpy.int64(v)
    seen = set()
    for cls, _, _ in CLASSES.values():
        for name in cls.ordered_field_names():
            value_type = getattr(cls, name).value_type
            if value_type not in seen:
                seen.add(value_type)
                try:
                    typed = value_type(v)
                except ValueError:
                    continue
                if typed == v:
                    yield value_type.__name__, typed


class P12(Check):
    id = 'P12'
    level = 'model_checking'
    technique = 'exhaustive exploration of field x value x byte order on the real header classes, against a frozen field table'
    level_note = ('Every field of the three standard header formats at every boundary value (all powers of two and their '
                  'neighbours, all enumerated values), each alone and against a background of non-default values. thorough: '
                  'every one of the 65536 values of every 16-bit field.')
    rule = ('A case is a field of a header class and byte order; transitions are assignments, packs and unpacks, states the '
            'distinct (field, value, byte order, verdict).')

    def cases(self, tier):
        for kind in CLASSES:
            yield dict(kind=kind, table=True)
            for i in range(len(ref.fields_of(kind))):
                yield dict(kind=kind, field=i, types=True)
            for i in range(len(ref.fields_of(kind))):
                for endian in spaces.ENDIANS:
                    yield dict(kind=kind, field=i, endian=endian)
        if tier == 'thorough':
            for kind in ('reel', 'trace1'):
                for i, f in enumerate(ref.fields_of(kind)):
                    if f[2] == 2:
                        for endian in spaces.ENDIANS:
                            yield dict(kind=kind, field=i, endian=endian, all=True)

    def run(self, case, ctx):
        ctx.sample(case)
        kind = case['kind']
        cls, first, length = CLASSES[kind]
        fields = ref.fields_of(kind)
        if 'table' in case:
            ctx.equal(sorted(cls.ordered_field_names()), sorted(f[0] for f in fields), 'fields of ' + cls.__name__)
            h = cls()
            for f in fields:
                ctx.equal(int(getattr(h, f[0])), f[6], 'default of {}'.format(f[0]))
            for bad in ('no_such_field', 'numsamples', 'line'):
                ctx.raises(TypeError, lambda: cls(**{bad: 1}), '{}({}=1)'.format(cls.__name__, bad))
            # all fields at once, every one different from its default
            for endian in spaces.ENDIANS:
                packer = make_header_packer(cls, endian)
                values = {f[0]: alternative(f) for f in fields}
                data = packer.pack(cls(**values))
                ctx.equal(data.hex(), ref.encode_header(fields, first, length, values, endian).hex(), cls.__name__)
                for bad in (data[:-1], data + b'\0', b''):
                    ctx.raises(ValueError, lambda: packer.unpack(bad), 'unpacking {} bytes'.format(len(bad)))
            ctx.trace()
            return
        if 'types' in case:
            return self.every_type(ctx, cls, fields[case['field']])
        f = fields[case['field']]
        name, pos, size, lo, hi, legal, default = f
        endian = case['endian']
        if 'all' in case:
            return self.every_value(case, ctx, cls, f)
        packer = make_header_packer(cls, endian)
        background = {g[0]: alternative(g) for g in fields if g[0] != name}
        dense = ctx.tier == 'thorough' or kind != 'trace0'
        for n, v in enumerate(spaces.boundary_values(f, dense)):
            for rest in ({}, background) if dense and n % 2 or not dense else (background,):
                what = '{}.{} = {} ({}-endian)'.format(cls.__name__, name, v, endian)
                values = dict(rest, **{name: v})
                ctx.transition(3)
                header = ctx.call(lambda: cls(**values), what)
                ctx.equal(int(getattr(header, name)), v, what)
                data = packer.pack(header)
                expected = ref.encode_header(fields, first, length, values, endian)
                if data != expected:
                    at = next(i for i in range(max(len(data), length)) if data[i:i + 1] != expected[i:i + 1])
                    ctx.fail('packing {}: byte {} is {}, expected {}'.format(what, first + at, data[at:at + 4].hex(),
                                                                            expected[at:at + 4].hex()))
                back = packer.unpack(expected)
                got = {g[0]: int(getattr(back, g[0])) for g in fields}
                want = dict({g[0]: g[6] for g in fields}, **values)
                for g in fields:
                    ctx.equal(got[g[0]], want[g[0]], 'unpacking {}: field {}'.format(what, g[0]))
                junk = bytes(b if any(g[1] - first <= i < g[1] - first + g[2] for g in fields) else 0xa5
                             for i, b in enumerate(expected)) if not rest else expected
                ctx.require(are_equal(packer.unpack(junk), back), 'unassigned bytes matter for {}', what)
                ctx.state((kind, name, v, endian, bool(rest)))
                # changing this field afterwards, on an object, does the same
                other = cls(**dict(rest))
                setattr(other, name, v)
                ctx.require(packer.pack(other) == expected, 'assigning {}', what)
        header = cls(**background)
        old = alternative(f)
        setattr(header, name, old)
        for v in illegal_values(f, False):
            what = '{}.{} = {}'.format(cls.__name__, name, v)
            ctx.transition(3)
            ctx.raises(ValueError, lambda: setattr(header, name, v), what)
            ctx.equal(int(getattr(header, name)), old, 'value left by the refused ' + what)
            ctx.raises(ValueError, lambda: cls(**{name: v}), '{}({}={})'.format(cls.__name__, name, v))
            ctx.raises(ValueError, lambda: header.copy(**{name: v}), 'copy({}={})'.format(name, v))
            ctx.equal(int(getattr(header, name)), old, 'value left by the refused copy')
            ctx.state((kind, name, v, 'refused'))
        good = ref.encode_header(fields, first, length, {}, endian)
        for v in illegal_values(f, True):
            buf = bytearray(good)
            struct.pack_into(endian + CODES[size], buf, pos - first, v)
            ctx.transition()
            ctx.raises(ValueError, lambda: packer.unpack(bytes(buf)), 'unpacking {} = {}'.format(name, v))
            ctx.state((kind, name, v, endian, 'raw refused'))
        ctx.raises(AttributeError, lambda: delattr(header, name), 'deleting {}'.format(name))
        ctx.trace()

    def every_type(self, ctx, cls, f):
        """Whatever type of integer is assigned, in particular values taken from other fields."""
        name, pos, size, lo, hi, legal, default = f
        old = alternative(f)
        variants = {1: 256, 100: 256} if name == 'format_revision_num' else {}
        values = set(spaces.boundary_values(f)) | set(illegal_values(f, False)) | {0, 1, 2, 5, 100, 40000, 100000, -1}
        for v in sorted(values):
            good = v in variants or (v in legal if legal is not None else lo <= v <= hi)
            for of, typed in as_types(v):
                what = '{}.{} = {} {}'.format(cls.__name__, name, of, v)
                header = cls(**{name: old})
                ctx.transition(3)
                ctx.state((cls.__name__, name, v, of))
                if good:
                    setattr(header, name, typed)
                    ctx.equal(int(getattr(header, name)), variants.get(v, v), what)
                    ctx.equal(int(getattr(cls(**{name: typed}), name)), variants.get(v, v), 'constructing ' + what)
                else:
                    ctx.raises(ValueError, lambda: setattr(header, name, typed), what)
                    ctx.equal(int(getattr(header, name)), old, 'value left by the refused ' + what)
                    ctx.raises(ValueError, lambda: cls(**{name: typed}), 'constructing ' + what)
                    ctx.raises(ValueError, lambda: header.copy(**{name: typed}), 'copying with ' + what)
        ctx.trace()

    def every_value(self, case, ctx, cls, f):
        name, pos, size, lo, hi, legal, default = f
        endian = case['endian']
        sub = SubFormatMeta('Sub', (), {}, parent_format=cls, parent_field_names=[name])
        packer = make_header_packer(sub, endian)
        first, length = CLASSES[case['kind']][1:]
        variants = {1: 256, 100: 256} if name == 'format_revision_num' else {}
        buf = bytearray(length)
        for v in range(-32768, 32768):
            struct.pack_into(endian + 'h', buf, pos - first, v)
            ctx.transition()
            if v in variants or (v in legal if legal is not None else lo <= v <= hi):
                h = packer.unpack(bytes(buf))
                got = int(getattr(h, name))
                ctx.require(got == variants.get(v, v), 'unpacking {} = {} gives {}', name, v, got)
                if v not in variants:
                    ctx.require(packer.pack(h) == bytes(buf), 'packing {} = {}', name, v)
            else:
                ctx.raises(ValueError, lambda: packer.unpack(bytes(buf)), 'unpacking {} = {}'.format(name, v))
        ctx.state((case['kind'], name, endian, 'every value'))
        ctx.trace()


CHECK = P12()
