import io
import itertools
import struct
from decimal import Decimal

from segpy.binary_reel_header import BinaryReelHeader
from segpy.packer import make_header_packer
from segpy.reader import create_reader
from segpy.revisions import SegYRevision, SegYRevisionError, canonicalize_revision, integer_to_decimal_revision
from segpy.toolkit import extract_revision, read_binary_reel_header, write_binary_reel_header
from segpy.writer import write_segy

from mc.engine import Check
from mc import spaces, sut

MEANING = {0: 0, 0x0100: 0x0100, 1: 0x0100, 100: 0x0100}
AT = 3500
BLOCK = 512


class Raw:
    """A reel header whose revision is whatever it is."""

    def __init__(self, value):
        self.format_revision_num = value


def signed(v):
    return v - 65536 if v > 32767 else v


def at_reel(data):
    fh = io.BytesIO(data)
    fh.seek(3200)
    return fh


class P31(Check):
    id = 'P31'
    technique = 'exhaustive enumeration of every 16-bit value of the revision field, in files of both byte orders, against a table of four meanings'
    level_note = ('Every value from 0 to 65535, unsigned and as a signed number, canonicalised, constructed, assigned, packed, and read from a file in '
                  'either byte order; each known revision read, rewritten and read again over the sample formats, dimensionalities and layouts.')
    rule = ('A state is a distinct value of the field in a byte order; a transition is one way of giving the value to the library. 0 must give revision 0; '
            '1, 100 and 256 revision 1; anything else must be refused.')

    def cases(self, tier):
        for first in range(0, 65536, BLOCK):
            yield dict(kind='values', first=first)
        for v in MEANING:
            for fmt in spaces.FMTS:
                for dim in (None, 1, 2, 3):
                    yield dict(kind='known', value=v, fmt=fmt, dim=dim)
        yield dict(kind='others')

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def check_canonical(self, ctx, given, meaning):
        for fn, what in ((lambda: canonicalize_revision(given), 'canonicalize_revision({!r})'.format(given)),
                         (lambda: extract_revision(Raw(given)), 'extract_revision() of {!r}'.format(given))):
            ctx.transition()
            if meaning is None:
                ctx.raises(SegYRevisionError, fn, what)
            else:
                got = ctx.call(fn, what)
                ctx.require(isinstance(got, SegYRevision) and got == meaning, what + ' gave {}', got)
        ctx.transition()
        if meaning is None:
            ctx.raises(ValueError, lambda: SegYRevision(given), 'SegYRevision({!r})'.format(given))
        else:
            ctx.require(SegYRevision(given) is SegYRevision(meaning), 'SegYRevision({}) is {}', given, SegYRevision(given))

    def do_values(self, case, ctx):
        head = bytearray(spaces.build(dict(fmt=3, lens=[1])).to_bytes())
        for v in range(case['first'], case['first'] + BLOCK):
            meaning = MEANING.get(v)
            self.check_canonical(ctx, v, meaning)
            if v % 256 < 10:
                ctx.equal(integer_to_decimal_revision(v), Decimal(v // 256) + Decimal(v % 256) / 10, 'integer_to_decimal_revision({})'.format(v))
            s = signed(v)
            if s != v:
                self.check_canonical(ctx, s, None)
            # Construction and assignment
            if meaning is None:
                ctx.raises(ValueError, lambda: BinaryReelHeader(format_revision_num=s), 'BinaryReelHeader(format_revision_num={})'.format(s))
                h = BinaryReelHeader()
                ctx.raises(ValueError, lambda: setattr(h, 'format_revision_num', s), 'format_revision_num = {}'.format(s))
                ctx.equal(int(h.format_revision_num), 0x0100, 'the revision after a refused assignment')
            else:
                h = BinaryReelHeader(format_revision_num=v)
                ctx.equal(int(h.format_revision_num), meaning, 'BinaryReelHeader(format_revision_num={})'.format(v))
                h = BinaryReelHeader()
                h.format_revision_num = v
                ctx.equal(int(h.format_revision_num), meaning, 'assigned {}'.format(v))
            for endian in '<>':
                ctx.state((v, endian))
                data = bytearray(head) if endian == '>' else bytearray(spaces.build(dict(fmt=3, lens=[1], endian='<')).to_bytes())
                data[AT:AT + 2] = struct.pack(endian + 'H', v)
                data = bytes(data)
                ctx.transition(3)
                w = 'a file with revision {}, endian {}'.format(v, endian)
                if meaning is None:
                    ctx.raises(ValueError, lambda: make_header_packer(BinaryReelHeader, endian).unpack(data[3200:3600]), 'unpacking ' + w)
                    ctx.raises(ValueError, lambda: read_binary_reel_header(at_reel(data), BinaryReelHeader, endian), 'reading the header of ' + w)
                    for enc in (None, 'ascii') if ctx.tier == 'thorough' or v % 64 == 0 else (None,):
                        fh = io.BytesIO(data)
                        ctx.raises(ValueError, lambda: create_reader(fh, endian=endian, cache_directory=None, encoding=enc), 'opening ' + w)
                        ctx.require(not fh.closed and fh.getvalue() == data, w + ': the file was changed or closed')
                else:
                    got = make_header_packer(BinaryReelHeader, endian).unpack(data[3200:3600]).format_revision_num
                    ctx.require(got is SegYRevision(meaning), w + ' was unpacked as {}', got)
                    got = read_binary_reel_header(at_reel(data), BinaryReelHeader, endian).format_revision_num
                    ctx.require(got is SegYRevision(meaning), w + ' was read as {}', got)
                    reader = create_reader(io.BytesIO(data), endian=endian, cache_directory=None)
                    ctx.require(reader.revision is SegYRevision(meaning), w + ' has reader.revision {}', reader.revision)
        ctx.trace()

    def do_known(self, case, ctx):
        v, fmt, dim = case['value'], case['fmt'], case['dim']
        meaning = MEANING[v]
        for endian, ext, enc, kind in itertools.product('<>', spaces.EXT, spaces.ENCODINGS, ('trace0', 'trace1')):
            m = spaces.build(dict(fmt=fmt, lens=[2, 1, 0], ext=ext, enc=enc, endian=endian, kind=kind, reel=dict(format_revision_num=v)))
            data = m.to_bytes()
            w = '{}, {}'.format(case, (endian, ext, enc, kind))
            ctx.require(data[AT:AT + 2] == struct.pack(endian + 'H', v), 'the harness did not write the revision')
            kw = dict(endian=endian, encoding=enc, dimensionality=dim, trace_header_format=sut.TRACE_FORMATS[kind])
            reader = sut.open_reader(data, **kw)
            ctx.require(reader.revision is SegYRevision(meaning), w + ' has reader.revision {}', reader.revision)
            ctx.equal(int(reader.binary_reel_header.format_revision_num), meaning, w + ', in the header')
            out = io.BytesIO()
            write_segy(out, reader, endian=endian, trace_header_format=sut.TRACE_FORMATS[kind])
            want = data[:AT] + struct.pack(endian + 'H', meaning) + data[AT + 2:]
            ctx.require(out.getvalue() == want, w + ': rewriting changed more than the variant of the revision')
            again = sut.open_reader(out.getvalue(), **kw)
            ctx.require(again.revision is reader.revision, w + ' was rewritten as revision {}', again.revision)
            ctx.equal(sut.diff(sut.observe_reader(again), sut.observe_reader(reader)), None, w + ', reread')
            ctx.state(w)
            ctx.transition(3)
        # The header alone
        for to in '<>':
            fh = io.BytesIO(bytes(3600))
            fh.seek(3200)
            write_binary_reel_header(fh, reader.binary_reel_header, to)
            ctx.equal(struct.unpack(to + 'H', fh.getvalue()[AT:AT + 2])[0], meaning, 'revision written')
        ctx.trace()
        ctx.sample(case)

    def do_others(self, case, ctx):
        """Numbers which fit no 16-bit field."""
        for bits in range(17, 66):
            for d in (-1, 0, 1, 100, 256):
                for v in (2 ** bits + d, -2 ** bits + d):
                    self.check_canonical(ctx, v, MEANING.get(v))
                    if v not in MEANING:
                        ctx.raises(ValueError, lambda: BinaryReelHeader(format_revision_num=v), 'BinaryReelHeader(format_revision_num={})'.format(v))
        for v in SegYRevision:
            self.check_canonical(ctx, v, int(v))
        for v in range(-300, 0):
            self.check_canonical(ctx, v, None)
        ctx.equal([int(v) for v in SegYRevision], [0, 256], 'the revisions')
        ctx.state('others')


CHECK = P31()
