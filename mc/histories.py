"""Things a program may do with segpy, one after another in one process.  Each gives plain comparable data."""
import io
import pickle

from segpy.binary_reel_header import BinaryReelHeader
from segpy.catalog import CatalogBuilder
from segpy.dataset import DelegatingDataset
from segpy.encoding import guess_encoding
from segpy.field_types import Int16, Int32
from segpy.header import Header, SubFormatMeta, are_equal, field
from segpy.ibm_float import IBMFloat
from segpy.packer import make_header_packer
from segpy.reader import create_reader
from segpy.revisions import SegYRevision
from segpy.toolkit import (catalog_traces, format_extended_textual_header, format_standard_textual_header,
                           parse_standard_textual_header)
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.util import make_sorted_distinct_sequence
from segpy_numpy.extract import extract_inline_3d, extract_trace_headers

from mc import ref, spaces, sut

GRID = [[1, 1, 1], [1, 2, 2], [2, 1, 3], [2, 2, 4]]
SPECS = {
    'rev1': dict(fmt=2, lens=[2, 1, 0, 3], geometry=GRID),
    'rev0': dict(fmt=3, kind='trace0', lens=[1, 2, 3], geometry=[[0, 0, 9], [0, 0, 4], [0, 0, 5]], enc='cp037'),
    'rev1le': dict(fmt=1, lens=[2, 2, 1], endian='<', enc='cp037', ext='end', geometry=[[4, 1, 7], [4, 5, 7], [6, 1, 7]]),
    'rev0le': dict(fmt=8, kind='trace0', lens=[3], endian='<', ext='one'),
    'basic': dict(fmt=5, lens=[1, 2], geometry=[[1, 1, 1], [1, 1, 1]]),
}


def custom(shift):
    """A trace header format of a user: the same class name each time, other places."""
    class CustomTraceHeader(Header):
        START_OFFSET_IN_BYTES = 1
        LENGTH_IN_BYTES = 240
        ensemble_num = field(Int32, offset=21 + shift, default=0, documentation='e')
        num_samples = field(Int16, offset=115, default=0, documentation='n')
        inline_number = field(Int32, offset=189 + shift, default=0, documentation='i')
        crossline_number = field(Int32, offset=193 + shift, default=0, documentation='x')
    return CustomTraceHeader


def custom_reel(offset):
    class BinaryReelHeader_(BinaryReelHeader):
        mine = field(Int16, offset=offset, default=5, documentation='m')
    BinaryReelHeader_.__name__ = 'BinaryReelHeader'
    return BinaryReelHeader_


def open_spec(name, **kw):
    def op(keep):
        model = spaces.build(SPECS[name])
        kw.setdefault('trace_header_format', sut.TRACE_FORMATS[model.kind])
        kw.setdefault('encoding', model.encoding)
        reader = create_reader(io.BytesIO(model.to_bytes()), endian=model.endian, cache_directory=None, **kw)
        keep.append(lambda: sut.observe_reader(reader))
        return sut.observe_reader(reader)
    return op


def write_spec(name, **kw):
    def op(keep):
        model = spaces.build(SPECS[name])
        kw.setdefault('encoding', model.encoding)
        return sut.write_bytes(sut.MemDataset(model), endian=model.endian, trace_header_format=sut.TRACE_FORMATS[model.kind], **kw)
    return op


def reader_of(name):
    model = spaces.build(SPECS[name])
    return create_reader(io.BytesIO(model.to_bytes()), encoding=model.encoding, endian=model.endian, cache_directory=None,
                         trace_header_format=sut.TRACE_FORMATS[model.kind])


def fails(fn, *exc):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raised', type(e).__name__)


def truncated(keep):
    data = spaces.build(SPECS['rev1']).to_bytes()
    return (fails(lambda: sut.observe_reader(sut.open_reader(data[:3650])), EOFError, ValueError),
            fails(lambda: sut.observe_reader(sut.open_reader(data[:-3]))))


def bad_write(keep):
    model = spaces.build(SPECS['rev1'])
    model.lines = ['\u20ac' * 3] + list(model.lines[1:])
    dataset = sut.MemDataset(model)
    fh = io.BytesIO()
    from segpy.writer import write_segy
    return fails(lambda: write_segy(fh, dataset, encoding='ascii')), fh.getvalue()


def packers(keep):
    out = []
    for shift in (0, 2):
        for endian in '><':
            cls = custom(shift)
            p = make_header_packer(cls, endian)
            data = p.pack(cls(ensemble_num=0x01020304, num_samples=5, inline_number=-2, crossline_number=3))
            out.append((data, sut.header_values(p.unpack(data))))
    return out


def sub_formats(keep):
    out = []
    for names in (('ensemble_num',), ('ensemble_num', 'num_samples'), ('num_samples', 'ensemble_num')):
        for parent in (TraceHeaderRev1, TraceHeaderRev0, custom(2)):
            sub = SubFormatMeta('Sub', (), {}, parent_format=parent, parent_field_names=names)
            p = make_header_packer(sub)
            data = bytes(range(240))
            h = p.unpack(data)
            out.append([int(getattr(h, n)) for n in names])
    return out


def headers(keep):
    a, b = TraceHeaderRev1(ensemble_num=5), TraceHeaderRev1()
    a.num_samples = 9
    c = a.copy(ensemble_num=6)
    keep.append(lambda: [sut.header_values(h) for h in (a, b, c)])
    refused = fails(lambda: setattr(a, 'num_samples', -1))
    return [sut.header_values(h) for h in (a, b, c)], are_equal(a, b), refused


def pickled(keep):
    h = TraceHeaderRev1(ensemble_num=5)
    i = pickle.loads(pickle.dumps(h))
    keep.append(lambda: (sut.header_values(h), sut.header_values(i)))
    return are_equal(h, i)


def text(keep):
    lines = format_standard_textual_header(SegYRevision.REVISION_1, client='Me', crew_number=0, sweep_type='x' * 40)
    other = format_standard_textual_header(SegYRevision.REVISION_0)
    bad = fails(lambda: format_standard_textual_header(SegYRevision.REVISION_1, nonsense=1))
    fields = dict(parse_standard_textual_header(lines))
    fields_changed = dict(fields)
    fields['client'] = 'you'
    return lines, other, bad, fields_changed


def extended(keep):
    pages = format_extended_textual_header('a\n\nb' * 50, 'cp037', include_text_stop=True)
    seen = [list(p) for p in pages]
    for p in pages:
        p.append('changed by the caller')
    return seen


def catalogs(keep):
    a = CatalogBuilder([(1, 1), (2, 2), (4, 4)]).create()
    b = CatalogBuilder([((1, 1), 0), ((1, 2), 1)]).create()
    c = CatalogBuilder([(1, 1), (1, 2)]).create()
    d = CatalogBuilder().create()
    keep.append(lambda: [dict(x) for x in (a, b, d)])
    return [dict(x) for x in (a, b, d)], c, list(make_sorted_distinct_sequence([3, 1, 2]))


def floats(keep):
    x = IBMFloat.from_float(1.25)
    keep.append(lambda: (float(x), bytes(x)))
    return [bytes(x), bytes(-x), float(x + x), float(abs(-x)), bytes(x.normalize()), fails(lambda: IBMFloat.from_float(1e80)), x == 1.25, x < 2,
            bytes(IBMFloat(b'\x42\x01\x40\x00').normalize())]


def numpy_extraction(keep):
    reader = reader_of('rev1')
    array = extract_inline_3d(reader, 2, null=-1)
    heads = extract_trace_headers(reader, ['ensemble_num', 'num_samples'])
    other = extract_trace_headers(reader_of('rev0le'), ['num_samples', 'ensemble_num'])
    keep.append(lambda: array.tolist())
    seen = array.tolist(), [a.tolist() for a in heads], [a.tolist() for a in other]
    again = extract_inline_3d(reader, 2, null=-1)
    again[:] = 77
    return seen, array.tolist()


def rewritten(keep):
    class Other(DelegatingDataset):
        def trace_header(self, i):
            h = super().trace_header(i)
            h.ensemble_num = 99
            return h
    reader = reader_of('rev1le')
    keep.append(lambda: sut.observe_reader(reader))
    return sut.write_bytes(Other(reader), endian='<'), sut.write_bytes(reader), sut.write_bytes(Other(reader), encoding='ascii')


def cataloguing(keep):
    model = spaces.build(SPECS['rev1'])
    fh = io.BytesIO(model.to_bytes())
    fh.seek(3600)
    four = catalog_traces(fh, 4)
    keep.append(lambda: [None if c is None else dict(c) for c in four])
    fh.seek(3600)
    five = catalog_traces(fh, 4, trace_header_format=custom(0))
    return [[None if c is None else dict(c) for c in cs] for cs in (four, five)]


def guesses(keep):
    return [guess_encoding(b) for b in (b'HELLO', 'HELLO'.encode('cp037'), b'', b'\0\0', b'\xff\xfe')]


OPS = {
    'rev1': open_spec('rev1'),
    'rev0': open_spec('rev0'),
    'custom0': open_spec('rev1', trace_header_format=custom(0)),
    'custom2': open_spec('rev1', trace_header_format=custom(2)),
    'rev1le': open_spec('rev1le'),
    'write_rev1': write_spec('rev1'),
    'write_rev0': write_spec('rev0'),
    'packers': packers,
    'sub_formats': sub_formats,
    'reel60': open_spec('rev1', binary_reel_header_format=custom_reel(3261)),
    'reel70': open_spec('rev1', binary_reel_header_format=custom_reel(3271)),
    'rev0le': open_spec('rev0le'),
    'basic': open_spec('basic'),
    'guessed': open_spec('rev1le', encoding=None),
    'as1d': open_spec('rev1', dimensionality=1),
    'truncated': truncated,
    'bad_write': bad_write,
    'headers': headers,
    'pickled': pickled,
    'text': text,
    'extended': extended,
    'catalogs': catalogs,
    'floats': floats,
    'numpy': numpy_extraction,
    'rewritten': rewritten,
    'cataloguing': cataloguing,
    'guesses': guesses,
}
NAMES = list(OPS)
CORE = NAMES[:9]


def run(names):
    """The results of the operations in turn, and what is seen afterwards of the objects they made."""
    results, later = [], []
    for name in names:
        keep = []
        results.append(OPS[name](keep))
        later.append(keep)
    return results, [[f() for f in keep] for keep in later]
