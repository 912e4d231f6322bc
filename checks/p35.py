import io
import itertools
import os
import shutil
import struct
import sys
import types

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import Dataset, DelegatingDataset
from segpy.field_types import Int16
from segpy.header import FormatMeta, Header, SubFormatMeta, field
from segpy.packer import make_header_packer
from segpy.reader import SegYReader, SegYReader2D, SegYReader3D, create_reader
from segpy.trace_header import TraceHeaderRev1
from segpy.writer import write_segy

from checks.p13 import ENUMS, TYPES
from mc.engine import Check
from mc import ref, spaces, sut

# Formats have to be found by name for a reader to be pickled
HOME = types.ModuleType('mc_formats_of_p35')
sys.modules['mc_formats_of_p35'] = HOME

NAMES = {'N': 'num_samples', 'C': 'ensemble_num', 'I': 'inline_number', 'X': 'crossline_number', 'E': 'extra'}
SLOTS = (0, 6, 114, 200, 236)
READERS = {1: SegYReader, 2: SegYReader2D, 3: SegYReader3D}

# num_samples, (cdp, inline, crossline) of each trace
TRACES = {
    'lines': ([2, 0, 3, 1], [(5, 1, 1), (5, 1, 2), (4, 2, 1), (4, 2, 2)]),
    'cdps': ([1, 2, 2], [(3, 1, 1), (1, 1, 1), (2, 1, 1)]),
    'neither': ([0, 1, 1], [(3, 1, 1), (3, 1, 1), (2, 1, 2)]),
    'both': ([3, 3], [(0, 3, 0), (1, 0, 3)]),
    'one': ([2], [(4, 5, 2)]),
    'none': ([], []),
}


def make_class(name, fields, start=None, length=None, bases=(Header,)):
    """fields: [(name, type letter or a field type, offset)]"""
    ns = FormatMeta.__prepare__(name, bases)
    ns['__module__'], ns['__qualname__'] = HOME.__name__, name
    if start is not None:
        ns['START_OFFSET_IN_BYTES'] = start
    if length is not None:
        ns['LENGTH_IN_BYTES'] = length
    for n, t, offset, *default in fields:
        ns[n] = field(TYPES[t][0] if t in TYPES else t, offset, default[0] if default else 0, n)
    cls = FormatMeta(name, bases, ns)
    setattr(HOME, name, cls)
    return cls


class Layout:
    """A header format as the model has it: name -> (offset from the beginning of the header, struct code)."""

    def __init__(self, places, length):
        self.places = places
        self.length = length

    def encode(self, values, endian, noise=None):
        buf = bytearray([noise or 0]) * self.length
        for name, (at, code) in self.places.items():
            struct.pack_into(endian + code, buf, at, values[name])
        return bytes(buf)


STANDARD_TRACE = {f[0]: (f[1] - 1, {2: 'h', 4: 'i'}[f[2]]) for f in ref.TRACE1_FIELDS}
STANDARD_REEL = {f[0]: (f[1] - 3201, {2: 'h', 4: 'i'}[f[2]]) for f in ref.REEL_FIELDS}
INT32_NAMES = [f[0] for f in ref.TRACE1_FIELDS if f[2] == 4 and f[5] is None and f[0] not in NAMES.values()]
INT16_TRACE = [f[0] for f in ref.TRACE1_FIELDS if f[2] == 2 and f[5] is None and f[0] != 'num_samples']


class Held(Dataset):
    """A dataset in memory, with headers of any format."""

    def __init__(self, lines, pages, reel, headers, samples):
        self._held = lines, pages, reel, headers, samples

    textual_reel_header = property(lambda self: self._held[0])
    extended_textual_header = property(lambda self: self._held[1])
    binary_reel_header = property(lambda self: self._held[2])
    dimensionality = 0
    encoding = 'ascii'

    def num_traces(self):
        return len(self._held[3])

    def trace_header(self, i):
        return self._held[3][i]

    def trace_samples(self, i, start=None, stop=None):
        return self._held[4][i][start:stop]


class P35(Check):
    id = 'P35'
    technique = 'bounded-exhaustive exploration of header formats as programs, through the real reader and writer, against a byte model'
    level_note = ('Every placement of the fields a reader relies on over five places of a header, with every subset of them present, three origins, '
                  'twelve types; every standard field as the new place of each of them; every relocated or extended reel header field; each read, '
                  'indexed, partly read, written, delegated, converted, cached and pickled.')
    rule = ('A case is a pair of header formats and a pattern of traces. Files are encoded by the model, with misleading bytes wherever the formats have no '
            'field. States are distinct (formats, file); transitions are files opened or written.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        patterns = list(TRACES)
        k = 0
        for perm in itertools.permutations('NCIXE'):
            for present in itertools.product((True, False), repeat=3):
                for start in (1, 0, 181):
                    for variant in range(3 if thorough else 1):
                        k += 1
                        yield dict(kind='placed', perm=''.join(perm), absent=[c for c, p in zip('CIX', present) if not p], start=start,
                                   types=['Huhicb'[k % 6], 'ihuUse'[k // 2 % 6], 'ihuUse'[(k // 5 + variant) % 6], 'hi'[k // 3 % 2]],
                                   traces=patterns[(k + variant) % 5], endian='><'[k // 7 % 2], fmt=spaces.FMTS[k % 5], k=k)
        for n, c, i in itertools.product('HuhUicIb', 'ihuUsefcb', 'ihuUsefcb'):
            for traces in patterns:
                for endian in '><' if thorough else '><'[k % 2]:
                    k += 1
                    yield dict(kind='placed', perm='XNECI', absent=[], start=1, types=[n, c, i, 'h'], traces=traces, endian=endian, fmt=8, k=k)
        # Fields which share their bytes with others
        for shared in ('CI', 'CX', 'IX', 'CIX', 'NE', 'CE', 'IE', 'XE', 'NC', 'NI', 'CIXE'):
            for t, traces, endian, start in itertools.product('hiu', patterns, '><', (0, 1)):
                k += 1
                yield dict(kind='shared', shared=shared, type=t, traces=traces, endian=endian, start=start, fmt=3, k=k)
        # The standard format, but for the place of one or two fields
        for what in ('ensemble_num', 'inline_number', 'crossline_number'):
            for where in INT32_NAMES + ['at 233', 'at 237']:
                for traces in patterns[:3]:
                    k += 1
                    yield dict(kind='moved', moves={what: where}, traces=traces, endian='><'[k % 2], fmt=2, k=k)
        for where in INT16_TRACE + ['at 233', 'at 239']:
            for traces in patterns[:2]:
                k += 1
                yield dict(kind='moved', moves={'num_samples': where}, traces=traces, endian='><'[k % 2], fmt=2, k=k)
        for a, b in itertools.permutations(INT32_NAMES, 2) if thorough else zip(INT32_NAMES, INT32_NAMES[5:] + INT32_NAMES[:5]):
            k += 1
            yield dict(kind='moved', moves={'inline_number': a, 'crossline_number': b}, traces='lines', endian='><'[k % 2], fmt=2, k=k)
        # Reel headers
        for name in STANDARD_REEL:
            for at in (3261 + 2 * 20, 3597) if name in ('data_sample_format', 'num_extended_textual_headers', 'format_revision_num') or thorough else (3400,):
                for fmt, ext in itertools.product((1, 3, 8), ('none', 'end', 'two')):
                    k += 1
                    yield dict(kind='reel', moved=name, at=at, fmt=fmt, ext=ext, endian='><'[k % 2], traces=patterns[k % 6], k=k)
        for at in range(3301, 3500, 1 if thorough else 7):
            for t in 'bhiuUe':
                k += 1
                yield dict(kind='reel', added=t, at=at, fmt=8, ext='one', endian='><'[k % 2], traces=patterns[k % 6], k=k)

    def run(self, case, ctx):
        endian = case['endian']
        lengths, geometry = TRACES[case['traces']]
        trace_class, layout = TraceHeaderRev1, Layout(STANDARD_TRACE, 240)
        reel_class, reel_layout = BinaryReelHeader, Layout(STANDARD_REEL, 400)
        same = []       # groups of fields which share their bytes
        absent = ()
        letters = {}    # name -> type letter, where it matters to the values
        if case['kind'] in ('placed', 'shared'):
            if case['kind'] == 'placed':
                absent = [NAMES[c] for c in case['absent']]
                order = [c for c in case['perm'] if NAMES[c] not in absent]
                at = {c: SLOTS[i] for i, c in enumerate(case['perm'])}
                t = dict(zip('NCIE', case['types']))
                t['X'] = t['I']
            else:
                order = list('NCIXE')
                at = {c: SLOTS[i] for i, c in enumerate('NCIXE')}
                at.update({c: at[case['shared'][0]] for c in case['shared']})
                t = {c: case['type'] if c in case['shared'] else 'h' for c in order}
                same.append([NAMES[c] for c in case['shared']])
            if at['N'] == 236 and TYPES[t['N']][1] > 4:
                return
            declared = [order, order[::-1], sorted(order), order[2:] + order[:2]][case['k'] % 4]
            trace_class = make_class('Placed', [(NAMES[c], t[c], case['start'] + at[c]) for c in declared], case['start'], 240)
            layout = Layout({NAMES[c]: (at[c], TYPES[t[c]][2]) for c in declared}, 240)
            letters = {NAMES[c]: t[c] for c in declared}
        elif case['kind'] == 'moved':
            places = dict(STANDARD_TRACE)
            fields = []
            for what, where in case['moves'].items():
                if where.startswith('at '):
                    offset = int(where[3:]) - 1
                else:
                    offset = STANDARD_TRACE[where][0]
                    same.append([what, where])
                places[what] = (offset, STANDARD_TRACE[what][1])
                fields.append((what, getattr(TraceHeaderRev1, where if where in STANDARD_TRACE else what).value_type, offset + 1))
            trace_class = make_class('Moved', fields, bases=(TraceHeaderRev1,))
            layout = Layout(places, 240)
        else:
            places = dict(STANDARD_REEL)
            if 'moved' in case:
                name = case['moved']
                places[name] = (case['at'] - 3201, STANDARD_REEL[name][1])
                reel_class = make_class('Reel', [(name, getattr(BinaryReelHeader, name).value_type, case['at'], ref.defaults('reel')[name])], bases=(BinaryReelHeader,))
            else:
                places['mine'] = (case['at'] - 3201, TYPES[case['added']][2])
                if any(a < case['at'] - 3201 + 4 and case['at'] - 3201 < a + 2 for a, _ in STANDARD_REEL.values()):
                    return
                reel_class = make_class('Reel', [('mine', case['added'], case['at'])], bases=(BinaryReelHeader,))
            reel_layout = Layout(places, 400)

        # The contents of the headers
        model = spaces.build(dict(fmt=case['fmt'], endian=endian, ext=case.get('ext', 'none'), lens=lengths, k=case['k'] % 11))
        reel = dict(model.reel)
        if 'added' in case:
            reel['mine'] = int(ENUMS['e'].OTHER) if case['added'] == 'e' else 77
        rows = []
        for i, (n, (cdp, inline, xline)) in enumerate(zip(lengths, geometry)):
            row = {name: 0 for name in layout.places}
            if case['kind'] in ('moved', 'reel'):
                row.update(ref.defaults('trace1'), line_sequence_num=i + 1)
            row.update({k: v for k, v in dict(num_samples=n, ensemble_num=cdp, inline_number=inline, crossline_number=xline, extra=30 + i).items()
                        if k in layout.places})
            for name, letter in letters.items():
                if letter in ENUMS and name != 'num_samples':
                    legal = [int(v) for v in ENUMS[letter]]
                    row[name] = legal[row[name] % len(legal)]
            for group in same:
                leader = 'num_samples' if 'num_samples' in group else group[0]
                row.update({name: row[leader] for name in group})
            rows.append(row)
        names = set(layout.places)

        def whole(endian, noise=None):
            out = [ref.encode_text(''.join(model.lines), 'ascii'), reel_layout.encode(reel, endian, noise)]
            out += [ref.encode_text(''.join(p), 'ascii') for p in model.pages]
            for row, (_, samples) in zip(rows, model.traces):
                out += [layout.encode(row, endian, noise), ref.encode_samples(model.fmt, samples, endian)]
            return b''.join(out)

        what = repr({k: v for k, v in case.items() if k != 'k'})
        natural, index = ref.survey([(row, None) for row in rows], {'inline_number', 'crossline_number'} <= names, 'ensemble_num' in names)
        kw = dict(encoding='ascii', endian=endian, trace_header_format=trace_class, binary_reel_header_format=reel_class)

        def judge(reader, what, endian=endian, dimensionality=None, full=True):
            ctx.transition()
            dim = natural if dimensionality is None else dimensionality
            ctx.require(type(reader) is READERS[dim], '{}: a {}', what, type(reader).__name__)
            ctx.equal([reader.num_trace_samples(i) for i in range(reader.num_traces())], list(lengths), what + ': lengths')
            got = sut.observe_index(reader)
            if dim == 3:
                lines = index if natural == 3 else {}
                ctx.equal((got['lines'], got['num_lines_listed']), (lines, len(lines)), what + ': index')
            elif dim == 2:
                cdps = {row['ensemble_num']: i for i, row in enumerate(rows)} if 'ensemble_num' in names else {}
                ctx.equal(got['cdps'], cdps if len(cdps) == len(rows) else {}, what + ': index')
            ctx.equal([sut.samples_of(model.fmt, reader.trace_samples(i)) for i in range(len(rows))],
                      [[ref.expected_key(model.fmt, v) for v in s] for _, s in model.traces], what + ': samples')
            headers = [reader.trace_header(i) for i in range(len(rows))]
            ctx.require(all(type(h) is trace_class for h in headers), '{}: classes of the headers', what)
            ctx.equal([sut.header_values(h) for h in headers], rows, what + ': trace headers')
            ctx.require(reader.trace_header_format_class is trace_class, '{}: trace_header_format_class', what)
            ctx.require(type(reader.binary_reel_header) is reel_class, '{}: class of the reel header', what)
            ctx.equal(sut.header_values(reader.binary_reel_header), reel, what + ': reel header')
            ctx.equal([list(p) for p in reader.extended_textual_header], model.pages, what + ': pages')
            ctx.equal((reader.bytes_per_sample, int(reader.revision), list(reader.textual_reel_header)),
                      (ref.FORMATS[model.fmt][2], 256 if reel['format_revision_num'] else 0, model.lines), what + ': facts')
            if full:
                for name in sorted(names)[::1 if len(names) < 10 else 9]:
                    packer = make_header_packer(SubFormatMeta('Part', (), {}, parent_format=trace_class, parent_field_names=[name]), endian)
                    for i, row in enumerate(rows):
                        ctx.equal(int(getattr(reader.trace_header(i, packer), name)), row[name], '{}: {} alone of trace {}'.format(what, name, i))

        for noise in (0, 1, 0xe7):
            data = whole(endian, noise)
            reader = ctx.call(lambda: create_reader(io.BytesIO(data), cache_directory=None, **kw), 'opening ' + what)
            judge(reader, 'the file of {} (noise {})'.format(what, noise), full=noise == 1)
        ctx.state((repr(sorted(layout.places.items())), repr(sorted(reel_layout.places.items())), data))
        for dimensionality in (1, 2, 3):
            judge(create_reader(io.BytesIO(data), cache_directory=None, dimensionality=dimensionality, **kw),
                  'the file of {} as {}-dimensional'.format(what, dimensionality), dimensionality=dimensionality, full=False)
        held = Held(model.lines, model.pages, reel_class(**reel), [trace_class(**row) for row in rows], [s for _, s in model.traces])
        for source, origin in ((reader, 'the reader'), (DelegatingDataset(reader), 'a delegate'), (held, 'a dataset in memory')):
            for to in '><':
                if to != endian and source is not reader:
                    continue
                out = io.BytesIO()
                write_segy(out, source, endian=to, trace_header_format=trace_class)
                ctx.transition()
                got, want = out.getvalue(), whole(to)
                ctx.require(got == want, '{} of {}, written {}: {} bytes, different from the {} expected at {}', origin, what, to, len(got), len(want),
                            next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), None))
        if case['k'] % 10 == 0 or case['kind'] == 'shared':
            self.sessions(ctx, data, kw, judge, what)
        if case['k'] % 40 == 0:
            self.names(ctx, data, kw, judge, what)
        ctx.trace()
        ctx.sample(case)

    def sessions(self, ctx, data, kw, judge, what):
        """The same through a cache, from which the reader comes on the second occasion."""
        path = os.path.join(ctx.scratch, 'file.segy')
        cache = os.path.join(ctx.scratch, 'cache')
        with open(path, 'wb') as fh:
            fh.write(data)
        try:
            for occasion in ('first', 'second'):
                with open(path, 'rb') as fh:
                    judge(create_reader(fh, cache_directory=cache, **kw), '{} through a cache, the {} time'.format(what, occasion))
            ctx.require(len(os.listdir(cache)) == 1, '{}: {} cache entries', what, len(os.listdir(cache)))
        finally:
            os.remove(path)
            for name in os.listdir(cache):
                os.remove(os.path.join(cache, name))

    def names(self, ctx, data, kw, judge, what):
        """Every sequence of openings through a cache, with the classes found by their names or not at each."""
        path = os.path.join(ctx.scratch, 'file.segy')
        cache = os.path.join(ctx.scratch, 'cache')
        mine = [c for c in (kw['trace_header_format'], kw['binary_reel_header_format']) if c.__module__ == HOME.__name__]
        with open(path, 'wb') as fh:
            fh.write(data)
        try:
            for ways in itertools.product(('found', 'gone', 'replaced', 'local'), repeat=3):
                for way in ways:
                    for c in mine:
                        c.__qualname__ = c.__name__ if way != 'local' else 'make.<locals>.' + c.__name__
                        if way == 'gone':
                            if hasattr(HOME, c.__name__):
                                delattr(HOME, c.__name__)
                        else:
                            other = FormatMeta(c.__name__, c.__bases__, FormatMeta.__prepare__(c.__name__, c.__bases__))
                            setattr(HOME, c.__name__, c if way == 'found' else other)
                    with open(path, 'rb') as fh:
                        told = '{} through a cache, the formats being {}'.format(what, ways)
                        reader = ctx.call(lambda: create_reader(fh, cache_directory=cache, **kw), told)
                        judge(reader, told, full=False)
                shutil.rmtree(cache, ignore_errors=True)
        finally:
            for c in mine:
                c.__qualname__ = c.__name__
                setattr(HOME, c.__name__, c)
            os.remove(path)
            shutil.rmtree(cache, ignore_errors=True)


CHECK = P35()
