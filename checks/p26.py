import io
import itertools
import struct
import sys

import numpy as np

sys.pycache_prefix = '/nonexistent/segpy-mc'
from segpy_numpy.extract import (extract_inline_3d, extract_timeslice_3d, extract_trace, extract_trace_header_field_3d,
                                 extract_trace_headers, extract_xline_3d)
from segpy_numpy import dtypes, util as np_util
sys.pycache_prefix = None
from segpy.field_types import Int16, Int32, NNInt16
from segpy.header import Header, field
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from mc.engine import Check
from mc import ref, spaces, sut

DTYPES = {1: 'f4', 2: 'i4', 3: 'i2', 5: 'f4', 8: 'i1'}
GRIDS = {'regular': ([1, 2, 3], [10, 20]), 'stride': ([-4, 0, 4], [7, 5, 3]), 'irregular': ([1, 2, 9], [5, 6]), 'single': ([5], [1, 2]),
         'scattered': ([1, 4, 5], [2, 3, 8]), 'one': ([3], [3]), 'wide': ([100, 50], [1, 2, 3, 5])}
FIELDS = ('line_sequence_num', 'num_samples', 'cdp_x', 'xy_scalar', 'inline_number', 'receiver_group_elevation', 'trace_num',
          'trace_identification_code')


def make_model(grid, present, fmt, lengths, endian, order=0, k=0):
    ils, xls = GRIDS[grid]
    cells = [(i, j) for i in ils for j in xls]
    cells = [c for n, c in enumerate(cells) if present >> n & 1]
    if order == 1:
        cells.reverse()
    if order == 2:
        cells.sort(key=lambda c: (c[1], c[0]))
    lens = [lengths[n % len(lengths)] for n in range(len(cells))]
    return spaces.build(dict(fmt=fmt, lens=lens, endian=endian, k=k, geometry=[[i, j, 5] for i, j in cells],
                             hdrs={str(n): {'cdp_x': 1000 * n - 7, 'xy_scalar': (1, -10, 100, -1000)[n % 4], 'receiver_group_elevation': n * 70000, 'trace_num': -n}
                                   for n in range(len(cells))}))


def choices(numbers, rich=True):
    """Ways of choosing among some numbers: (argument, numbers chosen)"""
    out = [(None, numbers), (slice(None), numbers)]
    n = len(numbers)
    for a, b, c in itertools.product((None, 0, 1, -1), (None, 1, n - 1, n + 3), (None, 2) if rich else (None,)):
        out.append((slice(a, b, c), numbers[a:b:c]))
    for r in range(1, n + 1):
        for chosen in itertools.combinations(numbers, r):
            out.append((list(chosen)[::-1], list(chosen)))
            if rich and r < 3:
                out.append((tuple(chosen) + chosen, list(chosen)))
                out.append((set(chosen), list(chosen)))
    for step in (1, 2):
        if n > 1:
            r = range(numbers[0], numbers[-1] + 1, (numbers[1] - numbers[0]) * step)
            if set(r) <= set(numbers):
                out += [(r, list(r)), (r[::-1], list(r))]
    return out


LAYOUTS = [(offset, letter, endian, names) for offset in (181, 185, 183) for letter in 'ih' for endian in '><'
           for names in (('extra',), ('inline_number', 'extra'))]


def layout(offset, letter):
    class Local(Header):
        START_OFFSET_IN_BYTES = 1
        LENGTH_IN_BYTES = 240
        num_samples = field(NNInt16, offset=115, default=0, documentation='')
        inline_number = field(Int32, offset=189, default=0, documentation='')
        crossline_number = field(Int32, offset=193, default=0, documentation='')
        extra = field({'i': Int32, 'h': Int16}[letter], offset=offset, default=0, documentation='')
    return Local


def value_of(fmt, v):
    if fmt == 1:
        return np.float32(float(ref.expected_key(1, v)))
    return np.dtype(DTYPES[fmt]).type(v)


class P26(Check):
    id = 'P26'
    technique = 'bounded-exhaustive execution of the numpy extraction over all small incomplete surveys and ways of choosing'
    level_note = ('Every subset of traces of seven small grids in three file orders, each sample format and byte order, ragged lengths, each '
                  'way (none, slice, list, tuple, set, range) of choosing lines and samples, with and without a null.')
    rule = ('A state is a distinct survey; a transition is one extraction. Shape, element type, mask, null and every element are '
            'compared with the model of the file.')
    assumptions = ('slices with a negative step are not judged',)

    def cases(self, tier):
        thorough = tier == 'thorough'
        k = 0
        for grid, (ils, xls) in GRIDS.items():
            n = len(ils) * len(xls)
            for present in range(1, 1 << n):
                if n > 6 and not thorough and bin(present).count('1') not in (1, 2, n - 1, n) and present % 23:
                    continue
                k += 1
                yield dict(kind='section', grid=grid, present=present, fmt=spaces.FMTS[k % 5], lengths=[[3], [3, 1, 0, 2], [1, 4]][k % 3],
                           endian='<>'[k % 2], order=k % 3, full=False)
        for grid in GRIDS:
            n = len(GRIDS[grid][0]) * len(GRIDS[grid][1])
            for fmt in spaces.FMTS:
                for endian in '<>':
                    for lengths in ([3], [2, 3, 0], [5, 1]):
                        for present in sorted({(1 << n) - 1, max(1, ((1 << n) - 1) & 0b101101101101)}):
                            yield dict(kind='section', grid=grid, present=present, fmt=fmt, lengths=lengths, endian=endian, order=1, full=True)
        for fmt in spaces.FMTS:
            for endian in '<>':
                for kind in spaces.KINDS:
                    yield dict(kind='trace', fmt=fmt, endian=endian, header=kind)
        yield dict(kind='superset')
        for field in [f[0] for f in ref.TRACE1_FIELDS]:
            yield dict(kind='field', field=field)

        for first in range(len(LAYOUTS)):
            yield dict(kind='layouts', first=first)

    def do_layouts(self, case, ctx):
        """One after the other, the same field by its name from files with two layouts of one name."""
        for pair in itertools.product([case['first']], range(len(LAYOUTS))):
            for n, which in enumerate(pair):
                offset, letter, endian, names = LAYOUTS[which]
                form = layout(offset, letter)
                grid = [(i, j) for i in (1, 2) for j in (3, 5)]
                model = spaces.build(dict(fmt=3, lens=[1] * 4, endian=endian, geometry=[[i, j, 5] for i, j in grid],
                                          hdrs={str(k): {'cdp_x': 0x01020304 * (k + 1) - n, 'cdp_y': -0x11020304 * k + n} for k in range(4)}))
                data = model.to_bytes()
                values = {'extra': [struct.unpack_from(endian + letter, data, at + offset - 1)[0] for at in model.offsets()[0]],
                          'inline_number': [1, 1, 2, 2]}
                reader = create_reader(io.BytesIO(data), cache_directory=None, trace_header_format=form, endian=endian)
                ctx.state((offset, letter, endian, names))
                ctx.transition(2)
                for what, got in (('field_3d', [a.tolist() for a in extract_trace_header_field_3d(reader, names)]),
                                  ('headers', [a.reshape(2, 2).tolist() for a in extract_trace_headers(reader, names)])):
                    ctx.equal(got, [[values[f][:2], values[f][2:]] for f in names], '{} of {} of the {}. layout'.format(what, names, n + 1))
        ctx.trace()
        ctx.sample(case)

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def compare(self, ctx, got, want, dtype, null, what):
        """want is a nested list, with None for what is missing"""
        ctx.transition()
        shape = np.array([[0 for _ in row] for row in want]).shape if want and want[0] != [] else (len(want), len(want[0]) if want else 0)
        ctx.equal(got.shape[0], len(want), 'first dimension of ' + what)
        if want:
            ctx.equal(got.shape, shape, 'shape of ' + what)
        ctx.equal(got.dtype, np.dtype(dtype), 'element type of ' + what)
        if null is None:
            ctx.require(isinstance(got, np.ma.MaskedArray), what + ' is not a masked array')
        else:
            ctx.require(not isinstance(got, np.ma.MaskedArray), what + ' is a masked array in spite of the null value')
        mask = np.ma.getmaskarray(got)
        for a, row in enumerate(want):
            for b, v in enumerate(row):
                if v is None and null is None:
                    ctx.require(bool(mask[a, b]), '{} at {} is not masked', what, (a, b))
                else:
                    x = np.dtype(dtype).type(null) if v is None else v
                    ctx.require(not mask[a, b], '{} at {} is masked', what, (a, b))
                    g = got[a, b]
                    ctx.require(g == x or (g != g and x != x), '{} at {} is {} instead of {}', what, (a, b), g, x)

    def pairs(self, ctx, case, a, b):
        """Ways of choosing along two axes: all pairs of them, or else each of one axis with some of the other."""
        rich = case['full']
        first, second = choices(a, rich), choices(b, rich)
        if ctx.tier == 'thorough' and rich:
            yield from itertools.product(first, second)
            return
        some = lambda cs, n: [c for k, c in enumerate(cs) if k == 0 or (k + n) % 13 == 0]
        stride = 1 if rich else 3
        for n, x in enumerate(first[::stride]):
            for y in some(second, n):
                yield x, y
        for n, y in enumerate(second[::stride]):
            for x in some(first, n):
                yield x, y

    def do_section(self, case, ctx):
        m = make_model(case['grid'], case['present'], case['fmt'], case['lengths'], case['endian'], case['order'])
        fmt = m.fmt
        reader = create_reader(io.BytesIO(m.to_bytes()), endian=m.endian, dimensionality=3, cache_directory=None)
        lines = {(h['inline_number'], h['crossline_number']): (i, h, s) for i, (h, s) in enumerate(m.traces)}
        ils, xls = sorted({i for i, _ in lines}), sorted({j for _, j in lines})
        top = max((len(s) for _, s in m.traces), default=0)
        ctx.state((case['grid'], case['present'], fmt, tuple(case['lengths']), case['order']))
        samples = list(range(top))

        def at(i, j, k):
            if (i, j) not in lines:
                return None
            s = lines[i, j][2]
            return value_of(fmt, s[k]) if k < len(s) else None
        nulls = (None, 0, 99)
        n = 0
        every = case['full'] and ctx.tier == 'thorough'
        for (xarg, xchosen), (sarg, schosen) in self.pairs(ctx, case, xls, samples):
            n += 1
            null = nulls[n % 3]
            for i in (ils if every else [ils[n % len(ils)]]):
                self.compare(ctx, extract_inline_3d(reader, i, xarg, sarg, null), [[at(i, j, k) for k in schosen] for j in xchosen], DTYPES[fmt], null,
                             'extract_inline_3d({}, {}, {}, {})'.format(i, xarg, sarg, null))
        for (iarg, ichosen), (sarg, schosen) in self.pairs(ctx, case, ils, samples):
            n += 1
            null = nulls[n % 3]
            for j in (xls if every else [xls[n % len(xls)]]):
                self.compare(ctx, extract_xline_3d(reader, j, iarg, sarg, null), [[at(i, j, k) for k in schosen] for i in ichosen], DTYPES[fmt], null,
                             'extract_xline_3d({}, {}, {}, {})'.format(j, iarg, sarg, null))
        for (iarg, ichosen), (xarg, xchosen) in self.pairs(ctx, case, ils, xls):
            n += 1
            null = nulls[n % 3]
            if top:
                k = samples[n % top]
                self.compare(ctx, extract_timeslice_3d(reader, k, iarg, xarg, null), [[at(i, j, k) for j in xchosen] for i in ichosen], DTYPES[fmt], null,
                             'extract_timeslice_3d({}, {}, {}, {})'.format(k, iarg, xarg, null))
            names = (FIELDS[n % len(FIELDS)], FIELDS[(n * 3 + 1) % len(FIELDS)])
            if names[0] == names[1]:
                names = names[:1]
            asked = [getattr(TraceHeaderRev1, f) if (n + q) % 2 else f for q, f in enumerate(names)]
            got = extract_trace_header_field_3d(reader, asked, iarg, xarg, null)
            ctx.equal(got._fields, names, 'the fields extracted')
            for f, a in zip(names, got):
                size = {t[0]: t[2] for t in ref.TRACE1_FIELDS}[f]
                want = [[lines[i, j][1][f] if (i, j) in lines else None for j in xchosen] for i in ichosen]
                self.compare(ctx, a, want, {2: 'i2', 4: 'i4'}[size], null, 'extract_trace_header_field_3d({}, {}, {}, {})'.format(f, iarg, xarg, null))
        # Numbers not in the survey
        absent = 987
        for fn, what in ((lambda: extract_inline_3d(reader, absent), 'inline'), (lambda: extract_xline_3d(reader, absent), 'crossline'),
                         (lambda: extract_timeslice_3d(reader, top), 'sample number'), (lambda: extract_timeslice_3d(reader, -1), 'sample number'),
                         (lambda: extract_inline_3d(reader, ils[0], [xls[0], absent]), 'crossline of the inline'),
                         (lambda: extract_inline_3d(reader, ils[0], range(xls[0], absent + 1, absent - xls[0])), 'crossline of the inline'),
                         (lambda: extract_inline_3d(reader, ils[0], None, [top]), 'sample of the inline'),
                         (lambda: extract_inline_3d(reader, ils[0], None, range(0, top + 1)), 'sample of the inline'),
                         (lambda: extract_xline_3d(reader, xls[0], [absent]), 'inline of the crossline'),
                         (lambda: extract_xline_3d(reader, xls[0], None, [-1]), 'sample of the crossline'),
                         (lambda: extract_trace_header_field_3d(reader, ['cdp_x'], [absent]), 'inline of the headers'),
                         (lambda: extract_trace_header_field_3d(reader, ['cdp_x'], None, {absent}), 'crossline of the headers')):
            ctx.raises(ValueError, fn, 'an absent ' + what)
        if top:
            ctx.raises(ValueError, lambda: extract_timeslice_3d(reader, 0, [absent]), 'an absent inline of the time slice')
            ctx.raises(ValueError, lambda: extract_timeslice_3d(reader, 0, None, [absent]), 'an absent crossline of the time slice')
        ctx.trace()
        ctx.sample(case)

    def do_trace(self, case, ctx):
        fmt = case['fmt']
        for n in (0, 1, 2, 5, 8):
            m = spaces.build(dict(fmt=fmt, endian=case['endian'], kind=case['header'], lens=[n, 3, n], k=n))
            reader = create_reader(io.BytesIO(m.to_bytes()), endian=m.endian, trace_header_format=sut.TRACE_FORMATS[m.kind], cache_directory=None)
            for t, (h, s) in enumerate(m.traces):
                for arg, chosen in choices(list(range(len(s))) if len(s) < 6 else list(range(8)), len(s) < 6):
                    if len(s) >= 6 and isinstance(arg, list) and len(arg) not in (1, 2, 8):
                        continue
                    got = extract_trace(reader, t, arg)
                    what = 'extract_trace({}, {}) of {} samples'.format(t, arg, len(s))
                    ctx.transition()
                    ctx.equal((got.dtype, got.shape), (np.dtype(DTYPES[fmt]), (len(chosen),)), 'type and shape of ' + what)
                    for g, k in zip(got, chosen):
                        x = value_of(fmt, s[k])
                        ctx.require(g == x or (g != g and x != x), '{}: {} instead of {}', what, g, x)
                for bad in ([len(s)], [-1], range(0, len(s) + 1), [0, 99]):
                    ctx.raises(ValueError, lambda: extract_trace(reader, t, bad), 'extract_trace of samples {}'.format(bad))
            for bad in (-1, 3, 100):
                ctx.raises(ValueError, lambda: extract_trace(reader, bad, None), 'extract_trace({})'.format(bad))
            ctx.state((fmt, case['endian'], case['header'], n))
            ctx.trace()

    def do_field(self, case, ctx):
        """extract_trace_headers of every field, alone and with another, for every choice of traces."""
        name = case['field']
        field = next(f for f in ref.TRACE1_FIELDS if f[0] == name)
        values = spaces.boundary_values(field)[:6] if name != 'num_samples' else [0, 1, 2, 3]
        other = 'ensemble_num' if name != 'ensemble_num' else 'trace_num'
        for endian in '<>':
            lens = [1] * len(values) if name != 'num_samples' else values
            hdrs = {str(i): {name: v} for i, v in enumerate(values)} if name != 'num_samples' else {}
            m = spaces.build(dict(fmt=8, lens=lens, endian=endian, hdrs=hdrs))
            for kind, fmt_class in (('trace1', TraceHeaderRev1), ('trace0', TraceHeaderRev0)):
                if kind == 'trace0' and field[1] >= 181:
                    continue
                reader = create_reader(io.BytesIO(m.to_bytes()), endian=endian, trace_header_format=fmt_class, cache_directory=None)
                for fields in ([name], [getattr(fmt_class, name)], [other, name], (getattr(fmt_class, name), other)):
                    names = tuple(f if isinstance(f, str) else f.name for f in fields)
                    for traces in (None, [0], range(len(values)), list(range(len(values)))[::-1], [len(values) - 1, 0, 0], iter([0])):
                        chosen = list(range(len(values))) if traces is None else [0] if not hasattr(traces, '__len__') else list(traces)
                        got = extract_trace_headers(reader, fields, traces)
                        ctx.transition()
                        ctx.equal(got._fields, names, 'fields')
                        for f, a in zip(names, got):
                            size = {t[0]: t[2] for t in ref.TRACE1_FIELDS}[f]
                            ctx.equal((a.dtype, a.tolist()), (np.dtype({2: 'i2', 4: 'i4'}[size]), [m.traces[t][0][f] for t in chosen]),
                                      'extract_trace_headers({}, {})'.format(names, chosen))
        ctx.state(name)
        ctx.trace()

    def do_superset(self, case, ctx):
        """ensure_superset over all small ranges and sets."""
        supersets = [range(a, b, c) for a in range(3) for b in range(a + 1, 8) for c in (1, 2, 3)]
        supersets += [list(x) for r in range(1, 5) for x in itertools.combinations(range(5), r)]
        for sup in supersets:
            items = list(sup)
            for sub in [range(a, b, c) for a in range(-1, 7) for b in range(-2, 9) for c in (1, 2, 3, -1, -2)] + [
                    list(x) for r in range(4) for x in itertools.product(range(-1, 5), repeat=r)]:
                ctx.transition()
                what = 'ensure_superset({}, {})'.format(sup, sub)
                if set(sub) <= set(items):
                    ctx.equal(list(np_util.ensure_superset(sup, sub)), sorted(set(sub)), what)
                else:
                    ctx.raises(ValueError, lambda: np_util.ensure_superset(sup, sub), what)
            ctx.state(sup)
        for seg_y_type, code in (('ibm', 'f4'), ('int32', 'i4'), ('nnint32', 'i4'), ('int16', 'i2'), ('nnint16', 'i2'), ('float32', 'f4'),
                                 ('int8', 'i1'), ('nnint8', 'i1')):
            ctx.equal(dtypes.make_dtype(seg_y_type), np.dtype(code), 'make_dtype({!r})'.format(seg_y_type))
        ctx.raises(ValueError, lambda: dtypes.make_dtype('int64'), 'make_dtype of an unknown type')
        ctx.trace()


CHECK = P26()
