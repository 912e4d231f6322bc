import itertools

from segpy.reader import SegYReader, SegYReader2D, SegYReader3D

from mc.engine import Check
from mc import ref, spaces, sut


class P09(Check):
    id = 'P09'
    level = 'model_checking'
    technique = 'exhaustive exploration of all assignments of line and CDP numbers to traces, real reader against a reference index'
    level_note = ('Complete for up to 3 traces over 2 (3 for up to 2 traces) values of each number and every requested '
                  'dimensionality; 4 traces (thorough 5) with orbits of equal patterns; regular and irregular grids to 5x5.')
    rule = ('A case is a geometry: the inline, crossline and CDP number of each trace. It is opened under every requested '
            'dimensionality (transitions) and the whole index compared; states are distinct (geometry, request, view).')

    def cases(self, tier):
        thorough = tier == 'thorough'
        # every assignment
        for n, dom in ((0, 2), (1, 3), (2, 3), (3, 2)):
            triples = list(itertools.product(range(dom), repeat=3))
            for g in itertools.product(triples, repeat=n):
                yield dict(geometry=[list(t) for t in g])
        # every assignment of pairs with distinct, repeated or partly repeated CDPs
        for n in (4, 5) if thorough else (4,):
            pairs = list(itertools.product((3, 5), (10, 11, 13) if thorough and n == 4 else (10, 11)))
            for g in itertools.product(pairs, repeat=n):
                for cdps in ([7, 8, 9, 10, 11], [9, 8, 7, 3, 1], [4, 4, 5, 6, 7], [1, 1, 1, 1, 1]):
                    yield dict(geometry=[[i, j, c] for (i, j), c in zip(g, cdps)])
        # permutations of CDPs
        for perm in itertools.permutations((0, 1, 2, 7) if not thorough else (-5, 0, 1, 2, 7)):
            yield dict(geometry=[[1, 1, c] for c in perm])
        # grids in several file orders
        for ni, nj in itertools.product(range(1, 6), repeat=2):
            for (i0, istep), (j0, jstep) in itertools.product(((1, 1), (100, 3), (-7, 2)), ((1, 1), (20, 5), (-2 ** 31, 2 ** 30 - 1))):
                for order in ('row', 'column', 'row-reversed', 'column-reversed', 'serpentine', 'shuffled'):
                    for hole in (None, 0, ni * nj // 2, ni * nj - 1) if thorough or order in ('row', 'column') else (None,):
                        yield dict(grid=[ni, nj, i0, istep, j0, jstep], order=order, hole=hole)
        # extremes
        ext = (-2 ** 31, -1, 0, 2 ** 31 - 1)
        for a, b in itertools.product(ext, repeat=2):
            for c, d in itertools.product(ext, repeat=2):
                yield dict(geometry=[[a, b, c], [b, a, d]])
                if thorough:
                    yield dict(geometry=[[a, b, c], [c, d, a], [b, d, d]])
        for n in (30, 257) + ((3000,) if thorough else ()):
            yield dict(geometry=[[i // 10, i % 10, i * 2] for i in range(n)])
            yield dict(geometry=[[i // 10, i % 10, i * 2] for i in range(n)] + [[0, 0, 1]])
            yield dict(geometry=[[0, 0, n - i] for i in range(n)])
            yield dict(geometry=[[0, 0, n - i] for i in range(n)] + [[0, 0, 1]])
        # Large surveys, regular but for one place
        for ni, nj in ((11, 100), (33, 32), (2, 1025), (41, 100)) + (((101, 100), (331, 200)) if thorough else ()):
            for order in ('row', 'column'):
                for flaw in ('none', 'swap-middle', 'swap-last', 'hole-middle', 'hole-last', 'twice-last', 'twice-middle', 'moved-last'):
                    yield dict(survey=[ni, nj], order=order, flaw=flaw)

    def geometry(self, case):
        if 'geometry' in case:
            return case['geometry']
        if 'survey' in case:
            ni, nj = case['survey']
            cells = [[10 + 2 * r, 100 + c] for r in range(ni) for c in range(nj)]
            if case['order'] == 'column':
                cells.sort(key=lambda x: x[::-1])
            n = len(cells)
            at = n - 1 if case['flaw'].endswith('last') else n // 2 + 3
            flaw = case['flaw'].split('-')[0]
            if flaw == 'swap':
                cells[at], cells[at - 1] = cells[at - 1], cells[at]
            elif flaw == 'hole':
                del cells[at]
            elif flaw == 'twice':
                cells[at] = cells[at - 1]
            elif flaw == 'moved':
                cells[at] = [cells[at][0] + 1, cells[at][1] + 1]
            # The CDPs are flawed likewise
            return [[i, j, i * nj + j] for i, j in cells]
        ni, nj, i0, istep, j0, jstep = case['grid']
        cells = [(r, c) for r in range(ni) for c in range(nj)]
        order = case['order']
        if order.startswith('column'):
            cells.sort(key=lambda x: (x[1], x[0]))
        if order.endswith('reversed'):
            cells.reverse()
        if order == 'serpentine':
            cells = [(r, c if r % 2 == 0 else nj - 1 - c) for r, c in cells]
        if order == 'shuffled':
            n = len(cells)
            step = next(s for s in (7, 11, 13) if n % s)
            cells = [cells[k * step % n] for k in range(n)]
        if case['hole'] is not None:
            del cells[case['hole']]
        return [[i0 + istep * r, j0 + jstep * c, 1000 - 3 * k] for k, (r, c) in enumerate(cells)]

    def run(self, case, ctx):
        geometry = self.geometry(case)
        k = sum(abs(x) for t in geometry for x in t)
        kinds = ('trace1', 'trace0') if len(geometry) < 4 or k % 4 == 0 else ('trace1',)
        for kind in kinds:
            endian = '><'[k % 2]
            spec = dict(fmt=8, endian=endian, kind=kind, geometry=geometry, lens=[k % 2] * len(geometry))
            model = spaces.build(spec)
            data = model.to_bytes()
            if kind == 'trace0':
                # Whatever lies in bytes which are unassigned in this format must not give a geometry
                model_file = model.to_bytes(fill=None)
                data = bytearray(model_file)
                for t, pos in enumerate(model.offsets()[0]):
                    data[pos + 188:pos + 196] = t.to_bytes(4, 'big') * 2
                data = bytes(data)
            for want in (None, 1, 2, 3):
                ctx.transition()
                what = '{} traces with (inline, xline, cdp) {} opened as {} {}'.format(len(geometry), geometry[:9], want, kind)
                reader = ctx.call(lambda: sut.open_reader(data, endian=endian, encoding='ascii', dimensionality=want,
                                                          trace_header_format=sut.TRACE_FORMATS[kind]), what)
                natural, index = ref.survey(model.traces, kind == 'trace1')
                dim = want or natural
                expected_type = {1: SegYReader, 2: SegYReader2D, 3: SegYReader3D}[dim]
                ctx.require(type(reader) is expected_type, '{}: expected a {}, got {}', what, expected_type.__name__,
                            type(reader).__name__)
                got = sut.observe_index(reader)
                got['dimensionality'] = reader.dimensionality
                expected = sut.expected_view(model, want)
                expected = {key: v for key, v in expected.items() if key in (
                    'lines', 'num_lines_listed', 'inlines', 'xlines', 'counts', 'cdps', 'num_cdps', 'dimensionality')}
                problem = sut.diff(got, expected)
                ctx.require(problem is None, '{}: {}', what, problem)
                if 'cdps' in got:
                    ctx.equal(list(reader.cdp_numbers()), sorted(expected['cdps']), what + ' cdp_numbers()')
                self.probe(ctx, reader, expected, what)
                ctx.state((tuple(map(tuple, geometry)), kind, want, repr(got)))
        ctx.trace()
        ctx.sample(case)

    def probe(self, ctx, reader, expected, what):
        if 'lines' in expected:
            index = expected['lines']
            i_s, j_s = expected['inlines'], expected['xlines']
            near_i = sorted({x + d for x in (i_s[:6] + i_s[-1:] or [0]) for d in (-1, 0, 1)})
            near_j = sorted({x + d for x in (j_s[:6] + j_s[-1:] or [0]) for d in (-1, 0, 1)})
            keys = itertools.product(near_i, near_j)
            for x in near_i:
                ctx.equal(x in reader.inline_numbers(), x in i_s, '{}: {} in inline_numbers()'.format(what, x))
            for x in near_j:
                ctx.equal(x in reader.xline_numbers(), x in j_s, '{}: {} in xline_numbers()'.format(what, x))
        elif 'cdps' in expected:
            index = expected['cdps']
            some = list(index)[:12] or [0]
            keys = sorted({x + d for x in some for d in (-2, -1, 0, 1, 2)})
            for x in keys:
                ctx.equal(x in reader.cdp_numbers(), x in index, '{}: {} in cdp_numbers()'.format(what, x))
        else:
            ctx.require(not hasattr(reader, 'trace_index'), '{}: a basic reader has a trace index', what)
            return
        for key in keys:
            ctx.equal(bool(reader.has_trace_index(key)), key in index, '{}: has_trace_index({})'.format(what, key))
            if key in index:
                ctx.equal(reader.trace_index(key), index[key], '{}: trace_index({})'.format(what, key))
            else:
                ctx.raises(KeyError, lambda: reader.trace_index(key), '{}: trace_index({})'.format(what, key))


CHECK = P09()
