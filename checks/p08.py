import itertools
import pickle

from segpy.catalog import (CatalogBuilder, DictionaryCatalog2D, FirstIndexVariesQuickestCatalog2D,
                           LastIndexVariesQuickestCatalog2D)
from segpy.sorted_frozen_set import SortedFrozenSet

from mc.engine import Check

from checks.p07 import POOLS

PATTERNS = ('row', 'column', 'row-reversed', 'column-reversed', 'row*3+5', 'column*-2', 'constant', 'swap-first', 'swap-last',
            'gap', 'duplicate', 'boustrophedon', 'row-major of the whole grid', 'huge', 'irregular-increasing')


def values_for(pattern, keys, ni, nj, rank):
    """A value for each key; keys are in row-major order, rank gives the (row, column) of each key in the grid."""
    n = len(keys)
    by_row = list(range(n))
    order = sorted(range(n), key=lambda x: (rank[x][1], rank[x][0]))
    by_col = [0] * n
    for v, x in enumerate(order):
        by_col[x] = v
    v = {'row': by_row, 'column': by_col, 'row-reversed': [n - 1 - x for x in by_row],
         'column-reversed': [n - 1 - x for x in by_col], 'row*3+5': [3 * x + 5 for x in by_row],
         'column*-2': [-2 * x for x in by_col], 'constant': [4] * n,
         'duplicate': by_row[:-1] + by_row[-2:-1] if n > 1 else by_row,
         'gap': [x + (x >= n // 2) for x in by_row], 'huge': [x * (2 ** 53 + 1) - 2 ** 60 for x in by_col],
         'irregular-increasing': [x * x for x in by_row],
         'row-major of the whole grid': [r * nj + c for r, c in rank],
         'boustrophedon': [r * nj + (c if r % 2 == 0 else nj - 1 - c) for r, c in rank]}.get(pattern)
    if v is None:
        v = list(by_row)
        if n > 1:
            a, b = (0, 1) if pattern == 'swap-first' else (n - 2, n - 1)
            v[a], v[b] = v[b], v[a]
    return v


RANGES = [range(0), range(1, 2), range(1, 4), range(-4, 6, 4), range(2, -1, -1), (5,), [2, 3, 7], (1, 1), [3, 1], (0, 2 ** 40),
          SortedFrozenSet((9, 1, 4))]


def judge(ctx, items, catalog, what, probe_extra=(), whole=True):
    """whole: the lines of the catalog are those of the items, and no others."""
    expected = {}
    duplicate = False
    for k, v in items:
        k = tuple(k)
        duplicate = duplicate or k in expected
        expected[k] = v
    if duplicate:
        ctx.require(catalog is None, '{}: a pair was added more than once but {} was created', what, catalog)
        return 'none'
    ctx.require(catalog is not None, '{}: no catalog was created although the pairs are distinct', what)
    ctx.equal(len(catalog), len(expected), what + ' len()')
    ctx.equal(sorted(catalog), sorted(expected), what + ' keys')
    ctx.equal(dict(catalog.items()), expected, what + ' items()')
    ctx.equal(list(catalog.values()), [expected[k] for k in catalog], what + ' values()')
    i_s = sorted({i for i, j in expected})
    j_s = sorted({j for i, j in expected})
    for k in itertools.product(sorted(set(i_s + [x + 1 for x in i_s] + [x - 1 for x in i_s])),
                               sorted(set(j_s + [x + 1 for x in j_s] + [x - 1 for x in j_s]))):
        if k in expected:
            ctx.require(k in catalog, '{}: {} is not in the catalog', what, k)
            got = ctx.call(lambda: catalog[k], '{} [{}]'.format(what, k))
            ctx.equal(got, expected[k], '{} [{}]'.format(what, k))
        else:
            ctx.require(k not in catalog, '{}: {} is in the catalog but was not added', what, k)
            ctx.raises(KeyError, lambda: catalog[k], '{} [{}]'.format(what, k))
            ctx.equal(catalog.get(k), None, '{} get({})'.format(what, k))
    if expected and whole:
        ctx.equal(list(catalog.i_range), i_s, what + ' i_range')
        ctx.equal(list(catalog.j_range), j_s, what + ' j_range')
        ctx.equal((catalog.i_min, catalog.i_max, catalog.j_min, catalog.j_max), (i_s[0], i_s[-1], j_s[0], j_s[-1]),
                  what + ' i_min, i_max, j_min, j_max')
        ctx.equal((catalog.key_min(), catalog.key_max()), ((i_s[0], j_s[0]), (i_s[-1], j_s[-1])), what + ' key_min/max')
        for f, k in (('value_first', (i_s[0], j_s[0])), ('value_last', (i_s[-1], j_s[-1]))):
            if k in expected:
                ctx.equal(getattr(catalog, f)(), expected[k], what + ' ' + f)
    if hasattr(catalog, 'key'):
        inverse = {}
        for k, v in expected.items():
            inverse.setdefault(v, set()).add(k)
        for v, ks in inverse.items():
            got = ctx.call(lambda: catalog.key(v), '{} key({})'.format(what, v))
            ctx.require(got in ks, '{} key({}) is {}, not one of {}', what, v, got, ks)
        vs = sorted(inverse)
        for v in {x + d for x in (vs[0], vs[-1], vs[len(vs) // 2]) for d in (-1, 1, -2, 2)} | {10 ** 9, -10 ** 9}:
            if v not in inverse:
                ctx.raises(ValueError, lambda: catalog.key(v), '{} key({})'.format(what, v))
    ctx.require(catalog == expected, '{}: not equal to the dictionary', what)
    return type(catalog).__name__


def axes(n, spacing):
    return {'unit': list(range(n)), 'step': [10 + 4 * x for x in range(n)], 'negative': [x - n for x in range(n)],
            'irregular': [x * x + 1 for x in range(n)], 'extreme': [-2 ** 31 + x * (2 ** 32 // max(1, n)) for x in range(n)],
            'adjacent': [5 + x + (x > 1) for x in range(n)]}[spacing]


def insertions(n, tier):
    yield list(range(n))
    yield list(range(n))[::-1]
    if n > 2:
        yield list(range(1, n)) + [0]
        yield list(range(0, n, 2)) + list(range(1, n, 2))


class P08(Check):
    id = 'P08'
    level = 'model_checking'
    technique = 'exhaustive exploration of all subsets of a grid, value patterns and insertion orders, against a dictionary model'
    level_note = ('Complete for all subsets of a 3x3 (thorough 4x3) grid under the listed spacings and 15 value patterns; every '
                  'assignment of values to a 2x2 grid, every order of distinct values on grids of up to 6; larger grids full or with one hole.')
    rule = ('A case is a grid, a spacing and a subset or value assignment; each add() is a transition; states are distinct '
            '(items, kind of catalog).')

    def cases(self, tier):
        thorough = tier == 'thorough'
        spacings = ('unit', 'step', 'irregular', 'extreme', 'negative', 'adjacent')
        ni, nj = (4, 3) if thorough else (3, 3)
        for mask in range(1 << (ni * nj)):
            for si, sj in [('unit', 'unit'), ('step', 'negative'), ('irregular', 'unit'), ('step', 'adjacent')]:
                yield dict(ni=ni, nj=nj, mask=mask, si=si, sj=sj)
        for ni in range(1, 6):
            for nj in range(1, 6):
                full = (1 << (ni * nj)) - 1
                for si, sj in itertools.product(spacings, repeat=2):
                    yield dict(ni=ni, nj=nj, mask=full, si=si, sj=sj)
                    if thorough or si == sj or (ni + nj) % 3 == 0:
                        for hole in range(ni * nj):
                            if thorough or hole in (0, ni * nj - 1, ni * nj // 2, nj - 1):
                                yield dict(ni=ni, nj=nj, mask=full & ~(1 << hole), si=si, sj=sj)
        # every assignment of small values to small full grids
        for ni, nj, top in ((2, 2, 5), (1, 4, 5), (4, 1, 5), (2, 3, 3)) + (((3, 2, 4), (2, 3, 4)) if thorough else ()):
            for head in itertools.product(range(top), repeat=2):
                yield dict(ni=ni, nj=nj, head=list(head), top=top)
        # every order of distinct values
        for ni, nj in ((2, 2), (1, 5), (5, 1), (2, 3), (3, 2)):
            for first in range(ni * nj):
                yield dict(ni=ni, nj=nj, first=first)
        # duplicates, in every pair of positions
        for ni, nj in ((2, 2), (1, 3), (3, 1), (3, 3)):
            for dup in range(ni * nj):
                for at in range(ni * nj + 1):
                    yield dict(ni=ni, nj=nj, dup=dup, at=at)
        for ni, nj in ((40, 30), (1, 300), (300, 1)) + (((150, 100),) if thorough else ()):
            yield dict(ni=ni, nj=nj, mask=(1 << (ni * nj)) - 1, si='step', sj='unit')
            yield dict(ni=ni, nj=nj, mask=((1 << (ni * nj)) - 1) & ~(1 << (ni * nj // 2)), si='step', sj='unit')
        for pool in POOLS:
            yield dict(pool=pool)
        for i in range(len(RANGES)):
            for j in range(len(RANGES)):
                yield dict(direct=[i, j])

    def run_pool(self, case, ctx):
        """Values of any type."""
        pool = POOLS[case['pool']]
        grid = list(itertools.product((1, 2), (3, 5)))
        for n in range(1, 5):
            for keys in itertools.permutations(grid, n):
                if n == 4 and ctx.tier != 'thorough' and keys not in (tuple(grid), tuple(grid[::-1]), tuple(grid[::2] + grid[1::2])):
                    continue
                for values in itertools.product(pool, repeat=n):
                    items = list(zip(keys, values))
                    what = 'the catalog of {}'.format(items)
                    ctx.transition(n)
                    ctx.state((what, judge(ctx, items, ctx.call(lambda: CatalogBuilder(items).create(), what), what)))
        ctx.trace()

    def run_direct(self, case, ctx):
        """Catalogs made from the ranges which describe them, consistent ones and others."""
        i_range, j_range = (RANGES[x] for x in case['direct'])
        ascending = all(list(r) == sorted(set(r)) for r in (i_range, j_range))
        n = len(i_range) * len(j_range)

        def made(cls, args, items, what=None):
            what = what or '{}{}'.format(cls.__name__, args)
            ctx.transition()
            if isinstance(items, type):
                ctx.raises(items, lambda: cls(*args), what)
                return
            catalog = ctx.call(lambda: cls(*args), what)
            if items:
                ctx.state((what, judge(ctx, items, catalog, what, whole=False)))
            else:
                ctx.equal((len(catalog), list(catalog), (1, 1) in catalog), (0, [], False), what)
            ctx.equal((list(catalog.i_range), list(catalog.j_range)), (list(i_range), list(j_range)), 'ranges of ' + what)
            ctx.require(repr(catalog).startswith(cls.__name__), 'repr of {}: {!r}', what, catalog)
            ctx.equal(list(pickle.loads(pickle.dumps(catalog)).items()), list(catalog.items()), what + ' pickled')
            if hasattr(catalog, 'v_range'):
                ctx.equal(list(catalog.v_range), list(args[2]), 'v_range of ' + what)
                ctx.equal(list(catalog.items()), items, 'items of ' + what)
        by_row = list(itertools.product(i_range, j_range))
        by_column = [(i, j) for j in j_range for i in i_range]
        for m in sorted({max(0, n + d) for d in (-2, -1, 0, 1, 2)} | {0, 1, len(i_range), len(j_range)}):
            for vs in (range(m), range(5, 5 - 3 * m, -3), range(-7, -7 + 2 * m, 2), tuple(x * x for x in range(m)), list(range(m))[::-1]):
                for cls, keys in ((LastIndexVariesQuickestCatalog2D, by_row), (FirstIndexVariesQuickestCatalog2D, by_column)):
                    made(cls, (i_range, j_range, vs), list(zip(keys, vs)) if m == n and ascending else ValueError)
        for mask in range(1 << min(n, 4)):
            keys = [k for x, k in enumerate(by_row) if mask >> (x % 4) & 1]
            items = [(k, 7 - 2 * x) for x, k in enumerate(keys)]
            for outside in (None, (99, 3), (3, 99)):
                if outside is not None:
                    i, j = outside
                    key = (i if i == 99 else by_row[0][0] if by_row else 0, j if j == 99 else by_row[0][1] if by_row else 0)
                    given = items + [(key, 1)]
                else:
                    given = items
                for form in (list, dict, iter, tuple):
                    made(DictionaryCatalog2D, (i_range, j_range, form(given)), items if ascending and outside is None else ValueError,
                         'DictionaryCatalog2D({}, {}, {} of {})'.format(i_range, j_range, form.__name__, given))
        if ascending:
            for bad in (None, 5, 1.5):
                made(DictionaryCatalog2D, (i_range, j_range, bad), TypeError)
        ctx.trace()

    def build(self, ctx, items, what, order):
        b = CatalogBuilder()
        for x in order:
            b.add(*items[x])
        ctx.transition(len(items))
        kind = judge(ctx, items, b.create(), what)
        ctx.state((tuple(items), kind))
        ctx.count(kind)
        ctx.trace()
        return b

    def run(self, case, ctx):
        if 'direct' in case:
            return self.run_direct(case, ctx)
        if 'pool' in case:
            return self.run_pool(case, ctx)
        ni, nj = case['ni'], case['nj']
        ctx.sample(case)
        if 'head' in case:
            keys = list(itertools.product(range(1, ni + 1), range(1, nj + 1)))
            for tail in itertools.product(range(case['top']), repeat=ni * nj - 2):
                items = list(zip(keys, tuple(case['head']) + tail))
                self.build(ctx, items, 'catalog of {}'.format(items), range(len(items)))
            return
        if 'first' in case:
            keys = list(itertools.product((1, 2, 3, 4, 5)[:ni], (10, 12, 14, 16, 18)[:nj]))
            rest = [x for x in range(ni * nj) if x != case['first']]
            for tail in itertools.permutations(rest):
                for scale, shift in ((1, 0), (3, 5), (-2, 7)):
                    items = [(k, scale * v + shift) for k, v in zip(keys, (case['first'],) + tail)]
                    self.build(ctx, items, 'catalog of {}'.format(items), range(len(items)))
            return
        if 'dup' in case:
            keys = list(itertools.product(range(1, ni + 1), range(1, nj + 1)))
            items = [(k, v) for v, k in enumerate(keys)]
            for v in (case['dup'], 99):
                with_dup = items[:case['at']] + [(keys[case['dup']], v)] + items[case['at']:]
                for order in insertions(len(with_dup), ctx.tier):
                    self.build(ctx, with_dup, 'catalog of {}'.format(with_dup), order)
            return
        i_axis, j_axis = axes(ni, case['si']), axes(nj, case['sj'])
        rank = [(r, c) for r in range(ni) for c in range(nj) if case['mask'] >> (r * nj + c) & 1]
        keys = [(i_axis[r], j_axis[c]) for r, c in rank]
        for pattern in PATTERNS:
            items = list(zip(keys, values_for(pattern, keys, ni, nj, rank)))
            what = 'catalog of {} in {} order'.format(items[:16], pattern)
            for order in insertions(len(items), ctx.tier) if len(items) < 100 else [range(len(items))]:
                b = self.build(ctx, items, what, order)
                if ctx.tier != 'thorough' and pattern not in ('row', 'column', 'huge'):
                    break
            if pattern == 'column':
                judge(ctx, items, b.create(), what + ', created again')
                judge(ctx, items, CatalogBuilder(dict(items)).create(), what + ' from a dictionary')


CHECK = P08()
