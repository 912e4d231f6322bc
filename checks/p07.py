import itertools
import pickle
from decimal import Decimal
from fractions import Fraction

from segpy.catalog import (CatalogBuilder, ConstantCatalog, DictionaryCatalog, LinearRegularCatalog, RegularCatalog,
                           RegularConstantCatalog)

from mc.engine import Check

BIG = (1, 2 ** 15, 2 ** 31, 2 ** 53, 2 ** 60)


def judge(ctx, items, catalog, what, others=None):
    """Compare a catalog with the dictionary of the items.

    others: keys which may be absent, to be tried where the keys are not integers."""
    expected = {}
    duplicate = False
    for k, v in items:
        if k in expected:
            duplicate = True
        expected[k] = v
    if duplicate:
        ctx.require(catalog is None, '{}: a key was added more than once but {} was created', what, catalog)
        return 'none'
    ctx.require(catalog is not None, '{}: no catalog was created although the keys are distinct', what)
    ordered = sorted(expected)
    ctx.equal(len(catalog), len(expected), what + ' len()')
    ctx.equal(list(catalog), ordered, what + ' iteration')
    ctx.equal(list(catalog.keys()), ordered, what + ' keys()')
    ctx.equal(list(catalog.values()), [expected[k] for k in ordered], what + ' values()')
    ctx.equal(list(catalog.items()), [(k, expected[k]) for k in ordered], what + ' items()')
    probes = set(others or ())
    for k in () if others else (ordered if len(ordered) < 12 else ordered[:4] + ordered[-4:] + ordered[len(ordered) // 2:][:3]):
        probes.update((k - 1, k, k + 1, k + 2, k - 2, -k, k * 2, k + 2 ** 31, k + 2 ** 53))
    if ordered and not others:
        span = ordered[-1] - ordered[0]
        step = ordered[1] - ordered[0] if len(ordered) > 1 else 1
        probes.update((ordered[0] - step, ordered[-1] + step, ordered[0] + step // 2, ordered[0] + span // 2, ordered[-1] + 10 * span))
    if not others:
        probes.add(0)
    for k in ordered if len(ordered) < 200 else ordered[:100] + ordered[-100:]:
        got = ctx.call(lambda: catalog[k], '{} [{}]'.format(what, k))
        ctx.equal(got, expected[k], '{} [{}]'.format(what, k))
        ctx.require(type(got) is int or got is expected[k], '{} [{}] is a {}', what, k, type(got))
    for k in sorted(probes):
        if k in expected:
            ctx.require(k in catalog, '{}: {} is not in the catalog', what, k)
            ctx.equal(catalog.get(k, 'absent'), expected[k], '{} get({})'.format(what, k))
        else:
            ctx.require(k not in catalog, '{}: {} is in the catalog but was not added', what, k)
            ctx.raises(KeyError, lambda: catalog[k], '{} [{}]'.format(what, k))
            ctx.equal(catalog.get(k, 'absent'), 'absent', '{} get({})'.format(what, k))
    ctx.require(catalog == expected, '{}: not equal to the dictionary {}', what, expected)
    return type(catalog).__name__


def regular(start, step, n):
    return [start + i * step for i in range(n)]


def orders(items, full):
    yield items
    yield items[::-1]
    n = len(items)
    yield items[1:] + items[:1]
    yield items[::2] + items[1::2]
    if full:
        yield items[n // 2:] + items[:n // 2]
        yield [items[i * 7 % n] for i in range(n)] if n % 7 and n else items


# Values of other types than int
POOLS = {'text': ['a', 'b', 'aa', ''], 'nothing': [None, 1, 2], 'tuples': [(1,), (2,), (1, 2), ()], 'bytes': [b'a', b'b', b''],
         'floats': [1.0, 2.0, 3.0, 0.5], 'infinite': [float('inf'), -float('inf'), 0.0], 'fractions': [Fraction(1, 2), Fraction(1), Fraction(3, 2), Fraction(5)],
         'decimals': [Decimal(1), Decimal(2), Decimal('2.5')], 'lists': [[1], [2], []], 'truths': [True, False], 'complex': [1j, 2j, 0j],
         'mixed': [1, 2.0, 'a', None], 'almost': [1, 2.0, 3], 'big': [10 ** 30, 10 ** 30 + 1, 10 ** 30 + 2]}

# Keys of other types than int
KEYS = {'text': ['a', 'b', 'ab', '', 'c', 'xyz'], 'bytes': [b'a', b'b', b'c', b''], 'floats': [0.5, 1.5, 2.5, 2.0, float('inf')],
        'whole floats': [1.0, 2.0, 3.0, 4.0, 6.0], 'fractions': [Fraction(1, 2), Fraction(3, 2), Fraction(5, 2), Fraction(9)],
        'triples': [(1, 2, 3), (2, 3, 4), (3, 4, 5), (0, 0, 0)], 'singles': [(1,), (2,), (3,)], 'decimals': [Decimal('.5'), Decimal(2), Decimal('3.5')],
        'truths': [False, True, 2, 3], 'mixed': [1, 2.0, 3, 1.0, Fraction(5, 2)]}


class P07(Check):
    id = 'P07'
    level = 'model_checking'
    technique = 'exhaustive exploration of all bounded sequences of add() and of the resulting catalogs, against a dictionary model'
    level_note = ('Complete for every sequence of up to 4 (thorough 5) items over the stated key and value domains, given in '
                  'every order; longer catalogs are regular patterns with zero, one or two irregularities.')
    rule = ('A case is a class of item sequences; each add() is a transition, states are the distinct (items, kind of '
            'catalog) reached, and every catalog is compared with the dictionary through the whole mapping protocol.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        keys = (-3, 0, 1, 2, 5, 4) if thorough else (-3, 0, 1, 2, 5)
        values = (0, 1, 2, 7, -1) if thorough else (0, 1, 2, 7)
        for n in range(0, 3):
            for ks in itertools.product(keys, repeat=n):
                yield dict(keys=list(ks), values=list(values))
        for n in (3, 4):
            for ks in itertools.product(keys, repeat=n):
                if n == 4 and not thorough and ks[0] not in (0, 5):
                    continue
                yield dict(keys=list(ks), values=list(values) if n < 4 else list(values)[:4 if thorough else 3])
        if thorough:
            for ks in itertools.permutations(keys, 5):
                yield dict(keys=list(ks), values=[0, 1, 7])
        # Regular patterns with irregularities
        for n in (2, 3, 5, 8, 33, 257, 1000) if thorough else (2, 3, 6, 17):
            for start in (0, 1, -n, 2 ** 31 - 2, -2 ** 31, 2 ** 53 - 1, 10 ** 18) if thorough else (1, -n, 2 ** 53 - 1):
                for step in (1, 2, 3, 7, 2 ** 31, 2 ** 53 + 1) if thorough else (1, 2, 7, 2 ** 53 + 1):
                    for vstep in (0, 1, -1, 2, -3, 240, 2 ** 33, 2 ** 53 + 1, -2 ** 53 - 1):
                        yield dict(n=n, start=start, step=step, vstep=vstep)
        if not thorough:
            for n in (33, 100, 257, 1000, 1025, 4097):
                for step in (1, 3) if n < 1000 else (3,):
                    for vstep in (0, 1, 240, -3):
                        yield dict(n=n, start=1 - n % 2, step=step, vstep=vstep)
            for n in (10001, 32769, 65537, 100001):
                for vstep in (0, 1, 240):
                    yield dict(n=n, start=0, step=1, vstep=vstep)
        yield dict(invalid=True)
        for pool in POOLS:
            yield dict(pool=pool)
        for pool in KEYS:
            yield dict(keypool=pool)
        for first in range(-3, 4):
            for stride in range(-2, 5):
                yield dict(direct=first, stride=stride)

    def run_pool(self, case, ctx):
        """Values of any type."""
        pool = POOLS[case['pool']]
        for n in range(1, 5 if ctx.tier == 'thorough' else 4):
            for keys in itertools.permutations((0, 1, 2, 4, 7), n):
                for values in itertools.product(pool, repeat=n):
                    items = list(zip(keys, values))
                    what = 'the catalog of {}'.format(items)
                    ctx.transition(n)
                    ctx.state((what, judge(ctx, items, ctx.call(lambda: CatalogBuilder(items).create(), what), what)))
        ctx.trace()

    def run_keypool(self, case, ctx):
        """Keys of any type which can be ordered."""
        pool = KEYS[case['keypool']]
        for n in range(1, 5):
            for keys in itertools.product(pool, repeat=n):
                for values in ([1] * n, list(range(n)), [7 - 3 * i for i in range(n)], [5, 1, 7, 7][:n], ['v', None, 2.5, ()][:n]):
                    items = list(zip(keys, values))
                    what = 'the catalog of {}'.format(items)
                    ctx.transition(n)
                    ctx.state((what, judge(ctx, items, ctx.call(lambda: CatalogBuilder(items).create(), what), what, pool)))
        ctx.trace()

    def run_direct(self, case, ctx):
        """Catalogs made from the parameters which describe them, consistent ones and others."""
        first, stride = case['direct'], case['stride']
        offset = 0 if first < 3 else 2 ** 53
        first += offset

        def made(cls, args, keys, values):
            what = '{}{}'.format(cls.__name__, args)
            ctx.transition()
            if keys is None:
                ctx.raises(ValueError, lambda: cls(*args), what)
                return
            catalog = ctx.call(lambda: cls(*args), what)
            ctx.state((what, judge(ctx, list(zip(keys, values)), catalog, what)))
            ctx.require(repr(catalog).startswith(cls.__name__), 'repr of {}: {!r}', what, catalog)
            ctx.equal(dict(pickle.loads(pickle.dumps(catalog))), dict(zip(keys, values)), what + ' pickled')
        for last in range(first - 2, first + 9):
            keys = list(range(first, last + 1, stride)) if stride > 0 and first <= last and (last - first) % stride == 0 else None
            for value in (0, -5, 3600):
                made(RegularConstantCatalog, (first, last, stride, value), keys, [value] * 10)
            for n in range(0, 10):
                for values in ([i * i - 7 for i in range(n)], [4] * n, [n - i for i in range(n)]):
                    for form in (list, tuple, iter, range):
                        if form is range:
                            values = range(-n, 0)
                        if form is iter and keys is not None and len(keys) != n:
                            ctx.raises(ValueError, lambda: RegularCatalog(first, last, stride, iter(values)), 'RegularCatalog from an iterator')
                        elif form is iter and keys is not None:
                            judge(ctx, list(zip(keys, values)), RegularCatalog(first, last, stride, iter(values)), 'RegularCatalog from an iterator')
                        else:
                            values = form(values) if form is not range else values
                            made(RegularCatalog, (first, last, stride, values), keys if keys is not None and len(keys) == n else None, values)
            for v_first, v_last, v_stride in itertools.product((0, 7, -2 ** 53), range(-9, 10), (-3, -2, -1, 0, 1, 2, 3)):
                v_last += v_first
                steps, rest = divmod(v_last - v_first, v_stride) if v_stride else (0, 1)
                good = keys is not None and len(keys) > 1 and rest == 0 and steps + 1 == len(keys)
                made(LinearRegularCatalog, (first, last, stride, v_first, v_last, v_stride), keys if good else None,
                     [v_first + i * v_stride for i in range(len(keys))] if good else None)
        if stride == 1:
            for n in range(5):
                for keys in itertools.product((first, first + 1, first - 3, 2 ** 60), repeat=n):
                    distinct = sorted(set(keys))
                    made(ConstantCatalog, (keys, 8), distinct, [8] * n)
                    items = dict((k, i) for i, k in enumerate(keys))
                    catalog = DictionaryCatalog(items if n % 2 else list(items.items()))
                    ctx.equal((dict(catalog), list(catalog), len(catalog)), (items, list(items), len(items)), 'DictionaryCatalog of {}'.format(items))
                    ctx.require(all(k in catalog for k in items) and first + 2 not in catalog, 'keys of DictionaryCatalog of {}', items)
                    ctx.transition()
        ctx.trace()
        ctx.sample(case)

    def run(self, case, ctx):
        if 'direct' in case:
            return self.run_direct(case, ctx)
        if 'keypool' in case:
            return self.run_keypool(case, ctx)
        if 'pool' in case:
            return self.run_pool(case, ctx)
        if 'invalid' in case:
            return self.run_invalid(ctx)
        if 'keys' in case:
            return self.run_short(case, ctx)
        n, start, step, vstep = case['n'], case['start'], case['step'], case['vstep']
        keys = regular(start, step, n)
        for vstart in (0, 3600, -5, 2 ** 53 - 1) if ctx.tier == 'thorough' else (0, -5) if n < 10000 else (3600,):
            vals = regular(vstart, vstep, n)
            variants = [(keys, vals)]
            for at in sorted({0, 1, n // 2, n - 2, n - 1} if n < 100 else {1, n // 2, n - 1} if n < 10000 else {n - 2}):
                if not 0 <= at < n:
                    continue
                for d in (1, -1, vstep or 5):
                    v = list(vals)
                    v[at] += d
                    variants.append((keys, v))
                k = list(keys)
                del k[at]
                variants.append((k, vals[:at] + vals[at + 1:]))
                variants.append((k, vals[:n - 1]))
                k = list(keys)
                k[at] += 1
                if step > 1 or at == n - 1:
                    variants.append((k, vals))
                variants.append((keys + [keys[at]], vals + [vals[-1] + vstep]))
            if n > 3:
                # Compensating irregularities: sums, ends and lengths as in the regular pattern
                v = list(vals)
                v[1], v[2] = v[2], v[1]
                variants.append((keys, v))
                v = list(vals)
                v[1] += 1
                v[2] -= 1
                variants.append((keys, v))
            for vi, (ks, vs) in enumerate(variants):
                items = list(zip(ks, vs))
                for items in orders(items, vi == 0) if n < 10 and (vi < 3 or ctx.tier == 'thorough') else [items]:
                    b = CatalogBuilder()
                    for k, v in items:
                        b.add(k, v)
                    ctx.transition(len(items))
                    kind = judge(ctx, items, b.create(), 'catalog of {}'.format(items[:12]))
                    ctx.state((tuple(items), kind))
                    ctx.count(kind)
                    ctx.trace()
        ctx.sample(case)

    def run_short(self, case, ctx):
        ks = case['keys']
        for vs in itertools.product(case['values'], repeat=len(ks)):
            items = list(zip(ks, vs))
            what = 'catalog of {}'.format(items)
            b = CatalogBuilder()
            for k, v in items:
                b.add(k, v)
            ctx.transition(len(items))
            kind = judge(ctx, items, b.create(), what)
            judge(ctx, items, b.create(), what + ', created again')
            judge(ctx, items, CatalogBuilder(iter(items)).create(), what + ' from an iterator')
            if len(set(ks)) == len(ks):
                judge(ctx, items, CatalogBuilder(dict(items)).create(), what + ' from a dictionary')
            # A catalog that has been created is not changed by what is added afterwards
            early = CatalogBuilder()
            cut = len(items) // 2
            for k, v in items[:cut]:
                early.add(k, v)
            first = early.create()
            for k, v in items[cut:]:
                early.add(k, v)
            judge(ctx, items, early.create(), what + ', created midway as well')
            judge(ctx, items[:cut], first, what + ', the one created midway')
            ctx.state((tuple(items), kind))
            ctx.count(kind)
            ctx.trace()

    def run_invalid(self, ctx):
        for bad in (5, 1.5, object()):
            ctx.raises(TypeError, lambda: CatalogBuilder(bad), 'CatalogBuilder({!r})'.format(bad))
        for bad in ([(1,)], [(1, 2), (1, 2, 3)], [()], ['abc'], [(1, 2, 3)]):
            ctx.raises(ValueError, lambda: CatalogBuilder(bad), 'CatalogBuilder({!r})'.format(bad))
            ctx.raises(ValueError, lambda: CatalogBuilder(iter(bad)), 'CatalogBuilder(iter({!r}))'.format(bad))
        ctx.equal(dict(CatalogBuilder().create()), {}, 'empty catalog')
        ctx.equal(dict(CatalogBuilder({}).create()), {}, 'empty catalog from a dictionary')
        ctx.equal(dict(CatalogBuilder([]).create()), {}, 'empty catalog from a list')
        ctx.trace()


CHECK = P07()
