import io
import itertools
import os
from fractions import Fraction

from segpy import util
from segpy.reversed_sequence_view import ReversedSequenceView
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy.util import SortSense

from mc.engine import Check, outcome

ASC, DESC = SortSense.ascending, SortSense.descending


def same_ends(a, b):
    return (a.start, a.stop)


class P25(Check):
    id = 'P25'
    technique = 'exhaustive enumeration of all small arguments, against plain specifications'
    level_note = ('All sequences of up to five items from five values (thorough six), as list, tuple and iterator; all ranges with bounds in '
                  '-6..6 and steps in -4..4; all families of up to three disjoint intervals in 0..6 (thorough four in 0..8).')
    rule = ('A state is a distinct argument; a transition is one call. The result must be what the plain specification of the '
            'function, written with sorted lists and sets, gives.')

    def cases(self, tier):
        n = 6 if tier == 'thorough' else 5
        for length in range(n + 1):
            for first in range(5 if length else 1):
                for second in range(5 if length > 1 else 1):
                    yield dict(kind='items', length=length, head=[first, second][:length])
        w = 9 if tier == 'thorough' else 6
        for a in range(-w, w + 1):
            yield dict(kind='ranges', start=a, width=w)
        for n in range(1, 5 if tier == 'thorough' else 4):
            yield dict(kind='intervals', n=n, top=8 if tier == 'thorough' else 6)
        yield dict(kind='overlap')
        yield dict(kind='contiguous')
        for n in range(4):
            yield dict(kind='roundrobin', n=n)
        yield dict(kind='scalars')
        yield dict(kind='kinds')
        yield dict(kind='files')

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    # -- sequences ----------------------------------------------------------------------------------
    def do_items(self, case, ctx):
        pool = [-2, 0, 1, 3, 5]
        head = [pool[i] for i in case['head']]
        for rest in itertools.product(pool, repeat=case['length'] - len(head)):
            self.judge_items(ctx, head + list(rest))
            ctx.trace()

    def judge_items(self, ctx, items):
        ctx.state(tuple(items))
        n = len(items)
        asc = sorted(set(items))
        descending = all(a > b for a, b in zip(items, items[1:])) and n > 0
        wanted = {None: asc[::-1] if descending else asc, ASC: asc, DESC: asc[::-1]}
        for sense, want in wanted.items():
            for make in (list, tuple, iter):
                s = util.make_sorted_distinct_sequence(make(items), sense)
                what = 'make_sorted_distinct_sequence({}({}), {})'.format(make.__name__, items, sense)
                ctx.transition()
                ctx.equal(list(s), want, what)
                ctx.equal((len(s), [s[i] for i in range(-len(want), len(want))], [x in s for x in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 6)]),
                          (len(want), want + want, [x in want for x in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 6)]), what + ' as a sequence')
            s = util.make_sorted_distinct_sequence(items)
            ctx.equal(list(s), asc, 'make_sorted_distinct_sequence({})'.format(items))
        for seq in (asc, asc[::-1], SortedFrozenSet(items), ReversedSequenceView(asc)):
            ctx.equal(list(util.compress_sorted_sequence_to_range(seq)), list(seq), 'compress_sorted_sequence_to_range({})'.format(seq))
        pairs = list(zip(items, items[1:]))
        for make in (list, iter):
            new = lambda: make(items)
            ctx.transition(18)
            ctx.equal(list(util.pairwise(new())), pairs, 'pairwise({})'.format(items))
            ctx.equal(util.is_sorted(new()), all(a <= b for a, b in pairs), 'is_sorted({})'.format(items))
            ctx.equal(util.is_sorted(new(), reverse=True), all(a >= b for a, b in pairs), 'is_sorted({}, reverse)'.format(items))
            ctx.equal(util.is_sorted(new(), distinct=True), all(a < b for a, b in pairs), 'is_sorted({}, distinct)'.format(items))
            ctx.equal(util.is_sorted(new(), reverse=True, distinct=True), all(a > b for a, b in pairs), 'is_sorted({}, both)'.format(items))
            for reverse, distinct in itertools.product((False, True), repeat=2):
                op = {(False, False): lambda a, b: a <= b, (False, True): lambda a, b: a < b,
                      (True, False): lambda a, b: a >= b, (True, True): lambda a, b: a > b}[reverse, distinct]
                key = lambda x: (x - 1) ** 2
                ctx.equal(util.is_sorted(new(), key=key, reverse=reverse, distinct=distinct), all(op(key(a), key(b)) for a, b in pairs),
                          'is_sorted({}, key, {}, {})'.format(items, reverse, distinct))
            strides = {b - a for a, b in pairs}
            ctx.equal(util.measure_stride(new()), strides.pop() if len(strides) == 1 else None, 'measure_stride({})'.format(items))
            ctx.equal(util.all_equal(new()), len(set(items)) <= 1, 'all_equal({})'.format(items))
            if items:
                ctx.equal(util.minmax(new()), (min(items), max(items)), 'minmax({})'.format(items))
                ctx.equal(util.first(new()), items[0], 'first({})'.format(items))
                ctx.equal(util.last(new()), items[-1], 'last({})'.format(items))
            else:
                for fn in (util.minmax, util.first, util.last):
                    ctx.raises(ValueError, lambda: fn(new()), fn.__name__ + '([])')
            for size in range(-1, n + 3):
                if size < 1:
                    ctx.raises(ValueError, lambda: util.batched(new(), size), 'batched({}, {})'.format(items, size))
                else:
                    chunks = [items[i:i + size] for i in range(0, n, size)]
                    ctx.equal([list(b) for b in util.batched(new(), size)], chunks, 'batched({}, {})'.format(items, size))
                    for padding in (None, 0, 'x'):
                        full = [c + [padding] * (size - len(c)) for c in chunks]
                        ctx.equal([list(b) for b in util.batched(new(), size, padding)], full, 'batched({}, {}, {!r})'.format(items, size, padding))
                if size >= 0:
                    ctx.equal(list(itertools.islice(util.pad(new(), 'p', size), size + n + 9)), (items + ['p'] * size)[:size], 'pad({}, size={})'.format(items, size))
                    ctx.equal(list(itertools.islice(util.pad(new(), 'p'), n + 2)), items + ['p', 'p'], 'pad({})'.format(items))
                    ctx.equal(list(itertools.islice(util.pad(new()), n + 2)), items + [None, None], 'pad({})'.format(items))
        for s in (sorted(items), sorted(items, reverse=True)):
            for make in (list, iter):
                ctx.equal(util.contains_duplicates(make(s)), len(set(s)) < len(s), 'contains_duplicates({})'.format(s))
        for kind in (SortedFrozenSet(items), frozenset(items)):
            order = list(kind)
            if order:
                ctx.equal((util.first(kind), util.last(kind), util.minmax(kind)), (order[0], order[-1], (min(items), max(items))), 'ends of {}'.format(kind))
        s = SortedFrozenSet(items)
        for reverse, distinct in itertools.product((False, True), repeat=2):
            ctx.equal(util.is_sorted(s, reverse=reverse, distinct=distinct), len(s) <= 1 or not reverse, 'is_sorted({}, {}, {})'.format(s, reverse, distinct))

    def do_ranges(self, case, ctx):
        w = case['width']
        for stop in range(-w, w + 1):
            for step in (-4, -3, -2, -1, 1, 2, 3, 4):
                r = range(case['start'], stop, step)
                items = list(r)
                ctx.state(r)
                ctx.transition(12)
                ctx.equal(list(util.reversed_range(r)), items[::-1], 'reversed_range({})'.format(r))
                ctx.require(isinstance(util.reversed_range(r), range), 'reversed_range({}) is not a range', r)
                ctx.equal(list(util.make_sorted_distinct_sequence(r)), sorted(items), 'make_sorted_distinct_sequence({})'.format(r))
                ctx.equal(list(util.make_sorted_distinct_sequence(r, ASC)), sorted(items), 'make_sorted_distinct_sequence({}, ascending)'.format(r))
                ctx.equal(list(util.make_sorted_distinct_sequence(r, DESC)), sorted(items)[::-1], 'make_sorted_distinct_sequence({}, descending)'.format(r))
                ctx.equal(list(util.make_sorted_distinct_sequence(r, None)), items, 'make_sorted_distinct_sequence({}, None)'.format(r))
                for bad in (0, 'ascending', True):
                    ctx.raises(TypeError, lambda: util.make_sorted_distinct_sequence(r, bad), 'make_sorted_distinct_sequence({}, {!r})'.format(r, bad))
                    ctx.raises(TypeError, lambda: util.make_sorted_distinct_sequence(items, bad), 'make_sorted_distinct_sequence({}, {!r})'.format(items, bad))
                pairs = list(zip(items, items[1:]))
                ctx.equal([util.is_sorted(r), util.is_sorted(r, reverse=True), util.is_sorted(r, distinct=True), util.is_sorted(r, reverse=True, distinct=True)],
                          [all(a <= b for a, b in pairs), all(a >= b for a, b in pairs), all(a < b for a, b in pairs), all(a > b for a, b in pairs)],
                          'is_sorted({})'.format(r))
                key = lambda x: -x
                ctx.equal([util.is_sorted(r, key, b, a) for a in (False, True) for b in (False, True)],
                          [all(a >= b for a, b in pairs), all(a <= b for a, b in pairs), all(a > b for a, b in pairs), all(a < b for a, b in pairs)],
                          'is_sorted({}, key)'.format(r))
                if len(items) > 1:
                    ctx.equal(util.measure_stride(r), step, 'measure_stride({})'.format(r))
                if items:
                    ctx.equal((util.first(r), util.last(r), util.minmax(r)), (items[0], items[-1], (min(items), max(items))), 'ends of {}'.format(r))
                    ctx.equal(list(util.single_item_range(items[0])), [items[0]], 'single_item_range({})'.format(items[0]))
                ctx.trace()

    # -- intervals -----------------------------------------------------------------------------------
    def do_intervals(self, case, ctx):
        n, top = case['n'], case['top']
        for ends in itertools.combinations_with_replacement(range(top + 1), 2 * n):
            pairs = [(ends[2 * i], ends[2 * i + 1]) for i in range(n)]
            for kind in (slice, range):
                intervals = [kind(a, b) for a, b in pairs]
                bounds = [(None, None), (0, top), (None, top + 1), (-1, None), (0, None)]
                for start, stop in bounds:
                    ctx.transition()
                    got = list(util.complementary_intervals(intervals, start, stop))
                    lo = pairs[0][0] if start is None else start
                    hi = pairs[-1][1] if stop is None else stop
                    edges = [lo] + [e for p in pairs for e in p] + [hi]
                    want = [(edges[2 * i], edges[2 * i + 1]) for i in range(n + 1)]
                    what = 'complementary_intervals({}, {}, {})'.format(intervals, start, stop)
                    ctx.equal([(g.start, g.stop) for g in got], want, what)
                    ctx.require(all(type(g) is kind for g in got), what + ' gave {}', got)
                    merged = [x for pair in itertools.zip_longest(got, intervals) for x in pair if x is not None]
                    ctx.equal(util.intervals_are_contiguous(merged), True, 'contiguity of ' + what)
                ctx.equal(util.intervals_are_contiguous(intervals), all(a[1] == b[0] for a, b in zip(pairs, pairs[1:])),
                          'intervals_are_contiguous({})'.format(intervals))
                ctx.equal(util.intervals_are_contiguous(iter(intervals)), all(a[1] == b[0] for a, b in zip(pairs, pairs[1:])),
                          'intervals_are_contiguous(iter({}))'.format(intervals))
            ctx.state(ends)
            ctx.trace()
        ctx.raises(ValueError, lambda: util.complementary_intervals([]), 'complementary_intervals([])')

    def do_contiguous(self, case, ctx):
        all_intervals = [(a, b) for a in range(4) for b in range(a, 4)]
        for n in range(4):
            for family in itertools.product(all_intervals, repeat=n):
                want = all(a[1] == b[0] for a, b in zip(family, family[1:]))
                for kind in (slice, range):
                    ctx.transition()
                    ctx.equal(util.intervals_are_contiguous([kind(*p) for p in family]), want, 'intervals_are_contiguous({})'.format(family))
                ctx.state(family)

    def do_overlap(self, case, ctx):
        spans = [(a, b) for a in range(6) for b in range(a + 1, 7)]
        for a, b in itertools.product(spans, repeat=2):
            want = a != b and bool(set(range(*a)) & set(range(*b)))
            for kind in (slice, range):
                ctx.transition()
                ctx.equal(util.intervals_partially_overlap(kind(*a), kind(*b)), want, 'intervals_partially_overlap({}, {})'.format(a, b))
            ctx.state((a, b))
            ctx.trace()

    def do_roundrobin(self, case, ctx):
        n = case['n']
        for lengths in itertools.product(range(4), repeat=n):
            lists = [['{}{}'.format('ABC'[i], k) for k in range(length)] for i, length in enumerate(lengths)]
            want = [l[k] for k in range(4) for l in lists if k < len(l)]
            ctx.transition()
            ctx.equal(list(util.roundrobin(*lists)), want, 'roundrobin({})'.format(lists))
            ctx.equal(list(util.roundrobin(*map(iter, lists))), want, 'roundrobin({})'.format(lists))
            ctx.state(lengths)
            ctx.trace()

    # -- the rest ------------------------------------------------------------------------------------
    def do_scalars(self, case, ctx):
        for n in range(-40, 41):
            for k in range(-3, 20):
                ctx.transition()
                what = 'round_up({}, {})'.format(n, k)
                if k <= 0:
                    ctx.raises(ValueError, lambda: util.round_up(n, k), what)
                else:
                    ctx.equal(util.round_up(n, k), next(x for x in range(n, n + k) if x % k == 0), what)
        values = [-2.5, -1, 0, 0.0, 1, 3, 3.5, 10 ** 20]
        for a in values:
            ctx.equal(util.sgn(a), 1 if a > 0 else -1 if a < 0 else 0, 'sgn({})'.format(a))
            for b in values:
                ctx.transition()
                c = util.cmp(a, b)
                ctx.equal((c < 0, c == 0, c > 0), (a < b, a == b, a > b), 'cmp({}, {})'.format(a, b))
        words = ['a', 'bc', 'd1', 'x']
        for n in range(4):
            for parts in itertools.product(words, repeat=n):
                ctx.equal(util.underscores_to_camelcase('_'.join(parts)), ''.join(p[0].upper() + p[1:] for p in parts), 'camel case of {}'.format(parts))
        for chars in itertools.product('aB. ', repeat=4):
            s = ''.join(chars)
            ctx.transition(2)
            ctx.equal(util.first_sentence(s), s[:s.index('.') + 1] if '.' in s else s, 'first_sentence({!r})'.format(s))
            ctx.equal(util.lower_first(s), s[0].lower() + s[1:], 'lower_first({!r})'.format(s))
        ctx.equal(util.lower_first(''), '', 'lower_first of nothing')
        for n in range(7):
            for chars in itertools.product('_a', repeat=n):
                s = ''.join(chars)
                ctx.equal(bool(util.is_magic_name(s)), len(s) > 4 and s[:2] == '__' and s[-2:] == '__', 'is_magic_name({!r})'.format(s))
        for a, b in itertools.product([0, 0.0, 1, 1.5, -1, -1.5, 2 ** 40, 2.0 ** 40, 0.1 + 0.2, 0.3, 1e-17, 1e-15, 1 + 2 ** -52, 1 + 2 ** -50], repeat=2):
            for eps in (2 ** -52, 2 ** -30, 0.5, 0):
                ctx.transition()
                near = abs(Fraction(a) - Fraction(b)) <= Fraction(eps) * max(1, abs(Fraction(a)), abs(Fraction(b)))
                exact = Fraction(abs(a - b)) == abs(Fraction(a) - Fraction(b))
                if exact:
                    ctx.equal(bool(util.almost_equal(a, b, eps)), near, 'almost_equal({}, {}, {})'.format(a, b, eps))
                ctx.equal(util.almost_equal(a, b, eps), util.almost_equal(b, a, eps), 'almost_equal({}, {}, {}) either way'.format(a, b, eps))
        class A:
            pass
        class B(A):
            pass
        class C(A):
            pass
        class D(B, C):
            pass
        for cls in (object, A, B, C, D, int, bool, ValueError):
            ctx.equal(util.super_class(cls), (cls.__mro__ + (object,))[1], 'super_class({})'.format(cls.__name__))
        ctx.state('scalars')

    def do_kinds(self, case, ctx):
        """Comparable values other than integers."""
        pools = [['', 'a', 'b', 'ba'], [0.5, 1.5, 2.5, 4.0], [(0, 1), (1, 0), (1, 2), (3,)], [0, 0.5, 1, 2], [1.0, 2.0, 3.0, 4.0]]
        for pool in pools:
            for n in range(5):
                for items in itertools.product(pool, repeat=n):
                    asc = sorted(set(items))
                    descending = all(a > b for a, b in zip(items, items[1:])) and n > 0
                    for sense, want in ((None, asc[::-1] if descending else asc), (ASC, asc), (DESC, asc[::-1])):
                        ctx.transition()
                        what = 'make_sorted_distinct_sequence({}, {})'.format(items, sense)
                        got = ctx.call(lambda: list(util.make_sorted_distinct_sequence(items, sense)), what)
                        ctx.equal(got, want, what)
                    ctx.state(items)
                    ctx.trace()

    def do_files(self, case, ctx):
        class Named(io.BytesIO):
            def __init__(self, name):
                super().__init__()
                self.name = name
        for n in (0, 1, 2, 63, 64, 4096, 65535, 65536, 65537, 131072, 200000):
            data = bytes(i * 7 % 256 for i in range(n))
            for pos in sorted({0, 1, n // 2, n, n + 5}):
                fh = io.BytesIO(data)
                fh.seek(pos)
                ctx.transition(3)
                ctx.equal(util.file_length(fh), n, 'file_length of {} bytes at {}'.format(n, pos))
                ctx.equal(fh.tell(), pos, 'position after file_length at {}'.format(pos))
                with util.restored_position_seek(fh, n // 3):
                    ctx.equal(fh.tell(), n // 3, 'position within restored_position_seek')
                    fh.read(2)
                ctx.equal(fh.tell(), pos, 'position after restored_position_seek')
                a = util.hash_for_file(fh, 1, 'x')
                ctx.equal(a, util.hash_for_file(io.BytesIO(data), 1, 'x'), 'hash of the same {} bytes'.format(n))
                for other in ((data + b'\0', (1, 'x')), (data, (2, 'x')), (data, (1, 'y')), (data, (1,)), (data[:-1] + b'!', (1, 'x'))):
                    ctx.require(util.hash_for_file(io.BytesIO(other[0]), *other[1]) != a, 'different files have the same hash ({} bytes)', n)
            for k in range(0, n, max(1, n // 97)):
                ctx.require(util.hash_for_file(io.BytesIO(data[:k] + bytes([data[k] ^ 1]) + data[k + 1:]), 1, 'x') != a,
                            'the hash does not depend on byte {} of {}', k, n)
            ctx.state(n)
        for name, want in (('a.segy', 'a.segy'), (b'b/c', 'b/c'), (3, util.UNKNOWN_FILENAME), (None, util.UNKNOWN_FILENAME), ('', '')):
            ctx.equal(util.filename_from_handle(Named(name)), want, 'filename_from_handle of {!r}'.format(name))
        import pathlib
        ctx.equal(util.filename_from_handle(Named(pathlib.Path('p/q'))), 'p/q', 'filename_from_handle of a path')
        ctx.equal(util.filename_from_handle(io.BytesIO()), util.UNKNOWN_FILENAME, 'filename_from_handle of a file without a name')
        ctx.trace()


CHECK = P25()
