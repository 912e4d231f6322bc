import array
import collections
import copy
import itertools
import pickle

from segpy.reversed_sequence_view import ReversedSequenceView
from segpy.sorted_frozen_set import SortedFrozenSet

from mc.engine import Check, outcome

UNIVERSES = {
    'ints': [-3, 0, 1, 7, 100],
    'floats': [-1.5, 0.0, 2.25, 1e9, float('inf')],
    'text': ['', 'a', 'aa', 'b', 'c'],
    'pairs': [(0, 0), (0, 1), (1, 0), (2, 5), (9, 9)],
    'mixed': [0, 0.5, 1, True + 1, 3.75],
}
IDX = IndexError
ITERABLES = {'list': list, 'tuple': tuple, 'iter': iter, 'set': frozenset, 'sorted': SortedFrozenSet, 'gen': lambda xs: (x for x in xs)}

# other things which a set can be made of, each of which may be recognised for what it is
SOURCES = (lambda r: r, reversed, lambda r: ReversedSequenceView(r), lambda r: dict.fromkeys(r), lambda r: dict.fromkeys(r).keys(),
           lambda r: dict(zip(r, r)).values(), lambda r: map(int, r), lambda r: array.array('i', r), collections.deque, lambda r: r[::-1],
           lambda r: SortedFrozenSet(r), lambda r: itertools.chain(r, r))


def slices(n, steps=(None, 1, 2, 3, -1, -2)):
    bounds = [None] + list(range(-n - 2, n + 3))
    return [slice(a, b, c) for a in bounds for b in bounds for c in steps]


class P24(Check):
    id = 'P24'
    technique = 'exhaustive enumeration of small instances and of the operations on them, against the list and set they model'
    level_note = ('All subsets and pairs of subsets of five universes of five items, all arrangements of up to five items as input, every index, '
                  'slice and operation; all sequences of up to five (thorough six) of three items reversed over six kinds of sequence.')
    rule = ('A state is a distinct instance; a transition is one operation on it; a replayed trace is an instance all of whose operations '
            'agreed with the sorted list and frozenset of its items, or the reversed list.')

    def cases(self, tier):
        n = 6 if tier == 'thorough' else 5
        for u in UNIVERSES:
            for i in range(32):
                yield dict(kind='set', universe=u, members=i)
            for length in range(n + 1):
                for first in range(5 if length else 1):
                    yield dict(kind='build', universe=u, length=length, first=first)
        for length in range(n + 1):
            for first in range(3 if length else 1):
                for sort in ('list', 'tuple', 'text', 'range', 'sorted', 'reversed', 'bytes'):
                    yield dict(kind='view', length=length, first=first, sort=sort, full=tier == 'thorough')

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def do_build(self, case, ctx):
        u = UNIVERSES[case['universe']]
        ctx.equal(list(SortedFrozenSet()), [], 'the items of SortedFrozenSet()')
        ctx.equal(list(SortedFrozenSet(None)), [], 'the items of SortedFrozenSet(None)')
        for rest in itertools.product(u, repeat=max(0, case['length'] - 1)):
            items = (u[case['first']],) * (case['length'] > 0) + rest
            want = sorted(set(items))
            for name, make in ITERABLES.items():
                s = SortedFrozenSet(make(items))
                ctx.transition()
                ctx.equal((list(s), len(s), bool(s)), (want, len(want), bool(want)), 'the items of SortedFrozenSet({}({}))'.format(name, items))
            ctx.state((case['universe'], items))
            ctx.trace()
        for make in SOURCES:
            for a, b, c in itertools.product(range(-4, 5), range(-4, 5), (-3, -2, -1, 1, 2, 3)):
                r = range(a, b, c)
                s, want = SortedFrozenSet(make(r)), sorted(r)
                ctx.transition()
                ctx.equal((list(s), len(s), r[0] in s if want else False, s[:1] == SortedFrozenSet(want[:1])), (want, len(want), bool(want), True),
                          'the items of SortedFrozenSet({!r})'.format(make(r)))
                for x in range(-5, 6):
                    ctx.equal((x in s, s.count(x)), (x in r, int(x in r)), '{} in SortedFrozenSet({!r})'.format(x, make(r)))
                if want:
                    ctx.equal([s.index(x) for x in want], list(range(len(want))), 'indexes in SortedFrozenSet({!r})'.format(make(r)))
        source = list(u)
        s = SortedFrozenSet(source)
        source.clear()
        ctx.equal(list(s), sorted(u), 'the items after those it was made from have gone')

    def do_set(self, case, ctx):
        u = UNIVERSES[case['universe']]
        members = [x for i, x in enumerate(u) if case['members'] >> i & 1]
        want = sorted(members)
        s = SortedFrozenSet(reversed(members))
        what = 'SortedFrozenSet({})'.format(want)
        ctx.state(what)
        n = len(want)
        ctx.equal(list(reversed(s)), want[::-1], 'reversed ' + what)
        ctx.equal(eval(repr(s), {'SortedFrozenSet': SortedFrozenSet, 'inf': float('inf')}), s, 'evaluated repr of ' + what)
        for i in range(-n - 2, n + 2):
            ctx.transition()
            ctx.equal(outcome(lambda: s[i], IDX), outcome(lambda: want[i], IDX), '{}[{}]'.format(what, i))
        for sl in slices(n):
            ctx.transition()
            got = s[sl]
            ctx.equal(list(got), sorted(want[sl]), '{}[{}]'.format(what, sl))
        for x in u:
            ctx.transition(3)
            ctx.equal(x in s, x in want, '{!r} in {}'.format(x, what))
            ctx.equal(s.count(x), want.count(x), '{}.count({!r})'.format(what, x))
            ctx.equal(outcome(lambda: s.index(x), ValueError), outcome(lambda: want.index(x), ValueError), '{}.index({!r})'.format(what, x))
        fs = frozenset(want)
        for k in range(32):
            other = [x for i, x in enumerate(u) if k >> i & 1]
            t, ft = SortedFrozenSet(other), frozenset(other)
            pair = '{} with {}'.format(what, other)
            ctx.transition(20)
            for name, a, b in (('==', s == t, fs == ft), ('!=', s != t, fs != ft), ('<=', s <= t, fs <= ft), ('<', s < t, fs < ft),
                               ('>=', s >= t, fs >= ft), ('>', s > t, fs > ft), ('isdisjoint', s.isdisjoint(t), fs.isdisjoint(ft))):
                ctx.equal(a, b, '{} {}'.format(name, pair))
            ctx.equal((s in {t}, {t: 1}.get(s)), (fs == ft, 1 if fs == ft else None), 'a set or dictionary of the second, and the first: {}'.format(pair))
            for name, a, b in (('&', s & t, fs & ft), ('|', s | t, fs | ft), ('-', s - t, fs - ft), ('^', s ^ t, fs ^ ft),
                               ('+', s + t, fs | ft)):
                ctx.require(isinstance(a, SortedFrozenSet), '{} {} is a {}', name, pair, type(a))
                ctx.equal(list(a), sorted(b), '{} {}'.format(name, pair))
            for name, make in ITERABLES.items():
                for method, b in (('issubset', fs <= ft), ('issuperset', fs >= ft)):
                    ctx.equal(getattr(s, method)(make(other)), b, '{} {}'.format(method, pair))
                for method, b in (('intersection', fs & ft), ('union', fs | ft), ('difference', fs - ft), ('symmetric_difference', fs ^ ft)):
                    ctx.equal(list(getattr(s, method)(make(other))), sorted(b), '{} {} as {}'.format(method, pair, name))
            ctx.equal((list(s), list(t)), (want, sorted(other)), 'the operands afterwards')
        for how, made in [('copy', copy.copy), ('deep copy', copy.deepcopy)] + [
                ('pickle of protocol %d' % k, lambda x, k=k: pickle.loads(pickle.dumps(x, k))) for k in range(pickle.HIGHEST_PROTOCOL + 1)]:
            got = ctx.call(lambda: made(s), '{} of {}'.format(how, what))
            ctx.equal((type(got), list(got), got == s, hash(got) == hash(s)), (SortedFrozenSet, want, True, True), '{} of {}'.format(how, what))
        for k in (-1, 0, 1, 2):
            ctx.equal(list(s * k), want if k > 0 else [], '{} * {}'.format(what, k))
            ctx.equal(list(k * s), want if k > 0 else [], '{} * {}'.format(k, what))
        ctx.equal(s == want, False, what + ' == a list')
        ctx.equal(hasattr(s, 'append') or hasattr(s, 'add') or hasattr(s, '__setitem__'), False, what + ' is mutable')
        ctx.trace()

    def do_view(self, case, ctx):
        pool = [0, 1, 2]
        for rest in itertools.product(pool, repeat=max(0, case['length'] - 1)):
            items = [pool[case['first']]] * (case['length'] > 0) + list(rest)
            sort = case['sort']
            absent = 9
            if sort == 'text':
                under, items, absent = ''.join('abc'[i] for i in items), ['abc'[i] for i in items], 'z'
            elif sort == 'range':
                if items and items != [items[0] + i * 3 for i in range(len(items))] and rest and any(rest):
                    continue
                under = range(case['first'], case['first'] + 3 * case['length'], 3)
                items = list(under)
                absent = -1
            elif sort == 'sorted':
                under = SortedFrozenSet(items)
                items = sorted(set(items))
            elif sort == 'reversed':
                under = ReversedSequenceView(items[::-1])
            elif sort == 'bytes':
                under = bytes(items)
            else:
                under = {'list': list, 'tuple': tuple}[sort](items)
            want = list(items)[::-1]
            v = ReversedSequenceView(under)
            what = 'the reversed view of {!r}'.format(under)
            ctx.state((sort, tuple(items)))
            n = len(want)
            ctx.equal((len(v), list(v), list(reversed(v)), bool(v)), (n, want, want[::-1], bool(want)), 'the items of ' + what)
            for i in range(-n - 2, n + 2):
                ctx.transition()
                ctx.equal(outcome(lambda: v[i], IDX), outcome(lambda: want[i], IDX), 'item {} of {}'.format(i, what))
            if n <= 3 or case['full'] or sort in ('list', 'range'):
                for sl in slices(n, (None, 1, 2, -1, -2)) if n <= 4 or case['full'] else slices(2):
                    ctx.transition()
                    ctx.equal(list(v[sl]), want[sl], '{} of {}'.format(sl, what))
            for x in list(set(want)) + [absent]:
                ctx.transition(3)
                ctx.equal(x in v, x in want, '{!r} in {}'.format(x, what))
                ctx.equal(v.count(x), want.count(x), 'count of {!r} in {}'.format(x, what))
                ctx.equal(outcome(lambda: v.index(x), ValueError), outcome(lambda: want.index(x), ValueError), 'index of {!r} in {}'.format(x, what))
            if sort == 'list':
                under.append(5)
                ctx.equal((list(v), len(v), v[0], v[-1]), ([5] + want, n + 1, 5, ([5] + want)[-1]), what + ' after an item was appended')
            ctx.trace()


CHECK = P24()
