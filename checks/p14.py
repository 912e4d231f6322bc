import copy
import gc
import itertools
import pickle

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt16
from segpy.header import BaseHeader, Header, SubFormatMeta, are_equal, field
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from mc.engine import Check
from mc import ref, spaces


class Base(Header):
    LENGTH_IN_BYTES = 12
    START_OFFSET_IN_BYTES = 0
    a = field(Int32, 0, 3, 'A.')
    b = field(Int16, 4, -4, 'B.')


class Derived(Base):
    c = field(NNInt16, 6, 5, 'C.')


class Sibling(Base):
    c = field(Int16, 8, -6, 'Another C.')


class Sub(metaclass=SubFormatMeta, parent_format=Derived, parent_field_names=('c', 'a')):
    pass


CLASSES = {'Base': (Base, [('a', 3), ('b', -4)]), 'Derived': (Derived, [('a', 3), ('b', -4), ('c', 5)]),
           'Sibling': (Sibling, [('a', 3), ('b', -4), ('c', -6)]), 'Sub': (Sub, [('c', 5), ('a', 3)])}
BAD = {'a': 2 ** 31, 'b': -32769, 'c': 32768}
MAX_LIVE = 3
MAKERS = ('copy', 'copy_first', 'copy_last', 'copy.copy', 'deepcopy', 'pickle2', 'pickle4')


class World:
    """Live header objects side by side with the dictionaries they should equal."""

    def __init__(self):
        self.objects = []
        self.models = []
        self.counter = 10

    def value(self):
        self.counter += 1
        return self.counter

    def options(self):
        n = len(self.objects)
        ops = []
        if n < MAX_LIVE:
            ops += [('new', name) for name in CLASSES]
        for i in range(n):
            ops += [('set', i, 0), ('set', i, -1), ('bad', i, -1), ('drop', i)]
            if n < MAX_LIVE:
                ops += [(m, i) for m in MAKERS]
        return ops

    def apply(self, op, ctx):
        kind = op[0]
        if kind == 'new':
            cls, fields = CLASSES[op[1]]
            self.objects.append(cls())
            self.models.append((op[1], dict(fields)))
            return
        name, values = self.models[op[1]]
        obj = self.objects[op[1]]
        fields = [f for f, _ in CLASSES[name][1]]
        if kind == 'set':
            f = fields[op[2]]
            v = self.value()
            setattr(obj, f, v)
            values[f] = v
        elif kind == 'bad':
            f = fields[op[2]]
            for bad in (BAD[f],) + ((Int32(BAD[f]),) if f != 'a' else ()):
                ctx.raises(ValueError, lambda: setattr(obj, f, bad), 'setting {} of a {} to {!r}'.format(f, name, bad))
        elif kind == 'drop':
            del self.objects[op[1]], self.models[op[1]], obj
            gc.collect(0)
        else:
            updates = {}
            if kind == 'copy_first':
                updates = {fields[0]: self.value()}
            elif kind == 'copy_last':
                updates = {fields[-1]: self.value()}
            if kind.startswith('copy_') or kind == 'copy':
                new = obj.copy(**updates)
            elif kind == 'copy.copy':
                new = copy.copy(obj)
            elif kind == 'deepcopy':
                new = copy.deepcopy(obj)
            else:
                new = pickle.loads(pickle.dumps(obj, int(kind[6:])))
            self.objects.append(new)
            self.models.append((name, dict(values, **updates)))

    def check(self, ctx, done):
        for k, (obj, (name, values)) in enumerate(zip(self.objects, self.models)):
            cls = CLASSES[name][0]
            ctx.require(type(obj) is cls, 'object {} is a {} rather than a {} after {}', k, type(obj), name, done)
            for f, v in values.items():
                got = getattr(obj, f)
                if got != v:
                    ctx.fail('field {} of object {} (a {}) is {} rather than {} after {}'.format(f, k, name, got, v, done))
        for i, j in itertools.combinations_with_replacement(range(len(self.objects)), 2):
            want = self.models[i] == self.models[j]
            if i != j:
                ctx.require(self.objects[i] is not self.objects[j], 'objects {} and {} are one after {}', i, j, done)
            for x, y in ((i, j), (j, i)):
                if bool(are_equal(self.objects[x], self.objects[y])) != want:
                    ctx.fail('are_equal of objects {} and {} is not {} after {}'.format(x, y, want, done))

    def key(self):
        return tuple((n, tuple(sorted(v.items()))) for n, v in self.models)


class P14(Check):
    id = 'P14'
    level = 'model_checking'
    technique = 'explicit exploration of all bounded histories of header object operations against a dictionary model'
    level_note = ('Every history to the depth bound over up to three live objects of a base, derived, sibling and sub-format class '
                  '(create, assign, rejected assign, four kinds of copy, pickle, destroy); every field of the standard headers at '
                  'its boundary values.')
    rule = ('A case is the first two operations of a history; all extensions to the depth bound are run, each on new objects, and '
            'after each history every field of every live object and every are_equal() is compared with the model. States are '
            'distinct model states.')

    def cases(self, tier):
        depth = 4 if tier == 'quick' else 5
        for first in CLASSES:
            w = World()
            w.apply(('new', first), None)
            for second in w.options():
                yield dict(kind='history', prefix=[['new', first], list(second)], depth=depth)
        for fmt in ('trace0', 'trace1', 'reel'):
            for part in range(4):
                yield dict(kind='standard', format=fmt, part=part)
        yield dict(kind='names')
        yield dict(kind='churn')

    def run(self, case, ctx):
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.sample(case)

    def run_history(self, case, ctx):
        prefix = [tuple(op) for op in case['prefix']]
        self.extend(prefix, case['depth'], ctx)

    def extend(self, done, depth, ctx):
        w = World()
        for op in done:
            w.apply(op, ctx)
        w.check(ctx, done)
        ctx.transition()
        ctx.trace()
        ctx.state(w.key())
        if len(done) < depth:
            for op in w.options():
                self.extend(done + [op], depth, ctx)

    def run_standard(self, case, ctx):
        kind = case['format']
        cls = {'trace0': TraceHeaderRev0, 'trace1': TraceHeaderRev1, 'reel': BinaryReelHeader}[kind]
        fields = ref.fields_of(kind)
        defaults = ref.defaults(kind)
        names = list(defaults)

        def values(h):
            return {n: int(getattr(h, n)) for n in names}
        ctx.equal(sorted(cls.ordered_field_names()), sorted(names), 'the fields of ' + cls.__name__)
        mixed = {}
        for k, f in enumerate(fields):
            legal = spaces.boundary_values(f)
            mixed[f[0]] = legal[(3 * k + 1) % len(legal)]
        for k, f in enumerate(fields):
            if k % 4 != case['part']:
                continue
            n, lo, hi, legal = f[0], f[3], f[4], f[5]
            other = cls(**mixed)
            h = cls()
            ctx.equal(values(h), defaults, 'a new ' + cls.__name__)
            for v in spaces.boundary_values(f, ctx.tier == 'thorough'):
                ctx.transition(6)
                ctx.state((kind, n, v))
                setattr(h, n, v)
                want = dict(defaults, **{n: v})
                ctx.equal(values(h), want, 'after setting {} to {}'.format(n, v))
                for what, made in (('copy()', h.copy()), ('copy.copy', copy.copy(h)), ('pickling', pickle.loads(pickle.dumps(h))),
                                   ('copy(**)', cls().copy(**{n: v})), ('construction', cls(**{n: v}))):
                    ctx.require(type(made) is cls, '{} gives a {}', what, type(made))
                    ctx.equal(values(made), want, '{} after setting {} to {}'.format(what, n, v))
                    ctx.require(are_equal(made, h) and are_equal(h, made), '{} is not equal to the original', what)
                    if v != f[6]:
                        ctx.require(not are_equal(made, cls()), 'headers differing in {} are equal', n)
                    setattr(made, n, f[6])
                    ctx.equal(int(getattr(h, n)), v, 'original after the result of {} changed'.format(what))
                changed = other.copy(**{n: v})
                ctx.equal(values(changed), dict(mixed, **{n: v}), 'copy({}={})'.format(n, v))
                ctx.require(bool(are_equal(changed, other)) == (v == mixed[n]), 'are_equal of a copy with {}={}', n, v)
            ctx.equal(values(other), mixed, 'an unrelated header after setting ' + n)
            bad = [2 ** 31, -2 ** 31 - 1, hi + 1, lo - 1] if legal is None else [v for v in range(-3, 12) if v not in legal] + [99]
            if n == 'format_revision_num':
                bad = [v for v in bad if v not in (1, 100)]  # canonicalised (P31)
            for v in bad:
                before = values(h)
                ctx.raises(ValueError, lambda: setattr(h, n, v), 'setting {} to {}'.format(n, v))
                ctx.raises(ValueError, lambda: cls(**{n: v}), '{}({}={})'.format(cls.__name__, n, v))
                ctx.raises(ValueError, lambda: h.copy(**{n: v}), 'copy({}={})'.format(n, v))
                ctx.equal(values(h), before, 'after the rejected {}={}'.format(n, v))
            ctx.raises(AttributeError, lambda: delattr(h, n), 'deleting ' + n)
        ctx.trace()

    def run_names(self, case, ctx):
        for cls in (Base, Derived, Sibling, Sub, TraceHeaderRev0, TraceHeaderRev1, BinaryReelHeader):
            names = tuple(cls.ordered_field_names())
            unknown = ['nonsense', 'A', '_a', 'copy', 'LENGTH_IN_BYTES', 'START_OFFSET_IN_BYTES', 'ordered_field_names', '__class__',
                       '__dict__', '_ordered_field_names', names[0] + '_', '']
            for c2 in (Base, Derived, Sibling, TraceHeaderRev1, BinaryReelHeader):
                unknown += [n for n in c2.ordered_field_names() if n not in names]
            for n in unknown:
                ctx.transition(3)
                ctx.state((cls.__name__, n))
                ctx.raises(TypeError, lambda: cls(**{n: 1}), '{}({}=1)'.format(cls.__name__, n))
                ctx.raises(TypeError, lambda: cls().copy(**{n: 1}), '{}().copy({}=1)'.format(cls.__name__, n))
                ctx.raises(TypeError, lambda: cls(**{names[0]: 1, n: 1}), '{}({}=1, {}=1)'.format(cls.__name__, names[0], n))
            for other in (Base, Derived, Sibling, Sub, TraceHeaderRev0, TraceHeaderRev1):
                ctx.require(bool(are_equal(cls(), other())) == (cls is other), 'are_equal({}(), {}())', cls, other)
            # Keywords override positions
            ctx.equal(int(getattr(cls(7, **{names[0]: 1}), names[0])), 1, 'keyword and positional argument')
        ctx.trace()

    def run_churn(self, case, ctx):
        """New objects at the addresses of destroyed ones start from the defaults."""
        for name, (cls, fields) in CLASSES.items():
            for rounds in range(3):
                live = [cls() for _ in range(50)]
                for k, h in enumerate(live):
                    for f, _ in fields:
                        setattr(h, f, 100 + k)
                addresses = {id(h) for h in live}
                keep = live[::7]
                del live, h
                gc.collect()
                reused = 0
                fresh = [c() for c, _ in [CLASSES[name]] * 60]
                for h in fresh:
                    ctx.transition()
                    reused += id(h) in addresses
                    for f, d in fields:
                        ctx.equal(int(getattr(h, f)), d, 'field {} of a new {}'.format(f, name))
                for k, h in enumerate(keep):
                    for f, _ in fields:
                        ctx.equal(int(getattr(h, f)), 100 + 7 * k, 'field {} of a surviving {}'.format(f, name))
                ctx.count('addresses_reused', reused)
                del h, fresh, keep
        ctx.trace()


CHECK = P14()
