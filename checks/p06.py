import io
import itertools

from segpy.dataset import DelegatingDataset
from segpy.header import SubFormatMeta
from segpy.packer import make_header_packer
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from mc.engine import Check, outcome
from mc import histories, ref, spaces, sut
from mc.zygote import Zygote

FILES = {
    '3d': dict(fmt=3, enc='cp037', endian='<', ext='end', lens=[3, 1, 2, 3],
               geometry=[[5, 1, 9], [5, 2, 8], [7, 1, 7], [9, 4, 6]]),
    '3dgrid': dict(fmt=1, lens=[2, 3, 1, 2], ext='none', geometry=[[1, 1, 1], [1, 2, 2], [2, 1, 3], [2, 2, 4]]),
    '2d': dict(fmt=2, lens=[2, 0, 3], ext='one', geometry=[[1, 1, 30], [1, 1, 10], [1, 1, 20]]),
    'basic': dict(fmt=5, lens=[1, 4], endian='<', ext='none', geometry=[[1, 1, 1], [1, 1, 1]]),
    'single': dict(fmt=8, lens=[3], ext='two', geometry=[[1, 1, 1]], dimensionality=1),
}


class Guarded(io.BytesIO):
    """A file which reports being altered or closed."""

    def __init__(self, data):
        super().__init__(data)
        self.altered = []

    def write(self, *a):
        self.altered.append('write')
        return super().write(*a)

    def truncate(self, *a):
        self.altered.append('truncate')
        return super().truncate(*a)

    def close(self):
        self.altered.append('close')

    def __del__(self):
        pass


class Env:
    def __init__(self, spec):
        self.model = spaces.build(spec)
        self.data = self.model.to_bytes()
        self.fh = Guarded(self.data)
        self.reader = create_reader(self.fh, encoding=self.model.encoding, endian=self.model.endian,
                                    cache_directory=None, dimensionality=spec.get('dimensionality'))
        self.fmt = self.model.fmt
        self.second = None
        self.it = None
        self.taken = 0
        self.packer = make_header_packer(SubFormatMeta('Two', (), {}, parent_format=TraceHeaderRev1, parent_field_names=(
            'crossline_number', 'ensemble_num')), self.model.endian)

    def samples(self, reader, *a):
        return sut.samples_of(self.fmt, reader.trace_samples(*a))

    def keys(self):
        r = self.reader
        return (r.inline_xline_numbers() if hasattr(r, 'inline_xline_numbers') else
                r.cdp_numbers() if hasattr(r, 'cdp_numbers') else r.trace_indexes())


def seek(pos):
    def op(e):
        e.fh.seek(pos if pos >= 0 else len(e.data) + pos + 1)
    return op


def mutate_header(e):
    h = e.reader.trace_header(0)
    h.ensemble_num = 777
    h.num_samples = 1
    return int(h.ensemble_num)


def mutate_samples(e):
    s = e.reader.trace_samples(0)
    got = sut.samples_of(e.fmt, s)
    for i in range(len(s)):
        s[i] = 1
    return got


def reentrant_write(e):
    seen = []

    def progress(p):
        seen.append(outcome(lambda: e.samples(e.reader, 0)))
        e.reader.trace_header(e.reader.num_traces() - 1)
    out = sut.write_bytes(e.reader, progress=progress, endian=e.model.endian)
    return out, all(s == seen[0] for s in seen), seen[0]


def second_reader(e):
    e.fh.seek(0)
    e.second = create_reader(e.fh, encoding=None, endian=e.model.endian, cache_directory=None, dimensionality=1,
                             trace_header_format=TraceHeaderRev0)
    return sut.header_values(e.second.trace_header(0))


def use_second(e):
    r = e.second if e.second is not None else e.reader
    return e.samples(r, r.num_traces() - 1)


def iterate(e):
    if e.it is None:
        e.it = iter(e.keys())
        e.taken = 0
    item = next(e.it, 'end')
    e.taken += 1
    return item


def optional(name, *a):
    def op(e):
        f = getattr(e.reader, name, None)
        if f is None:
            return None
        r = f(*a)
        return r if isinstance(r, (int, bool)) else list(r)
    return op


OPS = {
    'samples0': lambda e: e.samples(e.reader, 0),
    'samples0head': lambda e: e.samples(e.reader, 0, 0, 1),
    'samples0part': lambda e: e.samples(e.reader, 0, 1),
    'samples_last': lambda e: e.samples(e.reader, e.reader.num_traces() - 1, 0, 1),
    'samples_none': lambda e: e.samples(e.reader, 0, 1, 1),
    'samples_bad': lambda e: outcome(lambda: e.reader.trace_samples(99)),
    'samples_bad_stop': lambda e: outcome(lambda: e.reader.trace_samples(0, 0, 99)),
    'header0': lambda e: sut.header_values(e.reader.trace_header(0)),
    'header_last': lambda e: sut.header_values(e.reader.trace_header(e.reader.num_traces() - 1)),
    'header_sub': lambda e: sut.header_values(e.reader.trace_header(0, e.packer)),
    'header_bad': lambda e: outcome(lambda: e.reader.trace_header(-1)),
    'text': lambda e: (list(e.reader.textual_reel_header), [list(p) for p in e.reader.extended_textual_header]),
    'reel': lambda e: sut.header_values(e.reader.binary_reel_header),
    'max': lambda e: (e.reader.max_num_trace_samples(), e.reader.num_traces()),
    'index': lambda e: sut.observe_index(e.reader),
    'inlines': optional('inline_numbers'),
    'xlines': optional('xline_numbers'),
    'cdps': optional('cdp_numbers'),
    'counts': lambda e: (optional('num_inlines')(e), optional('num_xlines')(e), optional('num_cdps')(e)),
    'absent': lambda e: outcome(lambda: e.reader.trace_index((77, 77) if hasattr(e.reader, 'inline_numbers') else 77),
                                KeyError, AttributeError),
    'seek_start': seek(0),
    'seek_end': seek(-1),
    'seek_inside': seek(3651),
    'write': lambda e: sut.write_bytes(e.reader, endian=e.model.endian),
    'write_delegate': lambda e: sut.write_bytes(DelegatingDataset(e.reader), encoding='cp037'),
    'write_reentrant': reentrant_write,
    'second': second_reader,
    'use_second': use_second,
    'next': iterate,
    'mutate_header': mutate_header,
    'mutate_samples': mutate_samples,
}
NAMES = list(OPS)
# Operations which change something that later calls might depend on.
CORE = ['samples0head', 'samples0part', 'header0', 'header_sub', 'max', 'index', 'inlines', 'cdps', 'seek_end', 'seek_inside', 'second',
        'use_second', 'next', 'mutate_header', 'mutate_samples', 'write', 'write_reentrant', 'samples_bad', 'header_bad']


def same(a, b):
    # NaN does not equal itself
    return repr(a) == repr(b)


class P06(Check):
    id = 'P06'
    level = 'model_checking'
    technique = 'explicit exploration of all bounded histories of reader operations, each result compared with a fresh reader'
    level_note = ('Every sequence to the depth bound over an alphabet of 31 operations, on five files covering each reader '
                  'class; every pair (and triple over a core; thorough: every triple) of 27 whole operations in a new process. '
                  'Single-threaded.')
    rule = ('A case is a file and the first operations of a history; every history is run on a new reader. A transition is '
            'one operation, its result compared with that of a fresh reader; after the last, everything the reader shows '
            'is compared with the model. States are the distinct (file, history) pairs reached.')

    def setup(self, ctx):
        self.fresh = {}
        for name, spec in FILES.items():
            for op in NAMES:
                e = Env(spec)
                self.fresh[name, op] = outcome(lambda: OPS[op](e))
            e = Env(spec)
            self.fresh[name, 'next'] = list(e.keys())
            e = Env(spec)
            self.fresh[name, 'use_second', True] = outcome(lambda: (second_reader(e), use_second(e))[1])

        self.zygote = None
        self.alone = {}

    def alone_result(self, op):
        # The results of an operation in a process which has done nothing else
        if self.zygote is None:
            self.zygote = Zygote('mc.histories')
        if op not in self.alone:
            self.alone[op] = self.zygote.ask('mc.histories', 'run', [op])
        return self.alone[op]

    def run_process(self, ops, ctx):
        expected = [self.alone_result(op) for op in ops]
        for op, answer in zip(ops, expected):
            ctx.require(answer[0] == 'ok', '{} in a new process: {}', op, answer)
        answer = self.zygote.ask('mc.histories', 'run', ops)
        ctx.require(answer[0] == 'ok', 'the sequence {} in a new process, each of which works alone: {}', ops, answer)
        results, later = answer[1]
        for n, op in enumerate(ops):
            ctx.transition()
            (alone,), (alone_later,) = expected[n][1]
            ctx.require(same(results[n], alone), '{} after {} in one process: {} instead of {}', op, ops[:n], results[n], alone)
            ctx.require(same(later[n], alone_later), 'what {} made, seen after {} in one process: {} instead of {}', op, ops, later[n], alone_later)
        ctx.state(('process', tuple(ops)))
        ctx.trace()

    def cases(self, tier):
        for ops in itertools.product(histories.NAMES, repeat=2):
            yield dict(process=list(ops))
        for ops in itertools.product(histories.NAMES if tier == 'thorough' else histories.CORE, repeat=3):
            yield dict(process=list(ops))
        depth = 2 if tier == 'quick' else 3
        for name in FILES:
            for ops in itertools.product(NAMES, repeat=depth):
                yield dict(file=name, ops=list(ops))
        deeper = depth + 1
        for name in FILES if tier == 'thorough' else ('3d', '2d'):
            for ops in itertools.product(CORE, repeat=deeper):
                yield dict(file=name, ops=list(ops))

    def run(self, case, ctx):
        if 'process' in case:
            return self.run_process(case['process'], ctx)
        name = case['file']
        e = Env(FILES[name])
        done = []
        for op in case['ops']:
            done.append(op)
            if op == 'next':
                keys = self.fresh[name, 'next']
                expected = ('ok', keys[e.taken] if e.taken < len(keys) else 'end')
            elif op == 'use_second' and e.second is not None:
                expected = self.fresh[name, 'use_second', True]
            else:
                expected = self.fresh[name, op]
            got = outcome(lambda: OPS[op](e))
            ctx.transition()
            ctx.equal(got, expected, '{} after {}'.format(op, done[:-1]))
            ctx.equal(e.fh.altered, [], 'changes made to the file by {}'.format(done))
        problem = sut.diff(sut.observe_reader(e.reader), sut.expected_view(e.model, FILES[name].get('dimensionality')))
        ctx.require(problem is None, 'after {}: {}', done, problem)
        ctx.equal(e.fh.getvalue(), e.data, 'contents of the file after {}'.format(done))
        ctx.state((name, tuple(done)))
        ctx.trace()
        ctx.sample(case)


CHECK = P06()
