import io
import itertools

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import DelegatingDataset
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev1
from segpy.writer import write_segy

from mc.engine import Check
from mc import ref, spaces, sut

MEMBERS = ('text', 'reel', 'ext', 'dim', 'order', 'num', 'header', 'samples', 'encoding', 'endian')
SPEC = dict(fmt=3, ext='one', lens=[2, 0, 3], geometry=[[1, 1, 5], [1, 2, 6], [2, 1, 7]])


def prop(fn):
    return property(fn)


# What overriding each member does to what the source gives
def new_text(lines):
    return ['*' + l[:79] for l in lines]


def new_reel(values):
    # ... the format too, from which others follow
    return dict(values, sample_interval=values['sample_interval'] + 1, job_id_num=77, data_sample_format={3: 2, 2: 3}[values['data_sample_format']])


def new_pages(pages):
    return [list(reversed(p)) for p in pages]


def new_header(values):
    return dict(values, trace_num=values['trace_num'] + 10)


def new_samples(s):
    return [x ^ 1 for x in s]


def overriding(members):
    """A subclass of DelegatingDataset which overrides some members."""
    ns = {}
    if 'text' in members:
        ns['textual_reel_header'] = prop(lambda self: new_text(self.source.textual_reel_header))
    if 'reel' in members:
        ns['binary_reel_header'] = prop(lambda self: BinaryReelHeader(**new_reel(sut.header_values(self.source.binary_reel_header))))
    if 'ext' in members:
        ns['extended_textual_header'] = prop(lambda self: new_pages(self.source.extended_textual_header))
    if 'dim' in members:
        ns['dimensionality'] = prop(lambda self: self.source.dimensionality + 10)
    if 'order' in members:
        ns['trace_indexes'] = lambda self: iter([1, 2, 0][i] for i in self.source.trace_indexes())
    if 'num' in members:
        ns['num_traces'] = lambda self: self.source.num_traces() + 5
    if 'header' in members:
        ns['trace_header'] = lambda self, i: TraceHeaderRev1(**new_header(sut.header_values(self.source.trace_header(i))))
    if 'samples' in members:
        ns['trace_samples'] = lambda self, i, start=None, stop=None: new_samples(self.source.trace_samples(i, start, stop))
    if 'encoding' in members:
        ns['encoding'] = prop(lambda self: {'ascii': 'cp037', 'cp037': 'ascii'}[self.source.encoding])
    if 'endian' in members:
        ns['endian'] = prop(lambda self: {'<': '>', '>': '<'}[self.source.endian])
    return type('Overriding', (DelegatingDataset,), ns)


class P30(Check):
    id = 'P30'
    technique = 'exhaustive enumeration of the members overridden at each level of nested datasets, against the composed model'
    level_note = ('Every subset of the ten members overridden at one level; every way to override up to four (thorough: all) of them at one or other of two '
                  'levels (thorough: up to five at three); every pair of members overridden at every subset of three levels; plain nesting to depth '
                  'eight; over readers and a dataset in memory.')
    rule = ('A state is a distinct stack of datasets; a transition is one member compared. Each level must show the source\'s value of what it '
            'does not override, and write_segy write the values of the outermost.')

    def cases(self, tier):
        thorough = tier == 'thorough'
        for levels, most in ((1, 10), (2, 10), (3, 5)) if thorough else ((1, 10), (2, 4)):
            for head in itertools.product(range(levels + 1), repeat=3):
                yield dict(kind='levels', head=list(head), levels=levels, most=most)
        for a, b in itertools.combinations(MEMBERS, 2):
            for source in ('memory', 'reader'):
                yield dict(kind='pairs', members=[a, b], source=source)
        for depth in range(9):
            for fmt in spaces.FMTS:
                for dim in (None, 1, 2, 3):
                    for enc in spaces.ENCODINGS:
                        yield dict(kind='plain', depth=depth, fmt=fmt, dim=dim, enc=enc)
        yield dict(kind='absent')

    def run(self, case, ctx):
        getattr(self, 'do_' + case['kind'])(case, ctx)

    def source(self, kind, m, **kw):
        if kind == 'memory':
            ds = sut.MemDataset(m)
            ds.endian = m.endian
            return ds
        return create_reader(io.BytesIO(m.to_bytes()), cache_directory=None, endian=m.endian, encoding=m.encoding, **kw)

    def judge(self, ctx, stack, sets, m, source_dim, what):
        """stack[k] is the k-th dataset, overriding sets[k] of the one before."""
        ctx.state(what)
        lines, reel, pages, order = list(m.lines), dict(m.reel), [list(p) for p in m.pages], list(range(len(m.traces)))
        headers, samples = [dict(h) for h, _ in m.traces], [list(s) for _, s in m.traces]
        dim, num, enc, endian = source_dim, len(m.traces), m.encoding, m.endian
        for level, (ds, members) in enumerate(zip(stack, sets)):
            lines = new_text(lines) if 'text' in members else lines
            reel = new_reel(reel) if 'reel' in members else reel
            pages = new_pages(pages) if 'ext' in members else pages
            dim += 10 * ('dim' in members)
            order = [[1, 2, 0][i] for i in order] if 'order' in members else order
            num += 5 * ('num' in members)
            headers = [new_header(h) for h in headers] if 'header' in members else headers
            samples = [new_samples(s) for s in samples] if 'samples' in members else samples
            enc = {'ascii': 'cp037', 'cp037': 'ascii'}[enc] if 'encoding' in members else enc
            endian = {'<': '>', '>': '<'}[endian] if 'endian' in members else endian
            fmt = reel['data_sample_format']
            key = lambda vs: [ref.expected_key(fmt, v) for v in vs]
            w = '{}, level {}'.format(what, level)
            ctx.transition(12)
            ctx.equal(list(ds.textual_reel_header), lines, w + ', textual_reel_header')
            ctx.equal(sut.header_values(ds.binary_reel_header), reel, w + ', binary_reel_header')
            ctx.equal([list(p) for p in ds.extended_textual_header], pages, w + ', extended_textual_header')
            ctx.equal(ds.dimensionality, dim, w + ', dimensionality')
            ctx.equal(list(ds.trace_indexes()), order, w + ', trace_indexes')
            ctx.equal(ds.num_traces(), num, w + ', num_traces')
            ctx.equal(ds.encoding, enc, w + ', encoding')
            ctx.equal(ds.endian, endian, w + ', endian')
            ctx.equal(ds.data_sample_format, ref.FORMATS[fmt][0], w + ', data_sample_format')
            for i in range(len(headers)):
                ctx.equal(sut.header_values(ds.trace_header(i)), headers[i], '{}, trace_header({})'.format(w, i))
                ctx.equal(sut.samples_of(fmt, ds.trace_samples(i)), key(samples[i]), '{}, trace_samples({})'.format(w, i))
                n = len(samples[i])
                for a, b in ((0, n), (n // 2, n), (0, n // 2), (None, n // 2), (n // 2, None), (0, 0), (n, n), (None, 0), (n, None)):
                    ctx.equal(sut.samples_of(fmt, ds.trace_samples(i, a, b)), key(samples[i][a:b]), '{}, trace_samples({}, {}, {})'.format(w, i, a, b))
                    ctx.equal(sut.samples_of(fmt, ds.trace_samples(i, stop=b, start=a)), key(samples[i][a:b]), '{}, trace_samples({}, stop={}, start={})'.format(w, i, b, a))
            if level:
                ctx.require(ds.source is stack[level - 1], w + ', source')
        for to in '<>':
            want = ref.Model(lines, reel, [(headers[i], samples[i]) for i in order], enc, to, pages).to_bytes()
            out = io.BytesIO()
            write_segy(out, stack[-1], endian=to)
            ctx.require(out.getvalue() == want, what + ' wrote the wrong bytes for endian {}', to)
        ctx.trace()

    def stack(self, source, sets):
        stack = [source]
        for members in sets:
            stack.append(overriding(members)(stack[-1]))
        return stack

    def do_levels(self, case, ctx):
        levels = case['levels']
        m = spaces.build(SPEC)
        source = self.source('memory', m)
        source.__class__ = type('Dimensioned', (type(source),), {'dimensionality': 3})
        for tail in itertools.product(range(levels + 1), repeat=len(MEMBERS) - len(case['head'])):
            at = dict(zip(MEMBERS, case['head'] + list(tail)))
            if sum(1 for v in at.values() if v) > case['most']:
                continue
            sets = [[k for k in MEMBERS if at[k] == level] for level in range(1, levels + 1)]
            self.judge(ctx, self.stack(source, sets), [[]] + sets, m, 3, 'overriding {}'.format(sets))

    def do_pairs(self, case, ctx):
        m = spaces.build(SPEC)
        for first in itertools.product((False, True), repeat=3):
            for second in itertools.product((False, True), repeat=3):
                sets = [[k for k, levels in zip(case['members'], (first, second)) if levels[i]] for i in range(3)]
                source = self.source(case['source'], m)
                dim = source.dimensionality
                self.judge(ctx, self.stack(source, sets), [[]] + sets, m, dim, '{} overriding {}'.format(case['source'], sets))
        ctx.sample(case)

    def do_plain(self, case, ctx):
        m = spaces.build(dict(SPEC, fmt=case['fmt'], enc=case['enc'], endian='<' if case['depth'] % 2 else '>'))
        reader = self.source('reader', m, dimensionality=case['dim'])
        dim = {None: 3, 1: 0}.get(case['dim'], case['dim'])
        stack = [reader]
        for _ in range(case['depth']):
            stack.append(DelegatingDataset(stack[-1]))
        self.judge(ctx, stack, [[]] * len(stack), m, dim, 'a stack of {} over a reader, {}'.format(case['depth'], case))
        top = stack[-1]
        ctx.equal(top.data_sample_format_description, reader.data_sample_format_description, 'description of the format')
        for member in ('textual_reel_header', 'binary_reel_header', 'extended_textual_header'):
            ctx.require(getattr(top, member) is getattr(reader, member), member + ' is not what the source gives')
        for bad in (-1, 3, 100):
            ctx.raises(ValueError, lambda: top.trace_header(bad), 'trace_header({})'.format(bad))
            ctx.raises(ValueError, lambda: top.trace_samples(bad), 'trace_samples({})'.format(bad))
        ctx.raises(ValueError, lambda: top.trace_samples(0, 0, 99), 'trace_samples(0, 0, 99)')

    def do_absent(self, case, ctx):
        """A source without an encoding or a byte order."""
        m = spaces.build(SPEC)
        for depth in range(4):
            ds = sut.MemDataset(m, with_encoding=False)
            for _ in range(depth):
                ds = DelegatingDataset(ds)
            ctx.equal(sut.write_bytes(ds), m.to_bytes(), 'what was written from a dataset without an encoding')
            ctx.transition()
            if depth:
                ctx.raises(AttributeError, lambda: ds.encoding, 'the encoding of a source without one')
                ctx.raises(AttributeError, lambda: ds.endian, 'the byte order of a source without one')
        ctx.raises(TypeError, DelegatingDataset, 'DelegatingDataset() without a source')
        ctx.state('absent')


CHECK = P30()
