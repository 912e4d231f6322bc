import itertools
import pickle

from segpy.dataset import DelegatingDataset

from mc.engine import Check
from mc import ref, spaces, sut

# A step of a chain: how the current file is opened and then written out again.
TARGETS = [(enc, endian) for enc in spaces.ENCODINGS for endian in spaces.ENDIANS]
STEPS = [{'enc': e, 'endian': b, 'via': v} for e, b in TARGETS for v in ('direct', 'delegate')]
STEPS += [{'enc': None, 'endian': None, 'via': 'direct'}, {'enc': None, 'endian': None, 'via': 'delegate'},
          {'enc': None, 'endian': '<', 'via': 'delegate'}, {'enc': 'cp037', 'endian': None, 'via': 'direct'}]


class P04(Check):
    id = 'P04'
    level = 'model_checking'
    technique = 'explicit exploration of all bounded paths in the conversion graph of files, executed on the real code'
    level_note = ('Every path of conversions to the depth bound is executed; each file of the chain must equal the reference '
                  'encoding of the unchanged content. Contents are a finite set covering formats and boundaries.')
    rule = ('A case is a content, a starting encoding and byte order, and a sequence of conversion steps; states are the '
            'distinct files reached, transitions the conversions executed.')

    def cases(self, tier):
        depth = 3 if tier == 'quick' else 4
        contents = []
        for fmt in spaces.FMTS:
            contents.append(dict(fmt=fmt, lens=[2, 0, 3], ext='end', k=3))
        contents.append(dict(fmt=1, lens=[20], ext='none', k=6))
        contents.append(dict(fmt=3, lens=[1], kind='trace0', ext='two', reel=dict(format_revision_num=0)))
        contents.append(dict(fmt=2, lens=[], ext='one', printable=0))
        contents.append(dict(fmt=5, lens=[21, 1], printable=40))
        contents.append(dict(fmt=2, lens=[1], codes='ascii'))
        contents.extend(dict(fmt=2, lens=[1], runs='ascii', k=k) for k in range(16))
        for c, open_ended in (('\0', False), ('\0', True), (' ', True), ('\n', False)):
            contents.append(dict(fmt=3, lens=[1], uniform=dict(names=['page', 'uniform', 'page'], c=c, open_ended=open_ended)))
        contents.append(dict(fmt=8, lens=[6], hdr={f[0]: f[4] if f[5] is None else max(f[5]) for f in ref.TRACE1_FIELDS
                                                   if f[0] != 'num_samples'}))
        contents.append(dict(fmt=8, lens=[6], hdr={f[0]: f[3] if f[5] is None else min(f[5]) for f in ref.TRACE1_FIELDS
                                                   if f[0] != 'num_samples'}))
        contents.extend(dict(c, endian='>') for c in spaces.pattern_specs(16 if tier == 'thorough' else 64))
        for c in contents:
            for enc, endian in TARGETS:
                for n in range(1, depth + 1):
                    for steps in itertools.product(range(len(STEPS)), repeat=n):
                        if n > 2 and tier == 'quick' and (c is not contents[(steps[0] + steps[-1]) % len(contents)]):
                            continue
                        if n > 3 and c is not contents[(steps[0] + 3 * steps[1] + steps[-1]) % len(contents)]:
                            continue
                        yield dict(content=c, enc=enc, endian=endian, steps=list(steps))

    def run(self, case, ctx):
        model = spaces.build(dict(case['content'], enc=case['enc'], endian=case['endian']))
        data = model.to_bytes()
        ctx.state(data)
        form = sut.TRACE_FORMATS[model.kind]
        for s in case['steps']:
            step = STEPS[s]
            reader = sut.open_reader(data, encoding=model.encoding, endian=model.endian, trace_header_format=form)
            source = DelegatingDataset(reader) if step['via'] == 'delegate' else reader
            kw = {'trace_header_format': form}
            if step['enc'] is not None:
                kw['encoding'] = step['enc']
            if step['endian'] is not None:
                kw['endian'] = step['endian']
            data = sut.write_bytes(source, **kw)
            model = model.replaced(encoding=step['enc'] or model.encoding, endian=step['endian'] or '>')
            ctx.transition()
            ctx.state(data)
            expected = model.to_bytes()
            if data != expected:
                from checks.p02 import explain
                ctx.fail('after converting to {} {}: {}'.format(model.encoding, model.endian,
                                                               explain(model, data, expected)))
        ctx.trace()
        ctx.sample(case)


CHECK = P04()
