import io

from mc.engine import Check
from mc import ref, spaces, sut


class P01(Check):
    id = 'P01'
    level = 'model_checking'
    technique = 'bounded-exhaustive exploration of write/read/rewrite histories of the real code against a reference model'
    level_note = ('Complete within the stated bounds on files (all configurations x trace length vectors, every header '
                  'field at every boundary value, lengths to 32767, hundreds of traces); values outside the boundary '
                  'sets are not covered.')
    rule = ('A case is one dataset and configuration from spaces.file_specs; write_segy -> create_reader -> write_segy '
            'is executed and each of the three states compared with the model. Distinct states are distinct file '
            'contents or reader views.')
    assumptions = ('float32 NaN payloads are not compared', 'files are held in memory (BytesIO)')

    def cases(self, tier):
        return spaces.file_specs(tier)

    def run(self, spec, ctx):
        model = spaces.build(spec)
        dataset = sut.MemDataset(model, style=spec.get('style', 'fresh'))
        kw = dict(encoding=model.encoding, endian=model.endian, trace_header_format=sut.TRACE_FORMATS[model.kind])
        data = sut.write_bytes(dataset, **kw)
        ctx.state(data)
        ctx.transition()
        reader = sut.open_reader(data, **kw)
        view = sut.observe_reader(reader)
        ctx.transition()
        problem = sut.diff(view, sut.expected_view(model))
        ctx.require(problem is None, 'read back differs: {}', problem)
        again = sut.write_bytes(reader, **kw)
        ctx.transition()
        ctx.state(again + b'again')
        ctx.require(again == data, 'rewriting the reader gave different bytes at {}', _where(again, data))
        ctx.trace()
        ctx.sample(spec)


def _where(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'offset %d (%d instead of %d)' % (i, x, y)
    return 'length %d instead of %d' % (len(a), len(b))


CHECK = P01()
