import io

from mc.engine import Check
from mc import ref, spaces, sut


class Recorder(io.BytesIO):
    """A write-only, possibly non-empty sink, as a user might supply."""


class P02(Check):
    id = 'P02'
    level = 'model_checking'
    technique = 'bounded-exhaustive exploration of write_segy, each output compared byte for byte with an independent encoder'
    level_note = ('The oracle is an independent encoder with field positions frozen from the SEG-Y rev 1 standard; complete '
                  'within the bounded space of files.')
    rule = ('A case is one dataset and configuration from spaces.file_specs; the bytes written are compared with the '
            'reference encoding. Distinct states are distinct files.')
    assumptions = ('the frozen field table mc/fields.json is right', 'float32 NaN payloads are not compared')

    def cases(self, tier):
        yield from spaces.MANY
        for spec in spaces.file_specs(tier):
            yield spec
        # Samples which are IBMFloats of every kind, the unnormalised ones too, and floats of every exponent
        yield from spaces.pattern_specs()
        # The encoding and the byte order left to their defaults
        for fmt in spaces.FMTS:
            for enc in spaces.ENCODINGS:
                for has in (True, False):
                    for ext in spaces.EXT:
                        yield dict(fmt=fmt, enc=enc if has else 'ascii', lens=[2, 0, 1], ext=ext, default=True, has=has)

    def run_many(self, spec, ctx):
        model, headers, samples, expected = spaces.many(spec['many'], spec['geometry'], spec['odd'], spec['endian'])
        model = model.replaced(traces=list(zip(headers, samples)))
        data = sut.write_bytes(sut.MemDataset(model), encoding='ascii', endian=spec['endian'])
        ctx.transition()
        ctx.state(data)
        if data != expected:
            ctx.fail(explain(model, data, expected))
        ctx.trace()
        ctx.sample(spec)

    def run(self, spec, ctx):
        if 'many' in spec:
            return self.run_many(spec, ctx)
        model = spaces.build(spec)
        dataset = sut.MemDataset(model, with_encoding=spec.get('has', True), style=spec.get('style', 'fresh'))
        if spec.get('default'):
            kw = {}
        else:
            kw = dict(encoding=model.encoding, endian=model.endian, trace_header_format=sut.TRACE_FORMATS[model.kind])
        data = sut.write_bytes(dataset, **kw)
        ctx.transition()
        ctx.state(data)
        expected = model.to_bytes()
        if data != expected:
            ctx.fail(explain(model, data, expected))
        ctx.trace()
        ctx.sample(spec)


def explain(model, data, expected):
    if len(data) != len(expected):
        return 'the file has {} bytes instead of {}'.format(len(data), len(expected))
    at = next(i for i, (x, y) in enumerate(zip(data, expected)) if x != y)
    where = 'textual header' if at < 3200 else None
    if where is None and at < 3600:
        names = [f[0] for f in ref.REEL_FIELDS if f[1] - 1 <= at < f[1] - 1 + f[2]]
        where = 'binary reel header byte {} {}'.format(at + 1, names)
    offsets, end = model.offsets()
    if where is None and (not offsets or at < offsets[0]):
        where = 'extended textual header'
    if where is None:
        i = max(k for k, o in enumerate(offsets) if o <= at)
        rel = at - offsets[i]
        if rel < 240:
            names = [f[0] for f in ref.fields_of(model.kind) if f[1] - 1 <= rel < f[1] - 1 + f[2]]
            where = 'trace {} header byte {} {}'.format(i, rel + 1, names)
        else:
            size = ref.FORMATS[model.fmt][2]
            where = 'trace {} sample {}'.format(i, (rel - 240) // size)
    return 'byte {} ({}) is {:#04x} instead of {:#04x}'.format(at, where, data[at], expected[at])


CHECK = P02()
