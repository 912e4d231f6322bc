from mc.engine import Check
from mc import ref, spaces, sut


class P03(Check):
    id = 'P03'
    level = 'model_checking'
    technique = 'bounded-exhaustive exploration of create_reader over independently encoded files against a reference decoder'
    level_note = ('Files are made by an independent encoder and include what segpy never writes: junk in unassigned bytes, '
                  'disagreeing reel sample counts, unnormalised IBM floats. Complete within the stated bounds.')
    rule = ('A case is one file from spaces.file_specs or from the foreign-file space below; everything the reader reports is '
            'compared with the model. Distinct states are distinct files.')
    assumptions = ('the frozen field table mc/fields.json is right', 'float32 NaN payloads are not compared')

    def cases(self, tier):
        yield from spaces.MANY
        fills = (0, 0xff, 0x40, 0x01)
        for i, spec in enumerate(spaces.file_specs(tier)):
            yield dict(spec, fill=fills[i % 4])
        # Foreign files: junk bytes x wrong reel sample counts x fixed-length flag x revisions
        for fmt in spaces.FMTS:
            for endian in spaces.ENDIANS:
                for kind in spaces.KINDS:
                    for fill in (0, 0x40, 0xff):
                        for ns in (0, 1, 3, 32767):
                            for flag in (0, 1):
                                for rev in (0, 1, 100, 256):
                                    yield dict(fmt=fmt, endian=endian, kind=kind, fill=fill, lens=[3, 1, 0, 2],
                                               reel=dict(num_samples=ns, fixed_length_trace_flag=flag,
                                                         format_revision_num=rev))
        # Unnormalised and unusual IBM floats
        firsts = range(256)
        seconds = (0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xff)
        for a in firsts:
            yield dict(fmt=1, lens=[len(seconds) * 3], values=[['%02x%02x%02x%02x' % (a, b, c, d) for b in seconds
                                                                for c, d in ((0, 0), (0, 1), (0xab, 0xcd))]])
        # Alternative sample formats: every bit pattern class of IEEE floats
        for e in range(256):
            yield dict(fmt=5, endian='><'[e % 2], lens=[8], values=[
                ['%08x' % (s << 31 | e << 23 | m) for s in (0, 1) for m in (0, 1, 0x400000, 0x7fffff)]])

    def run_many(self, spec, ctx):
        model, headers, samples, data = spaces.many(spec['many'], spec['geometry'], spec['odd'], spec['endian'])
        reader = sut.open_reader(data, endian=spec['endian'])
        ctx.transition()
        ctx.state(data)
        n = spec['many']
        ctx.equal(reader.num_traces(), n, 'number of traces')
        ctx.require(list(reader.trace_indexes()) == list(range(n)), 'trace_indexes')
        ctx.equal(reader.max_num_trace_samples(), max(1, spec['odd']), 'greatest number of samples')
        ctx.equal(reader.dimensionality, {'lines': 3, 'cdp': 2, 'none': 0}[spec['geometry']], 'dimensionality')
        for i, (h, s) in enumerate(zip(headers, samples)):
            ctx.transition(2)
            if reader.num_trace_samples(i) != len(s) or list(reader.trace_samples(i)) != s:
                ctx.fail('trace {} of {}: {} rather than {}'.format(i, n, list(reader.trace_samples(i)), s))
            if i % 16 == 0 or i > n - 10:
                got = reader.trace_header(i)
                ctx.equal({k: getattr(got, k) for k in h}, h, 'trace header {} of {}'.format(i, n))
            if spec['geometry'] == 'lines':
                ctx.equal(reader.trace_index((h['inline_number'], h['crossline_number'])), i, 'trace of {}'.format(h))
            elif spec['geometry'] == 'cdp':
                ctx.equal(reader.trace_index(h['ensemble_num']), i, 'trace of {}'.format(h))
        ctx.trace()
        ctx.sample(spec)

    def run(self, spec, ctx):
        if 'many' in spec:
            return self.run_many(spec, ctx)
        model = spaces.build(spec)
        data = model.to_bytes(fill=spec.get('fill') or None)
        ctx.state(data)
        kw = dict(encoding=model.encoding, endian=model.endian, trace_header_format=sut.TRACE_FORMATS[model.kind])
        reader = sut.open_reader(data, **kw)
        view = sut.observe_reader(reader)
        ctx.transition()
        problem = sut.diff(view, sut.expected_view(model))
        ctx.require(problem is None, 'the reader disagrees with the file: {}', problem)
        ctx.trace()
        ctx.sample(spec)


CHECK = P03()
