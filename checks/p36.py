import contextlib
import importlib.util
import io
import itertools
import os
import re
import runpy
import shutil

import numpy as np

from mc.engine import Check, REPO
from mc import ref, spaces

from checks import p27

F32_MAX = 3.4028234663852886e38
VALUES = {1: [0.0, 1.0, -1.0, 2.5, -118.625, 0.0625, 4096.0, -100.25, 30000.0, 0.5],
          2: [0, 1, -1, 2, 100, -100, 1000000, -1000000, 7, 32767],
          3: [0, 1, -1, 100, -100, 20000, -20000, 7, 32767, -32768],
          5: [0.0, 1.0, -1.0, 2.5, -118.625, 0.0625, 4096.0, -100.25, 30000.0, 0.5, F32_MAX, -F32_MAX, spaces.f32(3.402823e38), spaces.f32(3e38)],
          8: [0, 1, -1, 100, -100, 127, -128, 64, -64, 7]}
INTEGER = {2: (-2 ** 31, 2 ** 31 - 1), 3: (-32768, 32767), 8: (-128, 127)}
CODES = {'ibm': 1, 'int32': 2, 'int16': 3, 'float32': 5, 'int8': 8}
FACTORS = (2.0, 0.5, -1.0, 0.0, 16.0, 1.0, -0.25)
COORDINATES = (0, 1, -7, 1000, -2 ** 20, 2 ** 26)
DTYPES = {1: 'f4', 2: 'i4', 3: 'i2', 5: 'f4', 8: 'i1'}
GRIDS = {'3d': [[1, 1, 5], [1, 2, 5], [2, 1, 5]], 'full': [[1, 1, 5], [1, 2, 5], [2, 1, 5], [2, 2, 5]],
         'odd': [[9, -3, 5], [-4, 12, 5], [9, 12, 5]], '2d': [[1, 1, 5], [1, 1, 7], [1, 1, 6]]}
PROGRAMS = ('loadsave', 'convert_sample_type', 'scale_samples', 'scale_source_coords', 'timeslice', 'trace_positions', 'custom_header', 'report',
            'timed_reader')
HOMES = ('examples', os.path.join('segpy-ext', 'segpy_numpy', 'examples'))
FIELDS = ('ensemble_num', 'inline_number', 'crossline_number', 'num_samples', 'line_sequence_num', 'cdp_x', 'trace_identification_code')
# the steps of the histories: program and arguments
STEPS = [('loadsave',), ('scale_samples', '2.0'), ('scale_samples', '0.5'), ('scale_samples', '-1'), ('scale_source_coords', '2.0'),
         ('scale_source_coords', '-1.0'), ('convert_sample_type', 'float32'), ('convert_sample_type', 'int16'), ('convert_sample_type', 'int8'),
         ('convert_sample_type', 'ibm')]


class P36(Check):
    id = 'P36'
    technique = 'bounded-exhaustive execution of the example programs, alone and in chains, against the format model'
    level_note = ('Every example program (but for one with fixed paths) on files of every sample format, '
                  'encoding, page arrangement and geometry with every argument of a small set, and every chain of two (thorough four) of the '
                  'programs which transform files.')
    rule = ('A state is a file made by a chain of programs, with what is said about it; a transition is one run of a program. Outputs '
            'must be the encoding by the reference model of the content transformed as the program documents.')

    def __init__(self):
        self.programs = {}

    def cases(self, tier):
        thorough = tier == 'thorough'
        k = 0
        for fmt, enc, ext in itertools.product(spaces.FMTS, spaces.ENCODINGS, spaces.EXT):
            for lens in ([], [3], [2, 4], [5, 1, 3], [1, 2, 3, 4, 5]):
                k += 1
                yield dict(kind='run', spec=self.spec(fmt, lens, k, enc=enc, ext=ext), step=['loadsave'])
                yield dict(kind='run', spec=self.spec(fmt, lens, k, enc=enc, ext=ext), step=['scale_samples', str(FACTORS[k % len(FACTORS)])])
                yield dict(kind='run', spec=self.spec(fmt, lens, k, enc=enc, ext=ext), step=['scale_source_coords', str(FACTORS[k % len(FACTORS)])])
                yield dict(kind='run', spec=self.spec(fmt, lens, k, enc=enc, ext=ext), step=['convert_sample_type', list(CODES)[k % 5]])
                yield dict(kind='said', spec=self.spec(fmt, lens, k, enc=enc, ext=ext))
        for fmt, factor in itertools.product(spaces.FMTS, FACTORS):
            for step in ('scale_samples', 'scale_source_coords'):
                yield dict(kind='run', spec=self.spec(fmt, [14, 10], 0), step=[step, str(factor)])
        for fmt, target in itertools.product(spaces.FMTS, CODES):
            yield dict(kind='run', spec=self.spec(fmt, [10, 3, 10], 0), step=['convert_sample_type', target])
        for n in (0, 1, 255, 1000, 32767):
            yield dict(kind='run', spec=self.spec(8, [n, 1], 3), step=['loadsave'])
        for count in (10, 99, 100, 101, 257):
            yield dict(kind='run', spec=self.spec(3, [i % 3 for i in range(count)], 3), step=['loadsave'])
            yield dict(kind='run', spec=self.spec(3, [i % 3 for i in range(count)], 3), step=['scale_source_coords', '2'])
        for grid, fmt in itertools.product(GRIDS, spaces.FMTS):
            for lens in ([4, 4, 4, 4], [1, 4, 2, 3]):
                for at in (-1, 0, 1, 3, 4):
                    for null, dtype in ((None, None), ('-7', None), (None, 'f8'), ('42.5', 'd'), ('3', 'i4')):
                        if (fmt, dtype) == (5, 'i4'):
                            continue        # (the greatest samples do not fit)
                        yield dict(kind='slice', spec=self.spec(fmt, lens[:len(GRIDS[grid])], 1, geometry=GRIDS[grid]), at=at, null=null, dtype=dtype)
            for lens, null in itertools.product(([4, 4, 4, 4], [1, 4, 2, 3], [0, 2, 0, 0]), (None, '-7', '42')):
                s = self.spec(fmt, lens[:len(GRIDS[grid])], 1, geometry=GRIDS[grid])
                for number in sorted({i for i, _, _ in GRIDS[grid]} | {0, 77}):
                    yield dict(kind='inline', spec=s, number=number, null=null)
                for name in FIELDS[fmt % 2::2]:
                    yield dict(kind='field', spec=s, name=name, null=null)
            for revision in (0, 1, 256):
                yield dict(kind='said', spec=self.spec(fmt, [2, 1, 3, 1][:len(GRIDS[grid])], 1, geometry=GRIDS[grid], reel={'format_revision_num': revision}))
        for n in (0, 32767, 32768, 40000, 65535):
            yield dict(kind='unsigned', spec=self.spec(3, [2, 1], 1), n=n)
        for fmt, (j, lens) in itertools.product(spaces.FMTS, enumerate(([], [1], [2, 0, 3], [3, 3, 3, 3], [1] * 12))):
            yield dict(kind='equal', spec=self.spec(fmt, lens, j, ext=('none', 'two', 'end')[j % 3], enc=spaces.ENCODINGS[j % 2]))
        yield dict(kind='refused')
        for fmt, first in itertools.product((1, 3), range(len(STEPS))):
            for rest in itertools.product(range(len(STEPS)), repeat=3 if thorough else 1):
                yield dict(kind='chain', spec=self.spec(fmt, [4, 0, 10], 2, geometry=GRIDS['odd']), steps=[first] + list(rest))

    def spec(self, fmt, lens, k, **kw):
        values = VALUES[fmt]
        return dict(fmt=fmt, lens=lens, k=k % 97, values=[[values[(k + 3 * t + i) % len(values)] for i in range(n)] for t, n in enumerate(lens)],
                    hdrs={str(t): dict(source_x=COORDINATES[(k + t) % 6], source_y=COORDINATES[(k + 2 * t + 1) % 6], cdp_x=k * 1000 - t, cdp_y=-t)
                          for t in range(len(lens))}, **kw)

    def program(self, name):
        if name not in self.programs:
            spec = importlib.util.spec_from_file_location('segpy_example_' + name, next(
                p for p in (os.path.join(REPO, d, name + '.py') for d in HOMES) if os.path.exists(p)))
            module = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(module)
            self.programs[name] = module
        return self.programs[name]

    def invoke(self, ctx, name, argv):
        """(status, standard output)"""
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                status = self.program(name).main(list(argv))
            except SystemExit as e:
                status = e.code
        ctx.transition()
        return status, out.getvalue()

    def run(self, case, ctx):
        root = os.path.join(ctx.scratch, 'examples')
        os.makedirs(root)
        here = os.getcwd()
        os.chdir(root)
        try:
            getattr(self, 'do_' + case['kind'])(case, ctx)
        finally:
            os.chdir(here)
            shutil.rmtree(root)
        ctx.sample(case)

    def transformed(self, m, step):
        """The model of what a program makes, or None where it refuses."""
        program, *args = step
        if program == 'loadsave':
            return m
        if program == 'scale_source_coords':
            factor = float(args[0])
            return m.replaced(traces=[(dict(h, source_x=int(h['source_x'] * factor), source_y=int(h['source_y'] * factor)), s) for h, s in m.traces])
        if program == 'scale_samples':
            fmt, change = m.fmt, lambda v: v * float(args[0])
        else:
            if m.fmt != 1:
                return None
            fmt, change = CODES[args[0]], lambda v: v
        if fmt in INTEGER:
            lo, hi = INTEGER[fmt]
            final = lambda v: max(lo, min(hi, int(change(v))))
        else:
            top = F32_MAX if fmt == 5 and program == 'scale_samples' else float('inf')
            final = lambda v: max(-top, min(top, float(change(v)))) + (0.0 if fmt == 1 else -0.0)    # (there is one IBM zero)
        return m.replaced(reel=dict(m.reel, data_sample_format=fmt), traces=[(h, [final(v) for v in s]) for h, s in m.traces])

    def step(self, ctx, m, step, source, target, what):
        """Run one program; returns the model of the output, or None if it refused as it should."""
        before = open(source, 'rb').read()
        status, said = self.invoke(ctx, step[0], list(step[1:]) + [source, target])
        expected = self.transformed(m, step)
        with open(source, 'rb') as f:
            ctx.require(f.read() == before, what + ': the input was changed')
        if expected is None:
            ctx.require(status not in (0, None), what + ': expected to be refused')
            return None
        ctx.equal(status, 0, what + ', exit status')
        with open(target, 'rb') as f:
            got = f.read()
        want = expected.to_bytes()
        if got != want:
            at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            ctx.fail('{}: {} bytes rather than {}; the first difference is at byte {}'.format(what, len(got), len(want), at))
        percents = {}
        for line in said.splitlines():
            match = re.fullmatch(r'(\w+) : (\d+)%', line)
            ctx.require(match, what + ' said {}', line)
            percents.setdefault(match.group(1), []).append(int(match.group(2)))
        for name, values in percents.items():
            ctx.require(values == sorted(set(values)) and values[0] >= 0 and values[-1] == 100, what + ': progress of {} was {}', name, values)
        ctx.equal(len(percents), 2 if step[0] in ('loadsave', 'scale_source_coords') else 0, what + ', progress indications')
        return expected

    def do_run(self, case, ctx):
        m = spaces.build(case['spec'])
        with open('in.segy', 'wb') as f:
            f.write(m.to_bytes())
        self.step(ctx, m, case['step'], 'in.segy', 'out.segy', str(case['step']))
        ctx.state((repr(case['spec']), tuple(case['step'])))
        ctx.trace()

    def do_chain(self, case, ctx):
        m = spaces.build(case['spec'])
        with open('0.segy', 'wb') as f:
            f.write(m.to_bytes())
        done = []
        at = 0
        for n, i in enumerate(case['steps'], 1):
            done.append(STEPS[i])
            after = self.step(ctx, m, STEPS[i], '%d.segy' % at, '%d.segy' % n, str(done))
            if after is not None:
                m, at = after, n
            self.say(ctx, m, '%d.segy' % at, 'after ' + str(done))
            ctx.state((repr(case['spec']), tuple(case['steps'][:n])))
        ctx.trace()

    def say(self, ctx, m, name, what):
        """The programs which tell something about a file."""
        for program in ('report', 'custom_header'):
            status, said = self.invoke(ctx, program, [name])
            ctx.equal(status, 0, '{}: status of {}'.format(what, program))
            p27.CHECK.judge(ctx, m, 'report', name, said, '{}: {}'.format(what, program))
        status, said = self.invoke(ctx, 'trace_positions', [name])
        ctx.equal((status, said.splitlines()), (0, ['{} ({}, {})'.format(i, h['cdp_x'], h['cdp_y']) for i, (h, _) in enumerate(m.traces)]),
                  what + ': trace_positions')
        status, said = self.invoke(ctx, 'timed_reader', [name])
        ctx.equal((status, re.sub(r'[-+.\de]+ seconds', '', said).split(':')), (0, ['Time to read headers ', ' \nTime to read traces  ', ' \nTotal time           ', ' \n']),
                  what + ': timed_reader')

    def do_said(self, case, ctx):
        m = spaces.build(case['spec'])
        with open('in.segy', 'wb') as f:
            f.write(m.to_bytes())
        self.say(ctx, m, 'in.segy', 'said of {}'.format(case['spec']))
        with open('in.segy', 'rb') as f:
            ctx.require(f.read() == m.to_bytes(), 'the file was changed')
        ctx.state(('said', repr(case['spec'])))
        ctx.trace()

    def do_unsigned(self, case, ctx):
        m = spaces.build(case['spec'])
        data = bytearray(m.to_bytes())
        data[3220:3222] = case['n'].to_bytes(2, 'big')
        with open('in.segy', 'wb') as f:
            f.write(data)
        status, said = self.invoke(ctx, 'custom_header', ['in.segy'])
        ctx.equal(status, 0, 'status of custom_header with {} samples in the reel header'.format(case['n']))
        p27.CHECK.judge(ctx, m, 'report', 'in.segy', said, 'custom_header with {} samples in the reel header'.format(case['n']))
        with open('in.segy', 'rb') as f:
            module = self.program('custom_header')
            reader = module.create_reader(f, binary_reel_header_format=module.CustomBinaryReelHeader)
            ctx.equal(int(reader.binary_reel_header.num_samples), case['n'], 'num_samples of the custom reel header')
        ctx.state(('unsigned', case['n']))
        ctx.trace()

    def do_equal(self, case, ctx):
        """check_equal.py copies a file of a fixed name, with the bytes rev 1 leaves unassigned at the end of the trace headers."""
        m = spaces.build(case['spec'])
        data = bytearray(m.to_bytes())
        offsets = m.offsets()[0]
        for t, o in enumerate(offsets):
            data[o + 232:o + 240] = bytes((200 * t + 37 * k + 129) % 256 for k in range(8))
        os.mkdir('data')
        with open('data/rth.segy', 'wb') as f:
            f.write(data)
        out = io.StringIO()
        path = next(p for p in (os.path.join(REPO, d, 'check_equal.py') for d in HOMES) if os.path.exists(p))
        with contextlib.redirect_stdout(out):
            made = ctx.call(lambda: runpy.run_path(path, run_name='__main__'), 'check_equal.py')
        for f in made.values():
            if isinstance(f, io.IOBase):
                f.close()
        ctx.transition()
        ctx.state(bytes(data))
        with open('data/rth_out2.segy', 'rb') as f:
            ctx.require(f.read() == bytes(data), 'the copy made by check_equal.py of {} differs', case['spec'])
        with open('data/rth.segy', 'rb') as f:
            ctx.require(f.read() == bytes(data), 'check_equal.py changed its input')
        ctx.equal(out.getvalue().split('\n'), ['{} {}'.format(t, hex(o)) for t, o in enumerate(offsets)] + [''], 'what check_equal.py prints')
        ctx.trace()

    def do_slice(self, case, ctx):
        m = spaces.build(case['spec'])
        with open('in.segy', 'wb') as f:
            f.write(m.to_bytes())
        argv = ['in.segy', 'out.npy']
        argv += ['--null=' + case['null']] if case['null'] else []
        argv += ['--dtype=' + case['dtype']] if case['dtype'] else []
        argv += ['--', str(case['at'])]
        status, _ = self.invoke(ctx, 'timeslice', argv)
        kind, index = ref.survey(m.traces)
        what = 'timeslice {} of {}'.format(argv, case['spec'])
        if kind != 3 or not 0 <= case['at'] < max(len(s) for _, s in m.traces):
            ctx.require(status not in (0, None), what + ': expected to be refused')
            ctx.require(not os.path.exists('out.npy'), what + ': an output was made')
        else:
            ctx.equal(status, 0, what + ', status')
            array = np.load('out.npy')
            ils, xls = sorted({i for i, _ in index}), sorted({j for _, j in index})
            want = np.full((len(ils), len(xls)), float(case['null'] or 0), case['dtype'] or DTYPES[m.fmt])
            for (i, j), t in index.items():
                values = m.traces[t][1]
                if case['at'] < len(values):
                    want[ils.index(i), xls.index(j)] = values[case['at']]
            ctx.equal((array.dtype, array.shape, array.tolist()), (want.dtype, want.shape, want.tolist()), what)
        ctx.state((repr(case['spec']), case['at'], case['null'], case['dtype']))
        ctx.trace()

    def do_inline(self, case, ctx):
        m = spaces.build(case['spec'])
        with open('in.segy', 'wb') as f:
            f.write(m.to_bytes())
        argv = (['--null=' + case['null']] if case['null'] else []) + ['in.segy', 'out.npy', str(case['number'])]
        status, _ = self.invoke(ctx, 'extract_inline', argv)
        kind, index = ref.survey(m.traces)
        what = 'extract_inline {} of {}'.format(argv, case['spec'])
        if kind != 3 or case['number'] not in {i for i, _ in index}:
            ctx.require(status not in (0, None) and not os.path.exists('out.npy'), what + ': expected to be refused')
        else:
            xls = sorted({j for _, j in index})
            want = np.full((len(xls), max(len(s) for _, s in m.traces)), float(case['null'] or 0), DTYPES[m.fmt])
            for (i, j), t in index.items():
                if i == case['number']:
                    for k, v in enumerate(m.traces[t][1]):
                        want[xls.index(j), k] = v
            got = open('out.npy', 'rb').read() if os.path.exists('out.npy') else None
            if case['null'] is not None and (status, got) == (0, want.tobytes()):
                ctx.fail(what + ': the output is no NPY file but the bare samples', key='extract_inline writes bare samples')
            elif case['null'] is None and status == os.EX_SOFTWARE and not got:
                ctx.fail(what + ': fails as a masked array can not be written', key='extract_inline without a null writes nothing')
            else:
                ctx.equal(status, 0, what + ', status')
                array = np.load('out.npy')
                ctx.equal((array.dtype, array.shape, array.tolist()), (want.dtype, want.shape, want.tolist()), what)
        ctx.state((repr(case['spec']), case['number'], case['null'], 'inline'))
        ctx.trace()

    def do_field(self, case, ctx):
        m = spaces.build(case['spec'])
        with open('in.segy', 'wb') as f:
            f.write(m.to_bytes())
        argv = (['--null=' + case['null']] if case['null'] else []) + ['in.segy', 'out.npy', case['name']]
        status, _ = self.invoke(ctx, 'extract_trace_header_field', argv)
        kind, index = ref.survey(m.traces)
        what = 'extract_trace_header_field {} of {}'.format(argv, case['spec'])
        if kind != 3:
            ctx.require(status not in (0, None) and not os.path.exists('out.npy'), what + ': expected to be refused')
        else:
            if not os.path.exists('out.npy') and status == (0 if case['null'] is None else os.EX_SOFTWARE):
                ctx.fail(what + ': no output is written', key='extract_trace_header_field writes nothing')
                ctx.state((repr(case['spec']), case['name'], case['null']))
                return
            ctx.equal(status, 0, what + ', status')
            array = np.load('out.npy')
            ils, xls = sorted({i for i, _ in index}), sorted({j for _, j in index})
            want = [[int(m.traces[index[i, j]][0][case['name']]) if (i, j) in index else int(case['null'] or 0) for j in xls] for i in ils]
            ctx.equal(array.tolist(), want, what)
        ctx.state((repr(case['spec']), case['name'], case['null']))
        ctx.trace()

    def do_refused(self, case, ctx):
        with open('short.segy', 'wb') as f:
            f.write(b'x' * 3599)
        os.mkdir('directory')
        with open('good.segy', 'wb') as f:
            f.write(spaces.build(self.spec(1, [2], 1)).to_bytes())
        first = {'convert_sample_type': ['float32'], 'scale_samples': ['2'], 'scale_source_coords': ['2']}
        for name in PROGRAMS:
            args = first.get(name, [])
            rest = {'timeslice': ['out', '0']}.get(name, ['out'] if args or name == 'loadsave' else [])
            for n in range(len(args) + (1 if rest[:1] == ['out'] and name != 'timeslice' else 0) + 1):
                status, _ = self.invoke(ctx, name, (args + ['good.segy'] + rest)[:n])
                if n < len(args + ['good.segy'] + rest):
                    ctx.require(status not in (0, None), '{} with {} arguments: status {}', name, n, status)
            for source in ('absent.segy', 'directory', 'short.segy'):
                status, _ = self.invoke(ctx, name, args + [source] + rest)
                want = (os.EX_SOFTWARE,) if source == 'short.segy' else (os.EX_NOINPUT,)
                ctx.require(status in want, '{} of {}: status {}', name, source, status)
                if source == 'absent.segy':
                    ctx.require(not os.path.exists('out'), '{} of a file which does not exist made an output', name)
                if os.path.exists('out'):
                    os.remove('out')
        for argv in (['int17', 'good.segy', 'out'], ['float32', 'good.segy', 'good.segy']):
            before = open('good.segy', 'rb').read()
            status, _ = self.invoke(ctx, 'convert_sample_type', argv)
            ctx.equal(status, os.EX_USAGE, 'convert_sample_type {}'.format(argv))
            ctx.require(open('good.segy', 'rb').read() == before and not os.path.exists('out'), 'convert_sample_type {} touched a file', argv)
        for name in ('scale_samples', 'scale_source_coords'):
            status, _ = self.invoke(ctx, name, ['two', 'good.segy', 'out'])
            ctx.equal(status, os.EX_USAGE, name + ' two')
            ctx.require(not os.path.exists('out'), name + ' with an unusable factor made an output')
        ctx.state('refused')
        ctx.trace()


CHECK = P36()
