import contextlib
import io
import itertools
import json
import os
import shutil
import subprocess
import sys

from segpy import cli

from mc.engine import Check, REPO
from mc import spaces, sut

DESCRIPTION = {1: 'IBM 32 bit float', 2: '32 bit signed integer', 3: '16 bit signed integer', 5: 'IEEE float32', 8: '8 bit signed integer (byte)'}
GEOMETRY = {'3d': [[1, 1, 5], [1, 2, 5], [2, 1, 5]], '2d': [[1, 1, 5], [1, 1, 7], [1, 1, 6]], 'neither': [[1, 1, 5], [1, 1, 5], [1, 1, 6]],
            'both': [[4, 1, 5], [2, 1, 6], [4, 9, 9]], 'far': [[-1, 2 ** 31 - 1, -5], [-2 ** 31, 1, 5], [0, 0, 0]]}
NAMES = ('a.segy', 'with space.sgy', 'noext', 'ünïcode.segy', 'odd -- name.segy', "quote'd \"name\".segy", 'sub/dir/b.segy')


class Exited(Exception):
    pass


class P27(Check):
    id = 'P27'
    technique = 'bounded-exhaustive execution of the command line over files, commands and histories of runs, against the format model'
    level_note = ('Both commands on every sample format, encoding, page arrangement, revision, geometry and number of traces, with every '
                  'history of up to three runs (thorough four) on one file, also when replaced between runs, and as python -m segpy.')
    rule = ('A state is a file and the history of runs on it; a transition is one run. What is printed must state the facts of the file '
            'as the model has them.')

    def cases(self, tier):
        n = 4 if tier == 'thorough' else 3
        k = 0
        for fmt, enc, ext in itertools.product(spaces.FMTS, spaces.ENCODINGS, spaces.EXT):
            for geometry in list(GEOMETRY) + [None]:
                k += 1
                lens = [k % 4, (k + 2) % 5, 1] if geometry else [(k % 9)] * (k % 3)
                yield dict(kind='runs', spec=dict(fmt=fmt, enc=enc, ext=ext, lens=lens, geometry=GEOMETRY.get(geometry), k=k % 50,
                                                  reel={'format_revision_num': (0, 1, 100, 256)[k % 4]}), runs=['metadata', 'report'])
        for runs in itertools.chain.from_iterable(itertools.product(('metadata', 'report', 'replace'), repeat=r) for r in range(1, n + 1)):
            for name in NAMES[:2]:
                yield dict(kind='runs', spec=dict(fmt=3, lens=[1, 4], k=1), runs=list(runs), name=name)
        for count in list(range(20)) + [100, 1000]:
            yield dict(kind='runs', spec=dict(fmt=8, lens=[1 + i % 3 for i in range(count)]), runs=['report', 'metadata'])
        for n in (0, 1, 255, 256, 32767):
            yield dict(kind='runs', spec=dict(fmt=8, lens=[1, n, 0]), runs=['metadata', 'metadata', 'report'])
        for j in range(0, 95, 5):
            # (the first characters must be such that the encoding can be told)
            yield dict(kind='runs', spec=dict(fmt=2, lens=[1], lines=['C{:2d}{}'.format(i + 1, l[4:]) for i, l in enumerate(spaces.printable_lines(j))]),
                       runs=['report', 'report'])
        # textual headers with blank lines, alone, in runs, and at either end (the first line must let the encoding be told)
        blank = [set(), {1}, {38}, {39}, set(range(1, 40)), set(range(2, 40)), set(range(1, 39)), set(range(1, 40, 2)), set(range(2, 40, 3))]
        blank += [set(range(i, i + 2)) for i in range(1, 39, 4)]
        for gaps, empty in itertools.product(blank, ('C{:2d}', '')):
            lines = [empty.format(i + 1).ljust(80) if i in gaps else 'C{:2d} LINE {} OF THE HEADER'.format(i + 1, i).ljust(80) for i in range(40)]
            yield dict(kind='runs', spec=dict(fmt=2, lens=[1], lines=lines, enc=spaces.ENCODINGS[len(gaps) % 2]), runs=['report'])
        for n in (0, 1, 2, 255, 32767):     # reel headers which say otherwise than the traces
            for revision in (0, 256):
                for lens in ([], [2, 5, 1], [3]):
                    yield dict(kind='runs', spec=dict(fmt=3, lens=lens, reel={'num_samples': n, 'format_revision_num': revision, 'data_traces_per_ensemble': n,
                                                                              'fixed_length_trace_flag': revision != 0}), runs=['metadata', 'report'])
        for name in NAMES:
            for absolute in (False, True):
                yield dict(kind='runs', spec=dict(fmt=5, lens=[2, 2]), runs=['report', 'metadata', 'report'], name=name, absolute=absolute)
        for level in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
            yield dict(kind='runs', spec=dict(fmt=5, lens=[2, 2]), runs=['report', 'metadata'], level=level)
        for command in ('metadata', 'report'):
            yield dict(kind='process', command=command)
            yield dict(kind='missing', command=command)
            for bad in ('BOGUS', 'debug', 'Warning', '', '10', 'WARNINGS', ' INFO'):
                yield dict(kind='unusable', command=command, bad=bad)

    def run(self, case, ctx):
        root = os.path.join(ctx.scratch, 'cli')
        os.makedirs(root)
        here = os.getcwd()
        os.chdir(root)
        try:
            getattr(self, 'do_' + case['kind'])(case, ctx, root)
        finally:
            os.chdir(here)
            shutil.rmtree(root)

    def invoke(self, argv):
        out = io.StringIO()
        from segpy import log
        before = list(log.handlers)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                cli.main(argv)
        except SystemExit as e:
            raise Exited('exit with {!r}'.format(e.code)) from e
        finally:
            log.handlers[:] = before
        return out.getvalue()

    def judge(self, ctx, m, command, filename, text, what):
        view = sut.expected_view(m)
        ctx.transition()
        if command == 'metadata':
            got = json.loads(text)
            want = {'num_traces': view['num_traces'], 'dimensionality': view['dimensionality'], 'data_sample_format': view['type'],
                    'max_num_trace_samples': view['max']}
            ctx.require(isinstance(got, dict), what + ' printed {}', text)
            ctx.equal({k: got.get(k) for k in want}, want, what)
            ctx.require(len(text.strip().splitlines()) == 1, what + ' printed {} lines', len(text.splitlines()))
            return
        begin, end = '=== BEGIN TEXTUAL REEL HEADER ===', '=== END TEXTUAL REEL HEADER ==='
        ctx.require(begin in text and end in text, what + ' shows no textual reel header')
        head, rest = text.split(begin + '\n', 1)
        lines = rest.split('\n' + end, 1)[0].split('\n')
        ctx.equal([l.rstrip() for l in lines], [l[3:].rstrip() for l in view['text']], what + ', textual header')
        after = rest.split('\n' + end, 1)[1]
        for p in m.pages:
            for l in p:
                ctx.require(l.strip() in after, what + ' does not show the line {} of an extended header', l)
        facts = dict(l.split(':', 1) for l in head.splitlines() if ':' in l)
        facts = {k.strip(): v.strip() for k, v in facts.items()}
        want = {'Filename': filename, 'SEG Y revision': str(view['revision']), 'Number of traces': str(view['num_traces']),
                'Data format': DESCRIPTION[m.fmt], 'Dimensionality': str(view['dimensionality'])}
        if 'cdps' in view:
            want['Number of CDPs'] = str(view['num_cdps'])
        if 'lines' in view:
            want['Number of inlines'], want['Number of crosslines'] = map(str, view['counts'])
        for k in ('Number of CDPs', 'Number of inlines', 'Number of crosslines'):
            want.setdefault(k, None)
        ctx.equal({k: facts.get(k) for k in want}, want, what)

    def do_runs(self, case, ctx, root):
        name = case.get('name', 'a.segy')
        path = os.path.join(root, name) if case.get('absolute') else name
        os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
        m = spaces.build(case['spec'])
        other = spaces.build(dict(case['spec'], k=7, lens=[3, 1, 2, 2], geometry=None))
        with open(path, 'wb') as f:
            f.write(m.to_bytes())
        for i, command in enumerate(case['runs']):
            if command == 'replace':
                m, other = other, m
                with open(path, 'wb') as f:
                    f.write(m.to_bytes())
                continue
            argv = ['--log-level=' + case['level']] if 'level' in case else []
            argv += [command] + [path]
            text = ctx.call(lambda: self.invoke(argv), 'run {} ({})'.format(i, argv))
            self.judge(ctx, m, command, path, text, 'run {} ({}) of {}'.format(i, argv, case['spec']))
            ctx.state((repr(case['spec']), tuple(case['runs'][:i + 1]), name))
        with open(path, 'rb') as f:
            ctx.require(f.read() == m.to_bytes(), 'the file was changed by the command line')
        ctx.trace()
        ctx.sample(case)

    def do_process(self, case, ctx, root):
        m = spaces.build(dict(fmt=5, lens=[2, 2], ext='one'))
        with open('a.segy', 'wb') as f:
            f.write(m.to_bytes())
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf8')
        for _ in range(2):
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'segpy', case['command'], 'a.segy'], env=env, capture_output=True, text=True,
                               cwd=root)
            ctx.equal(p.returncode, 0, 'exit status of python -m segpy ' + case['command'])
            self.judge(ctx, m, case['command'], 'a.segy', p.stdout, 'python -m segpy ' + case['command'])
        ctx.state(('process', case['command']))
        ctx.trace()

    def do_unusable(self, case, ctx, root):
        """A log level which is none is refused with a non-zero status, nothing having been done."""
        m = spaces.build(dict(fmt=5, lens=[2, 2], ext='one'))
        with open('a.segy', 'wb') as f:
            f.write(m.to_bytes())
        argv = ['--log-level=' + case['bad'], case['command'], 'a.segy']
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                status = cli.main(argv)
            except SystemExit as e:
                status = e.code
        ctx.require(status not in (None, 0, False), 'segpy {} has status {!r}', argv, status)
        ctx.equal(out.getvalue(), '', 'what segpy {} prints'.format(argv))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf8')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'segpy'] + argv, env=env, capture_output=True, text=True, cwd=root)
        ctx.require(p.returncode != 0, 'python -m segpy {} has status 0', argv)
        ctx.equal(p.stdout, '', 'what python -m segpy {} prints'.format(argv))
        ctx.equal(os.listdir('.'), ['a.segy'], 'the files after segpy {}'.format(argv))
        ctx.transition(2)
        ctx.state(('unusable', case['command'], case['bad']))
        ctx.trace()

    def do_missing(self, case, ctx, root):
        ctx.raises((OSError, Exited), lambda: self.invoke([case['command'], 'absent.segy']), case['command'] + ' of a file which does not exist')
        with open('short.segy', 'wb') as f:
            f.write(b'x' * 3599)
        ctx.raises((ValueError, Exited), lambda: self.invoke([case['command'], 'short.segy']), case['command'] + ' of a file which is too short')
        ctx.transition(2)
        ctx.state(('missing', case['command']))


CHECK = P27()
