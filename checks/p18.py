import io
import itertools
import os
import shutil
import sys
import types

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt16
from segpy.header import FormatMeta, Header, field
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from mc.engine import Check, VERIF
from mc import ref, spaces, sut

# -- header formats which a user edits between one session and the next, keeping their names -------

FORMATS = types.ModuleType('mc_user_formats')
sys.modules['mc_user_formats'] = FORMATS

OTHER_FORMATS = types.ModuleType('mc_other_formats')
sys.modules['mc_other_formats'] = OTHER_FORMATS


class Outer:
    """Has formats of its own."""


Outer.__module__, Outer.__qualname__ = 'mc_user_formats', 'Outer'
FORMATS.Outer = Outer


def layout(name, start, fields, bases=(Header,), length=240, module='mc_user_formats', qualname=None):
    ns = FormatMeta.__prepare__(name, bases)
    ns['__module__'] = module
    ns['__qualname__'] = qualname or name
    if start is not None:
        ns['START_OFFSET_IN_BYTES'] = start
    if length is not None:
        ns['LENGTH_IN_BYTES'] = length
    for n, t, o, d in fields:
        ns[n] = field(t, o, d, n)
    return FormatMeta(name, bases, ns)


TRACE_LAYOUTS = [
    layout('Layout', 1, [('num_samples', NNInt16, 115, 0), ('ensemble_num', Int32, 21, 0), ('other', Int16, 189, 0)]),
    layout('Layout', 1, [('num_samples', NNInt16, 115, 0), ('ensemble_num', Int32, 9, 0), ('other', Int16, 189, 0)]),
    layout('Layout', 1, [('num_samples', NNInt16, 115, 0), ('ensemble_num', Int32, 21, 0), ('other', Int16, 191, 0)]),
    layout('Layout', 1, [('num_samples', NNInt16, 115, 0), ('ensemble_num', Int16, 21, 0), ('other', Int16, 189, 0)]),
    layout('Layout', 1, [('num_samples', NNInt16, 115, 0), ('cdp', Int32, 21, 0), ('other', Int16, 189, 0)]),
    layout('Layout', 3, [('num_samples', NNInt16, 117, 0), ('ensemble_num', Int32, 21, 0), ('other', Int16, 189, 0)]),
    # as the first, but for the start
    layout('Layout', 0, [('num_samples', NNInt16, 115, 0), ('ensemble_num', Int32, 21, 0), ('other', Int16, 189, 0)]),
]
REEL_LAYOUTS = [layout('Reel', None, [], (BinaryReelHeader,), None),
                layout('Reel', None, [('extra', Int16, 3401, 0)], (BinaryReelHeader,), None),
                layout('Reel', None, [('extra', Int16, 3403, 0)], (BinaryReelHeader,), None)]


# Alike in name and layout, but different classes, which a reader has to keep apart
SAME = [('num_samples', NNInt16, 115, 0), ('ensemble_num', Int32, 21, 0)]
SAME_NAMED = [layout('Same', 1, SAME), layout('Same', 1, SAME, module='mc_other_formats'), layout('Same', 1, SAME, qualname='Outer.Same')]
SAME_REELS = [layout('SameReel', None, [], (BinaryReelHeader,), None), layout('SameReel', None, [], (BinaryReelHeader,), None, 'mc_other_formats'),
              layout('SameReel', None, [], (BinaryReelHeader,), None, qualname='Outer.SameReel')]
for _home, _trace, _reel in zip((FORMATS, OTHER_FORMATS, Outer), SAME_NAMED, SAME_REELS):
    _home.Same, _home.SameReel = _trace, _reel

# -- file contents ----------------------------------------------------------------------------------

SMALL = dict(fmt=3, lens=[2, 3, 1], geometry=[[1, 1, 30], [1, 2, 10], [2, 1, 20]])
CONTENTS = {
    'base': SMALL,
    'sample': dict(SMALL, k=1),
    'header': dict(SMALL, hdrs={'1': {'inline_number': 9}}),
    'cdp': dict(SMALL, hdrs={'2': {'ensemble_num': 31}}),
    'dupline': dict(SMALL, hdrs={'1': {'crossline_number': 1}}),
    'text': dict(SMALL, lines=spaces.text_lines(5)),
    'reel': dict(SMALL, reel={'sample_interval': 77}),
    'longer': dict(SMALL, lens=[2, 3, 1, 2], geometry=SMALL['geometry'] + [[5, 5, 50]]),
    'shorter': dict(SMALL, lens=[2, 3], geometry=SMALL['geometry'][:2]),
    'moved': dict(SMALL, lens=[3, 2, 1]),
    'ext': dict(SMALL, ext='one'),
    'cp037': dict(SMALL, enc='cp037'),
    'little': dict(SMALL, endian='<'),
}
DATA = {k: spaces.build(v).to_bytes() for k, v in CONTENTS.items()}
# What the layouts of the binary reel header differ in is not the same at each place
DATA = {k: v[:3400] + b'\x01\x23\x45\x67' + v[3404:] for k, v in DATA.items()}

BIG = spaces.build(dict(fmt=8, lens=[12000] * 17, k=1)).to_bytes()
BLOCK = 512 * 128


class Counting(io.FileIO):
    """An ordinary binary file which counts reads."""
    reads = 0

    def read(self, *a):
        self.reads += 1
        return super().read(*a)

    def readinto(self, *a):
        self.reads += 1
        return super().readinto(*a)

    def readall(self):
        self.reads += 1
        return super().readall()


def options_of(name):
    kw = {'cache_directory': '.segpy'}
    for part in name.split('+'):
        if part in ('ascii', 'cp037'):
            kw['encoding'] = part
        elif part in '<>':
            kw['endian'] = part
        elif part == 'rev0':
            kw['trace_header_format'] = TraceHeaderRev0
        elif part.startswith('T'):
            FORMATS.Layout = kw['trace_header_format'] = TRACE_LAYOUTS[int(part[1:])]
        elif part.startswith('R'):
            FORMATS.Reel = kw['binary_reel_header_format'] = REEL_LAYOUTS[int(part[1:])]
        elif part.startswith('M'):
            kw['trace_header_format'] = SAME_NAMED[int(part[1:])]
        elif part.startswith('B'):
            kw['binary_reel_header_format'] = SAME_REELS[int(part[1:])]
        elif part.startswith('d'):
            kw['dimensionality'] = int(part[1:])
        elif part == 'abs':
            kw['cache_directory'] = 'ABS'
        elif part == 'nested':
            kw['cache_directory'] = 'deep/er/cache'
        elif part == 'none':
            kw['cache_directory'] = None
        elif part != 'plain':
            raise ValueError(part)
    return kw


def observe(reader):
    """Everything a reader shows, whatever the header formats in use."""
    n = reader.num_traces()
    fmt = int(reader.binary_reel_header.data_sample_format)
    view = {'class': type(reader).__name__, 'text': list(reader.textual_reel_header),
            'reel': (type(reader.binary_reel_header), sut.header_values(reader.binary_reel_header)),
            'pages': [list(p) for p in reader.extended_textual_header], 'indexes': list(reader.trace_indexes()),
            'lengths': [reader.num_trace_samples(i) for i in range(n)], 'max': reader.max_num_trace_samples(),
            'samples': [[outcome_of(reader, i, fmt)] for i in range(n)], 'encoding': reader.encoding, 'endian': reader.endian,
            'dimensionality': reader.dimensionality, 'revision': int(reader.revision)}
    headers = []
    for i in range(n):
        try:
            h = reader.trace_header(i)
            headers.append((type(h), sut.header_values(h)))
        except (EOFError, ValueError) as e:
            headers.append(type(e).__name__)
    view['headers'] = headers
    view.update(sut.observe_index(reader))
    return view


def outcome_of(reader, i, fmt):
    try:
        return sut.samples_of(fmt, reader.trace_samples(i))
    except EOFError:
        return 'EOFError'


def attempt(fh, kw):
    try:
        reader = create_reader(fh, **kw)
    except (ValueError, EOFError, TypeError) as e:
        return None, ('raised', type(e).__name__)
    return reader, ('view', observe(reader))


_fresh = {}


def fresh(data, options, override=None):
    key = (data, options, override)
    if key not in _fresh:
        kw = options_of(options)
        kw['cache_directory'] = None
        if override is not None:
            kw['dimensionality'] = override[0]
        _fresh[key] = attempt(io.BytesIO(data), kw)[1]
    return _fresh[key]


class World:
    FILES = ('a/one.segy', 'b/two.segy')

    def __init__(self, root):
        self.root = root
        for d in ('a', 'b'):
            os.makedirs(os.path.join(root, d))
        self.abs = os.path.join(root, 'cache')
        self.files = {}
        self.dims = {}      # entry path -> dimensionality requested when the entry was made
        self.used = set()   # cache directories which may exist
        self.put(0, 'base')
        self.put(1, 'header')

    def path(self, f):
        return os.path.join(self.root, self.FILES[f])

    def put(self, f, content):
        data = DATA.get(content, content)
        self.files[f] = data
        with open(self.path(f), 'wb') as fh:
            fh.write(data)

    def entries(self):
        out = []
        for base, _, names in os.walk(self.root):
            out += [os.path.join(base, n) for n in names if not n.endswith('.segy')]
        return sorted(out)

    # -- what a user or a crash may do between openings ------------------------------------------
    def mutate(self, op):
        kind, _, arg = op.partition(':')
        if kind == 'put':
            self.put(0, arg)
        elif kind == 'put_b':
            self.put(1, arg)
        elif kind == 'copy':        # the same contents under the other name
            self.put(1, self.files[0])
        elif kind == 'swap':
            a, b = self.files[0], self.files[1]
            os.rename(self.path(0), self.path(0) + 'x')
            os.rename(self.path(1), self.path(0))
            os.rename(self.path(0) + 'x', self.path(1))
            self.files = {0: b, 1: a}
        elif kind == 'move':        # rename over the other, and make a new file under the old name
            os.replace(self.path(0), self.path(1))
            self.files[1] = self.files[0]
            self.put(0, 'cdp')
        elif kind == 'swapdirs':    # files keep their caches but change directory
            for d in ('a', 'b', 'a'):
                pass
            os.rename(os.path.join(self.root, 'a'), os.path.join(self.root, 't'))
            os.rename(os.path.join(self.root, 'b'), os.path.join(self.root, 'a'))
            os.rename(os.path.join(self.root, 't'), os.path.join(self.root, 'b'))
            os.rename(os.path.join(self.root, 'a', 'two.segy'), self.path(0))
            os.rename(os.path.join(self.root, 'b', 'one.segy'), self.path(1))
            self.files = {0: self.files[1], 1: self.files[0]}
        elif kind == 'cut':
            for e in self.entries():
                os.truncate(e, os.path.getsize(e) // 2)
        elif kind == 'empty':
            for e in self.entries():
                os.truncate(e, 0)
        elif kind == 'garbage':
            for e in self.entries():
                with open(e, 'wb') as fh:
                    fh.write(b'\x80\x04garbage')
        elif kind == 'flip':
            for e in self.entries():
                with open(e, 'r+b') as fh:
                    data = bytearray(fh.read())
                    if data:
                        data[len(data) * 2 // 3] ^= 0x10
                    fh.seek(0)
                    fh.write(data)
        elif kind == 'remove':
            for e in self.entries():
                os.remove(e)
        elif kind == 'rmdir':
            for base, dirs, _ in os.walk(self.root):
                for d in list(dirs):
                    if d in ('.segpy', 'deep', 'cache'):
                        shutil.rmtree(os.path.join(base, d))
                        dirs.remove(d)
        elif kind == 'dir_is_file':
            self.mutate('rmdir')
            for d in (os.path.join(self.root, 'a', '.segpy'), self.abs):
                with open(d, 'wb') as fh:
                    fh.write(b'not a directory')
        elif kind == 'entry_is_dir':
            for e in self.entries():
                if os.path.basename(e) not in ('.segpy', 'cache'):
                    os.remove(e)
                    os.mkdir(e)
        else:
            raise ValueError(op)

    def snapshot(self):
        return {p: open(p, 'rb').read() for p in map(self.path, (0, 1))}

    def open(self, op, ctx, done):
        _, f, options = op.split(':')
        f = int(f)
        kw = options_of(options)
        if kw['cache_directory'] == 'ABS':
            kw['cache_directory'] = self.abs
        before = set(self.entries())
        what = 'opening {} with {} after {}'.format(self.FILES[f], options, done)
        with Counting(self.path(f), 'rb') as raw:
            reader, got = attempt(raw, kw)
            want = fresh(self.files[f], options)
            if got != want:
                made = self.dims.get((self.files[f], options_key(options)))
                alternatives = [d for d in (made or ()) if fresh(self.files[f], options, (d,)) == got]
                if alternatives:
                    ctx.fail('{}: the dimensionality is that of an earlier request ({}), not the requested one'.format(what, alternatives),
                             key='dimensionality of the request which filled the cache')
                elif got[0] != want[0] or got[0] == 'raised':
                    ctx.fail('{}: expected {}, got {}'.format(what, want, got))
                else:
                    ctx.fail('{}: {}'.format(what, sut.diff(got[1], want[1])))
            if reader is not None:
                reads = raw.reads
                again = observe(reader)
                ctx.require(again == got[1], '{}: the reader changes between two uses', what)
                ctx.require(raw.reads > reads or not reader.num_traces(), '{}: the reader does not read from the given file', what)
                # The reader goes on working on the given file whatever becomes of the name
                os.rename(self.path(f), self.path(f) + '.away')
                try:
                    ctx.require(observe(reader) == got[1], '{}: the reader changes once the file is renamed', what)
                finally:
                    os.rename(self.path(f) + '.away', self.path(f))
            ctx.require(not raw.closed, '{}: the file was closed', what)
        if kw['cache_directory'] is not None and got[0] == 'view':
            self.dims.setdefault((self.files[f], options_key(options)), []).append(kw.get('dimensionality'))
            d = kw['cache_directory']
            d = d if os.path.isabs(d) else os.path.join(os.path.dirname(self.path(f)), d)
            new = set(self.entries()) - before
            ctx.require(all(os.path.dirname(n) == d for n in new), '{}: cache entries {} are not in {}', what, new, d)
            if not any(os.path.isfile(os.path.join(self.root, p)) for p in ('a/.segpy', 'cache')) and not self.blocked:
                ctx.require(os.path.isdir(d) and os.listdir(d), '{}: nothing was cached in {}', what, d)
        else:
            ctx.require(set(self.entries()) <= before, '{}: an entry was made', what)
    blocked = False


def options_key(options):
    return '+'.join(p for p in options.split('+') if not p.startswith('d') and p not in ('plain', 'abs', 'nested', 'none'))


OPENS = ['open:0:plain', 'open:0:cp037', 'open:0:ascii', 'open:0:<', 'open:0:rev0', 'open:0:d1', 'open:0:d2', 'open:0:abs', 'open:0:nested',
         'open:0:T0', 'open:0:T1', 'open:0:T0+R0', 'open:0:none', 'open:1:plain', 'open:1:abs', 'open:1:cp037+abs', 'open:1:T0+abs']
MUTATIONS = ['put:' + c for c in CONTENTS] + ['put_b:base', 'copy', 'swap', 'move', 'swapdirs', 'cut', 'empty', 'garbage', 'flip', 'remove',
                                              'rmdir', 'dir_is_file', 'entry_is_dir']
CORE_OPENS = ['open:0:plain', 'open:1:plain', 'open:0:abs', 'open:1:abs', 'open:0:T0', 'open:0:d2']
CORE_MUT = ['put:sample', 'put:longer', 'put:base', 'copy', 'swap', 'move', 'swapdirs', 'cut', 'flip', 'remove', 'rmdir', 'entry_is_dir']


class P18(Check):
    id = 'P18'
    level = 'model_checking'
    technique = 'explicit exploration of all bounded histories of openings, edits and cache damage on real files, against uncached readers'
    level_note = ('Every history to the depth bound (open, then any open or mutation, then open; longer over a core alphabet), every pair '
                  'of same-named header layouts and of same-named classes of one layout, edits around every hash block boundary of a larger file, and of single headers of files to 17 MB (thorough 300 MB). Atomic file-system operations.')
    rule = ('A case is a history; each is run on new files and directories and every opening is compared with an uncached reader of '
            'the same bytes and options. States are distinct histories, transitions their operations.')
    assumptions = ('Cache entries moved from one key to another by hand are out of scope (a test pins that they are trusted).',
                   'Enumerations and ranges of field types are not redefined under the same name.')

    def cases(self, tier):
        for first in OPENS:
            for middle in OPENS + MUTATIONS:
                for last in OPENS:
                    yield dict(kind='history', ops=[first, middle, last])
        for a, b in itertools.permutations(range(len(TRACE_LAYOUTS)), 2):
            yield dict(kind='history', ops=['open:0:T%d' % a, 'open:0:T%d' % b, 'open:0:T%d' % a])
        for a, b in itertools.permutations(range(len(REEL_LAYOUTS)), 2):
            yield dict(kind='history', ops=['open:0:R%d' % a, 'open:0:R%d' % b, 'open:0:R%d' % a])
        for a, b in itertools.permutations(range(3), 2):
            for x in ('M', 'B'):
                yield dict(kind='history', ops=['open:0:%s%d' % (x, a), 'open:0:%s%d' % (x, b), 'open:0:%s%d' % (x, a)])
            yield dict(kind='history', ops=['open:0:M%d+B%d' % (a, b), 'open:0:M%d+B%d' % (b, a), 'open:0:M%d+B%d' % (a, b)])
        for content in CONTENTS:
            for o in itertools.product(('plain', 'cp037', '<', 'rev0', 'd1', 'd2', 'd3', '<+cp037'), repeat=2):
                yield dict(kind='history', ops=['put:' + content, 'open:0:' + o[0], 'open:0:' + o[1]])
        n = 2 if tier == 'quick' else 3
        core = CORE_OPENS + CORE_MUT
        for first, last in itertools.product(CORE_OPENS, CORE_OPENS):
            for middle in itertools.product(core if tier == 'thorough' else CORE_OPENS[:4] + CORE_MUT[::2], repeat=n):
                if tier == 'thorough' and middle[0] in CORE_MUT and middle[1] in CORE_MUT and middle[2] in CORE_MUT:
                    continue
                yield dict(kind='history', ops=[first, *middle, last])
        for at in sorted({k * BLOCK + d for k in range(1, 4) for d in (-2, -1, 0, 1)} | {3600, 3601, 3839, 3840, len(BIG) - 1, len(BIG) - 2,
                                                                                        100000}):
            yield dict(kind='big', at=at)
        for how in ('swap_blocks', 'append', 'cut', 'append_zero', 'swap_12'):
            yield dict(kind='big', how=how)
        for n in (8, 9, 16, 31, 64, 128) + ((512, 513, 2100, 9000) if tier == 'thorough' else (512,)):
            step = max(1, n // 64)
            for first in range(0, n, 16 * step):
                yield dict(kind='large', traces=n, at=[k for k in range(first, min(n, first + 16 * step), step)])

    def run(self, case, ctx):
        root = os.path.join(ctx.scratch, 'world')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        fds = len(os.listdir('/proc/self/fd'))
        try:
            if case['kind'] == 'history':
                self.history(World(root), case['ops'], ctx)
            elif case['kind'] == 'large':
                self.large(root, case, ctx)
            else:
                self.big(World(root), case, ctx)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        ctx.require(len(os.listdir('/proc/self/fd')) <= fds, 'file descriptors are left open')
        ctx.trace()
        ctx.sample(case)

    def history(self, w, ops, ctx):
        for k, op in enumerate(ops):
            ctx.transition()
            if op.startswith('open'):
                w.open(op, ctx, ops[:k])
                for f in (0, 1):
                    with open(w.path(f), 'rb') as fh:
                        ctx.require(fh.read() == w.files[f], '{} altered the SEG-Y file', op)
            else:
                if op in ('dir_is_file', 'entry_is_dir'):
                    w.blocked = True
                w.mutate(op)
        ctx.state(tuple(ops))

    def large(self, root, case, ctx):
        """A file of many blocks, of which one trace header changes at a time."""
        n, samples = case['traces'], 32767
        path = os.path.join(root, 'large.segy')
        m = spaces.build(dict(fmt=8, lens=[]))
        stride = 240 + samples

        def header(i, number):
            return ref.encode_trace_header('trace1', dict(ref.defaults('trace1'), num_samples=samples, inline_number=7, crossline_number=number,
                                                          ensemble_num=number), '>')
        with open(path, 'wb') as fh:
            fh.write(m.to_bytes())
            for i in range(n):
                fh.write(header(i, 10 * i))
                fh.truncate(fh.tell() + samples)
                fh.seek(samples, 1)
        ctx.equal(os.path.getsize(path), 3600 + n * stride, 'size of the file (of the harness)')

        def judge(what, numbers):
            with open(path, 'rb') as fh:
                r = create_reader(fh)
                ctx.transition()
                ctx.equal(r.dimensionality, 3, 'dimensionality ' + what)
                ctx.equal({k: r.trace_index(k) for k in r.inline_xline_numbers()}, {(7, x): i for i, x in enumerate(numbers)}, 'index ' + what)
        numbers = [10 * i for i in range(n)]
        judge('of a file of {} traces'.format(n), numbers)
        for k in case['at']:
            for back in (False, True):
                numbers[k] = 10 * k if back else 10 * k + 3
                with open(path, 'r+b') as fh:
                    fh.seek(3600 + k * stride)
                    fh.write(header(k, numbers[k]))
                judge('of a file of {} traces, cached, once trace {} was edited{}'.format(n, k, ' and restored' if back else ''), numbers)
            ctx.state((n, k))

    def big(self, w, case, ctx):
        data = bytearray(BIG)
        if 'at' in case:
            data[case['at']] ^= 1
            if case['at'] == 3601:
                pass
        elif case['how'] == 'swap_blocks':
            data[BLOCK:2 * BLOCK], data[2 * BLOCK:3 * BLOCK] = data[2 * BLOCK:3 * BLOCK], data[BLOCK:2 * BLOCK]
        elif case['how'] == 'swap_12':
            data[BLOCK], data[2 * BLOCK + 1] = data[2 * BLOCK + 1], data[BLOCK]
        elif case['how'] == 'append':
            data += BIG[-12240:]
        elif case['how'] == 'append_zero':
            data += bytes(240)
        elif case['how'] == 'cut':
            del data[-12240:]
        for first, second in ((BIG, bytes(data)), (bytes(data), BIG)):
            w.put(0, first)
            w.open('open:0:plain', ctx, [case])
            w.put(0, second)
            w.open('open:0:plain', ctx, [case, 'edited'])
            w.put(0, first)
            w.open('open:0:plain', ctx, [case, 'edited', 'restored'])
            ctx.transition(3)
        ctx.state(repr(case))


CHECK = P18()
