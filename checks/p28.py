import bz2
import codecs
import gzip
import io
import itertools
import lzma
import os
import pathlib
import shutil
import tempfile

from segpy.encoding import UnsupportedEncodingError
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0
from segpy.writer import write_segy

from mc.engine import Check
from mc import spaces, sut

GOOD_FH = ('bytesio', 'rb', 'raw', 'rplus', 'descriptor', 'bytes_path', 'pathlib', 'temporary', 'unnamed', 'duck', 'wplus',
           'xplus', 'aplus', 'gzip', 'bz2', 'lzma', 'spooled', 'spilled')
BAD_FH = {'closed': ValueError, 'closed_memory': ValueError, 'text': TypeError, 'text_memory': TypeError, 'pipe': TypeError,
          'unseekable': TypeError, 'empty': ValueError, 'short': ValueError, 'almost': ValueError, 'text_utf8': TypeError,
          'text_temporary': TypeError, 'text_codecs': TypeError, 'text_duck': TypeError, 'text_tagged': TypeError}
BAD_ENDIAN = ('', '=', '!', 'big', '<>', None, 0, b'>')
BAD_DIM = (0, 4, -1, 2.5, '3', 'two', 100, (1,))
BAD_PROGRESS = (0, '', 'x', (), 3, b'p')
CACHES = (None, '.segpy', 'nested/cache', 'ABS', 'PATH', 'uni\u00e7ode dir')


class Duck:
    """The methods of a file which are needed, and no more."""

    def __init__(self, data):
        self._fh = io.BytesIO(data)
        self.closed = False

    def seekable(self):
        return True

    def read(self, n=-1):
        return self._fh.read(n)

    def seek(self, *a):
        return self._fh.seek(*a)

    def tell(self):
        return self._fh.tell()


class TextDuck(Duck):
    encoding = 'latin-1'

    def read(self, n=-1):
        return super().read(n).decode('latin-1')


class Tagged(TextDuck):
    """One which wraps another, passing everything on."""

    def __init__(self, data):
        self._file = TextDuck(data)

    def __getattribute__(self, name):
        return getattr(object.__getattribute__(self, '_file'), name)


class Unseekable(io.BytesIO):
    def seekable(self):
        return False


class P28(Check):
    id = 'P28'
    technique = 'exhaustive enumeration of the cross product of argument classes, against a decision table'
    level_note = ('All combinations of eighteen kinds of usable file, encodings, byte orders, dimensionalities, callbacks, cache locations and '
                  'header formats; every unusable argument alone and with every other; thorough also with all usable ones.')
    rule = ('A state is a distinct combination of arguments; a transition is one call. A usable combination must give the right reader '
            'or file; an unusable one must raise as specified and neither write, move the file, call back nor make a cache.')

    def cases(self, tier):
        for fh in GOOD_FH:
            for endian in '<>':
                for kind in spaces.KINDS:
                    yield dict(kind='good', fh=fh, endian=endian, header=kind, full=tier == 'thorough')
        for fh in BAD_FH:
            yield dict(kind='bad_fh', fh=fh)
        for fh in GOOD_FH:
            yield dict(kind='bad_args', fh=fh, full=tier == 'thorough')
        yield dict(kind='write')
        yield dict(kind='lengths', full=tier == 'thorough')

    def run(self, case, ctx):
        root = os.path.join(ctx.scratch, 'args')
        os.makedirs(root)
        self.open_fds = []
        try:
            getattr(self, 'do_' + case['kind'])(case, ctx, root)
        finally:
            for f in self.open_fds:
                try:
                    f.close()
                except (OSError, ValueError):
                    pass
            shutil.rmtree(root)

    def make(self, kind, data, root):
        path = os.path.join(root, 'file.segy')
        with open(path, 'wb') as f:
            f.write(data)
        fh = {'bytesio': lambda: io.BytesIO(data), 'rb': lambda: open(path, 'rb'), 'raw': lambda: open(path, 'rb', 0),
              'rplus': lambda: open(path, 'r+b'), 'descriptor': lambda: os.fdopen(os.open(path, os.O_RDONLY), 'rb'),
              'bytes_path': lambda: open(os.fsencode(path), 'rb'), 'pathlib': lambda: open(pathlib.Path(path), 'rb'),
              'temporary': lambda: self.filled(tempfile.NamedTemporaryFile(dir=root), data),
              'unnamed': lambda: self.filled(tempfile.TemporaryFile(dir=root), data), 'duck': lambda: Duck(data),
              'wplus': lambda: self.filled(open(path, 'w+b'), data),
              'xplus': lambda: self.filled(open(self.absent(path + '.x'), 'x+b'), data),
              'aplus': lambda: self.filled(open(self.absent(path + '.a'), 'a+b'), data),
              'gzip': lambda: self.compressed(gzip, path + '.gz', data), 'bz2': lambda: self.compressed(bz2, path + '.bz2', data),
              'lzma': lambda: self.compressed(lzma, path + '.xz', data),
              'spooled': lambda: self.filled(tempfile.SpooledTemporaryFile(dir=root), data),
              'spilled': lambda: self.filled(tempfile.SpooledTemporaryFile(100, dir=root), data),
              'closed': lambda: self.closed(open(path, 'rb')), 'closed_memory': lambda: self.closed(io.BytesIO(data)),
              'text': lambda: open(path, 'r', encoding='latin-1'), 'text_utf8': lambda: open(path, 'r', encoding='utf8'),
              'text_memory': lambda: io.TextIOWrapper(io.BytesIO(data), encoding='latin-1'),
              # (files of text which are not instances of TextIOBase)
              'text_temporary': lambda: self.filled(tempfile.NamedTemporaryFile('w+', dir=root, encoding='latin-1', newline=''), data.decode('latin-1')),
              'text_codecs': lambda: codecs.open(path, 'r', 'latin-1'), 'text_duck': lambda: TextDuck(data), 'text_tagged': lambda: Tagged(data),
              'pipe': lambda: self.pipe(), 'unseekable': lambda: Unseekable(data), 'empty': lambda: io.BytesIO(b''),
              'short': lambda: io.BytesIO(data[:100]), 'almost': lambda: io.BytesIO(data[:3599])}[kind]()
        self.open_fds.append(fh) if hasattr(fh, 'close') else None
        return fh

    def absent(self, path):
        if os.path.exists(path):
            os.remove(path)
        return path

    def compressed(self, module, path, data):
        with module.open(path, 'wb') as f:
            f.write(data)
        return module.open(path, 'rb')

    def filled(self, fh, data):
        fh.write(data)
        fh.flush()
        fh.seek(0)
        return fh

    def closed(self, fh):
        fh.close()
        return fh

    def pipe(self):
        r, w = os.pipe()
        os.close(w)
        return os.fdopen(r, 'rb')

    def cache(self, name, root):
        return {'ABS': os.path.join(root, 'absolute'), 'PATH': pathlib.Path(root, 'as_path')}.get(name, name)

    def listing(self, root):
        return sorted(os.path.join(d, f) for d, ds, fs in os.walk(root) for f in fs + ds)

    def do_good(self, case, ctx, root):
        for geometry in ([[1, 1, 5], [1, 2, 6]], [[1, 1, 5], [1, 1, 6]], [[1, 1, 5], [1, 1, 5]]):
            for enc in spaces.ENCODINGS:
                m = spaces.build(dict(fmt=2, lens=[2, 1], endian=case['endian'], enc=enc, kind=case['header'], geometry=geometry))
                data = m.to_bytes()
                for given, dim, back, cache in itertools.product((None, enc), (None, 1, 2, 3), (False, True), CACHES):
                    if not case['full'] and (dim or 0) + back + CACHES.index(cache) + (given is None) & 1 and geometry[0] != geometry[1]:
                        continue
                    for n in range(2 if cache and case['full'] else 1):
                        fh = self.make(case['fh'], data, root)
                        calls = []
                        # (kept apart, since which dimensionality a cached reader has is another matter)
                        where = self.cache(cache, root)
                        if cache:
                            where = where / str(dim) if cache == 'PATH' else '{}/{}'.format(where, dim)
                        kw = dict(encoding=given, endian=m.endian, trace_header_format=sut.TRACE_FORMATS[m.kind], dimensionality=dim,
                                  cache_directory=where, progress=calls.append if back else None)
                        what = 'create_reader({}, {})'.format(case['fh'], kw)
                        ctx.transition()
                        reader = ctx.call(lambda: create_reader(fh, **kw), what)
                        d = sut.diff(sut.observe_reader(reader), sut.expected_view(m, dim))
                        ctx.require(d is None, what + ': {}', d)
                        ctx.require(not back or calls, what + ' did not call back')
                        ctx.state((case['fh'], repr(geometry), repr(kw)[:200]))
                        if hasattr(fh, 'close'):
                            ctx.equal(fh.closed, False, 'whether {} closed the file'.format(what))
                            fh.close()
        ctx.trace()
        ctx.sample(case)

    def refused(self, ctx, fh, kw, errors, root, what):
        calls = []
        kw = dict(kw)
        if kw.get('progress', None) is True:
            kw['progress'] = calls.append
        try:
            pos = fh.tell()
        except (OSError, ValueError, AttributeError):
            pos = None
        before = self.listing(root)
        ctx.transition()
        ctx.raises(tuple(errors), lambda: create_reader(fh, **kw), what)
        ctx.equal(calls, [], 'the calls back of ' + what)
        ctx.equal(self.listing(root), before, 'the files after ' + what)
        if pos is not None:
            ctx.equal(fh.tell(), pos, 'the position of the file after ' + what)
        ctx.state(what)

    def do_bad_fh(self, case, ctx, root):
        m = spaces.build(dict(fmt=3, lens=[2]))
        data = m.to_bytes()
        for endian, dim, progress, cache in itertools.product(('>', '<') + BAD_ENDIAN[:2], (None, 3) + BAD_DIM[:2], (None, True) + BAD_PROGRESS[:2],
                                                              CACHES[:4]):
            errors = {BAD_FH[case['fh']]}
            if endian not in ('<', '>') or dim not in (None, 3):
                errors.add(ValueError)
            if progress not in (None, True) or progress == 0 and progress is not None:
                errors.add(TypeError)
            fh = self.make(case['fh'], data, root)
            kw = dict(endian=endian, dimensionality=dim, progress=progress, cache_directory=self.cache(cache, root))
            self.refused(ctx, fh, kw, errors, root, 'create_reader({}, {})'.format(case['fh'], kw))
            if hasattr(fh, 'close'):
                fh.close()
        ctx.trace()

    def do_bad_args(self, case, ctx, root):
        m = spaces.build(dict(fmt=3, lens=[2]))
        data = m.to_bytes()
        bad = [('endian', v, ValueError) for v in BAD_ENDIAN] + [('dimensionality', v, ValueError) for v in BAD_DIM] + [
            ('progress', v, TypeError) for v in BAD_PROGRESS]
        combos = [(b,) for b in bad] + [c for c in itertools.combinations(bad, 2) if c[0][0] != c[1][0]]
        for combo in combos:
            for encoding, cache in itertools.product((None, 'ascii') if case['full'] else (None,), CACHES if case['full'] else CACHES[1:4:2]):
                kw = dict(progress=True, encoding=encoding, cache_directory=self.cache(cache, root))
                kw.update({k: v for k, v, _ in combo})
                fh = self.make(case['fh'], data, root)
                fh.seek(17)
                self.refused(ctx, fh, kw, {e for _, _, e in combo}, root, 'create_reader({}, {})'.format(case['fh'], kw))
                if hasattr(fh, 'close'):
                    fh.close()
        ctx.trace()

    def do_lengths(self, case, ctx, root):
        """Too short by any amount."""
        data = spaces.build(dict(fmt=3, lens=[])).to_bytes()
        ctx.equal(len(data), 3600, 'the shortest file')
        for n in range(0, 3600, 1 if case['full'] else 7):
            fh = io.BytesIO(data[:n])
            self.refused(ctx, fh, dict(cache_directory=None), {ValueError}, root, 'create_reader of {} bytes'.format(n))
        for n in range(3590, 3600):
            self.refused(ctx, io.BytesIO(data[:n]), dict(cache_directory=None), {ValueError}, root, 'create_reader of {} bytes'.format(n))
        ctx.equal(create_reader(io.BytesIO(data), cache_directory=None).num_traces(), 0, 'traces of the shortest file')
        ctx.trace()

    def do_write(self, case, ctx, root):
        class Odd(sut.MemDataset):
            def __init__(self, model, encoding):
                super().__init__(model, with_encoding=False)
                self.encoding = encoding
        m = spaces.build(dict(fmt=3, lens=[2, 1], enc='ascii'))
        want = {enc: spaces.build(dict(fmt=3, lens=[2, 1], enc=enc)).to_bytes() for enc in spaces.ENCODINGS}
        bad_encodings = ('utf8', 'latin-1', 'EBCDIC', 'nonsense', 'cp500', 'utf-16', 'ASCII ', 'ebcdic-cp-us')
        for own, given in itertools.product(spaces.ENCODINGS + bad_encodings + (None, 'missing'), (None,) + spaces.ENCODINGS + bad_encodings):
            for progress in (None, True) + BAD_PROGRESS:
                for endian in '<>':
                    ds = sut.MemDataset(m, with_encoding=False) if own == 'missing' else Odd(m, own)
                    used = given or (own if own not in (None, 'missing') else 'ascii')
                    what = 'write_segy(encoding={!r}, progress={!r}) of a dataset with encoding {!r}'.format(given, progress, own)
                    bad_progress = progress is not None and progress is not True
                    calls = []
                    out = io.BytesIO()
                    fn = lambda: write_segy(out, ds, encoding=given, endian=endian, progress=calls.append if progress is True else progress)
                    ctx.transition()
                    ctx.state(what)
                    errors = [TypeError] * bad_progress + [UnsupportedEncodingError] * (used not in spaces.ENCODINGS)
                    if errors:
                        ctx.raises(tuple(errors), fn, what)
                        ctx.equal((out.getvalue(), calls), (b'', []), 'the output and calls back of ' + what)
                    else:
                        ctx.call(fn, what)
                        right = want[used] if endian == '>' else spaces.build(dict(fmt=3, lens=[2, 1], enc=used, endian='<')).to_bytes()
                        ctx.require(out.getvalue() == right, what + ' wrote the wrong bytes')
        ctx.trace()


CHECK = P28()
