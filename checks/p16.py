import io
import itertools

from segpy import toolkit
from segpy.encoding import UnsupportedEncodingError
from segpy.toolkit import (format_extended_textual_header, read_binary_reel_header, read_extended_textual_headers,
                           write_extended_textual_headers)

from mc.engine import Check
from mc import ref, spaces, sut

LENGTHS = (0, 1, 77, 78, 79, 155, 156, 157, 234, 235)
NEWLINES = ('\n', '\r\n', '\r')
CHARS = [c for c in ref.PRINTABLE]
STOP = spaces.end_page()
NEAR = ('((seg: endtext))', '((SEG: ENDTEXT))', '((Seg: EndText))', '((SEG: Endtext))', '((SEG:EndText))', '((SEG:  EndText))', '((SEG: End Text))',
        '((SEG: EndText)', '(SEG: EndText))', '(SEG: EndText)', '((SEG: EndText', 'SEG: EndText', '(( SEG: EndText ))', '((SEG EndText))', '((SEG: Text))',
        '[[SEG: EndText]]', '((SEG: EndTexts))', '((SEG: ))', '((SEG: TndText))')


def line_text(n, k):
    return ''.join(CHARS[(k * 13 + j) % 95] for j in range(n))


def model_pages(lines):
    out = []
    for l in lines:
        for i in range(0, max(1, len(l)), 78):
            out.append(ref.pad_line(l[i:i + 78], 78) + '\r\n')
    while len(out) % 40:
        out.append(' ' * 78 + '\r\n')
    return [out[i:i + 40] for i in range(0, len(out), 40)]


class P16(Check):
    id = 'P16'
    level = 'model_checking'
    technique = 'exhaustive enumeration of bounded texts and page sequences through the real formatter, writer and reader, against a page model'
    level_note = ('Every sequence of up to 4 (thorough 5) line lengths around multiples of 78, every number of lines to 130, every '
                  'position and kind of stanza in up to 4 pages, up to 300 (thorough 32767) pages, every malformed shape of one line or page, both encodings.')
    rule = ('A case is a family of texts or page sequences; each is formatted, written, and read, alone and in a whole file, and '
            'compared with the model. States are distinct texts or page sequences.')

    def cases(self, tier):
        depth = 4 if tier == 'quick' else 5
        for enc in spaces.ENCODINGS:
            for first in LENGTHS:
                yield dict(kind='format', enc=enc, first=first, depth=depth)
            for k in range(8):
                yield dict(kind='counts', enc=enc, part=k)
            for n in range(0, 5):
                yield dict(kind='pages', enc=enc, n=n)
            yield dict(kind='malformed', enc=enc)
            yield dict(kind='negative', enc=enc)
            for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300) + ((1023, 1024, 1025, 4097, 32767) if tier == 'thorough' else ()):
                yield dict(kind='many', enc=enc, n=n)
        yield dict(kind='unsupported')
        for n in range(1, 5):
            yield dict(kind='missing', n=n)
        for fmt, enc, endian in itertools.product((1, 3), spaces.ENCODINGS, spaces.ENDIANS):
            yield dict(kind='files', fmt=fmt, enc=enc, endian=endian)

    def run(self, case, ctx):
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.trace()
        ctx.sample(case)

    def judge_format(self, ctx, lines, enc, newline, trailing):
        text = newline.join(lines) + (newline if trailing else '')
        # A text which ends in an unterminated blank line has no such line.
        if lines and lines[-1] == '' and not trailing:
            return
        what = 'lines of lengths {} separated by {!r}'.format([len(l) for l in lines][:50], newline)
        expected = model_pages(lines)
        ctx.state((enc, text))
        for stop in (False, True):
            ctx.transition()
            pages = ctx.call(lambda: format_extended_textual_header(text, enc, stop), 'formatting ' + what)
            got = [list(p) for p in pages]
            want = expected + ([STOP] if stop else [])
            if got != want:
                ctx.equal(len(got), len(want), 'number of pages for ' + what)
                for p, (a, b) in enumerate(zip(got, want)):
                    ctx.equal(len(a), len(b), 'number of lines of page {} for {}'.format(p, what))
                    for i in range(len(b)):
                        ctx.equal(a[i], b[i], 'line {} of page {} for {}'.format(i, p, what))

    def run_format(self, case, ctx):
        for n in range(1, case['depth'] + 1):
            for k, rest in enumerate(itertools.product(LENGTHS, repeat=n - 1)):
                lens = (case['first'],) + rest
                lines = [line_text(l, i + k) for i, l in enumerate(lens)]
                self.judge_format(ctx, lines, case['enc'], NEWLINES[k % 3], k % 2 == 0)
                if n <= 2:
                    for nl, tr in itertools.product(NEWLINES, (False, True)):
                        self.judge_format(ctx, lines, case['enc'], nl, tr)

    def run_counts(self, case, ctx):
        for n in range(case['part'], 131 if ctx.tier == 'quick' else 260, 8):
            for pattern in ((10,), (0,), (78,), (79,), (5, 0), (0, 0, 3), (80, 0), (200, 10, 0)):
                lines = [line_text(pattern[i % len(pattern)], i) for i in range(n)]
                for trailing in (False, True):
                    if n == 0:
                        ctx.equal([list(p) for p in format_extended_textual_header('', case['enc'])], [], 'pages of no text')
                        ctx.equal([list(p) for p in format_extended_textual_header('', case['enc'], True)], [STOP], 'pages of no text with a stop')
                    else:
                        self.judge_format(ctx, lines, case['enc'], '\n', trailing)

    def run_negative(self, case, ctx):
        for n in range(-5, 0):
            for pages in ([], [[' ' * 80] * 40], [STOP, STOP]):
                fh = io.BytesIO(b''.join(ref.encode_text(''.join(l[:80].ljust(80) for l in p), case['enc']) for p in pages))
                ctx.transition()
                ctx.state((n, len(pages)))
                ctx.raises(ValueError, lambda: toolkit.read_extended_headers_counted(fh, n, case['enc']), 'reading {} pages'.format(n))
                ctx.equal(fh.tell(), 0, 'position of the file after reading {} pages was refused'.format(n))

    def judge_pages(self, ctx, pages, enc, endian='>'):
        """Write pages, then read them under every count they could be declared by."""
        n = len(pages)
        what = '{} pages with stanzas in {}'.format(n, [i for i, p in enumerate(pages) if ref.END_TEXT in p[0]])
        head = ref.encode_text(' ' * 3200, enc) + ref.encode_reel({}, endian)
        tail = b'\x5a' * 333
        fh = io.BytesIO(head + b'\xee' * (3200 * n) + tail)
        fh.seek(77)
        ctx.transition()
        ctx.state((enc, repr(pages)))
        ctx.call(lambda: write_extended_textual_headers(fh, pages, enc), 'writing ' + what)
        ctx.equal(fh.tell(), 3600 + 3200 * n, 'file position after writing ' + what)
        body = b''.join(ref.encode_text(''.join(p), enc) for p in pages)
        ctx.require(fh.getvalue() == head + body + tail, '{}: the bytes written are not those of the pages', what)
        stops = [i for i, p in enumerate(pages) if ref.END_TEXT in p[0]]
        for declared in range(-1, n + 1):
            if declared == -1:
                if not stops:
                    continue
                expected = pages[:stops[0] + 1]
            else:
                early = [i for i in stops if i < declared - 1]
                expected = 'ValueError' if early else pages[:declared]
            reel_fh = io.BytesIO(ref.encode_reel({'num_extended_textual_headers': declared}, endian))
            reel = read_binary_reel_header(reel_fh, endian=endian)
            fh.seek(11)
            ctx.transition()
            if expected == 'ValueError':
                ctx.raises(ValueError, lambda: read_extended_textual_headers(fh, reel, enc), '{} declared as {}'.format(what, declared))
                continue
            got = ctx.call(lambda: read_extended_textual_headers(fh, reel, enc), 'reading {} of {}'.format(declared, what))
            ctx.equal([list(p) for p in got], expected, 'reading {} of {}'.format(declared, what))
            ctx.equal(fh.tell(), 3600 + 3200 * len(expected), 'file position after reading {} of {}'.format(declared, what))

    def run_pages(self, case, ctx):
        n, enc = case['n'], case['enc']
        embedded = [ref.pad_line('  text ' + ref.END_TEXT + ' more', 78) + '\r\n'] + [' ' * 78 + '\r\n'] * 39
        not_first = spaces.page(2)
        not_first[1] = ref.pad_line(ref.END_TEXT, 78) + '\r\n'  # a stanza only counts at the start of a page
        printable = [l[:78] + '\r\n' for l in spaces.printable_lines(n)]
        bare = ['%-80d' % i for i in range(40)]
        kinds = {'page': spaces.page(n), 'stop': spaces.end_page(), 'embedded': embedded, 'not_first': not_first,
                 'printable': printable, 'bare': bare}
        kinds.update({'all {!r}'.format(c): spaces.uniform_page(c) for c in '\0 \n'})
        for i, near in enumerate(NEAR if n <= 3 else ()):   # what resembles the stanza does not end the headers
            for at, indent in itertools.product(range(n), ('', '  text ')):
                pages = [spaces.page(k) for k in range(n)]
                pages[at] = [ref.pad_line(indent + near, 78) + '\r\n'] + pages[at][1:]
                self.judge_pages(ctx, pages + [spaces.end_page()] * (i % 2), enc)
        pool = list(kinds) if n <= 3 or ctx.tier == 'thorough' else ['page', 'stop', 'not_first', "all '\\x00'"]
        for names in itertools.product(pool, repeat=n):
            self.judge_pages(ctx, [kinds[k] for k in names], enc)

    def run_missing(self, case, ctx):
        n = case['n']
        for enc in spaces.ENCODINGS:
            pages = [spaces.page(i) for i in range(n)]
            head = ref.encode_text(' ' * 3200, enc) + ref.encode_reel({}, '>')
            body = b''.join(ref.encode_text(''.join(p), enc) for p in pages)
            cuts = sorted({3200 * k + d for k in range(n + 1) for d in (-81, -80, -1, 0, 1, 79, 80, 81, 1600)} & set(range(len(body) + 1)))
            for declared in [-1] + list(range(0, n + 2)):
                reel = read_binary_reel_header(io.BytesIO(ref.encode_reel({'num_extended_textual_headers': declared}, '>')))
                for cut in cuts:
                    fh = io.BytesIO(head + body[:cut])
                    ctx.transition()
                    ctx.state((declared, cut))
                    what = 'reading {} pages from {} bytes of {}'.format(declared, cut, n)
                    if declared == -1 or cut < 3200 * declared:
                        ctx.raises(EOFError, lambda: read_extended_textual_headers(fh, reel, enc), what)
                    else:
                        ctx.equal([list(p) for p in read_extended_textual_headers(fh, reel, enc)], pages[:declared], what)

    def run_malformed(self, case, ctx):
        enc = case['enc']
        for n, bad in ((n, b) for n in (1, 2, 3) for b in range(n)):
            def attempt(change, exc, what):
                pages = [spaces.page(i) for i in range(n)]
                change(pages)
                fh = io.BytesIO(b'\xaa' * 4000)
                ctx.transition()
                ctx.raises(exc, lambda: write_extended_textual_headers(fh, pages, enc), '{} in page {} of {}'.format(what, bad, n))
                ctx.require(fh.getvalue() == b'\xaa' * 4000, 'something was written before refusing {} in page {} of {}', what, bad, n)
            for count in (0, 1, 38, 39, 41, 42, 80):
                attempt(lambda p: p.__setitem__(bad, (p[bad] * 2)[:count]), ValueError, '{} lines'.format(count))
            for i, size in itertools.product((0, 1, 20, 38, 39), (0, 1, 78, 79, 81, 82, 160)):
                attempt(lambda p: p[bad].__setitem__(i, 'x' * size), ValueError, 'line {} of {} characters'.format(i, size))
            for i, c in itertools.product((0, 39), ('\u0100', '\u20ac', '\ud800') + (('\x80',) if enc == 'ascii' else ())):
                attempt(lambda p: p[bad].__setitem__(i, 'x' * 79 + c), UnicodeError, '{!r} in line {}'.format(c, i))

    def run_many(self, case, ctx):
        n, enc = case['n'], case['enc']
        pages = [spaces.page(i) for i in range(n)]
        for i, p in enumerate(pages):
            p[1] = ref.pad_line('page {} of {}'.format(i, n), 78) + '\r\n'
        for stop in (False, True):
            if stop:
                pages[-1] = spaces.end_page()
            text = ''.join(itertools.chain.from_iterable(pages[:-1] if stop else pages))
            made = [list(p) for p in format_extended_textual_header(text, enc, stop)]
            ctx.require(made == pages, 'formatting a text of {} pages, with stop {}', n, stop)
            for declared in (n, -1) if stop else (n,):
                m = spaces.build(dict(enc=enc, lens=[2, 1]))
                m.pages = pages
                m.reel['num_extended_textual_headers'] = declared
                data = m.to_bytes()
                ctx.transition(2)
                ctx.state((enc, n, declared))
                ctx.require(sut.write_bytes(sut.MemDataset(m)) == data, 'a file with {} pages is not written as expected', n)
                r = ctx.call(lambda: sut.open_reader(data, encoding=enc), 'opening a file with {} pages'.format(n))
                problem = sut.diff(sut.observe_reader(r), sut.expected_view(m))
                ctx.require(problem is None, 'a file with {} pages declared as {}: {}', n, declared, problem)
                for cut in (1, 3200, 3200 * (n - 1)):
                    short = data[:3600 + 3200 * n - cut]
                    ctx.raises((EOFError, ValueError), lambda: sut.open_reader(short, encoding=enc), '{} pages cut short by {}'.format(n, cut))
        if n > 300:
            return
        # Nothing is written of many pages any of which is malformed
        for bad in (0, n // 2, n - 1):
            for change in (lambda p: p[:-1], lambda p: p[:3] + ['short'] + p[4:], lambda p: p[:3] + ['x' * 79 + '\u20ac'] + p[4:]):
                broken = pages[:bad] + [change(list(pages[bad]))] + pages[bad + 1:]
                fh = io.BytesIO(b'\xaa' * 4000)
                ctx.transition()
                ctx.raises((ValueError, UnicodeError), lambda: write_extended_textual_headers(fh, broken, enc), 'page {} of {} malformed'.format(bad, n))
                ctx.require(fh.getvalue() == b'\xaa' * 4000, 'something was written before refusing page {} of {}', bad, n)

    def run_unsupported(self, case, ctx):
        for enc in ('utf8', 'latin-1', 'cp500', '', None, 'EBCDIC'):
            fh = io.BytesIO()
            ctx.transition(2)
            ctx.raises(UnsupportedEncodingError, lambda: format_extended_textual_header('text', enc), 'encoding {!r}'.format(enc))
            ctx.raises(UnsupportedEncodingError, lambda: write_extended_textual_headers(fh, [spaces.page(0)], enc), 'encoding {!r}'.format(enc))
            ctx.equal(fh.getvalue(), b'', 'written in encoding {!r}'.format(enc))

    def run_files(self, case, ctx):
        """Whole files: the first trace follows the pages directly."""
        texts = ['', 'one line', '\n\n a \n\n', '\n'.join(line_text(l, i) for i, l in enumerate(LENGTHS)),
                 '\n'.join(line_text(3 * i % 90, i) for i in range(95)), '\n' * 40, '\n' * 41]
        for text, stop in itertools.product(texts, (False, True)):
            pages = [list(p) for p in format_extended_textual_header(text, case['enc'], stop)]
            for declared in {len(pages), -1} if stop else {len(pages)}:
                m = spaces.build(dict(fmt=case['fmt'], enc=case['enc'], endian=case['endian'], lens=[2, 0, 3]))
                m.pages = pages
                m.reel['num_extended_textual_headers'] = declared
                data = m.to_bytes()
                ctx.transition(2)
                written = sut.write_bytes(sut.MemDataset(m), endian=case['endian'])
                ctx.require(written == data, 'a file with {} pages declared as {} is not written as expected', len(pages), declared)
                r = sut.open_reader(data, encoding=case['enc'], endian=case['endian'])
                problem = sut.diff(sut.observe_reader(r), sut.expected_view(m))
                ctx.require(problem is None, 'a file with {} pages declared as {}: {}', len(pages), declared, problem)
                if pages and not stop:
                    # declared as open-ended, but nothing ends it
                    m2 = m.replaced(reel=dict(m.reel, num_extended_textual_headers=-1))
                    ctx.raises((EOFError, ValueError), lambda: sut.open_reader(m2.to_bytes()[:3600 + 3200 * len(pages)], encoding=case['enc'],
                                                                             endian=case['endian']), 'no stanza')


CHECK = P16()
