import io
import itertools

from segpy.encoding import UnsupportedEncodingError
from segpy.reader import create_reader
from segpy.toolkit import guess_textual_header_encoding, read_textual_reel_header, write_textual_reel_header

from mc.engine import Check
from mc import ref, spaces, sut

COMMON = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '
IN = {'ascii': frozenset(ref.encode_text(COMMON, 'ascii')), 'cp037': frozenset(ref.encode_text(COMMON, 'cp037'))}
OTHER = {'ascii': 'cp037', 'cp037': 'ascii'}
BOTH = sorted(IN['ascii'] & IN['cp037'])
ONLY = {e: sorted(IN[e] - IN[OTHER[e]]) for e in OTHER}
NEITHER = [b for b in range(1, 127) if b not in IN['ascii'] and b not in IN['cp037']]
LENGTHS = (0, 1, 2, 39, 78, 79, 80, 81, 82, 159, 160, 161, 400)
COUNTS = (0, 1, 2, 3, 38, 39, 40, 41, 42, 80)


def text(n, k):
    return ''.join(ref.PRINTABLE[(k + j * 7) % 95] for j in range(n))


def cards(lines):
    return [ref.pad_line(l) for l in itertools.islice(itertools.chain(lines, itertools.repeat('')), 40)]


class P15(Check):
    id = 'P15'
    level = 'model_checking'
    technique = 'exhaustive enumeration of bounded text shapes and of byte-class counts through the real code, against a card-image model'
    level_note = ('Every line count class x line length class (around 0, 80, 160) per position, every character of each code page, '
                  'every combination of byte-class counts around the decision threshold, in both encodings.')
    rule = ('A case is a family of headers; each header is written with the real writer and compared byte for byte with card images, '
            'then read back; guesses are compared with the specification of the guess. States are distinct headers.')

    def cases(self, tier):
        for enc in spaces.ENCODINGS:
            for count in COUNTS:
                yield dict(kind='shape', enc=enc, count=count)
            for pos in range(40):
                yield dict(kind='line', enc=enc, pos=pos)
            for block in range(16):
                yield dict(kind='chars', enc=enc, block=block)
            yield dict(kind='unencodable', enc=enc)
            for k in range(8):
                yield dict(kind='guess', enc=enc, part=k)
            yield dict(kind='guess_text', enc=enc)
            yield dict(kind='short', enc=enc)
        yield dict(kind='unsupported')
        yield dict(kind='codepages')

    def run(self, case, ctx):
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.trace()
        ctx.sample(case)

    def both_ways(self, ctx, lines, enc, what, given=None):
        fh = io.BytesIO(b'\xee' * 3300)
        start = 50
        fh.seek(start)
        ctx.call(lambda: write_textual_reel_header(fh, lines if given is None else given, enc), 'writing ' + what)
        ctx.equal(fh.tell(), start + 3200, 'file position after writing ' + what)
        data = fh.getvalue()
        want = cards(lines)
        expected = ref.encode_text(''.join(want), enc)
        ctx.transition(2)
        ctx.state((enc, expected))
        if data[start:start + 3200] != expected:
            i = next(i for i in range(3200) if data[start + i] != expected[i])
            ctx.fail('{}: byte {} of the header is {:#x} rather than {:#x}'.format(what, i, data[start + i], expected[i]))
        ctx.require(data[:start] == b'\xee' * start and data[start + 3200:] == b'\xee' * 50, '{}: bytes outside the header changed', what)
        fh.seek(start)
        got = read_textual_reel_header(fh, enc)
        ctx.equal(list(got), want, 'reading back ' + what)
        ctx.equal(fh.tell(), start + 3200, 'file position after reading ' + what)

    def run_shape(self, case, ctx):
        enc, count = case['enc'], case['count']
        for n in LENGTHS:
            lines = [text(n, k) for k in range(count)]
            self.both_ways(ctx, lines, enc, '{} lines of {}'.format(count, n))
            self.both_ways(ctx, lines, enc, 'a tuple of {} lines of {}'.format(count, n), tuple(lines))
            self.both_ways(ctx, lines, enc, 'an iterator over {} lines of {}'.format(count, n), iter(lines))
        for a, b in itertools.permutations(LENGTHS, 2):
            lines = [text(a if k % 2 else b, k) for k in range(count)]
            self.both_ways(ctx, lines, enc, '{} lines of {} and {}'.format(count, a, b))

    def run_line(self, case, ctx):
        for n in range(0, 164, 1 if ctx.tier == 'thorough' else 3):
            lines = [text(80, k) for k in range(40)]
            lines[case['pos']] = text(n, n)
            self.both_ways(ctx, lines, case['enc'], 'line {} of length {}'.format(case['pos'], n))

    def run_chars(self, case, ctx):
        enc = case['enc']
        chars = [chr(c) for c in range(128 if enc == 'ascii' else 256)]
        for k, c in enumerate(chars):
            if k % 16 != case['block']:
                continue
            for line, column in itertools.product((0, 1, 20, 38, 39), (0, 1, 40, 78, 79)):
                lines = ['=' * 80 for _ in range(40)]
                lines[line] = '=' * column + c + '=' * (79 - column)
                fh = io.BytesIO()
                ctx.call(lambda: write_textual_reel_header(fh, lines, enc), 'writing {!r}'.format(c))
                data = fh.getvalue()
                at = 80 * line + column
                rest = ref.encode_text('=', enc) * 3199
                ctx.transition(2)
                ctx.state((enc, c, at))
                ctx.require(len(data) == 3200 and data[:at] + data[at + 1:] == rest, '{!r} at {}: other bytes differ', c, at)
                if c in ref.PRINTABLE:
                    ctx.equal(data[at], ref.encode_text(c, enc)[0], 'the byte for {!r}'.format(c))
                fh.seek(0)
                ctx.equal(list(read_textual_reel_header(fh, enc)), lines, 'reading back {!r} at {}'.format(c, at))

    def run_codepages(self, case, ctx):
        """Reading any bytes gives one character per byte, and writing those back the same bytes."""
        for enc, top in (('ascii', 128), ('cp037', 256)):
            for k in range(0, top):
                raw = bytes((k + i) % top for i in range(3200))
                fh = io.BytesIO(raw)
                lines = read_textual_reel_header(fh, enc)
                ctx.equal([len(l) for l in lines], [80] * 40, 'lengths of lines')
                out = io.BytesIO()
                write_textual_reel_header(out, lines, enc)
                ctx.transition(2)
                ctx.require(out.getvalue() == raw, 'bytes from {} read as {} are not restored', k, enc)
        for b in range(128, 256):
            raw = b' ' * 1000 + bytes([b]) + b' ' * 2199
            ctx.raises(UnicodeError, lambda: read_textual_reel_header(io.BytesIO(raw), 'ascii'), 'byte {:#x} read as ascii'.format(b))

    def run_unencodable(self, case, ctx):
        enc = case['enc']
        bad = ['\u0100', '\u20ac', '\u4e2d', '\U0001f600', '\ud800', '\uffff'] + (['\x80', '\xe9', '\xff'] if enc == 'ascii' else [])
        for c, line, column in itertools.product(bad, (0, 1, 39), (0, 40, 79)):
            lines = ['x' * 80 for _ in range(40)]
            lines[line] = 'x' * column + c + 'x' * (79 - column)
            fh = io.BytesIO()
            ctx.transition()
            ctx.raises(UnicodeError, lambda: write_textual_reel_header(fh, lines, enc), '{!r} in line {} column {}'.format(c, line, column))
            ctx.equal(fh.getvalue(), b'', 'what was written before refusing {!r}'.format(c))

    def run_unsupported(self, case, ctx):
        lines = spaces.text_lines()
        for enc in ('utf8', 'utf-8', 'latin-1', 'cp500', 'cp1252', 'utf-16', 'EBCDIC', '', 'nonsense', None, 0, 'ascii ', 'cp037\0'):
            fh = io.BytesIO()
            ctx.transition()
            e = ctx.raises(UnsupportedEncodingError, lambda: write_textual_reel_header(fh, lines, enc), 'encoding {!r}'.format(enc))
            ctx.equal(e.encoding, enc, 'the encoding named by the error')
            ctx.require(repr(enc) in str(e), 'the error {} does not name {}', str(e), repr(enc))
            ctx.equal(fh.getvalue(), b'', 'what was written in encoding {!r}'.format(enc))

    def run_short(self, case, ctx):
        data = ref.encode_text(''.join(spaces.printable_lines(0)), case['enc'])
        for n in itertools.chain(range(0, 200), range(3000, 3200)):
            ctx.raises(EOFError, lambda: read_textual_reel_header(io.BytesIO(data[:n]), case['enc']), 'a header of {} bytes'.format(n))
            ctx.transition()

    # -- recognising the encoding -----------------------------------------------------------------

    def judge_guess(self, ctx, raw, what, through_reader):
        score = {e: sum(b in IN[e] for b in raw) for e in IN}
        expected = None
        for e in IN:
            if score[e] * 2 >= len(raw) > score[OTHER[e]] * 2:
                expected = e
        ctx.state(('guess', raw))
        ctx.transition()
        if expected is None:
            ctx.count('undetermined')
            neither = all(n * 2 < len(raw) for n in score.values())
            if neither:
                got = guess_textual_header_encoding(io.BytesIO(raw))
                ctx.require(got in (None, 'ascii'), '{} guessed for {} (scores {})', got, what, score)
            if through_reader and max(raw) < 128:
                m = spaces.build(dict(lens=[1]))
                r = ctx.call(lambda: create_reader(io.BytesIO(raw + m.to_bytes()[3200:]), cache_directory=None), 'opening a file whose encoding can\'t be told')
                if neither or r.encoding != 'cp037':
                    ctx.equal(r.encoding, 'ascii', 'encoding of the reader of ' + what)
                    ctx.equal(list(r.textual_reel_header), [raw[i:i + 80].decode('latin-1') for i in range(0, 3200, 80)], 'text of ' + what)
            return
        fh = io.BytesIO(raw)
        fh.seek(17)
        got = guess_textual_header_encoding(fh)
        ctx.equal(got, expected, 'encoding guessed for {} (scores {})'.format(what, score))
        ctx.equal(fh.tell(), 17, 'file position after guessing')
        if through_reader:
            if expected == 'ascii' and max(raw) > 127:
                return
            m = spaces.build(dict(lens=[1], enc=expected))
            data = raw + m.to_bytes()[3200:]
            r = create_reader(io.BytesIO(data), cache_directory=None)
            ctx.equal(r.encoding, expected, 'encoding of the reader of ' + what)
            table = {'ascii': lambda b: b.decode('latin-1'), 'cp037': lambda b: b.decode('cp037')}[expected]
            ctx.equal(list(r.textual_reel_header), [table(raw[i:i + 80]) for i in range(0, 3200, 80)], 'text of ' + what)

    def run_guess(self, case, ctx):
        enc = case['enc']
        near = [1595, 1596, 1597, 1598, 1599, 1600, 1601, 1602, 1605]
        mine = near + [0, 1, 800, 2400, 3199, 3200]
        theirs = [0, 1, 2, 3, 400, 800, 1590] + near
        shared = [0, 1, 2, 3, 4, 799, 800, 801, 1598, 1599, 1600, 1601]
        k = 0
        for a, b, c in itertools.product(mine, theirs, shared):
            if a + b + c > 3200:
                continue
            k += 1
            if k % 8 != case['part']:
                continue
            rest = 3200 - a - b - c
            groups = [[ONLY[enc][i % len(ONLY[enc])] for i in range(a)], [ONLY[OTHER[enc]][i % len(ONLY[OTHER[enc]])] for i in range(b)],
                      [BOTH[i % len(BOTH)] for i in range(c)], [NEITHER[i % len(NEITHER)] for i in range(rest)]]
            order = list(itertools.permutations(range(4)))[k % 24]
            raw = bytes(itertools.chain.from_iterable(groups[g] for g in order))
            self.judge_guess(ctx, raw, '{}+{} bytes of {}, {} of {}, {} others in order {}'.format(a, c, enc, b + c, OTHER[enc], rest, order),
                             k % 5 == 0)
            if k % 5 == 0:
                zeros = bytes(0 if b in NEITHER else b for b in raw)
                self.judge_guess(ctx, zeros, 'the same with NULs for the others', True)
                plain = bytes(b if b < 128 else 33 for b in raw)
                self.judge_guess(ctx, plain, 'the same without high bytes', True)
        nulls = bytes(1599) + bytes([ONLY[enc][0]]) * 1601
        self.judge_guess(ctx, nulls, 'half nulls', True)
        # Few characters among very many bytes which are in neither encoding, at either end and in between
        for n, filler, place in itertools.product((0, 1, 2, 5, 10, 40, 80, 160, 400, 800, 1200, 1599, 1600), (0, 1, 46, 127) + tuple(NEITHER[:3]),
                                                  (0, 1, 2)):
            if filler in IN[enc] or filler in IN[OTHER[enc]] or (n + filler) % 8 != case['part']:
                continue
            some = bytes(ONLY[enc][i % len(ONLY[enc])] for i in range(n))
            rest = bytes([filler]) * (3200 - n)
            at = (0, len(rest) // 2, len(rest))[place]
            raw = rest[:at] + some + rest[at:]
            what = '{} bytes of {} among bytes {:#x}'.format(n, enc, filler)
            self.judge_guess(ctx, raw, what, True)
            self.judge_guess(ctx, bytes(b if b < 128 else 66 for b in raw), what + ', without high bytes', True)

    def run_guess_text(self, case, ctx):
        """Text of every single common character, and of every count of it around half of the header."""
        enc = case['enc']
        for c in COMMON:
            for n in (1598, 1599, 1600, 1601, 1602, 3200):
                raw = ref.encode_text((c * n).ljust(3200, '.'), enc)
                self.judge_guess(ctx, raw, '{} of {!r}'.format(n, c), n == 1600)
        for k in range(95):
            lines = spaces.text_lines(k)
            lines[k % 40] = spaces.printable_lines(k)[0]
            raw = ref.encode_text(''.join(map(ref.pad_line, lines)), enc)
            self.judge_guess(ctx, raw, 'ordinary text', True)


CHECK = P15()
