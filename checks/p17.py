import io
import itertools
import json
import os

from segpy.revisions import SegYRevision
from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header, read_textual_reel_header, write_textual_reel_header

from mc.engine import Check, VERIF
from mc import ref

with open(os.path.join(VERIF, 'mc', 'template.json')) as f:
    _T = json.load(f)
BACKGROUND = _T['background']
FIELDS = [tuple(f) for f in _T['fields']]      # name, card, column, width
END = {SegYRevision.REVISION_0: 'END EBCDIC', SegYRevision.REVISION_1: 'END TEXTUAL HEADER'}
PLACEHOLDERS = _T['placeholders']              # how segpy's template has marked these fields
NAMES = [f[0] for f in FIELDS]


def value(n, k):
    """n characters, the first and last not blank."""
    return ''.join(ref.PRINTABLE[1 + (k * 11 + j * 3) % 94] for j in range(n))


def model(revision, values):
    cards = list(BACKGROUND)
    values = dict(values)
    values.setdefault('end_marker', END[revision])
    for name, card, column, width in FIELDS:
        v = str(values.get(name, ''))[:width].ljust(width)
        c = cards[card - 1]
        cards[card - 1] = c[:column - 1] + v + c[column - 1 + width:]
    return cards


def parsed(revision, values):
    values = dict(values)
    values.setdefault('end_marker', END[revision])
    return {name: str(values.get(name, ''))[:width].strip() for name, _, _, width in FIELDS}


class P17(Check):
    id = 'P17'
    level = 'model_checking'
    technique = 'exhaustive enumeration of field and value-length assignments through the real formatter and parser, against a card template'
    level_note = ('Every field at every length class and with non-string and blank-edged values, every pair of fields, all fields at '
                  'once at each length class, all 40-line shapes with one wrong line; both revisions. The template is frozen in mc/template.json.')
    rule = ('A case is a family of assignments of values to names; each is formatted and compared with the template model and '
            'parsed back. States are distinct assignments.')

    def cases(self, tier):
        for rev in (0, 1):
            for part in range(8):
                yield dict(kind='single', rev=rev, part=part)
                yield dict(kind='pairs', rev=rev, part=part)
            for part in range(16):
                yield dict(kind='characters', rev=rev, part=part)
            yield dict(kind='all', rev=rev)
            yield dict(kind='unknown', rev=rev)
        yield dict(kind='shapes')
        yield dict(kind='arbitrary')

    def run(self, case, ctx):
        self.rev = (SegYRevision.REVISION_0, SegYRevision.REVISION_1)[case.get('rev', 0)]
        getattr(self, 'run_' + case['kind'])(case, ctx)
        ctx.trace()
        ctx.sample(case)

    def judge(self, ctx, values):
        what = 'format_standard_textual_header({}, {})'.format(self.rev.name, {k: values[k] for k in list(values)[:3]})
        ctx.transition(2)
        ctx.state((int(self.rev), tuple(sorted((k, str(v)) for k, v in values.items()))))
        got = ctx.call(lambda: format_standard_textual_header(self.rev, **values), what)
        want = model(self.rev, values)
        if list(got) != want:
            ctx.equal([len(l) for l in got], [80] * 40, 'line lengths of ' + what)
            for i in range(40):
                ctx.equal(got[i], want[i], 'card {} of {}'.format(i + 1, what))
        back = ctx.call(lambda: parse_standard_textual_header(got), 'parsing ' + what)
        if dict(back) != parsed(self.rev, values):
            ctx.equal(list(back), NAMES, 'names parsed')
            for n in NAMES:
                ctx.equal(back[n], parsed(self.rev, values)[n], 'parsed {} of {}'.format(n, what))
        return got

    def run_single(self, case, ctx):
        self.judge(ctx, {})
        for k, (name, card, column, width) in enumerate(FIELDS):
            if k % 8 != case['part']:
                continue
            for n in sorted({0, 1, 2, width - 1, width, width + 1, width + 2, 2 * width, 80, 81}):
                self.judge(ctx, {name: value(n, k)})
            for v in (0, 1, -1, 12345678901, 3.25, True, None, ' ', ' x', 'x ', ' x' * width, 'a b', '{', '}', '{line}', '{ client }', '%s',
                      '\\', 'x' * (width - 1) + ' y', self.rev, b'x'):
                self.judge(ctx, {name: v})
            # values which look like the placeholders of the template, given together with the fields these stand for
            for j, text in enumerate(PLACEHOLDERS):
                other = FIELDS[j]
                for v in {text, text.strip('{} '), '{' + text.strip('{} ') + '}'} if len(text) <= width or abs(j - k) < 6 else ():
                    self.judge(ctx, {name: v})
                    self.judge(ctx, {name: v, other[0]: value(other[3], j)})

    def run_characters(self, case, ctx):
        """Every character of Latin-1 and some others at the beginning, in the middle, at the end and throughout values."""
        codes = list(range(256)) + [0x130, 0x1e9e, 0xfb01, 0x2028, 0x3000, 0x200b, 0xfeff, 0xffff, 0x1f600]
        for k, (name, card, column, width) in enumerate(FIELDS):
            for code in codes:
                if (code + k) % 16 != case['part']:
                    continue
                c = chr(code)
                # All characters in the first fields of every width, the controls in each
                if code >= 32 and any(w == width for _, _, _, w in FIELDS[:k]) and ctx.tier != 'thorough':
                    continue
                for v in {c, c + value(width - 1, k), value(width - 1, k) + c, (value(1, k) + c) * width, c * width, ' ' + c}:
                    self.judge(ctx, {name: v})

    def run_pairs(self, case, ctx):
        n = len(FIELDS)
        for i, j in itertools.combinations(range(n), 2):
            if (i + j) % 8 != case['part']:
                continue
            a, b = FIELDS[i], FIELDS[j]
            near = j - i < 4
            for d1, d2 in itertools.product((-1, 0, 1), repeat=2) if near or ctx.tier == 'thorough' else ((0, 1), (1, -1)):
                if d1 + a[3] >= 0 and d2 + b[3] >= 0:
                    self.judge(ctx, {b[0]: value(b[3] + d2, j), a[0]: value(a[3] + d1, i)})

    def run_all(self, case, ctx):
        for d in (-2, -1, 0, 1, 2, 50):
            for k in range(20):
                values = {name: value(max(0, width + d), i + k) for i, (name, _, _, width) in enumerate(FIELDS)}
                lines = self.judge(ctx, values)
                for i, (name, *_) in enumerate(FIELDS):
                    if k == 0:
                        self.judge(ctx, {n: v for n, v in values.items() if n != name})
                for enc in ('ascii', 'cp037'):
                    fh = io.BytesIO()
                    write_textual_reel_header(fh, lines, enc)
                    fh.seek(0)
                    again = read_textual_reel_header(fh, enc)
                    ctx.equal(dict(parse_standard_textual_header(again)), parsed(self.rev, values), 'parsed after a round trip in ' + enc)

    def run_unknown(self, case, ctx):
        for bad in ['nonsense', 'crew', 'd', 'yr', 'Client', 'client_', '', 'reelnum', 'template', 'end', 'processing3', 'unassigned18']:
            for others in ({}, {'client': 'x'}, {n: 'x' for n in NAMES}):
                ctx.transition()
                ctx.state((bad, len(others)))
                ctx.raises(TypeError, lambda: format_standard_textual_header(self.rev, **dict(others, **{bad: 1})), 'the name {!r}'.format(bad))

    def run_shapes(self, case, ctx):
        base = model(SegYRevision.REVISION_1, {})
        for n in list(range(0, 40)) + [41, 42, 80]:
            ctx.raises(ValueError, lambda: parse_standard_textual_header((base * 2)[:n]), '{} lines'.format(n))
            ctx.transition()
        for i in range(40):
            for n in (0, 1, 79, 81, 160):
                lines = list(base)
                lines[i] = (lines[i] * 2)[:n]
                ctx.transition()
                ctx.raises(ValueError, lambda: parse_standard_textual_header(lines), 'line {} of {} characters'.format(i, n))
                # compensated elsewhere, so that the total is right
                j = (i + 1) % 40
                lines[j] = (lines[j] + ' ' * 80)[:160 - n]
                if n != 80:
                    ctx.raises(ValueError, lambda: parse_standard_textual_header(lines), 'lines {} and {} of {} and {}'.format(i, j, n, 160 - n))

    def run_arbitrary(self, case, ctx):
        """Any 40 lines of 80 characters are parsed by position."""
        for k in range(95):
            text = ''.join(ref.PRINTABLE[(k + i * (1 + k % 3)) % 95] for i in range(3200))
            lines = [text[i:i + 80] for i in range(0, 3200, 80)]
            for form in (list, tuple):
                got = parse_standard_textual_header(form(lines))
                ctx.transition()
                want = {name: lines[card - 1][column - 1:column - 1 + width].strip() for name, card, column, width in FIELDS}
                ctx.equal(dict(got), want, 'parsing arbitrary text')


CHECK = P17()
