"""Adapters between the reference model and the public API of segpy."""
import array
import io

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import Dataset
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.writer import write_segy

from mc import ref

TRACE_FORMATS = {'trace0': TraceHeaderRev0, 'trace1': TraceHeaderRev1}


class MemDataset(Dataset):
    """A dataset held in memory, independent of segpy's own readers.

    style says which objects it hands out: new ones each time, or ones it changes and hands out again.
    """

    def __init__(self, model, with_encoding=True, style='fresh'):
        self._m = model
        self._style = style
        self._kept = {}
        self._format = TRACE_FORMATS[model.kind]
        self._reel = BinaryReelHeader(**model.reel)
        if with_encoding:
            self.encoding = model.encoding

    @property
    def textual_reel_header(self):
        return list(self._m.lines)

    @property
    def binary_reel_header(self):
        return self._reel

    @property
    def extended_textual_header(self):
        return [list(p) for p in self._m.pages]

    @property
    def dimensionality(self):
        return 0

    def num_traces(self):
        return len(self._m.traces)

    def trace_header(self, trace_index):
        values = self._m.traces[trace_index][0]
        if self._style in ('reused', 'reused_header'):
            h = self._kept.setdefault('header', self._format())
            for name in h.ordered_field_names():
                setattr(h, name, values[name])
            return h
        if self._style == 'memo':
            return self._kept.setdefault(('header', trace_index), self._format(**values))
        return self._format(**values)

    def trace_samples(self, trace_index, start=None, stop=None):
        samples = self._m.traces[trace_index][1][start:stop]
        if self._m.fmt == 1:
            from segpy.ibm_float import IBMFloat
            samples = [IBMFloat.from_bytes(s) if isinstance(s, bytes) else s for s in samples]
        if self._style in ('reused', 'reused_samples'):
            kept = self._kept.setdefault('samples', [])
            kept[:] = samples
            return kept
        if self._style == 'tuple':
            return tuple(samples)
        if self._style in ('array', 'reused_array'):
            made = array.array({1: 'd', 2: 'i', 3: 'h', 5: 'f', 8: 'b'}[self._m.fmt], [float(s) for s in samples] if self._m.fmt == 1 else samples)
            if self._style == 'array':
                return made
            kept = self._kept.setdefault('samples', made)
            kept[:] = made
            return kept
        return samples


def write_bytes(dataset, **kw):
    fh = io.BytesIO()
    write_segy(fh, dataset, **kw)
    return fh.getvalue()


def open_reader(data, **kw):
    kw.setdefault('cache_directory', None)
    return create_reader(io.BytesIO(data), **kw)


def header_values(header):
    return {name: int(getattr(header, name)) for name in header.ordered_field_names()}


def samples_of(fmt, values):
    return [ref.sample_key(fmt, v) for v in values]


def observe_reader(reader, model=None):
    """Everything a user can see of a reader, as plain comparable data."""
    fmt = int(reader.binary_reel_header.data_sample_format)
    n = reader.num_traces()
    view = {
        'text': list(reader.textual_reel_header),
        'reel': header_values(reader.binary_reel_header),
        'pages': [list(p) for p in reader.extended_textual_header],
        'num_traces': n,
        'indexes': list(reader.trace_indexes()),
        'max': reader.max_num_trace_samples(),
        'lengths': [reader.num_trace_samples(i) for i in range(n)],
        'headers': [header_values(reader.trace_header(i)) for i in range(n)],
        'samples': [samples_of(fmt, reader.trace_samples(i)) for i in range(n)],
        'dimensionality': reader.dimensionality,
        'encoding': reader.encoding,
        'endian': reader.endian,
        'revision': int(reader.revision),
        'bps': reader.bytes_per_sample,
        'type': str(getattr(reader.data_sample_format, 'value', reader.data_sample_format)),
    }
    view.update(observe_index(reader))
    return view


def observe_index(reader):
    view = {}
    if hasattr(reader, 'inline_xline_numbers'):
        keys = list(reader.inline_xline_numbers())
        view['lines'] = {tuple(k): reader.trace_index(k) for k in keys}
        view['num_lines_listed'] = len(keys)
        view['inlines'] = list(reader.inline_numbers())
        view['xlines'] = list(reader.xline_numbers())
        view['counts'] = (reader.num_inlines(), reader.num_xlines())
    if hasattr(reader, 'cdp_numbers'):
        cdps = list(reader.cdp_numbers())
        view['cdps'] = {c: reader.trace_index(c) for c in cdps}
        view['num_cdps'] = reader.num_cdps()
    return view


def expected_view(model, dimensionality=None):
    """What observe_reader() should show for a file holding the model (dimensionality as requested)."""
    has_lines = model.kind == 'trace1'
    natural, index = ref.survey(model.traces, has_lines)
    n = len(model.traces)
    lengths = [len(s) for _, s in model.traces]
    view = {
        'text': list(model.lines),
        'reel': dict(model.reel),
        'pages': [list(p) for p in model.pages],
        'num_traces': n,
        'indexes': list(range(n)),
        'max': max(lengths, default=0),
        'lengths': lengths,
        'headers': [dict(h) for h, _ in model.traces],
        'samples': [[ref.expected_key(model.fmt, v) for v in s] for _, s in model.traces],
        'encoding': model.encoding,
        'endian': model.endian,
        'revision': 256 if model.reel['format_revision_num'] in (1, 100, 256) else 0,
        'bps': ref.FORMATS[model.fmt][2],
        'type': ref.FORMATS[model.fmt][0],
    }
    if view['reel']['format_revision_num'] in (1, 100):
        view['reel']['format_revision_num'] = 256
    want = natural if dimensionality is None else dimensionality
    if want == 3:
        lines = index if natural == 3 else {}
        view['lines'] = lines
        view['num_lines_listed'] = len(lines)
        view['inlines'] = sorted({i for i, j in lines})
        view['xlines'] = sorted({j for i, j in lines})
        view['counts'] = (len(view['inlines']), len(view['xlines']))
        view['dimensionality'] = 3
    elif want == 2:
        cdps = {h['ensemble_num']: i for i, (h, _) in enumerate(model.traces)}
        if len(cdps) != n:
            cdps = {}
        view['cdps'] = {k: cdps[k] for k in sorted(cdps)}
        view['num_cdps'] = len(cdps)
        view['dimensionality'] = 2
    else:
        view['dimensionality'] = 1 if n == 1 else 0
    return view


def diff(actual, expected):
    """The first difference between two views, as text, or None."""
    for k in expected:
        if k not in actual:
            return '{} is missing'.format(k)
        if actual[k] != expected[k]:
            a, e = actual[k], expected[k]
            if isinstance(a, list) and isinstance(e, list) and len(a) == len(e):
                for i, (x, y) in enumerate(zip(a, e)):
                    if x != y:
                        if isinstance(x, dict) and isinstance(y, dict):
                            for f in y:
                                if x.get(f) != y[f]:
                                    return '{}[{}].{}: expected {!r}, got {!r}'.format(k, i, f, y[f], x.get(f))
                        return '{}[{}]: expected {!r}, got {!r}'.format(k, i, y, x)[:700]
            if isinstance(a, dict) and isinstance(e, dict):
                for f in e:
                    if a.get(f) != e[f]:
                        return '{}.{}: expected {!r}, got {!r}'.format(k, f, e[f], a.get(f))
            return '{}: expected {!r}, got {!r}'.format(k, e, a)[:700]
    for k in actual:
        if k not in expected:
            return 'unexpected {}: {!r}'.format(k, actual[k])[:700]
    return None


def decode_model(data, encoding, endian, kind):
    """Decode bytes written by segpy with the reference decoder alone."""
    cp = {v: k for k, v in ref._CP037.items()}
    dec = (lambda bs: ''.join(chr(b) for b in bs)) if encoding == 'ascii' else (lambda bs: ''.join(cp[b] for b in bs))
    text = dec(data[:3200])
    lines = [text[i:i + 80] for i in range(0, 3200, 80)]
    reel = ref.decode_header(ref.REEL_FIELDS, 3201, data[3200:3600], endian)
    return lines, reel
