"""Regenerates /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'observe_at': list(observe), 'hook_needed': None}})


prop('P01', 'Writing a dataset and reading it back gives the same dataset',
     'For every valid dataset, the file made by write_segy, read by create_reader with the same encoding, byte order '
     'and trace header format, has the same textual lines, binary reel header fields, extended textual pages, number '
     'of traces, trace headers, samples-per-trace and samples, including empty traces, traces of differing lengths '
     'and no traces at all. ibm samples come back as the written value truncated to IBM precision; every other '
     'format comes back bit for bit. Writing the reader out again reproduces the same file byte for byte.',
     ['inputs', 'configurations'],
     'every dataset x {ascii, cp037} x {big, little endian} x sample format x trace header format x extended header '
     'convention x trace length vector, within bounds',
     'The round-trip tests sample a few generated datasets per run and most of them are disabled in practice (they '
     'fail hypothesis health checks); boundary lengths, values and combinations are not met.',
     ['segpy/writer.py', 'segpy/reader.py', 'segpy/toolkit.py', 'segpy/packer.py'],
     [('write_segy', 'segpy/writer.py'), ('create_reader', 'segpy/reader.py'),
      ('read_binary_values / write_binary_values', 'segpy/toolkit.py')],
     ['bytes of the output file', 'properties and methods of the reader'])

prop('P02', 'Written files follow the SEG-Y byte layout',
     'The bytes write_segy produces are exactly those the SEG-Y standard prescribes for the dataset: 40 80-byte card '
     'images in the requested encoding, the 400-byte binary reel header at byte 3201, the extended textual pages, '
     'then for each trace, in order, a 240-byte trace header and its samples. Every header field is at its standard '
     'byte position in the requested byte order as two\'s complement, unassigned bytes are zero, and samples are '
     'encoded in the declared format (IBM floats always big-endian).',
     ['inputs', 'configurations'],
     'every dataset and write configuration within bounds, compared byte for byte with an independent encoder',
     'Round-trip tests cannot see an error made alike by the writer and the reader, and no test holds an independent '
     'byte-level description of a file.',
     ['segpy/writer.py', 'segpy/toolkit.py', 'segpy/packer.py', 'segpy/binary_reel_header.py',
      'segpy/trace_header.py', 'segpy/ibm_float.py'],
     [('write_* functions', 'segpy/toolkit.py'), ('compile_struct', 'segpy/packer.py')],
     ['bytes of the output file'])

prop('P03', 'Conforming files are decoded to exactly what they contain',
     'For every conforming file, whoever wrote it and whatever its unassigned header bytes hold, create_reader reports '
     'the text, header field values, extended pages, trace count, trace positions, per-trace sample counts (taken from '
     'each trace header, not from the reel header) and samples that the bytes encode. The traces are numbered from '
     'zero in file order and max_num_trace_samples is the greatest sample count.',
     ['inputs', 'configurations'],
     'every file within bounds made by an independent encoder: formats, byte orders, encodings, trace length '
     'vectors, extended header conventions, junk in unassigned bytes, disagreeing reel header sample counts',
     'The tests read only files made by segpy itself or a few small fixtures.',
     ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/packer.py', 'segpy/datatypes.py'],
     [('catalog_traces', 'segpy/toolkit.py'), ('read_trace_header', 'segpy/toolkit.py'),
      ('SegYReader', 'segpy/reader.py')],
     ['properties and methods of the reader'])

prop('P04', 'Format conversions lose nothing, in any chain',
     'Reading a file and writing it in another encoding or byte order, directly or through a DelegatingDataset, in '
     'any sequence of conversions, leaves every text line, header value and sample unchanged, and converting back to '
     'the original encoding and byte order restores the original bytes. With no encoding given the dataset\'s own '
     'encoding is kept, and with no byte order given the output is big-endian.',
     ['histories', 'configurations', 'inputs'],
     'every path, to a bounded depth, in the graph of conversions over a set of contents covering every sample format',
     'The tests do single round trips; chains of conversions and the reverse directions are not exercised.',
     ['segpy/writer.py', 'segpy/reader.py', 'segpy/dataset.py', 'segpy/toolkit.py'],
     [('write_segy', 'segpy/writer.py'), ('DelegatingDataset', 'segpy/dataset.py')],
     ['bytes of each file of the chain'],
     [('content, encoding, byte order', 'the state of the conversion graph', 'file')])

prop('P05', 'Random access returns exactly the requested part of a trace',
     'trace_samples(i, start, stop) equals trace_samples(i)[start:stop] for every trace and every 0 <= start <= stop '
     '<= length, with omitted bounds meaning the beginning and the end, and a trace index or sample bound outside '
     'those limits raises ValueError rather than returning data. trace_header(i) with a header packer for any subset '
     'of the fields gives the same values as the full header, and data at any file offset, even beyond 4 GiB, is found.',
     ['inputs'],
     'every trace index, start and stop (including None, negative and past the end) for traces of each length to a '
     'bound, each sample format and byte order, and traces astride the 2 GiB and 4 GiB offsets',
     'No test reads sub-ranges exhaustively or checks their errors; no test file exceeds a few kilobytes.',
     ['segpy/reader.py', 'segpy/toolkit.py'],
     [('SegYReader.trace_samples', 'segpy/reader.py'), ('read_binary_values', 'segpy/toolkit.py')],
     ['return values and exceptions of trace_samples and trace_header'])

prop('P06', 'What a reader returns does not depend on what was done before',
     'Whatever sequence of calls has been made before in the process (on this reader, on other readers of the same '
     'file object, of other files and formats, on writers, or on the package\'s header, number and catalog types), '
     'and wherever the file position was left, every call on a reader returns what it would return on a fresh reader '
     'in a new process, and likewise what is written does not depend on what was done before. '
     'Changing a trace header or a sequence of samples a reader returned changes no later result, and no '
     'read operation closes, writes to or truncates the file.',
     ['histories', 'schedules'],
     'every interleaving of operations to a bounded depth over an alphabet of reader calls, interleaved iterators, '
     'seeks by the owner, mutations of returned objects and calls on a second reader of the same file object; and '
     'every short history of whole operations (reading, writing, packing, converting, pickling ...) in a process',
     'The tests call one method once on a fresh reader.',
     ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/header.py'],
     [('explicit seek before each read', 'segpy/toolkit.py'), ('lazily cached attributes', 'segpy/reader.py')],
     ['results of every call'],
     [('file position', 'shared by everybody who holds the file object', 'fh'),
      ('lazily computed attributes', 'max_num_trace_samples, inline/xline/cdp numbers', 'segpy/reader.py')])

prop('P07', 'A one-dimensional catalog is the dictionary of the items added',
     'A CatalogBuilder given items with scalar keys - integers, or of any other ordered type - and values of any type '
     'creates, whatever their order and values, an immutable mapping equal to the dictionary of the items: the same length, keys in ascending order, values, membership and '
     'KeyError for absent keys. It returns None exactly when some key was added more than once. Each catalog class '
     'made directly is likewise the dictionary which its parameters describe, or refuses parameters which describe none '
     'with ValueError.',
     ['inputs', 'histories'],
     'every sequence of items to a bounded length over small key and value domains, in every insertion order, and '
     'long regular patterns with single irregularities and with very large keys and values',
     'The builder picks one of several compact representations by heuristics; tests sample a few of each and check '
     'few absent keys.',
     ['segpy/catalog.py', 'segpy/util.py', 'segpy/sorted_frozen_set.py'],
     [('CatalogBuilder', 'segpy/catalog.py')], ['the mapping protocol of the catalog'])

prop('P08', 'A two-dimensional catalog is the dictionary of the items added',
     'A CatalogBuilder given items with (i, j) integer pair keys and values of any type creates, whatever their order, regularity or '
     'completeness, a mapping equal to the dictionary of the items, with KeyError and non-membership for every absent '
     'pair, or None exactly when a pair was added more than once. Its i_range and j_range are the sorted distinct '
     'i and j values, and where the catalog offers key(value) it is the inverse of lookup, raising ValueError for a '
     'value which is absent. The two-dimensional catalog classes made directly are likewise the dictionaries which '
     'their parameters describe.',
     ['inputs', 'histories'],
     'every subset of a small grid x spacing of coordinates x value pattern x insertion order, and larger full grids',
     'The compact forms apply only to complete, regular grids; incomplete or nearly regular ones are barely tested.',
     ['segpy/catalog.py', 'segpy/util.py'],
     [('CatalogBuilder', 'segpy/catalog.py')], ['the mapping protocol of the catalog', 'i_range, j_range, key()'])

prop('P09', 'Survey geometry is recognised and every trace is indexed',
     'Without a requested dimensionality, a file is 3D exactly when its (inline, crossline) pairs are all distinct, '
     'else 2D exactly when its CDP numbers are all distinct, else basic; trace header formats without those fields '
     'cannot give that geometry. The 3D or 2D reader maps each inline/crossline pair or CDP to precisely the trace '
     'whose header holds it, lists precisely those numbers in ascending order, and raises KeyError for others; a '
     'requested dimensionality of 1, 2 or 3 is honoured, with an empty index if no unique index exists.',
     ['inputs', 'configurations'],
     'every assignment of inline, crossline and CDP numbers from small domains to up to a bounded number of traces, '
     'in every file order, regular and irregular grids, extreme numbers, each requested dimensionality',
     'Tests use a few regular geometries.',
     ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/catalog.py'],
     [('catalog_traces', 'segpy/toolkit.py'), ('_make_reader', 'segpy/reader.py')],
     ['dimensionality, trace_index, has_trace_index, inline/xline/cdp numbers'])

prop('P10', 'IBM floats are decoded exactly and encoded by truncation',
     'Decoding any four bytes gives exactly the value they represent. Encoding any finite float gives the nearest IBM '
     'float toward zero in normalised form (subnormal only at the bottom of the range); values beyond the largest IBM '
     'float raise OverflowError, NaN and infinities raise ValueError, and non-zero values too small for any IBM float '
     'raise FloatingPointError or, where underflow is allowed, become zero. Encoding a decoded value gives back a '
     'representation of the same value, and packing a sequence is packing each item.',
     ['inputs'],
     'every sign/exponent byte x mantissa pattern set for decoding; every double exponent x significand pattern set '
     'around each truncation and range boundary for encoding',
     'Tests sample random floats, which almost never fall on hexadecimal exponent boundaries, subnormals or limits.',
     ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py'],
     [('ibm2ieee', 'segpy/ibm_float.py'), ('ieee2ibm', 'segpy/ibm_float.py')],
     ['returned values and exceptions'])

prop('P11', 'IBMFloat behaves as the number it represents',
     'Comparing IBMFloats with each other and with ints, floats and Fractions agrees with comparing their exact values, whatever '
     'the representation, and equal numbers hash alike; copies and pickles are the same number; negation, abs, truth, int(), trunc, floor, ceil, as_integer_ratio, frexp, ldexp, normalize and '
     'zero_subnormal have the results the exact value dictates. Arithmetic gives the double precision '
     'result, truncated to IBM precision (underflow giving zero) when both operands are IBMFloats, and a float when '
     'the other operand is a Python float.',
     ['inputs'],
     'all pairs over a set of byte patterns covering signs, zeros, unnormalised forms, integers, halves and the '
     'extremes of exponent',
     'Random samples rarely contain unnormalised representations, unusual zeros or integral values.',
     ['segpy/ibm_float.py'], [('IBMFloat', 'segpy/ibm_float.py')], ['results of operators and methods'])

prop('P12', 'Standard header fields sit at their specified bytes and ranges',
     'Each field of the binary reel header and of the rev 0 and rev 1 trace headers is packed to and unpacked from the '
     'byte position, width, sign and byte order the SEG-Y standard gives it, independently of every other field. '
     'Assigning a value outside the field\'s legal range or enumeration raises ValueError and leaves the old value; '
     'unpacking such raw bytes is rejected with ValueError; every legal value survives.',
     ['inputs', 'configurations'],
     'every field x every boundary value of its storage and legal range (thorough: every 16-bit value) x byte order',
     'Tests check a handful of offsets and default values.',
     ['segpy/binary_reel_header.py', 'segpy/trace_header.py', 'segpy/field_types.py', 'segpy/packer.py',
      'segpy/header.py'],
     [('field()', 'segpy/header.py'), ('compile_struct', 'segpy/packer.py'), ('IntFieldMeta', 'segpy/field_types.py')],
     ['packed bytes', 'unpacked field values', 'ValueError'])

prop('P13', 'Custom header layouts pack and unpack every field at its offset',
     'For any header format class, whatever the order fields are declared or inherited in, from one or several bases, and whatever the gaps '
     'between them, packing puts each field at its declared offset with zeros in the gaps to the declared length, and '
     'unpacking recovers every value. Coincident fields of one type share their bytes (packing unequal values raises '
     'ValueError), ill-formed layouts (partial overlap, differing coincident types, excess length, no fields) are '
     'refused, and a sub-format of any subset of fields reads the same values from the same bytes. Field types, those '
     'derived from other field types too, hold exactly the values of their range.',
     ['programs', 'inputs'],
     'every layout of up to a bounded number of fields x types x gaps x declaration order x start offset x length, '
     'every pair of offsets for overlap, every subset for sub-formats',
     'Layouts are programs a user writes; the tests hold a few examples in declaration order.',
     ['segpy/packer.py', 'segpy/header.py', 'segpy/util.py'],
     [('compile_struct', 'segpy/packer.py'), ('FormatMeta, SubFormatMeta', 'segpy/header.py')],
     ['packed bytes', 'unpacked values', 'exceptions'])

prop('P14', 'Header objects are independent values',
     'Setting a field of a header changes only that field of that object, whatever other headers of the same or '
     'related classes exist, have been copied, pickled, unpickled or destroyed; a rejected assignment changes '
     'nothing. copy(), copy.copy and pickling give an object of the same class with equal field values that is '
     'independent thereafter, copy(**updates) differs only in the updates, are_equal holds exactly for headers of '
     'the same class with equal fields, and unknown keyword names raise TypeError.',
     ['histories'],
     'every sequence, to a bounded depth, of creations, assignments, copies, pickle round trips and destructions over '
     'a few objects of a base class, a derived class and a sub-format',
     'Field values are held in weak dictionaries outside the objects; tests do not build histories over several '
     'objects.',
     ['segpy/header.py'],
     [('HeaderFieldDescriptor', 'segpy/header.py'), ('BaseHeader.copy/__getstate__/__setstate__', 'segpy/header.py')],
     ['field values of every live object after every operation'],
     [('per-object field values', 'held per descriptor, keyed weakly by object', 'segpy/header.py')])

prop('P15', 'The textual reel header survives and its encoding is recognised',
     'Writing lines as a textual reel header gives exactly 40 cards of 80 bytes in the requested encoding: longer '
     'lines and extra lines are cut, shorter and missing ones are padded with spaces; unencodable characters and '
     'unsupported encodings are refused with UnicodeError and UnsupportedEncodingError. Reading gives those 40 lines '
     'back. The guessed encoding is the actual one whenever at least half of the characters are letters, digits, '
     'spaces or :_- and fewer than half of the bytes would be so in the other encoding; a header '
     'which neither encoding makes plausible is read as ASCII.',
     ['inputs', 'configurations'],
     'every count of lines and line length around each limit, every printable character, each encoding; for the '
     'guess, every mixture count around the threshold',
     'Tests sample random strings; boundary counts and the threshold are not met.',
     ['segpy/toolkit.py', 'segpy/encoding.py', 'segpy/writer.py', 'segpy/reader.py'],
     [('write_textual_reel_header', 'segpy/toolkit.py'), ('guess_encoding', 'segpy/encoding.py')],
     ['bytes of the header', 'reader.encoding', 'reader.textual_reel_header'])

prop('P16', 'Extended textual headers keep all text in well-formed pages',
     'format_extended_textual_header puts every line of a text, in order, blank lines included, into pages of 40 cards '
     'of 78 characters and CR LF, splitting longer lines, plus an end-text page on request. Any well-formed pages '
     'written are read back identically, whether the reel header counts them or declares -1 and the last one is the '
     'end-text stanza, and the first trace follows directly; a premature end-text stanza raises ValueError, missing '
     'pages raise EOFError and malformed pages are refused with ValueError before anything is written.',
     ['inputs', 'configurations'],
     'every sequence of line lengths around the width and page limits, each encoding, each declaration convention, '
     'every position of an end-text stanza, every malformed page shape',
     'Tests sample random text of modest size; page boundaries and stanza positions are not enumerated.',
     ['segpy/toolkit.py'],
     [('format_extended_textual_header', 'segpy/toolkit.py'), ('read_extended_textual_headers', 'segpy/toolkit.py'),
      ('write_extended_textual_headers', 'segpy/toolkit.py')],
     ['pages', 'bytes', 'reader.extended_textual_header'])

prop('P17', 'Standard textual headers format and parse as inverses',
     'format_standard_textual_header always gives 40 lines of 80 characters in which each named value appears at its '
     'own place on its own card, cut to its width, with the rest of the standard template unchanged and the end marker '
     'of the revision; parse_standard_textual_header recovers each value (stripped) by the same name. Unknown names '
     'raise TypeError and headers of any other shape raise ValueError.',
     ['inputs'],
     'every template field, and every pair of neighbouring fields, x value lengths around the field width x revision',
     'The tests use a few fields.',
     ['segpy/toolkit.py', 'segpy/textual_reel_header.py', 'segpy/util.py'],
     [('parse_template', 'segpy/toolkit.py'), ('TEMPLATE', 'segpy/textual_reel_header.py')],
     ['returned lines and fields'])

prop('P18', 'The reader cache is never visible in results',
     'Through any history of opening, editing, replacing, renaming and copying files, of changing encoding, byte order '
     'and header formats (also redefined under the same name), and of damage to or removal of cache entries, '
     'create_reader with a cache directory returns a reader which reads the given file object exactly as one made '
     'without a cache would. It uses the requested cache directory, relative ones beside the file, and never alters '
     'the SEG-Y file.',
     ['histories'],
     'every history, to a bounded depth, over an alphabet of opens under different options and of changes to the '
     'files and to the cache',
     'The tests cover single hits and misses, not histories; the cache is keyed on content and options and restored '
     'by unpickling, so staleness needs particular sequences.',
     ['segpy/reader.py', 'segpy/util.py', 'segpy/catalog.py', 'segpy/header.py', 'segpy/packer.py'],
     [('hash_for_file', 'segpy/util.py'), ('cache load and save', 'segpy/reader.py'),
      ('SegYReader.__getstate__/__setstate__', 'segpy/reader.py')],
     ['everything the returned reader reports', 'the cache directory', 'the SEG-Y file'],
     [('cache entries', 'pickled readers by digest of content and options', 'cache directory'),
      ('files', 'contents by path', 'file system')])

prop('P19', 'A damaged or unusable cache never breaks or corrupts reading',
     'Whatever prefix or single-byte corruption of a cache entry a crash leaves behind, and whatever step of creating '
     'the cache directory or of opening, reading, writing or removing an entry fails with an OSError, create_reader '
     'still returns a reader equivalent to an uncached one. A later call without faults again does so too, and an '
     'entry which can not be restored is discarded.',
     ['crash_points', 'fault_sequences'],
     'every prefix length of the entry, damage at every byte, every subset (to a bound) of failing file system calls '
     'in two successive calls, and cache locations that are files, read-only, or absent',
     'Tests try one corrupt file; crash points and faults at each call are not explored.',
     ['segpy/reader.py'],
     [('cache load and save', 'segpy/reader.py')],
     ['the returned reader', 'the cache directory afterwards'],
     [('cache entry', 'written in place, so it can be torn', 'cache directory')])

prop('P20', 'Concurrent openings of one file through one cache are all correct',
     'When several threads or processes call create_reader on the same file, or on files sharing a cache directory, '
     'at the same time, every call returns a reader equivalent to an uncached one, under every interleaving of their '
     'steps, and a later call with whatever the race left in the cache also does.',
     ['schedules'],
     'every interleaving, to a bounded number of preemptions, of the file system steps of concurrent calls starting '
     'from an empty, valid or damaged cache',
     'No test runs two creators concurrently; a race shows only under particular schedules.',
     ['segpy/reader.py'],
     [('cache load and save', 'segpy/reader.py')],
     ['the readers returned by each call and by a later call'],
     [('cache entry', 'shared by all creators; not written atomically', 'cache directory')])

prop('P21', 'A truncated file is refused or read correctly, never misread',
     'For every prefix of a valid file, create_reader either raises ValueError or EOFError or gives a reader of '
     'exactly the traces whose headers lie wholly within the prefix; it refuses when the reel headers or declared '
     'extended textual pages are incomplete. For each such trace the header is right, and samples are either right '
     'or EOFError is raised because some of the requested bytes are missing; sub-ranges that are present are read.',
     ['crash_points', 'inputs'],
     'every prefix length of a set of files covering sample formats, byte orders and extended headers',
     'Tests try a single too-short file.',
     ['segpy/reader.py', 'segpy/toolkit.py'],
     [('create_reader', 'segpy/reader.py'), ('read_binary_values', 'segpy/toolkit.py'),
      ('read_textual_reel_header', 'segpy/toolkit.py')],
     ['exceptions', 'reader contents'])

prop('P22', 'I/O errors are reported and never become wrong data',
     'If any single read, seek, tell or write on the caller\'s file object fails with an OSError while reading or '
     'writing, the error reaches the caller and no wrong or partial result is returned; output already written is a '
     'correct beginning of the file. The same reader or a repeated call then works correctly once the fault has '
     'gone, and an error raised by the dataset or by the progress callback likewise propagates.',
     ['fault_sequences'],
     'a fault at every single I/O call of opening, of each read operation and of writing, and at each call on the '
     'dataset and the callback, followed by a retry',
     'No test injects faults.',
     ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/writer.py', 'segpy/util.py'],
     [('file_length, restored_position_seek', 'segpy/util.py'), ('read_*/write_*', 'segpy/toolkit.py')],
     ['exceptions', 'results of the retry', 'bytes written'])

prop('P23', 'Progress is reported between zero and one and ends with one',
     'For every file and dataset, create_reader, catalog_traces and write_segy call the progress callback only with '
     'numbers from zero to one, never decreasing, and the last call passes one; a callback that is given makes no '
     'difference to the result. Anything not callable raises TypeError.',
     ['inputs', 'configurations'],
     'every trace length vector to a bound, including no traces and truncated last traces, with and without extended '
     'headers and cache hits',
     'Tests use one file and only check the final value.',
     ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/writer.py'],
     [('progress_callback', 'segpy/toolkit.py')],
     ['arguments of the callback'])

prop('P24', 'Sorted sets and reversed views behave as the sequences they model',
     'SortedFrozenSet is an immutable sorted duplicate-free sequence: membership, index, count, indexing, slicing, '
     'iteration, comparison, hashing and all set operations agree with those of the sorted list and the frozenset of its '
     'items; copies and pickles are equal sets. ReversedSequenceView agrees with the reversed list of the underlying sequence in all sequence '
     'operations, negative indexes and absent items included.',
     ['inputs', 'programs'],
     'all pairs of subsets of a small domain, all sequences with duplicates to a bound, every index and slice, and '
     'every sequence of set operations to a bounded depth',
     'Tests give a few examples.',
     ['segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py'],
     [('SortedFrozenSet', 'segpy/sorted_frozen_set.py'),
      ('ReversedSequenceView', 'segpy/reversed_sequence_view.py')],
     ['results of every operation'])

prop('P25', 'Sequence and interval helpers meet their specifications',
     'make_sorted_distinct_sequence gives the sorted distinct items in the requested (or, for None, the original) sense '
     'and reversed_range and range compression keep exactly the items. batched, pad, pairwise, roundrobin, minmax, '
     'first, last, is_sorted, contains_duplicates, measure_stride, round_up, all_equal, complementary_intervals, '
     'intervals_are_contiguous and intervals_partially_overlap give what their documentation says for every input.',
     ['inputs'],
     'every sequence to a bounded length over a small domain, every range with small parameters, every list of '
     'intervals on a small line, as lists, iterators and ranges',
     'Tests sample; empty, single, iterator and descending inputs are the corner cases.',
     ['segpy/util.py'],
     [('make_sorted_distinct_sequence', 'segpy/util.py'), ('complementary_intervals', 'segpy/util.py')],
     ['returned values'])

prop('P26', 'Numpy extraction agrees with the reader, trace by trace',
     'extract_trace, extract_inline_3d, extract_xline_3d, extract_timeslice_3d, extract_trace_headers and '
     'extract_trace_header_field_3d hold at each position the sample or field value the reader gives for that '
     'inline, crossline and sample, in ascending numbers without duplicates, for the whole or for any forward slice or '
     'subset of numbers. Positions without a trace or sample are masked, or the given null; numbers which are not '
     'in the survey raise ValueError.',
     ['inputs', 'configurations'],
     'every incomplete small grid x spacing x trace lengths x sample format x every slice and subset of inlines, '
     'crosslines and samples within bounds',
     'Tests cover the default arguments on complete grids.',
     ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/util.py',
      'segpy-ext/segpy_numpy/segpy_numpy/dtypes.py'],
     [('extract_*', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'),
      ('ensure_superset', 'segpy-ext/segpy_numpy/segpy_numpy/util.py')],
     ['returned arrays, masks and exceptions'])

prop('P27', 'The command line reports the facts of the file',
     'segpy metadata prints one JSON object with the number of traces, the dimensionality, the sample format and the '
     'greatest number of samples of the file, and segpy report prints the file name, revision, number of traces, '
     'sample format, dimensionality, number of CDPs or of inlines and crosslines, the 40 textual lines and '
     'the text of the extended textual headers, for every file, on a first and on a repeated (cached) run; an '
     'unusable log level is refused with a non-zero exit status.',
     ['inputs', 'histories'],
     'geometries x sample formats x encodings x revisions x sequences of the two commands',
     'The command line tests run one file.',
     ['segpy/cli.py', 'segpy/__main__.py'],
     [('handle_metadata', 'segpy/cli.py'), ('report', 'segpy/cli.py')], ['standard output'])

prop('P28', 'Unusable arguments are refused before anything is done',
     'create_reader raises ValueError for a closed or too short file, an unknown byte order or a dimensionality other '
     'than None, 1, 2 or 3, and TypeError for a text-mode or unseekable file or a callback that is not callable; '
     'write_segy raises TypeError or UnsupportedEncodingError for a bad callback or encoding and writes nothing. Every '
     'other combination of arguments is accepted, also for files without a name, named by descriptor or by a bytes '
     'path, and for each cache directory setting.',
     ['configurations', 'inputs'],
     'every combination of argument values from valid and invalid classes',
     'Tests try few invalid arguments one at a time.',
     ['segpy/reader.py', 'segpy/writer.py', 'segpy/util.py'],
     [('create_reader', 'segpy/reader.py'), ('write_segy', 'segpy/writer.py')],
     ['exceptions', 'bytes written'])

prop('P29', 'Reading is lazy and writing streams one trace at a time',
     'Opening a file without a cache reads its headers but none of its samples; reading a sub-range of a trace reads '
     'no more than was asked for, and nothing of other traces. write_segy asks the dataset for each trace\'s header '
     'and samples exactly once, in the order of trace_indexes(), and has passed on each trace before it asks for the '
     'next, so files larger than memory can be processed; '
     'and the index a reader keeps of a regular survey does not grow with its number of traces.',
     ['histories', 'inputs'],
     'every trace length vector to a bound, under an instrumented file object and an instrumented dataset; every '
     'prefix of the call trace is compared with the protocol',
     'Tests look at results, not at what is read or held meanwhile.',
     ['segpy/writer.py', 'segpy/reader.py', 'segpy/toolkit.py'],
     [('write_segy', 'segpy/writer.py'), ('catalog_traces', 'segpy/toolkit.py')],
     ['calls on the file object', 'calls on the dataset'])

prop('P30', 'A delegating dataset passes through all it does not override',
     'A DelegatingDataset gives for every member of the dataset interface exactly what its source gives, to any '
     'depth of nesting; a subclass overriding some members changes exactly those, and write_segy of the '
     'dataset writes the overridden values for those and the source\'s for all others.',
     ['programs', 'configurations'],
     'every subset of overridden members x nesting depth x source (a reader of each dimensionality, a memory dataset)',
     'No test enumerates subsets of overridden members.',
     ['segpy/dataset.py', 'segpy/writer.py'],
     [('DelegatingDataset', 'segpy/dataset.py')], ['member values', 'bytes written'])

prop('P31', 'Revision numbers are canonicalised or refused',
     'A revision of 0 means revision 0; 0x0100 and its common erroneous variants 1 and 100 mean revision 1, both when '
     'canonicalised and in a file being read; every other value is refused, with SegYRevisionError or, in a file, '
     'ValueError. reader.revision is the canonical constant, and reading and rewriting a file keeps its revision; '
     'in decimal a revision is its high byte and tenths of its low byte.',
     ['inputs'],
     'every 16-bit value of the revision field',
     'Tests list a few values.',
     ['segpy/revisions.py', 'segpy/binary_reel_header.py', 'segpy/toolkit.py'],
     [('canonicalize_revision', 'segpy/revisions.py'), ('SegYRevision', 'segpy/revisions.py')],
     ['reader.revision', 'exceptions'])

prop('P32', 'A pickled reader is restored to an equivalent reader',
     'Unpickling a pickled reader, of any dimensionality and at any point of its use, in this or another process, gives '
     'a reader of the same kind which reports and reads the same from the file of that name, at the same file position, '
     'also when repeated. Pickling is refused with TypeError when the file is closed or has no name, and unpickling '
     'when the file is gone or the version differs.',
     ['histories'],
     'every sequence, to a bounded depth, of reader calls, pickling and unpickling for each reader kind, sample format '
     'and byte order',
     'Tests pickle a fresh reader once.',
     ['segpy/reader.py', 'segpy/catalog.py', 'segpy/packer.py', 'segpy/header.py'],
     [('SegYReader.__getstate__/__setstate__', 'segpy/reader.py')],
     ['everything the restored reader reports'])

prop('P33', 'Sample values are stored exactly or refused, in every format',
     'Every value representable in a sample format is written and read back exactly, at every position of a trace and '
     'in either byte order, and a value beyond the range of the format is refused with an exception rather than wrapped '
     'or clipped. The tables describing the sample formats (code, type, size, limits, description) agree with each '
     'other and with what is written.',
     ['inputs', 'configurations'],
     'every int8 and int16 value; boundary sets for int32, float32 and ibm; values just outside each range',
     'Tests sample; the limits are hardly met.',
     ['segpy/datatypes.py', 'segpy/toolkit.py', 'segpy/ibm_float_packer.py'],
     [('pack_values, unpack_values', 'segpy/toolkit.py'), ('tables', 'segpy/datatypes.py')],
     ['bytes written', 'values read', 'exceptions'])

prop('P34', 'Threads working on different objects do not disturb each other',
     'When two threads of a process use segpy at the same time, each with readers, datasets, files, headers, catalogs and '
     'numbers of its own, every operation (opening, reading, writing, packing, converting, formatting, extracting) gives in '
     'each thread what it gives alone, under every interleaving, from the first use after importing, and also afterwards.',
     ['schedules'],
     'every interleaving with one preemption (thorough two) at source lines of segpy, of pairs of operations, in a process '
     'which has just imported it',
     'All tests are single-threaded; state shared by accident shows only under particular schedules.',
     ['segpy/reader.py', 'segpy/packer.py', 'segpy/header.py', 'segpy/toolkit.py', 'segpy/catalog.py'],
     [('values of fields by instance', 'segpy/header.py'), ('make_header_packer', 'segpy/packer.py')],
     ['results in each thread', 'results afterwards'],
     [('module and class attributes', 'shared by all threads', 'segpy')])

prop('P35', 'Header formats of the user are honoured throughout',
     'With any trace header format class of 240 bytes that has a sample count, and any binary reel header format class derived from the '
     'standard one, create_reader takes sample counts, survey geometry, sample format, extended pages and revision from where '
     'those formats place them, whatever lies in bytes they have no field for; headers come back as instances of those classes '
     'with the values in the file, a part of a header as in the whole, and write_segy with the same trace header format, of the '
     'reader, of a delegating dataset or of headers made anew, puts every field at its place and zeros elsewhere, in either byte '
     'order. The same holds through the cache.',
     ['inputs', 'configurations'],
     'every placement of the fields a reader relies on over a set of places, every subset of them present, shared bytes, origins '
     'and types; every standard field as the new place of each; every relocated or added reel header field',
     'Tests use the standard formats, and one or two examples of others.',
     ['segpy/toolkit.py', 'segpy/header.py', 'segpy/packer.py', 'segpy/reader.py', 'segpy/writer.py'],
     [('catalog_traces: CatalogSubFormat', 'segpy/toolkit.py'), ('SubFormatMeta', 'segpy/header.py'),
      ('make_header_packer', 'segpy/packer.py')],
     ['everything the reader reports', 'bytes written'])

prop('P36', 'Programs made of readers, delegating datasets and the writer do what they say',
     'Each example program - copying a file (also with the bytes the standard leaves unassigned), converting the sample format, scaling samples or source coordinates, extracting a '
     'time slice, an inline or a trace header field, listing positions, reporting - and every chain of those which transform, started on any conforming file, gives exactly the file, '
     'array or text its documentation promises: everything it does not claim to change is as before, the input is untouched, '
     'progress is told in increasing whole percentages, and unusable arguments and files are refused with a non-zero status.',
     ['inputs', 'histories'],
     'every program x sample formats x encodings x page arrangements x geometries x arguments; all chains of two to four steps',
     'No test runs the examples; they are the composition of reader, delegation and writer a user starts from.',
     ['examples', 'segpy/dataset.py', 'segpy/reader.py', 'segpy/writer.py', 'segpy/datatypes.py'],
     [('DelegatingDataset', 'segpy/dataset.py'), ('write_segy', 'segpy/writer.py'), ('LIMITS', 'segpy/datatypes.py')],
     ['output files', 'standard output', 'exit statuses'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
