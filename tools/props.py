AI = 'abstract interpretation of the LLVM IR (gated value forms, canonical equality)'
NOTE = ('Every obligation is decided for all values of the input bytes that a partition leaves unknown, by canonical equality of value forms '
        'derived from the IR; the shape (counts, sizes, modes) is enumerated per partition. A report is made only for a refuted obligation. '
        'Trusted: clang\'s IR, the models of the C++ runtime and file streams in sva/models.py, the required layout stated in harness/.')


def P(id, title, statement, over, q, why, files, mech, technique=AI, note=NOTE, **anchors):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(anchors)
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a,
                technique=technique, note=note)


SAMPLES = 'the tests read a handful of revision 1, big-endian sample files and compare a few numbers'
PROPS = [
P('C01', 'SEG-Y binary header fields are decoded from their standard places',
  'For every SEG-Y file the reader reports each field of the 400-byte binary header from the byte positions, width and signedness the standard '
  'assigns, in the byte order that the file\'s byte-order word announces (big-endian when absent). Fields that a revision does not define are '
  'reported as zero, and a binary header given by the caller takes the place of the one in the file.',
  ['inputs', 'configurations'], 'all contents of the header bytes, each byte order and each revision',
  SAMPLES + '; little-endian files, revision 0 and 2 and most fields are never read',
  ['src/ISEGY.cpp', 'include/CommonSEGY.hpp', 'include/util.hpp'],
  [('header decoding', 'ISEGY::Impl::fill_bin_header'), ('byte order selection', 'ISEGY::Impl::assign_raw_readers')]),
P('C02', 'SEG-Y binary header fields are encoded at their standard places',
  'Every writer puts each binary header field it was given at the standard position, in the byte order the header asks for, with the byte-order '
  'word stored so that a reader recognises that order, and leaves unassigned bytes zero. Reading the file back gives the same header values.',
  ['inputs', 'configurations'], 'all field values, the three byte orders, the three revisions',
  'the one writing test compares samples of a revision 0 file and never looks at the header bytes',
  ['src/OSEGY.cpp', 'src/OSEGYRev0.cpp', 'src/OSEGYRev1.cpp', 'src/OSEGYRev2.cpp'],
  [('header encoding', 'OSEGY::Impl::write_bin_header'), ('byte order selection', 'OSEGY::Impl::assign_raw_writers')]),
P('C03', 'SEG-Y trace header values are decoded as the header map says',
  'Each value of a trace header map (default or supplied, main or additional header) is read from the mapped offset with the width, signedness '
  'and number format of its mapped type in the byte order of the file, and is reported as an integer or floating-point value accordingly. '
  'Exactly the mapped names are reported.',
  ['inputs', 'configurations'], 'all header bytes, all value types, offsets and byte orders',
  SAMPLES + '; no test uses a map with 24-bit, 64-bit or floating-point values',
  ['src/ISEGY.cpp', 'src/CommonSEGY.cpp'], [('header decoding', 'ISEGY::Impl::read_trc_header')]),
P('C04', 'SEG-Y trace header values are encoded as the header map says',
  'A value set in a trace is written at the offset its map entry gives, in the mapped type and the byte order of the file, also when the trace '
  'holds it as the other number kind; bytes that no entry covers, and values the trace does not have, are written as zero. Reading the trace with '
  'the same map gives the same values.',
  ['inputs', 'configurations'], 'all values, value types, offsets, byte orders and numbers of additional headers',
  'the writing test uses one small set of integer headers of revision 0',
  ['src/OSEGY.cpp'], [('main header', 'OSEGY::Impl::write_trace_header'), ('additional headers', 'OSEGY::Impl::write_additional_trace_headers')]),
P('C05', 'SEG-Y samples are decoded exactly in every supported format',
  'For each supported sample format code the reader delivers, for every sample bit pattern and both byte orders, the number the standard defines '
  '(integers of 8 to 64 bits signed and unsigned, IBM and IEEE floating point), in file order. Codes the library does not support are refused.',
  ['inputs'], 'all sample bit patterns, all format codes, both byte orders',
  'one small file per format, big-endian, checking a few samples',
  ['src/ISEGY.cpp', 'include/util.hpp'], [('sample readers', 'ISEGY::Impl::assign_sample_reader'), ('raw readers', 'ISEGY::Impl::assign_raw_readers')]),
P('C06', 'SEG-Y samples are encoded exactly in every supported format',
  'For each supported format code a sample value that the format can represent is written as the bit pattern that stands for it, in the byte '
  'order of the file and in sample order, so that reading gives the value back. Codes the library does not support are refused.',
  ['inputs'], 'all representable sample values, all format codes, the three byte orders',
  'the writing test stores a handful of values in one format',
  ['src/OSEGY.cpp', 'include/util.hpp'], [('sample writers', 'OSEGY::Impl::assign_sample_writer'), ('raw writers', 'OSEGY::Impl::assign_raw_writers')]),
P('C07', 'SEG-Y traces are visited in order, each once, at their true extent',
  'Traces start after the text and binary headers (or where the file records it) and follow one another without gap or overlap, whatever mix of '
  'whole-trace and header-only reading is used, for fixed and variable trace lengths, additional trace headers, and sample counts above the signed '
  '16-bit range. Text headers and trailer stanzas, counted or closed by an end stanza, are reported and never taken for traces.',
  ['inputs', 'histories', 'configurations'], 'all contents, all mixes of reads, shapes enumerated per partition',
  'tests read whole traces of fixed-length files without extended headers or stanzas',
  ['src/ISEGY.cpp'], [('extents', 'ISEGY::Impl::read_trc_smpls_fix / read_trc_smpls_var / file_skip_bytes'), ('text headers', 'ISEGY::Impl::read_ext_text_headers'),
                      ('stanzas', 'ISEGY::Impl::read_trailer_stanzas')]),
P('C08', 'A written SEG-Y file reads back as what was given to the writer',
  'For each revision, whatever text headers, stanzas, additional headers, trace lengths and number of traces are written, and whether a binary '
  'header is given or left to the first trace, the file has exactly the bytes these parts need. A reader of it reports the revision, the text '
  'headers, the stanzas and all traces, with their header values and samples, in the order of writing.',
  ['inputs', 'histories', 'configurations'], 'all values and texts; numbers of parts enumerated per partition',
  'the only round trip tested is revision 0 with a fixed length',
  ['src/OSEGYRev0.cpp', 'src/OSEGYRev1.cpp', 'src/OSEGYRev2.cpp', 'src/OSEGY.cpp', 'src/ISEGY.cpp'],
  [('layout', 'OSEGYRev0::Impl / OSEGYRev1::Impl / OSEGYRev2::Impl'), ('stanzas', 'OSEGY::Impl::write_trailer_stanzas')]),
P('C09', 'SEG-Y text parts are exactly 3200 characters, carried verbatim',
  'A writer refuses a text header, extended text header or trailer stanza of any other length than 3200, and writes accepted text byte for byte; '
  'the reader returns it unchanged. Without a text the writer puts the 40 numbered standard cards, stamped for its revision (and in EBCDIC for '
  'revision 0).',
  ['inputs', 'configurations'], 'all texts, each position among the text parts, each revision',
  'no test writes a text of the wrong length or looks at the default text',
  ['src/OSEGYRev0.cpp', 'src/OSEGYRev1.cpp', 'src/OSEGYRev2.cpp', 'src/CommonSEGY.cpp'], [('validation and default', 'constructors of the writers')]),
P('C10', 'EBCDIC and ASCII conversion are inverse and follow the code chart',
  'Converting any text to EBCDIC and back, or to ASCII and back, gives the original text, for all 256 byte values at every position, and the '
  'length never changes. Letters, digits and punctuation have the codes of the standard\'s EBCDIC chart.',
  ['inputs'], 'all byte values and text lengths', 'the test converts one short string',
  ['src/CommonSEGY.cpp'], [('tables', 'e2a / a2e'), ('conversion', 'CommonSEGY::ebcdic_to_ascii / ascii_to_ebcdic')]),
P('C11', 'A trace header map is accepted exactly when it fits',
  'Readers and writers refuse a header map in which a value would reach outside the 240 bytes, two values overlap, a header name has not '
  'eight characters, or (revision 2) the number of additional headers is not the announced one. They accept every other map.',
  ['inputs', 'configurations'], 'all value types, offsets up to the full 32-bit range, distances and positions in the map',
  'tests use only valid maps', ['src/CommonSEGY.cpp'], [('validation', 'check_tr_hdr_map')]),
P('C12', 'SEG-Y writers refuse traces that do not fit the declared sample count',
  'A trace with other than the declared number of samples (in the binary header, or in the trace for variable length) is refused, never written '
  'partly or past a buffer; so is one lacking the sample count or interval that the operation needs, or having one that the revision cannot hold. '
  'An accepted trace adds exactly its header and its samples to the file.',
  ['inputs', 'histories', 'configurations'], 'each revision and format; declared and given counts enumerated',
  'tests write only well-formed traces', ['src/OSEGY.cpp', 'src/OSEGYRev0.cpp', 'src/OSEGYRev1.cpp', 'src/OSEGYRev2.cpp'],
  [('checks', 'OSEGY::Impl::write_trace_samples_fix / write_trace_samples_var'), ('first trace', 'set_min_hdrs')]),
P('C13', 'The sorted SEG-Y reader delivers each trace once, in key order',
  'Traces come in ascending order of the chosen header value and in file order among equal values, each exactly once, with whole and header-only '
  'reads mixed freely. Key, header and trace queries return all keys in order and exactly the matching traces up to the limit, without disturbing '
  'the traversal; a file without traces gives none, and a header that traces lack is refused.',
  ['inputs', 'histories'], 'all orders of up to four keys, all contents, mixes of reads and queries',
  'one test sorts one file by one header', ['src/ISEGYSorted1D.cpp'], [('index', 'ISEGYSorted1D::Impl::Impl'), ('cursor', 'ISEGYSorted1D::read_trace / read_header')]),
P('C14', 'The default SEG-Y header map and names are the standard\'s and complete',
  'The default map gives each standard trace header value its standard offset and width, in the main and in the standard extension header. Each '
  'of its names has a description, and each binary header constant names its own field.',
  ['configurations'], 'all entries of the tables', 'tests look at two or three names',
  ['src/CommonSEGY.cpp', 'include/CommonSEGY.hpp'], [('map', 'CommonSEGY::default_trace_header'), ('names', 'BinaryHeader::name_as_string')]),
P('C15', 'SEG-D general headers up to revision 2.1 are decoded correctly',
  'For every SEG-D record of revision 0 to 2.1 the reader reports each value of general header 1, of general header 2 and of general headers N from '
  'the nibbles or bytes, with the scale and signedness, that the standard assigns. General header 2 and headers N are reported exactly when the '
  'block count of header 1 announces them, and the counts of general header 2 rule where header 1 carries the mark for it.',
  ['inputs', 'configurations'], 'all header contents; revision, block counts and marks enumerated',
  'no test reads a SEG-D file', ['src/ISEGD.cpp', 'include/CommonSEGD.hpp'],
  [('general header 1', 'ISEGD::Impl::read_gen_hdr1'), ('general header 2', 'ISEGD::Impl::read_gen_hdr2_rev2'), ('general header N', 'ISEGD::Impl::read_rev2_add_gen_hdr_blks')]),
P('C16', 'SEG-D revision 3 general headers 2 and 3 are decoded correctly',
  'For every revision 3 record each value of general header 2 and of general header 3 is reported from its place with its width, signedness and '
  'unit, and the block counts of general header 2 rule when header 1 has '
  'the mark for it.',
  ['inputs', 'configurations'], 'all header contents; block counts and marks enumerated', 'no test reads a SEG-D file',
  ['src/ISEGD.cpp'], [('general headers 2 and 3', 'ISEGD::Impl::read_gen_hdr2_and_3')]),
P('C17', 'SEG-D revision 3 additional header blocks are decoded by their type',
  'Each additional general header block of a revision 3 record (vessel, survey, client, job, line, the source descriptions, auxiliary channels, '
  'coordinate reference, positions, relative position, sensor, calibration, timing, electrode, orientation, measurement) is recognised by its type byte '
  'and reported by the accessor of that type with every value from its own place. This holds at every position among the blocks and in any company.',
  ['inputs', 'configurations'], 'all block contents, each type, positions and combinations enumerated', 'no test reads a SEG-D file',
  ['src/ISEGD.cpp', 'src/CommonSEGD.cpp'], [('dispatch', 'ISEGD::Impl::read_rev3_add_gen_hdr_blks'), ('layouts', 'ISEGD::Impl::read_vessel_crew_id ... read_measurement_hdr')]),
P('C18', 'SEG-D channel set descriptors are decoded correctly',
  'Every channel set descriptor of every scan type (32 bytes up to revision 2.1, 96 bytes in revision 3) is reported in file order with each value '
  'from its place, with the unit, sign and scale the revision defines for it, and the fields that the revision does not define are reported as '
  'absent.',
  ['inputs', 'configurations'], 'all descriptor contents; revisions and counts enumerated', 'no test reads a SEG-D file',
  ['src/ISEGD.cpp', 'include/CommonSEGD.hpp'], [('decoding', 'ISEGD::Impl::read_ch_set_hdr')]),
P('C19', 'SEG-D trace headers and extensions are decoded as the maps say',
  'Each value of the 20-byte trace header is reported from its nibbles or bytes, with the extended file, channel set and channel numbers where the '
  'header marks them. Each trace header extension is decoded by the map for its position (the standard one, or maps given by the caller) in every '
  'value type; extensions without a map are passed over, and exactly the mapped names are reported. A map with a value that reaches outside the 32 '
  'bytes of its extension is refused.',
  ['inputs', 'configurations'], 'all header bytes; value types, offsets, numbers of extensions and maps enumerated', 'no test reads a SEG-D file',
  ['src/ISEGD.cpp', 'src/CommonSEGD.cpp'], [('trace header', 'ISEGD::Impl::read_trace_header'), ('extensions', 'ISEGD::Impl::read_trace_header_ext'), ('validation', 'CommonSEGD::CommonSEGD')]),
P('C20', 'SEG-D samples are decoded as their format code says',
  'For each supported format code (8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080) each stored word gives the sample its format '
  'defines, in file order and byte order, for every bit pattern, scaled by two to the power of the descale exponent of its channel set. Format 8015 '
  'shares exponents among four samples. Other codes are refused, and the number of samples is the one of the extension or the channel set.',
  ['inputs'], 'all sample bit patterns and descale exponents; format codes enumerated', 'no test reads a SEG-D file',
  ['src/ISEGD.cpp'], [('sample readers', 'ISEGD::Impl::assign_sample_reading'), ('samples', 'ISEGD::Impl::read_trace_samples')]),
P('C21', 'SEG-D records are traversed channel by channel without loss',
  'Traces are delivered in file order, each exactly once, over all scan types, channel sets and records; has_trace and has_record stay true until '
  'the last one. Skew blocks and the trailer are stepped over, extended and external header blocks are reported byte for byte, and at the start '
  'of the next record its own headers replace the former ones completely. A trace of an unknown channel set, a missing file and a file that ends '
  'early are reported by an exception.',
  ['inputs', 'histories', 'fault_sequences'], 'all contents; shapes, mixes of reads and truncation points enumerated', 'no test reads a SEG-D file',
  ['src/ISEGD.cpp'], [('records', 'ISEGD::Impl::read_headers_before_traces / read_trailer'), ('traversal', 'ISEGD::read_trace / has_trace / has_record')]),
P('C22', 'SEG-D record headers are encoded at their standard places',
  'The revision 2.1 writer puts each value of general headers 1, 2 and N, of every channel set, and of the extended and external blocks at its '
  'standard nibbles or bytes, in the order and number the headers announce. Values above what packed decimal holds get the mark and the extended '
  'field; unassigned bytes are zero.',
  ['inputs', 'configurations'], 'all binary values; packed decimal values and counts enumerated', 'no test writes a SEG-D file',
  ['src/OSEGD.cpp', 'src/OSEGDRev2_1.cpp'], [('general headers', 'OSEGD::Impl::write_general_header1 / write_general_header2_rev2 / write_rev2_add_gen_hdrs'), ('channel sets', 'OSEGD::Impl::write_ch_set_hdr')]),
P('C23', 'SEG-D traces are encoded as headers, maps and format say',
  'A trace is written as the 20-byte header, its extensions (each by its map in every value type, or the standard first one; zero elsewhere), and its '
  'samples, divided by the descale factor, as words of the announced format in file order. Values of the header and the standard extension that '
  'the trace lacks are zero, receiver line and point keep their fraction whichever number kind holds them, and numbers too large for their digits '
  'get the mark and the extended field. An unsupported format is refused.',
  ['inputs', 'configurations'], 'all header values and representable samples; formats, maps and packed decimal values enumerated', 'no test writes a SEG-D file',
  ['src/OSEGD.cpp'], [('trace header', 'OSEGD::Impl::write_trace_header'), ('extensions', 'OSEGD::Impl::write_ext_trace_headers'), ('samples', 'OSEGD::Impl::write_trace_samples')]),
P('C24', 'A written SEG-D record reads back; a contradictory one is refused',
  'Records written by the revision 2.1 writer are read back by the reader with the same general headers, channel sets, header blocks, traces, '
  'header values and samples in every supported format. A record whose counts contradict its parts, a map reaching outside its extension, a trace of an '
  'unknown channel set or of a wrong number of samples, and more traces than the record has are refused; a refused trace leaves no byte behind.',
  ['inputs', 'histories', 'configurations'], 'all values and samples; shapes enumerated', 'no test writes a SEG-D file',
  ['src/OSEGD.cpp', 'src/OSEGDRev2_1.cpp', 'src/ISEGD.cpp'], [('record', 'OSEGDRev2_1::OSEGDRev2_1'), ('trace', 'OSEGDRev2_1::write_trace')]),
P('C25', 'Traces and trace headers behave as independent values',
  'Copies, assignments and moves of traces and headers carry all header values and samples; afterwards a change of one object never shows in '
  'another, self-assignment changes nothing and a moved-from object can be assigned. Setting a name replaces or adds exactly that value, keys '
  'lists each name once, and an absent name gives no value.',
  ['inputs', 'histories'], 'all values; the operations in sequence', 'no test copies, assigns or moves a trace',
  ['src/Trace.cpp', 'include/Trace.hpp'], [('value operations', 'Trace and Trace::Header special members')]),
P('C26', 'Failures are reported by readable exceptions, never silently',
  'Opening a missing file, reading a file that ends early, an unsupported sample format or byte order raise an exception derived from the '
  'standard one; no incomplete trace is delivered. The library\'s exceptions keep their message (place and text) when copied, moved or rethrown.',
  ['inputs', 'fault_sequences'], 'truncation at each boundary, each format code and byte-order word',
  'no test provokes a failure', ['src/Exception.cpp', 'src/CommonSEGY.cpp', 'src/ISEGY.cpp'],
  [('stream failures', 'CommonSEGY::CommonSEGY'), ('exception', 'Exception copy and move')]),
P('C27', 'Readers and writers never influence one another',
  'Several readers and writers, of the same or different formats, revisions and files, used alternately in any order, each give exactly what they '
  'would give alone. No operation on an object changes storage that objects share, so separate objects can also be used from separate threads.',
  ['histories', 'schedules'], 'all file contents; pairs of formats and revisions and orders of use enumerated; all objects of static storage duration',
  'each test uses one object at a time', ['src/ISEGY.cpp', 'src/OSEGY.cpp', 'src/ISEGD.cpp', 'src/OSEGD.cpp', 'src/ISEGYSorted1D.cpp', 'src/CommonSEGY.cpp', 'src/CommonSEGD.cpp'],
  [('state of an object', 'CommonSEGY / CommonSEGD members'), ('tables', 'CommonSEGY::default_trace_header, CommonSEGD::sercel_*')],
  'abstract interpretation of the LLVM IR: alternating scenarios, and an effect check that no object of static storage duration is changed'),
P('C28', 'SEG-D field names and Sercel extension maps are complete and correct',
  'Each constant of each SEG-D header names its own field through name_as_string, all of them distinct, and the predefined trace header extension '
  'maps of the Sercel recorders give each value the offset and type of the manufacturer\'s layout, without overlap and within 32 bytes.',
  ['configurations'], 'all entries of the tables', 'no test touches the SEG-D tables', ['src/CommonSEGD.cpp', 'include/CommonSEGD.hpp'],
  [('names', 'CommonSEGD::*::name_as_string'), ('maps', 'CommonSEGD::default_trace_header / sercel maps')]),
P('C29', 'Packed decimal conversion is exact in both directions',
  'Reading a packed decimal number gives the value of its digits for every digit count and nibble alignment, and moves past exactly the bytes '
  'consumed; writing a number puts its digits, right-aligned and zero-filled, into the nibbles asked for and leaves a neighbouring nibble as the callers '
  'rely on. Reading gives back what was written.',
  ['inputs'], 'reading: all nibbles; writing: all numbers up to 999 (thorough: 9999) and longer ones by sample', 'the tests convert three numbers',
  ['include/util.hpp'], [('reading', 'from_bcd'), ('writing', 'to_bcd')]),
P('C30', 'The Python module binds every name to its own member',
  'Each class, field, method, constant and constructor of the library is offered by the Python module under its own name: reading or '
  'changing a field from Python touches that field and no other, text fields have the length of their member, and iterating a reader gives each '
  'trace once in order and then stops.',
  ['configurations', 'inputs'], 'all bindings; all contents of text fields and files', 'the Python module is neither built nor tested here',
  ['src/pybind/pybind.cpp'], [('bindings', 'PYBIND11_MODULE(pysedaman)')],
  'abstract interpretation of the LLVM IR of the module definition against a recording stand-in for pybind11'),
P('C31', 'SEG-D revision 3 headers are encoded where they are decoded from',
  'A writer derived from the abstract SEG-D writer puts each value of revision 3 general headers 2 and 3, of every type of additional block, of '
  'the 96-byte channel set descriptors and of the standard trace header extension at its standard place, with its width, sign and unit, and zero '
  'in unassigned bytes. Each additional block is written once with its own type, whatever other blocks accompany it, and such a record reads back.',
  ['inputs', 'configurations'], 'all binary values; block types, combinations, counts and packed decimal values enumerated', 'no test writes a SEG-D file',
  ['src/OSEGD.cpp', 'include/OSEGD.hpp'], [('general headers', 'OSEGD::Impl::write_general_header2_and_3'), ('blocks', 'OSEGD::Impl::write_rev3_add_gen_hdrs'),
   ('channel sets', 'OSEGD::Impl::write_ch_set_hdr'), ('trace header extension', 'OSEGD::Impl::write_ext_trace_headers')]),
]
NA = [
(P('N01', 'Values a format cannot hold exactly are written as a neighbour',
   'A finite sample or header value that lies in the range of a floating-point or exponent format but is not representable in it is written as one '
   'of the two representable values next to it.',
   ['inputs'], 'all finite values in range', 'tests write a few representable values', ['src/OSEGY.cpp', 'src/OSEGD.cpp'],
   [('floating-point writers', 'write_ibm_float, write_IEEE_float, the exponent formats')]),
 'needs a rounding-error argument over unknown mantissas and exponents (scaling, frexp, truncation of a product); the value domain follows '
 'powers of two exactly and has no interval or error component, and a bound would need a solver or execution. Representable values are decided in C06 and C23.'),
(P('N02', 'Reading any file, however malformed, ends without stray access',
   'Whatever counts, sizes and offsets a file announces, repeated reading reaches the last trace or an exception after a number of operations bounded by '
   'the size of the file, and no read touches memory outside its own buffers.',
   ['inputs'], 'all counts, sizes and offsets a file can announce', 'tests read a few small well-formed files', ['src/ISEGY.cpp', 'src/ISEGD.cpp'],
   [('traversal', 'read_trace, has_trace'), ('buffers', 'sizes taken from header fields')]),
 'quantifies over run-time sizes taken from the file (up to 2^64 samples, blocks or bytes of offset) that decide loop counts and allocations; the '
 'analysis enumerates shapes and has neither a relational domain for unknown sizes nor a cost model, so no sound bound is in reach. For the '
 'enumerated shapes, including truncated files, C07, C21 and C26 decide it.'),
]
