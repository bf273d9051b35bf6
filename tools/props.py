# -*- coding: utf-8 -*-
"""The properties: source of properties.jsonl and MANIFEST.json."""

NOTE = ('All paths of the real functions over the stated inputs are explored '
        'with symbolic values; each assertion is decided by Z3 for every '
        'value on the path; counterexamples are replayed on the unmodified '
        'code before they are reported, and a sample of paths is replayed to '
        'validate the encoding. Bounded: %s. Trusted: the engine in sx/ and '
        'Z3; %s.')

PROPS = [
 dict(
  id='C01', title='Record framing is lossless',
  statement='Reading a record stream yields exactly the records whose '
  'headers and payloads the stream holds, in order, with the tag, nesting '
  'level, size and sequence number each header encodes, and writing those '
  'records back yields the same bytes. A payload length of 4095 or more is '
  'carried by the extended length word. A stream that ends inside a header '
  'or a payload is reported as an error instead of yielding a shortened '
  'record.',
  quantifier='every header word, every payload length class (short, '
  'extended), every payload content, every truncation point',
  why='The tests read a handful of sample streams; lengths at the 4094/4095 '
  'boundary, empty payloads, extended lengths below 4095 and truncation '
  'inside headers do not occur in them.',
  files=['src/hwp5/recordstream.py', 'src/hwp5/dataio.py'],
  mechanism=[('header codec', 'hwp5.recordstream.decode_record_header / '
              'encode_record_header'),
             ('record loop', 'hwp5.recordstream.read_record / read_records '
              '/ dump_record')],
  observe=['hwp5.recordstream.read_records', 'RecordStream.records'],
  note=NOTE % ('streams of up to 3 records (5 thorough), payload bytes '
               'symbolic up to 6; extended lengths up to 4100 with opaque '
               'content', 'the header layout as transcribed in the harness'),
 ),
 dict(
  id='C02', title='Selecting and grouping records keeps the stream intact',
  statement='Grouping the records of a stream by top-level record '
  'partitions the stream: every record is in exactly one group, in order, '
  'and each group starts with a record of the lowest level. Selecting '
  'records by index, by range or by group returns exactly the records at '
  'those positions, and a position outside the stream is reported rather '
  'than silently answered with another record.',
  quantifier='every sequence of record levels and tags, every range, index '
  'and group number',
  why='Tests use fixed sample streams and a few indices; boundaries of '
  'ranges and groups and level patterns are not swept.',
  files=['src/hwp5/recordstream.py', 'src/hwp5/treeop.py'],
  mechanism=[('grouping', 'hwp5.recordstream.group_records_by_toplevel'),
             ('selection', 'hwp5.recordstream.RecordStream.records / record '
              '/ records_treegrouped / records_treegroup')],
  observe=['RecordStream.records', 'RecordStream.records_treegroup'],
  note=NOTE % ('up to 6 records (10 thorough) with arbitrary levels',
               'none beyond those'),
 ),
 dict(
  id='C03', title='Level sequences and element events describe the same tree',
  statement='The element events produced from a sequence of nested items '
  'are balanced, start and end every item exactly once in document order, '
  'and nest an item in the closest preceding item of a lower level. Building '
  'a tree from events and walking it gives back the same events; a sequence '
  'that skips a level is reported as an error and ancestors reported for an '
  'item are those of the tree.',
  quantifier='every sequence of levels', over=['inputs'],
  why='The tests check three hand-written level sequences.',
  files=['src/hwp5/treeop.py'],
  mechanism=[('prefix events', 'hwp5.treeop.prefix_event / build_subtree / '
              'tree_events / tree_events_multi'),
             ('ancestors', 'hwp5.treeop.prefix_ancestors / '
              'prefix_ancestors_from_level')],
  note=NOTE % ('sequences of up to 5 items (7 thorough), arbitrary levels',
               'none beyond those'),
 ),
 dict(
  id='C04', title='Records decode to the values their bytes encode',
  statement='Every known kind of record and control decodes into the fields '
  'of its layout with exactly the values its bytes encode, for the layout '
  'that its format version, its parent record and its own discriminating '
  'fields select. Bytes after the last field are kept as unparsed remainder '
  'and never alter the fields, and the model read for a record depends on '
  'nothing but that record, its ancestors and the format version.',
  quantifier='every record kind, every payload byte, every version, every '
  'parent that selects a layout',
  why='Sample documents exercise one value per field at one or two format '
  'versions; most fields are never compared with anything.',
  files=['src/hwp5/binmodel/', 'src/hwp5/bintype.py', 'src/hwp5/dataio.py'],
  mechanism=[('type resolution', 'hwp5.bintype.resolve_typedefs / '
              'resolve_values_from_stream / construct_composite_values'),
             ('record context', 'hwp5.binmodel.parse_models_intern / '
              'parse_model_with_parent'),
             ('layouts', 'hwp5.binmodel.*.attributes / parse_with_parent')],
  observe=['hwp5.binmodel.parse_models', 'ModelStream.models'],
  note=NOTE % ('arrays of 0..2 items (3 thorough), texts of up to 3 code '
               'units, finite doubles', 'the layout tables harness/spec.py, '
               'transcribed independently from the HWP 5 format'),
 ),
 dict(
  id='C05', title='Flag words split into exactly their bit fields',
  statement='Every bit field of every flag word reports exactly the bits '
  'the format assigns to it, whatever the remaining bits are, and '
  'enumerated fields report the named value, or the plain number when the '
  'format has no name for it. The flag word as a whole keeps its value.',
  quantifier='every value of every flag word',
  why='Tests look at one or two flag words; most bit fields are never '
  'compared with anything.',
  files=['src/hwp5/dataio.py', 'src/hwp5/binmodel/', 'src/hwp5/bintype.py'],
  mechanism=[('bit fields', 'hwp5.dataio.Flags / BitField / Enum')],
  note=NOTE % ('all values of all flag words of 8, 16 and 32 bits',
               'the bit field tables harness/spec.py'),
 ),
 dict(
  id='C06', title='Damaged records are reported where they are',
  statement='A record whose payload ends before its last fixed-size field '
  'is reported with a parse error that names the record, the offset and the '
  'stream, never as a decoded model with made-up values and never as any '
  'other kind of failure. The effort spent on a record is bounded by its '
  'payload: an item count that the payload cannot hold is reported without '
  'expanding the announced number of items first.',
  quantifier='every record kind, every truncation point, every item count',
  over=['inputs', 'fault_sequences'],
  why='Tests hold a single truncated sample.',
  files=['src/hwp5/binmodel/__init__.py', 'src/hwp5/bintype.py',
         'src/hwp5/dataio.py'],
  mechanism=[('error wrapping', 'hwp5.binmodel.parse_model / '
              'hwp5.bintype.resolve_values_from_stream'),
             ('fixed-size reads', 'hwp5.dataio.readn / ParseError')],
  note=NOTE % ('payloads cut at every byte; counts over their whole width',
               'the layout tables harness/spec.py; work is bounded by a '
               'limit on the size of the payload times a constant'),
 ),
 dict(
  id='C07', title='Paragraph text splits into runs and control characters',
  statement='Paragraph text splits into consecutive chunks that cover it '
  'without gap or overlap: each control character is a chunk of its own, '
  'one or eight code units wide according to its kind, with the code and '
  'the parameters its units encode, and every other chunk is a maximal run '
  'of ordinary text. Chunk positions are in code units, and texts with no '
  'control characters come back unchanged.',
  quantifier='every sequence of code units',
  why='Tests have one sample paragraph; control characters adjacent to each '
  'other, at the ends and reserved codes do not occur.',
  files=['src/hwp5/binmodel/controlchar.py',
         'src/hwp5/binmodel/tagid67_para_text.py'],
  mechanism=[('scanner', 'hwp5.binmodel.controlchar.ControlChar.find'),
             ('chunking', 'hwp5.binmodel.tagid67_para_text.ParaTextChunks')],
  note=NOTE % ('texts of up to 3 ordinary units around up to two control '
               'characters (more in thorough)', 'the table of control '
               'characters in the harness'),
 ),
 dict(
  id='C08', title='Character shapes and line segments divide paragraph text',
  statement='When paragraph text is divided by character shapes, by line '
  'segments or both, every code unit and every control character is emitted '
  'exactly once and in order, each with the character shape and in the line '
  'segment in force at its position. Positions count code units, so '
  'characters outside the basic plane take two.',
  quantifier='every text, every increasing set of shape and line positions',
  why='Tests have two fixed paragraphs with hand-made positions.',
  files=['src/hwp5/xmlmodel.py'],
  mechanism=[('ranges', 'hwp5.xmlmodel.make_ranged_shapes / split_and_shape '
              '/ line_segmented / make_texts_linesegmented_and_charshaped')],
  note=NOTE % ('texts of up to 5 units, up to 3 shapes and 2 line segments '
               'at arbitrary positions', 'none beyond those'),
 ),
 dict(
  id='C09', title='A section becomes one ordered, complete element tree',
  statement='The element events of a section are balanced and form one tree '
  'that holds every paragraph, text, control, table cell, note and field of '
  'the section exactly once, in document order and at its place: controls '
  'stand at their control character, cells in the row they name, a field '
  'spans from its start to its end, and paragraphs of lists belong to their '
  'list. Each section and column definition encloses the paragraphs that '
  'follow it up to the next definition.',
  quantifier='every section built from paragraphs, tables, notes, fields, '
  'section and column definitions', over=['inputs', 'programs'],
  why='Tests transform a few sample files and look at fragments of the '
  'output.',
  files=['src/hwp5/xmlmodel.py', 'src/hwp5/treeop.py'],
  mechanism=[('event filters', 'hwp5.xmlmodel.Section.events and the '
              'filters it chains: make_extended_controls_inline, '
              'match_field_start_end, make_paragraphs_children_of_listheader,'
              ' restructure_tablebody, wrap_section, wrap_columns')],
  observe=['hwp5.xmlmodel.Section.events'],
  note=NOTE % ('up to 3 paragraphs with up to 3 controls each, tables of up '
               'to 2x3 cells, nesting depth 2', 'the document generator '
               'harness/docmodel.py'),
 ),
 dict(
  id='C10', title='XML output is well-formed and keeps the values',
  statement='The XML written for a document is well-formed whatever '
  'characters its texts hold, and reading it back gives the same element '
  'names, nesting, attribute values and text, except that characters XML '
  'cannot represent are left out. Each value is written in the form of its '
  'type: numbers in decimal, flag words in upper case hex of their full '
  'width along with their fields, enumerated values by name, colours as '
  '#rrggbb, versions dotted, nested structures as child elements.',
  quantifier='every value of every type, every character',
  why='Tests compare a few literal strings; no unpaired surrogate, control '
  'character or extreme value occurs.',
  files=['src/hwp5/xmlmodel.py', 'src/hwp5/xmlformat.py'],
  mechanism=[('values', 'hwp5.xmlmodel.modelevents_to_xmlevents / '
              'xmlattrs'),
             ('escaping', 'hwp5.xmlformat.xmlevents_to_bytechunks')],
  observe=['XmlEvents.dump', 'XmlEvents.bytechunks', 'XmlEvents.open'],
  note=NOTE % ('attributes and texts of up to 2 arbitrary code points (4 '
               'thorough); all values of every scalar type; UTF-8 output',
               'the strict XML reader harness/xmlparse.py; floating point '
               'values are outside'),
 ),
 dict(
  id='C11', title='Text is divided into runs of one language',
  statement='The pieces into which a text is divided by language, put '
  'together, are the text; every piece has one language, and two pieces '
  'next to each other differ in language. A character belongs to the '
  'language group of its Unicode block, and characters without a language '
  'of their own join the piece before them, or the first piece after them '
  'at the start of the text. In an XML document this division never moves, '
  'drops or repeats characters of a paragraph or the character shape they '
  'have.',
  quantifier='every text', over=['inputs'],
  why='The tests try one mixed sentence.',
  files=['src/hwp5/xmlmodel.py', 'src/hwp5/charsets.py'],
  mechanism=[('division', 'hwp5.xmlmodel.tokenize_text_by_lang'),
             ('languages', 'hwp5.charsets.tokenize_unicode_by_lang')],
  note=NOTE % ('texts of 2 arbitrary code points, of 3 with one or two '
               'arbitrary, of 4 to 6 by class; paragraphs with two arbitrary '
               'characters', 'the table of Unicode blocks in the harness'),
 ),
 dict(
  id='C12', title='The file header identifies HWP 5 documents and their flags',
  statement='A compound file is taken for an HWP 5 document exactly if its '
  'header stream carries the signature of the format; everything else is '
  'refused with the error for that, whatever the header holds or wherever it '
  'ends. The version and each property flag reported are those encoded in '
  'the header, also in its textual form, and identical whichever view of the '
  'document is asked.',
  quantifier='every signature, version, flag word and truncation of the '
  'header', over=['inputs'],
  why='Sample files share a few versions and flag combinations; none has a '
  'damaged header.',
  files=['src/hwp5/filestructure.py', 'src/hwp5/dataio.py'],
  mechanism=[('signature', 'hwp5.filestructure.storage_is_hwp5file'),
             ('header', 'hwp5.filestructure.HwpFileHeader')],
  note=NOTE % ('all 32-byte signatures, all truncations, all versions and '
               'flag words', 'compound files themselves (a dictionary of '
               'streams stands in for them)'),
 ),
 dict(
  id='C13', title='Streams are handed out decrypted and decompressed',
  statement='Every stream of a document is handed out in the form its file '
  'header flags call for: compressed streams inflated, streams of '
  'distribution documents decrypted first, all others untouched, and '
  'password-protected streams as they are stored. Sections are listed in the numeric order of their '
  'names, each under the number in its name, and the preview text and the '
  'extra formats of a stream hold the same content as the stream.',
  quantifier='every flag word, every set of section numbers, every payload',
  over=['inputs'],
  why='Sample files have few flag combinations and at most one digit in '
  'section numbers.',
  files=['src/hwp5/filestructure.py', 'src/hwp5/storage/__init__.py',
         'src/hwp5/distdoc.py', 'src/hwp5/compressed.py'],
  mechanism=[('layers', 'hwp5.filestructure.Hwp5Compression / '
              'Hwp5DistDoc / Hwp5PasswordProtectedDoc / Hwp5File'),
             ('order', 'hwp5.filestructure.Sections')],
  note=NOTE % ('all flag words; payloads of 4 (12) arbitrary bytes; section '
               'numbers of up to 3 digits', 'zlib (modelled for stored '
               'blocks) and AES (a stand-in)'),
 ),
 dict(
  id='C14', title='Distribution document streams are decrypted with the '
  'right key',
  statement='The key of a distribution document stream is derived from the '
  'seed and contents of its leading record as the format defines, and the '
  'rest of the stream is decrypted with it block by block. Head and tail of '
  'such a stream are cut where the leading record ends, and streams that do '
  'not start with the right record are refused.',
  quantifier='every content of the leading record, every payload',
  over=['inputs'],
  why='One sample file exists, thus one seed.',
  files=['src/hwp5/distdoc.py', 'src/hwp5/crypto.py'],
  mechanism=[('key', 'hwp5.distdoc.decode_head_to_key / decode_head_to_sha1'),
             ('parts', 'hwp5.distdoc.read_distdoc_data / decrypt_tail')],
  note=NOTE % ('40 (400) seeds, for each all contents; 0..2 (4) blocks; '
               'every tag of the leading record', 'AES (a stand-in combines '
               'blocks and key)'),
 ),
 dict(
  id='C15', title='Compressed streams read the same however they are read',
  statement='A compressed stream yields the same bytes whatever sizes are '
  'asked for, however the source delivers its bytes and wherever chunk '
  'boundaries fall, and the raw deflate codec returns what it was given, '
  'all at once or piece by piece, also after a reset. A stream that cannot be inflated is handed '
  'out as it is stored.',
  quantifier='every content, every sequence of read sizes, every cut',
  over=['inputs', 'histories'],
  why='The tests read whole streams or by one chunk size.',
  files=['src/hwp5/compressed.py', 'src/hwp5/zlib_raw_codec.py',
         'src/hwp5/filestructure.py'],
  mechanism=[('streams', 'hwp5.compressed.decompress / '
              'decompress_gen / decompress_experimental'),
             ('codec', 'hwp5.zlib_raw_codec')],
  note=NOTE % ('contents of up to 6 (9) bytes in two blocks, three (four) '
               'reads, every buffer size up to 8', 'zlib (modelled for '
               'stored blocks)'),
 ),
 dict(
  id='C16', title='Summary information decodes to the values it holds',
  statement='Every property of the document summary is reported with the '
  'value its bytes encode, wherever in the stream and in whatever order '
  'values and table lie, and with the label of its property set; properties '
  'of unknown types or missing dictionaries do not hide others. File times '
  'are converted exactly. Accessors, plain text, events and XML show the '
  'same values.',
  quantifier='every value of every property, every arrangement',
  over=['inputs', 'histories'],
  why='Sample summaries all have the same arrangement and one set of '
  'values.',
  files=['src/hwp5/msoleprops.py', 'src/hwp5/summaryinfo.py',
         'src/hwp5/xmlmodel.py'],
  mechanism=[('format', 'hwp5.msoleprops.PropertySetStreamReader / '
              'PropertyReader'),
             ('views', 'hwp5.msoleprops.PropertySetStreamTextFormatter, '
              'hwp5.summaryinfo, hwp5.xmlmodel.HwpSummaryInfo')],
  note=NOTE % ('one or two sets with up to 15 properties, texts of 2 (4) '
               'characters, all numbers, all file times up to the year 9999',
               'datetime arithmetic (modelled exactly)'),
 ),
 dict(
  id='C17', title='Generated streams can be read in any pieces',
  statement='Reading a generated stream (bytes, text or a JSON array) in any '
  'sequence of sizes yields what reading it at once yields: nothing is lost, '
  'repeated or reordered, no read returns more than asked for, and nothing '
  'is returned only at the end. What is asked for in another encoding '
  'is the same text.',
  quantifier='every way the content is cut into chunks, every sequence of '
  'read sizes',
  over=['inputs', 'histories'],
  why='The tests read with one fixed sequence of sizes and chunks.',
  files=['src/hwp5/utils.py', 'src/hwp5/storage/__init__.py',
         'src/hwp5/recordstream.py'],
  mechanism=[('readers', 'hwp5.utils.GeneratorReader / GeneratorTextReader'),
             ('arrays', 'hwp5.utils.JsonObjects')],
  note=NOTE % ('up to 3 chunks of 0..2 characters, 3 (4) reads, arrays of '
               'up to 2 (3) objects', 'json (modelled)'),
 ),
 dict(
  id='C18', title='Every storage backend shows the same tree of streams',
  statement='Listing a storage names exactly its streams and storages, each '
  'of which can be looked up by its name and by its path, at any depth, with '
  'the content stored; any other name is reported as missing. All backends '
  'agree on this, and so do the commands that print listings and contents. '
  'Extra formats of items are found besides the items themselves and never '
  'hide them.',
  quantifier='every tree of streams and storages, every name looked up',
  over=['inputs', 'configurations'],
  why='The tests only run the backends installed and a handful of sample '
  'files, whose storages are at most two levels deep.',
  files=['src/hwp5/storage/__init__.py', 'src/hwp5/storage/ole.py',
         'src/hwp5/plat/olefileio.py', 'src/hwp5/plat/gsf.py',
         'src/hwp5/plat/_uno/__init__.py', 'src/hwp5/plat/jython/poifs.py',
         'src/hwp5/storage/fs.py', 'src/hwp5/proc/ls.py',
         'src/hwp5/proc/cat.py'],
  mechanism=[('lookup', 'hwp5.storage.open_storage_item / iter_storage_leafs '
              '/ ExtraItemStorage'),
             ('backends', 'OleStorage of hwp5.plat.olefileio, gsf, _uno and '
              'jython.poifs; hwp5.storage.fs.FileSystemStorage')],
  note=NOTE % ('9 (14) shapes of trees with up to 6 streams and 5 levels, '
               'arbitrary names over 6 characters',
               'stand-ins for the libraries under the backends'),
 ),
 dict(
  id='C19', title='Unpacking stays inside the directory and is complete',
  statement='Unpacking a storage creates files and directories only below '
  'the directory given, whatever names the storage holds, and an item whose '
  'name is no file name is left out without hiding others. All other items '
  'are written with the content they have, into directories that mirror the '
  'storages; if writing fails the failure is reported and no file is left '
  'open. The binary data of HTML output stays in its directory as well.',
  quantifier='every name of an item, every failing call',
  over=['inputs', 'fault_sequences'],
  why='Sample files have well-behaved names, and no write fails.',
  files=['src/hwp5/storage/__init__.py', 'src/hwp5/proc/unpack.py',
         'src/hwp5/hwp5html.py'],
  mechanism=[('unpacking', 'hwp5.storage.unpack'),
             ('html', 'hwp5.hwp5html.HTMLTransform.extract_bindata_dir')],
  note=NOTE % ('two arbitrary names of up to 3 (4) characters in storages up '
               'to three levels deep, a failure at any call',
               'a stand-in of a POSIX file system'),
 ),
 dict(
  id='C20', title='JSON and hex dumps show all of a record or model',
  statement='The JSON form of a record or model holds every entry of it, '
  'its payload and unparsed rest dumped byte by byte; streams are arrays of '
  'these in order, also when empty, for ranges and for groups. Hex dumps '
  'show every byte at its offset, sixteen to a line. Dumping leaves '
  'records and models as they are, thus dumping again yields the same.',
  quantifier='every record, every kind of model, every content',
  over=['inputs', 'histories'],
  why='The tests look at a few entries of few records, once.',
  files=['src/hwp5/dataio.py', 'src/hwp5/recordstream.py',
         'src/hwp5/binmodel/__init__.py', 'src/hwp5/utils.py',
         'src/hwp5/storage/__init__.py'],
  mechanism=[('dumps', 'hwp5.dataio.dumpbytes / hexdump'),
             ('json', 'hwp5.recordstream.record_to_json, '
              'hwp5.binmodel.model_to_json, hwp5.utils.JsonObjects')],
  note=NOTE % ('dumps of up to 33 (48) bytes, one model of each kind, '
               'streams of up to 3 records', 'json (modelled, replayed on '
               'the library)'),
 ),
 dict(
  id='C21', title='The commands print what they are asked for, all of it',
  statement='The commands for records, models, finding, listing, printing, '
  'headers, versions and distribution keys print exactly the records, '
  'models, items, bytes and fields that were asked for, each in the form '
  'chosen, whether they read a file or the standard input. Finding names '
  'every match of all conditions given, in all files, and what one damaged '
  'file lacks does not hide matches of others. Where a command cannot do '
  'what is asked for it says so and its exit status is not zero.',
  quantifier='every stream, every choice of options',
  over=['inputs', 'configurations'],
  why='The tests only parse options; no command is run on a stream.',
  files=['src/hwp5/hwp5proc.py', 'src/hwp5/proc/__init__.py',
         'src/hwp5/proc/records.py', 'src/hwp5/proc/models.py',
         'src/hwp5/proc/find.py', 'src/hwp5/proc/cat.py',
         'src/hwp5/proc/ls.py', 'src/hwp5/proc/rawunz.py',
         'src/hwp5/proc/diststream.py', 'src/hwp5/proc/header.py',
         'src/hwp5/proc/version.py', 'src/hwp5/binmodel/__init__.py'],
  mechanism=[('entry', 'hwp5.hwp5proc.main / main_argparser'),
             ('commands', 'hwp5.proc.records / models / find / cat / ls / '
              'rawunz / diststream / header / version .main')],
  note=NOTE % ('streams of up to 3 (4) records, printed streams of up to '
               '8193 bytes, all options of every command',
               'stand-ins for olefile, the block cipher and zlib; argparse '
               'runs as it is'),
 ),
 dict(
  id='C22', title='Field dumps show every field where it is stored',
  statement='Taken apart field by field, a record of any kind shows every '
  'field it stores, at the offset it is stored at, with the value stored '
  'there, in every version of the format. Text dumps and flat XML show the '
  'same fields, bits, array items and nested records of every record, none '
  'left out and none twice.',
  quantifier='every kind of record, every value of every field, every '
  'version',
  over=['inputs'],
  why='The tests never take a record apart field by field.',
  files=['src/hwp5/bintype.py', 'src/hwp5/xmldump_flat.py',
         'src/hwp5/proc/models.py', 'src/hwp5/proc/find.py',
         'src/hwp5/proc/xml.py', 'src/hwp5/binmodel/__init__.py'],
  mechanism=[('fields', 'hwp5.bintype.resolve_type_events / '
              'resolve_values_from_stream'),
             ('dumps', 'hwp5.proc.models and hwp5.proc.find, '
              'hwp5.xmldump_flat.xmldump_flat')],
  note=NOTE % ('one record of every kind with arbitrary fields, arrays of '
               'up to 2 items, documents of up to 2 sections with nested '
               'records', 'the layout table harness/spec.py'),
 ),
 dict(
  id='C23', title='Embedded files, numbers and parts in the XML of a document',
  statement='With embedding asked for, the XML of a document holds the '
  'whole content of every embedded file, in lines of base64 of at most 64 '
  'characters, marked as such, and never that of linked files; without it, '
  'none. Paragraphs, tables and shapes carry numbers of their own, counted '
  'from 0 in order over the whole document. All parts of the document are '
  'there once, in order.',
  quantifier='every content of embedded files, every arrangement of '
  'sections',
  over=['inputs', 'configurations'],
  why='The tests look at single attributes of two documents.',
  files=['src/hwp5/xmlmodel.py', 'src/hwp5/filestructure.py',
         'src/hwp5/treeop.py'],
  mechanism=[('embed', 'hwp5.xmlmodel.embed_bindata'),
             ('numbers', 'hwp5.xmlmodel.give_elements_unique_id'),
             ('parts', 'hwp5.xmlmodel.Hwp5File.events, Sections.events, '
              'XmlEvents')],
  note=NOTE % ('up to 3 (4) embedded files of up to 66 bytes, documents of '
               'up to 3 sections', 'a stand-in for olefile; base64 and zlib '
               '(modelled, replayed on the library)'),
 ),
 dict(
  id='C24', title='Character shapes are shown with the fonts they refer to',
  statement='A character shape names a font for every script by its place '
  'among the fonts of that script. The fonts of a script are exactly those '
  'the document stores for it, in order, and looking up the font of a '
  'character shape for a script gives the font stored at that place among '
  'them; a place beyond them gives an error or nothing, never the font of '
  'another script.',
  quantifier='every count of fonts per script, every reference',
  over=['inputs'],
  why='The tests look up one font of one document.',
  files=['src/hwp5/binmodel/__init__.py', 'src/hwp5/binmodel/_shared.py'],
  mechanism=[('fonts', 'hwp5.binmodel.DocInfo.facenames_by_lang / '
              'charshapes / get_charshape / charshape_lang_facename')],
  note=NOTE % ('up to 3 (4) fonts over the seven scripts, up to 2 character '
               'shapes', 'a stand-in for olefile'),
 ),
 dict(
  id='C25', title='Converters write all of a conversion, or fail',
  statement='The converters to text, HTML and ODT write exactly the outputs '
  'asked for, where they are asked for, with every embedded file in full; '
  'an ODT package starts with its type and its manifest lists every file in '
  'it. Where anything fails, a document is damaged, or a result is invalid, '
  'the exit status says so. Either way no temporary file is left and '
  'everything opened is closed.',
  quantifier='every content of embedded files, every option, a failure at '
  'any operation, a stream cut at any place',
  over=['inputs', 'configurations', 'fault_sequences'],
  why='The tests convert two documents once and nothing fails in them.',
  files=['src/hwp5/hwp5txt.py', 'src/hwp5/hwp5html.py',
         'src/hwp5/hwp5odt.py', 'src/hwp5/transforms/__init__.py',
         'src/hwp5/utils.py'],
  mechanism=[('converters', 'hwp5.hwp5txt.main, hwp5.hwp5html.main, '
              'hwp5.hwp5odt.main'),
             ('package', 'hwp5.hwp5odt.ODTPackage / manifest_xml'),
             ('transforms', 'hwp5.transforms.BaseTransform')],
  note=NOTE % ('a document with up to 2 embedded files, one failure',
               'stand-ins for files, archives, olefile, the stylesheet '
               'processor and the validator'),
 ),
 dict(
  id='C26', title='Temporary files and programs that output passes through',
  statement='Temporary files hold what is written to them meanwhile and are '
  'removed afterwards, whatever fails. Output that passes through programs, '
  'validators and highlighters on its way arrives in full and in order, '
  'formatted and paged only on a terminal; where a program is missing it '
  'arrives as it is. An invalid result is never passed on as valid, a '
  'failing stylesheet processor or cipher is reported, and quitting the '
  'pager early is no error.',
  quantifier='every content, every exit status, a failure at any operation, '
  'a pipe that breaks at any write',
  over=['inputs', 'configurations', 'fault_sequences'],
  why='The tests never fail, nor do they have a terminal.',
  files=['src/hwp5/utils.py', 'src/hwp5/plat/__init__.py',
         'src/hwp5/plat/_lxml.py', 'src/hwp5/plat/xmllint.py',
         'src/hwp5/plat/xsltproc.py', 'src/hwp5/transforms/__init__.py',
         'src/hwp5/proc/xml.py', 'src/hwp5/hwp5html.py',
         'src/hwp5/hwp5odt.py'],
  mechanism=[('temporary files', 'hwp5.utils.mkstemp_open, make_temp_file, '
              'hwp5_resources_path, unlink_path'),
             ('filters', 'hwp5.utils.output_thru_subprocess, '
              'cascade_contextmanager_filters, wrap_open_dest_for_tty, '
              'syntaxhighlight, pager'),
             ('validators', 'RelaxNG.validating_output of hwp5.plat._lxml '
              'and hwp5.plat.xmllint'),
             ('cipher', 'hwp5.plat.get_aes128ecb_decrypt_openssl')],
  note=NOTE % ('up to 3 (5) writes of 2 bytes, up to 3 (5) filters',
               'stand-ins for files, processes, lxml and pygments'),
 ),
 dict(
  id='C27', title='What is available and asked for does the work',
  statement='Of the modules and programs that can open compound files, '
  'decrypt, transform or validate, the most preferred one that is available '
  'is used, and conversions work, or fail openly, with any set of them. '
  'Programs named by the environment are used instead of those on the path, '
  'by every converter. What is logged, and where, is as the options say, '
  'and else as the environment says.',
  quantifier='every set of available modules and programs, every setting',
  over=['configurations'],
  why='The tests run where everything is installed.',
  files=['src/hwp5/plat/__init__.py', 'src/hwp5/plat/olefileio.py',
         'src/hwp5/plat/xsltproc.py', 'src/hwp5/plat/xmllint.py',
         'src/hwp5/plat/_uno/__init__.py', 'src/hwp5/cli.py',
         'src/hwp5/transforms/__init__.py', 'src/hwp5/hwp5txt.py',
         'src/hwp5/hwp5html.py', 'src/hwp5/hwp5odt.py'],
  mechanism=[('selection', 'hwp5.plat.get_xslt / get_xslt_compile / '
              'get_relaxng / get_relaxng_compile / get_olestorage_class / '
              'get_aes128ecb_decrypt'),
             ('programs', 'hwp5.cli.init_with_environ, is_enabled of '
              'hwp5.plat.xsltproc and xmllint'),
             ('logging', 'hwp5.cli.init_logger')],
  note=NOTE % ('every combination of what is available; 8 values of each '
               'log level setting', 'stand-ins for libraries, programs, '
               'files'),
 ),
 dict(
  id='C28', title='Plain text holds every text of the body, in order',
  statement='The plain text of a document consists of the texts of all '
  'paragraphs of the body in document order, including those within fields, '
  'notes, headers and footers, each paragraph ending in one line end. Every '
  'table and drawing leaves its mark on a line of its own at its place. '
  'Nothing else is added, whatever lines, columns and sections the document '
  'has.',
  quantifier='every text, every order of things in paragraphs, every split '
  'into lines, columns and sections',
  over=['inputs'],
  why='The tests convert a few documents and compare them with earlier '
  'output.',
  files=['src/hwp5/xsl/plaintext.xsl'],
  mechanism=[('stylesheet', 'plaintext.xsl')],
  observe=['hwp5txt'],
  note=NOTE % ('paragraphs of up to 3 (4) things in up to 3 lines, two '
               'sections of two columns', 'the interpreter of XSLT in '
               'sx/xslt.py, compared with xsltproc on replayed paths'),
 ),
 dict(
  id='C29', title='HTML shows texts, tables and images as the document has '
  'them',
  statement='HTML output shows the texts of all paragraphs, tables, headers '
  'and footers in their order, and the style sheets give each the '
  'alignment, margins, indent, line spacing, fonts, sizes, colors, lines, '
  'borders and fills of its own shape, or of its style where it has none. '
  'Tables have their rows, cells, spans and captions, images their files and '
  'sizes, things their places, and pages the sizes and margins of '
  'their sections. A bullet comes only with bulleted paragraphs.',
  quantifier='every text, every number and color of a shape, every '
  'combination of shapes and styles within the bounds',
  over=['inputs'],
  why='The tests compare the output for one document with earlier output.',
  files=['src/hwp5/xsl/hwp5html.xsl', 'src/hwp5/xsl/hwp5css.xsl',
         'src/hwp5/xsl/hwp5css-common.xsl'],
  mechanism=[('structure', 'hwp5html.xsl'),
             ('rules', 'hwp5css-common.xsl: CharShape, ParaShape, Style, '
              'BorderFill, Bullet, PageDef, GShapeObjectControl')],
  observe=['hwp5html'],
  note=NOTE % ('two or three shapes, styles, borders; tables of 2 by 2; two '
               'sections; numbers up to ten million units', 'the '
               'interpreter of XSLT (compared with xsltproc on replayed '
               'paths) and the cascade of CSS in sx/'),
 ),
 dict(
  id='C30', title='OpenDocument texts hold texts, styles and pages of the '
  'document',
  statement='OpenDocument output holds the texts of all paragraphs, table '
  'cells, text boxes and notes in their order; every style, page layout and '
  'font it refers to is defined, once. Paragraphs and texts have the '
  'alignment, margins, indents, line spacing, fonts, sizes, weight and '
  'lines of their own shapes, or of their styles; pages, tables, cells, '
  'images and drawings have their sizes, margins, borders, fills and '
  'positions, and page breaks, notes and their numbers are kept.',
  quantifier='every text, every number and color of a shape, every '
  'combination of shapes and styles within the bounds',
  over=['inputs'],
  why='The tests compare the output for one document with earlier output.',
  files=['src/hwp5/xsl/odt/common.xsl', 'src/hwp5/xsl/odt/content.xsl',
         'src/hwp5/xsl/odt/styles.xsl', 'src/hwp5/xsl/odt/document.xsl'],
  mechanism=[('texts', 'common.xsl: Paragraph, LineSeg, Text, TableControl, '
              'ShapeComponent, FootNote, EndNote'),
             ('styles', 'common.xsl: style:style, style:text-properties, '
              'style-paragraph-properties-common, style:page-layout')],
  observe=['hwp5odt'],
  note=NOTE % ('two or three shapes, styles, borders; tables of 2 by 2; two '
               'sections; numbers up to ten million units', 'the '
               'interpreter of XSLT in sx/xslt.py, compared with xsltproc '
               'on replayed paths'),
 ),
]
