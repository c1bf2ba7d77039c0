p('C01', 'Record streams frame losslessly and select exactly',
  '''Any sequence of records, with any tags, levels and payload lengths (empty, short, at and
  beyond the short-size limit), that is serialised to a stream and read back yields the same
  tags, levels and payload bytes in the same order, numbered consecutively from zero, and
  serialising the records that were read gives the same bytes. Selecting one record by number, a
  number range, or one top-level tree yields exactly that part of the full sequence with its
  numbers, as records and as JSON alike; an empty selection is empty, not an error.''',
  ['inputs'], '''All record sequences (tag, level, payload), all payload lengths including 0,
  4094, 4095, 4096 and larger, and all index / range / tree selections inside or outside the
  stream.''',
  '''Tests read a handful of fixture streams and one hand-made record; no test has an empty
  payload, a payload at the extended-size boundary, or an out-of-range selection.''',
  [S+'recordstream.py', S+'dataio.py', S+'proc/records.py'],
  [('record header codec', S+'recordstream.py decode_record_header/encode_record_header'),
   ('record iteration and numbering', S+'recordstream.py read_records'),
   ('selection', S+'recordstream.py RecordStream.records/record/records_treegroup'),
   ('JSON stream of records', S+'recordstream.py records_json, '+S+'utils.py JsonObjects')],
  [('position', 'byte offset reached in the stream', S+'recordstream.py read_record'),
   ('seqno', 'number of the next record', S+'recordstream.py read_records')])

p('C02', 'A cut record stream yields its whole records, then an error',
  '''When a record stream ends early at any byte, every record that lies wholly before the cut is
  delivered unchanged and in order. A cut between two records ends the sequence normally, and a cut
  inside a header or payload ends it with an error. No record whose payload is shorter than its declared size is ever
  delivered.''',
  ['crash_points', 'inputs'], '''Every byte position at which a record stream can be cut, for every
  sequence of records, including extended-size headers and empty payloads.''',
  '''No test truncates a record stream; the number of cut points is the length of the stream.''',
  [S+'recordstream.py', S+'dataio.py'],
  [('short read detection', S+'dataio.py readn'), ('header at end of stream', S+'recordstream.py decode_record_header')])

p('C03', 'Record levels become a properly nested tree',
  '''Turning a level-annotated record sequence into start/end events gives balanced, properly nested
  events in which every record starts and ends exactly once, in stream order, inside the nearest
  preceding record of the next lower level; grouping by top-level record partitions the sequence into
  consecutive runs that each begin with a level-0 record. The ancestor, sub-tree and event
  views of one sequence agree with each other. A sequence in which a record
  lies more than one level below its predecessor is refused with an error rather than attached to some parent.''',
  ['inputs'], '''All level sequences starting at the base level, of any length and depth, including
  illegal jumps; all ways of consuming the groups (as lists or lazily).''',
  '''Tests check two or three fixed level sequences.''',
  [S+'treeop.py', S+'recordstream.py', S+'binmodel/__init__.py'],
  [('event generation', S+'treeop.py prefix_event'), ('ancestors', S+'treeop.py prefix_ancestors_from_level'),
   ('sub-tree building', S+'treeop.py build_subtree/tree_events'), ('top-level grouping', S+'recordstream.py group_records_by_toplevel')],
  [('stack', 'open records, one per level', S+'treeop.py')])

p('C04', 'Stored streams are shown exactly as the header flags prescribe',
  '''For every combination of the compressed, password and distributable flags, every stream of a
  document reads as exactly the transformation the flags prescribe: document info, body text, view
  text, binary data and script streams inflated when compressed; view text and
  script streams decrypted first when distributable; nothing altered in password
  documents; all other streams and the header always as stored. The document text is taken from the
  view text when distributable and from the body text otherwise. Every opening of a stream starts at its beginning and is independent of earlier openings.''',
  ['configurations', 'inputs', 'histories'], '''All flag combinations, sets of stored entries and contents, and all orders and
  repetitions of opening and partially reading streams.''',
  '''Fixtures cover plain compressed documents, one distribution document and one password document; combinations of
  flags (uncompressed distributable, password+compressed, ...) and re-opening histories are not sampled.''',
  [S+'filestructure.py', S+'storage/__init__.py', S+'compressed.py', S+'distdoc.py'],
  [('layer stack', S+'filestructure.py Hwp5File.__init__'), ('password pass-through', S+'filestructure.py Hwp5PasswordProtectedDoc'),
   ('decryption', S+'filestructure.py Hwp5DistDoc'), ('inflation', S+'filestructure.py Hwp5Compression'), ('conversion', S+'storage/__init__.py ItemConversionStorage')],
  [('header flags', 'which layers apply', S+'filestructure.py FileHeader')])

p('C05', 'Listing, addressing and unpacking of a document agree and stay contained',
  '''Every name in a document's storage listing, stored or derived view, opens under exactly that path and no
  unlisted name does; section streams are numbered and visited in numeric order. Unpacking writes exactly one file per listed stream with exactly the content that opening it
  gives, in the directory structure of the listing. Unpacking never writes outside its target directory, whatever
  the stored names are. (Names with a slash cannot be addressed; OLE containers ignore letter case; views of content that cannot be decoded do not open.)''',
  ['inputs'], '''All storage trees: names, nesting, section numbers, with and without derived views, including hostile names.''',
  '''Tests unpack two fixtures and compare a few names; fixtures have at most two sections and no hostile names.''',
  [S+'storage/__init__.py', S+'storage/fs.py', S+'filestructure.py', S+'proc/unpack.py', S+'proc/ls.py', S+'proc/cat.py', S+'plat/olefileio.py'],
  [('virtual streams', S+'storage/__init__.py ExtraItemStorage'), ('path lookup', S+'storage/__init__.py open_storage_item'),
   ('leaf iteration', S+'storage/__init__.py iter_storage_leafs'), ('unpack', S+'storage/__init__.py unpack'), ('OLE backend', S+'plat/olefileio.py')])

p('C06', 'Streaming readers and codecs do not depend on chunking',
  '''Inflating, deflating, transcoding or otherwise streaming a source gives the same total content for every split of the
  source into chunks and every sequence of read sizes. A sized read never returns more
  than asked for (sizes given to a transcoder are approximate), and returns nothing only at the end of the content; a whole read returns everything that is left. Raw-deflate encoding followed by decoding is the identity, on
  the incremental and the one-shot interfaces alike, also after a reset.''',
  ['inputs', 'schedules', 'histories'], '''All contents, all chunkings of the source, all sequences of read sizes (including 0, 1, negative = all), and reset histories.''',
  '''Tests use one content and two or three read sizes.''',
  [S+'utils.py', S+'compressed.py', S+'zlib_raw_codec.py', S+'filestructure.py'],
  [('generator readers', S+'utils.py GeneratorReader/GeneratorTextReader'), ('inflate stream', S+'compressed.py'),
   ('raw zlib codec', S+'zlib_raw_codec.py'), ('transcoder', S+'utils.py transcoder')],
  [('buffer', 'bytes produced but not yet delivered', S+'utils.py GeneratorReader')])

p('C07', 'Payloads are parsed field by field at exact offsets, leftovers kept',
  '''A payload is decoded into the fields its type declares, in declaration order and at contiguous offsets; a
  field gated on format version or on earlier values is read exactly when its gate holds, and arrays have
  exactly the declared number of elements. Bytes that no field consumes are delivered unchanged as unparsed remainder. When the payload ends inside a field,
  parsing fails with an error that carries the offset, the record and the stream path, and whose parse events end at that field, never with made-up values; the event view and the value view of one payload agree.''',
  ['inputs', 'programs'], '''All record type declarations (nested structures, conditions, version gates, counted and
  computed arrays, strings, selections) and all payloads: exact, longer, and cut at every byte.''',
  '''Tests declare a few structures and parse one payload each; cuts and version/condition combinations are not swept.''',
  [S+'bintype.py', S+'dataio.py', S+'binmodel/__init__.py', S+'binmodel/_shared.py'],
  [('type compilation', S+'bintype.py compile_type_definition/resolve_typedefs'), ('value resolution', S+'bintype.py resolve_values_from_stream'),
   ('leftover', S+'binmodel/__init__.py parse_model'), ('error', S+'dataio.py ParseError')],
  [('offset', 'bytes consumed', S+'bintype.py'), ('context', 'values of earlier fields', S+'bintype.py')])

p('C08', 'Every record type decodes by the layout of the format version',
  '''For every record type and control the system knows, and every format version, decoding the bytes of any field values
  laid out in the documented order for that version gives back exactly those values with nothing left over.
  Fields introduced by a later version are absent in older documents; the specialised type of a control, list header or control-data record is determined
  by its control code and its position in the record tree. Flag words decompose into their documented bit fields.''',
  ['inputs', 'configurations'], '''All record types x all format versions around every gate x all field values x all parents.''',
  '''Tests decode records of fixtures of a few versions and compare few fields.''',
  [S+'binmodel/__init__.py', S+'binmodel/_shared.py', S+'binmodel/tagid21_char_shape.py', S+'binmodel/tagid25_para_shape.py', S+'binmodel/tagid56_list_header.py',
   S+'binmodel/tagid55_ctrl_header.py', S+'binmodel/tagid60_shape_component.py', S+'binmodel/tagid61_table.py', S+'binmodel/controls/common_controls.py'],
  [('record models', S+'binmodel/tagid*.py'), ('controls', S+'binmodel/controls/*.py'), ('type specialisation', S+'binmodel/__init__.py resolve_model_events')])

p('C09', 'Paragraph text splits into chunks that partition it',
  '''Paragraph text of any sequence of 16-bit units is split into consecutive chunks that cover it exactly: runs of ordinary
  text and single control characters. Each control character occupies the one or eight units its code prescribes and keeps its code,
  its control id and its parameter bytes; the text of the runs and the units of the controls concatenate to the input.
  Positions of chunks are unit positions in the input. An unpaired surrogate reads as U+FFFD; input that ends inside a control character is a parse error.''',
  ['inputs'], '''All sequences of 16-bit code units, including reserved control codes, non-BMP pairs and control characters at any position.''',
  '''Tests decode one or two paragraph texts.''',
  [S+'binmodel/tagid51_para_text.py', S+'binmodel/controlchar.py'],
  [('chunking', S+'binmodel/tagid51_para_text.py ParaTextChunks'), ('control characters', S+'binmodel/controlchar.py ControlChar')])

p('C10', 'Text keeps every character, its shape, its line and its language',
  '''Splitting a paragraph's text by character-shape ranges, by line segments and by language keeps every character and every control exactly
  once and in order. Every piece of text carries the character shape whose range covers its position and lies in the line whose range covers it,
  and the pieces of one run are labelled with the language of their characters. This holds for
  any boundary positions, including none, coincident ones and ones inside a control or a non-BMP character.''',
  ['inputs'], '''All chunk sequences x all character-shape boundaries x all line boundaries x all characters.''',
  '''Tests use one paragraph; boundary combinations are exponential.''',
  [S+'xmlmodel.py', S+'charsets.py'],
  [('shape ranges', S+'xmlmodel.py make_ranged_shapes/split_and_shape'), ('lines', S+'xmlmodel.py line_segmented'), ('language', S+'xmlmodel.py tokenize_text_by_lang')])

p('C11', 'Each control object appears once, at its control character',
  '''In the converted document every control object of a paragraph, with its whole sub-tree, appears exactly once, at the place of its
  own control character (the n-th object at the n-th such character), in order of the text; ordinary characters and other control characters keep
  their places. This holds at every nesting depth (controls inside cells inside controls).''',
  ['inputs'], '''All paragraphs with any sequence of controls, control characters and text, nested to any depth, over any number of lines.''',
  '''Fixture documents contain only a few arrangements.''',
  [S+'xmlmodel.py'], [('inlining', S+'xmlmodel.py make_extended_controls_inline')])

p('C12', 'Converted documents are always balanced, also with fields',
  '''The converted event stream and XML of any document is balanced and properly nested. A field's start and end enclose exactly the
  content between its start and its end character; when that spans several lines or paragraphs of a list, every line's part is enclosed, and an end ends the innermost open field. A field without an end runs
  to the end of its paragraph list, an end without a field ends nothing: neither unbalances the document or captures content of another list (cell, note, text box, or what contains it).''',
  ['inputs'], '''All placements of field starts and ends over lines, paragraphs and nested lists, matched or not.''',
  '''Fixtures hold a few well-formed fields.''',
  [S+'xmlmodel.py'], [('field matching', S+'xmlmodel.py match_field_start_end')])

p('C13', 'Table cells are laid out in rows by the declared row counts',
  '''A table's cells appear exactly once, in order, grouped into rows so that the n-th row holds as many cells as the n-th declared
  row count; every row is opened and closed exactly once around its cells. This also holds with rows of zero cells (which are empty), captions, nested tables
  and tables with fewer or more cells than declared (rows lack them, or one more row has them): the result is balanced and no cell is lost.''',
  ['inputs'], '''All row-count vectors (with zeros), all numbers of cells, nesting of tables in cells.''',
  '''Fixtures have regular tables only.''',
  [S+'xmlmodel.py'], [('rows', S+'xmlmodel.py restructure_tablebody')])

p('C14', 'List headers own their paragraphs; sections and columns enclose theirs',
  '''In the converted document every paragraph list (cell, note, header, text box, caption) encloses exactly the
  paragraphs that belong to its list header, each once and in order, nested to any depth. Every section encloses all of its paragraphs under
  its section definition, and each column set encloses the paragraphs from its definition up to the next.''',
  ['inputs'], '''All trees of list headers and paragraphs, all placements of section and column definitions.''',
  '''Fixtures hold a few shapes of nesting.''',
  [S+'xmlmodel.py'], [('list nesting', S+'xmlmodel.py make_paragraphs_children_of_listheader'), ('sections', S+'xmlmodel.py wrap_section'), ('columns', S+'xmlmodel.py wrap_columns')])

p('C15', 'XML output round-trips every value and is always parseable',
  '''The XML written for a document is well-formed for every value in it and, parsed back, gives the same elements, nesting, attribute
  values and text. Characters that XML cannot represent are left out, everything else is kept. The output does not depend on the output encoding chosen or
  on how it is consumed in pieces.''',
  ['inputs', 'configurations'], '''All attribute and text strings (markup characters, control characters, surrogates, non-characters, whitespace), all supported value types and encodings.''',
  '''Tests serialise a few plain strings.''',
  [S+'xmlformat.py', S+'xmlmodel.py', S+'utils.py'], [('serialisation', S+'xmlformat.py'), ('byte chunks', S+'xmlmodel.py XmlEvents')])

p('C16', 'Instance ids are unique per element kind and in document order',
  '''In the XML of a whole document every element that can be referred to carries an id that no other element of its kind carries,
  assigned consecutively from zero in document order over all sections. Converting the same document again gives the same ids.''',
  ['inputs', 'histories'], '''All documents, any number of sections and elements; repeated conversions.''',
  '''Tests check no ids across sections.''',
  [S+'xmlmodel.py'], [('ids', S+'xmlmodel.py give_elements_unique_id')])

p('C17', 'Property sets decode every property at its declared place',
  '''A summary-information stream with any set of properties, in any order and at any offsets, decodes to exactly the declared properties with their
  identifiers, types and values (integers, strings, times). Properties named by the set's dictionary are reported under that name and the well-known ones under their standard
  names. A property of a kind the system does not know, or a missing dictionary, never changes how the others are read. (Streams are well-formed, names in the dictionary ASCII.)''',
  ['inputs'], '''All property sets: ids, order, offsets, value types and values, dictionary present or not.''',
  '''Tests decode the summary of fixtures.''',
  [S+'msoleprops.py', S+'summaryinfo.py'], [('property set reader', S+'msoleprops.py'), ('text form', S+'summaryinfo.py')])

p('C18', 'Distribution documents decode under the key hidden in their head',
  '''For every seed, the 256-byte head of a distribution stream decodes to the masked digest and key at
  the place the seed prescribes, and the rest of the stream decrypts to the original bytes under that key. A stream that does not start with such a head is refused with an error. Nothing outside the head's
  declared masking is altered.''',
  ['inputs'], '''All 32-bit seeds, all head contents, all tails.''',
  '''One fixture document has one seed per stream.''',
  [S+'distdoc.py', S+'filestructure.py', S+'proc/diststream.py'], [('head decoding', S+'distdoc.py'), ('tail decryption', S+'distdoc.py')])

p('C19', 'Converted packages are complete and consistent',
  '''A converted package (OpenDocument file, HTML directory) holds every binary item of the document exactly once with its exact bytes, and every entry its manifest lists exists and every
  entry is listed; XML with embedded binaries holds every item the document declares as embedded. A picture or image filling of an embedded item refers to it (where pictures are put into the markup, on request or in single documents, it carries the item's exact bytes instead), and every reference from the
  content resolves to the entry of the item it names. Its markup parts are well-formed. A package no place is named for is put into the current directory under the document's name, with its last extension replaced. ''',
  ['inputs'], '''All documents with any number of binary items and references.''',
  '''Tests check existence of a few entries in fixtures.''',
  [S+'hwp5odt.py', S+'hwp5html.py', S+'xmlmodel.py', S+'transforms/__init__.py'], [('package', S+'hwp5odt.py ODTPackage'), ('html dir', S+'hwp5html.py'), ('embedding', S+'xmlmodel.py embed_bindata')])

p('C20', 'Resources are released however a conversion ends',
  '''Every temporary file, output file and document that a conversion opens is closed, and every temporary file removed, whether the conversion succeeds or fails at any step.
  A conversion that failed is reported as failed (an exception, a non-zero status), and a later conversion in the same process, also with the same converter, works as if the
  failed one had not happened.''',
  ['fault_sequences', 'crash_points', 'histories'], '''Every step of a conversion at which an exception can be raised; sequences of conversions.''',
  '''Tests exercise the success path.''',
  [S+'utils.py', S+'hwp5html.py', S+'hwp5odt.py', S+'hwp5txt.py', S+'transforms/__init__.py', S+'plat/_lxml.py', S+'plat/xsltproc.py'],
  [('temporary files', S+'utils.py mkstemp_open'), ('closing', S+'hwp5odt.py main')])

p('C21', 'Only real documents are accepted and the commands report failure',
  '''A file is recognised as a document exactly when it is an OLE compound file whose header stream is complete (256 bytes) and begins with the 32-byte document signature. Anything else is refused by every
  command with a message and a non-zero status, nothing on standard output and no output file or directory created or changed; a command that cannot read what it needs ends with a non-zero status as well. The version and
  the flags reported are those stored in the header. The stream views of the command line tools show the same names and content as the programming interface.''',
  ['inputs', 'configurations'], '''All files (arbitrary bytes, truncated headers, missing or damaged header stream), all commands and options.''',
  '''Tests call each command on valid fixtures and one non-document.''',
  [S+'filestructure.py', S+'cli.py', S+'hwp5proc.py', S+'proc/__init__.py', S+'hwp5odt.py', S+'hwp5html.py', S+'hwp5txt.py'], [('recognition', S+'filestructure.py'), ('exit status', S+'proc/__init__.py')])

p('C22', 'Plain-text conversion keeps all text in reading order',
  '''Converting a document to plain text gives, for every paragraph of every section in document order, all of its characters followed by a line break; the paragraphs of notes, headers and footers come at the place of their control
  object. A table or drawing object is marked at its place ("<표>", "<그림>" on a line of its own) and its content is not shown. Line divisions, character shapes, fields and control characters add nothing. No character of the paragraphs shown is
  lost, duplicated or moved (but those XML cannot hold), whichever back end or command is used, and the output is UTF-8.''',
  ['inputs'], '''All documents: any paragraphs, lines, shapes, controls.''',
  '''Tests compare a few converted fixtures by size or existence.''',
  [S+'hwp5txt.py', S+'xsl/plaintext.xsl', S+'xmlmodel.py'], [('transform', S+'xsl/plaintext.xsl')])

p('C23', 'Reading is independent of history and interleaving',
  '''Reading any part of a document (header, preview text, summary information, records, models, events, XML, derived views, raw streams, listings, conversions) through a handle gives the same result whatever was read before in the same process:
  other documents, the same content in other format versions, the same part, other parts, through the same or other handles, partially consumed, abandoned or interleaved, in threads that have handles of their own. Reading never changes the document or the values
  handed out earlier (but for the items of parse_model_events, which are filled while they are read).''',
  ['histories', 'schedules', 'interleavings'], '''All sequences and interleavings of read operations over several open documents of different versions.''',
  '''Each test reads one thing in a fresh or unspecified process state.''',
  [S+'bintype.py', S+'recordstream.py', S+'filestructure.py', S+'binmodel/__init__.py', S+'utils.py', S+'xmlmodel.py', S+'msoleprops.py'],
  [('type caches', S+'bintype.py'), ('cached properties', S+'utils.py cached_property')])

p('C24', 'Web pages and OpenDocument texts show all text, in order and shape',
  '''Converted to XHTML, every character of a section's paragraphs is shown exactly once, in its paragraph, in order: in the body, in fields, in cells of tables, in captions, in text boxes of rectangles (also in groups of shapes), with tables and
  drawings at their place (those that float beside their paragraph), headers and footers in the header and footer area of their page, and automatic numbers. Converted to OpenDocument text, the same holds for the body, fields, cells, text boxes and
  foot- and endnotes; tables follow the paragraph they are anchored in. Cells lie in the row and table they are of, with their column and row spans; a paragraph's style and paragraph shape and a character's shape are those the document gives, and
  page breaks stand where the document has them. The OpenDocument text of a document whose tables have rows and cells conforms to the OpenDocument schema. Not shown by design: notes in XHTML; headers, footers, captions, control characters and automatic numbers in OpenDocument text.''',
  ['inputs'], '''All documents: any paragraphs, lines, shapes, fields, tables, drawings, notes, headers and footers in any nesting.''',
  '''Tests compare the conversion of one or two fixtures as a whole.''',
  [S+'xsl/hwp5html.xsl', S+'xsl/odt/common.xsl', S+'xsl/odt/content.xsl', S+'xsl/odt/styles.xsl', S+'hwp5html.py', S+'hwp5odt.py', S+'xmlmodel.py'],
  [('web pages', S+'xsl/hwp5html.xsl'), ('OpenDocument', S+'xsl/odt/common.xsl'), ('commands', S+'hwp5odt.py')])

p('C25', 'Model listings and searches say what is in the records',
  '''Of a stream of records, as many models are listed as there are records, in their order, up to the first whose payload is too short for its fields; that one is an error (the command ends with a non-zero status), after all of those before it have
  been listed. Each is listed with its number, level, tag (number and name, also one nobody knows), payload, the name of its model - by its tag, and where this tells, by the kind of control or by what it lies in (the list headers before the body of a table are
  captions, those after it cells) - and the bytes that are left. A tree group is listed as it is listed in the whole stream, and a model asked for by its number is the one listed at that place; where there is none, nothing is. Listings as JSON, as a
  tree, with a format, as events (each record is opened, its values come at rising offsets, and it is closed at the end of its fields, with what is left) and from the standard input in a given version agree, and dumps hold every byte, sixteen to a line. A search
  in several documents gives exactly the models with the name, tag (by name or number) and incompleteness asked for, in DocInfo and then in the sections, of each document in order and up to an error in it; it ends with a non-zero status exactly if a document had one.''',
  ['inputs', 'configurations'], '''All record streams and documents, all selections and options of the listing and search commands.''',
  '''Tests list single known records of fixtures; the search command and the events are not tested beyond one call.''',
  [S+'binmodel/__init__.py', S+'binmodel/tagid56_list_header.py', S+'proc/models.py', S+'proc/find.py', S+'recordstream.py', S+'utils.py'],
  [('model streams', S+'binmodel/__init__.py ModelStream'), ('listing', S+'proc/models.py'), ('search', S+'proc/find.py')])
