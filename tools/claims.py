CLAIMS['C19'] = (None, 'Package states what each conversion (odt, with images, HTML directory, flat ODF, XML) of any document of items, pictures and fillings holds and refers to; TLC enumerates the documents and the sequences of conversions with one converter up to the bound, '
    'which are built as real files and converted (lxml, in part xsltproc and the commands). Random documents with every kind of item, name, size and place, a 9 MB image and the fixtures are judged by TLC entry by entry.')
CLAIMS['C20'] = (None, 'Resources is the program of takings and givings back of each conversion with a failure at any instruction; TLC enumerates the histories of up to two conversions, which are replayed by the commands, by reused converters and on an open document with the failure injected at the same step '
    '(I/O error, exception, interrupt, once or persistent). Each step label of each conversion and, thorough, samples of all of the ~8000 steps fail in turn; broken documents and terminals follow. The takings recorded from the real code are given back to TLC, with open descriptors and leftover files. '
    'Files opened by C libraries are seen only as descriptors.')
NOT_APPLICABLE = {}
CLAIMS['C01'] = (None, 'Exhaustive over the header-field boundary set and all level sequences up to the bound; random and '
    'fixture streams beyond it are validated record by record. Payload bytes are opaque to the model: equality is checked by the harness.')
CLAIMS['C02'] = (None, 'Every class of cut point of every record sequence up to the bound is replayed; random and fixture streams are cut at every / sampled bytes '
    'and the recorded runs validated. In-memory streams stand for stored ones.')
CLAIMS['C03'] = (None, 'All level sequences up to the bound (legal and illegal) are enumerated and replayed through every tree view; long random and fixture '
    'sequences are validated event by event. Levels below the first record are outside the property.')
CLAIMS['C04'] = (None, 'All flag combinations x entries x stored contents (symbolic) and all short histories of openings and reads are enumerated and replayed; fixture streams '
    'are validated with the transformation inferred independently. Inflate and AES are trusted primitives; damaged deflate data is outside the property.')
CLAIMS['C05'] = (None, 'All storage trees up to the bound (with and without hostile names) are enumerated by TLC and replayed on memory, OLE, directory and derived-view storages in '
    'a deep scratch directory; document layouts (roots x sections) are enumerated and a seeded sample replayed through the interface and the ls/cat/unpack commands; fixture listings are validated by TLC.')
CLAIMS['C06'] = (None, 'All piece/read-size schedules up to the bound are enumerated and run on the generator readers, inflate readers, raw codec and transcoder; every recorded read '
    'is validated by TLC against the contract of ChunkedReader. Codec histories with resets are enumerated. zlib itself is trusted. Sizes given to the transcoder are approximate (standard library behaviour).')
CLAIMS['C07'] = (None, 'All declarations built from 17 field templates x gates x versions x control values x counts are enumerated by TLC and a seeded sample (quick) is replayed as real types, '
    'with cuts, leftovers and interleaved versions, directly and as record types; parse events of fixture records are validated by TLC. Type nesting is bounded by the templates; primitives are covered by width.')
CLAIMS['C08'] = (None, 'HwpLayout is the documented layout of all 111 record types, controls and special types, as data; TLC enumerates every layout at every version gate and the version before it, '
    'every value that gates or counts a later field, and each is decoded from random values through models and model events. All record trees up to the bound decide the special types; fixtures are validated by TLC. '
    'The layout data was transcribed from this code base and checked against the documented tables by hand: it pins the present layout.')
CLAIMS['C09'] = (None, 'All strings over classes of 16-bit units up to the bound are enumerated and replayed with concrete units chosen to trap byte-wise scanning; long random texts, cut ones and the texts of fixtures '
    'are validated unit by unit by TLC. Content of controls is compared by an independent decoder.')
CLAIMS['C10'] = (None, 'All item sequences over character and control classes x all shape and line boundaries up to the bounds are enumerated by TLC and replayed through whole sections (up to 9000 sampled per configuration); '
    'random long paragraphs and the paragraphs of fixtures are validated item by item. Language of a character is its documented range; out-of-order boundaries only promise that nothing is lost.')
CLAIMS['C11'] = (None, 'Sections are built record by record by TLC (all of them up to the bounds, a seeded sample is replayed in quick) and converted through the public section interface; every event must be the one the specification gives. Random deep, wide and long sections and those of the fixtures are validated by TLC event by event. Objects without a control character have no place and are outside the property.')
CLAIMS['C12'] = (None, 'Sections are built record by record by TLC (all of them up to the bounds, a seeded sample is replayed in quick) and converted through the public section interface; every event must be the one the specification gives. Random deep, wide and long sections and those of the fixtures are validated by TLC event by event. Overlapping fields cannot nest and are matched innermost first; XML of sections with damaged correspondence is parsed.')
CLAIMS['C13'] = (None, 'Sections are built record by record by TLC (all of them up to the bounds, a seeded sample is replayed in quick) and converted through the public section interface; every event must be the one the specification gives. Random deep, wide and long sections and those of the fixtures are validated by TLC event by event. Column and row spans are opaque to the model.')
CLAIMS['C14'] = (None, 'Sections are built record by record by TLC (all of them up to the bounds, a seeded sample is replayed in quick) and converted through the public section interface; every event must be the one the specification gives. Random deep, wide and long sections and those of the fixtures are validated by TLC event by event. Records that belong to no list (damaged nesting) are outside the property.')
CLAIMS['C15'] = (None, 'All strings up to the bound over character classes, in attribute and text place and in every encoding, are enumerated by TLC with a model of the writer and of a conforming parser, and replayed as documents; '
    'random long strings and every record layout of HwpLayout at every version are shown through startelement and compared value by value; fixtures and commands are run as a whole. expat is the trusted parser.')
CLAIMS['C16'] = (None, 'All documents of parts up to the bound and all schedules of two conversions over them are enumerated by TLC and replayed with two handles; random multi-section documents and fixtures are validated by TLC element by element.')
CLAIMS['C17'] = (None, 'OleProps is the byte format: TLC lays out every set of properties up to the bound in every order, place and gap, reads it with a model reader one property at a time, and the bytes are decoded by the real reader; '
    'values, names, text, XML and command output are compared. Random streams of up to 22 properties and the streams of fixtures are validated by TLC from their bytes. Names in dictionaries are ASCII; streams are well-formed.')
CLAIMS['C18'] = (None, 'DistHead (generator, mask, place) and Aes (the inverse cipher, checked against FIPS 197) are the algorithm; TLC writes and opens a head for every seed of the boundary set (every low nibble, edge random numbers) '
    'byte run by byte run; heads and tails are replayed through every surface. All first records up to the bound decide refusal. Random heads and those of fixtures are validated by TLC, digest, key and sampled blocks of tails. The 2^32 seeds are sampled.')
CLAIMS['C21'] = (None, 'Recognition builds every kind of file (container, entries, header length, signature, version and flags) and runs every command on it; TLC enumerates them up to the bound, and they are replayed as real files through the interface, the commands and the searches over several files, '
    'with the output places watched. Headers with each single bit and byte changed, random files, truncated and damaged fixtures are validated by TLC. Damaged containers beyond what olefile opens are refused; which of several errors is reported is not claimed.')
CLAIMS['C22'] = (None, 'PlainOps gives the plain text of a section from its records (what a reader expects) and, apart from that, from the events of its conversion (what the transformation does); TLC checks that both agree, and that nothing is lost, twice or moved, on all sections up to the bounds; '
    'batches of them are written as documents of several sections and converted (lxml, xsltproc, command, standard output) with characters of every kind. Random documents, long, wide and deep ones and the fixtures are validated by TLC character by character.')
CLAIMS['C23'] = (None, 'History is a process with several handles, readers, compiled layouts and remembered values; TLC checks on all schedules up to the bound that what is read is what the document has (and refutes it when layouts are kept by type alone). Thousands of these schedules are replayed with 65 parts of real documents of many versions, '
    'on four kinds of storage, against what a process gets that reads nothing else; what was handed out is looked at again in the end. Long random histories and threads with handles of their own are validated by TLC. One handle used by several threads is not claimed.')
CLAIMS['C24'] = (None, 'ShowOps gives what a page and a text show from the records (what a reader expects) and, apart from that, from the events of the conversion (what the style sheets do); TLC checks on all sections up to the bounds that both agree, that no character is lost, twice or out of its '
    'paragraph, and that cells stay in order. Batches of them are written as documents of several sections with random styles, shapes, spans and places, converted by lxml, xsltproc and the commands, and the results read back token by token (with the styles resolved through CSS and automatic styles). '
    'Random documents and the fixtures are validated by TLC. Looks (margins, colours, sizes) are not claimed.')
CLAIMS['C25'] = (None, 'ListingOps gives the name of a record from the records before it, what is listed up to what cannot be read, the selections of the list and searches of several documents; Listing reads streams record by record as the code does, and TLC checks on all streams up to the bound that '
    'both agree, that tree groups partition the stream and list it, and that each model is found under one name and one tag. Every stream is replayed as a library in three format versions (models, groups, single models, JSON, events) and by the commands from documents and the standard input in every output form; searches of '
    'random sets of documents, random streams and the fixtures are validated by TLC.')
