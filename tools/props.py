DT = "path-sensitive dataflow over MIR (decision tables)"
TRUST = ("Trusted: rustc's MIR for the default target with all features, the dumper in driver/, the term models of std/nom/chrono calls in sa/table.py. "
         "Not covered: what third-party crates compute internally. ")
P = [
dict(id="P14", title="EXIF tag names and codes are mutually inverse",
  statement="For every EXIF tag the library knows, converting the tag to its numeric code and back, or to its name and back (including through Display and FromStr), yields the same tag. No two tags share a name or code; a name that is not exactly a tag's name is refused with an error carrying that name, and a code that is no known tag's is reported as an unknown tag carrying that code.",
  over=["inputs"], forall="every tag variant, every 16-bit code, every string",
  why_tests_cant="The tests look at a few dozen tags; the claim is about every variant and every other string and code.",
  files=["src/exif/tags.rs"], mechanism=[("tag table macro", "src/exif/tags.rs"), ("TagOrCode::from", "src/exif/tags.rs")],
  technique=DT, note="Complete enumeration of the decision tables of the conversion functions, for every variant and the default row. " + TRUST),
dict(id="P15", title="Track tag names round-trip",
  statement="Every track-info tag has its own name; formatting a tag and parsing the result yields the same tag, and any other string is refused with an error carrying that string.",
  over=["inputs"], forall="every track tag, every string",
  why_tests_cant="The tests check listed names only, not that every other string is refused.",
  files=["src/video.rs"], mechanism=[("TrackInfoTag::name / FromStr / Display", "src/video.rs")],
  technique=DT, note="Complete enumeration of the decision tables. " + TRUST),
dict(id="P16", title="Rendering an entry value loses nothing",
  statement="Serializing or displaying an entry value renders that value's own, complete content: scalars through the primitive of their own type, every element of an array or byte string, both components of a rational, and a date-time with all its components and, where it has one, its UTC offset. Nothing is truncated, rounded, cast or computed on the way (the decimal approximation shown beside a rational excepted).",
  over=["inputs"], forall="every variant and payload of an entry value",
  why_tests_cant="The tests render a handful of short values; truncation or rounding only shows on long or unusual payloads.",
  files=["src/values.rs"], mechanism=[("Serialize for EntryValue", "src/values.rs"), ("Display for EntryValue", "src/values.rs")],
  technique=DT, note="Every path of the two renderers per variant, with the terms handed to the formatter/serializer; a list of lossy adaptors is the rule's vocabulary. " + TRUST),
dict(id="P17", title="Typed accessors and numeric conversions are exact or refuse",
  statement="A typed accessor of an entry value returns the stored value unchanged when the value is of exactly that type, and nothing otherwise. Integer widening, float views, building an entry value from a Rust value and converting signed to unsigned rationals give the exact value or refuse: never a wrapped, truncated or rounded one, and a float view of a rational is its numerator divided by its denominator, refused exactly when the denominator is zero.",
  over=["inputs"], forall="every variant, every payload",
  why_tests_cant="The tests try a few payloads per accessor; extreme values and cross-variant calls are not enumerated.",
  files=["src/values.rs"], mechanism=[("as_* / try_as_*", "src/values.rs"), ("From impls", "src/values.rs"), ("Rational conversions", "src/values.rs")],
  technique=DT, note="Every accessor x every variant. " + TRUST),
dict(id="P18", title="GPS signs, letters, units and components are never swapped or lost",
  statement="North/East are positive and South/West negative everywhere: in reference letters, signs, decimal degrees and ISO 6709 text in both directions; N/S/E/W/K/M/N letters (either case) are the only ones accepted. Degrees, minutes and seconds keep their order and weights (1, 1/60, 1/3600) in every conversion, a missing or zero-denominator component gives no value rather than an invented one, and converting decimal degrees refuses non-finite values and magnitudes above 180. Each GPS tag feeds only its own field of the GPS information, altitude is above sea level exactly for reference 0 and below for 1, and a speed is given only with its own unit.",
  over=["inputs"], forall="every GPS value, coordinate and reference",
  why_tests_cant="The tests use a few positions, mostly north-east; sign and component errors show elsewhere.",
  files=["src/exif/gps.rs", "src/exif/exif_iter.rs"], mechanism=[("LatRef/LonRef/Altitude/LatLng/GPSInfo", "src/exif/gps.rs"), ("parse_gps_info", "src/exif/exif_iter.rs")],
  technique=DT + " with exact linear forms", note="All paths of the conversions; values compared as exact linear forms over the stored rationals. " + TRUST),
dict(id="P31", title="IFD entries decode as their format, count and byte order say",
  statement="An IFD entry's value has the type its declared format prescribes, is a scalar exactly when its count is one, contains every component in order, read in the byte order of the TIFF header, from the four inline bytes when the value fits in them and from the stated offset otherwise. Component sizes and format codes are those of the TIFF/Exif standard, unknown formats are errors, and text is the bytes up to the first NUL.",
  over=["inputs"], forall="every entry: tag, format, count, byte order and data",
  why_tests_cant="Tests decode entries found in sample files, which use a few formats, short arrays and small values.",
  files=["src/values.rs", "src/exif/exif_iter.rs"], mechanism=[("EntryValue::parse", "src/values.rs"), ("IfdIter::parse_tag_entry", "src/exif/exif_iter.rs"), ("TryFromBytes", "src/values.rs")],
  technique=DT, note="All paths of the decoders; the source range, element reader, count and byte order of each result are checked as terms. " + TRUST),
dict(id="P26", title="Results depend on the input bytes alone",
  statement="What the library returns is a function of the bytes (and options) it was given: no result depends on the environment, the clock, the local time zone, randomness, threads, the network, memory addresses, hash iteration order, mutable global or thread-local state. It writes nothing, and opens no file other than the path its caller passed.",
  over=["inputs", "histories", "configurations"], forall="every public function, every environment",
  why_tests_cant="Tests run in one environment; a dependence on time zone, locale, address or an earlier call stays invisible.",
  files=["src"], mechanism=[("all public functions", "src/lib.rs")],
  technique="effect analysis over the call graph (MIR)", note="Every call reachable from the public API, trait implementations included, classified by callee; statics and types checked for interior mutability. The one documented unordered iteration (Exif::iter over an IFD map) is listed in the rule. " + TRUST),
dict(id="P29", title="UTC offsets are neither invented nor dropped",
  statement="A date-time entry carries a UTC offset exactly when its TIFF block's Exif directory records a usable offset, and that offset is the recorded one (the original's or digitized's first, else the general one) for every date-time of the block; otherwise it is the naive time in the text, and text that is not a date is an error. The conversions of an EXIF date-time keep an existing offset, and attach the caller's only where there is none, without shifting the wall-clock time.",
  over=["inputs"], forall="every date text, offset text, order of entries in the directory",
  why_tests_cant="Tests know a few files with a usable +08:00; entry order, other tags and malformed offsets are not sampled.",
  files=["src/values.rs", "src/exif/exif_iter.rs"], mechanism=[("EntryValue::parse", "src/values.rs"), ("find_tz_offset", "src/exif/exif_iter.rs"), ("ExifDateTime", "src/values.rs")],
  technique=DT, note="Offset lookup over every scripted sequence of abstract entries up to length two (three for selected ones). " + TRUST),
dict(id="P02", title="Memory use is bounded by the input present, not by declared sizes",
  statement="No number stated in the input makes the library allocate or read more than the input present justifies: a parse keeps at most 1 GiB of a streamed source and refuses to ask for more, a source is opened by reading at most a fixed prefix, the scan of a JPEG for an embedded motion photo adds at most a fixed amount (under 1 MiB), and no buffer is pre-sized by a declared length or count unless that much input is at hand. An IFD entry whose declared data is not entirely present is refused before any of it is decoded.",
  over=["inputs"], forall="every source, every declared length and count",
  why_tests_cant="A test would have to supply gigabytes, or every oversized length field, to see the bound missing.",
  files=["src/parser.rs", "src/parser_async.rs", "src/exif/exif_iter.rs", "src/values.rs"],
  mechanism=[("BufParser::fill_buf / AsyncBufParser::fill_buf", "src/parser.rs, src/parser_async.rs"), ("MediaSource::build", "src/parser.rs"), ("IfdIter::parse_tag_entry_header", "src/exif/exif_iter.rs")],
  technique=DT + " of the I/O paths, and a query over every allocation call", note="Every path of the fill and open functions with the amount each read is limited to, plus every capacity/reserve/resize call in the crate with where its size comes from. " + TRUST),
dict(id="P04", title="Async and sync parsing agree",
  statement="For the same bytes, an async parse method hands the same bytes to the same format parser as its sync counterpart, reacts in the same way to each of that parser's outcomes, and ends in the same result or error; filling the buffer, skipping and opening a source agree too. One exception: the async track parse of an image is refused as TrackNotFound straight away.",
  over=["inputs", "schedules"], forall="every source, every outcome of every parser and read",
  why_tests_cant="The tests compare sync and async on a few sample files; a divergence in one branch shows only for an input that takes it.",
  files=["src/parser.rs", "src/parser_async.rs"], mechanism=[("AsyncBufParser / AsyncMediaParser / AsyncMediaSource", "src/parser_async.rs"), ("MediaParser / BufParser", "src/parser.rs")],
  technique=DT + ": trace equivalence", note="Every abstract trace (I/O outcomes x format parser outcomes) of each async entry point is matched with its sync counterpart after normalisation. " + TRUST),
dict(id="P05", title="In-memory and streamed input agree",
  statement="Every parse method treats an in-memory payload exactly as it treats a stream that has already delivered all of it: same format parser, same bytes from the first on, same handling of each outcome. How the bytes are delivered influences nothing else, except that asking for bytes past the end of the payload fails as an unexpected end of input.",
  over=["inputs"], forall="every source kind, MIME kind and parser outcome",
  why_tests_cant="The tests compare the two modes on a few sample files; a divergence in one branch shows only for an input that takes it.",
  files=["src/parser.rs", "src/parser_async.rs", "src/exif.rs"], mechanism=[("MediaParser::parse_*", "src/parser.rs"), ("BufferedParserState", "src/parser.rs")],
  technique=DT + ": trace equivalence", note="Every abstract trace over a memory payload is matched with the trace over a fully buffered stream. " + TRUST),
dict(id="P06", title="Parsers see the source's bytes, unaltered and in order",
  statement="However a source delivers its bytes (any chunking, seekable or not, sync or async, streamed or in memory), a format parser is handed the source's bytes, unaltered and in order, from exactly the place it has reached: after asking for more it gets the same bytes plus at least one new one, and after asking to skip n it continues exactly n bytes further on with the state it left. No byte is lost, repeated or skipped on the way; read and seek errors end the parse with that error.",
  over=["inputs", "schedules", "fault_sequences"], forall="every source, chunking and sequence of parser requests",
  why_tests_cant="Chunk boundaries, short reads, skips past the buffer and read errors combine in far more ways than the sample files exercise.",
  files=["src/parser.rs", "src/parser_async.rs", "src/exif.rs"],
  mechanism=[("BufParser::load_and_parse_with_offset", "src/parser.rs"), ("clear_and_skip", "src/parser.rs"), ("BufferedParserState / Buf", "src/parser.rs")],
  technique=DT + " with exact linear arithmetic and an inductive loop invariant", note="Every path of the loop, for each parser outcome, from an arbitrary state satisfying the invariant (buffer = source[base..base+len], position within); the invariant is shown re-established and the view handed over equal to source[place..]. " + TRUST),
dict(id="P08", title="I/O errors are reported, never swallowed",
  statement="When reading, seeking or opening a source fails, the call fails with that very error: it is never swallowed, retried past or turned into \"no metadata\" or a partial result. The exceptions are an end of file while the first bytes of a PNG shorter than the initial fill are read, and the best-effort look for a motion photo at the end of a JPEG.",
  over=["fault_sequences", "inputs"], forall="every I/O call, each of its failures",
  why_tests_cant="Tests inject a failure at one or two places; the claim is about every I/O call on every path.",
  files=["src/parser.rs", "src/parser_async.rs", "src/error.rs", "src/lib.rs"], mechanism=[("BufParser::fill_buf", "src/parser.rs"), ("MediaParser::parse_*", "src/parser.rs"), ("From<io::Error>", "src/error.rs")],
  technique=DT + ": fault forks at every I/O call", note="Each I/O call on each path is forked into success and failure; the result of the failing branch must be that error. " + TRUST),
dict(id="P09", title="A parser can be reused for anything",
  statement="Whatever a parser parsed before, with whatever outcome and in whatever mode, its next parse gives the same result as on a new parser. No byte, position, skip or payload of an earlier call is visible in a later one, memory is recycled only when no earlier result still uses it, and once a call returns the parser no longer holds an in-memory payload.",
  over=["histories"], forall="every sequence of calls on one parser",
  why_tests_cant="The tests reuse a parser over a few successful files; leftovers of failed or differently delivered parses are not sampled.",
  files=["src/parser.rs", "src/parser_async.rs"], mechanism=[("MediaParser::reset", "src/parser.rs"), ("BufferedParserState::acquire_buf", "src/parser.rs")],
  technique=DT + " from an arbitrary initial parser state", note="Every entry point from every kind of leftover state; the trace must not mention any leftover. " + TRUST),
dict(id="P10", title="In-memory parsing shares the caller's bytes",
  statement="Bytes handed to the library in memory are never copied: from opening the source to the results that keep them they are only moved, shared by reference count or viewed in part. The one exception is the profile a PNG carries in hexadecimal text, which has to be decoded.",
  over=["inputs"], forall="every in-memory payload and every parse method",
  why_tests_cant="A copy changes no result; only its cost, which the tests do not observe.",
  files=["src/parser.rs", "src/exif.rs", "src/exif/exif_iter.rs"], mechanism=[("MediaSource::from_memory", "src/parser.rs"), ("BufferedParserState::share_buf", "src/parser.rs")],
  technique=DT + " and an ownership query over copying calls", note="Every in-memory trace with the value that becomes the result's buffer, and every call in the crate that can copy a byte buffer. " + TRUST),
dict(id="P22", title="Each source is parsed as what it is, or refused",
  statement="Asking a source for the wrong kind of metadata is refused with the matching error (ExifNotFound for a track, TrackNotFound for an image other than a JPEG motion photo) and runs no parser of the other kind. Otherwise the parser of the source's own detected format runs and its result is returned unchanged; image metadata of a PNG that has neither Exif nor text is ExifNotFound, never an empty success.",
  over=["inputs"], forall="every MIME kind x parse method x parser outcome",
  why_tests_cant="The tests cover the usual pairings; the refused ones, and formats without a sample, are not.",
  files=["src/parser.rs", "src/exif.rs", "src/video.rs", "src/file.rs"], mechanism=[("MediaParser::parse_exif / parse_track / parse_image_metadata", "src/parser.rs"), ("parse_exif_iter dispatch", "src/exif.rs"), ("parse_track_info", "src/video.rs")],
  technique=DT, note="Every MIME kind x entry point x outcome enumerated. " + TRUST),
dict(id="P24", title="One-shot helpers do what their documented steps do",
  statement="A one-shot helper (read_exif, read_track, read_metadata and their iterator, in-memory and async forms) is exactly: open the path or bytes it was given, parse with a new parser by the method it stands for, and return that method's result or error unchanged; read_metadata chooses by the kind of the source. The deprecated *_from_bytes methods do what their replacements do.",
  over=["inputs"], forall="every helper, every source and outcome",
  why_tests_cant="The tests run each helper on one good file; the error paths and kinds are not enumerated.",
  files=["src/lib.rs", "src/parser.rs"], mechanism=[("read_* helpers", "src/lib.rs"), ("*_from_bytes", "src/parser.rs")],
  technique=DT, note="Every path of every helper compared with the documented sequence of calls. " + TRUST),
dict(id="P25", title="Cargo features only add",
  statement="Enabling the tokio or serde feature (or both) only adds API: every function, type, constant and trait implementation of the crate without features also exists with them, with the same signature, visibility and behaviour.",
  over=["configurations", "inputs"], forall="every feature set, every function",
  why_tests_cant="The tests run with one feature set at a time and never compare two.",
  files=["Cargo.toml", "src"], mechanism=[("cfg(feature) attributes", "src/lib.rs, src/parser.rs, src/values.rs, src/exif.rs")],
  technique="comparison of the resolved MIR of four builds", note="Every body of the featureless build is compared with its counterpart under tokio, serde and all features. Trusted: rustc's MIR and the dumper in driver/; dependencies' own feature-dependent behaviour is not covered."),
dict(id="P34", title="No input can cause undefined behaviour",
  statement="The library and the command-line tool use no operation the compiler leaves unchecked, with one exception: turning a number into a fieldless enum, which happens only where every path confines the number to the declared discriminants. No public function is unsafe to call, and there is no mutable static.",
  over=["inputs"], forall="every unsafe block, function and impl",
  why_tests_cant="Undefined behaviour need not show in a test run, and needs the one out-of-range value.",
  files=["src", "crates/rexiftool/src"], mechanism=[("DataFormat::try_from", "src/values.rs")],
  technique="enumeration of unsafe operations, and path-sensitive dataflow over MIR for the transmute", note="All bodies of both crates; the transmuted value's range is derived from the path's comparisons. Trusted: rustc, the dumper in driver/, and the dependencies' own unsafe code."),
dict(id="P30", title="Formats are recognised by signature and brand, in a fixed order",
  statement="An input's format is decided by its leading bytes alone: JPEG, PNG, TIFF, RAF and EBML (webm or other) signatures; for ISO-BMFF the ftyp major brand first (QuickTime, AVIF, HEIC/HEIF, MP4, 3GPP, CR3), then the compatible brands (QuickTime, AVIF, HEIF, MP4, in that order), then a top-level mdat box. Every listed signature or brand is recognised wherever the box lists it, no other input is taken for that format, and anything else is refused with UnsupportedFormat.",
  over=["inputs"], forall="every input, every listed signature and brand",
  why_tests_cant="14 sample files cover one brand each; the decision also depends on brands that are absent and on the order of the comparisons.",
  files=["src/file.rs", "src/jpeg.rs", "src/raf.rs", "src/bbox.rs", "src/ebml/element.rs", "src/exif/exif_exif.rs"], mechanism=[("MediaMime::try_from(&[u8])", "src/file.rs"), ("parse_bmff_mime", "src/file.rs")],
  technique="path-sensitive dataflow over MIR to (byte evidence -> format) rows, compared with a table of signatures", note="All rows of format detection with loops over top-level boxes unrolled twice; the rejecting states of each detector are checked against every listed signature. Trusted: the models of std/nom in sa/table.py and sa/reader.py; element ids and sizes inside the EBML header are taken as read."),
dict(id="P01", title="No input makes the library panic",
  statement="Whatever bytes a file, reader or buffer holds, parsing and iterating never panics: no arithmetic overflow or division by zero, no index or slice out of range, no failed unwrap, expect or assertion. Sizes, offsets and counts read from the input are checked before they are used.",
  over=["inputs"], forall="every input, in debug and release builds",
  why_tests_cant="A panic needs one specific malformed size, offset or count in one of dozens of structures; tests hold a few corrupt files.",
  files=["src"], mechanism=[("TravelIfd, IfdIter, ExifIter", "src/exif"), ("BoxHolder and box parsers", "src/bbox.rs"), ("parse_webm", "src/ebml/webm.rs"), ("extract_chunks", "src/png.rs"), ("parse_moov", "src/mov.rs")],
  technique="abstract interpretation of MIR with linear facts per path, inferred loop and struct invariants, and inferred preconditions checked at every call", note="Every MIR assertion, panicking library call, explicit panic and slicing range of the crate. About 375 sites are shown; 66 are on a hand-reviewed list with reasons (sa/rules/p01_reviewed.json), and some of what those reasons rely on is checked too. Not covered: running out of memory or stack, panics inside dependencies on arguments the rule does not model. Trusted: rustc, the dumper in driver/, the semantics given to library functions in sa/pan.py."),
dict(id="P03", title="Parsing and iterating always terminate",
  statement="For every finite input, every parse and every iteration of the library ends: each turn of a loop consumes input, advances an iterator, counter or cursor, takes an item off a finite worklist, or leaves the loop. Directories, blocks, boxes, segments and chunks that refer to themselves, to one another or have a size of zero cannot make it repeat for ever, and recursion over the input is bounded by a depth limit.",
  over=["inputs"], forall="every finite input, source and chunking",
  why_tests_cant="A hang needs one self-referencing or zero-length structure in the right place, and a test that hangs only shows for the inputs someone thought of.",
  files=["src"], mechanism=[("ExifIter::next, visited_offsets", "src/exif/exif_iter.rs"), ("TravelIfd::travel_ifd depth", "src/exif/travel.rs"), ("travel_while", "src/bbox.rs"), ("parse loops", "src/parser.rs, src/parser_async.rs"), ("parse_webm", "src/ebml/webm.rs"), ("extract_chunks", "src/png.rs")],
  technique="ranking arguments for every natural loop of the MIR (iterator-driven, or a measure shown to fall by path-sensitive linear analysis), and call-graph and type-graph analysis of recursion", note="Every loop and every recursive component of the crate; four loops are on a hand-reviewed list with reasons (sa/rules/p03_reviewed.json), the restarts of the IFD iteration and the buffer-refilling loops are decided as tables. Trusted: loops inside dependencies and std end on finite data; a reader that never returns is not covered."),
dict(id="P39", title="Exif iteration visits every directory once and hands out every entry once",
  statement="Within a TIFF block, a reference to a directory (sub-directory pointer or next-directory link) is followed at most once, and following it never drops the rest of the referring directory, its next-directory link or a further block. Each entry is handed out with its own directory index, tag and value or error, unless an entry with the same directory index and tag was already handed out. Building an Exif from an iterator keeps exactly the values and errors the iterator hands out.",
  over=["inputs", "histories"], forall="every TIFF structure, every state of the iterator",
  why_tests_cant="Loops, shared sub-directories, duplicate tags across several blocks and broken entries in the middle of a directory are combinations no sample file has.",
  files=["src/exif/exif_iter.rs", "src/exif/exif_exif.rs"], mechanism=[("ExifIter::next", "src/exif/exif_iter.rs"), ("IfdIter::next", "src/exif/exif_iter.rs"), ("From<ExifIter> for Exif", "src/exif/exif_exif.rs")],
  technique="path-sensitive dataflow over MIR: one step of the iteration from a symbolic state, as a table of state changes", note="Every path of one step of the two iterators, from an arbitrary state, and of the eager conversion; nesting beyond eight directories restarts at the main directory by design. Trusted: rustc's MIR, the dumper, the models of std collections in sa/."),
dict(id="P11", title="A rewound or cloned iterator starts over",
  statement="Rewinding an Exif iterator, or cloning it, at any point of the iteration gives an iterator in its start state: only the main directory open at its first entry, no directory visited, no tag handed out, no further block begun, and the data, header, time zone, further blocks and embedded-track flag unchanged. Iterating changes nothing such a restart relies on, cloning leaves the original alone, and parse_gps searches from the first entry on a copy, wherever the iteration stands.",
  over=["histories", "inputs"], forall="every state of the iteration, every file",
  why_tests_cant="The state has a dozen fields and several matter only for files with linked directories or several TIFF blocks; tests rewind at one or two points of one file.",
  files=["src/exif/exif_iter.rs"], mechanism=[("ExifIter::rewind / clone_rewound / clone / new", "src/exif/exif_iter.rs"), ("ExifIter::parse_gps", "src/exif/exif_iter.rs")],
  technique="path-sensitive dataflow over MIR: restart operations and one round of iteration evaluated from an arbitrary state", note="All paths of the constructor, rewind, the clones, add_tiff_block, parse_gps and one round of iteration. Trusted: rustc's MIR, the dumper, HashSet/Vec models, field clones being equal values."),
dict(id="P36", title="HEIF boxes and the Exif item are located as ISO/IEC 14496-12 lays out",
  statement="For any HEIF-family file: a box is as long as its 32-bit or 64-bit size field says (refused if shorter than its own header), and iinf, infe and iloc fields are read at the widths their version and size nibbles (0, 4 or 8) give, with up to 32 extents per item. The iinf and iloc boxes are looked up by exact type among the meta box's own boxes; the Exif data is the item of type Exif, found by its id in iloc, from base offset plus first extent offset for that extent's length, and only when stored by file offset. Extraction takes exactly that range, whether it is buffered or has to be skipped to, less the 4-byte header offset and the Exif marker.",
  over=["inputs"], forall="every box size, version, nibble combination, item and chunking",
  why_tests_cant="A few sample photos cover one iloc version, one width combination and one file layout.",
  files=["src/bbox.rs", "src/bbox/iloc.rs", "src/bbox/iinf.rs", "src/bbox/meta.rs", "src/heif.rs"], mechanism=[("BoxHeader::parse / FullBoxHeader::parse", "src/bbox.rs"), ("IlocBox::parse_body", "src/bbox/iloc.rs"), ("IinfBox / InfeBox", "src/bbox/iinf.rs"), ("MetaBox::exif_data_offset", "src/bbox/meta.rs"), ("extract_exif_data", "src/heif.rs")],
  technique=DT + ", every field compared with the layout of ISO/IEC 14496-12 (linear offset terms)", note="About 5600 obligations: box headers, all iloc version x nibble x method combinations, iinf, infe, lookup, search and extraction. Assumed: in iloc version 0 the reserved nibble is 0; size 0 (box to end of file) is refused by the crate; the TIFF header offset field is skipped, not interpreted. " + TRUST),
dict(id="P32", title="Track metadata of an MP4 or QuickTime movie is what its moov box says",
  statement="For any movie, each tag reported is what one place of the moov box gives: the mvhd box the duration (duration x 1000 / time scale, rounded down) and creation date (seconds since 1904, UTC), the tkhd box of the first track whose handler is vide the dimensions, the items of meta/ilst under their 1-based keys make, model, software, author, location and creation date (which overrides mvhd's), and the udta boxes ©xyz and auth the location and author. Every other tag is absent, a part that is missing or unreadable costs only the tags it gives, and box fields and item values are read by the layout of their version, type and size. The moov box is found behind any boxes, and until it is complete in the buffer the parser asks for more data or skips exactly to the end of an unbuffered box.",
  over=["inputs"], forall="every arrangement and content of boxes",
  why_tests_cant="The sample movies hold one version of each box, valid times, text items only and one order of boxes.",
  files=["src/mov.rs", "src/bbox/mvhd.rs", "src/bbox/tkhd.rs", "src/bbox/keys.rs", "src/bbox/ilst.rs"], mechanism=[("parse_isobmff", "src/mov.rs"), ("extract_moov_body_from_buf", "src/mov.rs"), ("MvhdBox", "src/bbox/mvhd.rs"), ("parse_video_tkhd_in_moov", "src/bbox/tkhd.rs"), ("KeysBox / IlstItem", "src/bbox/keys.rs")],
  technique=DT + ", with box trees of known layout and unknown content, every reported term traced to the bytes it comes from", note="About 4250 obligations: header layouts, keys, item types x sizes, 36 arrangements of boxes, and the moov box at every kind of cut. The arrangements are enumerated, not all; contents are arbitrary. Size fields of boxes are P36's. Precedence between two places giving the same tag is decided for dates only. " + TRUST),
dict(id="P19", title="A PNG's text entries and Exif block are those of its chunks",
  statement="For any well-formed PNG, the Exif block is that of its last eXIf chunk, else of the first valid 'Raw profile type APP1' text (hexadecimal, behind an optional Exif marker), else of the first valid 'Raw profile type exif' text; a profile is valid when it decodes to a TIFF block of at least 8 bytes. Each tEXt chunk of at most 1 MiB that has a NUL gives, in file order, one entry of keyword and text, split at the first NUL and both Latin-1 (until 16 MiB in total); nothing else gives an entry. The result does not depend on how the file is cut into buffer contents: more is asked for only while a chunk is incomplete, a skip ends exactly at the end of a chunk, and what was captured before it is kept.",
  over=["inputs", "schedules"], forall="every well-formed PNG, however it is buffered",
  why_tests_cant="The tests hold a few small PNGs that fit in one buffer, with one Exif source and short texts each.",
  files=["src/png.rs", "src/exif.rs"], mechanism=[("extract_chunks", "src/png.rs"), ("decode_raw_profile_value", "src/png.rs"), ("parse_png_full", "src/exif.rs"), ("parse_png_exif_iter", "src/exif.rs")],
  technique=DT + ", over chunk layouts with unknown contents: every result at every kind of cut, with the carried state, is compared with the chunks", note="About 5250 obligations: 26 layouts x cuts (at, before, inside and behind each chunk's parts), 274 profile texts. Layouts and profile texts are enumerated, not all; chunk contents are arbitrary. The 16 MiB total is not reached by a layout. " + TRUST),
dict(id="P38", title="A JPEG's (and RAF's) Exif block is that of its first Exif segment",
  statement="For any JPEG made of marker segments with 16-bit lengths (SOI, segments of any kind and length, a scan), the Exif block is what follows the 'Exif\\0\\0' marker in the first APP1 segment in front of the first SOS that starts with it, and no Exif is reported when there is none or it is empty; other segments, APP1 segments with other contents included, are passed over. A RAF file gives the block of the JPEG at the offset its header states. The result does not depend on how the file is buffered: more is asked for exactly while a segment (or RAF part) that decides it is incomplete, never more than that needs, and the iterator is over exactly the bytes found.",
  over=["inputs", "schedules"], forall="every arrangement of segments, however it is buffered",
  why_tests_cant="The sample JPEGs all have Exif in their first APP1 segment and the one RAF sample has its JPEG right behind the header.",
  files=["src/jpeg.rs", "src/raf.rs", "src/exif.rs"], mechanism=[("find_exif_segment", "src/jpeg.rs"), ("parse_segment", "src/jpeg.rs"), ("RafInfo::parse", "src/raf.rs"), ("extract_exif_range", "src/exif.rs"), ("range_to_iter", "src/exif.rs")],
  technique=DT + ", over segment layouts with unknown contents: the result at every kind of cut is compared with the segments", note="About 3160 obligations: 19 JPEG layouts and 18 RAF layouts x cuts (at, before, inside and behind each segment's parts). Layouts are enumerated, not all; contents are arbitrary. Fill bytes (FF FF) and parameterless markers other than SOI in front of the scan are outside the statement, as is a RAF camera name without a NUL. " + TRUST),
dict(id="P21", title="A Motion Photo's track is the trailer its XMP declares",
  statement="For any JPEG, the Motion Photo trailer length is what the first APP1 XMP packet in front of the scan that declares one says (a packet with GCamera:MotionPhoto or MicroVideo = \"1\": in its Container directory the Length of the first MotionPhoto or video/mp4 item and of every item behind it, plus the Padding of all of these but the directory's last; without such a sum, MotionPhotoOffset, else MicroVideoOffset). parse_track parses exactly that many bytes at the end of the file, as what they are sniffed to be, and reports TrackNotFound when nothing is declared, the trailer does not fit into the file or is no track. has_embedded_track says whether a declaration is found within 256 KiB behind what parsing the Exif had read, however the reads fall, sync or async.",
  over=["inputs", "schedules"], forall="every JPEG and XMP packet, however it is buffered",
  why_tests_cant="The tests have one synthetic Motion Photo and four XMP texts; packet order, further items, paddings, number limits and segment cuts go untested.",
  files=["src/jpeg.rs", "src/exif.rs", "src/parser.rs"], mechanism=[("scan_motion_photo", "src/jpeg.rs"), ("parse_motion_photo_offset", "src/jpeg.rs"), ("container_motion_photo_offset", "src/jpeg.rs"), ("detect_motion_photo", "src/exif.rs"), ("parse_jpeg_motion_photo", "src/parser.rs")],
  technique=DT + ", over known XMP texts and segment layouts: the scan's result at every kind of cut is compared with what the XMP declares, and the way to the track with the declared trailer", note="About 570 obligations: 30 XMP texts and 11 segment layouts x cuts, 44 announcements, 84 trailers. The texts and layouts are enumerated, not all. Attributes are recognised as the code does, by name=\"value\" text. The text search helper is recognised by its values on 19 pairs. " + TRUST),
dict(id="P37", title="A CR3's metadata blocks are those of the Canon box in its moov",
  statement="For any CR3 file (ftyp first), once the buffer reaches into its moov box, the metadata blocks are the CMT1, CMT2 and CMT3 boxes directly inside the first Canon uuid box (85c0b687-820f-11e0-8111-f4ce462b6a48) directly inside the first moov box: each block is exactly that box's contents, with 32- or 64-bit box sizes, if these are at least 8 bytes and, for CMT1, begin with a TIFF header. Other boxes, other vendors' uuid boxes and unusable blocks are passed over wherever they stand. Nothing is returned before the moov box is complete and no more is asked for than completes it; a file whose moov has no usable block is refused as malformed. parse_exif iterates the first block and then the others except CMT3, each over exactly its bytes in the buffer, sync and async.",
  over=["inputs"], forall="every CR3 box layout, and every prefix of it that reaches into the moov box",
  why_tests_cant="The tests read one Canon sample and a few built boxes; 64-bit sizes, other vendors' boxes, unusable blocks and cuts inside the moov box go untested.",
  files=["src/cr3.rs", "src/bbox/cr3_moov.rs", "src/bbox/uuid.rs", "src/exif.rs"], mechanism=[("extract_all_cmt_ranges", "src/cr3.rs"), ("parse_cr3_exif_iter", "src/exif.rs"), ("parse_cr3_exif_iter_async", "src/exif.rs")],
  technique=DT + ", over known box layouts: the blocks found in every kind of prefix are compared with the boxes, and the bytes handed to the iterator with the blocks", note="About 1400 obligations: 19 box layouts x cuts (626 evaluations) and 27 block lists, sync and async. The layouts are enumerated, not all; repeated CMT boxes of one kind are not among them. A buffer that ends in front of the moov box is not covered. " + TRUST),
]
NA = {}
