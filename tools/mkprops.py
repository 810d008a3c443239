"""Writes properties.jsonl (kept so that the file stays readable and diffable)."""
import json, os
P = []
def p(id, title, st, text, why, files, mech, over=("inputs",)):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mech]}})
W = "The tests parse a few dozen well-formed sample files and compare snapshots; "

p("P01", "Parsing arbitrary bytes never panics",
  "For every byte sequence handed to a public parsing entry point, and for every value held by a parsed model, the library returns a result instead of panicking: no out-of-range index or slice, no unwrap of an absent value, no arithmetic overflow, no division by zero, no explicit abort. Malformed content is reported as an error value.",
  "every input byte sequence and every parsed model object",
  W + "they never reach the panic sites behind malformed counts, offsets, empty strings or missing values.",
  "src/reader.rs src/shared/multi_byte.rs src/onenote/ink.rs src/onenote/rich_text.rs src/one/property_set/number_list_node.rs src/fsshttpb/data/compact_u64.rs src/fsshttpb/packaging.rs",
  [("bounds test before every slice", "Reader::read"), ("length test before byte access", "CompactU64::parse"), ("reference/run index arithmetic", "parse_rich_text")])
p("P02", "Every parsing loop terminates",
  "For every input, each loop executed while parsing performs finitely many iterations: it either walks a finite collection, or consumes at least one byte of the remaining input (failing at its end) on every pass, or strictly advances towards a fixed bound. No chain of references stored in the file can keep a loop running forever.",
  "every input byte sequence, including reference chains that form cycles",
  W + "none contains a cyclic reference chain or a structure that makes no progress.",
  "src/fsshttpb/packaging.rs src/fsshttpb/data_element/mod.rs src/fsshttpb/data_element/object_group.rs src/onestore/object_space.rs src/shared/multi_byte.rs",
  [("base-revision chain", "ObjectSpace::parse"), ("element loops", "fsshttpb/data_element"), ("variable-length integer loop", "decode_uint")])
p("P03", "Recursion depth is bounded for every input",
  "No input can drive the parser into unbounded recursion: every recursive descent through nested property sets or through object references either follows a structure that cannot be cyclic and whose depth is limited, or carries an explicit depth limit, and exceeding it is reported as an error value rather than overflowing the stack.",
  "every input, including self-referencing objects and arbitrarily deep nesting",
  W + "a stack overflow aborts the process and needs an adversarial nesting depth or a reference cycle.",
  "src/onestore/types/property.rs src/onestore/types/prop_set.rs src/onenote/outline.rs src/onenote/table.rs src/onenote/notebook.rs src/onenote/content.rs",
  [("nested property sets", "PropertySet::parse <-> PropertyValue::parse"), ("outline/table nesting", "parse_outline_element <-> parse_cell"), ("table of contents nesting", "parse_toc_entry")])
p("P04", "Memory reserved up front is backed by input actually present",
  "While parsing, memory is never reserved from a count or size field stored in the input before the corresponding bytes are known to be present: storage grows as elements are actually read, or is sized from data already in memory. A short file therefore cannot make the parser allocate an amount of memory unrelated to its length.",
  "every input byte sequence with arbitrary count and size fields",
  W + "oversized counts do not occur in them and a large reservation does not fail an assertion.",
  "src/reader.rs src/one/property/simple.rs src/onestore/types/prop_set.rs src/onenote/mod.rs src/fsshttpb/data/exguid.rs",
  [("collect of per-element reads", "*::parse_array"), ("file read buffer", "Parser::read")])
p("P05", "No parse failure is swallowed",
  "Whenever any step needed to build a result fails while parsing (reading a field, decoding a value, resolving a reference, parsing a nested object), the enclosing parse call fails too; a failure is never turned into a default, a missing value, a skipped element or a shorter list. The only tolerated outcome of a failed step is an error returned to the caller.",
  "every input and every fallible step on every parsing path",
  W + "a swallowed error looks like a successful parse with slightly less content.",
  "src/fsshttpb src/onestore src/one src/onenote",
  [("? propagation", "all parse functions"), ("collect into Result", "iterator pipelines")])
p("P06", "A reference to something missing from the file is an error",
  "When an object, cell, revision, mapping, index, manifest, object group, data blob or root that the file refers to (or that the format requires) is not present, parsing fails with an error. It never continues as if the reference had not been there and never substitutes another object.",
  "every input in which a mandatory or referenced entity is absent",
  W + "all references in the samples resolve.",
  "src/onestore/mod.rs src/onestore/object_space.rs src/onestore/object.rs src/onestore/revision.rs src/onenote src/fsshttpb/data_element/mod.rs",
  [("ok_or_else on every lookup", "onenote/*, onestore/*")])
p("P07", "Truncated input is reported as unexpected end of data",
  "Every read of n bytes either yields exactly the next n bytes of the input and advances by n, or fails with the unexpected-end error without consuming anything; fixed-width integers are little-endian. There is no other way for parsing code to obtain input bytes, so no value is ever made up for data that is not there.",
  "every input and every truncation point",
  W + "only a handful of truncations are exercised and only in unit tests of single helpers.",
  "src/reader.rs src/onestore/types/property.rs",
  [("bounds-checked cursor", "Reader")])
p("P08", "Bit-packed header and identifier fields are decoded at specified positions",
  "For every encoded value, each field of the bit-packed encodings (16- and 32-bit stream object headers, 8- and 16-bit end headers, compact 64-bit integers, compact extended GUIDs and ids, object stream headers and object references, property ids, object class ids, layout alignment, colors and note tag status flags) takes exactly the value of the bit range assigned by the format, and encodings that match no defined form are rejected.",
  "every bit pattern of every packed encoding",
  W + "they contain few of the bit patterns; a wrong shift or mask on rare widths stays invisible.",
  "src/fsshttpb/data/stream_object.rs src/fsshttpb/data/compact_u64.rs src/fsshttpb/data/exguid.rs src/onestore/types/property.rs src/onestore/types/compact_id.rs src/onestore/types/object_stream_header.rs src/onestore/types/jcid.rs src/one/property/layout_alignment.rs src/one/property/note_tag_property_status.rs",
  [("shift/mask decoding", "ObjectHeader::parse_16/32, CompactU64::parse, ExGuid::parse, PropertyId::parse, JcId::parse")])
p("P09", "Wire structures are decoded field by field in format order",
  "For every input, each container structure of the packaging, data element, object group, revision, index, manifest, object stream and property set layers is decoded by consuming exactly the fields the format defines, in that order and with the defined repetition counts and conditions, and each decoded field ends up in the matching member of the result. After a structure has been decoded, the read position is just behind it.",
  "every byte sequence presented to each structure decoder",
  W + "optional, repeated and rare structure parts (fragments, legacy packaging, blobs, empty lists) are absent from them.",
  "src/fsshttpb/packaging.rs src/fsshttpb/data_element src/fsshttpb/data src/onestore/types/object_prop_set.rs src/onestore/types/prop_set.rs src/onestore/types/property.rs src/onestore/header.rs",
  [("sequential field reads", "parse_* functions of fsshttpb and onestore/types")])
p("P10", "Every framed object is closed by the end marker of its own type",
  "Each framed object is accepted only if it is opened by a start header of the expected object type, and each compound object only if it is closed by the end header of the same type, in the 8-bit or 16-bit form that goes with the type; any other header is rejected. No compound object's end header is left unread.",
  "every input and every framed object in it",
  W + "they contain only correctly framed objects.",
  "src/fsshttpb/data/stream_object.rs src/fsshttpb/data_element src/fsshttpb/packaging.rs",
  [("try_parse / try_parse_end_8 / try_parse_end_16", "fsshttpb/*")])
p("P11", "Type codes select exactly the decoder that belongs to them",
  "For every type code found in the input (stream object type, data element type, object group element, property value type, property set class, content class, revision role), exactly the decoder and result variant belonging to that code are used, all codes the format allows at that point are accepted, and any other code is rejected with an error.",
  "every value of every type code field",
  W + "many codes occur rarely or never in the samples.",
  "src/fsshttpb/data_element/mod.rs src/fsshttpb/data/object_types.rs src/onestore/types/property.rs src/one/property_set/mod.rs src/onestore/revision_role.rs src/onenote/content.rs src/onenote/page_content.rs src/onenote/outline.rs",
  [("match on type code", "DataElement::parse, PropertyValue::parse, PropertySetId, parse_content")])
p("P12", "GUIDs have one consistent meaning in bytes, text and comparisons",
  "Reading a GUID from its 16-byte mixed-endian form, parsing it from text and printing it agree for every GUID value: text made from a decoded GUID parses back to an equal GUID, all 128 bits take part in equality, and the all-zero GUID (and only it) is the nil GUID.",
  "every 128-bit GUID value",
  W + "only a few fixed GUIDs are compared.",
  "src/shared/guid.rs src/fsshttpb/data/exguid.rs",
  [("mixed-endian decode", "Guid::parse"), ("textual form", "Guid::from_str, Display")])
p("P13", "Only files with a genuine OneNote header are accepted",
  "A successful parse implies that the file header carried a known file type and the supported store format identifier, and that every constant the container header prescribes was present with exactly its prescribed value. Anything else is rejected before content is interpreted.",
  "every input byte sequence",
  W + "a single bad-header case is sampled at most.",
  "src/fsshttpb/packaging.rs src/onestore/header.rs",
  [("constant and GUID comparisons", "OneStorePackaging::parse, StoreHeader::parse")])
p("P14", "The newest revision of each object and root wins",
  "In a revision chain, the content and the root of each role reported for an object space come from the newest revision that defines them; an older base revision only contributes objects and roots that no newer revision defines. Every revision from the current one down to the first is taken into account.",
  "every revision history stored in a file",
  W + "their chains rarely redefine the same object or root in several revisions.",
  "src/onestore/object_space.rs src/onestore/revision.rs",
  [("walk from newest to base", "ObjectSpace::parse"), ("entry-or-insert merge", "Revision::parse")], over=("inputs", "histories"))
p("P15", "Object references resolve through the stream position of their own property",
  "A property that references objects, object spaces or contexts is resolved with exactly the entries of the id stream that belong to it: the starting position equals the number of ids used by all properties before it (including nested ones), and as many consecutive ids as the property references are taken, in order, from the id stream of the matching kind.",
  "every property set layout, with any number and kind of reference properties before the one resolved",
  W + "few property sets mix several reference properties, nested sets and object-space references.",
  "src/one/property/object_reference.rs src/one/property/object_space_reference.rs src/one/property/references.rs src/one/property_set/note_tag_container.rs src/one/property_set/text_run_data.rs",
  [("offset = count of preceding references", "ObjectReference::get_offset, ObjectSpaceReference::get_offset"), ("nested sets", "get_object_ids, get_object_space_ids")])
p("P16", "Compact ids are translated by the mapping table of their own object",
  "The translation of a compact id stored in an object uses that object's own mapping table and id stream position: the compact id's table slot and value select the full identifier, object ids and object-space ids are kept in separate tables, and an id without entry stays unresolved instead of resolving to a different object.",
  "every mapping table and every id used by an object",
  W + "the samples never contain conflicting mappings.",
  "src/onestore/mapping_table.rs src/onestore/object.rs",
  [("lookup", "MappingTable::get"), ("construction", "MappingTable::from_entries, Object::parse")])
p("P17", "Storage lookups return the entry that was asked for",
  "Every lookup by identifier in the storage graph (index, manifest, cell, revision, object group, blob, root role, object space, object data partition) returns an entry whose identifier equals the requested one, follows the indirection the format prescribes from cell to revision to object groups, and never falls back to an entry of another identifier or role.",
  "every storage graph contained in a file",
  W + "most samples hold one candidate per lookup, so taking the wrong entry is unobservable.",
  "src/fsshttpb/data_element/mod.rs src/fsshttpb/data_element/storage_index.rs src/onestore/mod.rs src/onestore/object.rs src/onestore/object_space.rs src/onestore/revision.rs src/onestore/revision_role.rs",
  [("id comparison and map lookup", "DataElementPackage::find_*, resolve_*"), ("roles and partitions", "RevisionRole::parse, Object::parse")])
p("P18", "Objects are only interpreted as the class they declare",
  "An object's properties are interpreted as a given kind of content (page, outline, image, table, ink, note tag and so on) only if the object declares the class identifier assigned to that kind; otherwise parsing fails. The declared class is the one in the object's own declaration.",
  "every object in every file",
  W + "no sample refers to an object of the wrong class.",
  "src/one/property_set src/one/property_set/mod.rs",
  [("class gate", "assert_property_set"), ("class numbers", "PropertySetId")])
p("P19", "Each decoded field comes from its own file property with its own decoder",
  "Every field decoded for a content object is taken from the file property the format assigns to that field, read with the value type encoded in that property's id, and an absent property yields exactly the documented default, absence or error for that field. No two fields are exchanged and none is read from another object.",
  "every property set content, with any subset of properties present",
  W + "many properties are absent or have equal values in the samples, so exchanged fields and wrong defaults go unnoticed.",
  "src/one/property_set src/one/property src/onestore/types/property.rs",
  [("field <- property id, decoder, default", "*_node::parse"), ("value type of an id", "PropertyId / PropertyType")])
p("P20", "Public accessors report the value parsed for them",
  "Each public accessor of the parsed model returns the value that parsing stored for that attribute, and parsing stores into each attribute the corresponding decoded field of the object it was built from; attributes are not exchanged, dropped, negated or rescaled between decoding and access.",
  "every parsed model object",
  W + "the snapshots cover only attributes that differ in the samples.",
  "src/onenote",
  [("model construction", "onenote/*::parse_*"), ("getters", "onenote/* public methods")])
p("P21", "Collections are complete and keep file order",
  "Sections, page series, pages, page contents, outline items, child elements, table rows and cells, note tags, text runs, ink strokes and data lists appear in the parsed result exactly once each, in the order in which the file lists them (sections in their stored order), with none skipped, duplicated or reordered.",
  "every file, with any number of elements in each collection",
  W + "dropping the last, an empty or a rare kind of element needs files they do not contain.",
  "src/onenote src/one/property/references.rs",
  [("map/collect over ids", "onenote/*::parse_*"), ("section ordering", "parse_toc")])
p("P22", "Stored codes and packed property values decode to the right meaning",
  "Every stored code of an enumerated property (character set, tag shape, tag type and status, alignment, pen tip, list and math object kinds, embed types) decodes to the enumerator that has this code and undefined codes are rejected; structured property values (colors, times, sizes, dimensions, indents, authors) decode with the format's field positions, units and byte order.",
  "every stored code or value of these properties",
  W + "most codes never occur in the samples.",
  "src/one/property",
  [("code tables", "one/property/*::parse"), ("enumerators", "enum discriminants")])
p("P23", "Text and its formatting runs are decoded losslessly and in step",
  "Text is decoded from the encoding its property declares (UTF-16LE up to its terminator, or one code point per byte where the file stores 8-bit text), invalid text is an error, and text-run boundaries, styles and embedded objects refer to the same positions the file states. Nothing of the text before its terminator is dropped, duplicated or replaced; only the marker pattern of a numbered list, which uses replacement characters as placeholders, may contain them.",
  "every stored text, run boundary list and style list",
  W + "lone surrogates, embedded terminators, hidden runs, math and rare run layouts are not sampled.",
  "src/utils.rs src/one/property/simple.rs src/one/property_set/rich_text_node.rs src/onenote/rich_text.rs src/one/property_set/math_inline_object.rs src/onenote/math_inline_object.rs",
  [("UTF-16 decoding", "utf16_to_string, parse_string"), ("run/style assembly", "parse_rich_text")])
p("P24", "Notebook entries never lead outside the notebook folder",
  "Every file or folder opened because of a name stored inside a notebook lies inside the folder of that notebook: absolute paths, parent-directory components, drive prefixes, names changed by file name sanitising, empty names and symbolic links that resolve outside the folder are rejected with an error before the path is opened.",
  "every entry name stored in a table of contents and every directory layout",
  W + "three unit tests sample a parent, an absolute and one plain name; links, mixed components and callers that bypass the check are not tested.",
  "src/onenote/mod.rs",
  [("component filter, sanitise, canonical prefix test", "resolve_entry_path"), ("use on every entry before opening", "Parser::parse_notebook")], over=("inputs", "configurations"))
p("P25", "The library only ever reads files",
  "Using the library opens files and directories for reading only: it never creates, writes, renames, removes or re-permissions anything, never starts processes or threads, never touches the network, environment, clock or standard streams, never exits the process, and contains no unsafe code. Only the path-based notebook and section entry points touch the file system at all; everything else works on memory.",
  "every call of the public API",
  W + "an extra side effect leaves results unchanged.",
  "src",
  [("file access", "Parser::parse_notebook, Parser::parse_section, Parser::read"), ("no other effects", "whole crate")], over=("inputs", "programs"))
p("P26", "A section is never opened as a notebook, nor the reverse",
  "Parsing a notebook succeeds only for a file whose schema identifier is the one of tables of contents, and parsing a section (from a file or a buffer) only for the section schema; in every other case the dedicated wrong-file-kind error naming the file is returned. The check happens before any content of the file is interpreted, on the opened file itself and on every file reached through it.",
  "every input file of either kind or neither",
  W + "the wrong-kind errors are sampled with one file each at most.",
  "src/onenote/mod.rs src/onestore/mod.rs src/onestore/header.rs",
  [("schema comparison", "Parser::parse_notebook, parse_section, parse_section_buffer"), ("schema source", "OneStore::schema_guid")])
p("P27", "The parser is stateless and its results are shareable across threads",
  "The parser and everything it returns can be sent to and shared between threads, and parsing neither reads nor writes any state that outlives the call: no global, thread-local, cached or interior-mutable state exists. Parsing the same bytes again, before, after or concurrently with other parses, is therefore unaffected by them.",
  "every interleaving of parser calls and every history of earlier calls",
  "Tests run parses in isolation and cannot enumerate interleavings or detect hidden state.",
  "src/onenote/mod.rs src/lib.rs",
  [("no statics, no interior mutability", "whole crate"), ("auto traits of public types", "public API")], over=("schedules", "histories"))
p("P28", "Parsing is deterministic",
  "The result of parsing depends only on the input bytes (and, for notebooks, on the set of files in the folder): it never depends on hash-map iteration order, addresses, time, randomness or the order in which the operating system lists directory entries.",
  "every input and every run of the process",
  "A test sees one hash seed and one directory order per run, and the samples have single candidates where order matters.",
  "src/fsshttpb/data_element/mod.rs src/fsshttpb/data_element/storage_index.rs src/onestore src/onenote/mod.rs",
  [("lookups by key instead of iteration", "DataElementPackage, MappingTable"), ("directory listing", "Parser::parse_section_group")], over=("inputs", "schedules"))
p("P29", "Parsing a section from memory equals parsing it from a file",
  "For the same bytes and the same file name, parsing a section from a buffer and from a file produce the same section or fail alike, and all bytes of the file are taken into account. The display name is the section's stored name, or else the file name, without the section extension.",
  "every section content and file name",
  W + "the two routes are not compared and only plain names occur.",
  "src/onenote/mod.rs src/onenote/section.rs",
  [("two entry points", "Parser::parse_section, Parser::parse_section_buffer"), ("display name", "section::parse_section")])
p("P30", "Failures are reported under the category that describes them",
  "An error returned to the caller carries the category of what went wrong: premature end of data, not a table of contents, not a section, malformed container data, malformed store data, malformed note content, missing table of contents, invalid path, or the underlying I/O, text or GUID error. Errors from lower layers keep their category unchanged on the way up.",
  "every input that fails to parse",
  W + "few failing inputs are sampled and hardly any test looks at the category.",
  "src/errors.rs src/fsshttpb src/onestore src/one src/onenote",
  [("error construction sites", "ErrorKind"), ("conversions", "From impls in errors.rs")])
p("P31", "Ink strokes are rebuilt from their encoded dimensions",
  "For every ink stroke, the encoded path is split evenly by the stroke's dimension list, the X and Y dimensions are identified by their own identifiers, and the points are the pairwise combination of both coordinate sequences in order; pen properties (color, size, tip, transparency), scaling and bounding boxes come from the stroke's own properties. Signed variable-length integers decode to the value the format defines for every encoding, and overlong ones are rejected.",
  "every encoded path, dimension list and integer encoding",
  W + "the samples use few dimension layouts and small deltas.",
  "src/onenote/ink.rs src/one/property_set/stroke_properties_node.rs src/one/property_set/ink_container.rs src/one/property_set/ink_stroke_node.rs src/one/property/ink_dimensions.rs src/shared/multi_byte.rs",
  [("dimension split", "parse_ink_path"), ("integer decoding", "decode_signed, decode_uint")])
p("P32", "Object payloads come from the declaration they belong to",
  "Each object of an object group is built from the declaration and data entry at the same position: its class, properties, references and file data come from the partitions declared for that object id, and file data stored in a separate blob is fetched by the blob id the entry names. Data of one object never ends up in another.",
  "every object group with any number and order of declarations, partitions and data entries",
  W + "groups in the samples have one regular layout.",
  "src/onestore/object.rs src/onestore/revision.rs src/fsshttpb/data_element/object_group.rs src/fsshttpb/data_element/mod.rs",
  [("partition lookup", "Object::parse"), ("declaration/data pairing", "Revision::parse_group, DataElementPackage::find_objects"), ("blob lookup", "Object::find_blob_id")])
# not decided here
p("P33", "Rendered geometry and numeric conversions are numerically exact",
  "For every stored floating-point layout value, size or coordinate, the reported value equals the stored one up to the format's unit conversion, without loss of precision, overflow to infinity or NaN leaking into layout results.",
  "every floating-point bit pattern stored in a file",
  W + "they hold ordinary values only.",
  "src/one/property src/onenote/ink.rs",
  [("float decoding", "Reader::get_f32"), ("coordinate scaling", "parse_ink_data")])
p("P34", "Parse time and memory grow at most linearly with the input",
  "The time and memory needed to parse a file are bounded by a fixed multiple of its size, whatever its content, so that no small file can occupy the parser for a disproportionate time.",
  "every input byte sequence",
  W + "no timing is measured and repetitive references to shared objects do not occur.",
  "src/onestore/object_space.rs src/onenote",
  [("re-parsing of shared objects", "onenote/*::parse_*")])
p("P35", "Every file written by the modern OneNote apps parses successfully",
  "Any well-formed notebook or section exported by the modern OneNote apps is accepted and its visible content is reported as shown in the app.",
  "every document producible by the application",
  "The application and its documents are not available; samples cover a few.",
  "src",
  [("whole parser", "Parser::parse_notebook, Parser::parse_section")])
p("P36", "No integer read from a file is silently cut short",
  "Wherever decoding converts an integer to a type with fewer bits, either the value fits for every input that reaches the conversion (by its encoding or by a preceding check), or the bits that are cut off are decoded as well and end up in another part of the same result (as when a GUID is split into bytes). A count, size, offset, position, id or coordinate outside the range of the narrower type is therefore never replaced by another, smaller number. (Conversions to usize are judged for 64-bit targets; a change of signedness at the same width keeps all bits.)",
  "every input and every conversion to a narrower integer type",
  W + "their numbers are small, so a conversion that drops high bits changes nothing in them.",
  "src/fsshttpb/data/binary_item.rs src/fsshttpb/data_element/data_element_fragment.rs src/fsshttpb/packaging.rs src/fsshttpb/data/compact_u64.rs src/onestore/types/compact_id.rs src/shared/guid.rs src/shared/multi_byte.rs src/onenote/ink.rs src/one/property_set/mod.rs",
  [("widening before use", "CompactU64::parse, parse_32"), ("masking before narrowing", "CompactId::parse"), ("byte splitting", "Guid::parse"), ("signed decoding", "decode_signed")])
p("P37", "Parsing is memory safe for every input",
  "No input and no sequence of calls on the public interface can make the library access memory out of bounds, use freed or uninitialised memory, produce text that is not valid UTF-8 or an enum value that does not exist, or race on memory: the crate contains no code that is exempt from the compiler's checks (no unsafe blocks, functions, implementations, foreign items or mutable statics, and no calls of unsafe functions), and it calls only external crates that have been reviewed.",
  "every input byte sequence and every use of the public interface",
  W + "undefined behaviour often shows no symptom in a test that passes.",
  "src/reader.rs src/lib.rs src/onestore src/fsshttpb src/one src/onenote src/shared",
  [("safe cursor over the input", "Reader"), ("checked text decoding", "src/one/property/simple.rs"), ("checked enum conversion", "ObjectType, PropertySetId, PropertyValue::parse")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
