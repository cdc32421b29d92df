#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

NOSNAP = "The repository's four content tests are insta snapshots with no stored snapshot (they always fail), so no reliable test looks at parsed content; "

p("C01", "Malformed bytes give an error, never a crash, hang or memory blow-up",
  "For every byte sequence offered as a section or notebook file, parsing returns either a result or an error: it never panics, aborts, overflows an arithmetic operation, loops forever, or allocates memory out of proportion to the size of the input and of the result it returns. This includes files cut off at any byte, files with any byte or length/count field replaced, and files in which any stored property is missing, empty, too short or of the wrong kind.",
  ["inputs", "fault_sequences"],
  "every truncation point, every single-byte and multi-byte field substitution, insertion and deletion, and every missing/short/mistyped property of a family of files that exercises every object kind",
  "Three unit tests feed single truncated primitives; no test corrupts a whole file, and the space of corruptions is what matters.",
  ["src/reader.rs", "src/fsshttpb", "src/onestore", "src/one", "src/onenote"],
  [("length-checked cursor", "src/reader.rs"), ("typed property accessors returning errors", "src/one/property/simple.rs"),
   ("checked offset arithmetic", "src/fsshttpb/packaging.rs, src/shared/multi_byte.rs")],
  [("cursor", "remaining input", "src/reader.rs")], ["Parser::parse_section_buffer", "Parser::parse_section", "Parser::parse_notebook"])

p("C02", "Cyclic, self-referential or very deep files still terminate with an answer",
  "Parsing terminates with a result or an error, without exhausting the stack, whatever shape the references stored in a file form: revision chains, outline, table and page content references and notebook table-of-contents references may be cyclic, self-referential or arbitrarily deep. Nested property sets and nested section-group directories are handled the same way. A cyclic revision chain, a cyclic content or table-of-contents reference and a directory cycle are reported as an error; content nested very deeply (beyond 40 levels) or shared excessively may be refused.",
  ["inputs", "histories"],
  "all reference graphs over a small number of objects of every container kind (including self loops), all base-revision graphs over a small number of revisions, and nesting chains of every length up to far beyond the stack",
  "No test contains a cyclic or deep file; the property quantifies over all graph shapes.",
  ["src/onestore/object_space.rs", "src/onestore/types/prop_set.rs", "src/onenote/outline.rs", "src/onenote/table.rs", "src/onenote/notebook.rs"],
  [("revision chain walk", "src/onestore/object_space.rs"), ("recursive content walk", "src/onenote/outline.rs, src/onenote/table.rs"), ("recursive property sets", "src/onestore/types/property.rs")],
  [("reference graph", "which object names which other objects", "src/onestore/object_space.rs")],
  ["Parser::parse_section_buffer", "Parser::parse_notebook"])

p("C03", "Variable-length integers and identifiers decode to exactly the stored value",
  "Every variable-width integer, extended identifier, serial number and stream-object header is decoded to exactly the value the file-format specification assigns to its bytes, whichever of the permitted widths the writer chose, and consumes exactly its own bytes. Two identifiers or sizes that differ in any single bit are never confused, and encodings of integers, identifiers and header types that the specification does not define are rejected.",
  ["inputs"],
  "every width of every encoding, every bit position and the boundary values of each width, at every place in a file where such a value occurs",
  "The unit tests decode one example per width; they do not cover all values, all bit positions, or the effect of a wrong width inside a file.",
  ["src/fsshttpb/data/compact_u64.rs", "src/fsshttpb/data/exguid.rs", "src/fsshttpb/data/serial_number.rs", "src/fsshttpb/data/stream_object.rs", "src/shared/guid.rs", "src/reader.rs"],
  [("width dispatch", "src/fsshttpb/data/compact_u64.rs, src/fsshttpb/data/exguid.rs"), ("header bit fields", "src/fsshttpb/data/stream_object.rs")],
  [], ["Parser::parse_section_buffer"])

p("C04", "Broken package framing is rejected; every conforming framing reads alike",
  "A file whose package framing violates the format (wrong, missing or misplaced start or end marker, unknown element or object type, wrong reserved bytes, wrong version or format identifier, differing declaration and data counts, missing store root) is rejected with an error instead of yielding content. Every framing the format permits for the same content (short or long headers, optional metadata blocks, unused fragment elements, any order of data elements, either container layout) yields the same parsed result.",
  ["inputs", "fault_sequences"],
  "every marker position and every marker substitution of a complete file; every combination of permitted framing alternatives",
  "Unit tests build one well-formed instance of each element; none checks a full package nor substitutes markers.",
  ["src/fsshttpb/packaging.rs", "src/fsshttpb/data_element", "src/fsshttpb/data/stream_object.rs", "src/onestore/mod.rs"],
  [("start/end header matching", "src/fsshttpb/data/stream_object.rs"), ("element loop", "src/fsshttpb/data_element/mod.rs"), ("container layout dispatch", "src/fsshttpb/packaging.rs")],
  [("package", "all data elements read from the file", "src/fsshttpb/data_element/mod.rs")], ["Parser::parse_section_buffer", "Parser::parse_notebook"])

p("C05", "The newest revision of every object and of every root wins",
  "For a cell stored as a chain of revisions, the visible content is that of the newest revision: each object takes the value from the most recent revision that contains it, objects not rewritten are inherited from older revisions, and each root points where the most recent revision that declares it says. A missing link in the chain is reported as an error rather than yielding older or partial content.",
  ["histories"],
  "all revision histories up to a bounded length in which every revision writes any subset of objects (split over any object groups) and declares any subset of roots, with every way of linking cell, revision mapping and manifest",
  NOSNAP + "and no unit test builds a revision chain.",
  ["src/onestore/object_space.rs", "src/onestore/revision.rs", "src/fsshttpb/data_element/mod.rs", "src/fsshttpb/data_element/storage_index.rs"],
  [("newest-first walk that keeps the first value seen", "src/onestore/revision.rs"), ("mapping lookup with fallbacks", "src/fsshttpb/data_element/mod.rs")],
  [("objects", "object id to current object of the cell", "src/onestore/object_space.rs"), ("roots", "role to object id", "src/onestore/object_space.rs")],
  ["Parser::parse_section_buffer"])

p("C06", "The result depends only on the bytes: not on order, hash seeds or history",
  "Parsing is a function of the file's bytes and name: repeating it, changing the order in which independent data elements, mappings and declarations are stored, or running under different hash-map seeds gives an equal result, or an error in every case; where stored identifiers are ambiguous the outcome is still the same every time. A parser value carries no state, so any sequence of earlier successful or failed calls on the same parser leaves later results unchanged, and no input is modified.",
  ["configurations", "histories"],
  "all permutations of the independent elements of small packages, all hash-map iteration orders of small maps (by controlling the hash seed), all call sequences up to a bounded length over a set of good and bad inputs",
  "A unit test runs with one random seed and one call order.",
  ["src/fsshttpb/data_element/mod.rs", "src/fsshttpb/data_element/storage_index.rs", "src/onestore/mod.rs", "src/onestore/types/prop_set.rs", "src/onenote/mod.rs"],
  [("lookups by id in hash maps", "src/fsshttpb/data_element/mod.rs"), ("stateless parser", "src/onenote/mod.rs")],
  [], ["Parser::parse_section_buffer", "Parser::parse_notebook"])

p("C07", "Every stored reference resolves to the object it was stored for",
  "Each reference property of an object resolves to exactly the objects written for it, in order, regardless of which other reference properties precede or follow it, how many references they hold, whether they sit inside nested property lists, and whether the same target is referenced more than once or shares a compact identifier with another entry. References to other object spaces are numbered independently of object references. A nil reference (compact identifier zero, which has no entry in the object reference array) names no object and does not shift the references after it. Arrays of references that do not fit the property stream are refused.",
  ["inputs"],
  "all orders and multiplicities (0..n) of the reference-carrying properties of an object, all assignments of targets with repetition, and all compact-identifier assignments that the format permits",
  "Unit tests of the mapping table check a few lookups in isolation; the offset arithmetic over property orders is not exercised.",
  ["src/one/property/object_reference.rs", "src/one/property/object_space_reference.rs", "src/one/property/references.rs", "src/onestore/mapping_table.rs", "src/onestore/object.rs", "src/one/property_set/note_tag_container.rs"],
  [("offset of a property in the reference stream", "src/one/property/object_reference.rs"), ("index-disambiguated compact id table", "src/onestore/mapping_table.rs")],
  [("mapping", "compact id and position to object id", "src/onestore/mapping_table.rs")], ["Parser::parse_section_buffer"])

p("C08", "Property streams decode independently of order and of unknown properties",
  "The value read for a property is the value stored for it whatever other properties (known or unknown, of any storage type, with any length of data, nested to any permitted depth) precede or follow it in the object. Adding properties the library does not know, or permuting the stored order, never changes the parsed result, and optional reference streams may be present or absent.",
  ["inputs"],
  "all sequences of property storage types up to a bounded length around a probed property, all permutations of an object's properties, and all reference-stream layouts",
  NOSNAP + "so the alignment of property data after unusual types is never checked.",
  ["src/onestore/types/prop_set.rs", "src/onestore/types/property.rs", "src/onestore/types/object_prop_set.rs", "src/onestore/types/object_stream_header.rs"],
  [("type-directed value decoding", "src/onestore/types/property.rs"), ("id mask and lookup", "src/onestore/types/prop_set.rs")],
  [], ["Parser::parse_section_buffer"])

p("C09", "A notebook never causes files outside its own directory to be read",
  "Whatever entry names a notebook's table of contents stores, and whatever files and symbolic links exist around it, parsing a notebook only ever opens files located, after resolving links, inside the directory that contains the table of contents being read. Entries that are absolute, contain parent components or characters no portable file name has (control characters and < > : \" \\ | ? *), resolve outside or lead back to that directory itself, and section groups whose own table of contents lies outside the group, are refused with an error, while every plain relative entry (made of portable file names) inside the directory is accepted.",
  ["inputs", "configurations"],
  "all entry names composed of a bounded number of components over an alphabet of hostile and benign components, crossed with directory layouts containing files, directories and symbolic links into and out of the notebook, at top level and in nested section groups",
  "Three unit tests try three strings and no symbolic link.",
  ["src/onenote/mod.rs"],
  [("entry path resolution and canonical prefix check", "src/onenote/mod.rs (resolve_entry_path)"), ("group table-of-contents lookup", "src/onenote/mod.rs (parse_section_group)")],
  [], ["Parser::parse_notebook", "paths opened by the process"])

p("C10", "A notebook lists exactly its present sections and groups in stored order",
  "Parsing a notebook returns one entry per section file or section-group directory that the table of contents names and that exists, in ascending stored order number (ties in stored order, repeats of the same neighbouring name collapsed), recursively for section groups, excluding the recycle bin and skipping names that do not exist. Escaped characters in stored names are decoded, the notebook colour and group names are reported, and a group without a table of contents or an entry of the wrong file type is an error.",
  ["inputs", "configurations"],
  "all small table-of-contents trees with every assignment of order numbers, names (including repeats, escapes, recycle bin, missing) and file-system presence",
  "One reliable test parses one sample notebook and checks only that it succeeds.",
  ["src/onenote/notebook.rs", "src/onenote/mod.rs", "src/one/property_set/toc_container.rs"],
  [("collect, sort, dedup", "src/onenote/notebook.rs"), ("existence filter and group recursion", "src/onenote/mod.rs")],
  [("entries", "ordered list of names with order numbers", "src/onenote/notebook.rs")], ["Parser::parse_notebook"])

p("C11", "The section, page and outline hierarchy is reproduced completely and in order",
  "The parsed section contains every page series, page, title, page content, outline, outline group, outline element, list and child element stored in the file exactly once per reference, in stored order and with its own level and layout attributes, and nothing else. Content of a kind that the library recognises but has no model of is reported as unknown without disturbing its siblings, and a reference to a missing object is an error.",
  ["inputs"],
  "all small content trees over every container kind (series, pages, titles, outlines, groups, elements, contents, lists) up to a bounded number of nodes, plus wide and deep instances, and every single missing object",
  NOSNAP + "so dropping, duplicating or reordering nodes is invisible to the tests.",
  ["src/onenote/section.rs", "src/onenote/page_series.rs", "src/onenote/page.rs", "src/onenote/page_content.rs", "src/onenote/outline.rs", "src/onenote/content.rs", "src/onenote/list.rs"],
  [("recursive reconstruction by object kind", "src/onenote/outline.rs, src/onenote/content.rs, src/onenote/page_content.rs")],
  [], ["Section, Page, Title, Outline, OutlineGroup, OutlineElement, List accessors"])

p("C12", "Tables keep their shape, cell contents, column data and attributes",
  "A parsed table reports the stored row and column counts, exactly the stored rows and cells in order with each cell's own elements, background colour, width limit and indents, and the stored column widths, column locks, border visibility, alignment and tags. This holds for empty, ragged and nested tables.",
  ["inputs"],
  "all table shapes up to a bounded number of rows and cells (including empty and ragged rows and tables nested in cells) and all presence combinations and boundary values of the table and cell attributes",
  NOSNAP + "no unit test covers tables.",
  ["src/onenote/table.rs", "src/one/property_set/table_node.rs", "src/one/property_set/table_row_node.rs", "src/one/property_set/table_cell_node.rs"],
  [("row/cell reconstruction", "src/onenote/table.rs"), ("length-prefixed column arrays", "src/one/property_set/table_node.rs")],
  [], ["Table, TableRow, TableCell accessors"])

p("C13", "Rich text keeps its text, runs, styles and embedded objects aligned",
  "A parsed paragraph reports the stored text, the stored run boundaries and one style per run in run order, its own paragraph style and spacing, and, per run, the maths object or embedded ink object stored for that run, each embedded ink reference being matched to the run it was stored for even when ink spaces and line breaks lie between. Style attributes are those of the referenced style object and of no other, and a paragraph that lists embedded references but too few of them is an error.",
  ["inputs"],
  "all run sequences up to a bounded length over every kind of run (plain, maths, ink, ink space, ink line break), every subset of style attributes, and every reference-count mismatch",
  NOSNAP + "no unit test covers rich text reconstruction.",
  ["src/onenote/rich_text.rs", "src/one/property_set/rich_text_node.rs", "src/one/property_set/text_run_data.rs", "src/one/property_set/paragraph_style_object.rs", "src/onenote/math_inline_object.rs"],
  [("zip of runs, styles and run data", "src/onenote/rich_text.rs"), ("embedded reference index adjusted for objects without reference", "src/onenote/rich_text.rs")],
  [], ["RichText, ParagraphStyling, EmbeddedObject, MathInlineObject accessors"])

p("C14", "Ink strokes decode to the stored points, scaled separately per axis",
  "Every ink stroke is returned with exactly its stored points: the packed signed coordinates are decoded, split by the stored dimension layout wherever the X and Y dimensions appear in it, and scaled by the stored horizontal factor for X and vertical factor for Y. Bounding boxes, offsets, pen and colour attributes are those stored, and truncated packed data is an error.",
  ["inputs"],
  "all packed integer values up to the full width (every byte length, sign and boundary), all dimension layouts up to a bounded size, all point counts up to a bound, all combinations of scale factors and optional attributes, all truncations of the packed data",
  "Unit tests decode three small packed arrays; the split, scale and container paths are untested.",
  ["src/onenote/ink.rs", "src/shared/multi_byte.rs", "src/one/property_set/ink_container.rs", "src/one/property_set/ink_data_node.rs", "src/one/property_set/ink_stroke_node.rs", "src/one/property_set/stroke_properties_node.rs", "src/one/property/ink_dimensions.rs"],
  [("multi-byte signed decoding", "src/shared/multi_byte.rs"), ("dimension split and scaling", "src/onenote/ink.rs")],
  [], ["Ink, InkStroke, InkPoint, InkBoundingBox accessors"])

p("C15", "Images and attachments return exactly their own stored bytes and metadata",
  "The data of an image or embedded file is byte-for-byte the data stored for it, never that of another object, for every size including empty and sizes whose length needs a longer encoding, whichever revision or group stores it. Its file name, extension, dimensions, offsets, links and other metadata are those stored for it; a reference to missing data is an error.",
  ["inputs"],
  "all assignments of stored blobs to a bounded number of attachments (including shared and missing blobs), blob sizes around every length-encoding boundary, and all presence combinations of the metadata properties",
  NOSNAP + "so a wrong or truncated payload would pass.",
  ["src/onenote/image.rs", "src/onenote/embedded_file.rs", "src/onestore/object.rs", "src/fsshttpb/data_element/object_data_blob.rs", "src/one/property_set/picture_container.rs", "src/one/property_set/embedded_file_container.rs"],
  [("blob lookup by id", "src/onestore/object.rs, src/fsshttpb/data_element/mod.rs"), ("length-prefixed payload", "src/fsshttpb/data/binary_item.rs")],
  [], ["Image and EmbeddedFile accessors"])

p("C16", "Attribute encodings map to their documented meaning over their whole range",
  "Colours, automatic colours, alignments, character sets, media types, tag states, tag shapes, due-date kinds, list formats, indents and maths kinds are decoded according to the format for every possible stored value: each defined value maps to its one meaning, and values the format leaves undefined are rejected or mapped to the documented unknown value. Numbers and measurements are returned unchanged over their full range.",
  ["inputs"],
  "the complete value domain of every one- and two-byte encoding, and every defined value, every single-bit value and boundary values of the wider encodings",
  "Unit tests check one or two values of some encodings.",
  ["src/one/property"],
  [("per-attribute decoders", "src/one/property/*.rs")],
  [], ["attribute accessors of the parsed types"])

p("C17", "Stored text is returned as exactly the characters that were stored",
  "Text stored as UTF-16 is returned as the same sequence of characters up to the terminating null, for every character including those outside the basic plane, and text stored only in the 8-bit form is decoded byte by byte as Latin-1; the Unicode form takes precedence. Text that is not valid UTF-16 is an error rather than silently altered, and names, titles, captions and labels follow the same rule.",
  ["inputs"],
  "every single 16-bit code unit and all short sequences over a boundary alphabet (ASCII, null, surrogate halves, edge code points), every 8-bit value, odd lengths, in every text-carrying property",
  NOSNAP + "the string conversion has no test over the code unit space.",
  ["src/utils.rs", "src/one/property/simple.rs", "src/one/property_set/number_list_node.rs"],
  [("UTF-16 conversion with null truncation", "src/utils.rs"), ("Latin-1 fallback", "src/one/property/simple.rs, src/one/property_set/rich_text_node.rs")],
  [], ["all string accessors"])

p("C18", "Each note tag keeps its own state, completion time and definition",
  "Every taggable item (paragraph, table, image, embedded file) reports its stored note tags in order, and each tag carries its own status flags, completion time and the label, shape, colours, due kind and property flags of the definition stored for that very tag. This holds for several tags on one item, tags without a definition, tags sharing a definition, and tags placed before or after other references of the item.",
  ["inputs"],
  "all tag lists up to a bounded length over a set of definitions including none and shared, for every taggable item kind and every position of the tag list among the item's other properties",
  NOSNAP + "no unit test covers note tags.",
  ["src/onenote/note_tag.rs", "src/one/property_set/note_tag_container.rs", "src/one/property_set/note_tag_shared_definition_container.rs"],
  [("per-tag reference window", "src/one/property_set/note_tag_container.rs"), ("definition lookup", "src/onenote/note_tag.rs")],
  [], ["NoteTag and NoteTagDefinition accessors"])

p("C19", "All entry points and container variants agree on the same content",
  "Parsing a section from a path and from a buffer with that file's name gives the same result, and so do both container layouts of the format and parsing the section on its own or through a notebook. A file of the other kind is refused as not a section or not a table of contents, the display name is the stored one or else the file name without its section extension, and relative and absolute paths to the same file are equivalent.",
  ["inputs", "configurations"],
  "all combinations of entry point, path form (bare name, relative, dotted, absolute, linked), container layout, file kind, and stored display names / file names over an alphabet that stresses the extension rule",
  "One test parses one notebook through one absolute path.",
  ["src/onenote/mod.rs", "src/onenote/section.rs", "src/fsshttpb/packaging.rs"],
  [("file kind check", "src/onenote/mod.rs"), ("layout dispatch", "src/fsshttpb/packaging.rs"), ("display name rule", "src/onenote/section.rs")],
  [], ["Parser::parse_section", "Parser::parse_section_buffer", "Parser::parse_notebook", "Section::display_name"])

p("C20", "File-system faults surface as errors, never as a silently partial notebook",
  "If any file-system operation that the result depends on fails while a notebook or section is being read (opening, reading, looking up a path, directory listing, path resolution), the call returns an error; it never panics and never returns a notebook or section with content missing or cut short. Reads that deliver fewer bytes than asked for or are interrupted, and files whose reported size is not that of their content, do not change the result.",
  ["fault_sequences"],
  "every single file-system call of a notebook parse failing with each of a set of error codes, every pair of faults, every read split at every possible short length or interrupted, and every reported file size replaced",
  "No test injects I/O errors; the property quantifies over every fault point.",
  ["src/onenote/mod.rs", "src/errors.rs"],
  [("error propagation from std::fs", "src/onenote/mod.rs")],
  [], ["Parser::parse_notebook", "Parser::parse_section"])

p("C21", "One parser can be used by several threads at once",
  "A parser may be shared by several threads. Whatever calls (section buffers, section files, notebooks; good, damaged or missing inputs) run at the same time on one parser, and however the operating system interleaves them, each call returns exactly what it would return on its own: no call disturbs, blocks or fails another one, and no result mixes content of two inputs.",
  ["schedules"],
  "all schedules of two threads with a bounded number of preemptions, over all pairs of a set of calls on one shared parser",
  "No test uses more than one thread, and a test would sample one schedule.",
  ["src/onenote/mod.rs", "src/lib.rs", "src/reader.rs", "src/onestore", "src/one", "src/onenote"],
  [("stateless parser shared by reference", "src/onenote/mod.rs (Parser, Thread safety)")],
  [], ["Parser::parse_section_buffer", "Parser::parse_section", "Parser::parse_notebook"])

p("C22", "An error says what is wrong and names the file or directory concerned",
  "A well-formed file that is not of the kind an entry point or entry needs is refused as not being such a file, and a section group without table of contents for that reason, both errors naming the file or directory, and an entry that cannot be accepted for its path. A failure of the operating system is reported as such, with the system's own description of it. Damage to the bytes of a file of the right kind is never reported as a failure of the operating system, a missing file or a wrong kind of file.",
  ["inputs", "fault_sequences"],
  "all files of another kind (all identifiers one bit away) through every way of reading a file, all file names of a few pieces, all directories without table up to a depth, every truncation and replaced byte, every file-system call failing with each code",
  "The tests check no error at all; the property quantifies over kinds, names, damages and faults.",
  ["src/onenote/mod.rs", "src/errors.rs"],
  [("file kind check", "src/onenote/mod.rs (parse_section, parse_notebook)"), ("error kinds and messages", "src/errors.rs")],
  [], ["Parser::parse_section", "Parser::parse_section_buffer", "Parser::parse_notebook"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
