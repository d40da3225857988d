#!/usr/bin/env python3
"""Development helper: the property texts; writes properties.jsonl."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None)))


BUF = "Parser::parse_section_buffer and the getters of the returned Section"
FEW = ("The existing tests parse a handful of fixed sample notebooks exported by OneNote and compare snapshots; "
       "they fix one value per field and never vary ")

p("C01", "No input makes the parser panic, overflow or over-allocate",
  "Whatever bytes a section file or a table of contents holds, parsing it returns either its content or an error: it never panics, never "
  "overflows an integer or indexes out of range, and never reserves memory out of proportion to the file because of "
  "a count or length stored in it. This includes files that are well formed except for one damaged field anywhere.",
  ["inputs"], "every short file; every value of each damaged field of a well-formed store; every property value",
  FEW + "damaged or hostile bytes; a panic needs one specific value in one specific field.",
  ["src/reader.rs", "src/fsshttpb", "src/onestore", "src/one/property", "src/onenote"],
  [("bounds-checked reader", "src/reader.rs"), ("parse errors instead of unwrap", "src/errors.rs"),
   ("checked lengths", "src/fsshttpb/data/compact_u64.rs, src/shared/multi_byte.rs")],
  [BUF])

p("C02", "Parsing always terminates, also on cyclic or deeply nested content",
  "Parsing ends after a bounded amount of work and stack for every reference structure a file can describe: base "
  "revisions that refer to each other, outline elements, groups, tables, cells and notebook containers that contain "
  "themselves directly or through others, objects shared at every level, and property sets or objects nested arbitrarily "
  "deep. A cyclic file is rejected with an error; acyclic content of ordinary depth is accepted.",
  ["inputs"], "every reference graph over a small set of objects of each kind; nesting depths up to the bounds",
  FEW + "the reference graph; a cycle never occurs in a file OneNote wrote.",
  ["src/onestore/object_space.rs", "src/onenote/outline.rs", "src/onenote/table.rs", "src/onestore/types/property.rs"],
  [("visited base revisions", "src/onestore/object_space.rs"), ("nesting bound on objects", "src/onenote"),
   ("nesting bound on property sets", "src/onestore/types/property.rs")],
  [BUF])

p("C03", "A truncated file is rejected, never parsed as something shorter",
  "Cutting a well-formed section file short at any byte makes parsing return an error; a prefix is never accepted as a "
  "smaller document. The same holds within an object: a property value, array, string or identifier whose declared "
  "length runs past the data that holds it is an error, not a shorter value.",
  ["inputs", "crash_points"], "every cut position of the sample stores; every declared length of each value kind",
  FEW + "the point where a file ends.",
  ["src/reader.rs", "src/fsshttpb/packaging.rs", "src/fsshttpb/data_element", "src/onestore/types"],
  [("end-of-stream checks in the reader", "src/reader.rs"),
   ("required end markers of stream objects", "src/fsshttpb/data/stream_object.rs")],
  [BUF])

p("C04", "Equivalent encodings of the same store decode to the same section",
  "The file format lets the same identifiers, integers and containers be written in several ways: compact integers of "
  "every width, extended identifiers in the 5-, 10-, 17- and 32-bit forms, 16- and 32-bit stream object headers in "
  "object groups and data blobs, serial numbers present or absent, optional metadata and fragments. Whichever form a file uses, the decoded "
  "section is the same, and a value is decoded to exactly the number written.",
  ["inputs"], "each identifier/integer/header of a store in every encoding, with symbolic values",
  FEW + "which of the equivalent encodings is used; OneNote itself mostly writes one of them.",
  ["src/fsshttpb/data/compact_u64.rs", "src/fsshttpb/data/exguid.rs", "src/fsshttpb/data/stream_object.rs",
   "src/fsshttpb/data/serial_number.rs", "src/fsshttpb/data_element"],
  [("tag-bit dispatch of the compact forms", "src/fsshttpb/data/compact_u64.rs, src/fsshttpb/data/exguid.rs"),
   ("header width dispatch", "src/fsshttpb/data/stream_object.rs")],
  [BUF])

p("C05", "Files are recognised by their own identifiers; others are rejected",
  "A section is decoded only from a file whose format, packaging and schema identifiers say it is one - in the "
  "packaged form, the revision-store form with a revision header, or the legacy form - and all of these decode to the "
  "same section. A file with any other format or schema identifier, or a table-of-contents file given as a section, "
  "is rejected with an error.",
  ["inputs"], "every value of the format, version and schema identifiers; every layout of the revision header",
  FEW + "these identifiers; every sample uses one of two fixed sets.",
  ["src/fsshttpb/packaging.rs", "src/lib.rs", "src/onestore/mod.rs", "src/onestore/header.rs"],
  [("format dispatch", "src/fsshttpb/packaging.rs"), ("schema check", "src/lib.rs")],
  [BUF])

p("C06", "The newest revision of every object and root wins",
  "An object space may be stored as a chain of revisions, each listing only what changed. Every object and every root "
  "of the decoded space is the one from the newest revision that contains it, older revisions supply whatever newer "
  "ones do not repeat, and objects that exist only in revisions outside the chain are never used.",
  ["inputs", "histories"], "every combination of objects and roots present in each revision of chains up to the bound",
  FEW + "the revision history; samples were saved with at most one kind of history.",
  ["src/onestore/object_space.rs", "src/onestore/revision.rs", "src/onestore/mod.rs"],
  [("walk along base revisions", "src/onestore/object_space.rs"),
   ("first definition kept", "src/onestore/revision.rs")],
  [BUF])

p("C07", "Cells, revisions and page spaces resolve by identifier, not by position",
  "The cells, revision manifests, object groups, blobs and mappings of a store are found through the identifiers the "
  "storage index and manifests give, whatever order the data elements have in the file, and a missing one is an "
  "error rather than an empty or different page. Object spaces are separate: an object of one page is never "
  "used for another page even when both use the same object identifier, and every page cell yields its own page.",
  ["inputs"], "every order of the data elements of a store, each missing element, each resolution route",
  FEW + "the order or completeness of the data elements.",
  ["src/onestore/mod.rs", "src/onestore/object_space.rs", "src/fsshttpb/data_element"],
  [("index and manifest lookup", "src/fsshttpb/data_element/mod.rs"),
   ("per-space object maps", "src/onestore/object_space.rs")],
  [BUF])

p("C08", "References resolve to exactly the object they designate",
  "Properties that refer to objects, object spaces or contexts take their targets from shared per-object streams by "
  "position: each single reference, reference array and reference inside a nested property set gets exactly the "
  "targets at its own position, in order, whatever other reference properties come before it, known or unknown, "
  "and even when several targets share one compact identifier.",
  ["inputs"], "every order of the reference properties of an object, array lengths, nested sets and id aliasing",
  FEW + "the order and mix of reference properties within an object.",
  ["src/one/property/object_reference.rs", "src/one/property/object_space_reference.rs",
   "src/onestore/mapping_table.rs", "src/onestore/types/property.rs", "src/onestore/types/prop_set.rs"],
  [("offset counting", "src/one/property/object_reference.rs"), ("mapping table", "src/onestore/mapping_table.rs")],
  [BUF])

p("C09", "Unknown properties are skipped without disturbing the known ones",
  "An object may carry properties this library does not know, of any value type the format defines and in any "
  "position; every known property still decodes to its own value and the unknown ones have no effect. A property "
  "whose value type the format does not define makes the file an error.",
  ["inputs"], "an unknown property of every value type, with symbolic contents, before/between/after known ones",
  FEW + "unknown properties; newer OneNote versions add them.",
  ["src/onestore/types/property.rs", "src/onestore/types/prop_set.rs", "src/onestore/types/object_prop_set.rs"],
  [("value type dispatch", "src/onestore/types/property.rs")],
  [BUF])

p("C10", "Section, page, title and outline fields decode to exactly what is stored",
  "For sections, page series, pages, page metadata, titles, outlines, outline groups and outline elements, every "
  "public field has exactly the value stored for it, an absent optional property yields the documented default or "
  "None, and fields never take each other's values. Page size, level, layout offsets, indents and the title are included.",
  ["inputs"], "every numeric value of every field, and every property present, absent or mistyped",
  FEW + "more than one value of each field.",
  ["src/one/property_set/page_node.rs", "src/one/property_set/outline_node.rs", "src/onenote/page.rs",
   "src/onenote/outline.rs", "src/onenote/section.rs", "src/one/property/page_size.rs"],
  [("property to field mapping", "src/one/property_set"), ("public model", "src/onenote")],
  [BUF])

p("C11", "Rich text and paragraph style fields decode to exactly what is stored",
  "For rich text and paragraph styles every public field has exactly the stored value and absent ones yield None or "
  "the documented default; text run boundaries and run styles are kept in order and each run gets the style stored "
  "for it. Fonts, sizes, colours, spacing, alignment, language and boolean format flags are never confused with each other.",
  ["inputs"], "every numeric value of every field, and every property present, absent or mistyped",
  FEW + "more than one value of each field.",
  ["src/one/property_set/rich_text_node.rs", "src/one/property_set/paragraph_style_object.rs",
   "src/onenote/rich_text.rs"],
  [("property to field mapping", "src/one/property_set"), ("public model", "src/onenote/rich_text.rs")],
  [BUF])

p("C12", "Table, image, file and list fields decode to exactly what is stored",
  "For tables, rows, cells, images, embedded files, iframes and lists every public field has exactly the stored value "
  "and absent ones yield None or the documented default; column widths, locked columns, sizes, offsets, hyperlinks, "
  "alternative text, file names, list formats and fonts are never confused with each other.",
  ["inputs"], "every numeric value of every field, and every property present, absent or mistyped",
  FEW + "more than one value of each field.",
  ["src/one/property_set/table_node.rs", "src/one/property_set/image_node.rs",
   "src/one/property_set/embedded_file_node.rs", "src/one/property_set/number_list_node.rs", "src/onenote/table.rs",
   "src/onenote/image.rs", "src/onenote/embedded_file.rs", "src/onenote/list.rs"],
  [("property to field mapping", "src/one/property_set"), ("public model", "src/onenote")],
  [BUF])

p("C13", "Text decodes character by character without loss",
  "Text stored as UTF-16 is returned exactly up to its first NUL, surrogate pairs included, and UTF-16 that is malformed "
  "before that is an error; text stored in the 8-bit form is returned as the Latin-1 characters it encodes, one for each "
  "byte. The Unicode text is used when it is present, the 8-bit text otherwise.",
  ["inputs"], "every sequence of code units up to the bound, every sequence of 8-bit characters up to the bound",
  FEW + "malformed or unusual characters.",
  ["src/utils.rs", "src/one/property/simple.rs", "src/one/property_set/rich_text_node.rs", "src/onenote/rich_text.rs"],
  [("UTF-16 decoding", "src/utils.rs"), ("8-bit fallback", "src/one/property_set/rich_text_node.rs")],
  [BUF])

p("C14", "Enumerations, bit fields and colours decode by the published value tables",
  "Every stored code of colours, layout alignments, paragraph alignments, character sets, page sizes, list formats, "
  "media and file types is decoded to the value the format assigns to it, for all codes; codes the format does not "
  "define are rejected or mapped to the documented default, never to another defined value.",
  ["inputs"], "every value of each code",
  FEW + "all but a few codes.",
  ["src/one/property/color.rs", "src/one/property/color_ref.rs", "src/one/property/layout_alignment.rs",
   "src/one/property/charset.rs", "src/one/property/page_size.rs", "src/one/property/file_type.rs",
   "src/one/property/paragraph_alignment.rs"],
  [("value tables", "src/one/property")],
  [BUF])

p("C15", "Images and attached files are returned byte for byte",
  "The bytes of every image and attached file are exactly the stored bytes, whatever they are and however long; each "
  "image or file object gets the data of its own container, also when several are present or share one container. "
  "A picture container without data yields no bytes, a file container without data and references to missing data "
  "are errors; the data of another container or of an older revision is never returned.",
  ["inputs"], "every content up to the size bound; every assignment of containers to objects",
  FEW + "the attached bytes and never have crossed containers.",
  ["src/onenote/image.rs", "src/onenote/embedded_file.rs", "src/one/property_set/picture_container.rs",
   "src/one/property_set/embedded_file_container.rs", "src/fsshttpb/data_element/object_data_blob.rs"],
  [("file data reference", "src/onestore/object.rs")],
  [BUF])

p("C16", "Ink strokes decode to exactly the stored points, dimensions and style",
  "The stroke paths, dimensions, scaling, bounding boxes, pen size, colour and transparency of drawings and of "
  "handwriting embedded in text are exactly the stored ones: every multi-byte packed coordinate decodes to the number "
  "written, in order, and strokes stay in order. Truncated or oversized packed numbers and strokes without an x or a y dimension are errors.",
  ["inputs"], "every packed integer of every width; every number of points and strokes up to the bound; every value",
  FEW + "the ink data.",
  ["src/shared/multi_byte.rs", "src/onenote/ink.rs", "src/one/property_set/ink_stroke_node.rs",
   "src/one/property_set/ink_data_node.rs", "src/one/property/ink_dimensions.rs"],
  [("multi-byte decoder", "src/shared/multi_byte.rs"), ("path decoding", "src/onenote/ink.rs")],
  [BUF])

p("C17", "Missing mandatory properties and wrong types are errors, never defaults",
  "When an object lacks a property its kind requires, has a property stored with another value type, refers to an "
  "object that does not exist or to an object of the wrong kind, parsing returns an error; it never substitutes a "
  "default value or another object. An object group whose declarations and data differ in number is an error. Content of a kind that cannot be shown there is reported as Unknown; a reference "
  "array entry whose compact identifier maps to no object at all is skipped.",
  ["inputs"], "every mandatory property of every object kind missing or mistyped; every reference to a wrong kind",
  FEW + "malformed objects.",
  ["src/one/property_set", "src/one/property/simple.rs", "src/onenote"],
  [("required property lookup", "src/one/property_set"), ("kind check of objects", "src/one/property_set/mod.rs")],
  [BUF])

p("C18", "Document order is preserved at every level",
  "Page series, pages, page contents, outline items, element contents, table rows, cells, list entries, text runs, "
  "paragraph styles, note tags, strokes and column widths appear in the decoded section in exactly the order in which the file lists "
  "them: none lost, duplicated or moved, for any number of them and any order of the objects in the file.",
  ["inputs"], "every permutation and number up to the bound of the children of each container",
  FEW + "the order; a reversed or sorted list can look right on a sample with one element.",
  ["src/onenote", "src/one/property/object_reference.rs", "src/onestore/object_space.rs"],
  [("reference arrays", "src/one/property/object_reference.rs"), ("collecting in order", "src/onenote")],
  [BUF])

p("C19", "Notebook entries follow the table of contents: order, names, duplicates",
  "The entries of a notebook and of every section group are those its table of contents names and that exist, sorted "
  "by their ordering number (entries with equal numbers in file order), adjacent repetitions of a name counted once, with "
  "^M and ^J in names restored to + and comma, files read as sections and directories as section groups. The recycle bin "
  "and names without a file are skipped; names unsuitable for a file and entries that cannot be decoded are errors.",
  ["inputs", "configurations"], "every ordering number, every combination of existing files, links and directories up to the bound",
  FEW + "the notebook layout; one sample notebook exists.",
  ["src/lib.rs", "src/onenote/notebook.rs", "src/one/property_set/toc_container.rs"],
  [("entry collection and sorting", "src/onenote/notebook.rs"), ("entry parsing", "src/lib.rs")],
  ["Parser::parse_notebook and the getters of the returned Notebook"])

p("C20", "Parsing a notebook never reads outside the notebook's directory",
  "Whatever names a table of contents holds - absolute paths, parent references, drive or separator characters - and "
  "whatever symbolic links the directory contains, parsing a notebook opens no file outside the directory of the "
  "table of contents; an entry that would lead outside is an error. This holds at every section group level.",
  ["inputs", "configurations"], "every entry name up to the length bound; every placement of symbolic links",
  FEW + "hostile entry names beyond a few fixed examples.",
  ["src/onenote/mod.rs"],
  [("entry path resolution", "src/onenote/mod.rs"), ("name checks", "src/onenote/mod.rs")],
  ["files opened by Parser::parse_notebook", "Parser::parse_notebook"])

p("C21", "Display names, title text and colours are derived as documented",
  "A section's display name is its stored name, or its file name when none is stored, without trailing .one extensions; "
  "a section group's is its directory name; a page's title text comes from its title's first text. Section and "
  "notebook colours are exactly those stored, including their alpha, and absent ones are None.",
  ["inputs"], "every stored name and file name up to the bound; every colour value",
  FEW + "names; the samples all have ordinary ones.",
  ["src/onenote/section.rs", "src/onenote/notebook.rs", "src/onenote/page.rs", "src/one/property/color.rs"],
  [("name derivation", "src/onenote/section.rs"), ("title text", "src/onenote/page.rs")],
  [BUF, "Parser::parse_notebook and the getters of the returned Notebook"])

p("C22", "The same file always decodes to the same result",
  "Parsing is deterministic: for a given file the returned section (or the fact that it is rejected) does not depend "
  "on hash seeds, on the process or on earlier parses, also for files in which several index entries, manifests, "
  "cells or mappings compete for the same identifier.",
  ["inputs", "histories"], "every iteration order of the hash tables over stores with competing entries",
  FEW + "the hash seed, which differs in every process; competing entries never occur in the samples.",
  ["src/fsshttpb/data_element/mod.rs", "src/onestore/mod.rs", "src/onestore/mapping_table.rs"],
  [("file-order resolution", "src/fsshttpb/data_element/mod.rs")],
  [BUF])

p("C23", "Math runs, embedded objects and note tags stay with their own content",
  "Each text run's math object, embedded ink or line break data is the one stored for that run, counted over all runs "
  "before it; each note tag keeps its own state, timestamps and definition (label, shape, colours, type), with all "
  "status and shape codes decoded by the published tables, and exactly the icons the format calls checkable reported as such.",
  ["inputs"], "every pattern of run kinds up to the bound, every status bit pattern, every shape and type code",
  FEW + "runs with several embedded objects or tags with several definitions.",
  ["src/onenote/rich_text.rs", "src/onenote/math_inline_object.rs", "src/onenote/note_tag.rs",
   "src/one/property/note_tag.rs", "src/one/property/note_tag_shape.rs",
   "src/one/property/note_tag_property_status.rs", "src/one/property_set/text_run_data.rs"],
  [("run data alignment", "src/onenote/rich_text.rs"), ("note tag decoding", "src/onenote/note_tag.rs")],
  [BUF])

p("C24", "Files are read completely, and every way of opening them agrees",
  "A section gives the same result whether it is parsed from a buffer, from a file, as an entry of a notebook or as an "
  "entry of a section group. However the operating system delivers a file - in short reads, with interrupted calls - "
  "the whole of it is parsed; a read that fails, and a file or directory of the notebook that cannot be opened, is an "
  "error and never a shorter section or a notebook without that entry.",
  ["inputs", "fault_sequences"], "every document within the bound, every read size and failing call of a list",
  FEW + "files that arrive in one piece; no test makes a system call fail.",
  ["src/onenote/mod.rs"],
  [("reading a file", "src/onenote/mod.rs"), ("notebook entries", "src/onenote/mod.rs")],
  ["Parser::parse_section_buffer, parse_section and parse_notebook"])

p("C25", "Errors are reported as the kind they are documented to be",
  "Parsing a file with another schema as a section reports 'Not a section file', as a notebook 'Not a table of contents "
  "file', each with the file's path; a section group without a table of contents reports 'Table of contents file is "
  "missing' with its directory; a file that cannot be opened reports 'I/O failure', an entry name that is unsuitable or "
  "leads outside 'Invalid path', malformed text malformed data, and a file that ends too early 'Unexpected end of file'.",
  ["inputs"], "every schema identifier, every cut of a file, the listed names",
  FEW + "error texts of two inputs.",
  ["src/errors.rs", "src/onenote/mod.rs", "src/reader.rs"],
  [("error kinds", "src/errors.rs"), ("schema checks", "src/onenote/mod.rs")],
  ["Parser::parse_section_buffer, parse_section and parse_notebook; the Display output of the error"])

if __name__ == "__main__":
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
