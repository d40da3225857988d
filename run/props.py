"""Which harness entries decide which property, and the bounds they explore."""

OK = ["ok", "rejected"]


def J(entry, args=(0,), covers=("ok",), targs=None, **kw):
    j = dict(entry=entry, args=list(args), covers=list(covers))
    if targs is not None:
        j["targs"] = list(targs)
    j.update(kw)
    return j


PRESENCE = ("per element: all properties present, in every rotation and reversed; only the mandatory ones, alone and "
            "with any one or two others; any one or two missing; each one stored with every other wire type. All numeric/boolean/float/byte values symbolic over their full range; "
            "strings of three characters, two of them symbolic")

PAGEF = [J("w_page", covers=OK), J("w_pagemeta", covers=OK), J("w_title", covers=OK), J("w_section", covers=OK),
         J("w_sectionnode", covers=OK), J("w_series", covers=OK), J("w_outline", covers=OK),
         J("w_group", covers=OK), J("w_element", covers=OK)]
TEXTF = [J("w_style", [0, 1], covers=OK), J("w_text", covers=OK)]
OBJF = [J("w_table", covers=OK), J("w_cell", covers=OK), J("w_row", covers=OK), J("w_image", [0, 1], covers=OK),
        J("w_iframe", covers=OK), J("w_file", [0, 1], covers=OK), J("w_list", covers=OK)]
TAGF = [J("w_tags", [0, 1, 2, 3]), J("w_tagset", [0, 1, 2, 3], covers=OK), J("w_tagdef", covers=OK)]
MATHF = [J("w_math", covers=OK)]
INKF = [J("w_ink", [0, 1], covers=OK), J("w_stroke", covers=OK), J("w_strokeprops", covers=OK),
        J("w_inkdata", [16, 0, 4, 20, 32], covers=OK)]

PROPS = {
    "C02": dict(
        jobs=[J("d_nest", [10, 30, 1000, 100010, 100030, 101000, 200010, 200030, 200300, 300010, 300030, 301000, 400030, 401000],
                covers=["done"], max_steps=200000000),
              J("d_graph", [0, 111, 12, 33, 222], targs=[100 * i + 10 * j + k for i in range(4) for j in range(4) for k in range(4) if i <= 1 or j <= 1],
                covers=OK, keep=3, time=200),
              J("d_dag", [4, 14, 40, 120, 140, 204, 220, 340], targs=[k * 100 + n for k in range(4) for n in (4, 10, 20, 40, 80, 99)],
                covers=["done"], max_steps=400000000, time=300),
              J("b_cycle", covers=OK, keep=3), J("b_dag", [4, 40, 90], covers=["done"], max_steps=400000000),
              J("r_deepchain", [120, 60])],
        bounds="every graph of three containers (elements, groups, elements with a table, elements with a table and children: five "
               "mixes, thorough 48) with up to two children each, and of three containers of a table of contents; containers that "
               "each list the next one twice, 14 to 120 levels; base revisions of up to three revisions in every way; nesting of "
               "30 levels (accepted) to 1000 levels of elements, groups, tables and property sets; every path of every other "
               "property's check is bounded as well (20 million LLVM instructions, 2000 calls)",
        outside="larger graphs; deeper nesting; content repeated polynomially often through long reference lists"),
    "C10": dict(
        jobs=PAGEF + [J("e_pagesize", covers=OK), J("e_align", [2, 3, 4, 5], covers=OK)],
        bounds=PRESENCE + "; one page, one outline, at most two children per list",
        outside="other combinations of absent properties; longer lists (see C18)"),
    "C11": dict(
        jobs=TEXTF + [J("e_para", [0, 1]), J("e_charset", covers=OK), J("e_align", [6, 7], covers=OK),
                      J("e_colref", [0, 1], covers=OK)],
        bounds=PRESENCE + "; one text object",
        outside="other combinations of absent properties"),
    "C12": dict(
        jobs=OBJF + [J("e_list", [0, 1, 2, 5, 6, 8]), J("e_media", covers=OK), J("e_align", [0, 1, 8, 9], covers=OK),
                     J("e_colref", [2], covers=OK)],
        bounds=PRESENCE + "; one object of each kind",
        outside="other combinations of absent properties"),
    "C13": dict(
        jobs=[J("t_utf16", [8, 7, 6, 5, 4, 3, 2, 1, 0]), J("t_latin1", [0, 1, 2, 3, 4]),
              J("t_other", list(range(12)), covers=())],
        bounds="text", outside=""),
    "C14": dict(
        jobs=[J("e_align", list(range(10)), covers=OK), J("e_colref", [0, 1, 2], covers=OK), J("e_charset", covers=OK),
              J("e_media", covers=OK), J("e_para", [0, 1]), J("e_pagesize", covers=OK),
              J("e_list", [0, 1, 2, 5, 6, 8]), J("e_shape", covers=()), J("e_action", covers=())],
        bounds="every value of each code", outside=""),
    "C16": dict(
        jobs=INKF + [J("w_inkdims", [3, 2, 1, 0], covers=()), J("w_inkpath", [3, 2, 1, 0], covers=()),
                     J("w_inklong", [11, 10, 9, 5, 2, 1], covers=()), J("w_inkruns", [3, 2, 1]),
                     J("w_inkrun", [2, 3], covers=OK), J("e_embtype", covers=()), J("w_bbscale")],
        bounds="ink", outside=""),
    "C21": dict(jobs=[J("w_section", covers=OK), J("x_title", [0, 1])], bounds="names", outside=""),
    "C23": dict(
        jobs=TAGF + MATHF + [J("e_shape", covers=()), J("e_action", covers=()), J("e_math", [0, 1, 2, 3], covers=()),
                             J("w_mathruns", [3, 2, 1], covers=()), J("w_inkruns", [3, 2, 1])],
        bounds="tags, math", outside=""),
}
PROPS["C02"]["jobs"] += [J("r_cyclic", [1], covers=["rejected"]), J("r_cyclic", [3, 2], covers=OK)]
PROPS["C06"] = dict(
    jobs=[J("r_subset", [73, 43, 23, 13, 3]), J("r_chain", [13, 3, 2, 1], covers=OK), J("r_roots", [3]), J("r_replace"),
          J("r_deepchain", [120, 60, 5])],
    bounds="every subset of three objects and their page in each revision of a chain of up to three, in one or two groups per "
           "revision and five layouts of the data elements; every subset of the roots; every base revision (including none, "
           "unknown ones and cycles) of up to three revisions; chains of up to 120 revisions",
    outside="other object graphs; subsets over longer chains")
PROPS["C07"] = dict(
    jobs=[J("r_order"), J("r_missing", covers=["rejected"]), J("r_unmapped", covers=["rejected"]),
          J("r_resolve", [0, 1, 2]), J("r_badserial", [0, 1, 2], covers=["rejected"]), J("r_unused"),
          J("r_spaces", [3, 2]), J("r_pages", [3, 2]), J("r_index"), J("r_groups"), J("r_header", covers=OK),
          J("r_roles", covers=OK), J("r_near", range(12)), J("r_nearonly", range(14), covers=["rejected"]),
          J("r_routes", [0, 1, 2])],
    bounds="spaces", outside="")
PROPS["C17"] = dict(
    jobs=PAGEF + TEXTF + OBJF + TAGF + MATHF + INKF + [J("w_inkrun", [2, 3], covers=OK)],
    bounds=PRESENCE, outside="combinations of several faults")
PROPS["C04"] = dict(
    jobs=[J("q_forms"), J("q_optional", covers=OK), J("q_freq", [1, 2, 3, 4, 5, 6, 7, 9], covers=OK), J("q_freq", [0])] +
         [J("q_value", [p * 10 + k for p in range(8) for k in (1, 2, 3, 4, 5, 6, 7, 9)], covers=["ok", "other"]),
          J("q_long", list(range(11))), J("q_exguid", [f * 10 + u for f in range(4) for u in range(4)]),
          J("q_parts", list(range(9))), J("q_fragment", [3, 0]), J("q_excluded", covers=["rejected"])],
    bounds="one rich document (two pages, image with data, nested references; two symbolic 32-bit fields and three symbolic "
           "data bytes): all combinations of 9 compact-integer widths x 4 identifier forms x 2 nil forms x 16/32-bit "
           "headers; one symbolic 64-bit compact integer of each width in eight places; one symbolic GUID and number in "
           "every pair of forms at the place of definition and of use; frequencies of any 64-bit value; serial numbers of "
           "any value; fragments of 0 and 3 symbolic bytes between any two data elements; blob lengths 1..70000 at the "
           "borders of each width",
    outside="widths mixed independently per occurrence (except in q_value, q_exguid and q_parts); longer blobs; other documents")
PROPS["C05"] = dict(
    jobs=[J("s_log"), J("s_badlog", [0, 1, 2], covers=["rejected"]), J("s_versions", [0, 1, 2, 3], covers=OK),
          J("s_layouts"), J("s_format", covers=OK), J("s_schema", [0, 1], covers=OK), J("s_schema", [2]),
          J("s_toc", covers=["rejected"]), J("s_padding", covers=OK)],
    bounds="every 128-bit file format, legacy-format and file type identifier; every 128-bit schema identifier in the storage "
           "manifest, the packaging and both; every 32-bit version in each version field; every transaction log position "
           "that ends at the package, 13 that end elsewhere in the file with any length, and any that end beyond it; all other "
           "header bytes symbolic; one document",
    outside="transaction logs that end at other wrong places inside the file; documents other than the rich one")
PROPS["C08"] = dict(
    jobs=[J("f_order", list(range(10))), J("f_text", list(range(10))), J("f_space", list(range(10))),
          J("f_cids", [3, 2]), J("f_count", [0, 1], covers=OK), J("f_shift", [0, 1, 2], covers=OK), J("f_unmapped", [0, 1])],
    bounds="every order of up to four reference properties of one object (single, array, nested set; known ones and unknown "
           "ones of ten kinds); compact identifiers shared or distinct in every pattern over three targets; declared counts "
           "symbolic",
    outside="more than four reference properties per object; sets nested deeper than two")


def seqs(lists, n=(4,), long=True):
    """Order checks of the given child lists with n entries each, and with 300 (255) entries."""
    js = [J("o_seq", [w * 10 + k for w in lists for k in n], targs=[w * 10 + k for w in lists for k in range(6)],
            covers=())]
    if long:
        a = [w * 100000 + (255 if w == 18 else 300) for w in lists]
        js.append(J("o_long", a, covers=(), max_steps=1000000000, time=300))
    return js


PROPS["C18"] = dict(
    jobs=seqs(range(21), (4, 3, 2, 1, 0)) + [J("r_pages", [3, 2])],
    bounds="21 kinds of child lists with 0 to 4 (thorough: 5) entries, each entry any of three objects (so every order, "
           "repetition and mix of kinds) and every symbolic attribute; lists of 300 entries (column widths: 255)",
    outside="longer lists with symbolic entries")
for _p, _l in (("C10", (0, 1, 2, 4, 17, 19, 20)), ("C11", (9,)), ("C12", (6, 7, 8, 11, 12, 13, 15, 18)), ("C16", (14,)),
               ("C23", (10, 11, 12, 13))):
    PROPS[_p]["jobs"] = PROPS[_p]["jobs"] + seqs(_l, (4, 2), False)

# every byte / word of three whole files: a document with an object of every kind, the same in the widest encodings, a
# store with a chain of revisions
BYTES = [s * 1000 + p for s in (0, 1, 2) for p in range(16)]


def words(w, s, parts=64):
    return [w * 100000 + s * 1000 + p for p in range(parts)]


PROPS["C01"] = dict(
    jobs=[J("t_raw", [100, 80, 60, 20], targs=[116, 108, 100, 80, 60, 40, 20], covers=["done"], time=150),
          J("m_any", [1615], targs=[2415, 2015, 1615, 2018, 2418], covers=["done"], time=200),
          J("m_byte", BYTES, covers=["done"], keep=4, time=200),
          J("m_word", words(2, 2), targs=words(2, 0) + words(2, 1) + words(8, 2) + words(4, 2) + words(2, 2),
            covers=["done"], keep=2, time=200),
          J("m_obj", [w * 100 + k for w in (2, 1) for k in range(32)],
            targs=[w * 100 + k for w in (8, 4, 2, 1) for k in range(32)], covers=["done"], keep=2, time=300),
          J("m_any", [n * 100 + k for n in (16,) for k in range(32) if k != 15],
            targs=[n * 100 + k for n in (16, 20, 24) for k in range(32) if k != 15], covers=["done"], keep=2, time=300),
          J("m_elem", [k * 1000 + n for k in (1, 2, 3, 4, 5, 6) for n in (8, 4)],
            targs=[k * 1000 + n for k in (1, 2, 3, 4, 5, 6, 10) for n in (14, 12, 10, 8, 4)], covers=["done"], time=300)],
    bounds="any file of 20, 60, 80 or 100 bytes; every value of every single byte of three whole files (4 KB with an object of "
           "every kind, the same with the widest encodings, a 1.5 KB store with a revision chain); every value of every "
           "2-byte word of the third; every value of every byte and 2-byte word of the property data of every object; property "
           "data of 16 arbitrary bytes for every object; an extra data element of every kind of 4 or 8 arbitrary bytes; "
           "no single allocation above 1 MiB",
    outside="several damaged fields at once other than adjacent ones; longer arbitrary files")
PROPS["C03"] = dict(
    jobs=[J("m_cut", BYTES, covers=["rejected"], keep=3), J("m_cutobj", range(8), covers=["rejected"], keep=3),
          J("f_count", [0, 1], covers=OK), J("f_shift", [0, 1, 2], covers=OK)],
    bounds="three whole files cut at every byte; the property data of every object cut at every byte, with symbolic field values; "
           "every declared number of references that exceeds the stored ones",
    outside="other files")
_u = [l.split(":")[1] for l in open(__file__.replace("props.py", "skip.txt"))]
PROPS["C09"] = dict(
    jobs=[J("u_skip", [int(a) for a in _u if int(a) // 100 % 100 != 19], covers=["ok"], keep=2),
          J("u_skip", [int(a) for a in _u if int(a) // 100 % 100 == 19], covers=["rejected"], keep=2)],
    bounds="a property unknown to the library, with any of the 19 value types the format defines or one it does not, with symbolic "
           "value, in every position among the properties of every kind of object; objects with all properties or only the "
           "mandatory ones",
    outside="two unknown properties at once; unknown objects-space and context references in the three objects that have none")
PROPS["C17"]["jobs"] = PROPS["C17"]["jobs"] + [J("k_to", range(8), covers=()), J("k_kind", range(8), covers=()),
                                               J("k_gone", range(8), covers=["rejected"])]
PROPS["C17"]["bounds"] += ("; in a document with an object of every kind: every reference redirected to every other object, to "
                           "none and to an unknown one; every object given any other 32-bit kind; every object removed")
PROPS["C07"]["jobs"] = PROPS["C07"]["jobs"] + [J("k_full")]
PROPS["C19"] = dict(
    jobs=[J("b_order", [3, 13, 2, 12, 1, 11], targs=[4, 14, 3, 13, 2, 12, 1, 11]), J("b_tree"), J("b_escape"),
          J("b_bad", [k for k in range(11) if k != 6], covers=["rejected"]), J("b_bad", [6], covers=OK), J("b_grouptoc", covers=OK),
          J("b_file")],
    bounds="every choice of up to three entries (thorough: four) out of two sections, two groups, a name without a file and the "
           "recycle bin, with any 32-bit ordering numbers, in a notebook and in a section group; every tree of up to five "
           "containers; every sequence of three tokens of escapes and the characters they are made of; 11 kinds of entries "
           "that cannot be decoded",
    outside="more entries; deeper section groups")
PROPS["C20"] = dict(
    jobs=[J("b_ascii", [k * 10 + 4 for k in range(9)], targs=[k * 10 + 5 for k in range(9)] + [k * 10 + 4 for k in range(9)],
            covers=["rejected"]),
          J("b_name", [k * 10 + 1 for k in range(9)], targs=[k * 10 + 2 for k in range(9)] + [k * 10 + 1 for k in range(9)],
            covers=["rejected"], time=600),
          J("b_absolute", range(4), covers=["rejected"]), J("b_link", [0, 1], covers=OK), J("b_grouptoc", covers=OK)],
    bounds="names of four ASCII characters (thorough: five) or one UTF-16 unit (thorough: two) of any value, alone and in eight "
           "contexts that make up paths; absolute names; a symbolic link of 16 kinds as the entry or as a directory it goes "
           "through, in a notebook and in a section group; a group's directory or table of contents being a link (six kinds); "
           "every file and directory opened is compared with the notebook's directory",
    outside="directories changed during parsing; other operating systems' paths")
PROPS["C21"]["jobs"] = PROPS["C21"]["jobs"] + [J("b_file"), J("b_color"), J("x_name", [0, 1], targs=[0, 1, 10, 11])]
PROPS["C22"] = dict(
    jobs=[J("h_det", range(12), targs=[100 + k for k in range(12)], tries=3),
          J("h_det", range(12, 19), targs=[112 + k for k in range(7)], covers=["rejected"], tries=3)],
    bounds="64 (thorough: 250) keys of the real hash function (SipHash) against a constant one, half of them after parsing a different file with "
           "the same identifiers in the same parser: a document with an object of every kind and stores with up to four "
           "competing storage indexes and manifests, revision mappings of one serial number, data elements, roots, objects, cells "
           "and properties of the same identifier, targets of one compact identifier, missing groups, and six kinds of missing entries "
           "with several others that could be taken for them; contents symbolic",
    outside="hash keys other than these; other stores")
_two = [200 + 10 * k + f for k, f in ((0, 0), (1, 3), (2, 0), (3, 3), (4, 0), (5, 3))]
_mixed = [100 + 10 * k + f for k, f in ((0, 1), (1, 2), (2, 1), (3, 2), (4, 1), (5, 2))]
PROPS["C15"] = dict(
    jobs=[J("p_bytes", [0, 1, 7, 64, 300], targs=[0, 1, 7, 64, 300, 5000]), J("q_long", list(range(11))),
          J("p_assign", [a for a in _two if a % 10 == 0] + [x for x in _mixed if x % 10 == 1], targs=[300, 333, 310, 320] + _two),
          J("p_assign", [a for a in _two if a % 10 == 3] + [x for x in _mixed if x % 10 == 2],
            targs=[303, 313, 333, 201, 202, 211, 222] + _mixed, covers=OK),
          J("p_missing", range(4), covers=["rejected"]), J("p_pages"), J("p_revised"), J("p_places")],
    bounds="data of 0 to 300 (thorough: 5000) arbitrary bytes and of 1 to 70000 bytes with three arbitrary ones, in images, XPS "
           "containers and files; three images and files with every assignment to two (thorough: three) containers of each "
           "kind or none and of those to three blobs or none, with the partitions of the containers in six orders; the same "
           "identifiers in two pages; revised containers; missing data",
    outside="longer data; more objects")
PROPS["C04"]["jobs"] = PROPS["C04"]["jobs"] + [J("k_forms", time=200)]
PROPS["C04"]["bounds"] += "; the same combinations for a document with an object of every kind"
PROPS["C06"]["jobs"] = PROPS["C06"]["jobs"] + [J("k_rev", range(8))]
PROPS["C06"]["bounds"] += "; each single object of a document with an object of every kind revised in four ways"
PROPS["C07"]["jobs"] = PROPS["C07"]["jobs"] + [J("k_groups", range(8))]
PROPS["C07"]["bounds"] = (
    "a store with one page and its image data: any one data element moved anywhere, any one missing, any one mapping, root or "
    "group reference missing; every identifier of twelve kinds that shares a part with the right one, beside it or instead of it; "
    "five ways of resolving a cell to its revision, in each of three cells, with every serial number, also of another revision; unused elements; two and three pages with shared object identifiers and any page objects missing in any of "
    "them; competing storage indexes; objects in any of three groups; a document with an object of every kind split over "
    "two groups, with its elements reversed")
PROPS["C07"]["outside"] = "more pages; several missing elements at once"
PROPS["C13"]["bounds"] = ("text of 0 to 8 arbitrary bytes as UTF-16 (so four units, surrogates in every position, NULs, odd "
                          "lengths), up to four arbitrary 8-bit characters; two arbitrary units in each of 12 other string "
                          "properties")
PROPS["C13"]["outside"] = "longer texts with arbitrary characters; other code pages"
PROPS["C14"]["bounds"] = ("every 32-, 16- or 8-bit value of each code: colours, alignments in ten places, character sets, page "
                          "sizes, paragraph alignments, media types, list formats of up to eight characters, note tag shapes "
                          "and types")
PROPS["C14"]["outside"] = "longer list formats"
PROPS["C16"]["bounds"] = ("all values of every numeric field; paths of up to three points of packed integers of every width "
                          "(1 to 11 bytes, truncated or not); up to three dimensions in any order; up to three embedded ink "
                          "runs; raw path data of 0 to 32 arbitrary bytes where lengths matter; lists of up to 300 strokes")
PROPS["C16"]["outside"] = "longer paths with arbitrary contents"
PROPS["C21"]["bounds"] = ("stored names and file names from a grammar of dots, extensions and letters; three arbitrary "
                          "characters in names; every 32-bit colour; titles with text in the first or a later position")
PROPS["C21"]["outside"] = "other names"
PROPS["C23"]["bounds"] = (PRESENCE + "; every pattern of up to three runs, each with or without math or embedded ink; every "
                          "32-bit status, shape and type code; note tags with up to three definitions")
PROPS["C23"]["outside"] = "more runs or tags with arbitrary contents (lists of 300 tags are covered)"
BIG2 = dict(max_steps=2000000000, time=300)
PROPS["C24"] = dict(
    jobs=[J("o_same", [0, 9, 20, 70, 1100, 5000], **BIG2), J("o_names"),
          J("o_reads", [0, 9, 20, 70], targs=[0, 1, 2, 5, 8, 9, 16, 20, 70, 300, 1100], covers=OK, **BIG2), J("o_opens", covers=OK)],
    bounds="a document with an object of every kind and arbitrary values, alone and with attachments of 9 to 5000 KB; "
           "sections without stored name under twelve file names; reads of at most 1, 7, 512, 4096 or any number of bytes; one of five reads interrupted or failing; files reported with no, another or their own size; "
           "one of the six openings of a notebook with a section group failing with one of four errors",
    outside="several failing calls; other system calls than read and open failing")
PROPS["C25"] = dict(
    jobs=[J("o_kinds", range(15), covers=["rejected"])],
    bounds="every 128-bit schema identifier; every cut of a file with a page and an image; eight names, every unpaired surrogate",
    outside="other causes of errors")

# counts and lengths around the borders of one and two bytes
BIG = dict(max_steps=1000000000, time=300)


def more(p, bounds, *jobs):
    PROPS[p]["jobs"] = PROPS[p]["jobs"] + list(jobs)
    PROPS[p]["bounds"] += "; " + bounds


more("C02", "a chain of 5 to 40 (thorough: 300) containers or base revisions whose last one leads back to any earlier one",
     J("d_ring", [3040, 40, 5, 1005, 2005, 3005, 4007], targs=[300, 2130, 3040, 1100, 40, 5, 1005, 2005, 3005, 4007], covers=["rejected"], time=400),
     J("d_revring", [40, 5], targs=[200, 40, 5], covers=["rejected"], time=400),
     J("b_ring", [40, 5], targs=[300, 40, 5], covers=["rejected"], time=400))
more("C07", "300 more object groups and cells, 70000 more objects and data elements (thorough: 70000 of each)",
     J("l_store", [270000, 170000, 300, 300300], targs=[70000, 370000, 270000, 170000, 255, 256, 257, 300, 5000, 200300, 300300],
       max_steps=8000000000, time=500))
more("C08", "300 and 70000 unknown references in one array, in two, or in as many property sets, before the known ones",
     J("l_refs", [a + k for k in (0, 10, 20) for a in (3, 7)], targs=[a + k for k in (0, 10, 20) for a in range(8)], **BIG),
     J("l_spaces", [3, 7], targs=range(8), **BIG))
more("C09", "300 unknown properties at once; one of 70000 bytes",
     J("l_props", [3, 13, 17], targs=[0, 1, 2, 3] + list(range(10, 18)), **BIG))
more("C11", "300 and 70000 text run indices", J("l_runs", [300, 70000], **BIG))
more("C13", "texts of 300, 65536 and 70000 characters (thorough: eight lengths) with three arbitrary ones",
     J("l_text", [k + a for k in (0, 10) for a in (3, 5, 7)], targs=[k + a for k in (0, 10) for a in range(8)], **BIG))
more("C16", "paths of 300 and 70000 numbers with two arbitrary ones", J("l_path", [300, 70000], **BIG))
more("C19", "every two of fifteen names that are easily taken for one another, with either file missing", J("b_similar"))
more("C19", "tables of contents of 30 to 300 entries, one in eight with a file, by six patterns of different and equal ordering numbers", J("l_toc", [300, 60, 30], **BIG))
more("C21", "names of 300 and 70000 characters (thorough: eight lengths) with three arbitrary ones",
     J("l_name", [3, 13, 7, 17], targs=[k + a for k in (0, 10) for a in range(8)], **BIG))

more("C06", "two and three pages with revisions of their own on one (thorough: two) they all share",
     J("r_shared", [12, 13], targs=[12, 22, 13], time=300))
more("C21", "titles and first texts of three arbitrary characters in either form", J("x_titletext", [0, 1], covers=OK), J("x_titletext", [2, 3]))
more("C19", "pairs of eight names near the recycle bin's, as files and as directories, in notebooks at four places and their groups", J("b_bin"))
more("C15", "partitions of data that list other objects, cells and blobs as references", J("p_listed"))
more("C17", "in the document of every kind: the kind, the properties or both of any object undeclared or without data",
     J("k_undeclared", range(8), covers=["rejected"]))
more("C18", "lists of 65600 style or stroke entries (thorough: five kinds of lists)",
     J("o_long", [965600, 1465600], targs=[65600, 365600, 965600, 1065600, 1465600], covers=(), max_steps=20000000000, time=300))
more("C23", "up to three runs that each are plain, line break, space or ink, each with or without maths, the last ones perhaps without data",
     J("w_mixruns", [3, 2, 1]))
PROPS["C01"]["jobs"] = [
    J("m_vec", range(32), covers=["done"], keep=2, time=200), J("m_field", range(32), covers=["done"], keep=2, time=200),
    J("m_pair", range(32), covers=["done"], keep=2, time=300),
    J("m_toc", range(16), covers=["done"], keep=2), J("t_utf16", [5, 4]), J("t_latin1", [3]), J("w_inkpath", [3], covers=()),
    J("e_list", [5, 4, 3]), J("b_name", [k * 10 + 1 for k in range(9)], covers=["rejected"], time=200),
] + PROPS["C01"]["jobs"]
PROPS["C01"]["bounds"] += ("; any number, count or length in the property data of any object and any two of them; any vector or "
                           "string there with 0 to 33 bytes, of which six are arbitrary; every value of every byte of a table of contents; "
                           "an entry name with one arbitrary UTF-16 unit in nine contexts")
PROPS["C03"]["jobs"] = PROPS["C03"]["jobs"] + [J("m_cuttoc", range(16), covers=["rejected"], keep=2)]
PROPS["C03"]["bounds"] += "; a table of contents cut at every byte"

# Jobs of one property that also bear on another one. `kinds`: only verdicts of these kinds count there.
CRASH = ("panic", "alloc", "memory", "stack")
LOOP = ("hang", "stack")
BORROWED = {}


def share(p, src, entries, kinds=None, args=None):
    have = {(j["entry"], a) for j in PROPS[p]["jobs"] for a in j["args"]}
    for e in entries.split():
        js = [j for j in PROPS[src]["jobs"] if j["entry"] == e]
        assert js, (p, src, e)
        for j in js:
            q = {k: v for k, v in j.items() if k != "targs"}
            q["args"] = [a for a in j["args"] if (e, a) not in have and (args is None or a in args)]
            if kinds:
                q["only"] = kinds
                q["covers"] = []
            if q["args"]:
                BORROWED.setdefault((p, src, kinds), []).append(e)
                PROPS[p]["jobs"] = PROPS[p]["jobs"] + [q]
                have |= {(e, a) for a in q["args"]}


share("C03", "C16", "w_inkpath w_inklong")
share("C04", "C05", "s_layouts s_log")
share("C04", "C15", "p_bytes")
share("C05", "C25", "o_kinds")
share("C06", "C07", "r_resolve r_routes r_roles r_groups k_full")
share("C06", "C15", "p_revised")
share("C07", "C06", "r_subset", args=[13, 3])
share("C07", "C06", "r_roots r_replace")
share("C07", "C06", "r_shared", args=[12])
share("C07", "C15", "p_pages p_missing")
share("C08", "C23", "w_tags")
share("C08", "C17", "k_to")
share("C09", "C08", "f_order f_text f_space")
share("C10", "C13", "t_other")
share("C10", "C14", "e_align")
share("C10", "C21", "x_title")
share("C10", "C18", "r_pages")
share("C11", "C13", "t_utf16", args=[8, 7, 5])
share("C11", "C13", "t_latin1 t_other l_text")
share("C11", "C14", "e_align e_colref")
share("C11", "C23", "w_mixruns", args=[2])
share("C11", "C08", "f_text", args=[0])
share("C12", "C13", "t_other")
share("C12", "C14", "e_align e_colref")
share("C12", "C23", "w_tags")
share("C12", "C15", "p_places")
share("C13", "C11", "w_text")
share("C13", "C12", "e_list")
share("C14", "C16", "e_embtype w_strokeprops")
share("C14", "C23", "w_tagset w_tagdef e_math")
share("C14", "C21", "b_color")
share("C15", "C06", "k_rev")
share("C15", "C24", "o_same")
share("C15", "C12", "w_image w_file")
share("C17", "C15", "p_missing")
share("C17", "C16", "w_inkdims w_inkruns")
share("C17", "C23", "w_mathruns")
share("C16", "C23", "w_mixruns")
share("C17", "C07", "r_missing")
share("C17", "C08", "f_unmapped f_count")
share("C17", "C19", "b_bad")
share("C18", "C08", "f_order", args=[0])
share("C18", "C11", "l_runs")
share("C18", "C16", "w_inkruns")
share("C19", "C20", "b_ascii", args=[4])
share("C19", "C20", "b_link b_absolute")
share("C19", "C02", "b_cycle")
share("C20", "C19", "b_similar b_tree b_bad")
share("C21", "C10", "w_title")
share("C21", "C19", "b_order", args=[2, 12])
share("C23", "C08", "f_text")
share("C23", "C11", "w_text")
share("C23", "C14", "e_colref")
share("C24", "C19", "b_tree")
share("C24", "C19", "b_order", args=[2, 12])
share("C02", "C17", "k_to", LOOP)
share("C02", "C13", "t_utf16 t_latin1", LOOP)
share("C02", "C16", "w_inkpath w_inklong", LOOP)
share("C02", "C19", "b_tree b_bad", LOOP)
share("C02", "C07", "r_near r_routes", LOOP)
for _p, _e in (
        ("C02", "d_nest r_cyclic d_revring b_ring b_cycle"), ("C06", "r_chain r_roots r_replace"),
        ("C07", "r_order r_missing r_unmapped r_resolve r_badserial r_unused r_spaces r_pages r_index r_groups r_header r_roles r_near "
         "r_nearonly r_routes k_full k_groups"),
        ("C17", "w_page w_pagemeta w_title w_section w_sectionnode w_series w_outline w_group w_element w_style w_text w_table w_cell "
         "w_row w_image w_iframe w_file w_list w_tags w_tagset w_tagdef w_math w_stroke w_strokeprops w_inkrun k_to k_kind k_gone"),
        ("C16", "w_inkdims w_inkpath w_inklong w_inkruns e_embtype"), ("C23", "w_mathruns e_math e_shape e_action"),
        ("C14", "e_align e_colref e_charset e_media e_para e_pagesize e_list"), ("C13", "t_utf16 t_latin1 t_other"),
        ("C04", "q_optional q_freq q_value q_parts q_fragment q_excluded"), ("C05", "s_log s_badlog s_versions s_layouts s_format s_toc s_padding"),
        ("C08", "f_cids f_count f_shift f_unmapped"), ("C15", "p_missing p_pages p_revised p_places"),
        ("C19", "b_tree b_escape b_bad b_grouptoc b_file b_similar"), ("C20", "b_absolute b_link"), ("C21", "x_title b_color"),
        ("C24", "o_names o_opens"), ("C25", "o_kinds")):
    share("C01", _p, _e, CRASH)
share("C01", "C18", "o_seq", CRASH, args=[w * 10 + k for w in range(21) for k in (0, 1, 2)])
for (_p, _s, _k), _e in BORROWED.items():
    PROPS[_p]["bounds"] += "; also the jobs %s of %s%s" % (
        " ".join(sorted(set(_e))), _s, " (verdicts of kind %s only)" % ", ".join(_k) if _k else "")
