#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Any text stored as a database string reads back as the same text",
 "Every text that the library accepts for storage as a database string is written in the documented encoding (short ASCII up to 126 bytes, long ASCII, otherwise UTF-16LE with correct flag and length bytes) and decodes to exactly the same text. Twelve-character ISRC codes stored through the ISRC constructor round-trip in the ISRC encoding. Text that cannot be represented is rejected with an error when the string is created; writing never fails or crashes later.",
 ["inputs"],"all texts up to 3 symbols over an alphabet containing every encoding-relevant symbol class, every length 0..40000 of ASCII and of several non-ASCII shapes, every single Unicode scalar value alone and in first/last position",
 "Unit tests sample five strings; correctness depends on every length boundary and every leading code unit (some collide with the ISRC marker).",
 ["src/pdb/string.rs"],[("string constructor chooses encoding","src/pdb/string.rs DeviceSQLString::new"),("encoding selection on read","src/pdb/string.rs DeviceSQLStringImpl/LongBody")],
 ["DeviceSQLString::new/new_isrc/write/read/into_string"])
p("C02","Decoding database-string bytes is total, exact and stable",
 "For every byte sequence, decoding it as a database string either fails with an error or yields a string whose re-encoding is byte-for-byte the bytes that were consumed; it never crashes. A decoded string can always be displayed and converted to text or to an encoding error without crashing. Bytes following the string are never consumed and never influence the result.",
 ["inputs"],"every byte sequence of length up to 3, and every byte sequence of header/length/flag/first-content-byte combinations with bodies of length 0..8 over a small alphabet, each with several different trailers",
 "Tests decode a handful of well-formed strings; corrupted or foreign length/flag bytes are never decoded.",
 ["src/pdb/string.rs"],[("variant selection by flag/length byte","src/pdb/string.rs DeviceSQLStringImpl, LongBody")],
 ["DeviceSQLString::read/write/to_string/into_string"])
p("C03","Adding rows to a page keeps header counters, row index and heap consistent",
 "For every sequence of row allocations (of any requested size) on a data page, each granted row gets its own 4-byte aligned, non-overlapping space directly after the previously used space; the row counters, presence flags, used and free sizes account exactly for everything allocated; and the page never overflows: a request that does not fit is refused and leaves the page unchanged. A reserved row that is never filled in is counted but not present. A page built this way serializes to exactly one page and reads back to the same rows.",
 ["histories","inputs"],"all operation sequences up to the depth bound over allocation sizes and fill/abandon choices, from empty pages and pages loaded with existing/deleted rows; long runs crossing every 16-row group boundary until the page is full, for several page sizes and all remaining-space values; requests of every size 0..65535",
 "Existing tests replay a few fixed additions onto one sample page; group boundaries, abandoned allocations and page-full conditions are not explored.",
 ["src/pdb/mod.rs","src/pdb/bitfields.rs"],[("row allocation","src/pdb/mod.rs Page::allocate_row"),("packed counters","src/pdb/bitfields.rs PackedRowCounts"),("row groups written backwards","src/pdb/mod.rs RowGroup")],
 ["Page::allocate_row","Page read/write"])
p("C04","The computed heap size of a row equals its serialized size",
 "For every row type and every content, the number of heap bytes the library says a row needs equals the number of bytes it occupies when the row is serialized with calculated offsets, and is never smaller than the extent written for rows that carry explicit offsets laid out without gaps. Rows placed one after another using these sizes therefore never overwrite each other.",
 ["inputs"],"every row type, both offset widths, all combinations of string shapes (empty, short, long ASCII, wide, ISRC) over the string fields with one, two or all fields varied",
 "Tests check one size per row type; padding of wide strings depends on the combination of all preceding strings.",
 ["src/pdb/mod.rs","src/pdb/offset_array.rs","src/pdb/ext.rs","src/pdb/string.rs"],[("size computation","heap_bytes_required implementations"),("calculated offsets","src/pdb/offset_array.rs BinWrite")],
 ["row serialization"],"heap size computation is private: a cfg-guarded accessor exposes it")
p("C05","Every table row type reads and writes its documented byte layout exactly",
 "For every row type of the plain and extended database, bytes laid out as documented are parsed so that each public field carries the value stored at its documented position, and writing the parsed row back reproduces every byte the row owns. This holds for both the 8-bit and the 16-bit string offset layouts, for every value of every field and for strings placed in any order, with or without gaps. Values that a field cannot represent are reported as errors instead of being altered.",
 ["inputs"],"for every row type and both offset widths: every byte of the fixed part driven through all values of a value set containing each bit, one at a time and in pairs of fields, every string shape in every string field, all placement orders for rows with two strings",
 "The tests contain fixed samples per row type with mostly identical subtype and offset layout.",
 ["src/pdb/mod.rs","src/pdb/ext.rs","src/pdb/offset_array.rs","src/util.rs"],[("row structs","src/pdb/mod.rs Track, Album, Artist, ..."),("offset array","src/pdb/offset_array.rs OffsetArrayContainer")],
 ["PlainRow/ExtRow read/write"])
p("C06","Reading a table yields exactly its chained pages and present rows, and ends",
 "For every arrangement of page links in a database, iterating a table visits exactly the pages on the chain from its first to its last page, in chain order, and yields exactly the rows marked present on its data pages in address order, skipping index pages. A chain that points backwards, to itself or outside the file produces an error (never an endless loop, crash, duplicate or silently missing page), and other tables remain readable afterwards. Iterating twice or interleaving iteration of several tables yields the same result.",
 ["inputs","histories"],"all link functions over up to 5 pages (each next pointer to any page, 0 and past the end), all first/last page choices, all page kinds; all pairs of successive table traversals on the same handle",
 "Unit tests only walk intact sample databases in one order.",
 ["src/pdb/io.rs"],[("page iteration with monotonic page order","src/pdb/io.rs PageIterator::next"),("row iteration","src/pdb/io.rs Database::iter_rows")],
 ["Database::iter_pages / iter_pages_for_table / iter_rows / load_page"])
p("C07","Edits made through a database handle persist exactly, and nothing else changes",
 "For every sequence of opening, loading pages, iterating, modifying rows or the header, adding rows, flushing, closing and reopening, the bytes on disk after a flush equal the previous bytes with exactly the modifications applied: pages never touched stay byte-identical, unflushed modifications never reach the disk, and a flush without modification leaves the file unchanged and the same length. Reopening the file shows exactly the state that was last flushed. Loading, iterating, modifying in memory or dropping a handle writes nothing; only flush and close write.",
 ["histories"],"all operation histories up to the depth bound over an alphabet of load/modify/add/header-edit/flush/close/reopen operations on databases with data, index, unknown-type and garbage pages",
 "The modification tests replay fixed scripts that always load pages in the same order and flush once.",
 ["src/pdb/io.rs","src/pdb/mod.rs"],[("lazily loaded pages are skipped on write","src/pdb/io.rs LazyPage write_options"),("flush/close","src/pdb/io.rs Database::flush, close")],
 ["bytes of the backing store after flush"])
p("C08","I/O faults are reported or harmless: never silent corruption, never a crash",
 "For every I/O call made while reading or writing a database, row, string, analysis file or settings file, an I/O error is either reported to the caller as an error or has no effect on the result: it is never taken for a value (such as an unknown type or an absent ID). Short or interrupted transfers go unnoticed and give the same result as complete ones. After a failed operation (open, page load, iteration, flush) the handle remains usable: once the fault is gone, retrying the operation gives the same result and the same bytes on the device as a run without the fault. When a database flush reports success, everything has been handed through to the device, including devices that buffer writes until they are flushed.",
 ["fault_sequences"],"for each workload every single I/O call index crossed with every fault kind (error, end of file, interrupted, short transfer), plus all pairs of faults on short workloads, plus uniformly limited transfers of 1..n bytes",
 "Tests use in-memory cursors and regular files that never fail, never split a transfer and are never interrupted.",
 ["src/pdb/io.rs","src/xor.rs","src/anlz.rs","src/setting.rs"],[("page cached only after successful parse","src/pdb/io.rs load_page, PageIterator::next"),("stream cipher position follows the stream","src/xor.rs")],
 ["result of each operation under an injected fault"])
p("C09","Page images survive a read/write cycle byte for byte",
 "For every data page - any number of row groups, any pattern of present and deleted rows, any page size, any row placement - reading the page and writing it back reproduces every header byte, row byte, presence flag and offset of present rows, without touching heap bytes that belong to no present row. The same holds for index pages with any number of entries, including the empty-entry padding and the zeroed tail. Parsing reports an error if the number of present rows contradicts the page header.",
 ["inputs"],"all presence masks for up to 16 rows and all row counts across group boundaries (mask patterns in the last and earlier groups), all index entry counts 0..full for several page sizes, every declared row count against every actual count",
 "Round-trip tests cover fixed captured pages; presence patterns with deleted rows at group edges are rare there.",
 ["src/pdb/mod.rs"],[("row group reading/writing backwards","src/pdb/mod.rs RowGroup, DataPageContent"),("index padding","src/pdb/mod.rs IndexPageContent")],
 ["Page read/write"])
p("C10","Analysis files round-trip, and unknown sections never hide known ones",
 "For every sequence of analysis sections (all known kinds with any contents, and unknown kinds with any header and content size), parsing yields exactly these sections with their documented field values, and writing the parsed file reproduces the input byte for byte. Unknown section kinds are preserved verbatim and do not affect the sections before or after them. Sections whose declared sizes contradict their contents are reported as errors.",
 ["inputs"],"all section sequences up to the bound over an alphabet of every section kind in several sizes including empty, all field values for enumerated fields, all comment lengths and trailing sizes of extended cues, all unknown header/content sizes up to a bound",
 "Tests round-trip a few captured files; combinations, empty lists and unknown sections are not enumerated.",
 ["src/anlz.rs"],[("section dispatch by kind","src/anlz.rs Content"),("sizes","src/anlz.rs Header::content_size, ANLZ::parse_sections")],
 ["ANLZ read/write"])
p("C11","Encrypted phrase data decodes like its plain form and re-encrypts identically",
 "For every number of phrases, mood, bank and phrase content, a song-structure section stored encrypted with the documented 19-byte key parses to the same content as its plain form, is recognised as encrypted exactly when it is, and writing it back reproduces the original bytes in the original form (encrypted or plain). This does not depend on how the underlying stream splits reads and writes.",
 ["inputs","fault_sequences"],"every phrase count 0..2730 and selected counts up to 65535, all moods and banks, every content byte position, all uniform transfer sizes 1..40",
 "Tests contain two captured sections with fixed counts.",
 ["src/anlz.rs","src/xor.rs"],[("key derived from the entry count","src/anlz.rs SongStructureData::get_key"),("detection by trial decryption","src/anlz.rs check_if_encrypted"),("stream cipher","src/xor.rs")],
 ["ANLZ read/write"])
p("C12","Settings files are written in the documented format with a valid checksum",
 "For every combination of setting values, writing a settings file produces the documented fixed-size layout with each value at its documented byte, the strings NUL-padded, and a checksum that equals CRC-16/XMODEM over the data section (over the whole preceding file for the mixer settings). Reading the file back yields equal settings, and writing again yields identical bytes. NUL-free strings of up to 31 bytes are stored; longer ones are reported as an error, not a crash.",
 ["inputs"],"the full product of all values of all settings for three file types and all triples (thorough: quadruples) of settings for the fourth; all string lengths 0..70 for each string field",
 "Tests write default settings and a few samples; the checksum depends on every byte.",
 ["src/setting.rs"],[("checksum computed while writing","src/setting.rs Setting::calculate_checksum"),("layout","src/setting.rs Setting and payload structs")],
 ["Setting read/write bytes"])
p("C13","Reading a settings file accepts exactly valid files and never misreads a byte",
 "For every settings file type and every byte of the file, replacing that byte by any value either leaves the file readable with exactly the documented change of value (and re-writing preserves it), or is rejected with an error if the value is not documented for that position. Files of the wrong type, with wrong declared sizes and truncated files are rejected. The checksum and the bytes behind the NUL terminator of a string do not influence what is read and are normalised when writing. No input crashes the reader.",
 ["inputs"],"every (position, value) single-byte replacement, every truncation length, every file read as every other type",
 "Tests read valid files only.",
 ["src/setting.rs"],[("enumerated setting values","src/setting.rs enums with repr"),("constant fields asserted","src/setting.rs br(assert)")],
 ["Setting::read_args result"])
p("C14","Loading device settings is per-file independent and reports every value",
 "For every combination of present, missing, unreadable and corrupt settings files on a device, loading the settings yields exactly the values of the readable files, each in its own field, leaves all values of the other files unset, and never fails as a whole. The textual listing shows each value under its own label and '<missing>' for unset ones.",
 ["configurations"],"all 9^4 combinations of file states, and every setting value in every file",
 "Tests load one complete and one empty export.",
 ["src/device.rs","src/main.rs"],[("per-file loading","src/device.rs DeviceExportLoader::load_settings"),("listing","src/device.rs Display for Settings")],
 ["DeviceExportLoader::load_settings","list-settings output"])
p("C15","Each setting value is shown with its own human-readable label",
 "Every value of every setting is displayed with the label used by the hardware and software menus; within one setting no two values share a label and no value is shown by its internal name where a label is documented. Each setting's documented default is the default value.",
 ["inputs"],"all values of all setting types",
 "No test prints every value.",
 ["src/setting.rs"],[("display attributes","src/setting.rs #[display] attributes")],
 ["to_string of every value"])
p("C16","The playlist tree reflects the stored parent/child rows, for any stored rows",
 "For every set of stored playlist rows, the playlist tree consists of exactly the rows reachable from the root through folders, each folder containing exactly its children in stored order with its name and identity. Rows that are not reachable through folders are omitted. Rows whose links form a cycle reachable from the root, duplicated ids, ids that equal the root and folders nested more than 200 levels deep may be refused with an error; they never produce a crash, an endless loop or an infinite tree.",
 ["inputs"],"all assignments of id, parent, kind to up to 4 rows (ids and parents in 0..4), all stored orders, spread over one or two pages",
 "Tests cover one small valid tree.",
 ["src/device.rs"],[("tree building","src/device.rs get_playlists")],
 ["get_playlists result"])
p("C17","A rekordbox XML document written by the library reads back unchanged",
 "For every document value - any ordinary nesting (100 levels) of folders and playlists including empty ones, any number of tracks, tempos and marks including none, any text of characters that XML can represent in any text field, any finite numeric value, any combination of absent attributes - serializing and deserializing yields an equal document, and serializing again yields the same text. Written counts equal the number of child elements.",
 ["inputs"],"all node trees up to depth 3 and width 2 with all empty/non-empty leaf variants, all texts up to 2 symbols over an alphabet of XML-significant characters in every text field, boundary values in every numeric field, presence/absence of every optional field",
 "Tests parse two sample documents.",
 ["src/xml.rs"],[("serde mapping","src/xml.rs"),("custom node deserializer","src/xml.rs PlaylistGenericNode")],
 ["quick_xml to_string/from_str of Document"])
p("C18","XML documents from rekordbox are understood regardless of formatting",
 "Every well-formed rekordbox XML document parses to the values stated in its attributes, each attribute ending up in its own field; the result does not depend on attribute order, whitespace, quoting style, empty-element notation or entity encoding. A node below the topmost one without type, name, or the attributes its type needs (count, or entries and key type), or with an unknown type, is rejected with an error; no document crashes the parser, however deeply it is nested.",
 ["inputs"],"all permutations of the node attributes, all subsets of missing attributes, every single attribute of every element with a distinguishing value, all formatting variants",
 "Tests parse two samples with one fixed attribute order.",
 ["src/xml.rs"],[("attribute order handling","src/xml.rs PlaylistGenericNode visitor"),("field names","src/xml.rs serde rename")],
 ["quick_xml from_str of Document"])
p("C19","Malformed input never crashes, hangs or exhausts memory",
 "For every truncation, single-byte corruption and size/count/offset field overwrite of a valid database, analysis file, settings file or XML document, reading it completely (including displaying what was read, writing back what parsed and adding rows to pages that parsed) either succeeds or returns an error, within time and memory proportional to the input. It never panics, overflows the stack, loops forever or allocates memory unrelated to the size of the input.",
 ["inputs"],"every truncation point and every byte position crossed with a set of replacement values (every value in header regions), and every 16/32-bit aligned field overwritten with boundary values, for small hand-built files of every kind",
 "Tests use valid files only.",
 ["src/pdb/mod.rs","src/pdb/io.rs","src/pdb/string.rs","src/anlz.rs","src/setting.rs","src/xml.rs"],[("parsers","binrw definitions across src")],
 ["parse result"])
p("C20","Playlist export writes exactly the playlists, in order, inside the output folder",
 "For every device export whose playlist entries have distinct positions and whose tree rows have distinct non-zero ids, exporting playlists creates one M3U file per playlist of the tree, at the path given by its folder names below the output directory, listing the tracks of that playlist in entry order as their stored paths below the canonical export path, skipping entries whose track is unknown, and prints the path of each file; other files in the output directory stay as they are. Names that cannot be the name of a single file (empty, '.', '..', containing separators or NUL) are altered, playlists of the same name in one folder get files of their own, and only names the file system refuses (overlong, or a playlist file and a folder of the same name) and folders nested more than 200 levels deep are reported as an error. Whatever the names are and however the database is damaged, nothing is ever created, changed or removed outside the output directory, and the tool does not crash.",
 ["configurations","inputs"],"all small playlist forests; all pairs and triples of names from an alphabet of ordinary, Unicode, path-separator, parent-directory, absolute, empty and duplicate names; all entry position permutations with unknown tracks; all ways to name the directories; truncations and byte damage",
 "No test covers the export command.",
 ["src/main.rs","src/device.rs"],[("tree walk and file creation","src/main.rs export_playlists")],
 ["files below and beside the output directory"])
p("C21","Page references and packed page fields keep every representable value intact",
 "Every page reference, index entry, packed row counter and page flag value in range converts to its binary form and back without loss and without affecting neighbouring fields; values out of range are rejected and never stored as another value; the empty index entry is distinct from every entry that refers to a usable page. The file position of a page is its number times the page size for every number and page size, without overflow.",
 ["inputs"],"all 2^24 packed counter values, all 2^8 flag bytes, all 2^32 index entries (quick tier: all values at every bit boundary plus a full sweep of low and high ranges), all page numbers at every bit boundary",
 "Tests check a few constants.",
 ["src/pdb/mod.rs","src/pdb/bitfields.rs"],[("bit fields","src/pdb/bitfields.rs"),("index entries","src/pdb/mod.rs IndexEntry, PageIndex")],
 ["PageIndex, IndexEntry, PackedRowCounts, PageFlags conversions"])
p("C22","The command line tool lists and dumps exactly what the files contain",
 "For every database with distinct entry positions and distinct non-zero tree ids, the playlist listing prints the reachable playlist tree in stored order, indented by depth, and each playlist's tracks in entry order with the matching artist and title, marking unknown tracks and artists; contradictory (cyclic, reused) or excessively nested rows may be refused, but never crash the tool. Settings, analysis, database and XML dumps contain every stored element in order, use the type implied by the file name unless overridden, skip unknown tables unless told otherwise, continue after a damaged table with a message on stderr, and end with a failure exit status and a message, not a crash, if the input is unreadable or its type cannot be told.",
 ["configurations","inputs"],"all small forests with entries, artists and dangling references; every file-type/option/file-name combination; every damaged-table position; truncations of every kind of file",
 "No test runs the command line tool.",
 ["src/main.rs"],[("list_playlists, dump_*","src/main.rs")],
 ["stdout, stderr and exit status"])
p("C23","Plain and extended databases are each interpreted by their own table types",
 "For every table type number, a table and its pages are interpreted according to the kind of database opened: known numbers give that kind's row type, every other number is kept as unknown with its number intact, and tables are found by exactly their own type. Opening a database as the other kind never mixes row types; unknown tables can be skipped and, when unmodified, are written back unchanged.",
 ["inputs","configurations"],"all type numbers 0..255 and boundary values up to 2^32-1 for both kinds, and all pairs of table kinds in one file",
 "Tests read the type numbers found in two samples.",
 ["src/pdb/mod.rs","src/pdb/ext.rs"],[("type dispatch","src/pdb/mod.rs PageType, PlainPageType, Row"),("ext types","src/pdb/ext.rs ExtPageType")],
 ["Header tables, Page content"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
