#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/pe_lib/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": "src/pe_lib/" + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "src/pe_lib/" + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

FIX = "Existing tests run one or two well-formed fixture files through each call once; "

# ---------------------------------------------------------------- opening
p("C01", "Opening arbitrary bytes is memory-safe and always ends",
  "Opening any byte string as an executable image, as a file or as a memory dump and with or without raw debug data, always ends with either a usable image or an exception derived from the standard exception class. It never reads or writes outside its own buffers, never overflows the stack, and a failed open releases everything it had acquired.",
  ["inputs"], "all byte strings, both open modes, both debug-data modes",
  FIX + "no test opens a malformed or truncated file, and the property ranges over every byte string.",
  ["pe_base.cpp", "pe_factory.cpp", "pe_section.cpp", "utils.h"],
  [("range and overflow checks while reading headers", "pe_base.cpp read_pe"), ("type detection", "pe_base.cpp get_pe_type")],
  ["return value or exception of opening", "sanitizer reports", "live allocations after a failed open"])
p("C02", "An opened image mirrors the file it was read from",
  "After a successful open every header value, data directory, stub byte and section attribute equals what the file stores, each section's raw data equals the file bytes at its raw offset (at its virtual address for memory dumps) cut to the virtual size when the stored raw size is larger, and the retained header bytes equal the beginning of the file. Overlay is reported exactly when the file continues past the last byte of raw section data.",
  ["inputs", "configurations"], "all well-formed 32- and 64-bit files, including those with unusual header sizes, alignments, directory counts, raw sizes, uninitialised sections, overlays and dumped-from-memory layout",
  FIX + "all fixtures have the same ordinary shape (aligned sizes, 16 directories, no memory dump).",
  ["pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp"],
  [("header, section and overlay reading", "pe_base.cpp read_pe")],
  ["header accessors", "section list", "stub and header-data accessors", "overlay flag"])
p("C03", "Inconsistent images are refused",
  "A file is opened exactly when it is consistent: DOS and PE signatures and the magic for the requested flavour are right, the PE header is 4-aligned, alignments are powers of two with file alignment at least 512 and at most section alignment (or equal to it), there are at most 96 sections, no section has both sizes zero or exceeds 2 GB, sections follow each other without gaps inside the declared image size, raw data lies inside the file, and headers end before the first section. Every other file is refused with a library exception; more than 16 data directories are treated as 16.",
  ["inputs"], "all combinations of boundary values of the header and section fields involved",
  FIX + "no test feeds an inconsistent header, and acceptance depends on combinations of fields.",
  ["pe_base.cpp"], [("consistency checks", "pe_base.cpp read_pe"), ("DOS header checks", "pe_base.cpp read_dos_header")],
  ["acceptance or exception of opening and of type detection"])
p("C04", "Reading an image leaves the caller's stream as it was",
  "Opening an image, detecting its type, computing its checksum and computing stream entropy leave the stream at the position where the caller had it with the exception mask the caller had set, whether the call succeeds or fails, for every content, every starting position and every read or seek failure of the stream. A stream failure never yields an image or a value computed from data that was not read.",
  ["inputs", "fault_sequences"], "all stream contents over a bounded alphabet of images and truncations, every starting position class, every exception mask, and every single failing or short stream operation",
  FIX + "no test uses a failing stream or inspects stream state after an error.",
  ["pe_base.cpp", "pe_checksum.cpp", "entropy.cpp", "utils.cpp"],
  [("saving and restoring stream state", "pe_base.cpp constructor, get_pe_type"), ("same", "pe_checksum.cpp calculate_checksum")],
  ["stream position, state and exception mask", "result or exception"])
p("C05", "A written image reopens as the same image",
  "Writing any image and opening the result yields an image with the same sections (names, attributes, addresses, virtual sizes, content up to zero padding), data directories, entry point, base, versions, subsystem, stub and other header values, for images opened from files, built from scratch, or edited. The in-memory image keeps the same section content after being written.",
  ["inputs", "configurations", "histories"], "all images reachable from a bounded set of files and edits, with every combination of the writing options",
  FIX + "the round trip is exercised only with default options on two fixtures.",
  ["pe_rebuilder.cpp", "pe_base.cpp"], [("header recalculation and writing", "pe_rebuilder.cpp rebuild_pe")],
  ["reopened image against the in-memory image"])
p("C06", "Written files are well formed and contain only image data",
  "A written file has section data placed at file-aligned, increasing, non-overlapping offsets after the headers and inside the file, with header sizes, section count, image size and PE header offset consistent with what was written, whatever combination of DOS-header stripping, header resizing and bound-import preservation is chosen. Every byte of it is image data or zero padding, bound imports placed in the headers survive when requested, and writing the reopened file again gives the same bytes.",
  ["inputs", "configurations"], "all images in a bounded space of section shapes, stubs, directory counts, alignments and writing options",
  FIX + "no test parses the written bytes independently of the library.",
  ["pe_rebuilder.cpp"], [("layout calculation", "pe_rebuilder.cpp rebuild_pe"), ("zero filling between sections", "pe_rebuilder.cpp rebuild_pe")],
  ["bytes of the output stream"])
p("C07", "Section edits keep the section table consistent",
  "After any sequence of adding, preparing, resizing, expanding, realigning and recalculating sections or changing alignments, every section keeps its bytes (up to trailing zero bytes), sections stay aligned, contiguous in address space and non-overlapping, virtual sizes cover the raw data (unless the caller explicitly sets a smaller one), and the image size and section count match the table once the image is written; adding a section, setting the virtual size of the last one and expanding it virtually keep them in agreement at once. Operations that would break this are refused and change nothing.",
  ["histories"], "all sequences of section operations up to a bounded length over a bounded set of section shapes and alignments",
  FIX + "each operation is exercised in isolation on one image.",
  ["pe_base.cpp", "pe_section.cpp"], [("section preparation and placement", "pe_base.cpp prepare_section, add_section"), ("expanding, resizing, realigning", "pe_base.cpp expand_section, set_section_virtual_size, realign_section, recalculate_section_sizes")],
  ["section table and data after each operation", "image written and reopened"],
  [("section list", "ordered sections with header and data", "pe_base.h sections_")])
p("C08", "Raw and virtual views of a section stay coherent",
  "A section's virtual view is its raw data followed by zero bytes up to the aligned virtual size, its raw view is the raw data alone, and bytes changed through either view are seen through the other wherever they lie in the raw data. Switching views, copying the section and replacing its data in any order never lose, duplicate or leak bytes of one view into the other.",
  ["histories"], "all sequences of view switches, writes, replacements, size changes and copies up to a bounded length",
  FIX + "views are mapped once or twice in a fixed order.",
  ["pe_section.cpp"], [("lazy mapping", "pe_section.cpp map_virtual, unmap_virtual")],
  ["raw and virtual data, emptiness flag"], [("mapped size marker", "raw length kept while the virtual view is mapped", "pe_section.h old_size_")])
p("C09", "Address conversions are exact inverses and refuse foreign addresses",
  "Converting an address between virtual, relative and file-offset form and back gives the original address wherever both exist, agrees with the section table, and never silently wraps: addresses that do not correspond to any header or section byte, or that overflow, are refused. Looking up a section by address finds exactly the section whose range contains it.",
  ["inputs", "configurations"], "all addresses around every boundary of every section layout in a bounded set, for 32- and 64-bit images and extreme image bases",
  FIX + "a handful of addresses in one image are converted.",
  ["pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp"], [("conversions", "pe_properties_generic.cpp va_to_rva, rva_to_va; pe_base.cpp rva_to_file_offset, file_offset_to_rva")],
  ["conversion results or exceptions"])
p("C10", "Data access by address returns the right bytes and respects bounds",
  "Reading typed data or asking for data lengths at an address returns exactly the bytes and lengths the raw view, the virtual view or the headers hold there, and access to anything that is not completely inside is refused rather than read. This holds for every address, value size and view, with and without headers.",
  ["inputs", "configurations"], "all addresses near every boundary, several value sizes, both views, with and without header search, in a bounded set of layouts",
  FIX + "only a few in-range addresses are read.",
  ["pe_base.h", "pe_base.cpp"], [("bounds-checked access templates", "pe_base.h section_data_from_rva"), ("length queries", "pe_base.cpp section_data_length_from_rva")],
  ["returned values, lengths, exceptions"])
p("C11", "Data directory edits behave like a bounded table",
  "Setting, removing, querying and stripping data directories in any order behaves like a table of address and size pairs with a current count: only the addressed entry changes, entries beyond the count do not exist, removal clears the entry and adjusts the related image flags (relocations and exports), and stripping never removes a non-empty directory (other than the import address table when asked) nor goes below the requested minimum.",
  ["histories"], "all operation sequences up to a bounded length over all directory numbers and counts",
  FIX + "one fixed sequence is checked.",
  ["pe_properties_generic.cpp", "pe_base.cpp"], [("directory table operations", "pe_properties_generic.cpp directory_exists, remove_directory, strip_data_directories")],
  ["directory queries, characteristics"])
p("C12", "Header properties are independent and width-correct",
  "Every header property that can be set reads back as set, truncated only to the width of the image flavour, changes no other property, survives writing and reopening, and invalid values are refused where the interface promises a check. An image created from scratch has the flavour, alignment, subsystem and kind that were asked for, describes itself accordingly, and has no sections or directories. This holds for both flavours and for any order of changes.",
  ["histories", "configurations"], "all pairs of property changes over boundary values, both flavours",
  FIX + "each setter is tried with one value and only its own getter is looked at.",
  ["pe_properties_generic.cpp", "pe_base.cpp"], [("property accessors", "pe_properties_generic.cpp"), ("alignment check", "pe_base.cpp set_file_alignment")],
  ["all getters after each setter"])
p("C13", "Copies of an image are independent and equal",
  "A copy or an assignment of an image equals its source in every observable respect, later changes to either never show in the other, and any sequence of copies, assignments (including to itself) and destructions leaves every surviving image intact and leaks nothing. The same holds for debug records and other value types that own variable data.",
  ["histories"], "all sequences of copy, assign, self-assign, modify and destroy over a small pool of images",
  FIX + "copying is not exercised by any test.",
  ["pe_base.cpp", "pe_debug.cpp", "pe_bound_import.cpp"], [("deep copies", "pe_base.cpp copy constructor and assignment; pe_debug.cpp debug_info")],
  ["written bytes of every image in the pool"])
# ---------------------------------------------------------------- directories
p("C14", "Rebuilt imports read back unchanged",
  "Any list of imported libraries and functions written into an image is what an independent reader and the library itself find there, with names, hints, ordinals, timestamps and address-table positions intact, for every combination of rebuild options, starting offset, and both flavours, also after the image is written and reopened. Writing imports changes no byte outside the area it reports and the address tables it was asked to update.",
  ["inputs", "configurations"], "all lists up to a bounded size mixing named and ordinal functions, all option combinations, both flavours",
  FIX + "one list is rebuilt with two option sets.",
  ["pe_imports.cpp"], [("import writer", "pe_imports.cpp rebuild_imports_base"), ("import reader", "pe_imports.cpp get_imported_functions_base")],
  ["decoded import lists", "section bytes", "directory entry"])
p("C15", "Rebuilt exports read back unchanged and can be searched",
  "Any valid list of exported functions written into an image is found again by an independent loader-style reader and by the library, with ordinals, names, forwarders, addresses and library information intact and the name table sorted for binary search. Lists with duplicate names or ordinals are refused and leave the image unchanged.",
  ["inputs", "configurations"], "all export lists up to a bounded size with gaps, unnamed, forwarded and duplicate entries, both flavours",
  FIX + "one list is rebuilt once.",
  ["pe_exports.cpp"], [("export writer", "pe_exports.cpp rebuild_exports"), ("export reader and checks", "pe_exports.cpp get_exported_functions, name_exists, get_export_ordinal_limits")],
  ["decoded export lists", "name table order"])
p("C16", "Rebuilt relocations read back unchanged",
  "Any list of relocation tables written into an image is found again by an independent reader and by the library with the same pages, offsets and kinds, in 4-aligned blocks that exactly fill the reported directory. Listing absolute entries is controlled only by the caller's choice.",
  ["inputs", "configurations"], "all lists up to a bounded size over boundary pages, offsets and kinds",
  FIX + "one fixture's relocations are rebuilt.",
  ["pe_relocations.cpp"], [("relocation writer and reader", "pe_relocations.cpp rebuild_relocations, get_relocations")],
  ["decoded tables", "directory size"])
p("C17", "Rebasing moves exactly the relocated addresses",
  "Rebasing an image to a new base adds the base difference to exactly the locations named by the relocation list, at their width, sets the new base and changes nothing else; rebasing back restores the image byte for byte, if the locations do not overlap. A list naming a location outside the image's raw data is refused rather than applied out of bounds.",
  ["inputs", "histories"], "all relocation lists up to a bounded size over kinds and locations including boundaries, all pairs of bases from a bounded set, both flavours",
  FIX + "one fixture is rebased once.",
  ["pe_relocations.cpp"], [("applying relocations", "pe_relocations.cpp rebase_image_base")],
  ["section bytes, image base"])
p("C18", "Rebuilt TLS information reads back unchanged",
  "Any TLS description written into an image reads back, by the library and an independent reader, with the same addresses, sizes, callbacks and raw data (as far as the raw data lies in file-backed section data, which is all the writer stores), under every combination of the writing options, without touching bytes outside the data it was asked to write. A directory that does not fit or is inconsistent is refused without change; raw data or callbacks that do not fit are refused.",
  ["inputs", "configurations"], "all descriptions over bounded data sizes, callback counts, placements and options, both flavours",
  FIX + "two descriptions are rebuilt.",
  ["pe_tls.cpp"], [("TLS writer and reader", "pe_tls.cpp rebuild_tls_base, get_tls_info_base")],
  ["decoded TLS info, section bytes"])
p("C19", "Rebuilt load configuration reads back unchanged",
  "Any load configuration with its handler table and lock-prefix table written into an image reads back, by the library and an independent reader, with every field equal and tables in full, for both flavours and all writing options, with the handler table sorted as loaders require.",
  ["inputs", "configurations"], "all configurations over boundary field values, bounded table sizes and options, both flavours",
  FIX + "one configuration is rebuilt.",
  ["pe_load_config.cpp"], [("writer and reader", "pe_load_config.cpp rebuild_image_config_base, get_image_config_base")],
  ["decoded configuration, section bytes"])
p("C20", "Rebuilt bound imports read back unchanged",
  "Any list of bound modules with forwarder references written into an image reads back, by the library and an independent reader, with the same names, timestamps and references in order, in any section position and also when kept in the headers of the written file.",
  ["inputs", "configurations"], "all lists up to a bounded number of modules, references and names",
  FIX + "one fixture list is rebuilt.",
  ["pe_bound_import.cpp"], [("writer and reader", "pe_bound_import.cpp rebuild_bound_imports, get_bound_import_module_list")],
  ["decoded lists"])
p("C21", "Independent rebuilds coexist in one image",
  "Rebuilding imports, exports, relocations, TLS, load configuration, resources and bound imports in any order, each into its own section or behind one another in a shared section, leaves every one of them readable with the content written, together with all older section data, in memory and after writing and reopening the image.",
  ["histories"], "all orders and placements of rebuilds over a bounded set of directory contents, both flavours",
  FIX + "every test rebuilds one directory at a time.",
  ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_resources.cpp", "pe_bound_import.cpp", "pe_base.cpp"],
  [("offset-based placement and section resizing in each writer", "pe_base.cpp recalculate_section_sizes")],
  ["all decoded directories after each step"])
p("C22", "Reading damaged directories is memory-safe and always ends",
  "Reading imports, exports, relocations, TLS, load configuration, bound imports, exceptions, debug, .NET or Rich information from an image whose directory bytes are arbitrary always ends with a result or a standard exception, without touching memory outside the image's data. An entry that lies partly outside the image is never reported.",
  ["inputs"], "all single and pairwise corruptions of every directory field with boundary values, all truncations of the section and all directory positions near section ends, both flavours",
  FIX + "no test reads a damaged directory.",
  ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_exception_directory.cpp", "pe_debug.cpp", "pe_dotnet.cpp", "pe_rich_data.cpp"],
  [("bounds checks in each reader", "pe_base.h section_data_from_rva and each reader")],
  ["results, exceptions, sanitizer reports"])
p("C23", "Directory readers decode exactly what is stored",
  "For every well-formed import, export, relocation, TLS, load-configuration, bound-import, exception or .NET directory laid out by any tool (exported functions having at most one name each), the reader returns exactly the entries stored there, in order and complete, including unusual but valid layouts (missing original tables, unnamed and forwarded entries, structures ending at a section end or living in virtual padding).",
  ["inputs", "configurations"], "all directory contents up to a bounded size laid out independently of the library, in several positions, both flavours",
  FIX + "only layouts produced by one linker are read.",
  ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_exception_directory.cpp", "pe_dotnet.cpp"],
  [("readers", "pe_imports.cpp, pe_exports.cpp and the other readers")],
  ["returned lists against an independent encoder's input"])
p("C24", "Debug information is decoded exactly",
  "For every well-formed debug directory, each entry is reported with its stored type, addresses, times and versions, and CodeView 2.0 and 7.0, MISC and COFF payloads are decoded to exactly the stored identifiers, ages, names and symbols; payloads that are missing, short or of unknown form are reported as such or refused, never invented.",
  ["inputs"], "all debug directories with up to a bounded number of entries over all payload kinds and boundary lengths",
  FIX + "two fixtures' entries are compared with constants.",
  ["pe_debug.cpp", "pe_base.cpp"], [("decoding", "pe_debug.cpp get_debug_information")],
  ["decoded debug entries"])
p("C25", "Rich header data is decoded exactly",
  "For every stub holding a Rich record, whatever its key, length, position and surrounding bytes, the decoded tool entries equal the ones that were encoded, in order; stubs without a complete record yield an empty list, and no stub content causes access outside it.",
  ["inputs"], "all stubs up to a bounded size over a bounded alphabet of words, keys and positions",
  FIX + "one fixture's record is compared with constants.",
  ["pe_rich_data.cpp"], [("decoding", "pe_rich_data.cpp get_rich_data")],
  ["decoded list"])
# ---------------------------------------------------------------- resources
p("C26", "Rebuilt resource trees read back unchanged",
  "Any resource tree (nested up to 64 levels) written into an image reads back, by the library and an independent reader, as the same tree: same names, identifiers, languages, code pages, data bytes and directory attributes, with named entries before numbered ones and each group sorted. Nothing outside the reported area is written, and trees that the format cannot hold are refused with nothing changed.",
  ["inputs", "configurations"], "all trees up to a bounded shape with names, identifiers and data of bounded size, in several positions, both flavours",
  FIX + "one fixture's tree is rebuilt.",
  ["pe_resources.cpp"], [("writer and reader", "pe_resources.cpp rebuild_resources, get_resources")],
  ["decoded tree, section bytes"])
p("C27", "Reading damaged resources is memory-safe and always ends",
  "Reading the resource tree, or a version, string-table, message-table, bitmap, icon or cursor resource with arbitrary bytes always ends with a result or a standard exception, without touching memory outside the resource data, even for cyclic or deeply nested trees.",
  ["inputs"], "all single and pairwise corruptions of every structural field with boundary values and all truncations of a bounded set of resources",
  FIX + "no test reads a damaged resource.",
  ["pe_resources.cpp", "resource_version_info_reader.cpp", "resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "resource_bitmap_reader.cpp", "resource_cursor_icon_reader.cpp"],
  [("recursion guard and bounds checks", "pe_resources.cpp process_resource_directory and each reader")],
  ["results, exceptions, sanitizer reports"])
p("C28", "Resource edits behave like a map",
  "Adding, replacing, removing and looking up resources by type, name or identifier and language, in any order, behaves like a map from those keys to data and code page: lookups and listings return exactly what the history implies, removal removes exactly what it names, and failed lookups are reported as such. The result survives writing and rereading the tree.",
  ["histories"], "all operation sequences up to a bounded length over a bounded set of types, names, identifiers and languages",
  FIX + "one fixed sequence is checked.",
  ["pe_resource_manager.cpp", "pe_resource_viewer.cpp", "pe_resources.cpp"], [("map-like editing", "pe_resource_manager.cpp add_resource, remove_resource"), ("lookups", "pe_resource_viewer.cpp")],
  ["listings and lookups against a model map"])
p("C29", "Icon and cursor groups survive writing, editing and reading",
  "Icon and cursor files added to an image under any group names, languages and numbering modes read back as the same pictures with the same attributes (and hotspots), existing pictures and groups are never overwritten by a later addition under a different group and language, and removing a group removes exactly its own pictures.",
  ["histories", "inputs"], "all sequences of additions and removals up to a bounded length over bounded files, groups, languages and numbering modes",
  FIX + "one addition and one removal are checked.",
  ["resource_cursor_icon_writer.cpp", "resource_cursor_icon_reader.cpp"], [("number allocation and group merging", "resource_cursor_icon_writer.cpp"), ("file reconstruction", "resource_cursor_icon_reader.cpp")],
  ["reconstructed files against the files added"])
p("C30", "Bitmap resources survive writing and reading",
  "Every valid bitmap file stored as a resource reads back with identical pixel data and a file header whose size and pixel offset are right for its colour depth; files that are not bitmaps are refused.",
  ["inputs"], "all bitmaps over colour depths, palette sizes and bounded pixel data, all truncations",
  FIX + "one bitmap is checked.",
  ["resource_bitmap_reader.cpp", "resource_bitmap_writer.cpp"], [("header stripping and reconstruction", "resource_bitmap_writer.cpp add_bitmap; resource_bitmap_reader.cpp create_bitmap")],
  ["reconstructed file"])
p("C31", "Version information survives writing, editing and reading",
  "Any fixed version block, string tables and translations written as a version resource read back equal, by the library and an independent reader of the documented structure; editing properties and translations in any order behaves like nested maps with the documented default-translation rule.",
  ["inputs", "histories"], "all string tables and translations up to a bounded size with all string length parities, all edit sequences up to a bounded length",
  FIX + "one version resource is checked.",
  ["resource_version_info_writer.cpp", "resource_version_info_reader.cpp", "version_info_editor.cpp", "version_info_viewer.cpp", "file_version_info.cpp"],
  [("serialisation", "resource_version_info_writer.cpp"), ("parsing", "resource_version_info_reader.cpp"), ("editing", "version_info_editor.cpp")],
  ["decoded maps and fixed info"])
p("C32", "String and message tables are decoded exactly",
  "For every well-formed string table and message table, each string and message is returned under its proper identifier with its exact text and encoding, absent entries are absent, and lookups by identifier, language or index agree with each other.",
  ["inputs"], "all tables up to a bounded size with bounded texts and identifier ranges",
  FIX + "one fixture's tables are compared with constants.",
  ["resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "message_table.cpp"], [("decoding", "resource_string_table_reader.cpp, resource_message_list_reader.cpp")],
  ["decoded maps"])
# ---------------------------------------------------------------- computed values
p("C33", "Checksum equals the documented image checksum",
  "The computed checksum of any file with a DOS header (and a 4-aligned PE header offset, as the format requires) equals the documented algorithm (16-bit one's-complement sum of the file without its stored checksum field, plus the file length), for every length including those that are not multiples of four, does not depend on the stored checksum, and setting it makes the file self-consistent.",
  ["inputs"], "all files up to a bounded length over a bounded alphabet plus carry-heavy contents, all header positions",
  FIX + "two fixtures are compared with constants.",
  ["pe_checksum.cpp"], [("summation", "pe_checksum.cpp calculate_checksum")],
  ["returned value"])
p("C34", "Entropy equals Shannon entropy however the data is supplied",
  "The entropy of any data equals its Shannon entropy in bits per byte, whether computed over a buffer, a section, a stream from its current position or all sections of an image, lies between 0 and 8, and an empty buffer, section or rest of a stream is refused.",
  ["inputs"], "all byte strings up to a bounded length over a bounded alphabet, all stream positions, all splits into sections",
  FIX + "two fixtures are compared with constants.",
  ["entropy.cpp"], [("byte counting", "entropy.cpp calculate_entropy")],
  ["returned value or exception"])
p("C35", "UCS-2 and wide strings convert losslessly or not at all",
  "Converting any wide string whose characters fit in one 16-bit unit to UCS-2 and back gives the same string with the same length and code units, and strings that cannot be represented are refused rather than altered; no conversion leaks resources.",
  ["inputs"], "all code units and all strings up to a bounded length over boundary characters",
  FIX + "one string is converted.",
  ["utils.cpp"], [("conversion", "utils.cpp to_ucs2, from_ucs2")],
  ["converted strings or exception"])
p("C36", "Running out of memory never corrupts or leaks",
  "If any single memory allocation fails while an image is opened, copied, edited, written, or any directory or resource is read or rebuilt, the failure surfaces as an exception (or, for optional debug data, as its absence), nothing leaks, and images not being modified stay intact and usable.",
  ["fault_sequences"], "every allocation index of every operation in a bounded set of operations and images",
  FIX + "no test injects a failure, and the failing allocation can be any one of thousands.",
  ["pe_base.cpp", "pe_debug.cpp", "pe_resources.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_rebuilder.cpp"],
  [("exception safety of constructors and ownership", "pe_base.cpp; pe_debug.cpp; pe_resources.cpp")],
  ["exceptions, live allocations, content of other images"])
p("C37", "Output stream failures never corrupt the image",
  "Writing an image to a stream that fails at any point, or that already failed, never crashes, never reports success where the interface reports failure, and leaves the in-memory image such that writing it again to a good stream yields the same file as if the failure had not happened.",
  ["fault_sequences"], "every failing write position of every written image in a bounded set, all writing options",
  FIX + "no test writes to a failing stream.",
  ["pe_rebuilder.cpp"], [("writing", "pe_rebuilder.cpp rebuild_pe")],
  ["stream state, bytes of the second write"])
p("C38", "Alignment and arithmetic helpers are exact",
  "Rounding down and up to any power-of-two alignment, testing for powers of two, testing sums for overflow, testing for and stripping terminators and comparing identifiers give the mathematically exact answers for all inputs whose result is representable.",
  ["inputs"], "all values in exhaustive small ranges and around every power of two, all alignments",
  FIX + "a handful of values are compared.",
  ["utils.h", "utils.cpp"], [("helpers", "utils.h align_up, align_down, is_power_of_2, is_sum_safe, is_null_terminated")],
  ["returned values"])

p("C39", "Description objects hold what is put into them",
  "Every object through which a caller describes part of an image - sections, imports, exports, relocations, TLS, load configuration, bound imports, rich records, debug and COFF records, resource entries and directories, messages, version information, rebuilding settings - starts empty (or as the structure it is made from), reads back each value as last set, changes nothing else when one is set, and its derived answers (has a name, is forwarded, is named, section and version flags, relocation item, counts, lookup by name or number) always agree with the stored values, whatever the order of changes; copies and assignments are equal and independent.",
  ["histories", "inputs"], "all sequences of setters up to a bounded length over boundary values, from every constructor",
  FIX + "each setter is called once, in one order, with one ordinary value.",
  ["pe_section.cpp", "pe_exports.cpp", "pe_imports.cpp", "pe_resources.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_rich_data.cpp", "pe_debug.cpp", "pe_dotnet.cpp", "pe_exception_directory.cpp", "file_version_info.cpp", "message_table.cpp", "resource_data_info.cpp"],
  [("section attribute flags", "pe_section.cpp set_flag"), ("mutual exclusion of numbers and names", "pe_resources.cpp resource_directory_entry::set_id, set_name"), ("copying owned details", "pe_debug.cpp debug_info::copy_advanced_info; pe_resources.cpp resource_directory_entry")],
  ["accessor results after every step, of the object, of an earlier copy and of an assigned object"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
