#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to read and edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))

S = "src/"
LOAD_ALL = [S + f for f in ("load_msh.cpp load_msh_format.cpp load_msh_nodes.cpp load_msh_elements.cpp load_msh_entities.cpp "
    "load_msh_data.cpp load_msh_physical_groups.cpp load_msh_post_process.cpp load_msh_curves.cpp load_msh_patches.cpp io_utils.cpp").split()]
SAVE_ALL = [S + f for f in ("save_msh.cpp save_msh_format.cpp save_msh_nodes.cpp save_msh_elements.cpp save_msh_entities.cpp "
    "save_msh_data.cpp save_msh_physical_groups.cpp save_msh_curves.cpp save_msh_patches.cpp").split()]

prop("C01", "Saving as MSH 4.1 and loading back loses nothing",
 "For every valid spec with version 4.1, in ASCII and in binary, loading what save_msh wrote yields the same mesh format, physical groups (any name), entities of all four kinds with their bounding boxes, physical tags and boundary tags, node blocks (including parametric coordinates and empty blocks) and element blocks of all 31 types. Every count, tag (up to the full 64-bit range for nodes and elements), string and order is identical, and every real number is identical bit for bit (finite ones, when the encoding is ASCII).",
 ["inputs", "configurations"], "all valid 4.1 specs: any number and size of blocks/entities/groups, any field value, both encodings, both builds (extension on/off)",
 "The tests round-trip about ten tiny hand-written meshes with coordinates 0 and 1, never compare entities or physical groups, and use counts and tags below 20; precision loss, delimiter/whitespace bytes in binary payloads, 64-bit tags, parametric blocks and large blocks are never reached.",
 SAVE_ALL[:5] + [S+"save_msh_physical_groups.cpp"] + LOAD_ALL[:5] + [S+"load_msh_physical_groups.cpp", "include/mshio/MshSpec.h"],
 [("v41 writers and readers mirror each other field by field", "src/save_msh_*.cpp, src/load_msh_*.cpp namespace v41"), ("at most one white-space byte is eaten before a binary payload", "src/io_utils.cpp eat_white_space(in, 1)"), ("std::quoted for names", "src/save_msh_physical_groups.cpp, src/load_msh_physical_groups.cpp")],
 observe=["return value of load_msh(stream holding the bytes save_msh wrote)"])

prop("C02", "Saving as MSH 2.2 and loading back keeps nodes, elements and groups",
 "For every valid spec saved as version 2.2 (ASCII or binary) whose tags fit in 32 bits, loading the result yields the same physical groups, the same node sequence (tags and x, y, z bit for bit when finite), and the same element sequence (tag, type, entity tag, node tags) in the same order. The loaded spec is self-consistent: counts and min/max tags are exact, every element block has the dimension of its type, adjacent blocks differ in entity or type, each node block carries the entity of an element that uses its nodes ((0,0) for unused nodes), and validate_spec accepts it.",
 ["inputs", "configurations"], "all valid specs with unique positive 32-bit tags (dense or sparse, in any order), any block structure, both encodings",
 "The tests use nodes numbered 1..8 in order, one or two entities, no unused nodes, no sparse or unordered tags, no non-trivial coordinates and no mesh larger than five elements.",
 [S+"save_msh_nodes.cpp", S+"save_msh_elements.cpp", S+"load_msh_nodes.cpp", S+"load_msh_elements.cpp", S+"load_msh_post_process.cpp"],
 [("v22 writers/readers", "src/save_msh_nodes.cpp, src/save_msh_elements.cpp, src/load_msh_nodes.cpp, src/load_msh_elements.cpp"), ("regrouping of one-element blocks and of the single node block", "src/load_msh_post_process.cpp")],
 observe=["return value of load_msh on the saved bytes"])

prop("C03", "Post-processing data survives a save and load in every encoding",
 "For every valid spec holding any number of node data, element data and element-node data fields, in each of the four encodings (4.1/2.2, ASCII/binary), loading what was saved yields the same fields in the same order in the same category: all string, real and integer tags, and for every entry its tag, its number of nodes (element-node data) and all its values. Reals are identical bit for bit (finite ones where the format stores them as text: everywhere in ASCII files, and the real tags of a data header in any file).",
 ["inputs", "configurations"], "all valid data fields: scalar/vector/tensor and other widths, per-entry node counts, extra or missing optional tags, any strings, any values",
 "The tests have three data fields in total, all scalar, with values 0..3 and the single time value 0.",
 [S+"save_msh_data.cpp", S+"load_msh_data.cpp", S+"save_msh.cpp", S+"load_msh.cpp"],
 [("header and entry readers/writers", "src/load_msh_data.cpp, src/save_msh_data.cpp"), ("std::quoted string tags", "src/load_msh_data.cpp load_data_header")],
 observe=["return value of load_msh on the saved bytes"])

prop("C04", "Saved files are conforming MSH files",
 "For every valid spec and each of the four encodings, a reader written from the MSH format documentation alone (not from this library) decodes the saved bytes completely: header and section markers in place, every field at its documented position, width and byte order, declared counts equal to actual counts, and no stray bytes. What it decodes is exactly the spec that was saved (for 2.2: nodes, elements, physical names and data; reals bit for bit when finite).",
 ["inputs", "configurations"], "all valid specs, four encodings, both builds",
 "The tests only feed the writer's output to the library's own reader, so a mistake made symmetrically in both (swapped fields, wrong width, wrong separator) passes; and they try only a handful of specs.",
 SAVE_ALL, [("one writer per section, version and encoding", "src/save_msh_*.cpp"), ("section markers", "src/save_msh_*.cpp")],
 observe=["bytes written to the output stream"])

prop("C05", "Conforming 4.1 files load to exactly what they contain",
 "For every well-formed MSH 4.1 file, ASCII or binary, written by any other program, load_msh returns a spec whose every field is exactly what the file says. This holds whatever the file's layout freedom: spacing, line breaks (LF or CRLF in ASCII), number spellings, order of the sections after the header, final newline or not, line break or none between a binary payload and its end marker.",
 ["inputs"], "all well-formed 4.1 files with supported sections",
 "Two sample 4.1 files with 6 nodes and 2 elements are loaded, and only num_nodes and num_elements are checked.",
 LOAD_ALL[:7], [("v41 readers", "src/load_msh_*.cpp namespace v41"), ("section dispatch", "src/load_msh.cpp load_msh(std::istream&)")],
 observe=["return value of load_msh"])

prop("C06", "Conforming 2.2 files load to exactly what they contain",
 "For every well-formed MSH 2.2 file, ASCII or binary, with any number of tags per element and (in binary) any grouping of elements under element headers, load_msh returns all nodes and elements in file order with exact tags, coordinates, types, connectivity and entity tags (the second tag, when there are at least two; the only tag, when there is one), and exact counts and tag ranges, grouped into consistent blocks. When elements carry two or more tags, the entities of each dimension are exactly the distinct second tags of the elements of that dimension, each listing exactly the first tags (physical groups) seen with it.",
 ["inputs"], "all well-formed 2.2 files: 0..k tags per element, mixed headers, sparse and unordered node numbers, empty sections, LF/CRLF",
 "Two 2.2 sample files with 2 triangles each are loaded; only the two totals are checked, never entities, physical tags, coordinates or grouping.",
 [S+"load_msh_nodes.cpp", S+"load_msh_elements.cpp", S+"load_msh_post_process.cpp", S+"load_msh_data.cpp"],
 [("per-element tag handling and entity synthesis", "src/load_msh_elements.cpp namespace v22"), ("regrouping", "src/load_msh_post_process.cpp")],
 observe=["return value of load_msh"])

prop("C07", "Unsupported sections are skipped without any other effect",
 "Inserting sections the library does not support (for example $Periodic, $PartitionedEntities, $GhostElements, $Parametrizations, $InterpolationScheme, $Comments or any unknown name, with text or binary content, even content that mentions other section names) or stray text between sections changes nothing: load_msh returns the same spec as without them. In a build without the NanoSpline extension this includes $Curves and $Patches written by a build that has it.",
 ["inputs", "configurations"], "all well-formed files with any number of extra sections at any position after the header",
 "No test or sample file contains an unsupported section.",
 [S+"load_msh.cpp", S+"load_msh_curves.cpp", S+"load_msh_patches.cpp"],
 [("skip to the matching end marker", "src/load_msh.cpp forward_to")],
 observe=["return value of load_msh"])

prop("C08", "Loading arbitrary bytes is memory-safe and terminates",
 "For every byte sequence given to load_msh, the call finishes within a bounded amount of work by either returning a spec or throwing an exception derived from std::exception. It never crashes, hangs, aborts, reads or writes outside its buffers, leaks, executes undefined behaviour, or lets uninitialised memory influence the result; running out of memory surfaces as std::bad_alloc or std::length_error.",
 ["inputs", "configurations"], "all byte sequences: random, mutated, truncated and spliced files with hostile counts, types, dimensions and tags; assertions enabled or disabled",
 "The tests only load valid files; no malformed, truncated or hostile input is ever tried.",
 LOAD_ALL, [("stream state checks after each count and block", "src/load_msh_*.cpp"), ("size computations before resize", "src/load_msh_elements.cpp, src/load_msh_data.cpp, src/load_msh_nodes.cpp, src/load_msh_curves.cpp")],
 observe=["process outcome under AddressSanitizer/UBSan/memcheck, exception type, CPU time"])

prop("C09", "Truncated, unreadable or garbled files are never accepted",
 "If a valid file is cut off at any byte strictly inside a section (from the $ that opens it to the last character of its end marker), or reading fails at any byte, or a number in an ASCII section the library parses is replaced by a non-numeric word, load_msh throws an exception derived from std::exception. If the cut falls between sections, the sections before it are loaded exactly as in the full file.",
 ["crash_points", "inputs", "fault_sequences"], "every cut position, every read-error position and every numeric token of every generated file, four encodings, file and stream interfaces",
 "No test loads a damaged file.",
 LOAD_ALL, [("end-of-section check", "src/load_msh.cpp"), ("stream state checks", "src/load_msh_*.cpp")],
 observe=["outcome of load_msh on prefixes, on streams that fail at byte k, on token-damaged files"])

prop("C10", "A failed write is always reported and a reported success is complete",
 "If any byte of the output cannot be written (disk full, size limit, I/O error at any point up to closing the file), save_msh to a file throws, and save_msh to a stream leaves that stream in a failed state or throws. If save_msh to a file returns normally, the file holds exactly the bytes save_msh would write to a stream.",
 ["fault_sequences", "crash_points", "inputs"], "every failure position in the output of generated specs, four encodings, file and stream interfaces",
 "No test writes to a file or injects a write failure.",
 [S+"save_msh.cpp"], [("stream state check after writing and closing", "src/save_msh.cpp save_msh(const std::string&, const MshSpec&)")],
 observe=["exception or stream state after save_msh; contents of the file"])

prop("C11", "A spec accepted by validate_spec is safe to save and load",
 "For every spec whatsoever, validate_spec either returns or throws an exception; it never crashes or executes undefined behaviour. If it returns and the version is 2.2 or 4.1 with file type 0 or 1 and data size 8, then saving that spec stays within its memory and either refuses a tag the encoding cannot hold (as C20 says) or writes a result that can be loaded and holds the same nodes, elements and post-processing data (reals stored as text being finite).",
 ["inputs"], "all specs, consistent or not: arbitrary counts, block sizes, dimensions, element types, headers and data lengths",
 "validate_spec is only ever called on correct specs in the tests.",
 [S+"validate_spec.cpp", S+"save_msh_nodes.cpp", S+"save_msh_elements.cpp", S+"save_msh_data.cpp"],
 [("consistency checks", "src/validate_spec.cpp")],
 observe=["outcome of validate_spec; sanitizer verdict on the following save_msh; round-trip difference"])

prop("C12", "validate_spec accepts every valid spec and rejects inconsistent ones",
 "validate_spec accepts every spec that follows the documented rules and every spec loaded from a conforming file, including empty meshes, empty blocks and empty 2.2 sections. It throws when any one of these is broken: block counts and totals match the contents, min tag <= max tag, every node tag, element tag and element-to-node reference lies within the declared ranges, the length of each tag and data array matches its count, dimension and element type, element types are supported, and each data field has its three required integer tags with matching entry count and entry lengths.",
 ["inputs"], "all valid specs, and all single-fault corruptions of them at every block, element and entry position",
 "The tests never call validate_spec on an inconsistent spec, so none of its rejections is exercised.",
 [S+"validate_spec.cpp"], [("ASSERT lambda throwing CorruptData", "src/validate_spec.cpp")],
 observe=["return or exception of validate_spec"])

prop("C13", "Element type queries agree with the published table for every integer",
 "For every int, nodes_per_element and get_element_dim return the node count and dimension that the README's table of supported element types gives for that type, and throw UnsupportedFeature for every type that is not in the table.",
 ["inputs"], "all 2^32 values of the argument",
 "The tests never call either function; types 1, 2, 3 and 15 are used indirectly.",
 [S+"element_utils.cpp", "README.md", "include/mshio/mshio.h"], [("two constant tables and a range check", "src/element_utils.cpp")],
 observe=["return value or exception"])

prop("C14", "Unsupported input is refused, never misread",
 "load_msh throws UnsupportedFeature for any MSH version other than 2.2 and 4.1, for a 4.1 file whose data size is not 8, for a binary file whose byte-order marker is not the 32-bit integer 1 in native byte order, and for an unsupported element type; it throws InvalidFormat for an $Entities section in a 2.2 file and for a data section with fewer than three integer tags. It throws when a file has no $MeshFormat header or has a supported section before it, and save_msh throws for a version other than 2.2 and 4.1 whatever the spec contains.",
 ["inputs"], "all files and specs with these features, wherever they occur in otherwise valid content",
 "No test checks that anything is refused.",
 [S+"load_msh_format.cpp", S+"load_msh_entities.cpp", S+"load_msh_data.cpp", S+"element_utils.cpp", S+"load_msh.cpp", S+"save_msh.cpp"],
 [("version, data size and endianness checks", "src/load_msh_format.cpp"), ("assert_element_is_supported", "src/element_utils.cpp")],
 observe=["exception type"])

prop("C15", "Ambient formatting and locale do not change what is written or read",
 "The bytes save_msh writes and the spec load_msh returns depend only on the spec and on the bytes: not on formatting flags, precision, width, fill or locale previously set on the caller's stream, and not on the process-wide C++ locale. After the call the caller's stream has the formatting flags, precision, fill and locale it had before.",
 ["configurations", "inputs"], "all combinations of stream flags, precision, width, fill, imbued locale and global locale, both interfaces, four encodings",
 "The tests use fresh default stringstreams in the classic locale.",
 [S+"save_msh.cpp", S+"load_msh.cpp", S+"io_utils.h"], [("formatting state fixed for the duration of the call", "src/save_msh.cpp, src/load_msh.cpp")],
 observe=["bytes written, spec returned, stream state after the call"])

prop("C16", "Concurrent calls on separate streams do not interfere",
 "Any number of threads may call load_msh, save_msh (also of one shared const spec), validate_spec and the element queries at the same time on different streams or files. There is no data race, and every call gives the result it gives when run alone.",
 ["schedules"], "all interleavings of concurrent calls with distinct streams",
 "The tests are single-threaded.",
 ["include/mshio/mshio.h", S+"load_msh.cpp", S+"save_msh.cpp"], [("no mutable global or function-static state in the library", "src/*.cpp")],
 observe=["ThreadSanitizer reports; results compared with the sequential run"])

prop("C17", "Converting between encodings preserves the mesh",
 "For every mesh both versions can represent, any chain of saving and loading through the four encodings in any order preserves the node sequence, the element sequence, the physical groups and all post-processing data exactly. Loading a file and saving it again in the same encoding reaches a fixed point: from then on, the bytes no longer change.",
 ["inputs", "histories"], "all such meshes and all chains of encodings",
 "The tests do one save and one load per spec in a fixed encoding, starting from the in-memory spec.",
 SAVE_ALL[:4] + LOAD_ALL[:4], [("format fields carried in the spec", "include/mshio/MshSpec.h MeshFormat")],
 observe=["specs and bytes along the chain"])

prop("C18", "NanoSpline curves and patches survive a save and load",
 "In a build with the NanoSpline extension, for every spec whose curves and patches have consistent counts, with or without weights and with any number of control points and knots, saving and loading in any of the four encodings yields the same extension version, curves and patches in the same order, every field identical and every real bit for bit (finite ones, when ASCII), without disturbing the rest of the spec. A build without the extension loads such a file, ignoring curves and patches, with the same rest of the spec.",
 ["inputs", "configurations"], "all consistent curve and patch lists, four encodings, both builds on the reading side",
 "One test with two curves and one patch of small integers and no knots; patches are not compared at all.",
 [S+"save_msh_curves.cpp", S+"load_msh_curves.cpp", S+"save_msh_patches.cpp", S+"load_msh_patches.cpp", S+"load_msh_nanospline_format.h", S+"save_msh_nanospline_format.h"],
 [("readers/writers behind MSHIO_EXT_NANOSPLINE", "src/*_curves.cpp, src/*_patches.cpp")],
 observe=["return value of load_msh in both builds"])

prop("C19", "Memory use is proportional to the mesh, not to its numbering",
 "For every well-formed file, loading it needs an amount of memory bounded by a constant times the size of the file plus a constant, and saving needs memory bounded the same way by its output. In particular it does not depend on how large, sparse or unordered node, element and entity tags are, nor on the order in which nodes and elements of different entities alternate.",
 ["inputs"], "all well-formed files: sparse and huge tags, alternating entities, many small blocks",
 "The tests use consecutive tags starting at 1 and at most two entities.",
 [S+"load_msh_post_process.cpp", S+"load_msh_elements.cpp", S+"load_msh_nodes.cpp"], [("node tag to entity association and block regrouping", "src/load_msh_post_process.cpp")],
 observe=["bytes obtained from operator new during load_msh and save_msh"])

prop("C20", "A tag the chosen encoding cannot hold is refused, not altered",
 "Version 2.2 (both encodings) and binary post-processing data store node and element tags as signed 32-bit integers. If a spec has a node, element or data-entry tag that does not fit where it would be stored, save_msh throws instead of writing a different tag; tags that do fit, up to and including 2147483647, are written and read back unchanged.",
 ["inputs"], "all specs with tags around and beyond 2^31 at any position, four encodings",
 "The largest tag in any test is 13.",
 [S+"save_msh_nodes.cpp", S+"save_msh_elements.cpp", S+"save_msh_data.cpp"], [("conversion to int32_t when writing", "src/save_msh_nodes.cpp, src/save_msh_elements.cpp, src/save_msh_data.cpp")],
 observe=["exception or bytes/spec after save and load"])

prop("C21", "File and stream interfaces agree, however the bytes are delivered",
 "load_msh gives the same result from a file name as from any input stream holding the same bytes, seekable or not, and however that stream splits its bytes into buffers; save_msh to a file name (new, or existing with any previous contents) leaves exactly the bytes it writes to a stream, and to a stream it only appends at the current position. Loading a path that cannot be opened or is a directory throws, saving to a path that cannot be opened throws, and saving never modifies the spec.",
 ["inputs", "configurations"], "all specs, four encodings, all buffer splits, file states and path kinds",
 "The tests save and load through one stringstream; the file interface is used only to load the four sample files.",
 [S+"load_msh.cpp", S+"save_msh.cpp", "include/mshio/mshio.h"], [("file overloads forward to the stream overloads in binary mode", "src/load_msh.cpp, src/save_msh.cpp")],
 observe=["specs, bytes, exceptions, directory contents"])

prop("C22", "Earlier calls never influence later ones",
 "Over any sequence of load_msh, save_msh, validate_spec and element query calls in one process, including calls that throw or meet I/O failures, each call gives exactly the result (spec, bytes or exception type) it gives as the first call of a fresh process.",
 ["histories"], "all call sequences over valid, invalid and failing inputs in mixed versions and encodings",
 "Each test section makes one or two calls and never compares a repeated call with a first one.",
 ["include/mshio/mshio.h", S+"load_msh.cpp", S+"save_msh.cpp"], [("no state kept between calls", "src/*.cpp")],
 observe=["results of each call against a baseline recorded in a fresh process"])

prop("C23", "The Python module exposes every field and function faithfully",
 "The Python module registers MeshFormat, Nodes, NodeBlock, Elements, ElementBlock, Entities and the four entity kinds, PhysicalGroup, Data, DataHeader, DataEntry and MshSpec, and every public C++ field of theirs (except the NanoSpline extension) under its C++ name. Reading or assigning such an attribute reads or assigns exactly that field and no other, and load_msh, save_msh, validate_spec, nodes_per_element and get_element_dim behave as the C++ functions do, for all values.",
 ["inputs"], "all fields, all values",
 "The Python module is not built or tested at all.",
 ["python/pymshio.cpp", "python/mshio/__init__.py"], [("nanobind registrations", "python/pymshio.cpp")],
 observe=["registered accessors, driven through a recording stand-in for nanobind"])

prop("C24", "msh_inspect reports what the file contains",
 "For every valid file, the msh_inspect program exits with status 0, prints the counts, entities, physical groups, nodes with all their coordinates, elements, node data and element data that the file contains (reals to six digits), and writes tmp.msh in the current directory, which loads to the same spec. It never reads outside the loaded data; without exactly one argument it prints its usage and exits with a non-zero status.",
 ["inputs"], "all valid files, four encodings, including parametric nodes of every dimension",
 "The example is compiled but never run.",
 ["examples/msh_inspect.cpp"], [("printing loops", "examples/msh_inspect.cpp")],
 observe=["standard output, exit status, tmp.msh, sanitizer verdict"])

prop("C25", "Repeated sections add up",
 "A file may spread its contents over several sections of the same name ($PhysicalNames, $Entities, $Nodes, $Elements, $NodeData, $ElementData, $ElementNodeData, $Curves, $Patches), as the MSH format allows. For every such file, of either version and encoding, load_msh returns what it would return had all sections of one name been a single one with their contents in file order: no block, entity, group, field, node or element is lost, duplicated or altered, the totals are the sums, the tag ranges span those of all sections that have nodes or elements, and a 2.2 file is regrouped over all of its nodes and elements. What is loaded passes validate_spec (when no element block is empty).",
 ["inputs"], "all well-formed files of both versions with any number of sections of each kind, empty ones included, in any order",
 "No test file has two sections of the same name except data fields.",
 [S+f for f in "load_msh.cpp load_msh_nodes.cpp load_msh_elements.cpp load_msh_entities.cpp load_msh_physical_groups.cpp load_msh_data.cpp load_msh_curves.cpp load_msh_patches.cpp load_msh_post_process.cpp".split()],
 [("section loop", "src/load_msh.cpp load_msh(std::istream&)"), ("append_nodes, append_elements, append_entities", "src/load_msh_nodes.cpp, src/load_msh_elements.cpp, src/load_msh_entities.cpp"), ("running totals of 2.2 sections", "src/load_msh_elements.cpp, src/load_msh_nodes.cpp namespace v22")],
 observe=["return value of load_msh"])

prop("C26", "Running out of memory is reported and leaves nothing behind",
 "Whenever any memory allocation fails (operator new throws std::bad_alloc, once or from then on) while load_msh, save_msh or validate_spec runs, on a stream or a file, the call ends in an exception derived from std::exception, or (save_msh to a stream) leaves the stream in a failed state, or returns exactly what it would have returned, or written, without the failure. It never crashes, never returns an incomplete spec and never reports the success of an incomplete or altered file. After such a call no memory is leaked, no file stays open, the formatting state of the caller's stream is as before, the spec that was saved is unmodified, and every later call gives the usual results.",
 ["inputs", "faults"], "all valid specs and files, every single allocation of every call, a failure once or for good",
 "No test makes an allocation fail; there are up to 100 000 places in one call.",
 LOAD_ALL + SAVE_ALL + [S+"validate_spec.cpp"],
 [("write_quoted (std::quoted would hide the failure)", "src/io_utils.cpp"), ("StreamFormatGuard", "src/io_utils.cpp"), ("check_stream after reads, since istreams turn bad_alloc into badbit", "src/load_msh_*.cpp")],
 observe=["outcome, result, bytes written, live bytes of operator new, open descriptors, stream state"])

prop("C27", "Work grows in proportion to the input",
 "The work of load_msh, save_msh and validate_spec (instructions executed, bytes copied, memory allocated, stream operations) grows at most like n log n with the size n of the file or spec. This holds whatever makes it large: many or large node and element blocks, alternating element types or entities, entities with many tags, physical groups, long names, data fields, entries, tags or components, curves and patches, unsupported sections of any content, stray text, empty or repeated sections, and (2.2) nodes and elements in any order, entities and physical groups of any number. Excepted are many $Elements sections in one 2.2 file and node tags chosen against the hash function.",
 ["inputs"], "all families of files and specs that grow in one or several of these dimensions",
 "The largest test mesh has ten nodes; a quadratic loop passes every test.",
 LOAD_ALL + SAVE_ALL + [S+"validate_spec.cpp", S+"element_utils.cpp"],
 [("regrouping through one hash map and one pass", "src/load_msh_post_process.cpp"), ("forward_to reads each word once", "src/load_msh.cpp"), ("entities collected in ordered maps", "src/load_msh_elements.cpp")],
 observe=["edge counters compiled into the library, wrapped memory functions, operator new, counting streams, CPU time"])

prop("C28", "Size is limited only by memory",
 "No count or length of bytes is kept in fewer than 64 bits: for a mesh whose binary file, or a single part of it, is longer than 2^31 or 2^32 bytes, load_msh returns every byte of it exactly as it is in the file and save_msh writes every byte of it, as long as memory suffices and the format's own 32-bit fields can express it. The long part may be a node block (tags or coordinates), an element block, the values of one entry of node, element or element-node data, a curve or patch, a list of physical or boundary tags of an entity of any kind, a name, or a section that is skipped; the sections after it are read and written as usual; and the file may come from a stream or from disk.",
 ["inputs", "configurations"], "all binary files and specs with parts longer than 2^31 and 2^32 bytes, 4.1 and 2.2",
 "The largest file of the tests has a few hundred bytes; an int that holds a number of bytes is right for every one of them.",
 LOAD_ALL + SAVE_ALL, [("whole blocks read and written with one call", "src/load_msh_nodes.cpp, src/load_msh_elements.cpp, src/load_msh_data.cpp, src/load_msh_entities.cpp, src/load_msh_curves.cpp, src/load_msh_patches.cpp and their save counterparts"), ("checked_size", "src/io_utils.cpp")],
 observe=["return value of load_msh(stream that produces the bytes)", "bytes save_msh passes to a comparing stream buffer"])

prop("C29", "New objects have defined values, and absent sections leave them",
 "A default-constructed MshSpec and every other public structure (also as an element added to a vector, and whatever its memory held before) has version \"4.1\", ASCII, 8-byte data, spline format version \"1.0\", zero for every count, tag, flag and coordinate, and empty strings and lists; Entities::empty() is true exactly when there is no point, curve, surface or volume. A new spec, with any supported version and encoding set, passes validate_spec, can be saved, and loads back equal. What a loaded file has no section for is as in a new spec.",
 ["inputs", "configurations"], "all public structures; all ways of making one; all previous contents of the memory; all subsets of sections of a file, both versions, both encodings",
 "A member without an initializer is zero in most runs, as fresh memory is; the tests set every member they look at.",
 ["include/mshio/MshSpec.h", "include/mshio/MshSpecExt.h", S+"load_msh.cpp", S+"validate_spec.cpp"],
 [("in-class initializers", "include/mshio/MshSpec.h, include/mshio/MshSpecExt.h"), ("one spec per call, filled section by section", "src/load_msh.cpp")],
 observe=["members of objects made in pattern-filled memory", "return values of validate_spec, save_msh and load_msh"])

prop("C30", "Calls touch nothing but what they are given",
 "Besides their result, calls have no lasting effect on the process. No call writes to standard output or std::clog, and only load_msh writes to standard error: a warning that names each unsupported section of the file, nothing for a conforming file without one. Loading opens no file for writing and leaves the file as it is; saving changes no file but the named one and leaves no other behind; a call on a stream opens none. After every call, also one that throws, the following are as before: working directory, environment, umask, signal handlers and mask, rounding mode and floating-point traps, C and C++ locale, the settings, ties and buffers of the global streams and of the caller's stream, the sequence of rand, terminate and new handlers, open descriptors, threads, and what standard input still holds.",
 ["inputs", "faults", "configurations"], "all files, damaged ones included; all specs, refused ones included; all settings of the process before the call",
 "A left-over effect shows in the caller's other work, not in what the call returns, which is what the tests look at.",
 [S+"load_msh.cpp", S+"save_msh.cpp", S+"load_msh_format.cpp", S+"io_utils.h", S+"validate_spec.cpp", S+"element_utils.cpp"],
 [("section loop and warning", "src/load_msh.cpp"), ("save_msh by file name", "src/save_msh.cpp")],
 observe=["snapshots of process state and folder before and after each call", "output to standard streams", "files opened during a call"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
