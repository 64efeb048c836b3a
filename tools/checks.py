"""What each check builds and runs."""
import os
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
MOCK = "-I" + os.path.join(HARNESS, "mocknb")
SAN = ["-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
NANO = ["-DMSHIO_EXT_NANOSPLINE"]
HARNESS_FLAGS = ["-std=c++17", "-O1", "-fsanitize=address", "-Wall", "-Wextra"]
LIBS = {
    # assertions on, as in the README's build
    "nano": dict(flags=["-std=c++14", "-O1", *SAN, *NANO]),
    "noext": dict(flags=["-std=c++14", "-O1", *SAN]),
    "python": dict(flags=["-std=c++17", "-O1", *SAN, MOCK], sources=["python/pymshio.cpp"]),
    "inspect": dict(flags=["-std=c++14", "-O1", *SAN, "-Dmain=msh_inspect_main"], sources=["examples/msh_inspect.cpp"]),
    "edges": dict(flags=["-std=c++14", "-O1", "-gline-tables-only", "-fsanitize-coverage=trace-pc-guard", *NANO]),
    "tsan": dict(flags=["-std=c++14", "-O1", "-gline-tables-only", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", *NANO]),
    # as the project builds it: g++, optimised, assertions off, no instrumentation
    "gcc": dict(flags=["-std=c++14", "-O2", "-DNDEBUG", *NANO], compiler="g++"),
    "gccdef": dict(flags=["-std=c++14", "-O2", "-DNDEBUG"], compiler="g++"),
    "gccinspect": dict(flags=["-std=c++14", "-O2", "-DNDEBUG", "-Dmain=msh_inspect_main"], compiler="g++", sources=["examples/msh_inspect.cpp"]),
    "gccpython": dict(flags=["-std=c++17", "-O1", "-DNDEBUG", MOCK], compiler="g++", sources=["python/pymshio.cpp"]),
    # second copy in the same process, extension off
    "def": dict(flags=["-std=c++14", "-O1", *SAN, "-Dmshio=mshio_def"], extra=["shim_def.cpp"]),
    # further copies in the same process: assertions off and stack variables filled, or extension off
    "fillA": dict(flags=["-std=c++14", "-O1", "-DNDEBUG", *SAN, *NANO, "-ftrivial-auto-var-init=pattern", "-Dmshio=mshio_fa", "-DVF_SHIM=load_fill_pattern"], extra=["shim_multi.cpp"]),
    "fill0": dict(flags=["-std=c++14", "-O1", "-DNDEBUG", *SAN, *NANO, "-ftrivial-auto-var-init=zero", "-Dmshio=mshio_f0", "-DVF_SHIM=load_fill_zero"], extra=["shim_multi.cpp"]),
    "plain": dict(flags=["-std=c++14", "-O1", *SAN, "-Dmshio=mshio_pl", "-DVF_SHIM=load_plain"], extra=["shim_multi.cpp"]),
}
BASE = ["common", "refcodec", "main"]


GCC = {"nano": "gcc", "noext": "gccdef", "inspect": "gccinspect", "python": "gccpython"}
HOSTILE = ("nano", "fillA", "fill0", "plain")
DL = ["-fsanitize=address,undefined", "-ldl", "-lpthread"]


def one(tu, quick, thorough, libs=("nano",), **kw):
    """The sanitized build and, for a quarter as many other cases, the project's own build."""
    return {"asan": dict(tus=BASE + [tu], libs=list(libs), quick=quick, thorough=thorough, **kw),
            "gcc": dict(tus=BASE + [tu], libs=[GCC.get(x, x) for x in libs], quick=quick // 4, thorough=thorough // 4, after="asan", **kw)}


CHECKS = {
    "C01": dict(level="exploration", binaries=one("roundtrip", 20000, 400000),
        rule="Random valid 4.1 specs (ASCII and binary), saved and loaded through files, string streams and chunked streams under ASan/UBSan, every field compared bit for bit. Distinct: specs of different shape (block/entity/group counts by class, element types, parametric dimensions, tag width, encoding)."),
    "C02": dict(level="exploration", binaries=one("roundtrip", 20000, 400000),
        rule="Random valid 2.2 specs with 32-bit tags, saved and loaded; node and element sequences compared exactly, the loaded spec checked for self-consistency. Distinct: as for C01."),
    "C03": dict(level="exploration", binaries=one("roundtrip", 20000, 400000),
        rule="Random data fields in the four encodings, saved and loaded, every header field and entry compared. Distinct: specs of different shape (numbers of fields, entries and components by class)."),
    "C04": dict(level="exploration", binaries=one("codec", 12000, 250000, libs=("nano", "def")),
        rule="Random valid specs saved by both builds; the bytes are decoded by a strict reader written from the format documentation and compared with the spec. Distinct: specs of different shape."),
    "C05": dict(level="exploration", binaries=one("codec", 16000, 300000, libs=("nano", "def")),
        rule="Random 4.1 files written by an independent writer with random layout (spacing, CRLF, number spelling, section order, end markers), loaded and compared field by field. Distinct: files with a different combination of layout, section order and size."),
    "C06": dict(level="exploration", binaries=one("codec", 16000, 300000, libs=("nano", "def")),
        rule="Random 2.2 files (any number of tags per element, any header grouping, sparse numbers) written by an independent writer, loaded and compared with the model. Distinct: files with a different combination of layout, section order and size."),
    "C07": dict(level="exploration", binaries=one("codec", 16000, 300000, libs=("nano", "def")),
        rule="Random files with unsupported sections (text, binary, misleading contents) and stray text at every position after the header, and files with curves and patches read by the build without the extension. Distinct: files with a different combination of layout, section names and order, and size."),
    "C08": dict(level="exploration", binaries=one("hostile", 60000, 3000000, libs=HOSTILE, args=["--cpu", "20"]), hang=60,
        rule="Random bytes, token soups, files with hostile counts and kinds, and mutations of valid files, each loaded by four builds (extension on/off, assertions on/off, heap and stack filled with different patterns) under ASan/UBSan, a CPU limit, a memory cap and a leak count; outcomes and specs compared between builds. Distinct: inputs of different kind, size class and outcome message."),
    "C09": dict(level="exploration", binaries=one("hostile", 500, 12000, libs=HOSTILE),
        rule="Valid files of an independent writer, cut at every byte (a sample when long), read from streams that fail or throw at any byte, and with each number garbled in turn; load_msh must throw, or for a cut between sections return what precedes it. Distinct: base files of different layout and size."),
    "C10": dict(level="fault_enumeration", binaries=one("env", 4000, 120000, link=DL),
        rule="Random specs saved while write, writev, fclose or the stream buffer fails, for good or only once, at the n-th call or byte, on full devices, directories, missing paths and read-only files: a failure must be reported, a reported success must have left the complete file. Distinct: faults of different kind and position, and specs of different shape."),
    "C11": dict(level="exploration", binaries=one("validate", 100000, 3000000),
        rule="Random specs with up to three random inconsistencies: validate_spec compared with an independent statement of the rules, accepted specs saved and loaded under ASan/UBSan; probes of each known gap in a child process. Distinct: specs of different shape and number of changes."),
    "C12": dict(level="exploration", binaries=one("validate", 100000, 3000000),
        rule="Valid specs (generated, and loaded from files of an independent writer) that must be accepted and the same with exactly one rule broken that must be rejected; probes of each known gap in a child process. Distinct: specs of different shape and rule broken."),
    "C13": dict(level="exploration", thorough_s=4500, binaries={
            "asan": dict(tus=["common", "refcodec", "main", "history"], libs=["nano"], quick=64, thorough=640),
            "sweep": dict(tus=["common", "refcodec", "main", "history"], libs=["gcc"], quick=0, thorough=65536, hflags=["-std=c++17", "-O2", "-DVF_NO_NEW"], link=["-O2"])},
        exhaustive=lambda run: run.per_binary.get("sweep", {}).get("cases") == 65536,
        rule="nodes_per_element and get_element_dim asked for every int from -80000 to 80000, for every supported type with random high bits set, and for random ints; the thorough tier asks for all 2^32. Distinct: batches."),
    "C14": dict(level="exploration", binaries=one("hostile", 200000, 3000000, libs=HOSTILE),
        rule="Files with unsupported versions, data sizes, byte orders, element types, partitioned entities, misplaced or missing headers, built from valid files, and specs that announce them: load_msh and save_msh must throw and write nothing. Distinct: inputs of different kind and outcome message."),
    "C15": dict(level="exploration", binaries=one("env", 6000, 200000, link=DL),
        rule="Random specs saved and loaded through streams with random flags, precision, width, fill and locale and under random global C++ and C locales; bytes and specs compared with the default ones and the stream state compared before and after. Distinct: combinations of settings and spec shapes."),
    "C16": dict(level="exploration", binaries={"tsan": dict(tus=BASE + ["threads"], libs=["tsan"], quick=2000, thorough=40000,
            hflags=["-std=c++17", "-O1", "-gline-tables-only", "-fsanitize=thread", "-DVF_NO_NEW"], link=["-fsanitize=thread", "-ldl", "-lpthread", "-Wl,--wrap=_Znwm"])},
        rule="2 to 8 threads, released at once in a process that has made no call yet, load, save, validate and query at the same time, on streams that yield and sleep at random points, some on one shared spec; ThreadSanitizer and interposed functions watch, and each result is compared with the one the call gives alone. Distinct: orders of the starts and ends of the calls."),
    "C17": dict(level="exploration", binaries=one("roundtrip", 3000, 100000),
        rule="Random meshes taken through random chains of save and load in the four encodings, compared after each step, and re-saved until the bytes stop changing; also for foreign files. Distinct: initial specs of different shape."),
    "C18": dict(level="exploration", binaries=one("codec", 16000, 300000, libs=("nano", "def")),
        rule="Random curves and patches (with the rest of a spec in a third of the cases) saved and loaded in the four encodings, and loaded by the build without the extension in the same process. Distinct: specs of different shape."),
    "C19": dict(level="exploration", binaries=one("env", 1600, 40000, link=DL),
        rule="The same mesh with dense and with extreme tags (to 2^64-1, or 2^31-1 in 2.2) saved, loaded and validated while operator new is counted: peak and total memory must not grow with the tags. Distinct: specs of different shape and tag pattern."),
    "C20": dict(level="exploration", binaries=one("env", 60000, 2000000, link=DL),
        rule="Random specs with tags around 2^31, 2^32 and 2^64 in every place a tag can be, saved in the four encodings: save_msh must throw, or what it wrote must load to the same tags. Distinct: specs of different shape, place and size of the tag."),
    "C21": dict(level="exploration", binaries=one("env", 8000, 250000, link=DL),
        rule="The same bytes loaded from a file, a string stream, an fstream, a pipe and streams that deliver random pieces, starting at random offsets, and the same spec saved to a file and to streams; results compared, also for paths that do not exist, long, relative and symlinked ones. Distinct: specs of different shape and ways of delivery."),
    "C22": dict(level="exploration", binaries=one("history", 4800, 150000),
        rule="Random sequences of calls (valid, refused and failing), each compared with the same call made as the first of a fresh process (a child of a process forked before the first call). Distinct: sequences of kinds of call and result."),
    "C23": dict(level="exploration", binaries=one("python", 3000, 80000, libs=("noext", "python"), xflags=[MOCK]),
        rule="python/pymshio.cpp compiled against a stand-in for nanobind that records what is registered; every class and attribute read and assigned with random values and compared with the field of that name and all other fields, every function compared with the C++ one. Distinct: attributes and specs of different shape."),
    "C24": dict(level="exploration", binaries=one("inspect", 12000, 400000, libs=("noext", "inspect")),
        rule="msh_inspect run under ASan/UBSan in a child process on random conforming files; every number and string printed compared with the file's contents, tmp.msh loaded and compared; wrong numbers of arguments; probes of known defects. Distinct: files of different layout and shape."),
    "C25": dict(level="exploration", binaries=one("codec", 16000, 300000, libs=("nano", "def")),
        rule="Random files of both versions whose groups, entities, nodes, elements, data, curves and patches are spread over several interleaved sections of the same name, loaded by two builds and compared with the model, then validated. Distinct: files with a different combination of layout, section order and size."),
    "C26": dict(level="fault_enumeration", binaries=one("oom", 2400, 60000),
        rule="Random specs and files loaded, saved (streams and files) and validated, in a long-lived process or as the first call of one, while the n-th allocation fails, alone or with all later ones: an exception or a failed stream, or exactly the result without the failure; no leak, no open file, formatting restored, later calls right. Distinct: specs of different shape."),
    "C27": dict(level="exploration", binaries={"work": dict(tus=BASE + ["work"], libs=["edges"], quick=6144, thorough=60000,
            hflags=["-std=c++17", "-O1", "-fno-builtin"], link=["-O1"] + ["-Wl,--wrap=" + f for f in ("memmove", "memcpy", "memset", "memcmp", "memchr", "strlen")])},
        rule="48 families of specs and files (many blocks, sections, entities, groups, fields, tags, words, and one of each that is long) loaded, saved and validated at a size and at four times that size while executed edges, moved and allocated bytes and stream operations are counted; larger ones under a CPU limit. Distinct: families, encodings and sizes."),
    "C28": dict(level="exploration", quick_s=400, binaries={"big": dict(tus=["common", "main", "big"], libs=["gcc"], quick=22, thorough=80, workers=(3, 2),
            args=["--cpu", "900"], hflags=["-std=c++17", "-O2", "-DVF_NO_NEW"], link=["-O2"])}, hang=300,
        rule="Binary files of more than 2^31 and 2^32 bytes with one long block, field entry, spline or tag list, produced on the fly, loaded, compared byte for byte and saved into a stream buffer that compares what it receives. Distinct: contents of different kind and length."),
    "C29": dict(level="exploration", binaries=one("defaults", 20000, 400000),
        rule="Objects of every public type made on the stack, on the heap and in growing vectors, in memory filled with a random byte, and compared with the documented values; new specs validated, saved and loaded, and files that hold a random subset of the sections loaded and compared. Distinct: subsets and specs of different shape."),
    "C30": dict(level="exploration", binaries=one("effects", 16000, 400000, link=DL),
        rule="Calls of every function (files, streams, conforming, damaged, refused) in a folder with decoy files, between two snapshots of the process: folder, descriptors, global and caller's streams, locales, rounding, signals, umask, environment, threads, rand, handlers; what is printed and opened is recorded. Distinct: inputs and results."),
}

_TRUST = "Sampled, not exhaustive: assurance is that no violation occurred in the cases listed in the evidence. Trusts clang's sanitizers, libstdc++ and the monitor's own comparison code."
# technique, level_note
NOTES = {
    "C01": ("round-trip monitor over generated specs under ASan/UBSan, bitwise field comparison", _TRUST),
    "C02": ("round-trip monitor plus consistency monitor of the loaded spec under ASan/UBSan", _TRUST),
    "C03": ("round-trip monitor over generated data fields under ASan/UBSan", _TRUST),
    "C04": ("online checker: independent strict reader decodes every saved file", _TRUST + " The independent reader is written from the format documentation; string contents are restricted to characters the format gives no special meaning."),
    "C05": ("independent writer with random layout as oracle for load_msh, under ASan/UBSan", _TRUST + " The independent writer is written from the format documentation."),
    "C06": ("independent 2.2 writer and model as oracle for load_msh, under ASan/UBSan", _TRUST + " The independent writer is written from the format documentation."),
    "C07": ("metamorphic monitor: files with injected sections and stray text, two builds in one process", _TRUST),
    "C08": ("sanitizer (ASan/UBSan) monitor over hostile inputs, differential between four instrumented builds, leak, CPU and memory monitors", _TRUST),
    "C09": ("fault injection at every byte of a file, with an independent model of what may be returned", _TRUST),
    "C10": ("fault injection by interposed write, writev and fclose and failing stream buffers, with a completeness monitor", _TRUST + " A stream that accepts every byte and fails only at a later flush by the caller is outside the property."),
    "C11": ("sanitizer monitor over inconsistent specs with an independent rule oracle", _TRUST + " The gaps listed in known_findings.txt are not explored further."),
    "C12": ("independent rule oracle over valid and minimally invalid specs", _TRUST + " The gaps listed in known_findings.txt are not explored further."),
    "C13": ("direct monitor of both queries against the published table, under ASan/UBSan; thorough sweeps every int", "Quick is a sample with all ints near the table; the thorough tier is exhaustive over all 2^32 ints when it finishes. Trusts the monitor's transcription of the README's table."),
    "C14": ("monitor of refusals over systematically unsupported input, under ASan/UBSan", _TRUST),
    "C15": ("metamorphic monitor over ambient formatting state and locales", _TRUST),
    "C16": ("ThreadSanitizer over randomly delayed threads in fresh processes, interposed thread-unsafe functions, results compared with sequential ones", "Sampled schedules: assurance is that no race was observed in the interleavings listed in the evidence. libstdc++ itself is not instrumented."),
    "C17": ("trace monitor over random conversion chains, fixed-point check on bytes", _TRUST),
    "C18": ("round-trip monitor over two builds linked into one process, under ASan/UBSan", _TRUST),
    "C19": ("allocation monitor (counting operator new), metamorphic over renumbering", _TRUST),
    "C20": ("monitor of tags at the limits of each encoding", _TRUST),
    "C21": ("differential monitor over ways of delivering the same bytes", _TRUST),
    "C22": ("differential monitor: each call of a history against the same call in a fresh process, under ASan/UBSan", _TRUST),
    "C23": ("monitor of what the module registers with a recording stand-in for nanobind, under ASan/UBSan", _TRUST + " nanobind is not installed: the check trusts the stand-in's model of it (attribute and call semantics by value)."),
    "C24": ("output monitor and sanitizers over msh_inspect runs on conforming files", _TRUST + " The defects listed in known_findings.txt are not explored further."),
    "C25": ("independent writer that spreads the contents over repeated sections as oracle for load_msh, under ASan/UBSan", _TRUST + " The independent writer is written from the format documentation."),
    "C26": ("fault injection in operator new at each allocation, with leak, descriptor and result monitors, under ASan/UBSan", _TRUST + " Only operator new fails; what the C library allocates itself does not."),
    "C28": ("computed multi-gigabyte streams: every byte loaded and saved is compared with the one it must be", "Each kind of contents is long once or twice per run, not for every length. Lengths beyond about 9 GB, and more than 2^31 entries of 8 bytes, need more memory than the checks allow themselves."),
    "C29": ("monitor of new objects in pattern-filled memory, and of what absent sections leave, under ASan/UBSan", _TRUST),
    "C30": ("snapshots of the process and its folder around each call, recorded output and opened files, under ASan/UBSan", _TRUST + " Opened files are seen through open and fopen; system calls made in another way are not."),
    "C27": ("work monitor: instrumented edges, moved and allocated bytes and stream operations counted at two sizes, CPU limit at a third", _TRUST + " Work inside libstdc++ is seen only by the CPU limit."),
}
