"""Which harness files decide which property."""
_READ = ["pbt.cpp", "segy_read.cpp"]
_WRITE = ["pbt.cpp", "segy_write.cpp"]
_BOTH = ["pbt.cpp", "segy_read.cpp", "segy_write.cpp"]
_ROB = ["pbt.cpp", "segy_robust.cpp"]
_MISC = ["pbt.cpp", "misc.cpp"]
_SEGDR = ["pbt.cpp", "segd_read.cpp"]
_SEGDW = ["pbt.cpp", "segd_write.cpp"]
GROUPS = {
    "C01": _READ, "C02": _WRITE, "C03": _BOTH, "C04": _READ, "C05": _WRITE,
    "C06": _READ, "C07": _WRITE, "C08": _READ, "C09": _WRITE, "C10": _WRITE,
    "C11": _WRITE, "C12": _READ, "C13": _MISC, "C14": _MISC, "C15": _WRITE,
    "C16": _ROB, "C17": _WRITE, "C18": _READ, "C19": _READ, "C20": _SEGDR,
    "C21": _SEGDR, "C22": _SEGDR, "C23": _SEGDR, "C24": _SEGDR, "C25": _SEGDR,
    "C26": _SEGDW, "C27": _SEGDW, "C28": ["pbt.cpp", "segd_robust.cpp"],
    "C29": _SEGDW, "C30": _MISC, "C31": ["pbt.cpp", "files.cpp"],
    "C32": _MISC, "C33": ["pbt.cpp", "multi.cpp"],
    "C34": ["pbt.cpp", "binding.cpp", "@src/pybind/pybind.cpp"],  # @: of the repository
}
ASSUMPTIONS = [
    "the host is little endian with IEEE 754 doubles, as the library assumes",
    "the reference encoder and decoder in /verif/harness state the formats correctly",
    "library compiled with g++ -O1, AddressSanitizer, libstdc++ assertions and "
    "pattern-initialised stack and heap memory",
]

_T = "property-based testing, generation guided by coverage: "
NOTES = {  # technique, level note
    "C01": (_T + "generated files against a reference decoder", "all 13 formats, both byte orders, boundary-heavy sample bit patterns, fixed and variable length; sampled, not exhaustive"),
    "C02": (_T + "generated traces, produced bytes against a reference encoder", "three writers, 13 formats, both byte orders; IBM checked against an exact nearest-value model"),
    "C03": (_T + "generated binary headers, reading and writing against a byte-layout table", "all 44 fields take boundary and random values"),
    "C04": (_T + "generated header maps and header bytes against a reference decoder", "maps of up to three 240-byte headers, all value types"),
    "C05": (_T + "generated maps and header values, produced bytes against a reference encoder", "values held as integers and as floating point, missing keys, additional headers"),
    "C06": (_T + "generated text headers and stanzas against the file model", "counts given and -1, end-text blocks in all spellings"),
    "C07": (_T + "generated text vectors, produced bytes against the layout model", "three writers, default texts, wrong sizes"),
    "C08": (_T + "stateful, random call histories against a list-of-traces model", "histories of has_trace, read_header, read_trace"),
    "C09": (_T + "metamorphic, file to reader to writer to byte-identical file", "maps that cover every header byte"),
    "C10": (_T + "round trip writer to reader", "histories of traces, maps, formats, writers"),
    "C11": (_T + "generated first traces against a model of the derived binary header", "three writers, acceptable and unacceptable first traces"),
    "C12": (_T + "generated files against a grouping model; random key and index histories", "sorted reader, all value kinds as keys"),
    "C13": (_T + "generated strings; round trip and standard code page table", "all byte values, lengths and positions"),
    "C14": (_T + "generated values; round trips and a digit-wise model", "all widths and alignments"),
    "C15": (_T + "generated valid and broken maps against a validity predicate", "one-byte overlaps and overruns are frequent"),
    "C16": (_T + "structured mutation of well-formed files and random bytes under AddressSanitizer; truncation oracle", "crash, hang, memory and short-trace detection"),
    "C17": (_T + "stateful, histories of good and bad traces against a model of the resulting file", "three writers"),
    "C18": (_T + "metamorphic, same content in both byte orders", "readers and writers"),
    "C19": (_T + "metamorphic, damaged header with override against the intact file", "override and self-override"),
    "C20": (_T + "generated records against a reference encoder", "all fields of all general header blocks"),
    "C21": (_T + "generated records against a reference encoder", "both descriptor layouts"),
    "C22": (_T + "generated revision 3 records against a reference encoder", "all block kinds in random order and subsets"),
    "C23": (_T + "generated traces and extension maps against a reference decoder", "all value types"),
    "C24": (_T + "generated sample bytes against a reference decoder", "every format, exact expected values"),
    "C25": (_T + "stateful, generated multi-record files against a record list model", "call histories"),
    "C26": (_T + "generated headers, produced bytes against a reference encoder and read back", "escape values included"),
    "C27": (_T + "round trip writer to reader to writer", "all formats; byte-identical re-writing where values survive the de-scaling exactly"),
    "C28": (_T + "structured mutation of well-formed files and random bytes under AddressSanitizer", "crash, hang and memory errors"),
    "C29": (_T + "stateful, inconsistent headers and histories of good and bad traces", "refusal and intact file"),
    "C30": (_T + "stateful, random operation histories against a map model", "Trace, Trace::Header, Exception"),
    "C31": (_T + "generated file states and paths; before/after byte comparison", "missing, unreadable, short, read-only and full targets, all in a scratch directory"),
    "C32": (_T + "generated lookup sequences over every enumerator against a golden table", "the enumerator space is small and visited completely"),
    "C33": (_T + "random interleavings of several objects, differential against each object alone", "SEG-Y and SEG-D readers and writers, interleaved on one thread and in parallel on several"),
    "C34": (_T + "the binding executed through a stand-in for pybind11, differential against the C++ API", "all registered attributes, functions and defaults; pybind11's own run time is modelled, not executed"),
}
