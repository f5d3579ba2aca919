import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

T_SEGY="The existing tests write and read a handful of fixed files with one or two formats, the default header map and big-endian data; they sample a few points of this space."
T_SEGD="The existing tests read two or three fixed SEG-D sample headers; they never vary field values, revisions, formats or record structure."

p("C01","SEG-Y samples decode to exactly the stored values in every sample format",
 "For every SEG-Y file in a supported sample format (IBM float, IEEE single and double, signed and unsigned 8/16/24/32/64-bit integers) and either byte order, each trace read holds as many samples as the file stores for it and each sample equals the number its bytes denote (64-bit integers rounded to the nearest double). The number of samples is the extended count if it is non-zero, else the unsigned 16-bit count, or the trace's own SAMP_NUM in variable-length files. A binary header with an unsupported format code is refused with an exception when the file is opened.",
 ["inputs","configurations"],"all sample bit patterns x 13 formats x 2 byte orders x fixed/variable trace length x revisions",
 T_SEGY,["src/ISEGY.cpp","include/ISEGY.hpp","include/util.hpp"],
 [("sample decoding per format","src/ISEGY.cpp"),("trace length selection","src/ISEGY.cpp"),("byte swapping","include/util.hpp")],["ISEGY::read_trace","Trace::samples"])
p("C02","SEG-Y writers store each sample in the standard encoding of the format",
 "For all three SEG-Y writers, every supported sample format and both byte orders, a sample value representable in the format is stored as exactly the bytes the format prescribes, in order, right after the trace header(s). IBM floats are stored normalised and differ from the given value by at most one unit of the last hexadecimal-fraction bit. A fixed-length trace with fewer samples than the file's trace length is padded with zero samples.",
 ["inputs","configurations"],"all representable sample values x 13 formats x 2 byte orders x 3 writers x trace lengths",
 T_SEGY,["src/OSEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp","include/util.hpp"],
 [("sample encoding per format","src/OSEGY.cpp"),("IBM float encoding","src/OSEGY.cpp")],["bytes of the produced file"])
p("C03","SEG-Y binary header fields are read from and written to their offsets",
 "Every binary-header field is read from its standard offset, width and signedness in the byte order the file's endianness marker declares, the revision-2 tail fields only when the major revision is above 1 (zero otherwise), and an unknown endianness marker is refused with an exception. A writer given an explicit binary header stores exactly those field values at the same offsets (except that the counts of extended text headers and trailer stanzas become the numbers of texts actually given), with zeros in all unassigned bytes. The static binary-header reader and an opened reader report the same values.",
 ["inputs","configurations"],"all values of all 44 fields x revisions x byte orders",
 T_SEGY,["src/ISEGY.cpp","src/OSEGY.cpp","src/OSEGYRev2.cpp","include/CommonSEGY.hpp"],
 [("binary header parsing","src/ISEGY.cpp"),("binary header writing","src/OSEGY.cpp"),("endianness marker","src/ISEGY.cpp")],["ISEGY::binary_header","ISEGY::read_binary_header","bytes 3200-3599 of written files"])
p("C04","SEG-Y trace headers decode per the header map, whatever the map",
 "For every valid trace-header map (any names, any non-overlapping offsets, any of the 13 value types, several 240-byte headers), reading a trace header yields exactly the mapped keys, each with the value its bytes denote in the file's byte order, integral for integer types (as 64-bit signed numbers, so unsigned 64-bit values from 2^63 up are outside the guarantee) and floating for float types. The default map assigns each standard field its standard offset and type. Additional 240-byte headers declared by the file are decoded by the corresponding further maps (a later map wins for a repeated key) and skipped if there is no map for them. read_header and read_trace yield the same header for the same trace.",
 ["inputs","configurations"],"all header maps x all header bytes x byte orders x numbers of additional headers",
 T_SEGY,["src/ISEGY.cpp","src/CommonSEGY.cpp"],
 [("header decoding","src/ISEGY.cpp"),("default map","src/CommonSEGY.cpp")],["ISEGY::read_header","ISEGY::read_trace"])
p("C05","SEG-Y trace headers are written per the header map",
 "For every valid header map, a written trace stores each mapped key's value at its offset in its type and byte order, whether the value is held as integer or floating point, with zero for keys the trace lacks and zero in every unmapped byte. When the binary header of a revision-2 file declares N additional trace headers, exactly N+1 240-byte headers precede the samples of every trace, each additional one carrying the fields of its own map.",
 ["inputs","configurations"],"all header maps x value kinds x missing keys x byte orders x additional header counts",
 T_SEGY,["src/OSEGY.cpp","src/OSEGYRev2.cpp"],
 [("header encoding","src/OSEGY.cpp"),("additional headers","src/OSEGY.cpp")],["bytes of the produced file"])
p("C06","SEG-Y text headers and trailer stanzas are read completely and in order",
 "Opening a SEG-Y file yields the text header, then every extended text header (a given count, or up to and including the end-text block when the count is -1), byte for byte and in order, with the traces read correctly after them. Every trailer stanza (a given count, or all up to and including the end-text block when the count is -1) is returned in order and never mistaken for trace data.",
 ["inputs","configurations"],"all text contents x counts incl. -1 x fixed/variable traces x byte orders",
 T_SEGY,["src/ISEGY.cpp"],[("extended text headers","src/ISEGY.cpp"),("trailer stanzas","src/ISEGY.cpp")],["ISEGY::text_headers","ISEGY::trailer_stanzas"])
p("C07","SEG-Y writers lay out text headers, extended headers and stanzas correctly",
 "A writer stores the given 3200-byte text headers (and, for revision 2, trailer stanzas after the last trace) verbatim and in order, and the binary header's counts of extended headers and stanzas agree with what is in the file. With no text given it stores a 3200-byte standard default header identifying its revision. A text header or stanza that is not 3200 bytes long, or more extended text headers than their 16-bit count can hold, is refused with an exception.",
 ["inputs","configurations"],"all text vectors (0..n headers, 0..n stanzas, wrong sizes) x three writers x trace counts",
 T_SEGY,["src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],[("constructor layout","src/OSEGYRev1.cpp"),("stanza writing","src/OSEGYRev2.cpp")],["bytes of the produced file"])
p("C08","Any interleaving of has_trace, read_header and read_trace visits traces once",
 "For every sequence of has_trace, read_header and read_trace calls on a well-formed SEG-Y file, the n-th reading call delivers the header (and samples) of the n-th trace in the file whichever of the two reading calls were used before, has_trace has no side effect and is true exactly while unread traces remain, and the first trace is found at the position the headers (including a first-trace byte offset) determine.",
 ["histories","inputs"],"all call sequences x fixed/variable length x formats x additional headers x offsets",
 T_SEGY,["src/ISEGY.cpp"],[("position tracking","src/ISEGY.cpp")],["ISEGY::has_trace","ISEGY::read_header","ISEGY::read_trace"])
p("C09","Copying a SEG-Y file through reader and writer reproduces it byte for byte",
 "Reading a well-formed revision 0, 1 or 2 SEG-Y file and writing everything read (text headers, binary header, traces, trailer stanzas) with the writer of the same revision and a header map covering every header byte yields a byte-identical file, for every exactly representable format, either byte order, fixed or variable length and any number of extended headers and stanzas stated by explicit counts.",
 ["inputs","configurations"],"all well-formed files x revision x format x byte order",
 T_SEGY,["src/ISEGY.cpp","src/OSEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],[("reader","src/ISEGY.cpp"),("writer","src/OSEGY.cpp")],["bytes of both files"])
p("C10","Everything written to a SEG-Y file is read back unchanged",
 "For every sequence of traces written by any of the three writers with an explicit binary header, a reader opened on the finished file (with the same map) reports the same binary header, text headers and stanzas, delivers exactly the written number of traces in writing order, with equal mapped header values and equal samples (to the precision of the format), and then reports no more traces.",
 ["histories","inputs","configurations"],"all trace sequences x writers x formats x maps x byte orders",
 T_SEGY,["src/ISEGY.cpp","src/OSEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],[("reader","src/ISEGY.cpp"),("writer","src/OSEGY.cpp")],["ISEGY on the writer's file"])
p("C11","Writers given no binary header produce a self-describing file or refuse",
 "When no binary header is given, a writer takes the sample count and interval from the first trace's header and stores them together with its default format (IBM for revision 0, IEEE single for 1 and 2) and its own revision, so that a reader with default settings recovers all traces of the file. It refuses with an exception a first trace whose header lacks the count or interval or whose values cannot be stored in the binary header (a count outside 0..32767; an interval outside the signed 16-bit range, or below one in magnitude so that it would be stored as zero).",
 ["inputs","histories"],"all first-trace headers and trace sequences x three writers",
 T_SEGY,["src/OSEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],[("default binary header","src/OSEGY.cpp")],["bytes 3200-3599","ISEGY on the writer's file"])
p("C12","The sorted reader returns exactly the traces with the requested key value",
 "For every file and header name, the sorted reader's key list is the set of distinct values of that header in the file, and asking for a value returns the headers or traces carrying that value in file order, at most the requested maximum, equal to what sequential reading yields, and an empty list for an absent value. Queries in any order and repetition do not affect each other or sequential reading, and a header name absent from the traces is refused with an exception.",
 ["inputs","histories"],"all key distributions x query sequences x fixed/variable length x integer and float keys",
 T_SEGY,["src/ISEGYSorted1D.cpp"],[("index building and lookup","src/ISEGYSorted1D.cpp")],["ISEGYSorted1D::get_keys","get_headers","get_traces"])
p("C13","EBCDIC/ASCII conversion is length-preserving and loses no text",
 "Converting any byte string from ASCII (ISO 8859-1) to EBCDIC and back, or from EBCDIC to ASCII and back, returns the original. Conversion acts on each byte independently of its position and neighbours, preserves the length, and agrees with IBM code page 037. The revision 0 writer's text header converted from EBCDIC is readable ASCII text.",
 ["inputs"],"all byte strings of any length",
 "The existing test converts one header.",["src/CommonSEGY.cpp"],[("conversion tables","src/CommonSEGY.cpp")],["CommonSEGY::ebcdic_to_ascii","CommonSEGY::ascii_to_ebcdic"])
p("C14","BCD and byte-order primitives are exact inverses over their whole range",
 "For every digit count up to 12, either nibble alignment and every value that fits, decoding the BCD encoding of the value returns it; fields written one after another, also sharing a byte, leave each other's digits intact, and both directions advance by exactly the whole bytes used. Reading a number written with the byte primitives returns it for every arithmetic type, its bytes are in little-endian order, nothing beside them is touched, and byte swapping is an involution that reverses the bytes.",
 ["inputs"],"all values x digit counts x alignments x types",
 "The existing tests check a few constants.",["include/util.hpp"],[("from_bcd/to_bcd","include/util.hpp"),("read/write/swap","include/util.hpp")],["util.hpp functions"])
p("C15","Header maps are validated: overlapping or out-of-range fields are refused",
 "Every SEG-Y writer accepts a header map if and only if each map's name is eight characters long, every field lies inside the 240-byte header, no two fields overlap and, for a revision 2 header declaring additional trace headers, the number of maps matches that count; otherwise construction throws. A refused map never leads to a write outside the header.",
 ["inputs","configurations"],"all maps (valid, touching, overlapping by one byte, out of range by one byte, huge offsets)",
 T_SEGY,["src/OSEGY.cpp"],[("map validation","src/OSEGY.cpp")],["writer constructors"])
p("C16","Malformed SEG-Y input never crashes, hangs or corrupts memory",
 "For every byte string presented as a SEG-Y file (truncated, corrupted or random), opening it and reading traces until has_trace is false or an exception is thrown terminates, throws only standard exceptions, and never accesses memory out of bounds. read_trace never delivers a trace whose bytes are not all present in the file.",
 ["inputs","fault_sequences"],"all byte strings; all truncation points and corruptions of well-formed files",
 T_SEGY,["src/ISEGY.cpp","src/ISEGYSorted1D.cpp"],[("reader","src/ISEGY.cpp")],["ISEGY under sanitizers"])
p("C17","Misusing a SEG-Y writer is refused and leaves written traces intact",
 "A trace that does not fit the file (more samples than the fixed trace length, or, in a variable-length file, a SAMP_NUM that is missing, negative, not storable in its header field or smaller than the number of samples) is refused with an exception instead of producing a corrupt file. After a refusal the traces accepted before and after it are all read back intact and in order.",
 ["inputs","histories"],"all histories of acceptable and unacceptable traces x writers x formats",
 T_SEGY,["src/OSEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],[("sample writing","src/OSEGY.cpp")],["writer exceptions","ISEGY on the file"])
p("C18","A SEG-Y file's byte order does not change what is read or written",
 "A little-endian and a big-endian file with the same logical content are read as equal binary headers (endianness marker aside), texts, trace headers, samples and stanzas, and writing the same content with either marker yields files that read back equal. Converting a file big to little to big endian through reader and writer reproduces it.",
 ["inputs","configurations"],"all logical contents x formats x revisions x maps",
 T_SEGY,["src/ISEGY.cpp","src/OSEGY.cpp","include/util.hpp"],[("byte-order dispatch","src/ISEGY.cpp"),("byte-order dispatch","src/OSEGY.cpp")],["ISEGY results"])
p("C19","An overriding binary header replaces the file's own for reading",
 "Opening a file with an explicit binary header reads text, traces and stanzas as that header's values dictate (format, trace length, counts, offsets), while the byte order is still taken from the file, so that a file with a damaged binary header opened with the correct one yields the original traces. Overriding with the values obtained from the static binary-header reader gives the same results as opening without override.",
 ["inputs","configurations"],"all files x header overrides",
 T_SEGY,["src/ISEGY.cpp"],[("override constructor","src/ISEGY.cpp")],["ISEGY with override"])
p("C20","SEG-D general headers decode every field per the standard (rev 0-2.1)",
 "For every SEG-D record of revision below 3, general header 1, general header 2 and each further general header block are decoded to exactly the values their BCD, nibble and binary fields denote, including the all-ones escape values (extended file number, channel set, extended and external header counts) that refer to general header 2, and signed fractional line and point numbers.",
 ["inputs"],"all field values of all blocks x number of blocks",
 T_SEGD,["src/ISEGD.cpp","src/CommonSEGD.cpp","include/util.hpp"],[("general header parsing","src/ISEGD.cpp")],["ISEGD::general_header","general_header2","general_headerN"])
p("C21","SEG-D channel set descriptors decode every field, for every scan type",
 "Every channel set descriptor of every scan type is decoded field by field per its revision's layout (32-byte before revision 3, 96-byte from it), signed de-scale exponents included, and returned grouped by scan type in file order with none missing or duplicated. The channel set count escapes to general header 2 above 99 and skew blocks after each scan type are skipped.",
 ["inputs","configurations"],"all field values x numbers of scan types and channel sets x revisions",
 T_SEGD,["src/ISEGD.cpp","src/CommonSEGD.cpp","include/CommonSEGD.hpp"],[("channel set parsing","src/ISEGD.cpp")],["ISEGD::channel_set_headers"])
p("C22","SEG-D revision 3 header blocks decode to their documented fields",
 "For every revision 3 record, general headers 2 and 3 and every additional block (vessel, survey, client, job, line, source types, sensor, calibration, drift, position, coordinate reference, relative position, orientation, measurement and the others the library knows) are decoded field by field at their documented offsets, in whatever order and combination the blocks occur. A block kind that is absent from the record is reported absent.",
 ["inputs","configurations"],"all field values x all subsets and orders of block kinds",
 T_SEGD,["src/ISEGD.cpp","src/CommonSEGD.cpp","include/CommonSEGD.hpp"],[("revision 3 block parsing","src/ISEGD.cpp")],["ISEGD getters"])
p("C23","SEG-D trace headers and extensions decode to their stored values",
 "Every trace read carries the values of its 20-byte trace header and of all its 32-byte extension blocks: the standard fields, extended numbers overriding the basic ones when present, fractional line and point numbers, and manufacturer extension fields according to the given extension maps, integral or floating by type. Extension blocks without a map are skipped without disturbing the samples, and the built-in extension maps for Sercel recorders place every field where the manufacturer documents it.",
 ["inputs","configurations"],"all header bytes x numbers of extension blocks x extension maps x revisions",
 T_SEGD,["src/ISEGD.cpp"],[("trace header parsing","src/ISEGD.cpp"),("extension maps","src/ISEGD.cpp")],["ISEGD::read_trace"])
p("C24","SEG-D samples decode to the stored values scaled by the de-scale factor",
 "For every supported sample format and every channel set de-scale exponent, each sample of each trace equals the number its bytes denote times two to that exponent, and the trace holds exactly the number of samples its header states (in revision 3, that of its channel set when it has no extension block). A record with an unsupported format code is refused with an exception.",
 ["inputs","configurations"],"all sample bytes x formats x de-scale exponents x sample counts",
 T_SEGD,["src/ISEGD.cpp","src/CommonSEGD.cpp"],[("sample decoding","src/ISEGD.cpp"),("format dispatch","src/CommonSEGD.cpp")],["ISEGD::read_trace"])
p("C25","SEG-D records and traces are visited once, in order, across all records",
 "For every file of one or more SEG-D records (any scan types, channel sets, extended and external headers, skew and trailer blocks), has_trace stays true until every channel of every channel set of the current record has been read and the traces come in file order. The next record's own headers are then reported and its traces read, no state of the previous record surviving, until has_record is false at the end of the file; extended and external header blocks are returned verbatim, and reading past the last trace is refused with an exception.",
 ["inputs","histories","configurations"],"all record structures x number of records x call histories",
 T_SEGD,["src/ISEGD.cpp","src/CommonSEGD.cpp"],[("record iteration","src/ISEGD.cpp")],["ISEGD::has_record","has_trace","read_trace","extended_headers","external_headers"])
p("C26","The SEG-D writer stores every header field per the standard",
 "For every set of general headers, channel sets, additional general header blocks, extended and external headers within the format's ranges, the revision 2.1 writer produces exactly the standard's bytes for each field (trace headers and their extension blocks included), using the escape values where a count or number exceeds its basic field, and the library's reader returns the same field values.",
 ["inputs","configurations"],"all in-range field values x block counts",
 T_SEGD,["src/OSEGD.cpp","src/OSEGDRev2_1.cpp"],[("header writing","src/OSEGD.cpp")],["bytes of the produced file","ISEGD on the file"])
p("C27","SEG-D traces written are read back with equal headers and samples",
 "For every sequence of traces written by the SEG-D writer in any sample format the library supports, also when several written records are concatenated, reading the file yields the same number of traces in order with equal header and extension values (those that fit their fields) and samples equal to the format's precision (samples beyond the range of a packed format are clipped to its largest magnitude), and re-writing what was read reproduces the file byte for byte (in formats whose values survive the de-scaling exactly).",
 ["inputs","histories","configurations"],"all trace sequences x formats x de-scale exponents x extension maps",
 T_SEGD,["src/OSEGD.cpp","src/OSEGDRev2_1.cpp","src/ISEGD.cpp"],[("trace writing","src/OSEGD.cpp"),("sample encoding","src/OSEGD.cpp")],["ISEGD on the writer's file"])
p("C28","Malformed SEG-D input never crashes, hangs or corrupts memory",
 "For every byte string presented as a SEG-D file (truncated, corrupted or random, any declared revision), opening it and reading records and traces until done or an exception is thrown terminates, throws only standard exceptions, and never accesses memory out of bounds. A truncated file delivers only complete traces, each equal to the one in the intact file.",
 ["inputs","fault_sequences"],"all byte strings; all truncations and corruptions of well-formed files",
 T_SEGD,["src/ISEGD.cpp","src/CommonSEGD.cpp"],[("reader","src/ISEGD.cpp")],["ISEGD under sanitizers"])
p("C29","Misusing the SEG-D writer is refused, not turned into a corrupt file",
 "A SEG-D writer given inconsistent headers (an unsupported format, fewer extended or external header blocks than declared, channel sets or additional general headers not matching the declared counts) or a trace that does not fit the record (a scan type or channel set that does not exist, more samples than declared) throws an exception and never accesses memory out of bounds; traces accepted before and after a refusal are read back intact.",
 ["inputs","histories"],"all inconsistent header sets and trace histories",
 T_SEGD,["src/OSEGD.cpp","src/OSEGDRev2_1.cpp","src/CommonSEGD.cpp"],[("writer validation","src/OSEGD.cpp")],["writer exceptions","ISEGD on the file"])
p("C30","Traces, headers and exceptions behave as plain values",
 "For every history of set, get, copy, move and assignment, a trace header returns the last value set for a key with its kind, nothing for an unset key, and its key list is exactly the set of keys present; copies are independent of their originals. Exceptions copied, assigned, thrown by value or rethrown keep their message.",
 ["histories"],"all operation sequences",
 "Existing tests only build a trace once.",["src/Trace.cpp","src/Exception.cpp","include/Trace.hpp"],[("value semantics","src/Trace.cpp"),("exception copying","src/Exception.cpp")],["Trace","Trace::Header","Exception"])
p("C31","Opening what cannot be read or written is reported, and reading changes nothing",
 "Opening a missing, unreadable or too short file for reading, or a path that cannot be created for writing, throws a standard exception. No reading operation, successful or failing, changes the input file's bytes, and a writer replaces any previous content of its target so that the result does not depend on what was there before. Storage that refuses further data during writing or closing never terminates the program.",
 ["inputs","fault_sequences"],"all paths/file states x reader and writer classes x histories",
 T_SEGY,["src/CommonSEGY.cpp","src/CommonSEGD.cpp","src/ISEGY.cpp","src/ISEGD.cpp"],[("file opening","src/CommonSEGY.cpp"),("file opening","src/CommonSEGD.cpp")],["constructors"])
p("C32","Field-name tables match the fields they name, for every enumerator",
 "For every header class and every enumerator of its name list, the name lookup returns a non-empty text that describes that very field, the texts of one class are distinct, and no lookup reads outside its table. The default trace-header map is itself a valid map whose keys all have a description.",
 ["inputs"],"all classes x all enumerators",
 "No existing test looks at any of the tables beyond single entries.",["src/CommonSEGD.cpp","src/CommonSEGY.cpp","include/CommonSEGD.hpp","include/CommonSEGY.hpp"],[("name tables","src/CommonSEGD.cpp"),("name tables","src/CommonSEGY.cpp")],["name_as_string","trace_header_description"])
p("C33","Readers and writers open at the same time do not influence each other",
 "For every interleaving of operations on any number of simultaneously open readers and writers (SEG-Y and SEG-D, same or different files, different formats, maps and byte orders), on one thread or each on its own thread, each object's results are identical to those it gives when used alone.",
 ["histories","schedules"],"all interleavings of operations on several objects",
 "Existing tests use one object at a time.",["src/ISEGY.cpp","src/ISEGD.cpp","src/OSEGY.cpp","src/OSEGD.cpp"],[("static and shared state","src/ISEGD.cpp")],["all reader and writer classes"])
p("C34","The Python binding exposes the library's values unchanged",
 "Every field of every header class is reachable from Python under its own name, reading it gives the stored value and assigning it changes that field and no other; every constructor, method, constant and iterator exposed to Python gives, for every input, file and call sequence, with arguments given by position, by name or left to their defaults, the results, the written bytes and the failures of the C++ API of the same name.",
 ["inputs","histories"],"all attributes x values, and all call histories on all files, of the objects the module exposes",
 "The binding has no tests and is not even compiled by the test build.",["src/pybind/pybind.cpp"],[("class, field and function registrations","src/pybind/pybind.cpp"),("text attributes","src/pybind/pybind.cpp"),("iteration protocol","src/pybind/pybind.cpp")],["pysedaman module"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
