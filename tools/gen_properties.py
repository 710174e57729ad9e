#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the prose is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
CONV = "lib/src/Converter.cpp"; CONVH = "lib/include/VFC/Converter.h"
VAL = "lib/src/VertexValue.cpp"; FMT = "lib/src/VertexFormat.cpp"; FMTH = "lib/include/VFC/VertexFormat.h"
IDX = "lib/include/VFC/IndexData.h"; MAIN = "tool/main.cpp"; CFG = "tool/ConfigFile.cpp"
RES = "tool/ResultFile.cpp"; PATH = "tool/Path.cpp"; B64 = "tool/Base64.cpp"; HF = "lib/src/HalfFloat.h"

p("C01", "Converted vertices hold the right value for every position, in input order",
  "For point, line, triangle and patch lists, and for every conversion without output indices, reading the output "
  "buffers in order (each index plus its buffer's base vertex) yields exactly one vertex per input position, in input "
  "order. Each such vertex holds, for every element of every output vertex stream, the value the input stream with that "
  "element name supplies at that position (through that stream's own indices, if any), converted to the output layout and "
  "type at the output offset. Input elements that the output format doesn't name are ignored.",
  ["inputs", "configurations"],
  "every combination of list primitive, output index type, maximum index value, output streams/elements, input streams "
  "with their own (or no) indices of either width, and every index sequence up to a bound, plus sizes around 2^8 and 2^16",
  "ConverterTest checks about two dozen fixed meshes of at most 12 positions; whether content and order survive depends on "
  "which earlier vertices are equal and where buffers split, i.e. on the whole index history.",
  [CONV, CONVH, FMT, VAL], [("combined vertex assembly loop", CONV + ":convert"), ("element matching by name", CONV + ":addVertexStream"),
   ("vertex append and dedup", CONV + ":addVertex")],
  [("m_vertices", "output vertex streams", CONVH), ("m_indexData", "index buffers", CONVH), ("m_elementMapping", "output element to input stream", CONVH)],
  ["Converter::getVertices", "Converter::getIndices"])

p("C02", "Strips and fans keep their primitives across restarts and buffer splits",
  "For line strips, triangle strips and triangle fans, with any placement of primitive restarts, any maximum index value and "
  "any repeated or identical vertices, decoding the output index buffers one after another yields the same sequence of "
  "primitives as decoding the input: the same corner values in the same order, with the same winding. No primitive is "
  "lost, duplicated, invented or joined across a restart when index buffers are split.",
  ["inputs", "configurations"],
  "every index sequence with restarts up to a length bound for the three strip/fan primitives, every small maximum index "
  "value, both output index widths, one or several input streams, all vertex-equality patterns, and sizes around 2^8 and 2^16",
  "The tests cover a single split of one strip and one fan with distinct vertices; correctness depends on the parity and "
  "restart distance at each split and on coincident vertices, an exponential set of histories.",
  [CONV], [("copy of connecting vertices on split", CONV + ":copyConnectedVertices"), ("restart detection", CONV + ":isPrimitiveRestart"),
   ("split decision", CONV + ":convert")],
  [("lastRestartIndex", "start of the current strip/fan", CONV + ":convert"), ("prevIndexCount", "trimmed count of the closed buffer", CONV + ":copyConnectedVertices")],
  ["Converter::getIndices", "Converter::getVertices"])

p("C03", "Index buffers are always drawable: in range, partitioned, readable",
  "After a successful conversion with indices, every entry of every index buffer is either a vertex index no greater than the "
  "maximum index value, or (strips and fans only) the output type's restart value, and a vertex index is never equal to "
  "the restart value for strips and fans. Index plus base vertex always addresses an existing output vertex inside that "
  "buffer's own range, buffers have the requested type, start at base vertex 0, have non-decreasing base vertices and "
  "data pointers with count readable entries, and hold whole primitives for list types. All output vertex streams have the "
  "same vertex count; without output indices there are no index buffers.",
  ["inputs", "configurations"],
  "every primitive type, patch size, output index type, maximum index value (including the type's limits) and index sequence "
  "up to a bound, and vertex counts around 2^16",
  "The tests check literal buffers for a handful of meshes and never approach the 16-bit limits; range violations appear only "
  "for particular combinations of unique-vertex count, split point and limit.",
  [CONV, CONVH, IDX], [("split decision", CONV + ":convert"), ("index limits", IDX)],
  [("m_indices", "backing store for index buffers", CONVH), ("m_maxIndexValue", "limit", CONVH)],
  ["Converter::getIndices", "Converter::getVertexCount"])

p("C04", "Identical vertices share an index within a buffer, distinct ones never do",
  "When indices are output, two positions in the same index buffer use the same index if and only if their converted vertices are "
  "byte-for-byte identical across all output streams. A vertex that no input position needs is never stored, and a "
  "new index buffer is only started when the next primitive might not fit under the maximum index value (never while a "
  "primitive of entirely new vertices would still fit).",
  ["inputs", "configurations"],
  "every vertex-equality pattern up to a bound over one or more output streams with strides 1..80 bytes, where vertices "
  "differ in any single byte position, every primitive type and small maximum index value",
  "Tests use a few meshes with one or two duplicates and short strides; hash tails, multi-stream comparison and set clearing "
  "on splits depend on stride and history.",
  [CONV], [("vertex hash and equality", CONV + ":VertexHash, VertexRef"), ("set insertion", CONV + ":addVertex"), ("set reset on split", CONV + ":convert")],
  [("vertexSet", "vertices of the current buffer", CONV + ":convert")], ["Converter::getIndices", "Converter::getVertices"])

p("C05", "Reported element bounds are the exact minimum and maximum of the used values",
  "After a successful conversion the bounds reported for an output element (by position or by name) are, per component, exactly the "
  "minimum and maximum of the finite decoded input values of that element over all positions that are drawn, before any "
  "transform. Values that no index refers to, primitive restarts, other elements and other components don't contribute, nor does what becomes of the input arrays after the conversion.",
  ["inputs", "configurations"],
  "every interleaving of 1..4 elements with any offset in an input stream, every value pattern from an alphabet covering signs, zero and "
  "extremes, every index sequence with restarts and unused vertices up to a bound",
  "Tests query bounds for a couple of literal meshes whose element sits first in its stream; the result depends on offset, use and order.",
  [CONV, CONVH, "lib/include/VFC/VertexValue.h"], [("bounds gathering pass", CONV + ":convert"), ("expandBounds", "lib/include/VFC/VertexValue.h"),
   ("initial bounds", VAL)], [("minVal/maxVal", "per element bounds", CONVH)], ["Converter::getVertexElementBounds"])

p("C06", "Bounds-normalized output reconstructs the original values",
  "With the Bounds transform and a normalized output type, interpolating between the element's reported minimum and maximum with "
  "the decoded output ([0, 1] for UNorm, [-1, 1] for SNorm) gives back each input value to within half a quantization step of "
  "that range; the minimum and maximum map to the ends of the range. Components with no range reconstruct exactly (a range that overflows double precision isn't covered), and for "
  "other output types the transform changes nothing.",
  ["inputs", "configurations"],
  "every normalized output layout, every small set of input values per component from an alphabet of signs, magnitudes and equal values, "
  "with the element anywhere in an interleaved stream",
  "Tests check the two end points of one 8-bit and a few literal vertices.",
  [CONV, VAL], [("bounded toData", VAL + ":toData(bounds)"), ("transform switch", CONV + ":convert")],
  [("minVal/maxVal", "per element bounds", CONVH)], ["Converter::getVertices", "Converter::getVertexElementBounds"])

p("C07", "A transform affects exactly the element it was set for",
  "UNormToSNorm outputs 2v-1 and SNormToUNorm outputs v/2+1/2 of the input value, Identity outputs it as is, and each element of "
  "the output uses the transform last set for it by name or by position (Identity if none). Setting a transform reports "
  "whether the element exists, is readable back for that element only, and changes neither any other element's output nor any bounds.",
  ["histories", "inputs"],
  "every sequence of transform settings up to a bound over every element of 1..3 output streams, by name and by position, including "
  "unknown names, before and between adding streams",
  "Tests set one transform per case on a single element.",
  [CONV, CONVH], [("transform lookup", CONV + ":setElementTransform"), ("transform switch", CONV + ":convert")],
  [("transform", "per element", CONVH)], ["Converter::getElementTransform", "Converter::getVertices"])

p("C08", "Invalid input is rejected with a diagnostic and never read out of bounds",
  "Construction, adding streams and converting succeed exactly when the documented requirements hold: non-empty output formats, "
  "a valid primitive type, patch points for patches, a maximum index value that fits the index type and one primitive, non-null data, "
  "equal and primitive-compatible counts in all streams, each output element supplied by exactly one stream, every index in range, and "
  "restarts only with output indices and strip/fan types. Every failure reports at least one non-empty error through the error "
  "function and success reports none, and in no case is memory outside the supplied arrays read or is the process aborted.",
  ["inputs", "configurations", "histories"],
  "every argument combination over an alphabet with each requirement violated singly and in pairs, every index value position out of range by "
  "one, at the limits or at either width's restart value, with exact-size guarded arrays",
  "Tests try each error once in isolation with a valid remainder, without memory checking.",
  [CONV, FMT, IDX], [("constructor validation", CONV + ":Converter"), ("stream validation", CONV + ":addVertexStream"), ("index range check", CONV + ":convert")],
  [("m_indexCount", "agreed count", CONVH)], ["return values", "ErrorFunction calls", "memory accesses"])

p("C09", "A converter behaves as a one-shot state machine over any call history",
  "For every sequence of calls, a call that fails leaves the converter able to continue exactly as if it had not been made, and the "
  "final result depends only on the successful calls and, for data corrected after a conversion that failed, on the data at the conversion that succeeds. Conversion succeeds at most once; before it there is no output and after it "
  "the output never changes. An invalid converter rejects everything, and moving a converter (by construction or "
  "assignment) at any point carries its whole state and results over.",
  ["histories"],
  "every sequence up to a depth of adding good, duplicate, mismatched, irrelevant and empty streams, setting transforms, querying, "
  "converting and moving, for valid and invalid converters",
  "Tests exercise only construct, add, convert, with at most one failing call.",
  [CONV, CONVH], [("single conversion guard", CONV + ":convert"), ("defaulted moves", CONVH), ("element references kept across stream growth", CONV + ":addVertexStream")],
  [("m_vertexStreams", "accepted streams", CONVH), ("m_elementMapping", "pointers into accepted formats", CONVH), ("m_vertices", "conversion marker", CONVH)],
  ["all public Converter members"])

p("C10", "The result doesn't depend on how the input is laid out",
  "Supplying the same values per position through differently arranged inputs (interleaved or one stream per element, any stream order and "
  "element order, extra unused elements, unused or permuted vertices behind the indices, 16-bit, 32-bit or no indices) gives "
  "identical output vertices, indices and bounds. Likewise splitting the output over several vertex streams only redistributes the "
  "same elements: indices and each element's bytes are unchanged.",
  ["configurations", "inputs"],
  "every arrangement from the listed choices for up to 3 elements and every small mesh, compared pairwise with a canonical arrangement",
  "No test compares two arrangements of one mesh.",
  [CONV, FMT], [("element mapping", CONV + ":addVertexStream"), ("strided reads", CONV + ":convert")], [("m_elementMapping", "mapping", CONVH)],
  ["Converter::getVertices", "Converter::getIndices", "Converter::getVertexElementBounds"])

p("C11", "Distinct converters are independent, also across threads",
  "Any number of converters (and vertex values and formats) used at the same time, interleaved call by call on one thread or running on "
  "several threads with any schedule, each produce exactly what they would produce alone. No call on one object has an effect "
  "observable through another.",
  ["schedules", "histories"],
  "every interleaving of the calls of 2 converters on one thread, and every schedule of 2 threads each converting, with scheduling points at "
  "all accesses to memory shared between the threads, up to a preemption bound",
  "All tests are single threaded and use one converter at a time.",
  [CONV, VAL, FMT, "lib/src/HalfFloat.cpp"], [("no mutable static state", "lib/src"), ("constant name tables", FMT)],
  [("static tables", "name maps and half float capability", FMT)], ["outputs of each thread"])

p("V01", "Decoding then encoding any stored element gives back the same bytes",
  "For every valid integer, normalized, packed and float layout/type, decoding any stored bit pattern that denotes a finite value and encoding it "
  "back in the same format reproduces a pattern denoting the same value (identical bytes wherever the pattern is unique), "
  "except for 64-bit integers that no double holds. Decoding yields the documented value: integers as is, UNorm spanning [0, 1] and "
  "SNorm spanning [-1, 1] in equal steps, IEEE values for floats, with missing components 0, 0, 0, 1.",
  ["inputs"],
  "all 2^8, 2^10, 2^2 and 2^16 codes of every component of every such layout/type, all codes of the packed float components, and for 32- and "
  "64-bit components all boundary and single-bit-run patterns (all 2^32 for 32-bit in the thorough tier)",
  "Tests decode one literal value per format.",
  [VAL, HF], [("fromData", VAL), ("toData", VAL)], [("m_values", "decoded components", "lib/include/VFC/VertexValue.h")],
  ["VertexValue::fromData", "VertexValue::toData"])

p("V02", "Encoding picks the nearest representable value and saturates",
  "Encoding a finite value in any valid integer, normalized or float layout stores the representable value nearest to it (either neighbour on ties; "
  "halves are rounded from the single-precision value; float and half results may be infinite beyond the format's largest value), and values outside the format's range "
  "store its smallest or largest value. Encoding is therefore monotone, "
  "and never wraps.",
  ["inputs"],
  "every code, every midpoint between adjacent codes and its neighbouring doubles for each 2-, 8-, 10- and 16-bit component, and saturation and "
  "boundary values of every component of every layout, including 64-bit limits",
  "Tests encode a few in-range literals.",
  [VAL, HF], [("packUNorm/packSNorm/packInteger", VAL), ("half float packing", VAL)], [("m_values", "values to encode", "lib/include/VFC/VertexValue.h")],
  ["VertexValue::toData"])

p("V03", "Half floats are identical with and without hardware support",
  "For every 16-bit pattern decoding gives the IEEE binary16 value on both the hardware and the software path, and for every value encoding gives "
  "the half nearest to its single-precision value (the two paths may only differ on exact ties and NaN payloads). The number of components in the layout doesn't "
  "change any component's result.",
  ["inputs", "configurations"],
  "all 65536 half patterns and all midpoints with their neighbouring floats, for 1..4 components, on both paths (and all 2^32 floats in the thorough tier)",
  "Tests run a few literals on whichever path the machine supports.",
  [VAL, HF, "lib/src/HalfFloat.cpp"], [("path selection", VAL + ":packHalfFloatValues"), ("hardware conversion", HF)],
  [("hasHardwareHalfFloat", "path selector", HF)], ["VertexValue::fromData", "VertexValue::toData"])

p("V04", "Packed unsigned floats decode to the standard value and encode without wrapping",
  "Every 11-, 11-, 10-bit and shared-exponent 9-9-9-5 pattern decodes each component to the value defined for that standard packed format, "
  "independently of the other components' bits. Encoding any value stores negatives as 0, saturates at the largest finite value, and otherwise "
  "errs by at most one step of the format (half a step for the shared-exponent format) at that magnitude, with no exponent wrap-around.",
  ["inputs"],
  "all component codes crossed with extreme neighbours, all midpoints, and magnitudes from 2^-40 to 2^40, for all three components",
  "Tests use one triple of exactly representable values.",
  [VAL], [("packed float paths", VAL)], [("m_values", "components", "lib/include/VFC/VertexValue.h")], ["VertexValue::fromData", "VertexValue::toData"])

p("V05", "Encoding and decoding touch exactly the element's bytes and components",
  "For every layout/type, decoding reads and encoding writes exactly the element's size in bytes at any alignment; each component "
  "depends only on its own field, fields sit in the documented order, and components that the layout lacks are ignored on encode. "
  "Null data or a combination that isn't supported by the layout fails without changing the output or, for decoding, the value.",
  ["inputs", "configurations"],
  "all layout and type pairs including invalid ones, all 8 alignments, every field walked over its range with the other fields held at every extreme",
  "Tests use one value per format in an aligned buffer with no guard bytes.",
  [VAL, FMT], [("fromData", VAL), ("toData", VAL), ("layout sizes", FMT)], [("m_values", "components", "lib/include/VFC/VertexValue.h")],
  ["VertexValue::fromData", "VertexValue::toData", "elementLayoutSize"])

p("V06", "Vertex values compare by component and grow bounds exactly",
  "A vertex value holds exactly the components it was given (0, 0, 0, 1 where none are) and equals another exactly when all "
  "four components are equal as numbers; copies of numbers are equal, NaN equals nothing, and inequality is the opposite of equality. Starting from the "
  "initial bounds, which hold no value, expanding by any sequence of finite values leaves, per component, exactly their "
  "minimum and maximum, whatever the order and repetitions, and changes nothing else.",
  ["inputs", "histories"],
  "every pair of values over an alphabet with both zeros, denormals, limits, neighbouring doubles and infinities in each "
  "component, and every sequence of bounds updates up to a length",
  "The tests expand bounds by one fixed list of values; a wrong starting value, a narrowed type or a component mix-up shows "
  "only for values of certain signs and magnitudes in certain orders.",
  ["lib/include/VFC/VertexValue.h", VAL], [("comparison", "lib/include/VFC/VertexValue.h:operator=="), ("bounds update", "lib/include/VFC/VertexValue.h:expandBounds")],
  [("m_values", "components", "lib/include/VFC/VertexValue.h"), ("initialBoundsMin/Max", "empty bounds", VAL)],
  ["VertexValue::operator[]", "VertexValue::expandBounds"])

p("F01", "Enum names round-trip and are matched case-insensitively",
  "Every element layout (in its XYZW and RGBA spelling), element type and primitive type has exactly one canonical name per spelling that maps back to it, in any "
  "letter case, and no other string maps to a value: unknown, truncated, extended, empty or null names give Invalid, and out-of-range values have no name.",
  ["inputs"],
  "all names in all spellings with every case pattern (all 2^n for short names, all single and double flips for long), every single-character deletion, "
  "insertion and substitution of every name, and all byte values of each enum",
  "Tests list the names once in canonical case.",
  [FMT, FMTH], [("name maps", FMT), ("case-insensitive hash and equality", FMT)], [("maps", "static name tables", FMT)],
  ["elementLayoutName", "elementLayoutFromName", "elementTypeName", "elementTypeFromName", "primitiveTypeName", "primitiveTypeFromName"])

p("F02", "A vertex format is a packed sequence of uniquely named valid elements",
  "After any sequence of appends, copies, moves and clears, a format holds exactly the successfully appended elements in order, each at the offset equal to the "
  "sum of the previous sizes, with the stride equal to the total. An append fails, changing nothing, exactly when the layout/type pair is invalid or "
  "the (case-sensitive) name is already present; lookups, containment and equality agree with that sequence.",
  ["histories"],
  "every sequence of operations up to a depth over an alphabet of names differing only by case or length and of layouts of every size and validity",
  "Tests append a fixed list once.",
  [FMT, FMTH], [("appendElement", FMT), ("find", FMT)], [("m_elements", "elements", FMTH), ("m_stride", "vertex size", FMTH)],
  ["VertexFormat members"])

p("F03", "Vertex-count and index-width rules are exact",
  "A vertex count is valid for a primitive type exactly when it is zero or makes whole primitives: any for points, even for line lists, at least 2 for line strips, "
  "multiples of 3 for triangle lists, at least 3 for triangle strips and fans, multiples of the patch size for patches. Index sizes, maximum and restart values "
  "agree with each index width, and storing then loading an index returns it without touching neighbouring entries.",
  ["inputs"],
  "all primitive types and patch sizes 1..64 with all counts up to 4096 and around 2^8, 2^16, 2^31 and 2^32, and all 2^16 16-bit and boundary 32-bit index values at several positions",
  "Tests try a few counts per type.",
  [FMT, IDX, FMTH], [("isVertexCountValid", FMT), ("index accessors", IDX)], [("indices", "raw index storage", IDX)], ["isVertexCountValid", "getIndexValue", "setIndexValue", "indexSize"])

p("T01", "Base64 round-trips every byte string and rejects everything else",
  "Encoding then decoding gives back any byte string, and the encoding is standard padded base64. Decoding accepts exactly strings made of whole "
  "four-character groups over the standard alphabet with padding only at the very end, never reads past the end of the string, and appends exactly the encoded bytes.",
  ["inputs"],
  "all byte strings up to 2 bytes and all 3-byte strings, longer ones over a bit-covering alphabet, and all strings up to 8 characters over an "
  "alphabet with one representative of every character class plus all 256 characters in each position of a group",
  "Tests round-trip one string and a few malformed ones.",
  [B64], [("encode", B64), ("decode", B64)], [("outData", "decoded bytes", B64)], ["base64::encode", "base64::decode"])

p("T02", "A configuration is accepted exactly when it follows the documented schema",
  "Parsing a JSON configuration yields exactly the described formats, index type, primitive type, patch points, streams and transforms, with the documented defaults for "
  "optional members, enum names in any case and unknown members ignored. It fails, with at least one diagnostic naming the file, exactly when a required "
  "member is missing, a member has the wrong JSON type or an unknown name, a format is empty, mismatched or has a repeated name, or the text isn't JSON (documents of 4 GiB or more are rejected too).",
  ["inputs", "configurations"],
  "every document obtained from base documents covering all members by up to two mutations (drop, retype, rename, empty, duplicate, case change, reorder, "
  "insert unknown member) at any node, and every truncation and single-byte corruption of a document",
  "Tests check one full document and one instance per error.",
  [CFG, "tool/ConfigFile.h"], [("parsers", CFG)], [("m_vertexFormat etc.", "parsed configuration", "tool/ConfigFile.h")], ["ConfigFile::load", "getters", "error function"])

p("T03", "The tool's output is the library's result, complete in both output modes",
  "For every valid configuration the tool exits 0 and prints one JSON document whose formats, offsets, strides, vertex count, bounds, index type, index counts and "
  "base vertices equal the library's result for the same data, and whose embedded base64 data or named data files hold exactly the "
  "library's vertex bytes and index bytes. Embedded and file input, embedded and file output, any combination, give the same data, also when input files are ones that the run then replaces.",
  ["inputs", "configurations"],
  "every combination of input mode, output mode, index type, primitive type, number of streams and index buffers and transforms for meshes from a single index to multiple streams, with path "
  "and data lengths straddling small-string sizes",
  "One functional script with one mesh, not part of the unit tests, covers each mode once.",
  [MAIN, CFG, RES, B64, PATH], [("setupConverter", MAIN), ("writeOutput", MAIN), ("resultFile", RES)], [("storage", "input buffers kept alive", MAIN)],
  ["stdout", "exit status", "output files"])

p("T04", "The tool fails cleanly: non-zero exit, a diagnostic, no result, no crash",
  "For every command input (configuration text, data files, base64 strings) that can't be converted the tool exits with a non-zero status after printing at least one "
  "error line on stderr, prints nothing on stdout, and never crashes, hangs or reports success. For every convertible one it exits 0 with nothing on stderr (embedding 4 GiB or more in the result can be refused).",
  ["inputs", "configurations"],
  "all single and paired corruptions of base runs: truncated, oversized, missing, empty and directory data files, bad base64, indices out of range, restarts without "
  "indices, missing, duplicated or unknown elements, mismatched counts, truncated or deeply nested JSON",
  "Unit tests don't run the tool's main program.",
  [MAIN, CFG, CONV], [("error returns", MAIN), ("error function", MAIN)], [("input", "message prefix", MAIN)], ["exit status", "stderr", "stdout"])

p("T05", "Exit status 0 means all output was written; I/O errors are reported",
  "If any operating system call that opens, reads, writes, closes or creates a directory for the tool's input or output fails or transfers less than requested at any point, "
  "the tool either recovers and produces exactly the fault-free output or exits non-zero with a diagnostic on stderr, never crashing. "
  "Exit status 0 implies that standard output holds the complete result (or help) and every output file its data.",
  ["fault_sequences"],
  "for runs in each input/output mode, every I/O call index crossed with every applicable fault (each error code, short transfer, interrupted call), singly and in pairs",
  "No test injects faults.",
  [MAIN, CFG, PATH], [("loadData", MAIN), ("writeFile", MAIN), ("mkdirRecursive", MAIN)], [("stream state", "error flags", MAIN)], ["exit status", "stdout", "output files", "stderr"])

p("T06", "Paths resolve against the input file and output stays in the output directory",
  "A relative data path is resolved against the directory of the input file (the working directory for standard input), an absolute one is used as is. The output directory is created "
  "with any missing parents, existing contents other than the tool's own output files are untouched, the tool creates or modifies nothing else, and the printed data paths lead to the written files. "
  "Path splitting and joining are consistent: joining a path's directory and file name denotes the original path.",
  ["inputs", "configurations"],
  "all path strings up to 7 characters over separator, dot and letters for the path functions, and every shape of input and output path (relative, absolute, nested, missing, existing, trailing and "
  "doubled separators, dot segments) in a scratch tree",
  "PathTest checks a dozen literals.",
  [PATH, MAIN], [("join, getParentDirectory, getFileName, isAbsolute", PATH), ("mkdirRecursive", MAIN)], [("configFileDir", "base of relative paths", MAIN)],
  ["path functions", "file system after a run"])

p("T07", "Command-line options are interpreted independently of spelling and order",
  "For every argument sequence: --input/-i and --output/-o take the next argument (the last one given wins, an empty path is none), --help/-h prints the help on stdout (which names every option and every layout, type, index type, primitive type and transform the tool accepts) and exits 0 without doing any work, and an unknown argument or a missing value exits "
  "non-zero with a message on stderr and no output. Arguments are processed left to right, the first help or error decides, and with no input option the configuration is read from standard input.",
  ["inputs", "histories"],
  "every argument sequence up to length 5 over all options, their values, option-like values, empty strings and unknown arguments",
  "No unit test covers argument handling.",
  [MAIN], [("argument loop", MAIN + ":main")], [("input/output", "selected paths", MAIN)], ["exit status", "stdout", "stderr", "file system"])

p("T08", "The result document is always one well-formed JSON document",
  "For any format, bounds, data strings, counts and index buffers the result is a single well-formed JSON document which, parsed back, gives the documented members with exactly the supplied "
  "strings, integers over their whole range and numerically identical bounds (null for bounds that aren't finite). Index members appear exactly when an index type is set.",
  ["inputs", "configurations"],
  "every result over an alphabet of names and paths with every character below U+0080 and multi-byte characters, bounds over extreme, subnormal, signed-zero and non-finite doubles, and extreme counts and base vertices",
  "ResultFileTest compares two literal documents.",
  [RES, "tool/ResultFile.h"], [("resultFile", RES)], [("document", "JSON under construction", RES)], ["resultFile return value"])

p("T09", "A syntax error is reported where the text stops being JSON",
  "When a configuration isn't JSON, its diagnostic starts with the file's name, a line and a column (name:line:column:, both counted from 1, columns in bytes), and that place is where the text stops being "
  "JSON: from the start of the token that can't be completed to the first character after which no document can follow, or the end of an incomplete text. This holds however far into the text it is, "
  "whatever the line endings, and for a stray NUL character.",
  ["inputs"],
  "every prefix of several multi-line documents with several endings, every insertion, substitution, deletion and exchange of characters of JSON's alphabet, and errors after up to 100,000 lines or columns",
  "ConfigFileTest checks the place of one or two errors.",
  [CFG], [("document", CFG)], [("getLineColumn", "line and column of an offset", CFG + ":getLineColumn, errorMessageStart")], ["diagnostics of ConfigFile::load"])

p("T10", "A run's result depends only on its arguments, configuration and data",
  "What a run of the tool prints, writes and returns is determined by its arguments, the configuration, the data it names and standard input. It is the same whatever earlier runs with the same or another "
  "configuration left in the output directory (complete, failed on a full disk, or killed at any point), whatever the environment variables, file mask, and kinds of standard input and output "
  "(pipe, socket, file, file to append to), and whatever other runs with output directories of their own do at the same time.",
  ["crash_points", "histories", "schedules", "configurations"],
  "runs killed before, after and in the middle of every system call, once and twice, followed by each other run; every sequence of up to three runs; every kind of standard stream; "
  "two runs interleaved at every system call",
  "No test runs the tool twice, at once, or in other surroundings.",
  [MAIN, PATH], [("writeOutput", MAIN), ("writeFile", MAIN), ("mkdirRecursive", MAIN)], [("output directory", "files that earlier runs left", MAIN)], ["exit status", "stdout", "stderr", "output files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
