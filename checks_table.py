"""How each property's explorer is built, and what MANIFEST.json says about it."""

CONV = ("Bounded-exhaustive on the real Converter against an independently written reference model; every execution "
        "within the bounds listed in the evidence. Trusts the reference model and the input alphabet; says nothing about "
        "longer histories or other data values.")
CONV_T = "stateless model checking: exhaustive enumeration of conversions of the real code against a reference model"

VAL = ("Exhaustive over the stored codes and bounded over values, on the real codec against an independently written reference "
       "decoder; wide fields are covered at boundary patterns in the quick tier.")
VAL_T = "explicit-state enumeration of the real codec: every stored code and every rounding boundary, against a reference model"

TOOL = ("Bounded-exhaustive over the configurations in the evidence. The tool's main() runs in a forked child with its system calls "
        "intercepted; the library's own correctness is checked by the other properties.")

# Access instrumentation without ThreadSanitizer's runtime; strings are instantiated here to be seen.
TSAN = ["-fsanitize=thread", "-O0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]

CHECKS = {
    "C01": {"src": ["C01.cpp"], "technique": CONV_T, "note": CONV},
    "C02": {"src": ["C02.cpp"], "technique": CONV_T, "note": CONV},
    "C03": {"src": ["C03.cpp"], "asan": True, "technique": CONV_T, "note": CONV + " Runs under AddressSanitizer."},
    "C04": {"src": ["C04.cpp"], "technique": CONV_T, "note": CONV},
    "C05": {"src": ["C05.cpp"], "technique": CONV_T, "note": CONV},
    "C06": {"src": ["C06.cpp"], "technique": CONV_T, "note": CONV},
    "C07": {"src": ["C07.cpp"], "technique": CONV_T + ", every history of transform calls", "note": CONV},
    "C08": {"src": ["C08.cpp"], "asan": True, "technique": "stateless model checking: exhaustive enumeration of call parameters against a model of the requirements", "note": CONV + " Runs under AddressSanitizer."},
    "C09": {"src": ["C09.cpp"], "asan": True, "technique": "stateless model checking: every call history up to a depth against a state machine model", "note": CONV + " Runs under AddressSanitizer."},
    "C10": {"src": ["C10.cpp"], "technique": "stateless model checking: exhaustive enumeration of input and output arrangements, differential on the real code", "note": CONV},
    "C11": {"src": ["C11.cpp", "sched.cpp"], "compiler": "clang++", "lib_flags": TSAN, "instrumented": ["C11_control.cpp"],
            "link": ["-Wl,--wrap=memcmp", "-Wl,--wrap=bcmp", "-ldl"],
            "technique": "systematic concurrency testing: preemption-bounded enumeration of schedules of the real code under a controlled scheduler",
            "note": "The library is compiled with access instrumentation and run under a scheduler of our own; when no two threads touch a "
                    "common location with a write all schedules are equivalent and one decides (partial order reduction). Sequentially consistent "
                    "memory only; code inside libc and libstdc++.so isn't instrumented."},
    "V01": {"src": ["V01.cpp"], "technique": VAL_T, "note": VAL},
    "V02": {"src": ["V02.cpp"], "technique": VAL_T, "note": VAL},
    "V03": {"src": ["V03.cpp", "V03_sw.cpp"],
            "extra_lib": [["-Dvfc=vfcsw", "-I@VERIF@/harness/nof16c"]], "technique": VAL_T + "; hardware and software configuration side by side",
            "note": VAL + " The software path is a second copy of the library whose processor check reports no support."},
    "V04": {"src": ["V04.cpp"], "technique": VAL_T, "note": VAL},
    "V05": {"src": ["V05.cpp"], "asan": True, "technique": VAL_T, "note": VAL + " Runs under AddressSanitizer with exact-size blocks."},
    "V06": {"src": ["V06.cpp"], "technique": "stateless model checking: exhaustive enumeration of values and of sequences of bounds updates against a per-component model", "note": "Bounded by the numbers and lengths in the evidence. NaN isn't covered, nor infinities in bounds."},
    "F01": {"src": ["F01.cpp"], "asan": True, "technique": "exhaustive enumeration of enum values and of names and their neighbourhood against the documented tables", "note": "Bounded-exhaustive over strings near the names; C locale. Runs under AddressSanitizer."},
    "F02": {"src": ["F02.cpp"], "asan": True, "technique": "stateless model checking: every operation history up to a depth against a sequence model", "note": "Bounded by the history depth and alphabet in the evidence. Moved-from formats are only cleared or assigned."},
    "F03": {"src": ["F03.cpp"], "technique": "exhaustive enumeration of counts and index values against the documented rules", "note": "All counts near the boundaries in the quick tier, all 2^32 in the thorough tier."},
    "T01": {"src": ["T01.cpp"], "asan": True, "tool": True, "technique": "exhaustive enumeration of byte strings and encoded strings on the real codec against a bit-level reference", "note": "All byte strings up to 3 bytes and all strings up to 8 characters over the character classes; longer ones at the lengths in the evidence. Runs under AddressSanitizer with exact-size blocks."},
    "T02": {"src": ["T02.cpp"], "asan": True, "tool": True, "technique": "bounded-exhaustive enumeration of mutated documents on the real parser against an independent model of the schema", "note": "All documents within two mutations of the base documents and all single-byte corruptions. Where the documentation leaves a document unsettled (numbers like 3.0 for patchPoints, ill-typed members that are ignored, text that isn't UTF-8, repeated members) either answer is taken. Runs under AddressSanitizer."},
    "T03": {"src": ["T03.cpp"], "asan": True, "tool": "main", "tool_flags": ["-Dmain=vfc_main"], "technique": "exhaustive enumeration of tool runs over modes, formats and sizes; each run's output against the library called directly", "note": TOOL},
    "T04": {"src": ["T04.cpp"], "asan": True, "tool": "main", "tool_flags": ["-Dmain=vfc_main"], "technique": "exhaustive enumeration of tool runs on inputs within two corruptions of convertible ones, against a model of what can be converted", "note": TOOL},
    "T05": {"src": ["T05.cpp"], "tool": "main", "tool_flags": ["-Dmain=vfc_main"], "level": "fault_enumeration",
            "rule": "Runs of the tool in each input and output mode; for every intercepted system call on anything but standard error: opens fail with ENOENT, EACCES, EMFILE, EIO, ENOSPC, EROFS or EINTR, "
                    "reads and writes fail once or persistently or move 1 byte, half or all but one byte once or from there on, closes and mkdirs fail; singly, and for the smaller runs every ordered pair.",
            "technique": "exhaustive fault injection at every system call of the real tool, singly and in pairs", "note": TOOL + " Faults are injected by a seccomp filter, so any way to do the I/O is covered; faults on standard error are left out, and SIGPIPE isn't raised."},
    "T06": {"src": ["T06.cpp"], "tool": "main", "tool_flags": ["-Dmain=vfc_main"], "technique": "exhaustive enumeration of path strings, and of tool runs over path shapes with the whole scratch tree compared", "note": TOOL},
    "T07": {"src": ["T07.cpp"], "tool": "main", "tool_flags": ["-Dmain=vfc_main"], "technique": "exhaustive enumeration of argument sequences on the real tool against a model of the options", "note": TOOL},
    "T08": {"src": ["T08.cpp"], "asan": True, "tool": True, "technique": "exhaustive enumeration of results over bounded alphabets, parsed back with an independent JSON reader", "note": "Bounded by the alphabets in the evidence. Strings are UTF-8 without NUL. Runs under AddressSanitizer."},
    "T09": {"src": ["T09.cpp"], "asan": True, "tool": True, "technique": "exhaustive enumeration of prefixes and edits of documents on the real parser against a character-by-character recogniser", "note": "ASCII texts; columns count bytes. A diagnostic may point anywhere from the start of the token that can't be completed to the character that breaks it. Runs under AddressSanitizer."},
    "T10": {"src": ["T10.cpp"], "tool": "main", "tool_flags": ["-Dmain=vfc_main"], "technique": "exhaustive exploration of crash points, run histories, surroundings and interleavings of system calls of the real tool, against the run alone", "note": TOOL + " Runs that share an output directory aren't run at once. Locales other than C aren't installed."},
}

NOT_APPLICABLE = {}
