"""What each property's check runs. Every run is one harness (src/*.cpp) compiled with the library from /repo."""


def mc(counts, tier):
    return {"states": counts.get("states", 0), "transitions": counts.get("transitions", 0),
            "traces_validated_against_impl": counts.get("histories", 0)}


SEQ = ["operation sequences are bounded in length and use small value alphabets (bounds are listed under coverage.bounds)",
       "single-threaded histories; concurrent ones are the subject of C18-C20",
       "g++ with AddressSanitizer and UndefinedBehaviorSanitizer on this platform"]

SEQSRC = ["ops_keys.cpp", "obs_vault.cpp", "ops_rec.cpp", "obs_set.cpp", "ops_set2.cpp", "seqx.cpp", "obs_ref.cpp", "ops_ref.cpp", "ops_set1.cpp", "ops_vault.cpp"]


def seq(name, src, **kw):
    return dict({"name": name, "src": src, "more_src": SEQSRC}, **kw)


MORE = {"flags": ["-DMC_MORE_TYPES"]}


def both(src, asan_delta="-1", **kw):
    """full depth without sanitizers (freed memory poisoned), one step less with ASan/UBSan"""
    return [seq("plain", src, variant="plain", **kw), seq("asan", src, args=["--depth+", asan_delta], **kw)]


TECH = {
    "enum": "bounded exhaustive model checking of the implementation over its input space: every input up to a size bound over an adversarial alphabet is executed on the real code and compared with an independent executable specification",
    "fault": "exhaustive fault enumeration on the implementation: every system call of every file operation is failed, cut short or ended early, alone and in pairs, by a seccomp trap below the C library, and every byte of a save is made the last one that fits; each execution is checked",
    "seq": "explicit-state model checking of the implementation: every operation sequence up to a depth bound is executed on the real library in lock step with an executable reference model and the complete public state is compared after every sequence",
    "sched": "stateless model checking of the implementation: the real code, compiled so that every lock, condition variable and atomic operation is a scheduling point of a controlled scheduler, is run under every thread interleaving up to a preemption bound (depth-first, pruning prefixes with an already explored happens-before graph), with deadlock, lost-wakeup, data-race, freed-memory and leak monitors in every execution",
}
NA = {}
RICH = "a key type with only a hash, operator less, operator equal and copying does not compile any more; the same type with the other comparison operators does"


def enum(rule):
    def f(counts, tier):
        return {"evaluations": counts.get("evaluations", 0), "distinct_nontrivial": counts.get("nontrivial", 0), "rule": rule}
    return f


def E(src, rule, note, assumptions, variant="plain", asan=True, tech="enum", level="exploration", runs=None, **kw):
    if runs is None:
        runs = [dict({"name": "plain", "src": src, "variant": variant}, **kw)]
        if asan:
            runs.append(dict({"name": "asan", "src": src, "variant": "asan", "flags": ["-DMC_SMALL"], "hflags": ["-O0", "-fno-sanitize=undefined"]}, **kw))
    return {"level": level, "tech": tech, "coverage": enum(rule), "assumptions": assumptions, "runs": runs, "note": note, "rich_what": RICH}


def S(src, note, **kw):
    return {"level": "model_checking", "tech": "seq", "coverage": mc, "assumptions": SEQ, "runs": both(src, **kw), "note": note}


SCHED = ["sequentially consistent memory model; scheduling points are lock, condition variable, atomic, once and thread operations (data races make other points observable and are themselves violations)",
         "preemption bound and number of spurious wakeups as stated under coverage.bounds", "g++ -fsanitize=thread instrumentation of the library and the harness; system library internals are not instrumented"]


def X(src, note, assumptions):
    return {"level": "model_checking", "tech": "sched", "coverage": mc, "assumptions": SCHED + assumptions, "note": note, "limit": {"quick": 500, "thorough": 3000},
            "runs": [{"name": "schedules", "src": src, "variant": "sched", "plain_src": ["schedx_rt.cpp"], "flags": ["-D_GLIBCXX_ASSERTIONS", "--param", "tsan-instrument-func-entry-exit=0"],
                      "ldflags": ["-rdynamic", "-ldl"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp")]}]}


CHECKS = {
    "C01": S("c01.cpp", "all histories to depth 4 over 19 operations from 3 start states, depth 3 with a unique key, depth 2 with 40 records and with 24 keys, every single operation on 300 records"),
    "C02": S("c02.cpp", "all histories of writes to depth 4 and of loading/generating/copying/moving to depth 3"),
    "C04": S("c04.cpp", "all histories to depth 4 (thorough 5) over vault and set operations, keys and vault lifetime; 200 records in 6 sets"),
    "C05": S("c05.cpp", "every pair of operand kinds and every history of set operations to depth 2, of a result's later life to depth 4"),
    "C06": S("c06.cpp", "all histories to depth 4 over reference paths, and over destruction, move and copy orders"),
    "C07": S("c07.cpp", "all histories to depth 3 on source and copy from 3 start states"),
    "C08": S("c08.cpp", "all histories to depth 3 of vault moves and of set copies and moves"),
    "C09": S("c09.cpp", "all key histories to depth 3 over five value types", **MORE),
    "C10": S("c10.cpp", "all histories to depth 3 of failing and succeeding calls, with every wrong-key and wrong-type form after each", **MORE),
    "C11": S("c11.cpp", "every limit, stop position and direction after every history to depth 4; 300 records", **MORE),
    "C03": E("c03.cpp", "every record multiset up to size 4 (thorough 5) x every request of the listed grammar; non-trivial: the request selects some but not all records",
             "all contents of up to 4 records x all comparisons, intervals, limits, predicates and And/Or trees to depth 2; the same over 33 and 130 records",
             ["contents over A in {0,1,2}, S in {a,b} and a unique key; value types int and string", "g++ on this platform"]),
    "C23": E("c23.cpp", "every content x callback-taking call x re-entrant operation; non-trivial: the callback was called at least once",
             "all contents of up to 4 records x 26 callback-taking calls x 22 re-entrant operations",
             ["callbacks perform one kind of re-entrant operation per call", "single thread"]),
    "C13": E("c13.cpp", "every text up to a length over an adversarial alphabet as a file; every short text at every offset of a block boundary of a >10 MiB file; non-trivial: well-formed and not empty",
             "all texts to length 7 (thorough 9) over {a , \" CR LF}, other alphabets and separators shorter; all windows of up to 5 (6) bytes over block boundaries of files beyond the threshold; six shapes at power-of-two and threshold sizes",
             ["malformed texts are only required to terminate, stay in bounds and be read the same from small and large files", "a lone CR is not a line end of a well-formed file"]),
    "C12": E("c12.cpp", "every string/pair/key name/separator/value/key list of the listed spaces saved and loaded; non-trivial: the text needs quoting, or a record is saved",
             "all strings to length 4 (thorough 5) over 8 special characters, all pairs, 14 separators, all ordered key subsets, boundary values of 12 types; the file is also read by an independent RFC 4180 reader",
             ["excluded, as documented: separators \" CR LF, doubles not representable in six decimals, keyless vaults", "line ends inside the file are CRLF as written by the library"]),
    "C14": E("c14.cpp", "every file of the listed row spaces x every header/key-list mode x preload; non-trivial: rows are loaded and rows are refused",
             "all files of 1 row of up to 4 cells, 2 rows of up to 2-3 cells, 3 rows of up to 2 cells x every header permutation/subset with unknown names, key lists and vault order; row callbacks; two unique keys",
             ["excluded: duplicate names in a header, a blank header line, blank lines combined with a row callback", "position numbering (line for conversion errors, data row for refused unique values) as fixed by the unit tests"]),
    "C15": E("c15.cpp", "every string/number/shape/state of the listed spaces serialised in every mode and decoded by an independent strict JSON reader; evaluations count documents, non-trivial: documents of cases needing escapes or holding records",
             "all strings to 3 (thorough 4) units over 20 units as values, key names and templates; all ASCII bytes; all 8-bit and boundary numbers, numbers with every three-digit ending; 16 modes on vault, set and reference",
             ["string contents are valid UTF-8 (the library writes bytes through)", "NaN and infinities have no JSON number; null is expected"]),
    "C16": E("c16.cpp", "every text of the listed spaces converted into 12 types, every listed value to text and back; non-trivial: accepted texts and round-tripped values",
             "all texts to length 7 (thorough 9) over digits, signs and point, other alphabets shorter; all 8/16-bit values (thorough: all 32-bit values); all neighbourhoods of type limits; every byte at every position of good texts",
             ["strtof/strtod of this platform is the reference for the number a decimal text denotes", "long long is not a supported type where int64_t is long"]),
    "C21": E("c21.cpp", "every content x key list x sort key x direction x id mode x limit printed and read back from the captured output; non-trivial: at least one record",
             "all multisets of up to 3 (thorough 5) records x 19 key lists x 4 sort keys x direction x ids x every limit, on vault, set, containers (also mixing vaults) and single records; 14 object states",
             ["cell widths are counted in bytes; values contain no line breaks", "an unknown sort key visits nothing (documented) and is not printed with"]),
    "C22": E("c22.cpp", "every operation sequence up to the depth; non-trivial: something is stored at the end",
             "all sequences of up to 4 (thorough 5) operations on three holders and on four container classes, with every stored object tracked",
             ["which of several values under one key a multi container changes is unspecified; any one is accepted", "values: int, string, an instance-counting class, with and without custom deleter"]),
    "C24": E("c24.cpp", "every listed variation of the delivered random words; all are non-trivial",
             "every flip of 1 and 2 (thorough 3) of the delivered bits and every value of every delivered byte over 12 base patterns",
             ["the source is std::random_device, replaced at link level", "quality of the platform's random source itself is not examined"]),
    "C25": E("c25.cpp", "every operation history up to the depth per kind of user type; non-trivial: a record exists at the end",
             "all histories to depth 3-4 (thorough 4-5) of 23 operations from 2 start states over three user types, every lookup and request form after each, every object tracked",
             ["ordering and equality of the type are consistent and total (a NaN-like value is not a key value)", "user types: copyable class with coarse equality and colliding hash with and without text conversion, scoped enumeration"],
             rich="-DMC_RICH"),
    "C26": E("c26.cpp", "every result value, every ordered pair of result values and every ordered pair of real calls' results; non-trivial: pairs of different values",
             "all 15 codes x 2 outcomes x 8 keys x 4x4 types, compared pairwise (14.7 million pairs), copied, moved, printed; results of every pair of 26 calls",
             ["the words of the texts are not fixed; they are distinct, on one line and contain key and types", "key and types of a call's result are checked here where the code is about them, and exhaustively in C10"]),
    "C27": E("c27.cpp", "every history of calls in a build with reports, every creation order and storage class of global objects as one process each, and the call histories of C10 and C04 in a build without NDEBUG; non-trivial: all",
             "every history of 3 of 35 calls in one and two threads; ten calls straight from main; 1152 orders of static and thread-local objects; C10 and C04 histories one step shorter, all in builds without NDEBUG",
             ["std::system is replaced by a recorder: the external addr2line is not run, so the source line in a report is not checked", "g++ and glibc backtrace on this platform"],
             runs=[{"name": "reports", "src": "c27.cpp", "variant": "plain", "flags": ["-UNDEBUG", "-O3", "-flto"], "ldflags": ["-O3", "-flto=8"]},
                   {"name": "reports asan", "src": "c27.cpp", "variant": "asan", "flags": ["-UNDEBUG", "-DMC_SMALL"]},
                   {"name": "reports without backtrace()", "src": "c27.cpp", "variant": "plain", "flags": ["-UNDEBUG", "-DMC_SMALL", "-DNO_BACKTRACE_SUPPORT"]},
                   {"name": "release asan", "src": "c27.cpp", "variant": "asan", "flags": ["-DMC_SMALL"]},
                   seq("failed calls", "c10.cpp", variant="plain", flags=["-UNDEBUG", "-DMC_MORE_TYPES"], args=["--depth+", "-1"]),
                   seq("set histories", "c04.cpp", variant="plain", flags=["-UNDEBUG"], args=["--depth+", "-1"])]),
    "C17": E("c17.cpp", "every (scenario, fault plan) executed on the real library with faults injected below the C library; non-trivial: the call reported failure",
             "a fault at every file system call of 44 save/load scenarios x every error/short count/end of file, once and persistently; pairs of faults; a device limit at every byte; failing real targets",
             ["system calls made by library code other than open/read/write/seek/stat/truncate/sync/close/mmap/rename on the target file are not faulted", "write returning 0 for a non-empty buffer is not modelled"], tech="fault", level="fault_enumeration", asan=False),
    "C18": X("c18.cpp", "all interleavings (preemption bound 2-3, thorough up to 4; 1-2 spurious wakeups) of all well-nested lock programs of 2 threads up to 2-3 locks and of 3 threads up to 1-2, on both mutex kinds, RAII objects, two mutexes, disabled and recreated mutexes",
             ["a waiting writer is recognised when it is blocked at a condition variable or spinning", "locks are released in nested order per mutex"]),
    "C19": X("c19.cpp", "all interleavings (preemption bound 2, thorough 3) of every pair of 86 calls from the public API on one vault, of triples and short sequences of calls",
             ["the one-at-a-time results come from the same library, whose sequential behaviour C01-C16 decide"]),
    "C20": X("c20.cpp", "all interleavings (preemption bound 1-2, thorough 2-3) of every pair of 103 calls, of all triples of 13, of all pairs of 32 calls over two vaults",
             ["each thread uses its own reference objects and destination sets; vault destruction, move and DropVault are not concurrent with use (documented)", "std::cout itself is not examined"]),
}
