"""What each check runs.  cases/time: (quick, thorough), per build."""
from tools import extract

READ_ASSUME = ["little-endian x86-64, as the trace format is used by the library",
               "an allocation of more than 1 GB fails (the harness makes it fail) instead of exhausting memory"]

QUERY_ASSUME = ["little-endian x86-64", "predicates are well typed, as the Lisp interface builds them; decimal exponents of constants are those of IEEE doubles"]


def sub(name, cases, time, **kw):
    return dict(name=name, cases=cases, time=time, **kw)


NO_LISP = ("The property is about Common Lisp code and no Common Lisp system is installed (nor can one be fetched), "
           "so it cannot be executed on generated inputs here.")
NOT_APPLICABLE = {"C22": NO_LISP, "C23": NO_LISP, "C24": NO_LISP}
SEARCH = "Evidence by search, not proof: the property held on every generated case of this run. "

WRITER_GEN = ["writer_c.c", "writer_cxx.cpp"]

CHECKS = {
    "C01": dict(
        technique="property-based testing: write/read round trip plus comparison with an independent encoder",
        note=SEARCH + "Trusts the harness' independent model of the format.",
        harness="h_read",
        subs=[sub("roundtrip", (60000, 3000000), (20, 600)), sub("components", (60000, 1000000), (12, 240))],
        rule="A case is a generated trace (names, types of every format and size, points with buffer sizes, variables, blobs, "
             "auxiliary values; one case in 40 has a very long dimension) built in memory or read from an interleaved stream, "
             "written, compared byte for byte with an independent encoder, read back and compared with the model, and written again. "
             "Non-trivial: at least one point and one variable.",
        assumptions=READ_ASSUME),
    "C02": dict(
        technique="property-based testing: model-based decoding, independent encoder as oracle",
        note=SEARCH + "Trusts the harness' independent model of the format.",
        harness="h_read",
        subs=[sub("decode", (120000, 4000000), (22, 600))],
        rule="A case is a generated trace encoded by an independent encoder with entries in any order inside a point, read through the "
             "stream reader, read_trace and add_trace and compared field by field. Non-trivial: at least one point with a variable.",
        assumptions=READ_ASSUME),
    "C03": dict(
        technique="stateful property-based testing against an ordered-map model",
        note=SEARCH + "Trusts the harness' map model; allocations wrapping past 2^64 are outside the domain.",
        harness="h_read",
        subs=[sub("memory-map", (60000, 2000000), (18, 400)), sub("pointer-stream", (60000, 2000000), (18, 400))],
        rule="memory-map: a generated history of allocation records, frees and lookups applied to MemoryMap and to an ordered-map model, "
             "compared after every step; pointer-stream: the same through trace files. Non-trivial: see the labels; at least one lookup "
             "hit inside a live allocation.",
        assumptions=READ_ASSUME + ["allocations end below 2^64"]),
    "C04": dict(
        technique="grammar-aware and coverage-guided fuzzing with a reference decoder as oracle, under AddressSanitizer",
        note=SEARCH + "Trusts the reference decoder and AddressSanitizer; allocations above 1 GB are made to fail. libFuzzer campaign in the thorough tier.",
        harness="h_read",
        subs=[sub("malformed", (200000, 12000000), (25, 900), perturb=False), sub("decode", (60000, 1000000), (8, 120))],
        fuzz=dict(time=600),
        rule="A case is a byte string: random, random after a valid header, a valid trace damaged at field or byte level, two traces "
             "spliced, or extreme addresses. A reference decoder written from the format says accept (with contents), reject or either. "
             "decode: well-formed traces, which must be accepted as they are. Non-trivial: the bytes are not a well-formed trace (malformed); "
             "a point with a variable (decode).",
        assumptions=READ_ASSUME),
    "C05": dict(
        technique="property-based testing with every cut point of generated traces enumerated",
        note=SEARCH + "Small traces are cut at every byte, large ones at field boundaries and sampled offsets.",
        harness="h_read",
        subs=[sub("truncation", (20000, 600000), (20, 500)), sub("limits", (12000, 300000), (16, 300))],
        rule="truncation: a generated trace cut at every byte (up to 220 bytes; beyond, at every field boundary plus or minus one and "
             "evenly spread offsets); limits: point limits 0..n+1 and huge ones. Non-trivial: more than one point.",
        assumptions=READ_ASSUME),
    "C06": dict(
        technique="property-based testing: brute-force reference query evaluator over generated traces and queries",
        note=SEARCH + "Trusts the harness' brute-force enumeration and its exact-rational predicate evaluator.",
        harness="h_query",
        subs=[sub("query", (60000, 3000000), (26, 700)), sub("predicates", (60000, 1000000), (10, 200))],
        rule="A case is a generated trace, read from a file, and several generated queries (free variables with allowed-type sets, optional "
             "predicate, C and C++ interfaces); results are compared per point, as multisets, with enumeration of every assignment; predicates: "
             "the generator of C07. Non-trivial: in some query some but not all type-compatible assignments are results.",
        assumptions=QUERY_ASSUME),
    "C07": dict(
        technique="property-based testing: exact rational three-valued reference evaluator",
        note=SEARCH + "Comparisons that fall within the rounding error of a non-terminating division are not judged.",
        harness="h_query",
        subs=[sub("predicates", (160000, 6000000), (28, 700))],
        rule="A case is a one-point trace with a few variables and several generated predicates biased to near ties (constants equal to a "
             "recorded value, or one unit away); the query's answer for the binding is compared with exact rational evaluation. "
             "Non-trivial: some predicate, fully decided by the oracle, holds for some of the bindings and fails for others.",
        assumptions=QUERY_ASSUME),
    "C08": dict(
        technique="property-based testing: reference scoring of brute-force results",
        note=SEARCH + "Points where the oracle cannot decide a soft predicate (rounding ties) are not judged.",
        harness="h_query",
        subs=[sub("soft", (60000, 3000000), (28, 700))],
        rule="A case is a generated trace and queries with 1..6 soft predicates; results per point must be the maxima of the reference score "
             "over the hard-predicate results. Non-trivial: at some point the soft predicates remove some of the bindings.",
        assumptions=QUERY_ASSUME),
    "C09": dict(
        technique="stateful property-based testing: generated histories in one process, stateless reference answer for every query",
        note=SEARCH + "Histories of up to 25 cases share one process and its caches.",
        harness="h_query",
        subs=[sub("history", (100000, 4000000), (30, 900))],
        rule="A case is a history of create, load, query (repeated and mutated predicates, filters, seeds), failed load, serialize, "
             "deserialize and free steps; every query is compared with the stateless reference. Non-trivial: at least three queries "
             "were asked.",
        assumptions=QUERY_ASSUME),
    "C10": dict(
        technique="property-based testing: reference filter; metamorphic relation between picked and unpicked queries",
        note=SEARCH + "That every selected point can be picked is judged over up to several hundred seeds per case, with traces small enough that a miss is impossible in practice.",
        harness="h_query",
        subs=[sub("filter", (120000, 5000000), (24, 500)), sub("pick", (60000, 2000000), (24, 500))],
        rule="A case is a trace with statement ids over all 64 bits and queries with masks, values and seeds. Non-trivial: the filter "
             "selects some but not all points (filter); more than one point selectable (pick).",
        assumptions=QUERY_ASSUME),
    "C11": dict(
        technique="property-based testing: reference de-duplication and comparison with the query that keeps duplicates",
        note=SEARCH,
        harness="h_query",
        subs=[sub("dedup", (120000, 5000000), (28, 700))],
        rule="A case is a trace with repeated statements, names and types and a query run with keep_duplicate_bindings 0 and 1. "
             "Non-trivial: at least one duplicate was removed and at least two results remain.",
        assumptions=QUERY_ASSUME),
    "C12": dict(
        technique="property-based testing: serialize/deserialize round trip, repeated, with query comparison",
        note=SEARCH + "Databases are built from files, streams and in-memory points.",
        harness="h_db",
        subs=[sub("serialize", (80000, 3000000), (28, 700))],
        rule="A case is a generated database of 0..4 traces built by reading files or from memory, serialized and deserialized one to three "
             "times; every generation is compared field by field with the model and asked generated queries; the original is compared again "
             "at the end. Non-trivial: at least one trace with a point and a variable.",
        assumptions=["little-endian x86-64"]),
    "C13": dict(
        technique="property-based testing: algebraic laws (equality, hash, strict total order) against a structural model",
        note=SEARCH,
        harness="h_db",
        subs=[sub("relations", (300000, 10000000), (28, 600))],
        rule="A case is a small pool of objects of one kind (types, buffer sizes, variables, points, traces, databases, predicates, free "
             "variables), made as copies and one-field mutations of each other; every pair and triple is checked against structural "
             "equality, hash agreement and the strict-total-order laws. Non-trivial: the pool has an equal pair and a different pair.",
        assumptions=["a variable without a known buffer has buffer size 0, as all constructors leave it"]),
    "C14": dict(
        technique="stateful property-based testing: generated operation histories against a list-of-traces model",
        note=SEARCH,
        harness="h_db",
        subs=[sub("database", (80000, 3000000), (26, 700)), sub("decode", (60000, 1000000), (8, 120), harness="h_read"),
              sub("limits", (12000, 200000), (6, 100), harness="h_read")],
        rule="A case is a history over up to three databases: add from file (whole, limited, damaged, missing), add in-memory points, query, "
             "read, serialize; the touched database is compared with the model after every step, all of them at the end; decode and limits: the generators "
             "of C02 and C05, one trace at a time. Non-trivial: at least two adds "
             "succeeded, or one did and another failed or a serialization round trip was made.",
        assumptions=["little-endian x86-64"]),
    "C15": dict(
        technique="schedule fuzzing: random and exhaustive-prefix schedules of real threads under a baton scheduler, model comparison; free-running threads under ThreadSanitizer",
        note=SEARCH + "Schedules switch at allocation, lock and I/O calls of the library, not between single instructions.",
        harness="h_conc",
        subs=[sub("concurrent-add", (20000, 600000), (35, 900), builds=["asan", "plain", "tsan"])],
        rule="A case is 2..4 threads each adding generated traces (files and in-memory points) to one database, with the interleaving chosen by the generator at every "
             "intercepted call. Non-trivial: more switches between threads than there are threads, so some add was preempted.",
        assumptions=["threads interact only through memory reachable at the intercepted calls; ThreadSanitizer runs cover the rest"]),
    "C16": dict(
        technique="property-based testing: real named pipes with generated chunking, pauses and arrival orders; differential against a regular file",
        note=SEARCH + "Timing bounds are lenient: at least 0.9 of the time-out, at most 10 s more.",
        harness="h_fifo",
        subs=[sub("deliver", (20000, 300000), (18, 300), jobs=12), sub("waiting", (2000, 40000), (15, 300), jobs=16),
              sub("paths", (30000, 300000), (12, 120), jobs=8), sub("waiting-long", (20000, 200000), (10, 120), builds=["plain"], jobs=8)],
        rule="deliver: trace bytes (sometimes cut or damaged) split into chunks with pauses, writer before or after the reader, now and then under a "
             "storm of handled signals, compared with reading the same bytes from a file; waiting: no writer or a silent writer, with the time measured; "
             "waiting-long: time-outs of up to hours under a clock that runs fast; paths: missing, unreadable, "
             "directories and odd paths. Non-trivial: more than one chunk (deliver); every case (waiting, waiting-long); the read must fail or may do either (paths).",
        assumptions=["the machine schedules a runnable thread within ten seconds"]),
    "C17": dict(
        technique="property-based testing: the inserted C code, compiled as C and C++, run on generated call sequences; read back and compared with the model",
        note=SEARCH + "The code is taken from the Lisp sources and compiled; the Lisp that generates the calls cannot run here, so call sequences follow its templates.",
        harness="h_writer", prepare=extract.prepare, generated=WRITER_GEN,
        subs=[sub("written", (150000, 5000000), (14, 400)), sub("program-values", (500, 12000), (22, 400), builds=["plain"], jobs=5)],
        rule="written: a generated header and sequence of points written call by call through the inserted functions (argument lists of 84 short and "
             "123 long class patterns) into streams of every buffering, compared byte for byte with the format and read back; program-values: a generated "
             "C or C++ program with variables of every instrumented type, compiled, run and its trace read. Non-trivial: more than one variable (written); "
             "more than one point (program-values).",
        assumptions=["x86-64 calling convention and little-endian data, as the library's format requires", "the compiled program is built with gcc or g++"]),
    "C18": dict(
        technique="schedule fuzzing of real threads at lock and output calls; generated multi-threaded programs",
        note=SEARCH + "Switches happen before output calls and at lock operations; single output calls are atomic, as stdio guarantees.",
        harness="h_writer", prepare=extract.prepare, generated=WRITER_GEN,
        subs=[sub("threads", (60000, 2000000), (24, 600)), sub("program-threads", (400, 9000), (24, 400), builds=["plain"], jobs=4)],
        rule="threads: 2..4 threads writing generated points through the inserted functions under generated schedules; program-threads: generated programs "
             "with 1..3 worker threads running freely. Non-trivial: more switches than threads (threads); more than one point (program-threads).",
        assumptions=["stdio calls on one stream are atomic"]),
    "C25": dict(
        technique="fault injection: generated writers killed at generated output calls, the file compared with the completed points",
        note=SEARCH + "Death is injected between output calls of the inserted code, in five ways; a crash of the machine is not considered.",
        harness="h_writer", prepare=extract.prepare, generated=WRITER_GEN,
        subs=[sub("dying", (100000, 3000000), (18, 500)), sub("dying-threads", (60000, 1500000), (16, 400))],
        rule="dying: a generated call sequence run several times in a child process that dies (SIGKILL, SIGSEGV, SIGTERM, _exit, abort) at a generated output "
             "call or after the last point; dying-threads: the same with 2..4 threads under generated schedules. Non-trivial: it died after completing "
             "some, not all, points.",
        assumptions=["what was given to write(2) survives the process"]),
    "C26": dict(
        technique="property-based testing: generated instrumented programs compiled and run under a generated handshake and destination",
        note=SEARCH + "Programs follow the instrumenter's templates; sleeping is shortened to 2 ms (or 20 us) per second.",
        harness="h_writer", prepare=extract.prepare, generated=WRITER_GEN,
        subs=[sub("program", (1000, 20000), (30, 600), builds=["plain"], jobs=8)],
        rule="A case is a generated program (C or C++, one or two files, points before, in and after main(), 0..3 worker threads, six ways to end, its own "
             "output), a destination (fixed file, file named in the environment, handshake to a file or a named pipe, standard output or error) and a "
             "handshake (before, later, empty first, without end of line, with more lines; now and then after what the program takes for hours). Non-trivial: more than one point.",
        assumptions=["the compiled program is built with gcc or g++"]),
    "C19": dict(
        technique="stateful property-based testing: resource accounting over repeated generated cycles; handed-out data re-checked at the end of generated histories under AddressSanitizer",
        note=SEARCH + "Growth below 8 bytes and one block per cycle is not noticed.",
        harness="h_db",
        subs=[sub("lifetime", (60000, 2000000), (20, 500)),
              sub("leaks", (60000, 1500000), (24, 500), harness="h_leak", builds=["plain"])],
        rule="lifetime: a history in which handed-out point arrays and query results are kept and compared again after everything else; "
             "leaks: a generated cycle of operations repeated 3 + 2x12 times with every allocation and descriptor counted. Non-trivial: "
             "more than three handed-out results were re-checked after later adds or frees (lifetime); the cycle reads at least one trace (leaks).",
        assumptions=["little-endian x86-64"]),
    "C20": dict(
        technique="property-based testing: model comparison of in-memory points read back and queried",
        note=SEARCH,
        harness="h_db",
        subs=[sub("in-memory", (120000, 4000000), (26, 500))],
        rule="A case is an array of generated in-memory points and a name list added to a database, read back and queried. Non-trivial: at "
             "least two variables.",
        assumptions=["little-endian x86-64"]),
    "C21": dict(
        technique="property-based testing: print/parse round trip with an independent parser",
        note=SEARCH + "Floating-point constants are compared to printed precision; operators without operands are excluded.",
        harness="h_query",
        subs=[sub("print", (250000, 5000000), (25, 400))],
        rule="A case is a generated predicate tree printed with operator<< and parsed by the harness. Non-trivial: the tree has more than "
             "four nodes.",
        assumptions=[]),
}
