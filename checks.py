"""Which driver parts decide which property, and what the evidence says about them."""
import pydrv.build
def P(name, variant, quick, thorough, need=(), **kw): return dict(name=name, variant=variant, n=(quick, thorough), need=list(need), **kw)

SAN = r"^(asan|ubsan|tsan|memcheck|sanitizer|signal)"   # for C12, what other parts report counts only if it is a memory error
VG = dict(label="memcheck", wrap=["valgrind", "--error-exitcode=66", "-q", "--log-fd=2"], env={"VERIF_SMALL": "1"})
CHECKS = {
    "C01": [P("c01.grid", "plain", 2400, 24000, ["samples_compared"]), P("c01.large", "plain", 32, 400, ["samples_compared"]), P("c01.grid", "asan", 160, 1600)],
    "C02": [P("c02.interp", "plain", 2400, 24000, ["samples_compared"]), P("c02.large", "plain", 24, 400, ["samples_compared"]), P("c02.whole", "plain", 24, 400, ["samples_compared", "signals_bounded"]), P("c02.interp", "asan", 200, 2000)],
    "C03": [P("c03.dist", "plain", 4000, 40000, ["signals_compared", "runs_on_subcommunicators", "runs_with_messages"]), P("c03.many", "plain", 80, 800, ["signals_compared"]), P("c03.dist", "asan", 400, 4000)],
    "C04": [P("c04.threads", "tsan", 480, 5000, ["signals_compared"]), P("c04.threads", "plain", 1200, 12000, ["signals_compared"]), P("c04.many", "plain", 48, 480, ["signals_compared"]), P("c04.many", "tsan", 8, 160, ["signals_compared"])],
    "C05": [P("c05.rows", "plain", 4000, 40000, ["rows_checked", "runs_on_subcommunicators"]), P("c05.many", "plain", 80, 800, ["rows_checked"]), P("c05.huge", "plain", 1, 2, ["rows_checked"]), P("c05.rows", "asan", 400, 4000)],
    "C06": [P("c06.calib", "plain", 4000, 40000, ["signals_compared"]), P("c06.calib", "asan", 400, 4000)],
    "C07": [P("c07.history", "plain", 1600, 16000, ["convolutions_compared"]), P("c07.history", "asan", 160, 1600)],
    "C08": [P("c08.load", "plain", 4000, 40000, ["coefficients_compared", "refused_loads"]), P("c08.load", "asan", 500, 5000)],
    "C09": [P("c09.roundtrip", "plain", 4000, 40000, ["coefficients_compared"]), P("c09.roundtrip", "asan", 500, 5000)],
    "C10": [P("c10.capi", "plain", 1200, 12000, ["operations", "signals_compared"]), P("c10.capi", "asan", 200, 2000)],
    "C11": [P("c11.invalid", "plain", 1600, 16000, ["illegal_angles", "bad_files", "valid_convolutions_after"]), P("c11.invalid", "asan", 240, 2400), P("c11.damaged", "plain", 3200, 64000), P("c11.damaged", "asan", 480, 10000)],
    "C12": [P("c12.memory", "asan", 1200, 12000, ["convolutions"]), P("c12.leak", "asan", 240, 2400, ["cycles"]), P("c12.tools", "asan", 240, 2400, ["cycles_of_ta", "cycles_of_wg", "cycles_of_ce", "cycles_of_fl", "cycles_of_ms", "cycles_of_tx", "cycles_of_Cu", "cycles_of_cn"]), P("c12.tools", "plain", 240, 2400, ["tool_cycles"]), P("c12.fill", "plain", 480, 5000, ["runs_compared"]), P("c12.memory", "plain", 64, 1600, ["convolutions"], **VG), P("c12.leak", "plain", 120, 1200, ["cycles"]),
            P("c07.history", "asan", 48, 800, only=SAN), P("c08.load", "asan", 160, 2400, only=SAN), P("c10.capi", "asan", 80, 800, only=SAN), P("c14.wigner", "asan", 80, 800, only=SAN), P("c15.tools", "asan", 80, 800, only=SAN), P("c16.wrappers", "asan", 160, 1600, only=SAN), P("c17.history", "asan", 80, 1600, only=SAN), P("c19.containers", "asan", 80, 800, only=SAN)],
    "C13": [P("c13.fft", "plain", 6000, 60000, ["lengths"]), P("c13.fft", "asan", 400, 4000), P("c13.large", "plain", 32, 320, ["lengths"]), P("c13.history", "plain", 4000, 40000, ["transforms_compared"]), P("c13.history", "asan", 400, 4000), P("c13.threads", "tsan", 200, 2000, ["threads"]), P("c13.threads", "plain", 400, 4000, ["threads"])],
    "C14": [P("c14.wigner", "plain", 1800, 18000, ["elements_compared"]), P("c14.wigner", "asan", 200, 2000), P("c14.risbo", "plain", 300, 3000, ["elements_compared"]), P("c14.risbo", "asan", 80, 800), P("c14.risbo", "tsan", 80, 800)],
    "C15": [P("c15.rotate", "plain", 4000, 40000, ["rotations", "field_values_compared", "refusals"]), P("c15.rotate", "asan", 160, 1600), P("c15.rotate", "tsan", 160, 1600), P("c15.tools", "plain", 3000, 40000, ["coefficients_compared", "multipoles_compared", "container_programs"]), P("c15.tools", "asan", 160, 1600), P("c15.random", "plain", 1600, 16000, ["random_coefficients"]), P("c15.random", "asan", 120, 1200)],
    "C16": [P("c16.wrappers", "plain", 4000, 60000, ["operations", "values_compared", "ranges_shared", "reductions_op_0", "reductions_op_1", "reductions_op_2", "reductions_op_3", "initialisations", "aliased_refused"]), P("c16.wrappers", "asan", 800, 8000)],
    "C17": [P("c17.history", "plain", 4000, 60000, ["elements_compared", "keys_compared", "pixels_compared", "refusals", "files_examined", "keys_deleted", "structure_checks", "comments_found", "keyword_comments"]), P("c17.history", "asan", 480, 6000), P("c17.handles", "plain", 400, 4000, ["handles", "refusals"]), P("c17.handles", "asan", 80, 1600)],
    "C18": [P("c18.python", None, 384, 6000, ["loads", "coefficients_compared", "rows_compared", "convolutions", "refusals", "detectors_compared", "outliving_arrays", "normalizations", "removals", "set_data", "deletions", "cycles"], script=pydrv.build.script()),
            P("c18.python", None, 96, 1000, ["convolutions"], label="asan", script=pydrv.build.script(True))],
    "C19": [P("c19.sort", "plain", 4000, 60000, ["rows_sorted"]), P("c19.sort", "asan", 600, 6000), P("c19.text", "plain", 4000, 60000, ["conversions", "words", "command_lines", "files"]), P("c19.text", "asan", 400, 4000), P("c19.containers", "plain", 4000, 60000, ["container_operations"]), P("c19.containers", "asan", 400, 4000),
            P("c19.rotation", "plain", 4000, 60000, ["rotations"]), P("c19.rotation", "asan", 200, 2000), P("c19.numbers", "plain", 2000, 30000, ["numbers", "three_j_symbols", "random_numbers"]), P("c19.numbers", "asan", 200, 2000)],
    "C20": [P("c20.removal", "plain", 4000, 40000, ["removals", "convolutions"]), P("c20.removal", "asan", 400, 4000)],
    "C21": [P("c21.svd", "plain", 4000, 40000, ["decompositions", "solutions_compared", "spectra_compared"]), P("c21.svd", "asan", 400, 4000), P("c21.equal", "plain", 160, 3200, ["equal_value_matrices"]), P("c21.time", "plain", 1600, 16000, ["dates"]), P("c21.time", "asan", 160, 1600), P("c21.misc", "plain", 640, 6400, ["memory_figures", "clock_readings", "blocks", "messages_captured"]), P("c21.misc", "asan", 160, 1600)],
    "C22": [P("c22.types", "plain", 1600, 16000, ["vector_operations", "complex_operations", "vector3_operations", "table_rows", "error_reports", "aligned_arrays"]), P("c22.types", "asan", 160, 1600), P("c22.diagnosis", "plain", 320, 3200, ["job_ends"])],
}
CASES = " Cases are drawn from a seeded generator; every case is a run of the real library in its own simulated MPI ranks (or in one isolated process), and two cases are the same when their full parameter line is."
RULES = {
    "C01": "Random sky, beam, limits, order, ranks and grid pointings; each signal is compared with the defining sum evaluated in long double; a second part has band limits 150-3000 and few rings. Non-trivial: lmax >= 2.",
    "C02": "Random pointings of nine kinds and orders 0-13; each signal is compared with the Lagrange interpolation of the defining sum; a second part has band limits 150-3000. Non-trivial: lmax >= 2 and order >= 1.",
    "C03": "Random sample sets, partitions (seven kinds) over 2-12 ranks and arrival delays against one rank; every collective call is matched by the communication monitor. Non-trivial: at least one sample; distinct arrival orders of collectives count too.",
    "C04": "Threaded runs under ThreadSanitizer with randomised scheduling and uninstrumented runs with 2-16 threads against one thread. Non-trivial: more than one sample.",
    "C05": "Row sets with duplicates, disorder and hostile result columns; angles compared bit for bit, index exactly, signal with that of the row convolved in another order on one rank. Non-trivial: more than one row.",
    "C06": "Random sequences of normalise, reread, set_detector, set_epsilon followed by convolutions with and without calibration, against the factors of a sequential model.",
    "C07": "Random histories over three skies, three beams, two detectors, several convolvers and three communicators; each convolution is compared with freshly built objects.",
    "C08": "Random coefficient files (per-table limits, keys, precision, order, omissions) and sequences of valid and excessive loads; every coefficient on every rank compared with the table.",
    "C09": "Random coefficient sets with special values written by the library, the table examined through cfitsio and read back with other limits and precisions.",
    "C10": "The same random operation sequence through the C and the C++ interface (values compared bit for bit), and failing calls of every kind, whose return code is compared with the documented one. Distinct: the sequence and its parameters.",
    "C11": "Invalid requests of many kinds (illegal angles on some ranks, excessive limits, damaged, missing and truncated files, missing polarisation) placed anywhere in a valid history: every rank must see the exception, and the objects must work afterwards as before. Files damaged byte by byte in headers and data must be refused or read.",
    "C12": "Hostile shapes (tiny limits with high orders, poles, empty ranks, extreme angles) under AddressSanitizer and UBSan and under memcheck; the same run with different heap contents; live heap after each of 14 identical cycles, for the convolution and for each of the building blocks (transforms, Wigner functions, coefficient sets, files, messages, text, C utilities, containers); workloads of other properties with only memory reports counting.",
    "C13": "Lengths 1-66 plus primes, products and Bluestein lengths; every storage scheme against the defining sum in long double, power and round trip; histories of plans copied, assigned, resized and destroyed against fresh plans bit for bit; plans used by concurrent threads under ThreadSanitizer.",
    "C14": "Random limits, thresholds, angles (poles, beyond a turn, tiny) and preparation sequences; every element of single and paired columns and of the four full-matrix recursions against a long-double recursion.",
    "C15": "Random coefficient sets (single and double precision, full, sparse, single coefficients) rotated by random and special angles and matrices with 1-9 threads: the field with the rotated coefficients at the rotated place must be the old field; power, inverse; smoothing windows, spectra and containers against their definition; realisations reproducible, zero where the spectrum is zero, variances and correlations within 9 sigma.",
    "C16": "Random programs of wrapper calls of every kind (raw, array and scalar forms, ten element types, uneven and empty lengths, every root and operation) over world, duplicated, split, self communicators with injected delays and synchronous sends; every rank computes what it must receive, buffers lie between guards; range sharing over ranks, threads and chunks against its definition.",
    "C17": "Random histories on one file (tables of both kinds, images, keywords, HDU changes, requests that must be refused) against a model of its contents; the file is then examined with CFITSIO alone and read back through a new handle. Handles without files, bad files, odd column types. Elements never written are not judged; ASCII tables and floating-point keywords are judged to their printed precision.",
    "C18": "Random histories of Python calls (loads, limits, coefficient access, normalisation, removals, detectors, pointings, convolutions, deletions in any order, wrong arguments) under mpirun with 1-4 processes, every step also done by the C++ classes in the same process: values compared bit for bit, refusals compared, and the loaded coefficients compared with the file. Non-trivial: all. Distinct: the sequence of calls.",
    "C19": "Sorts of all kinds on hostile keys (ties, signed zeros, infinities, presorted) must give the same rows once each, ascending; random numbers, words, command lines and parameter files through every conversion and parser against small models; random operation sequences on the containers against std containers; rotations against quaternion-free long-double algebra; numeric helpers against wide integers and sums.",
    "C20": "Random removal sequences; every coefficient and a later convolution compared with the model.",
    "C21": "Matrices with known spectra, coinciding singular values, small-integer, diagonal, triangular, sparse, rank-one and wide ones against orthogonality, reconstruction and the long-double solution; dates of every kind under changing time zones against calendar arithmetic; resident memory against what was touched; clock against the monotonic clock from both sides; blocks with patterns; messages and exit status of captured children.",
    "C22": "Random and special operand values for every operation of the vector, complex and 3-vector types against scalar arithmetic, bit for bit or to rounding; every row of the type tables; error reports captured; jobs ended by an exception on one rank. Non-trivial: every case (each several hundred operations).",
}
for k in RULES: RULES[k] += CASES if k != "C18" else " Cases are drawn from a seeded generator."
ASSUME = {"*": ["The message-passing layer is the simulated one in /verif/simmpi (one process per rank), which implements the MPI calls the library uses and checks their arguments; only executions of the generated workloads are observed."], "C18": ["This property is decided with the installed Open MPI, mpi4py and numpy instead of the simulated layer."]}
TECH = {
    "C01": "runtime monitoring: reference-model oracle on signals; ASan+UBSan", "C02": "runtime monitoring: reference-model oracle on signals; ASan+UBSan",
    "C03": "runtime monitoring: MPI call-matching monitor under injected delays, differential oracle; ASan+UBSan", "C04": "ThreadSanitizer with randomised scheduling; differential runtime oracle",
    "C05": "runtime monitoring: row conservation and identity oracle; ASan+UBSan", "C06": "runtime monitoring: sequential model of the call history",
    "C07": "runtime monitoring: recorded call histories against fresh objects", "C08": "runtime monitoring: coefficient oracle on every rank; ASan+UBSan",
    "C09": "runtime monitoring: write/inspect/read-back oracle; ASan+UBSan", "C10": "runtime monitoring: differential oracle between interfaces, failure injection; ASan+UBSan", "C11": "runtime monitoring: fault injection (bad arguments, damaged files) with per-rank outcome oracle; ASan+UBSan", "C12": "AddressSanitizer, UndefinedBehaviorSanitizer, memcheck; heap-fill differential; live-memory monitor", "C13": "runtime monitoring: defining-sum oracle, differential histories; ThreadSanitizer; ASan+UBSan",
    "C14": "runtime monitoring: reference-recursion oracle over call histories; ASan+UBSan; ThreadSanitizer", "C15": "runtime monitoring: field-value, window and sum oracles, statistical monitor; ASan+UBSan; ThreadSanitizer", "C16": "runtime monitoring: MPI call-matching monitor under injected delays, sequential model of each operation; ASan+UBSan", "C17": "runtime monitoring: file-content model over operation histories, independent examination of the file; ASan+UBSan", "C18": "runtime monitoring: differential oracle between Python and C++ over call histories, misuse and fault injection; AddressSanitizer", "C19": "runtime monitoring: small reference models per operation sequence; ASan+UBSan", "C20": "runtime monitoring: coefficient oracle over call histories", "C21": "runtime monitoring: reference-model oracle (decomposition identities, calendar arithmetic, kernel figures); ASan+UBSan", "C22": "runtime monitoring: scalar-arithmetic oracle on every operation, captured error reports, job-end monitor; ASan+UBSan",
}
NOTE = {k: "Held on the generated executions only; the generator, the oracle and the simulated MPI layer are trusted. Each run is reproducible from VERIF_SEED." for k in TECH}
