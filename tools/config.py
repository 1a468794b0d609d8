"""What is built and run for each property."""

def _cpu():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

CPU = _cpu()
HAVE_AVX = "avx2" in CPU and "fma" in CPU
ARCH = ["-mavx2", "-mfma"] if HAVE_AVX else []

def usable(t):
    return HAVE_AVX or not t.get("avx")

INC = ["-I@REPO@/src", "-I@REPO@", "-I@REPO@/learning", "-I@VERIF@/shim", "-I@VERIF@/harness"]
SAN = ["-fsanitize=address,undefined",
       # only what touches memory or is arithmetic nonsense, not formal pointer rules
       "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=all"]
ASAN = ["-O1", "-g", "-w", "-fopenmp"] + SAN + INC
PURE = ["-O2", "-g", "-w"] + INC              # harness parts that run no code of /repo
ENGINE = ["harness/oracle.cpp", "harness/pbt.cpp", "harness/pbt_main.cpp"]
LIBS = ["-lrapidcheck", "-lboost_program_options", "-lpthread"]
REPO_SRC = ["src/*.cpp", "src/memory_layout/*.cpp", "src/reference_kernels/*.cpp", "src/util/*.cpp",
            "src/variants/*.cpp", "src/variants/components/*.cpp"]
SHIM = "shim/hpx_shim.cpp"

ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "exitcode=99:halt_on_error=1:print_stacktrace=0",
    "OMP_WAIT_POLICY": "passive",
    "LC_ALL": "C",
}
DEADLINE = {"quick": 240, "thorough": 2400}      # no new cases in a campaign after this
CPU_LIMIT = 40  # seconds of CPU per case; a binary may ask for more
SHARD_TIMEOUT = {"quick": 800, "thorough": 7200}

BINARIES = {}

def binary(name, harness, flags=None, repo=None, link=None, **kw):
    flags = ASAN if flags is None else flags
    BINARIES[name] = dict(harness=harness, flags=flags, repo=repo or [], support=ENGINE, link=link or LIBS,
                          link_flags=[f for f in flags if f.startswith(("-fsanitize", "-fno-sanitize", "-fopenmp", "-g"))], **kw)

binary("tasks", ["harness/t_tasks.cpp", SHIM], ASAN + ARCH, REPO_SRC)
binary("par", ["harness/t_par.cpp", SHIM], ASAN + ARCH, REPO_SRC)
PADF = [f if f != "-O1" else "-O2" for f in ASAN] + ARCH
binary("padded", ["harness/t_padded.cpp", SHIM], PADF, REPO_SRC)
OPT = ["-O3", "-g", "-w", "-fopenmp"] + INC + ARCH
binary("padded_opt", ["harness/t_padded.cpp", SHIM], OPT + ["-DMAXN=900"], REPO_SRC)
binary("naive", ["harness/t_naive.cpp", SHIM])
binary("kernel", ["harness/t_kernel.cpp", SHIM], ASAN, REPO_SRC)
# instantiations to fall back on, and what it means that only they compile
NARROWER = [(["-DNO_FLAT"], None),
            (["-DONLY_NUMBERS"], None),
            (["-DONLY_DIM2"], "the templates do not compile for every number of dimensions (1 to 7), only for 2"),
            (["-DONLY_DIM2", "-DONLY_NUMBERS"], "the templates do not compile for every number of dimensions (1 to 7), only for 2")]
binary("layout", ["harness/t_layout.cpp", SHIM], ASAN + ["-DPART=8"], narrower=NARROWER)
binary("views", ["harness/t_layout.cpp", SHIM], ASAN + ["-DPART=9"], narrower=NARROWER)
binary("errors", ["harness/t_layout.cpp", SHIM], ASAN + ["-DPART=16"], narrower=[(e, None) for e, v in NARROWER])
for n, name, opt in [(1, "iter", 0), (2, "iter_layout", 0), (3, "nest", 0), (4, "iter_looped", 1), (5, "looper", 1)]:
    binary(name, ["harness/t_iter.cpp", SHIM], ASAN + ["-DPART=%d" % n], optional=bool(opt))

binary("vast", ["harness/t_vast.cpp"], ["-O2", "-g", "-w"] + INC)
binary("util", ["harness/t_util.cpp", SHIM], ASAN)
binary("alloc", ["harness/t_alloc.cpp"], ASAN)

EXPER_SRC = ["otherExperiments/mult*.cpp"]
SHIPPED = ["-std=c++11", "-O3", "-g", "-w", "-mavx2", "-mfma", "-ftree-vectorize", "-ffast-math", "-funsafe-math-optimizations", "-fopenmp"] + INC
binary("exper", ["harness/t_exper.cpp"], ["-O2", "-g", "-w", "-fopenmp"] + INC, EXPER_SRC, repo_flags=SHIPPED)
# the same sources under the sanitizers (not the assembler parts, which they cannot see)
binary("exper_asan", ["harness/t_exper.cpp"], [f if f != "-O1" else "-O2" for f in ASAN] + ["-DMAXN=256"], EXPER_SRC,
       repo_flags=["-std=c++11", "-O2", "-g", "-w", "-mavx2", "-mfma", "-fopenmp"] + SAN + INC)

binary("bench", ["harness/t_bench.cpp"], ["-O2", "-g", "-w"] + INC, ["otherExperiments/benchmark.cpp"],
       repo_flags=["-std=c++11", "-O2", "-g", "-w", "-Dmain=bench_main", "-ffast-math"] + INC)

APPF = PADF + ["-Dmain=app_main"]
binary("app", ["harness/t_app.cpp", SHIM], PADF, REPO_SRC + ["src/matrix_multiply_application/*.cpp"], repo_flags=APPF)

TSAN = ["-Og", "-g", "-w", "-fopenmp", "-fsanitize=thread", "-DVSHIM_THREADS"] + INC + ARCH
TSENV = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=0"}
for n, name, rs in [(1, "race_hpx", REPO_SRC), (2, "race_padded", REPO_SRC), (3, "race_omp", EXPER_SRC)]:
    fl = TSAN + ["-DPART=%d" % n]
    binary(name, ["harness/t_race.cpp", SHIM, "harness/minigomp.cpp"], fl, rs,
           repo_flags=[f for f in fl if not f.startswith("-DPART")], env=TSENV, tsan=True)
    BINARIES[name]["link_flags"] = ["-fsanitize=thread", "-g"]

# the same properties while several threads are at work, each on its own data
MT = [f if f != "-Og" else "-O1" for f in TSAN] + ["-DTHREADED"]
for name, src, defs, kw in [("layout_mt", "t_layout", ["-DPART=8"], dict(narrower=NARROWER)), ("views_mt", "t_layout", ["-DPART=9"], dict(narrower=NARROWER)),
                            ("errors_mt", "t_layout", ["-DPART=16"], dict(narrower=[(e, None) for e, v in NARROWER])),
                            ("nest_mt", "t_iter", ["-DPART=3"], {}), ("kernel_mt", "t_kernel", [], {}), ("naive_mt", "t_naive", [], {}),
                            ("util_mt", "t_util", [], {}), ("alloc_mt", "t_alloc_mt", [], {})]:
    rs = REPO_SRC if src == "t_kernel" else []
    binary(name, ["harness/%s.cpp" % src, SHIM, "harness/minigomp.cpp"], MT + defs, rs, repo_flags=MT, env=TSENV, tsan=True, **kw)
    BINARIES[name]["link_flags"] = ["-fsanitize=thread", "-g"]
VAST = dict(shards=1, cost=20000, opt={"cpu-limit": 120, "wall-limit": 400})
MTOPT = dict(confirm=(10, 1), opt={"retries": 10, "only": 66})

PROPERTIES = {}

def prop(pid, targets, rule, assumptions, level="exploration"):
    PROPERTIES[pid] = dict(targets=targets, rule=rule, assumptions=assumptions, level=level)

def t(bin, target, quick, thorough=None, **kw):
    return dict(bin=bin, target=target, quick=quick, thorough=thorough or quick * 20, **kw)

RT = "HPX is replaced by a stand-in (shim/) whose controlled scheduler decides the order of tasks, continuations and parallel loop items; only orders it can produce are explored"
SAN_A = "memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer detect"
TOLA = "rounding allowance: the standard forward error bound n*eps*sum|a||b| with a small factor; integer contents must match exactly"

GEN = "Every case is drawn by rapidcheck generators (plus the listed boundary cases, run first) and checked in a worker process. "

prop("C01", [t("tasks", "single", 12000)],
     GEN + "A case is a power-of-two N, contents of A and B (integers, sparse, enumerating times permutation, reals, 40 binades, cancelling), storage order, "
     "block sizes, repetitions, verbosity and a schedule (policy and seed of the controlled task scheduler); the result is compared with an independent reference "
     "product. Non-trivial: distinct case in which the matrix was split into several tasks.",
     [RT, SAN_A, TOLA])
prop("C02", [t("tasks", "pseudodynamic", 9000)],
     GEN + "A case is a power-of-two N, contents, storage order, number of localities, minimum work size, tolerated absolute and relative imbalance, block sizes, "
     "repetitions and a schedule; the result is compared with an independent reference product. Non-trivial: distinct case with several work packages or localities.",
     [RT, SAN_A, TOLA])
prop("C03", [t("tasks", "schedule", 80000), t("tasks", "tolerance", 60000)],
     GEN + "A case is a power-of-two N, a number of localities and the three tuning parameters; the returned schedule is checked against a model: exact cover, legal "
     "splits, a legal reason to stop, no split when tolerance holds at the start. 'tolerance' compares the stop test with the stated inequality. Non-trivial: "
     "distinct case with more than one locality and a matrix that may be split.",
     [RT])
prop("C04", [t("par", "algorithms", 24000), t("par", "looped", 24000), t("par", "semi", 24000)],
     GEN + "A case is a size N, contents, result and input block sizes (dividing or not, oversized, 0 where allowed), and a chunking and order of the parallel loops; "
     "the result is compared with an independent reference product, memory is watched by the sanitizers, the operands must be unchanged. Non-trivial: distinct case "
     "with N >= 2.",
     [RT, SAN_A, TOLA])
prop("C05", [t("padded", "combined", 300, cost=30), t("padded", "kernel_tiled", 300, cost=30), t("padded", "kernel_test", 60, cost=60),
             t("padded_opt", "combined", 240, cost=30), t("padded_opt", "kernel_tiled", 240, cost=30), t("padded_opt", "kernel_test", 120, cost=20)],
     GEN + "A case is a size N near the block boundaries, contents, storage order, repetitions, number of calls on one object, threads and loop order; results are "
     "compared with an independent reference product, once under the sanitizers (N <= 260) and once optimised (N <= 900). Non-trivial: distinct case with N >= 2.",
     [RT, SAN_A, TOLA])
prop("C06", [t("naive", "naive", 40000), t("naive", "short operands", 6000),
             t("naive_mt", "naive in threads", 2400, **MTOPT), t("naive_mt", "shared operands", 1600, **MTOPT)],
     GEN + "A case is a size, element type (double, float, int, 64-bit integers), contents, storage order and thread count, or operands that are too short, which must "
     "not be read past their end. Non-trivial: distinct case with N >= 2 (or a truly short operand).",
     [SAN_A, TOLA])
prop("C07", [t("kernel", "kernel", 40000), t("kernel", "kernel_transposed", 40000), t("kernel", "kernel_transposed_blocked", 40000), t("kernel", "multiplier", 40000)] +
            [t("kernel_mt", k + " in threads", 2400, **MTOPT) for k in ("kernel", "kernel_transposed", "kernel_transposed_blocked")] +
            [t("kernel_mt", "shared operands", 2400, **MTOPT), t("vast", "far blocks", 300, cost=20)],
     GEN + "A case is a matrix size, block position and size, element type, input-block size and contents; the block is compared with the reference product, the buffer "
     "lies between guard zones. Non-trivial: distinct case with a block of more than one component.",
     [SAN_A, TOLA])
prop("C08", [t("layout", "layout", 60000), t("layout_mt", "layout in threads", 1600, **MTOPT),
             t("vast", "vast layout", 1, 6, **VAST)],
     GEN + "A case is a dimension count 1..7, tiles per dimension, tile sizes, element type and allocator; the tiled array is compared element by element with the "
     "stated placement, then undone. Non-trivial: distinct case with more than one tile and more than one element per tile.", [SAN_A])
prop("C09", [t("views", "views", 60000), t("views_mt", "views in threads", 1600, **MTOPT), t("views_mt", "shared views", 1600, **MTOPT), t("vast", "far views", 16000)],
     GEN + "A case is a shape as for C08 plus a history of reads and writes through the views of all tiles (flat offset, index array, separate indices), run against a "
     "model array. Non-trivial: distinct case with more than one tile and more than one element per tile.", [SAN_A])
prop("C10", [t("nest", "loop nest", 30000), t("looper", "looper", 10000), t("iter", "vector nest", 20000), t("iter", "blocked", 30000),
             t("iter_looped", "looped blocked", 20000), t("iter_layout", "layout vector nest", 20000), t("iter_layout", "layout blocked", 30000), t("nest_mt", "loop nest in threads", 1600, **MTOPT),
             t("iter", "sizes", 800), t("iter_looped", "looped sizes", 800), t("iter_layout", "layout sizes", 800)],
     GEN + "A case is a dimension count, bounds, steps, and for blocked iteration a stack of blocking levels, parallel dimensions, chunking and order; the calls are "
     "compared with the enumerated grid (sequence for nests, set and work-item assignment for blocked iteration). Non-trivial: distinct case with more than one point "
     "(and at least one blocking level).", [RT, SAN_A])
FREE = ["naive", "transposed", "counter", "blocked2", "blocked4", "asm"]
BIG = ["exchanged", "intrinLoop", "gpu", "register", "gpuasm"]
prop("C11", [t("exper", v, 8000, avx=True) for v in FREE] + [t("exper", v, 160, avx=True, cost=40) for v in BIG] +
            [t("exper_asan", v, 1600, avx=True) for v in FREE] + [t("exper_asan", v, 40, avx=True, cost=150, shards=4) for v in BIG],
     GEN + "A case is a size admissible for the variant, contents and thread count; the result is compared with an independent reference product, guard zones and "
     "operands are compared afterwards; once with the shipped flags, once under the sanitizers. Non-trivial: distinct case with n >= 2.",
     ["the assembler and intrinsics parts need AVX2 and FMA (targets are skipped and listed where the CPU lacks them)", SAN_A, TOLA])
prop("C12", [t("app", "options", 2400), t("app", "unknown", 800), t("app", "help", 800)],
     GEN + "A case is a command line (documented algorithm, subset of options, spelling, order) or an unknown algorithm name or --help, plus localities and a schedule; "
     "each is a run of the real program in a process of its own, whose output and exit status are compared with the documented behaviour. Non-trivial: distinct case "
     "that prints matrices, checks, omits options, is refused or asks for help with other options.", [RT, SAN_A])
RACE = dict(confirm=(10, 1), opt={"retries": 10, "only": 66})
prop("C13", [t("race_hpx", v, 320, cost=10, **RACE) for v in ("single", "pseudodynamic", "algorithms", "looped", "semi")] +
            [t("race_padded", v, 24, cost=400, **RACE) for v in ("combined", "kernel_tiled")] +
            [t("race_padded", "kernel_test", 8, cost=400, **RACE)] +
            [t("race_omp", v, 320, cost=5, avx=True, **RACE) for v in ("naive", "experiment naive", "experiment transposed", "counter", "blocked2", "blocked4", "asm")] +
            [t("race_omp", v, 8, cost=400, avx=True, **RACE) for v in BIG],
     GEN + "A case is a variant, size, blocking, number of threads or localities, repetitions; it runs on real threads under ThreadSanitizer, which reports conflicting "
     "accesses not ordered by creation, continuation, waiting or joins. Non-trivial: distinct case in which several activities run.",
     ["HPX and OpenMP are replaced by runtimes on std::thread whose synchronisation is no stronger than documented; accesses in inline assembler are invisible to "
      "ThreadSanitizer", TOLA])
prop("C14", [t("util", "create", 20000), t("util", "transpose", 40000), t("util", "print", 40000),
             t("util_mt", "create in threads", 3000, **MTOPT), t("util_mt", "transpose in threads", 3000, **MTOPT),
             t("vast", "vast matrices", 1, 6, **VAST)],
     GEN + "A case is a helper, shape, element type, allocator and contents; vectors are compared with the definition, printed text with the expected rows on the "
     "expected stream. Non-trivial: distinct case with more than one component.", [SAN_A])
prop("C15", [t("alloc", "histories", 80000), t("alloc_mt", "histories in threads", 4000, **MTOPT)],
     GEN + "A case is a history of creating allocators (element type, count, alignment, residue of the backing storage), filling, checking and destroying them, run "
     "against a model of the live storage with operator new and delete recorded. Non-trivial: distinct case with several live allocators or a backing block that is "
     "not aligned already.", [SAN_A])
prop("C16", [t("errors", "messages", 40000), t("errors", "mismatch", 40000),
             t("errors_mt", "messages in threads", 4000, **MTOPT), t("errors_mt", "mismatch in threads", 4000, **MTOPT)],
     GEN + "A case is a message text, an exception type and a history of copies, moves and rethrows, or an array dimension and a tiling description of another (or the "
     "same) length. Non-trivial: distinct case with a non-empty message, or any dimension pair.", [SAN_A])
prop("C17", [t("app", "self-check", 2400)],
     GEN + "A case is a command line with checking requested and one injected fault: a corrupted component of a task result, a dropped loop item, a corrupted vector "
     "store, or corrupted components of the final result (one, or several: cancelling, exchanged, rotated, every one, rest zero), at a generated place and by a generated amount (3e-10 to 1e300, infinite, NaN, and 1e-12 which must pass), "
     "or none; the program's verdict is compared with the true error of the matrix it printed. Non-trivial: distinct case with a corrupted result or N >= 2.",
     [RT, SAN_A], level="fault_enumeration")

prop("C18", [t("bench", "benchmark", 120, 2000)],
     GEN + "A case is a variant name, another name or none, and a result pattern; each is a run of the real benchmark program in a process of its own with recording "
     "stand-ins for the multiplications, which inspect the operands and write the pattern. Non-trivial: every distinct case.",
     ["the multiplications themselves are replaced (they are decided by C11)"])

for _p in PROPERTIES.values():
    if any(x["bin"].endswith("_mt") for x in _p["targets"]):
        _p["rule"] += (" Targets '... in threads' run the same check on 2 to 4 threads with separate data, 'shared ...' on the same operands, under ThreadSanitizer.")
    if any(x["bin"] == "vast" for x in _p["targets"]):
        _p["rule"] += " 'vast' and 'far' targets use lazily mapped storage beyond 2^31 or 2^32 elements."

TECHNIQUE = {
    "C01": "property-based testing over inputs and controlled task schedules, reference-product oracle",
    "C02": "property-based testing over inputs, localities and controlled schedules, reference-product oracle",
    "C03": "property-based testing of the schedule against an exact-cover and stop-condition model",
    "C04": "property-based testing over inputs, blockings and loop orders, reference-product oracle, sanitizers",
    "C05": "property-based testing around block boundaries, reference-product oracle, sanitizers",
    "C06": "property-based testing against an integer and error-bounded reference product",
    "C07": "property-based testing of kernels against the reference block, guard zones, sanitizers",
    "C08": "property-based testing: placement model and round trip",
    "C09": "stateful property-based testing of views against a model array",
    "C10": "property-based testing against the enumerated grid",
    "C11": "differential property-based testing of all variants against a reference product",
    "C12": "generated command lines, output and status compared with the documented behaviour",
    "C13": "generated parallel runs under ThreadSanitizer",
    "C14": "property-based testing against definitions, involution and expected text",
    "C15": "stateful property-based testing of allocator histories against a storage model",
    "C16": "property-based testing of messages, copies and dimension mismatches",
    "C17": "generated single-fault injection, verdict compared with the true error",
    "C18": "generated benchmark runs with recording stand-ins",
}
