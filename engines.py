"""Which simulators exist, how they are built from /repo, and which of them decide which property."""
import os

BASE = ["-std=c++17", "-DNDEBUG", "-fpermissive", "-w", "-include", "utility", "-DCOOLDIFF_SCALAR_TYPE=2",
        "-DUSE_DYNAMIC_ASSERTIONS", "-DUSE_VIRTUAL_FUNCTIONS"]


def std_flags(cfg):
    return BASE + (["-DUSE_COMPLEX_MATH"] if cfg.startswith("cd") else [])


def lib_sources(repo):
    return [(os.path.join(d, f), "lib") for d, _, ff in sorted(os.walk(repo + "/src")) for f in sorted(ff) if f.endswith(".cpp")]


def engine(harness, extra=None):
    def sources(repo, sim):
        s = (extra(repo, sim) if extra else []) + [(sim + "/" + harness, "harness"), (sim + "/simcore.cpp", "core")]
        return s + lib_sources(repo)
    return sources


def matforms(repo, sim):
    return [(sim + "/matforms.cpp", "harness", "-DPART=%d" % p) for p in (8, 12, 9, 10, 11, 5, 6, 7, 2, 1, 3, 4)]


ENGINES = {
    "scalar": {"flags": std_flags, "sources": engine("scalar.cpp"), "harness_flags": ["-O0"], "lib_flags": ["-O1"]},
    "matrix": {"flags": std_flags, "sources": engine("matrix.cpp", matforms), "harness_flags": ["-O0"], "lib_flags": ["-O1"]},
}
ENGINES["container"] = {"flags": std_flags, "sources": engine("container.cpp"), "harness_flags": ["-O0"], "lib_flags": ["-O1"]}
ENGINES["shape"] = {"flags": std_flags, "sources": engine("shape.cpp", matforms), "harness_flags": ["-O0"], "lib_flags": ["-O1"]}
ENGINES["random"] = {"flags": std_flags, "sources": engine("random.cpp"), "harness_flags": ["-O1"], "lib_flags": ["-O1"], "link": ["-ldl"]}



def par_flags(cfg):
    return std_flags(cfg) + ["-DUSE_CXX_PARALLEL_POLICY", "-fsanitize=thread"]


def scheduled(harness, extra=None):
    """engines whose threads run under the simulated scheduler: every memory access is a point where the seed may switch"""
    base = engine(harness, extra)
    return lambda repo, sim: base(repo, sim) + [(sim + "/sched.cpp", "core")]


PAR = {"flags": par_flags, "harness_flags": ["-O0"], "lib_flags": ["-O1"], "link": ["-ldl"], "inc_first": ["-I@SIM/shadow"]}
ENGINES["pscalar"] = dict(PAR, sources=scheduled("scalar.cpp"))
ENGINES["pmatrix"] = dict(PAR, sources=scheduled("matrix.cpp", matforms))
ENGINES["pcontainer"] = dict(PAR, sources=scheduled("container.cpp"))


def examples(*dirs):
    return lambda repo, sim: [(os.path.join(repo, d, f), "example") for d in dirs for f in sorted(os.listdir(os.path.join(repo, d))) if f.endswith(".cpp")]


def loader_sources(repo, sim):
    main = (repo + "/example/GaussNewton/main.cpp", "example", "-Dmain=gn_main", "-I" + sim + "/shadowgn")
    return [main] + examples("example/GaussNewton/src")(repo, sim)


def hook_flags(cfg):
    return std_flags(cfg) + ["-DCOOLDIFF_SIM_HOOKS"]


def train_flags(cfg):
    return hook_flags(cfg) + ["-fsanitize=thread"]


EX = {"flags": std_flags, "harness_flags": ["-O0"], "example_flags": ["-O1"], "lib_flags": ["-O1"], "link": ["-ldl"]}
ENGINES["gauss"] = dict(EX, sources=engine("gauss.cpp", examples("example/GaussNewton/src")), incroots=["example/GaussNewton/include"])
ENGINES["pgauss"] = dict(PAR, example_flags=["-O0"], sources=scheduled("gauss.cpp", examples("example/GaussNewton/src")), incroots=["example/GaussNewton/include"])
ENGINES["loader"] = dict(EX, sources=engine("loader.cpp", loader_sources), incroots=["example/GaussNewton/include"])
ENGINES["nnet"] = dict(EX, flags=hook_flags, sources=engine("nnet.cpp", examples("example/NeuralNet/src")), incroots=["example/NeuralNet/include"])
ENGINES["tnnet"] = dict(EX, flags=train_flags, sources=scheduled("nnet.cpp", examples("example/NeuralNet/src")), incroots=["example/NeuralNet/include"])

REAL = ["all of /repo/src and /repo/include (CPU backends), compiled unmodified"]
STUB = ["heap (operator new/delete and malloc of the process go to a poisoned, guarded, failure-injecting allocator)",
        "standard output (captured, diagnostics counted)"]
ASSUME = ["the simulated clients are well-behaved API users: calls never overlap in time, operands outlive expressions",
          "operand values are drawn inside the domain of every function with a margin; values outside it are not judged"]
SRULE = ("a case is one seeded history: 1-4 clients, 12-60 (thorough 120) operations on a shared graph of scalar expressions, "
         "seed decides operands, formulas, order and allocation failures; non-trivial when at least two answers were compared with the reference")


MRULE = ("a case is one seeded history: 1-4 clients, 12-60 (thorough 120) operations (define, redefine, extend in place, update operands, "
         "evaluate, forward and reverse passes over any operand, backend switches, allocation failures) on a shared graph of matrix "
         "expressions with shapes 1x1 to 4x4; non-trivial when at least two answers were compared with the reference")


def leg(engine, config, q, t, **kw):
    return dict({"engine": engine, "config": config, "quick": q, "thorough": t}, **kw)


def check(legs, rule, level="exploration", real=REAL, stub=STUB, assume=ASSUME):
    return {"level": level, "rule": rule, "real": real, "stub": stub, "assumptions": assume, "legs": legs}


def scalar(q=(9000, 22), t=(200000, 330), cfgs=("cd", "rd")):
    return [leg("scalar", c, q, t) for c in cfgs]


def matrix(cfg, q=(6000, 30), t=(200000, 330)):
    return [leg("matrix", cfg, q, t)]


def matrix2(first, second):
    """both scalar types; the second with fewer runs"""
    return matrix(first, (5000, 28)) + matrix(second, (4000, 24))


KRULE = ("a case is one seeded history: 1-4 clients create, copy, move, assign, extract, update, pad, reshape and destroy up to a dozen real or "
         "complex matrices, allocation failures at any point; every matrix is compared bit for bit with a model after every step; "
         "non-trivial when at least two matrices were compared")


def container(q=(9000, 25), t=(200000, 330), cfgs=("cd", "rd")):
    return [leg("container", c, q, t) for c in cfgs]


PRULE = ("a case is one seeded history (as for the sequential checks) played in two worlds: every parallel part in order, and on up to five simulated "
         "threads with pre-emption at single memory accesses, element order shuffled; every answer and shape compared; "
         "non-trivial when at least two answers were compared")

SHRULE = ("a case is one seeded history of definitions, redefinitions, evaluations and forward derivatives of expressions over operands of 1x1 to 4x4 "
          "(results up to 24x24), element, row, column and block accesses, data copies, resized, reshaped and redefined operands, backend switches and "
          "allocation failures; up to the first call that does not fit (half of the histories have one); an independent model of shapes decides which "
          "calls must be reported; non-trivial when a mismatch was reported or at least four fitting calls were made")

FRULE = ("a case is one seeded history of 4-28 (thorough 64) random fills over ten distribution kinds, their arguments and eleven shapes, "
         "played in three simulated worlds (same entropy and another clock; other entropy); non-trivial when at least 20 checks were made")

NRULE = ("a case is one seeded history of up to nine (thorough sixteen) operations on two networks of six designs: create, train (random batch size, "
         "epochs, rate), set weights, change data, measure, switch backend, concurrent matrix operators; ")

CHECKS = {
    "C01": check(scalar(), SRULE),
    "C02": check(scalar(), SRULE),
    "C03": check(scalar(), SRULE),
    "C04": check(scalar(), SRULE),
    "C05": check(matrix2("rd", "cd"), MRULE),
    "C06": check(matrix2("cd", "rd"), MRULE),
    "C07": check(matrix2("rd", "cd"), MRULE),
    "C08": check(matrix2("cd", "rd"), MRULE),
    "C09": check(scalar(q=(9000, 12), cfgs=("cd",)) + matrix("rd", q=(5000, 25)), SRULE + "; the matrix leg: " + MRULE),
    "C10": check(scalar(q=(9000, 12), cfgs=("cd",)) + matrix("rd", q=(5000, 25)), SRULE + "; the matrix leg: " + MRULE, level="fault_enumeration"),
    "C11": check([leg("pmatrix", "rd", (4000, 30), (200000, 330), workers=4), leg("pcontainer", "rd", (4000, 20), (200000, 330), workers=1),
                  leg("pscalar", "rd", (2000, 20), (200000, 330), workers=1),
                  leg("pgauss", "rd", (2000, 20), (100000, 330), workers=2)], PRULE,
                 stub=STUB + ["the parallel algorithms of <execution>: every element function runs on simulated threads under the seeded scheduler",
                              "thread creation, joining, locks, conditions, once-flags and static-initialisation guards are simulated"],
                 assume=ASSUME + ["a parallel algorithm may run its element functions in any order and interleaving the C++ standard allows for the parallel policy",
                                  "memory is sequentially consistent (no weak-memory reorderings are simulated)"]),
    "C12": check([leg("tnnet", "rd", (14000, 75), (200000, 600))], NRULE +
                 "played without threads and on simulated threads pre-empted at single memory accesses; non-trivial when at least four values were compared",
                 real=REAL + ["example/NeuralNet/include/NeuralNet.hpp and Layer, compiled with the hook COOLDIFF_SIM_HOOKS"],
                 stub=STUB + ["thread creation, joining, locks, conditions, once-flags and static-initialisation guards are simulated",
                              "pinned GPU memory is served by the CPU memory strategy (hook)"],
                 assume=["operators run concurrently write to separate, already sized results and only read shared operands",
                         "memory is sequentially consistent (no weak-memory reorderings are simulated)"]),
    "C15": check([leg("gauss", c, (40000, 40), (400000, 330)) for c in ("rd", "cd")],
                 "a case is one seeded history of solver configuration, solving, variable, data, oracle and backend changes, direct use of the "
                 "residuals, their Jacobians and Hessians, and allocation failures, over eight residual models and several solvers; "
                 "non-trivial when at least two answers were compared", level="fault_enumeration",
                 real=REAL + ["example/GaussNewton/src and include, compiled unmodified"],
                 assume=["a step is judged only while the normal matrix is well conditioned"]),
    "C16": check([leg("loader", c, (5000, 25), (100000, 330)) for c in ("rd", "cd")],
                 "a case is one seeded history of up to eight (thorough twenty) loads of a pair of files of 1-300 rows and 1-4 columns in varied formats, "
                 "read through a simulated file system that splits and interrupts reads, tears or grows files, fails opens and reads; "
                 "non-trivial when at least three values were compared", level="fault_enumeration",
                 real=REAL + ["example/GaussNewton/main.cpp LoadData with the C++ library's own streams"],
                 stub=STUB + ["fopen, read, readv and close on the two data files"],
                 assume=["a file whose last line is torn inside a number is judged on its complete lines only",
                         "the C++ streams swallow failed allocations: after one only memory safety is judged"]),
    "C18": check([leg("shape", c, (15000, 25), (400000, 330)) for c in ("rd", "cd")], SHRULE,
                 assume=["a history ends with its first reported mismatch (the assertion ends the process there)",
                         "whether a matrix is singular is not a question of shapes"]),
    "C20": check([leg("nnet", "rd", (14000, 50), (200000, 330))], NRULE + "every accuracy, and the accuracy and loss printed by training, is recomputed by hand; "
                 "allocations fail at any point; non-trivial when at least two reports were compared",
                 real=REAL + ["example/NeuralNet/include/NeuralNet.hpp and Layer, compiled with the hook COOLDIFF_SIM_HOOKS"],
                 stub=STUB + ["pinned GPU memory is served by the CPU memory strategy (hook)"],
                 assume=["rows whose two best classes differ by less than 1e-9 may count either way", "the batch size is at most the number of rows"]),
    "C13": check(container(), KRULE),
    "C14": check([leg("random", "rd", (4000, 30), (200000, 330))], FRULE, level="exploration",
                 stub=["entropy (std::random_device, getrandom, getentropy) and clocks come from the plan", "standard output"],
                 assume=["the pseudo-random engine is seeded from std::random_device, getrandom or getentropy",
                         "statistical thresholds put the chance of a false alarm per test below 1e-9"]),
    "C17": check(scalar(q=(9000, 12), cfgs=("cd",)) + matrix("cd", q=(5000, 25)) + container(q=(5000, 10), cfgs=("rd",)),
                 SRULE + "; the matrix leg: " + MRULE + "; the container leg: " + KRULE),
}
