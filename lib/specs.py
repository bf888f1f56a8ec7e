"""What each property's check is made of."""

import os

import environments
import headers


def parts(source, n):
    return {"p%d" % i: (source, ["-DPART=%d" % i]) for i in range(n)}


REAL = "exhaustive explicit enumeration on the real code, every answer compared with an i128 reference model"
NOTE = ("Exhaustive within the bounds stated in DESIGN.md (small boxes completely, then a lattice of boundary "
        "values of the representation, crossed completely); trusts g++ 13, -fwrapv and the reference model.")


def enum(source, n=4, note=NOTE, technique=REAL):
    return {"parts": parts(source, n), "technique": technique, "level_note": note}


POLICIES = [a + b for a in ("safe", "fast") for b in ("", "_reduced_i", "_reduced_o", "_reduced_io")]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
# undefined behaviour ends the program where it happens
TRAPS = ["-fno-wrapv", "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero",
         "-fsanitize-undefined-trap-on-error"]
CONSTEXPR = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=1000000", "-fconstexpr-depth=20000"]

NOT_CLAIMED = {}

SPECS = {
    "C01": enum("c01.cpp"),
    "C02": enum("c02.cpp"),
    "C03": enum("c03.cpp"),
    "C04": enum("c04.cpp"),
    "C05": enum("c05.cpp"),
    "C06": enum("c06.cpp"),
    "C07": enum("c07.cpp"),
    "C08": enum("c08.cpp"),
    "C09": enum("c09.cpp"),
    "C10": enum("c10.cpp"),
    "C11": {"parts": {"p%d%d" % (i, g): ("c11.cpp", ["-DPART=%d" % i, "-DGROUP=%d" % g])
                      for i in range(6) for g in range(3)},
            "opt": "-O1", "technique": REAL, "level_note": NOTE},
    "C12": enum("c12.cpp", technique="explicit-state breadth-first search over histories of real compound assignments, next to exact rationals"),
    "C13": enum("c13.cpp", 5, technique="explicit-state breadth-first search over histories of real mixed numbers, next to exact rationals, plus exhaustive construction boxes"),
    "C14": enum("c14.cpp"),
    "C15": enum("c15.cpp"),
    "C16": enum("c16.cpp"),
    "C17": enum("c17.cpp", technique="exhaustive enumeration of texts, deliveries (every chunking), truncations and stream-buffer faults against the real stream operators"),
    "C18": enum("c18.cpp"),
    "C19": enum("c19.cpp", 6, technique="exhaustive enumeration of durations, periods and scripted-clock histories on the real code, against exact rationals"),
    "C20": enum("c20.cpp"),
    "C21": {"parts": dict({"p%d%d" % (i, g): ("c21.cpp", TRAPS + CONSTEXPR + ["-DPART=%d" % i, "-DGROUP=%d" % g])
                           for g in (7, 8, 0, 1, 2, 3, 4, 5, 6) for i in range(4)},
                          **{"%s-%d" % (h, i): (h + ".cpp", TRAPS + ["-DPART=%d" % i])
                             for h in (["c01", "c02", "c04", "c05", "c06", "c07", "c08", "c10"] if THOROUGH else ["c05", "c06"])
                             for i in range(4)}),
            "opt": "-O1",
            "technique": "exhaustive enumeration of operand tuples by the compiler's constant evaluator (which rejects undefined behaviour) and again at run time under overflow traps, the two compared",
            "level_note": "All operand tuples of the stated boxes and boundary pools; what counts as undefined behaviour is what g++ 13's constant evaluator and its signed-overflow, shift and division traps diagnose."},
    "C22": enum("c22.cpp"),
    "C23": {"parts": {"all": ("c23.cpp", ["-static"]), "unoptimised": ("c23.cpp", ["-static", "-O0", "-DUNOPTIMISED"])},
            "opt": "-O1",
            "technique": "stateless model checking of the real code: every history of two operations, and every schedule of two threads with one preemption at any machine instruction (two for short operations), each from a fresh process",
            "level_note": "Exhaustive over preemption points at instruction granularity within the preemption bound and the operands of DESIGN.md; sequentially consistent interleavings; trusts the x86 trap flag and g++ 13 -O1's code."},
    "C24": {"parts": dict({"none": ("c24.cpp", ["-DWANT=safe_reduced_io"])},
                          **{w: ("c24.cpp", ["-DIEME_DEFAULT_OPS_" + w.upper(), "-DWANT=" + w]) for w in POLICIES}),
            "opt": "-O1", "technique": "exhaustive enumeration of the nine build configurations, each with every defaulted entity and a full box of operands",
            "level_note": NOTE},
    "C25": {"parts": parts("c25.cpp", 6), "opt": "-O0",
            "technique": "exhaustive enumeration of (policy, policy, operator, representations, value category) with the compiler's overload resolution as transition relation",
            "level_note": "All combinations within the bounds in DESIGN.md; trusts g++ 13's overload resolution."},
    "C27": enum("c27.cpp", technique="explicit-state search to closure over writes, constructions, assignments, copies, moves and swaps of real objects, next to a model; plus all unmerged histories to a depth"),
    "C28": enum("c28.cpp", technique="exhaustive explicit enumeration on the real code under policies defined by the harness (a checked one, in every wrapping), every answer compared with an i128 model of policy and wrappers"),
    "C29": {"parts": {"p%d" % i: ("c29.cpp", ["-DPART=%d" % i] + (["-DBOX=%d" % (8 if i % 2 == 0 else 16)] if THOROUGH else []))
                      for i in range(4)},
            "opt": "-O1",
            "technique": "exhaustive enumeration of operands on the real code with every allocation function of the process counted and every exception caught, and of the compiler's answers about the types and expressions",
            "level_note": NOTE},
    "C30": {"custom": environments.explore, "replay": environments.replay,
            "built_with": "the compilers and machines named in DESIGN.md; the harness is compiled from the library's include directory on each run",
            "technique": "exhaustive enumeration of environments (compilers, options, machines) times complete sets of operands, the real code executed in each, natively or by the compiler's constant evaluator for the other machine, and all answers compared",
            "level_note": "The environments and operand sets of DESIGN.md; other machines are those clang 18's constant evaluator models, with libstdc++ 13's headers; trusts both compilers."},
    "C31": {"parts": {"p%d" % i: ("c31.cpp", ["-DPART=%d" % i, "-fsanitize-coverage=trace-pc"] + (["-DDEEP", "-DBOX=6"] if THOROUGH else []))
                      for i in range(4)},
            "opt": "-O0",
            "technique": "exhaustive enumeration of operands, the worst for known algorithms among them, on the real code with every basic block executed counted and each answer's count bounded",
            "level_note": NOTE},
    "C26": {"custom": headers.explore, "replay": headers.replay,
            "technique": "exhaustive enumeration of histories of #include directives, merged into the distinct translation units they lead to, each compiled, linked and executed",
            "level_note": "All histories of one and two headers (thorough: three), pairs of translation units and policy macros; the answers expected are written down in harness/c26_use.hpp; trusts g++ 13 and its standard library."},
}
