"""C26: explores histories of #include directives.

A *history* is a sequence of public headers (after a prelude of standard headers)
of one translation unit, or the contents of two translation units of one program.
What the compiler sees after preprocessing is the *state* a history leads to:
histories leading to the same state are one program, which then has to offer what
the headers of all of them declare. Each state is compiled and executed: everything
each of its headers declares is used (harness/c26_use.hpp) and every answer compared.
"""
import concurrent.futures as cf
import hashlib
import itertools
import os
import subprocess

PRELUDES = {"": "", "C": "#include <math.h>\n#include <stdlib.h>\n#include <string.h>\n",
            "std": "#include <bits/stdc++.h>\n"}
POLICIES = [a + b for a in ("safe", "fast") for b in ("", "_reduced_i", "_reduced_o", "_reduced_io")]
HEADERS = ["chrono", "floating_point", "fraction", "fraction_literals", "fraction_math",
           "fraction_queries", "hash", "ieme", "limits", "math_utilities", "mixed_number", "numbers",
           "ops", "parse_utilities", "raw_fraction", "raw_fraction_math", "raw_fraction_queries",
           "reduce_mode"]
BODY = """
#include <cstdio>
extern int bad;
unsigned long RUN() { return use([](char const* s) { std::puts(s); bad = 1; }); }
"""
MAIN = """
#include <cstdio>
int bad = 0;
%s
int main() { unsigned long n = %s; std::printf("asked %%lu\\n", n); return bad; }
"""


def text(headers, prelude=""):
    return PRELUDES[prelude] + "".join("#include <ieme/%s.hpp>\n" % h for h in headers)


class State:
    def __init__(self, key, history):
        self.key = key
        self.first = history            # (flags, prelude, headers)
        self.uses = set()
        self.histories = 0
        self.obj = None


class Headers:
    def __init__(self, check, cxx, here, jobs):
        self.c, self.cxx, self.here, self.jobs = check, cxx, here, jobs
        self.failed = 0

    def run(self, cmd, stdin=None):
        return subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=600, cwd=self.c.dir)

    def errors(self, out):
        return " | ".join([l for l in out.split("\n") if "error" in l or "multiple definition" in l][:4])[:900] \
            or out[-300:]

    # -- the state a history leads to ---------------------------------------
    def preprocess(self, history):
        flags, prelude, headers = history
        p = self.run(self.cxx + [*flags, "-E", "-P", "-x", "c++", "-"], text(headers, prelude))
        if p.returncode:
            return None, p.stdout
        # a directive of the use file's own may not differ between merged histories
        return hashlib.sha256((" ".join(flags) + "\0" + p.stdout).encode()).hexdigest(), ""

    # -- one state: compile and execute --------------------------------------
    def source(self, history, uses, run="run_1"):
        flags, prelude, headers = history
        return text(headers, prelude) + "".join("#define USE_%s\n" % u for u in sorted(uses)) \
            + '#include "c26_use.hpp"\n#define RUN %s\n' % run + BODY

    def compile(self, name, src, flags, opt):
        path = os.path.join(self.c.dir, name + ".cpp")
        with open(path, "w") as f:
            f.write(src)
        obj = os.path.join(self.c.dir, name + ".o")
        p = self.run(self.cxx + [opt, *flags, "-c", path, "-o", obj])
        return (obj if p.returncode == 0 else None), p.stdout

    def execute(self, name, objects, runs):
        main = MAIN % ("".join("unsigned long %s();\n" % r for r in runs), " + ".join("%s()" % r for r in runs))
        path = os.path.join(self.c.dir, name + ".main.cpp")
        with open(path, "w") as f:
            f.write(main)
        exe = os.path.join(self.c.dir, name + ".exe")
        p = self.run(self.cxx + ["-O0", path, *objects, "-o", exe])
        if p.returncode:
            return None, "does not link: " + self.errors(p.stdout)
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=120, cwd=self.c.dir)
        finally:
            os.unlink(exe)
        if p.returncode == 0 and p.stdout.startswith("asked "):
            return int(p.stdout.split()[1]), ""
        if p.returncode < 0:
            return None, "does not return: signal %d" % -p.returncode
        return None, "answers otherwise: " + " | ".join(p.stdout.strip().split("\n")[:4])[:900]

    def program(self, name, tus, opt):
        """tus: [(history, uses)]. Returns (asked, error)."""
        objs = []
        runs = ["run_%d" % (i + 1) for i in range(len(tus))]
        try:
            for i, (history, uses) in enumerate(tus):
                obj, out = self.compile("%s_%d" % (name, i), self.source(history, uses, runs[i]), history[0], opt)
                if not obj:
                    return None, "does not compile: " + self.errors(out)
                objs.append(obj)
            return self.execute(name, objs, runs)
        finally:
            for o in objs:
                os.unlink(o)

    def judge(self, name, tus, opt):
        if self.failed >= 8:
            return None
        n, err = self.program(name, tus, opt)
        if n is None:
            again, err = self.program(name, tus, opt)     # alone once more, before it is believed
            if again is None:
                self.failed += 1
                return {"error": err, "tus": [[list(h[0]), h[1], list(h[2]), sorted(u)] for h, u in tus], "opt": opt}
            n = again
        return n

    def report(self, res, what):
        v = res["tus"]
        case = " ; ".join("%s%s%s" % (" ".join(t[0]) + " " if t[0] else "",
                                      "after %s headers, " % t[1] if t[1] else "", "+".join(t[2])) for t in v)
        self.c.violation("%s: the program %s" % (what, res["error"]), case=case, tus=v, opt=res["opt"])

    # -- the exploration -----------------------------------------------------
    def explore(self):
        c = self.c
        thorough = c.tier == "thorough"
        histories = []
        for p in PRELUDES:
            histories += [((), p, (h,)) for h in HEADERS]
        for n in (2, 3) if thorough else (2,):
            histories += [((), "", hs) for hs in itertools.product(HEADERS, repeat=n)]
        for p in ("C", "std") if thorough else ():
            histories += [((), p, hs) for hs in itertools.product(HEADERS, repeat=2)]
        for i in range(len(HEADERS)):      # all of them: every rotation, both ways round
            order = HEADERS[i:] + HEADERS[:i]
            histories += [((), "", tuple(order)), ((), "", tuple(reversed(order)))]
        for w in POLICIES:
            flags = ("-DIEME_DEFAULT_OPS_" + w.upper(), "-DWANT=" + w)
            histories += [(flags, "", (h,)) for h in HEADERS]
        states = {}
        with cf.ThreadPoolExecutor(self.jobs) as pool:
            for history, (key, out) in zip(histories, pool.map(self.preprocess, histories)):
                if key is None:
                    c.violation("#include directives that do not preprocess: " + self.errors(out),
                                case="+".join(history[2]), tus=[[list(history[0]), history[1], list(history[2]), []]],
                                opt="-O0")
                    continue
                s = states.setdefault(key, State(key, history))
                s.uses |= set(history[2])
                s.histories += 1
            if c.violations:
                return
            states = list(states.values())
            jobs = [("s%d%s" % (i, opt), [(s.first, s.uses)], opt)
                    for i, s in enumerate(states) for opt in (("-O0", "-O2") if thorough else ("-O0",))]
            for job, res in zip(jobs, pool.map(lambda j: self.judge(*j), jobs)):
                self.absorb(res, "one translation unit")
            # two translation units of one program: every pair of headers, either way round
            objs = {}

            def make(job):
                h, r = job
                obj, out = self.compile("tu_%s_%s" % (h, r), self.source(((), "", (h,)), {h}, r), (), "-O0")
                return job, obj
            for job, obj in pool.map(make, [(h, r) for h in HEADERS for r in ("run_1", "run_2")]):
                objs[job] = obj

            def link(pair):
                a, b = pair
                if self.failed >= 8:
                    return None
                if objs[a, "run_1"] and objs[b, "run_2"]:
                    n, err = self.execute("l_%s_%s" % (a, b), [objs[a, "run_1"], objs[b, "run_2"]], ["run_1", "run_2"])
                    if n is not None:
                        return n
                return self.judge("j_%s_%s" % (a, b), [(((), "", (a,)), {a}), (((), "", (b,)), {b})], "-O0")
            pairs = list(itertools.product(HEADERS, repeat=2))
            for pair, res in zip(pairs, pool.map(link, pairs)):
                self.absorb(res, "two translation units")
        c.notes.update({"histories of include directives": len(histories),
                        "distinct translation units": len(states),
                        "programs of two translation units": len(pairs)})
        c.samples += ["%s: uses %s" % ("+".join(s.first[2]), ",".join(sorted(s.uses))) for s in states[:3] + states[-3:]]

    def absorb(self, res, what):
        if res is None:
            self.c.exhaustive = False
        elif isinstance(res, dict):
            self.report(res, what)
        else:
            self.c.units += 1
            self.c.coverage["states"] += 1
            self.c.coverage["traces_validated_against_impl"] += 1
            self.c.coverage["transitions"] += res


def explore(c):
    import run
    h = Headers(c, run.CXX, run.HERE, run.JOBS)
    if not c.toolchain_ok():
        raise RuntimeError("nothing compiles here")
    h.explore()


def replay(c, v):
    import run
    h = Headers(c, run.CXX, run.HERE, run.JOBS)
    tus = [((tuple(t[0]), t[1], tuple(t[2])), set(t[3])) for t in v["tus"]]
    return h.program("replay", tus, v["opt"])[1]
