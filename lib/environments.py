"""C30: explores the environments a program that uses the library can be built in.

An *environment* is a compiler with its options (the program is built and executed
here) or another machine (clang's constant evaluator executes the program as that
machine would: its widths of int and long, its char, its byte order). In each the
operations of harness/rows.hpp are executed on the same complete sets of operands
and folded into one number per unit; the numbers are compared with those of the
environment all other checks use. A difference is narrowed down to its first case.
"""
import concurrent.futures as cf
import os
import re
import subprocess
import time

BASE = ("g++ -std=c++20 -O2 -fwrapv", ["g++", "-std=c++20", "-O2", "-fwrapv"])
TRAPS = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]
BUILDS = [
    ("g++ -std=c++20 -O0", ["g++", "-std=c++20", "-O0"]),
    ("g++ -std=c++23 -O3 -DNDEBUG", ["g++", "-std=c++23", "-O3", "-DNDEBUG"]),
    ("g++ -std=gnu++20 -Os -funsigned-char", ["g++", "-std=gnu++20", "-Os", "-funsigned-char"]),
    ("g++ -std=c++20 -O2 -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_DEBUG -fno-rtti",
     ["g++", "-std=c++20", "-O2", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-fno-rtti"]),
    ("g++ -std=c++20 -O1 -fsanitize=undefined", ["g++", "-std=c++20", "-O1", *TRAPS]),
    ("g++ -std=c++20 -O2 -fshort-enums -fpack-struct=4 -ftrapv",
     ["g++", "-std=c++20", "-O2", "-fshort-enums", "-ftrapv"]),
    ("clang++ -std=c++20 -O0", ["clang++", "-std=c++20", "-O0"]),
    ("clang++ -std=c++20 -O2 -DNDEBUG", ["clang++", "-std=c++20", "-O2", "-DNDEBUG"]),
    ("clang++ -std=c++2c -O3 -funsigned-char", ["clang++", "-std=c++2c", "-O3", "-funsigned-char"]),
    ("clang++ -std=c++20 -O1 -fsanitize=undefined", ["clang++", "-std=c++20", "-O1", *TRAPS]),
]
BUILDS[5] = ("g++ -std=c++20 -O2 -fshort-enums -ftrapv", BUILDS[5][1])

# name: (what is particular about it, bits of int, bits of long)
MACHINES = {
    "i686-linux-gnu": ("32 bits", 32, 32),
    "mips-linux-gnu": ("32 bits, big-endian", 32, 32),
    "armv7-linux-gnueabi": ("32 bits, char unsigned", 32, 32),
    "x86_64-windows-gnu": ("64 bits, long of 32", 32, 32),
    "powerpc64-linux-gnu": ("64 bits, big-endian, char unsigned", 32, 64),
    "aarch64-linux-gnu": ("64 bits, char unsigned, long double of 128 bits", 32, 64),
    "msp430": ("16 bits", 16, 32),
    "avr": ("16 bits, double of 32", 16, 32),
}
MORE_MACHINES = {
    "riscv32-unknown-elf": ("32 bits, char unsigned", 32, 32),
    "wasm32": ("32 bits", 32, 32),
    "sparc-linux-gnu": ("32 bits, big-endian", 32, 32),
    "hexagon": ("32 bits", 32, 32),
    "x86_64-linux-gnux32": ("64 bits, pointers of 32", 32, 32),
    "s390x-linux-gnu": ("64 bits, big-endian", 32, 64),
}
# machines of another byte order whose intermediate code is interpreted here, for what is not constexpr
EXECUTED = ["powerpc64-linux-gnu", "mips-linux-gnu", "s390x-linux-gnu"]
MORE_EXECUTED = ["sparcv9-linux-gnu", "aarch64_be-linux-gnu", "armeb-linux-gnueabi", "mips64-linux-gnuabi64",
                 "powerpc-linux-gnu"]
REPS = ["int", "unsigned", "long long", "unsigned long long", "long", "unsigned long"]
CONSTANT_UNITS = 14      # those of c30.cpp that are constant expressions
SYSTEM = ["/usr/include/c++/13", "/usr/include/x86_64-linux-gnu/c++/13", "/usr/include/x86_64-linux-gnu", "/usr/include"]
# what the library's headers include, alone: whether the machine can be compiled for at all
CONTROL = "#include <array>\n#include <bit>\n#include <cstdint>\n#include <cstring>\n#include <functional>\n" \
          "#include <istream>\n#include <limits>\n#include <ostream>\n#include <ratio>\n#include <string>\n" \
          "#include <string_view>\n#include <tuple>\n#include <optional>\n"


class Environments:
    def __init__(self, check, repo, here, jobs):
        self.c, self.repo, self.here, self.jobs = check, repo, here, jobs
        self.paths = ["-I", os.path.join(repo, "include"), "-I", os.path.join(here, "harness")]
        self.source = os.path.join(here, "harness", "c30.cpp")
        self.base = {}       # (rep, narrow, box) -> (exe, {unit: (name, digest, cases, answers)})
        self.failed = 0

    def run(self, cmd, stdin=None, timeout=900):
        return subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=timeout, cwd=self.c.dir)

    # -- environments whose programs run here ---------------------------------
    def defines(self, key):
        rep, narrow, box = key
        return ["-DPART=%d" % rep] + (["-DNARROW"] if narrow else []) + (["-DBOX=%d" % box] if box else [])

    def build(self, command, key, name):
        exe = os.path.join(self.c.dir, name)
        p = self.run([*command, "-w", *self.paths, *self.defines(key), self.source, "-o", exe])
        return (exe if p.returncode == 0 else None), p.stdout

    def sums(self, exe):
        p = self.run([exe])
        out = {}
        for line in p.stdout.split("\n"):
            f = line.split("\t")
            if len(f) == 5:
                out[int(f[0])] = (f[1], int(f[2]), int(f[3]), int(f[4]))
        return out, (None if p.returncode == 0 else "exit %d: %s" % (p.returncode, p.stdout.strip()[-300:]))

    def baseline(self, keys):
        def one(key):
            exe, out = self.build(BASE[1], key, "base_%d_%d_%d" % key)
            if not exe:
                return key, None, out
            sums, end = self.sums(exe)
            return key, (exe, sums), end
        with cf.ThreadPoolExecutor(self.jobs) as pool:
            for key, got, err in pool.map(one, keys):
                if got is None:
                    if not self.c.toolchain_ok():
                        raise RuntimeError("nothing compiles here: " + err[-800:])
                    self.violation("does not compile with %s: %s" % (BASE[0], errors(err)), BASE[0], key)
                elif err:
                    self.violation("ends with %s" % err, BASE[0], key)
                else:
                    self.base[key] = got

    def native(self, job):
        (name, command), key, tag = job
        if key not in self.base or self.failed >= 8 or time.time() > self.c.deadline:
            return job, None, None
        exe, out = self.build(command, key, tag)
        if not exe:
            mine = blame(out, (self.repo, self.source))
            return job, "does not compile: " + errors(out) if mine else None, None
        sums, end = self.sums(exe)
        want_exe, want = self.base[key]
        err = end
        for unit in sorted(want):
            if err:
                break
            if unit not in sums:
                err = "%s: no answer" % want[unit][0]
            elif sums[unit] != want[unit]:
                def same(n):
                    return self.prefix(want_exe, unit, n) == self.prefix(exe, unit, n)
                i = first_difference(want[unit][2], same)
                err = "%s: answers %s instead of %s" % (want[unit][0], self.case(exe, unit, i), self.case(want_exe, unit, i))
        os.unlink(exe)
        if err:
            self.failed += 1
        return job, err, sums

    def prefix(self, exe, unit, n):
        return self.run([exe, str(unit), "0", str(n)]).stdout.strip()

    def case(self, exe, unit, i):
        return self.run([exe, str(unit), str(i)]).stdout.strip()[:400]

    # -- other machines --------------------------------------------------------
    def elsewhere(self, machine, key, *defines, source=None):
        cmd = ["clang++", "--target=" + machine, "-std=c++20", "-D_GNU_SOURCE", "-w", "-nostdinc++",
               "-I", os.path.join(self.here, "harness", "elsewhere")]
        for s in SYSTEM:
            cmd += ["-isystem", s]
        cmd += [*self.paths, "-fconstexpr-steps=2147483647", "-ferror-limit=0", "-ftemplate-backtrace-limit=0",
                "-fsyntax-only", *self.defines(key), "-DELSEWHERE", *defines]
        if source is not None:
            return self.run([*cmd, "-x", "c++", "-"], source)
        return self.run([*cmd, self.source])

    def sum_of(self, machine, key, unit, last):
        p = self.elsewhere(machine, key, "-DUNIT=%d" % unit, "-DFIRST=0", "-DLAST=%d" % last)
        m = re.search(r"undefined template '(?:\(anonymous namespace\)::)?answer<%d, (\d+)U?L*, (\d+)U?L*, (\d+)U?L*>'" % unit, p.stdout)
        return (tuple(int(x) for x in m.groups()) if m else None), p.stdout

    def foreign(self, job):
        machine, rep, unit, bits = job
        key = (rep, bits == 16, 0)
        # a long is the same as the other type of its width
        same_rep = rep if rep < 4 else rep - 4 if bits == 32 else rep - 2
        want_key = (same_rep, bits == 16, 0)
        if want_key not in self.base or self.failed >= 8 or time.time() > self.c.deadline:
            return job, None, None
        want_exe, want = self.base[want_key]
        if unit not in want:
            return job, None, None
        name, *expected = want[unit]
        got, out = self.sum_of(machine, key, unit, 1000000)
        err = None
        if got is None:
            if blame(out, (self.repo, self.source)):
                err = "%s: %s" % (name, errors(out))
        elif got != tuple(expected):
            def same(n):
                g, _ = self.sum_of(machine, key, unit, n)
                return g is not None and g[0] == int(self.prefix(want_exe, unit, n))
            i = first_difference(expected[1], same)
            p = self.elsewhere(machine, key, "-DUNIT=%d" % unit, "-DCASE=%d" % i)
            m = re.search(r"answers<(\d+)U?L*((?:, -?\d+L*)*)>", p.stdout)
            mine = m.group(2).replace(",", "").replace("L", "") if m else " unknown"
            err = "%s: answers%s instead of %s" % (name, mine[:400], self.case(want_exe, unit, i))
        if err:
            self.failed += 1
        return job, err, got

    # -- machines whose programs are interpreted --------------------------------
    def executed(self, machine):
        """The first case of c30_executed.cpp that goes wrong on this machine, if any: (known, case)."""
        found = []
        for level in ("-O2", "-O1"):
            ll = os.path.join(self.c.dir, "x_%s%s.ll" % (machine, level))
            cmd = ["clang++", "--target=" + machine, "-std=c++20", "-D_GNU_SOURCE", "-w", "-nostdinc++",
                   "-I", os.path.join(self.here, "harness", "elsewhere")]
            for s in SYSTEM:
                cmd += ["-isystem", s]
            p = self.run([*cmd, *self.paths, level, "-fno-vectorize", "-fno-slp-vectorize", "-fno-unwind-tables",
                          "-fno-discard-value-names", "-DMANTISSAS=%d" % self.mantissas, "-S", "-emit-llvm",
                          os.path.join(self.here, "harness", "c30_executed.cpp"), "-o", ll])
            if p.returncode != 0:
                return False, None
            with open(ll) as f:
                text = interpretable(f.read())
            if text is None:
                return False, None
            with open(ll, "w") as f:
                f.write(text)
            p = self.run(["lli", "-force-interpreter", ll])
            if p.returncode not in (0, 1):
                return False, None
            if p.returncode == 0:
                return True, None
            digits = [self.run(["lli", "-force-interpreter", ll, *["x"] * n]).returncode for n in (1, 2, 3)]
            if any(not 0 <= d < 128 for d in digits):
                return False, None
            found.append(digits[0] | digits[1] << 7 | digits[2] << 14)
        # a fault of the library's does not depend on how the compiler arranged it
        return found[0] == found[1], found[0] if found[0] == found[1] else None

    # -- the exploration -------------------------------------------------------
    def violation(self, what, environment, key):
        rep = key[0]
        self.c.violation("%s: the library %s" % (environment, what), case="%s, fraction<%s>" % (environment, REPS[rep]),
                         environment=environment, rep=rep)

    def absorb(self, environment, key, unit, name, cases, answers):
        c = self.c
        c.units += 1
        c.coverage["states"] += cases
        c.coverage["transitions"] += answers
        c.coverage["traces_validated_against_impl"] += cases
        if unit % 5 == 0:
            c.samples.append("%s, fraction<%s>, %s: %d cases, %d answers, all the same as with %s"
                             % (environment, REPS[key[0]], name, cases, answers, BASE[0]))

    def explore(self):
        c = self.c
        thorough = c.tier == "thorough"
        wide = 9 if thorough else 6
        native_keys = [(rep, False, wide if rep % 2 == 0 else 2 * wide) for rep in range(6)]
        keys = native_keys + [(rep, False, 0) for rep in range(4)] + [(0, True, 0)]
        self.baseline(keys)
        c.notes["environments"] = 1
        for rep in (4, 5):     # long, here: the same as long long
            a, b = self.base.get(native_keys[rep]), self.base.get(native_keys[rep - 2])
            for unit in range(CONSTANT_UNITS) if a and b else ():
                if a[1].get(unit) != b[1].get(unit):
                    i = first_difference(b[1][unit][2], lambda n: self.prefix(a[0], unit, n) == self.prefix(b[0], unit, n))
                    self.violation("answers %s: %s instead of %s, what %s gives"
                                   % (b[1][unit][0], self.case(a[0], unit, i), self.case(b[0], unit, i), REPS[rep - 2]),
                                   BASE[0], native_keys[rep])
        jobs = [(b, key, "n%d_%d" % (i, j)) for i, b in enumerate(BUILDS) for j, key in enumerate(native_keys)]
        seen, left_out = set(), set()
        with cf.ThreadPoolExecutor(self.jobs) as pool:
            for ((name, _), key, _), err, sums in pool.map(self.native, jobs):
                if err:
                    self.violation(err, name, key)
                elif sums is None:
                    left_out.add(name)
                else:
                    seen.add(name)
                    for unit, (what, _, cases, answers) in sums.items():
                        self.absorb(name, key, unit, what, cases, answers)
        machines = dict(MACHINES, **MORE_MACHINES) if thorough else MACHINES
        usable = []
        with cf.ThreadPoolExecutor(self.jobs) as pool:
            for m, p in zip(machines, pool.map(lambda m: self.elsewhere(m, (0, machines[m][1] == 16, 0), source=CONTROL), machines)):
                (usable.append(m) if p.returncode == 0 else left_out.add(m))
        jobs = []
        for m in usable:
            _, bits, long_bits = machines[m]
            for rep in [0] if bits == 16 else range(6) if thorough else self.quick_reps(m):
                for unit in range(CONSTANT_UNITS if thorough or bits == 16 else 8):
                    jobs.append((m, rep, unit, bits if rep < 4 else long_bits))
        with cf.ThreadPoolExecutor(self.jobs) as pool:
            for (m, rep, unit, bits), err, got in pool.map(self.foreign, sorted(jobs, key=lambda j: (j[2] != 0, j[2]))):
                name = "%s (%s)" % (m, machines[m][0])
                if err:
                    self.violation(err, name, (rep, False, 0))
                elif got is None:
                    left_out.add(m)
                else:
                    seen.add(m)
                    self.absorb(name, (rep, False, 0), unit, "unit %d" % unit, got[1], got[2])
        self.mantissas = 128 if thorough else 16
        machines = EXECUTED + (MORE_EXECUTED if thorough else [])
        with cf.ThreadPoolExecutor(self.jobs) as pool:
            for m, (known, case) in zip(machines, pool.map(self.executed, machines)):
                cases = 122 * self.mantissas + 5
                if not known:
                    left_out.add(m + " (interpreted)")
                elif case is None:
                    seen.add(m)
                    c.units += 1
                    c.coverage["states"] += cases
                    c.coverage["transitions"] += 4 * cases
                    c.coverage["traces_validated_against_impl"] += cases
                    c.samples.append("%s (big-endian), interpreted: to_fraction of %d floats and doubles" % (m, cases))
                else:
                    self.violation("gives a wrong answer to to_fraction(%s)" % floating_case(case, cases), m + " (big-endian)", (2, False, 0))
        c.notes["environments"] += len(seen)
        if not seen and not c.violations:
            raise RuntimeError("no other environment could be explored")
        if left_out:
            c.exhaustive = False
            c.left_out += len(left_out)
            print("note: not explored, or not completely: " + ", ".join(sorted(left_out)))

    def quick_reps(self, machine):
        return {"i686-linux-gnu": (0, 2, 4), "mips-linux-gnu": (0, 1), "armv7-linux-gnueabi": (0, 3),
                "x86_64-windows-gnu": (0, 4, 5)}.get(machine, (0,))


def floating_case(i, cases):
    if i >= cases - 5:
        return ["0.0", "-0.0", "infinity", "-infinity", "NaN"][i - cases + 5]
    return "%s%d * 2^%d" % ("-" if i % 2 else "", 2 * (i // 122) + 1, i % 122 // 2 - 30)


def interpretable(text):
    """The intermediate code of a big-endian machine, such that lli's interpreter executes it faithfully.

    The interpreter stores in the machine's byte order but loads in its own, and knows no freeze and
    few intrinsics. None if there is something else it could get wrong.
    """
    if re.search(r"^@.* = .*(constant|global) .*\[\d+ x (i(?!8 )\d+|double|float|ptr)\] \[", text, re.M):
        return None
    # what memory is accessed as
    for m in re.finditer(r"(?:= load|^  store) (?:volatile )?([^\s,]+)", text, re.M):
        if m.group(1) not in ("i8", "i16", "i32", "i64", "float", "double"):
            return None
    for m in re.finditer(r"@llvm\.([a-z]+)", text):
        if m.group(1) not in ("abs", "smin", "smax", "umin", "umax", "lifetime", "memcpy", "memset", "bswap", "assume",
                              "experimental", "ctpop", "ctlz", "cttz", "module", "ident", "loop"):
            return None
    used = set(re.findall(r"@llvm\.(abs|smin|smax|umin|umax)\.i(\d+)\(", text))
    text = re.sub(r"^declare .*@llvm\.(abs|smin|smax|umin|umax)\.i\d+\(.*\n", "", text, flags=re.M)
    text = re.sub(r"@llvm\.(abs|smin|smax|umin|umax)\.i(\d+)\(", r"@mine.\1.i\2(", text)
    text = re.sub(r"= freeze (\S+) (\S+)", r"= select i1 true, \1 \2, \1 \2", text)
    counter, swaps = [0], set()

    def swapped(m):
        name, volatile, type_, rest = m.groups()
        bits = {"double": "i64", "float": "i32"}.get(type_, type_)
        counter[0] += 1
        swaps.add(bits)
        n = counter[0]
        out = "  %%mine.a%d = load %s%s, %s\n" % (n, volatile or "", bits, rest)
        if type_ == bits:
            return out + "  %s = call %s @llvm.bswap.%s(%s %%mine.a%d)" % (name, bits, bits, bits, n)
        return out + "  %%mine.b%d = call %s @llvm.bswap.%s(%s %%mine.a%d)\n  %s = bitcast %s %%mine.b%d to %s" \
            % (n, bits, bits, bits, n, name, bits, n, type_)

    text = re.sub(r"^  (%\S+) = load (volatile )?(i16|i32|i64|double|float), (.*?)(?:, !.*)?$", swapped, text, flags=re.M)
    for bits in swaps:
        if not re.search(r"^declare.*@llvm\.bswap\.%s\(" % bits, text, re.M):
            text += "declare %s @llvm.bswap.%s(%s)\n" % (bits, bits, bits)
    for op, bits in used:
        t = "i" + bits
        args, first, second, cond = ("%s %%a, i1 %%p" % t, "%n", "%a", "slt %s %%a, 0" % t) if op == "abs" else \
            ("%s %%a, %s %%b" % (t, t), "%a", "%b",
             {"smin": "slt", "smax": "sgt", "umin": "ult", "umax": "ugt"}[op] + " %s %%a, %%b" % t)
        text += "define internal %s @mine.%s.%s(%s) {\n" % (t, op, t, args)
        if op == "abs":
            text += "  %%n = sub %s 0, %%a\n" % t
        text += "  %%c = icmp %s\n  %%r = select i1 %%c, %s %s, %s %s\n  ret %s %%r\n}\n" % (cond, t, first, t, second, t)
    return text


def first_difference(cases, same):
    """The first case on which two environments differ: the prefixes before it are the same."""
    lo, hi = 0, cases        # same(lo), not same(hi)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if same(mid):
            lo = mid
        else:
            hi = mid
    return lo


def errors(out):
    lines = [l for l in out.split("\n") if re.search(r"(error|note): ", l) and "undefined template 'answer" not in l]
    return " | ".join(l.split("/")[-1] for l in lines[:5])[:900] or out.strip()[-300:]


def blame(out, places):
    """Is an error in the library or in its use here, rather than in a system header?"""
    found = [l for l in out.split("\n") if re.search(r"error: ", l)]
    return any(l.startswith(p) for l in found for p in places)


def explore(check):
    import run
    Environments(check, run.REPO, run.HERE, run.JOBS).explore()


def replay(check, v):
    """Explores the environment of a recorded violation again."""
    import run
    before = len(check.violations)
    Environments(check, run.REPO, run.HERE, run.JOBS).explore()
    again = [x for x in check.violations[before:] if x.get("environment") == v.get("environment")]
    return again[0]["what"] if again else None
