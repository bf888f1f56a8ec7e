#!/usr/bin/env python3
"""Runs the check of one property: run.py C01

Builds the property's harness from /repo's working tree in a scratch directory,
explores every unit of it (a unit is one deterministic, complete enumeration),
replays what fails, writes evidence/<id>.json and exits 0 or 1.
"""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
REPO = os.environ.get("IEME_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = min(8, os.cpu_count() or 8)
QUICK_SECONDS = 600   # of the 900 a quick check is given
ENOUGH = 8   # failing units, after which no more are explored
CXX = ["g++", "-std=c++20", "-fwrapv", "-w", "-I", os.path.join(REPO, "include"),
       "-I", os.path.join(HERE, "harness")]


class Check:
    """One run of one property's check."""

    def __init__(self, prop, spec):
        self.prop = prop
        self.spec = spec
        self.tier = "thorough" if TIER == "thorough" else "quick"
        self.dir = tempfile.mkdtemp(prefix="ieme-%s-" % prop)
        self.t0 = time.time()
        self.violations = []   # dicts: what, case, unit, program, ordinal, replay
        self.coverage = {"states": 0, "transitions": 0,
                         "traces_validated_against_impl": 0}
        self.samples = []
        self.notes = {}
        self.units = 0
        self.known = load_known(prop)
        self.known_seen = set()
        self.exhaustive = True
        self.confirmed = 0
        # A sandbox so slow that the quick tier's space cannot be explored in the
        # time a check is given: what is left by then is reported as left out.
        self.deadline = self.t0 + (float("inf") if self.tier == "thorough" else QUICK_SECONDS)
        self.left_out = 0

    # -- building ----------------------------------------------------------
    def compile(self, name, source, flags=(), opt="-O2", expect_failure=False, timeout=600):
        exe = os.path.join(self.dir, name)
        cmd = CXX + [opt, *flags, os.path.join(HERE, "harness", source), "-o", exe, "-pthread"]
        # a compiler that does not finish is no verdict: TimeoutExpired is an error
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
        return (exe if p.returncode == 0 else None), p.stdout

    def toolchain_ok(self):
        """Does the library itself still compile? Tells a harness that no longer
        builds because the API broke from a sandbox that cannot build at all."""
        src = os.path.join(self.dir, "sanity.cpp")
        with open(src, "w") as f:
            f.write("#include <ieme/ieme.hpp>\nint main(){}\n")
        return subprocess.run(CXX + [src, "-o", src + ".exe"], stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL).returncode == 0

    # -- exploring ---------------------------------------------------------
    def run_unit(self, exe, unit, stop=None, timeout=None):
        fd, out = tempfile.mkstemp(dir=self.dir)
        os.close(fd)
        cmd = [exe, "--unit", unit, "--out", out] + (["--stop", str(stop)] if stop else [])
        env = dict(os.environ, VERIF_TIER=self.tier)
        left = max(5, self.deadline - time.time()) if timeout is None else timeout
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=env, cwd=self.dir, timeout=min(left, 14400))
            end = "exit %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-400:])
        except subprocess.TimeoutExpired:
            end = "time limit"
        try:
            with open(out, errors="replace") as f:
                return json.load(f)
        except ValueError:
            return {"unit": unit, "broken": end}

    def explore(self, programs):
        """programs: {name: exe}. Explores every unit of each; returns results."""
        jobs = []
        for name, exe in programs.items():
            p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True)
            for unit in p.stdout.split("\n"):
                if unit:
                    jobs.append((name, exe, unit))
        results = []
        with cf.ThreadPoolExecutor(JOBS) as pool:
            futs = {pool.submit(self.work, name, exe, unit): (name, exe, unit)
                    for name, exe, unit in jobs}
            for f in cf.as_completed(futs):
                results.append((futs[f], f.result()))
        results.sort(key=lambda x: jobs.index(x[0]))
        for (name, exe, unit), res in results:
            if res is None:
                self.exhaustive = False
            else:
                self.absorb(name, exe, unit, res)

    def work(self, name, exe, unit):
        """Explores a unit and replays its violations, if any, before they are
        believed. Once enough units are known to fail the rest is skipped."""
        if self.confirmed >= ENOUGH:
            return None
        if time.time() > self.deadline:
            self.left_out += 1
            return None
        res = self.run_unit(exe, unit)
        if "broken" in res and time.time() > self.deadline:
            self.left_out += 1
            return None
        for v in res.get("violations", []):
            # the same unit again, up to and including the failing case
            v["confirmed"] = any(
                x["ordinal"] == v["ordinal"]
                for _ in range(2)
                for x in self.run_unit(exe, unit, stop=v["ordinal"],
                                       timeout=14400).get("violations", []))
            if v["confirmed"] and known_key(v["what"], v) not in self.known:
                self.confirmed += 1
        return res

    def absorb(self, name, exe, unit, res):
        if "broken" in res:
            again = self.work(name, exe, unit)   # alone, before believing it
            if again is None:
                self.exhaustive = False
                return
            if "broken" in again:
                raise RuntimeError("unit %s of %s gave no result: %s"
                                   % (unit, name, again["broken"]))
            res = again
        self.units += 1
        self.coverage["states"] += res["states"]
        self.coverage["transitions"] += res["transitions"]
        self.coverage["traces_validated_against_impl"] += res["traces"]
        for k, v in res["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + v
        for s in res["samples"]:
            self.samples.append("%s/%s: %s" % (name, unit, s))
        for v in res["violations"]:
            if not v["confirmed"]:
                print("note: %s/%s case %d did not fail again on replay; not reported"
                      % (name, unit, v["ordinal"]))
                self.exhaustive = False
                continue
            self.violation(v["what"], case=v["case"], program=name, unit=unit,
                           ordinal=v["ordinal"])

    def violation(self, what, **where):
        key = known_key(what, where)
        if key in self.known:
            if key not in self.known_seen:
                self.known_seen.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
            return
        self.violations.append(dict(where, what=what))

    # -- reporting ---------------------------------------------------------
    def finish(self):
        samples = pick(self.samples, 8) or ["none"]
        cov = dict(self.coverage, samples=samples, exhaustive=self.exhaustive and not self.violations,
                   units=self.units)
        if self.left_out:
            if not self.units:
                raise RuntimeError("there was no time to explore anything")
            print("note: %d units of %s left out for lack of time" % (self.left_out, self.prop))
            cov["units_left_out_for_lack_of_time"] = self.left_out
        if self.notes:
            cov["measured"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.spec.get("assumptions", []) + [
                  "the space explored is the bounded one described for this property in DESIGN.md",
                  self.spec.get("built_with", "g++ 13 on x86-64, -fwrapv; the harness is compiled from %s/include on each run" % REPO)],
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        if self.violations:
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "repo": REPO,
                           "how": "VERIF_TIER=%s python3 run.py %s --replay %s"
                                  % (self.tier, self.prop, rp),
                           "violations": self.violations}, f, indent=1)
                f.write("\n")
            for v in self.violations[:5]:
                print("%s: %s | case %s" % (self.prop, v["what"], v.get("case", "")))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            print("%s ok: %d units, %d states, %d transitions, %.1f s"
                  % (self.prop, self.units, self.coverage["states"],
                     self.coverage["transitions"], time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def pick(xs, n):
    if len(xs) <= n:
        return xs
    return [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def known_key(what, where):
    return "%s|%s" % (where.get("case", ""), what)


def load_known(prop):
    """known-findings.txt lines 'finding: property=C01 key=<case|what> :: <text>'.
    Lines starting 'fixed:' are history and suppress nothing."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s key=" % prop):
                body = line.rstrip("\n").split(" key=", 1)[1]
                key, _, text = body.partition(" :: ")
                out[key] = text or key
    return out


def main():
    prop = sys.argv[1]
    import specs
    if prop == "--setup":   # nothing to prepare: every check builds what it needs
        c = Check("setup", {})
        try:
            ok = c.toolchain_ok()
        finally:
            c.close()
        print("the toolchain builds %s/include/ieme: %s" % (REPO, ok))
        return 0 if ok else 1
    spec = specs.SPECS[prop]
    c = Check(prop, spec)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(c, spec, sys.argv[3])
        if "custom" in spec:
            spec["custom"](c)
        else:
            programs = build(c, spec)
            if programs:
                c.explore(programs)
        return c.finish()
    finally:
        c.close()


def build(c, spec):
    """Compiles the parts of a harness in parallel. A part that does not compile
    although the library's umbrella header does is a violation: the part of the
    API this property is about can no longer be used."""
    parts = spec["parts"]
    programs = {}
    with cf.ThreadPoolExecutor(JOBS) as pool:
        futs = {name: pool.submit(c.compile, name, src, flags, spec.get("opt", "-O2"))
                for name, (src, flags) in parts.items()}
    for name, f in futs.items():
        exe, out = f.result()
        if exe:
            programs[name] = exe
            continue
        exe, out = c.compile(name, *parts[name], spec.get("opt", "-O2"))   # alone, once more
        if exe:
            programs[name] = exe
        elif not c.toolchain_ok():
            raise RuntimeError("nothing compiles here: " + out[-800:])
        else:
            errs = [l for l in out.split("\n") if "error" in l][:6]
            c.violation("uses of the public API that this property is about no longer compile: "
                        + " | ".join(errs)[:1500], case=name, program=name, unit="compile")
    return programs


def replay(c, spec, path):
    rec = json.load(open(path))
    programs = build(c, spec) if "parts" in spec else {}
    bad = 0
    for v in rec["violations"]:
        if "replay" in spec:
            err = spec["replay"](c, v)
            if err:
                print("reproduced: %s | case %s" % (err, v["case"]))
                bad = 1
            continue
        exe = programs.get(v.get("program"))
        if not exe:
            print("not a unit of this harness; run the check itself:", v["what"])
            bad = 1
            continue
        res = c.run_unit(exe, v["unit"], stop=v["ordinal"])
        for x in res.get("violations", []):
            print("reproduced: %s | case %s" % (x["what"], x["case"]))
            bad = 1
    print("replayed: %s" % ("violation reproduced" if bad else "no violation"))
    return bad


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:   # an error of the check, told apart from a verdict
        print("ERROR of the check: %r" % (e,))
        sys.exit(2)
