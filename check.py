#!/usr/bin/env python3
"""Decides one property of il2-iltags with the Kani/CBMC harnesses of harness/.

usage: check.py <property id> [--tier quick|thorough] [--keep]
       check.py --replay <file>

Exit 0: every harness was discharged by the solver within its bounds.
Exit 1: a counterexample was found and reproduced natively (VIOLATION line).
Exit 2: no answer (timeout, unreachable witness, unreproducible counterexample,
        build failure...).
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(VERIF, "harness")
REPO = "/repo"
KANI_FLAGS = [
    "-Z", "restrict-vtable", "-Z", "unstable-options",
    "--no-memory-safety-checks", "--no-assertion-reach-checks",
]
CBMC_ARGS = ["--max-field-sensitivity-array-size", "2000"]
BUDGET = {"quick": 840, "thorough": 6 * 3600}
HARNESS_TIMEOUT = {"quick": 600, "thorough": 3 * 3600}
if os.environ.get("VERIF_HARNESS_TIMEOUT"):  # for development
    HARNESS_TIMEOUT["quick"] = int(os.environ["VERIF_HARNESS_TIMEOUT"])
# Harnesses whose counterexamples depend on the (random) order of the real hash
# map: their native replay is repeated with fresh hash seeds.
RANDOM_REPLAYS = 200
START = time.time()


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "RUSTUP_TOOLCHAIN", "CARGO_BUILD", "CARGO_TARGET")):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    if KANI_HOME:
        e["KANI_HOME"] = KANI_HOME
    return e


KANI_HOME = None
# Properties whose harnesses follow few error paths: the programs go unchanged to cbmc.
PLAIN = ["C%02d" % i for i in range(1, 13)] + ["C22", "C23"] + os.environ.get("VERIF_PLAIN", "").split()


def kani_home(dir):
    """A copy of the Kani installation (made of links) where tools/gbinit.py rewrites each program
    before the real cbmc gets it."""
    global KANI_HOME
    real = os.environ.get("KANI_HOME") or os.path.expanduser("~/.kani")
    home = os.path.join(dir, "kani_home")
    for rel in os.listdir(real):
        src, dst = os.path.join(real, rel), os.path.join(home, rel)
        if not os.path.exists(os.path.join(src, "bin", "cbmc")):
            continue
        os.makedirs(os.path.join(dst, "bin"))
        for f in os.listdir(src):
            if f != "bin":
                os.symlink(os.path.join(src, f), os.path.join(dst, f))
        for f in os.listdir(os.path.join(src, "bin")):
            if f != "cbmc":
                os.symlink(os.path.join(src, "bin", f), os.path.join(dst, "bin", f))
        w = os.path.join(dst, "bin", "cbmc")
        with open(w, "w") as o:
            o.write("#!/bin/sh\nexec %s %s %s \"$@\"\n" % (
                sys.executable, os.path.join(VERIF, "tools", "gbinit.py"), os.path.join(src, "bin", "cbmc")))
        os.chmod(w, 0o755)
    KANI_HOME = home


def log(*a):
    print(*a, flush=True)


class Scratch:
    def __init__(self, prop):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="il2check-%s-" % prop, dir=base)
        self.n = 0
        # The harness crate is compiled from a copy, so that nothing (a lock file,
        # for instance) is ever written in /verif/harness.
        self.crate = os.path.join(self.dir, "harness")
        shutil.copytree(CRATE, self.crate, ignore=shutil.ignore_patterns("target"))
        if prop not in PLAIN:
            kani_home(self.dir)

    def sub(self, name):
        self.n += 1
        p = os.path.join(self.dir, "%s%d" % (name, self.n))
        os.makedirs(p)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def popen(cmd, cwd, **kw):
    return subprocess.Popen(
        cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        text=True, errors="replace", start_new_session=True, **kw)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run(cmd, cwd, timeout):
    p = popen(cmd, cwd)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        return None, out


def harness_units(crate, prop, tier):
    """Names (module::function) and documentation of the harnesses of a property."""
    names = []
    src = os.path.join(crate, "src")
    low = prop.lower()
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs"):
            continue
        text = open(os.path.join(src, f)).read()
        for m in re.finditer(r"((?:[ \t]*///[^\n]*\n)*)\s*#\[unwind\((\d+)\)\]\s*fn (%s([qt])_\w+)\(\)" % low, text):
            if m.group(4) == "t" and tier != "thorough":
                continue
            doc = " ".join(l.strip()[3:].strip() for l in m.group(1).strip().splitlines() if l.strip())
            names.append({"name": m.group(3), "path": "%s::%s" % (f[:-3], m.group(3)),
                          "unwind": int(m.group(2)), "doc": doc})
    return names


def kani_cmd(target, harnesses, extra):
    cmd = ["cargo", "kani", "--lib", "--target-dir", target, "--exact"]
    for h in harnesses:
        cmd += ["--harness", h]
    return cmd + KANI_FLAGS + extra + ["--cbmc-args"] + CBMC_ARGS


class Native:
    """Native builds of the harness crate, for replays."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.bins = {}
        self.lock = threading.Lock()
        self.error = None

    def get(self):
        with self.lock:
            if self.bins or self.error:
                return self.bins
            for prof, flag in (("dev", []), ("release", ["--release"])):
                t = self.scratch.sub("native")
                rc, out = run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", t] + flag,
                              self.scratch.crate, 300)
                if rc != 0:
                    self.error = out
                    return {}
                self.bins[prof] = os.path.join(t, "debug" if prof == "dev" else "release", "replay")
            return self.bins

    def run_once(self, binary, name, path, timeout=30):
        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        p = subprocess.Popen([binary, name, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True, preexec_fn=limits,
                             cwd=self.scratch.dir)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            kill(p)
            out, _ = p.communicate()
            return "timeout", out

    def reproduces(self, name, path):
        """(True/False, text). The counterexample is real if the assertion of the
        harness fails (or the crate panics, aborts or hangs) in any profile."""
        bins = self.get()
        if not bins:
            return False, "native build failed:\n%s" % self.error
        text = ""
        tries = RANDOM_REPLAYS if name.startswith("c14") or "dict" in name else 1
        for prof, b in bins.items():
            for _ in range(tries):
                rc, out = self.run_once(b, name, path)
                if rc not in (0, 3, 4, 5):
                    return True, "[%s profile, exit %s]\n%s" % (prof, rc, out)
                text = out
            text = "[%s profile, exit %s]\n%s" % (prof, rc, out)
        return False, text


def parse_playback(out):
    """[(check description, [[bytes]...])] of the generated unit tests."""
    tests = []
    for block in re.split(r"Concrete playback unit test for", out)[1:]:
        m = re.search(r"/// Check for `(\w+)`: (.*)", block)
        kind, desc = (m.group(1), m.group(2)) if m else ("?", "?")
        vals = []
        body = re.search(r"vec!\[\n(.*?)\n    \];", block, re.S)
        if body:
            for v in re.findall(r"^\s*vec!\[([^\]]*)\]", body.group(1), re.M):
                vals.append([int(x) for x in v.replace(" ", "").split(",") if x != ""])
        tests.append((kind, desc, vals))
    return tests


class Checker:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.scratch = Scratch(prop)
        self.native = Native(self.scratch)
        self.violation = None
        self.proc = None
        self.problems = []
        self.units = harness_units(self.scratch.crate, prop, tier)
        self.results = {}
        self.stats = {}
        self.functions = set()

    def left(self):
        return BUDGET[self.tier] - (time.time() - START)

    # -- main run -----------------------------------------------------------
    def verify(self, units, extra=(), tag="main", on_fail=None):
        target = self.scratch.sub(tag)
        js = os.path.join(target, "out.json")
        to = int(min(HARNESS_TIMEOUT[self.tier], max(30, self.left() - 60)))
        jobs = os.environ.get("VERIF_JOBS", "8")
        cmd = kani_cmd(target, [u["path"] for u in units],
                       ["-j", jobs, "--output-format", "terse", "--harness-timeout", "%ds" % to,
                        "--export-json", js] + list(extra))
        p = self.proc = popen(cmd, self.scratch.crate)
        timer = threading.Timer(max(10, self.left() - 20), kill, [p])
        timer.start()
        current = {}
        failed = set()
        lines = []
        thread = "0"
        for line in p.stdout:
            lines.append(line)
            m = re.match(r"Thread (\d+): (?:Checking harness (\S+?)\.\.\.)?", line)
            if m:
                thread = m.group(1)
                if m.group(2):
                    current[thread] = m.group(2)
                    failed.discard(thread)
            m = re.match(r"Failed Checks: (.*)", line)
            if m and thread in current and thread not in failed:
                d = m.group(1)
                if on_fail and "unwinding assertion" not in d and "not currently supported" not in d:
                    failed.add(thread)
                    on_fail(current[thread])
        p.wait()
        timer.cancel()
        out = "".join(lines)
        data = None
        if os.path.exists(js):
            try:
                data = json.load(open(js))
            except ValueError:
                data = None
        if data:
            for c in data.get("cbmc", []):
                self.stats[c["harness_id"]] = c.get("cbmc_stats") or {}
            for m in data.get("harness_metadata", []):
                self.list_functions(m.get("goto_file"))
        return data, out, target

    def list_functions(self, goto):
        if not goto or not os.path.exists(goto):
            return
        try:
            o = subprocess.run(["goto-instrument", "--list-goto-functions", goto], capture_output=True,
                               text=True, timeout=60).stdout
        except (OSError, subprocess.TimeoutExpired):
            return
        for l in o.splitlines():
            n = l.split(" /*")[0]
            if re.match(r"<?il2_iltags::", n) and "verif_map" not in n:
                self.functions.add(n)

    # -- counterexamples ----------------------------------------------------
    def counterexample(self, path):
        """Gets the values of a failing harness and replays them."""
        unit = next(u for u in self.units if u["path"] == path)
        target = self.scratch.sub("playback")
        rc, out = run(kani_cmd(target, [path], ["--output-format", "terse", "-Z", "concrete-playback",
                                               "--concrete-playback=print"]),
                      self.scratch.crate, max(30, self.left() - 40))
        tests = [t for t in parse_playback(out) if t[0] != "cover"]
        if not tests:
            self.problems.append("%s: failed, but the solver gave no concrete values" % path)
            return
        last = ""
        for kind, desc, vals in tests[:6]:
            ok, text = self.try_replay(unit, desc, vals)
            if ok:
                return
            last = text
        self.problems.append("%s: counterexample does not reproduce natively\n%s\n%s" % (path, tests[0], last[-1500:]))

    def try_replay(self, unit, desc, vals):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = "# property %s\n# harness %s\n# failed check: %s\n" % (self.prop, unit["name"], desc)
        body += "".join("".join("%02x" % b for b in v) + "\n" for v in vals)
        path = os.path.join(d, "%s-%s.txt" % (self.prop, unit["name"]))
        tmp = os.path.join(self.scratch.sub("vals"), "values.txt")
        open(tmp, "w").write(body)
        ok, text = self.native.reproduces(unit["name"], tmp)
        if ok and not self.violation:
            shutil.copyfile(tmp, path)
            self.violation = {"harness": unit["name"], "check": desc, "values": vals, "path": path, "replay": text}
            if self.proc:
                kill(self.proc)
        return ok, text

    def unwind_counterexample(self, path, target, bound):
        """Last resort for loops that never end: asks CBMC for a trace that exceeds
        the bound and replays its inputs."""
        unit = next(u for u in self.units if u["path"] == path)
        goto = None
        for root, _, files in os.walk(target):
            for f in files:
                if f.endswith(".out") and not f.endswith(".symtab.out") and re.search(r"\d+%s\." % unit["name"], f):
                    goto = os.path.join(root, f)
        if not goto:
            self.problems.append("%s: unwinding bound exceeded" % path)
            return
        cmd = ["cbmc", "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
               "--no-bounds-check", "--no-pointer-check", "--nan-check", "--no-self-loops-to-assumptions",
               "--no-pointer-primitive-check", "--object-bits", "16", "--unwind", str(bound),
               "--sat-solver", "cadical", "--slice-formula"] + CBMC_ARGS + [goto, "--trace", "--json-ui"]
        try:
            o = subprocess.run(cmd, capture_output=True, text=True, timeout=max(30, min(200, self.left() - 60))).stdout
            data = json.loads(o)
        except (OSError, ValueError, subprocess.TimeoutExpired):
            self.problems.append("%s: unwinding bound exceeded (no trace)" % path)
            return
        for item in data:
            for r in item.get("result", []) if isinstance(item, dict) else []:
                if r.get("status") != "FAILURE" or "unwind" not in r.get("property", ""):
                    continue
                vals = trace_values(r.get("trace", []))
                ok, text = self.try_replay(unit, r.get("description", "unwinding"), vals)
                if ok:
                    return
        self.problems.append("%s: unwinding bound exceeded (the loop ends natively)" % path)

    # -- driver -------------------------------------------------------------
    def execute(self):
        if not self.units:
            self.problems.append("no harness found for %s" % self.prop)
            return
        queue, workers = [], []
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    if not queue or self.violation:
                        workers.remove(threading.current_thread())
                        return
                    h = queue.pop(0)
                self.counterexample(h)

        def on_fail(h):
            log("  failing harness: %s, extracting the counterexample" % h)
            with lock:
                queue.append(h)
                if len(workers) < 2:
                    t = threading.Thread(target=work)
                    workers.append(t)
                    t.start()

        data, out, target = self.verify(self.units, on_fail=on_fail)
        while True:
            with lock:
                ws = list(workers)
            if not ws:
                break
            ws[0].join()
        if self.violation:
            return
        if not data:
            self.problems.append("kani gave no result:\n%s" % out[-3000:])
            return
        retry = []
        self.judge(data, retry)
        for unit in retry:
            if self.violation:
                return
            bigger = unit["unwind"] * 2 + 6
            log("  %s: unwinding bound %d exceeded, retrying with %d" % (unit["path"], unit["unwind"], bigger))
            fails = []
            d2, o2, t2 = self.verify([unit], ["--unwind", str(bigger)], "retry", fails.append)
            r2 = []
            if d2:
                self.judge(d2, r2)
            else:
                self.problems.append("%s: no result with unwinding %d" % (unit["path"], bigger))
            if fails:
                self.counterexample_unwind(unit, bigger)
            if (r2 or not d2) and not self.violation:
                self.unwind_counterexample(unit["path"], t2 if d2 else target, bigger)

    def counterexample_unwind(self, unit, bound):
        target = self.scratch.sub("playback")
        rc, out = run(kani_cmd(target, [unit["path"]], ["--output-format", "terse", "--unwind", str(bound), "-Z",
                                                      "concrete-playback", "--concrete-playback=print"]),
                      self.scratch.crate, max(30, self.left() - 40))
        for kind, desc, vals in [t for t in parse_playback(out) if t[0] != "cover"][:6]:
            if self.try_replay(unit, desc, vals)[0]:
                return
        self.problems.append("%s: counterexample does not reproduce natively" % unit["path"])

    def judge(self, data, retry):
        seen = {}
        for r in data["verification_results"]["results"]:
            seen[r["harness_id"]] = r
        for u in self.units:
            r = seen.get(u["path"])
            if r is None:
                continue
            checks = r.get("checks") or []
            fails = [c for c in checks if c["status"] == "Failure"]
            covers = [c for c in checks if c["category"] == "cover"]
            bad = [c for c in covers if c["status"] != "Satisfied"]
            info = {"status": r["status"], "seconds": r["duration_ms"] / 1000.0, "checks": len(checks) - len(covers),
                    "covers": len(covers)}
            self.results[u["path"]] = info
            if r["status"] != "Success" or fails:
                kinds = {c["category"] for c in fails}
                if kinds and kinds <= {"unwind", "recursion"} or any(
                        "unwinding assertion" in c["description"] for c in fails) and kinds <= {"unwind"}:
                    retry.append(u)
                elif not fails:
                    self.problems.append("%s: %s (timeout or solver failure)" % (u["path"], r["status"]))
                elif not any(u["path"] in p for p in self.problems):
                    self.problems.append("%s: failed: %s" % (u["path"], fails[0]["description"]))
            elif bad or not covers:
                self.problems.append("%s: vacuous, unsatisfied witness at %s" % (
                    u["path"], [c["location"] for c in bad]))
        missing = [u["path"] for u in self.units if u["path"] not in self.results]
        if missing and not retry:
            self.problems.append("no result for %s" % ", ".join(missing))

    def evidence(self):
        # queries: the assertions handed to the solver, per harness.
        ok = {k: v for k, v in self.results.items() if v["status"] == "Success"}
        samples = [dict(harness=u["path"], what=u["doc"], unwind=u["unwind"], **self.results[u["path"]])
                   for u in self.units if u["path"] in self.results]
        for s in samples:
            st = self.stats.get(s["harness"], {})
            s["program_steps"] = st.get("size_program_expression")
            s["vccs"] = st.get("vccs_generated")
            s["vccs_to_solver"] = st.get("vccs_remaining")
            s["symex_s"] = st.get("runtime_symex_s")
            s["solver_s"] = st.get("runtime_decision_procedure_s")
        num = lambda k: sum((st.get(k) or 0) for st in self.stats.values())
        cov = {
            "explanation": "Every harness executes the listed functions of the crate symbolically (Kani translates "
                           "the MIR of the current tree; CBMC unwinds it and cadical decides it). All values of the "
                           "symbolic inputs within the bounds of each harness are decided at once; unwinding "
                           "assertions show the bounds are not exceeded and a satisfied cover witness shows each "
                           "harness is not vacuous.",
            "harnesses": len(self.units),
            "harnesses_discharged": len(ok),
            "assertions_discharged": sum(v["checks"] for v in ok.values()),
            "witnesses_satisfied": sum(v["covers"] for v in ok.values()),
            "queries_to_solver": int(num("vccs_remaining")),
            "program_steps": int(num("size_program_expression")),
            "symex_s": round(num("runtime_symex_s"), 3),
            "solver_s": round(num("runtime_decision_procedure_s"), 3),
            "functions_encoded": len(self.functions),
            "functions": sorted(self.functions),
            "samples": samples,
        }
        man = {}
        try:
            for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
                man[c["property"]] = c
        except (OSError, ValueError, KeyError):
            pass
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": man.get(self.prop, {}).get("level", "other"),
            "coverage": cov,
            "assumptions": ASSUMPTIONS + [l for l in bounds_of(self.prop)],
            "wall_s": round(time.time() - START, 2),
            "violations": 1 if self.violation else 0,
        }
        if self.problems:
            ev["coverage"]["problems"] = self.problems
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", "%s.json" % self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def trace_values(trace):
    vals = []
    for s in trace:
        if s.get("stepType") != "assignment" or s.get("hidden"):
            pass
        f = (s.get("sourceLocation") or {}).get("function", "")
        if s.get("stepType") == "assignment" and "any_raw" in f and s.get("assignmentType") == "variable":
            v = s.get("value", {})
            b = v.get("binary")
            if b and "var_0" not in s.get("lhs", "") and "return_value" in s.get("lhs", ""):
                n = len(b) // 8
                if n:
                    x = int(b, 2)
                    vals.append(list(x.to_bytes(n, "little")))
    return vals


ASSUMPTIONS = [
    "Kani 0.68 (MIR to GOTO translation), CBMC 6.11 and cadical are trusted.",
    "Pointer-safety checks of CBMC are off: the crate has no unsafe code; panics, slice bounds, arithmetic overflow "
    "and the assertions of the harnesses are checked.",
    "std::collections::HashMap is replaced by an association list with the same contract (src/verif_map.rs, only "
    "under cfg(kani)); allocation never fails.",
    "Only values within the bounds stated for each harness are decided; every counterexample is replayed natively "
    "against the unmodified crate before it is reported.",
]


def bounds_of(prop):
    p = os.path.join(VERIF, "bounds.json")
    try:
        return json.load(open(p)).get(prop, [])
    except (OSError, ValueError):
        return []


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def replay_file(path):
    text = open(path).read()
    name = re.search(r"# harness (\w+)", text).group(1)
    s = Scratch("replay")
    try:
        ok, out = Native(s).reproduces(name, path)
        print(out)
        print("REPRODUCED" if ok else "NOT REPRODUCED")
        return 1 if ok else 0
    finally:
        s.close()


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in BUDGET:
        tier = "quick"
    c = Checker(prop, tier)
    if "--only" in sys.argv:
        pat = sys.argv[sys.argv.index("--only") + 1]
        c.units = [u for u in c.units if re.search(pat, u["name"])]
    try:
        c.execute()
        for k in known_findings(prop):
            if "harness" in k and not c.violation:
                demo_known(c, k)
        c.evidence()
        for u in c.units:
            r = c.results.get(u["path"])
            st = c.stats.get(u["path"], {})
            if r:
                log("  %-46s %-8s %7.1fs  checks=%d steps=%s solver=%.1fs" % (
                    u["path"], r["status"], r["seconds"], r["checks"], st.get("size_program_expression"),
                    st.get("runtime_decision_procedure_s") or 0))
        if c.violation:
            v = c.violation
            log("harness %s, failed check: %s" % (v["harness"], v["check"]))
            log(v["replay"][-3000:])
            log("VIOLATION property=%s replay=%s" % (prop, v["path"]))
            return 1
        if c.problems:
            for p in c.problems:
                log("NO-ANSWER: %s" % p)
            return 2
        log("%s: %d harnesses discharged in %.1fs" % (prop, len(c.units), time.time() - START))
        return 0
    finally:
        if "--keep" in sys.argv:
            log("scratch kept in", c.scratch.dir)
        else:
            c.scratch.close()


def demo_known(c, k):
    """A listed finding is shown again natively; it is reported, not an alarm."""
    bins = c.native.get()
    if not bins:
        c.problems.append("native build failed: %s" % c.native.error)
        return
    path = os.path.join(VERIF, k["replay"])
    for prof, b in bins.items():
        rc, out = c.native.run_once(b, k["harness"], path)
        if rc not in (0, 3, 4, 5):
            log("KNOWN-FINDING: property=%s %s" % (c.prop, k["what"]))
            return


if __name__ == "__main__":
    sys.exit(main())
