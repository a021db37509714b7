#!/usr/bin/env python3
"""Decides one property of /repo by discharging the contracts in kani/src/<pid>.rs with Kani/CBMC.

usage: check.py <PID> [--only H1,H2] [--keep]       (VERIF_TIER=quick|thorough)

exit 0: every obligation generated from /repo's current source was discharged
exit 1: an obligation failed (VIOLATION line, replay file)
exit 2: undecided (build failure, lost anchor, unsupported construct, resource limit, vacuous harness)
"""
import json, os, re, subprocess, sys, time, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
from engine import CBMC_EXTRA, Engine
CRATE = os.path.join(VERIF, "kani")
TARGET = os.path.join(VERIF, "target", "kani")
WORK = os.path.join(VERIF, "target", "work")
T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "0")) or None
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BASE_ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
BASE_ENV.pop("RUSTFLAGS", None)

PANIC_CATEGORIES = {"assertion", "arithmetic_overflow", "division-by-zero", "division_by_zero", "overflow",
                    "bounds", "array_bounds", "undefined-shift", "unreachable", "safety_check"}
IGNORED_CATEGORIES = {"unwind", "unsupported_construct", "reachability_check", "NaN", "nan", "cover",
                      "internal-error", "sanity_check"}


def log(*a):
    print(*a, flush=True)


def parse_directives(path):
    """Reads the `//@ key: value` blocks that precede every harness."""
    harnesses, cur = {}, {}
    for line in open(path):
        s = line.strip()
        m = re.match(r"//@\s*(\w+):\s*(.*)$", s)
        if m:
            key, value = m.group(1), m.group(2).strip()
            cur[key] = (cur[key] + " " + value) if key in cur else value
            continue
        if cur:
            m = re.match(r"(?:pub\s+)?fn\s+(\w+)\s*\(", s) or re.match(r"\w+!\s*[\(\{]\s*(\w+)", s)
            if m:
                if m.group(1) in harnesses:
                    sys.exit("duplicate harness " + m.group(1))
                harnesses[m.group(1)] = cur
                cur = {}
    if cur:
        log("unterminated directive block in", path)
        sys.exit(2)
    return harnesses


def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or BASE_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out



class Run:
    def __init__(self, pid):
        self.pid = pid
        self.results = {}
        self.solver = {}
        self.engine = None

    def go(self, names, hs, timeout, patient, jobs, total, fatal, on_result=lambda n, r: None):
        """False: the harnesses could not be built. `fatal(n, r)`: stop, the verdict is certain"""
        end = time.time() + total
        self.engine = E = Engine(CRATE, TARGET, BASE_ENV, WORK)
        self.meta = E.build(self.pid.lower(), [self.pid.lower() + "::" + n for n in names], total)
        self.last_out = E.log
        if self.meta is None:
            return False
        missing = [n for n in names if self.pid.lower() + "::" + n not in self.meta]
        if missing:
            self.last_out += "\nno such harness: %s" % missing
            return False

        def done(n, r):
            if r["status"] == "stopped":
                return
            self.results[n] = r
            self.solver[n] = r["solver"]
            on_result(n, r)
            if fatal(n, r):
                E.stop()
        def work(n):
            """first attempt; larger unwinding bounds or the other solver while the harness stays undecided"""
            h = self.meta[self.pid.lower() + "::" + n]
            first = timeout if not patient else min(timeout, 200)
            r = E.verify(h, min(first, end - time.time()))
            unwind, solver, spent = h["attributes"].get("unwind_value", 8), r["solver"], 0
            while patient and not E.stopped and spent < 3 and end - time.time() > 30:
                verdict, why = classify(r, hs[n])
                why = " ".join(str(c.get("description")) for c in why)
                if verdict != "undecided" or "vacuity" in why or "without cover" in why:
                    break
                if "unwinding" in why:
                    unwind = 2 * unwind + 4
                elif "timeout" in why or "no verdict" in why:
                    solver = "cadical" if solver == "minisat" else "minisat"
                else:
                    break
                log("retrying %s (%s)" % (n, why[:120]))
                r = E.verify(h, min(timeout, end - time.time()), unwind, solver)
                spent += 1
            return r
        E.run_all(jobs, names, work, done)
        E.stopped = False
        return True


def is_cover(c):
    return c.get("category") == "cover" or c["status"] in ("Satisfied", "Unsatisfiable")


def classify(r, meta):
    """-> (kind, failed checks): ok | fail | undecided"""
    checks = r.get("checks") or []
    expect_panic = "panic" in meta.get("expect", "")
    failed, soft = [], []
    for c in checks:
        if is_cover(c) or c["status"] != "Failure":
            continue
        cat, desc = c.get("category", ""), c.get("description", "")
        f = (c.get("location") or {}).get("file", "") or ""
        if cat in IGNORED_CATEGORIES or "unwinding assertion" in desc or "is not currently supported by Kani" in desc:
            soft.append(c)
            continue
        if expect_panic:
            own = not f.startswith("/")
            ub = cat not in PANIC_CATEGORIES or "unsafe precondition" in desc
            if not own and not ub:
                continue
        failed.append(c)
    if failed:
        return "fail", failed
    if soft:
        return "undecided", soft
    hard = [c for c in checks if not is_cover(c)]
    if not hard:
        return "undecided", [{"description": "no obligations: %s" % r.get("status")}]
    und = [c for c in hard if c["status"] not in ("Success", "Unreachable", "Failure")]
    if und:
        return "undecided", und
    covers = [c for c in checks if is_cover(c)]
    if not covers:
        return "undecided", [{"description": "harness without cover (vacuity guard missing)"}]
    bad = [c for c in covers if c["status"] != "Satisfied"]
    if bad:
        return "undecided", [dict(c, description="vacuity: cover not satisfied: " + c["description"]) for c in bad]
    return "ok", []


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) check=\"([^\"]*)\" (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"harness": m.group(2), "check": m.group(3), "text": m.group(4)})
    return out


def describe(c):
    loc = c.get("location") or {}
    return "%s  [%s] at %s:%s in %s" % (c.get("description"), c.get("category"), loc.get("file"), loc.get("line"), c.get("function"))


def native_replay(pid, name, failed, meta, budget):
    """Asks Kani for a concrete counterexample over small buffers (feature `replay`) and runs it natively on /repo."""
    notes = []
    deadline = time.time() + budget
    rdir = os.path.join(WORK, "replay-" + pid)
    shutil.rmtree(rdir, ignore_errors=True)
    shutil.copytree(CRATE, rdir, ignore=shutil.ignore_patterns("target"))
    harness = pid.lower() + "::" + name
    rtarget = os.path.join(VERIF, "target", "replay")
    feats = pid.lower() + ",replay"
    cmd = ["cargo", "kani", "--target-dir", TARGET, "--features", feats, "-Z", "stubbing", "-Z", "function-contracts",
           "-Z", "unstable-options", "-Z", "concrete-playback", "--concrete-playback=print", "--solver", "minisat",
           "--exact", "--harness", harness, "--harness-timeout", "%ds" % max(30, int(budget * 0.6)), "--cbmc-args"] + CBMC_EXTRA
    rc, out = run(cmd, rdir, max(30, deadline - time.time() - 40))
    notes.append("$ " + " ".join(cmd))
    tests = re.findall(r"```\n?(.*?)```", out or "", re.S)
    tests = [t for t in tests if "concrete_playback_run" in t]
    if not tests:
        notes.append("no concrete counterexample was produced over small buffers")
        return False, notes
    stub = "kani::stub" in meta.get("attrs", "") or "stub" in meta
    wanted = [c.get("description", "").strip('"') for c in failed]
    src = os.path.join(rdir, "src", pid.lower() + ".rs")
    text = open(src).read()
    names = []
    seen = set()
    for k, t in enumerate(tests):
        m = re.search(r"fn (kani_concrete_playback_\w+)", t)
        if not m or m.group(1) in seen:
            continue
        seen.add(m.group(1))
        names.append(m.group(1))
        text += "\n" + "\n".join(l for l in t.splitlines() if not l.strip().startswith("///")) + "\n"
    open(src, "w").write(text)
    confirmed = False
    env = dict(BASE_ENV, CARGO_TARGET_DIR=rtarget)
    pending = list(names)
    while pending and not confirmed and time.time() < deadline - 10:
        cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback", "--features", feats, "--lib",
               "--", "concrete_playback_" + name + "_", "--nocapture", "--test-threads=1"]
        for n in names:
            if n not in pending:
                cmd += ["--skip", n]
        rc, out = run(cmd, rdir, max(20, deadline - time.time()), env)
        out = out or ""
        at = out.find("running ")
        notes.append("$ " + " ".join(cmd) + "\n" + (out[at:][:6000] if at >= 0 else out[-3000:]))
        if at < 0:
            break
        # the output between two `test ...` lines belongs to the earlier one
        parts = re.split(r"^test (?:\S*::)?(kani_concrete_playback_\w+) \.\.\. ?", out[at:], flags=re.M)
        seen_tests = dict(zip(parts[1::2], parts[2::2]))
        for n, body in seen_tests.items():
            if n in pending:
                pending.remove(n)
            for where, msg in re.findall(r"panicked at ([^\n]*):\n([^\n]*)", body):
                own = where.startswith("src/")
                ok = own and any(w and w in msg for w in wanted) if "panic" in meta.get("expect", "") else True
                # replay artefacts (values ran out, assumptions, allocation limits) do not confirm anything
                if re.search(r"concrete|kani_core|library/kani|kani/src", where) or "kani::assume" in msg \
                        or "capacity overflow" in msg or "Not enough det vals" in msg or "expected" in msg and "bytes instead" in msg:
                    ok = False
                if ok and not stub:
                    confirmed = True
                    notes.append("CONFIRMED natively: %s panics at %s: %s" % (n, where, msg))
                    notes.append("replay test:\n" + [t for t in tests if n in t][0])
                    break
            if confirmed:
                break
        crashed = re.search(r"signal: \d+|SIGSEGV|SIGABRT|SIGBUS|double free|corrupted", out)
        if crashed and not confirmed and not stub and seen_tests:
            n = list(seen_tests)[-1]
            confirmed = True
            notes.append("CONFIRMED natively: the process crashed (%s) in %s" % (crashed.group(0), n))
            notes.append("replay test:\n" + [t for t in tests if n in t][0])
        if not seen_tests:
            break
    shutil.rmtree(rdir, ignore_errors=True)
    return confirmed, notes


def main():
    pid = sys.argv[1]
    only = None
    if "--only" in sys.argv:
        only = set(sys.argv[sys.argv.index("--only") + 1].split(","))
    tier = TIER
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    src = os.path.join(CRATE, "src", pid.lower() + ".rs")
    if not os.path.exists(src):
        log("no harness module for", pid)
        sys.exit(2)
    allh = parse_directives(src)
    hs = {n: m for n, m in allh.items() if (tier == "thorough" or m.get("tier", "quick") == "quick")}
    if only:
        hs = {n: m for n, m in allh.items() if n in only}
    total = LIMIT or (840 if tier == "quick" else 6 * 3600)
    deadline = T0 + total
    ht = 420 if tier == "quick" else 7200
    m = re.search(r"//@@ timeout: (\d+)", open(src).read())
    if m and tier == "quick":
        ht = int(m.group(1))
    ht = int(os.environ.get("VERIF_HARNESS_TIMEOUT", ht))
    R = Run(pid)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    names = sorted(hs)
    # long harnesses first
    cf = os.path.join(VERIF, "tools", "costs.json")
    costs = json.load(open(cf)).get(pid, {}) if os.path.exists(cf) else {}
    names.sort(key=lambda n: -costs.get(n, 1e6))
    known = known_findings(pid)
    verdict = {}

    def listed(n, c):
        return [k for k in known if k["harness"] == n and k["check"] in c.get("description", "")]

    def on_result(n, r):
        verdict[n] = classify(r, hs[n])
        log("%-9s %-40s %6.1fs %s" % (verdict[n][0], n, r["duration_ms"] / 1000.0, "; ".join(describe(c) for c in verdict[n][1][:3])))

    def fatal(n, r):
        return tier == "quick" and not os.environ.get("VERIF_NO_STOP") and verdict[n][0] == "fail" and not all(listed(n, c) for c in verdict[n][1])
    ok = R.go(names, hs, ht, not os.environ.get("VERIF_HARNESS_TIMEOUT"), jobs, deadline - time.time() - 20, fatal, on_result)
    if not ok:
        log(R.last_out[-6000:])
        log("UNDECIDED property=%s: the verifier produced no result (build failure or lost anchor)" % pid)
        sys.exit(2)
    stopped = any(fatal(n, R.results[n]) for n in R.results)
    for n in names:
        if n not in verdict:
            verdict[n] = ("stopped" if stopped else "undecided", [{"description": "no result"}])
    obligations = discharged = 0
    solver_ms = 0
    samples = []
    fns = {}
    for n in names:
        r = R.results.get(n)
        if not r:
            continue
        hard = [c for c in r.get("checks") or [] if not is_cover(c)]
        if "panic" in hs[n].get("expect", ""):
            # panics are the specified outcome here: obligations are memory safety and "does not return"
            hard = [c for c in hard if not (c["status"] == "Failure" and verdict[n][0] == "ok")]
        obligations += len(hard)
        discharged += sum(1 for c in hard if c["status"] in ("Success", "Unreachable"))
        solver_ms += r.get("duration_ms") or 0
        own = [c for c in hard if (c.get("location") or {}).get("file", "").startswith("src/")]
        samples.append({"harness": n, "kind": hs[n].get("kind", "proof"), "verdict": verdict[n][0],
                        "functions": hs[n].get("fns", ""), "obligations": len(hard), "ms": r.get("duration_ms"),
                        "solver": R.solver.get(n), "contract_clauses": len(own),
                        "vacuity_covers_satisfied": sum(1 for c in r.get("checks") or [] if c["status"] == "Satisfied")})
        for f in re.split(r",\s*", hs[n].get("fns", "")):
            if f:
                fns.setdefault(f, set()).add("bounded" if hs[n].get("kind", "proof").startswith("bounded") else "proof")

    # second back end: Verus on mechanically extracted bodies (only where verus/<pid>.py exists)
    vfail, vnotes = {}, []
    vpath = os.path.join(VERIF, "verus", pid.lower() + ".py")
    if os.path.exists(vpath) and not only:
        import importlib.util
        spec = importlib.util.spec_from_file_location("verus_" + pid, vpath)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for r in mod.run(WORK, 120):
            n = r["harness"]
            log("%-9s %-40s %6.1fs %s" % (r["verdict"], n, r.get("ms", 0) / 1000.0, r.get("detail", "").strip()[:300].replace("\n", " ")))
            samples.append({"harness": n, "kind": "proof", "verdict": r["verdict"], "functions": r["functions"],
                            "obligations": r.get("obligations", 0), "ms": r.get("ms"), "solver": "Verus/Z3"})
            obligations += r.get("obligations", 0)
            discharged += r.get("obligations", 0) if r["verdict"] == "ok" else 0
            solver_ms += r.get("ms", 0)
            if r["verdict"] == "ok":
                fns.setdefault(r["functions"], set()).add("proof")
            elif r["verdict"] == "fail":
                vfail[n] = [{"description": "Verus: postcondition or safety obligation not discharged", "category": "verus",
                             "function": r["functions"], "location": {"file": n + ".rs"}, "output": r["detail"]}]
            else:
                # outside the extraction: the bounded Kani contracts of the same function decide this run
                vnotes.append("%s not proved unbounded in this run (%s)" % (r["functions"], r["detail"].strip()[:200]))

    failed = {n: v[1] for n, v in verdict.items() if v[0] == "fail"}
    undecided = {n: v[1] for n, v in verdict.items() if v[0] == "undecided"}
    violations, known_hit = {}, []
    for n, cs in failed.items():
        rest = []
        for c in cs:
            k = listed(n, c)
            if k:
                known_hit.append(k[0]["text"])
            else:
                rest.append(c)
        if rest:
            violations[n] = rest
    violations.update(vfail)
    for t in sorted(set(known_hit)):
        log("KNOWN-FINDING: property=%s %s" % (pid, t))

    assumptions = []
    af = os.path.join(VERIF, "assumptions.json")
    aj = json.load(open(af)) if os.path.exists(af) else {}
    assumptions = aj.get("common", []) + aj.get(pid, [])
    bounded = sorted({hs[n]["kind"] for n in names if hs[n].get("kind", "").startswith("bounded")})
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": R.engine.commands[0] + "  ## then per harness: goto-instrument, " + str(next((r["cbmc"] for r in R.results.values() if "cbmc" in r), "cbmc")),
            "trusted_base": ["rustc/Kani 0.68 MIR-to-GOTO translation", "CBMC 6.11.0 with MiniSat 2.2.1 (CaDiCaL on retry)",
                             "the contracts (assert/assume clauses) written in kani/src/%s.rs" % pid.lower()],
            "functions_under_contract": {f: ("proof" if v == {"proof"} else "+".join(sorted(v))) for f, v in sorted(fns.items())},
            "harnesses": samples,
            "harnesses_proved_unbounded": sum(1 for n in names if verdict[n][0] == "ok" and not hs[n].get("kind", "proof").startswith("bounded")),
            "harnesses_bounded": sum(1 for n in names if verdict[n][0] == "ok" and hs[n].get("kind", "proof").startswith("bounded")),
            "bounds": bounded,
            "verifier_time_s": round(solver_ms / 1000.0, 1),
            "not_proved_unbounded_this_run": vnotes,
            "undecided": {n: [str(c.get("description")) for c in cs][:5] for n, cs in undecided.items()},
        },
        "assumptions": assumptions,
        "wall_s": 0, "violations": len(violations),
    }

    def finish(code):
        ev["wall_s"] = round(time.time() - T0, 2)
        if os.environ.get("VERIF_NO_EVIDENCE"):
            sys.exit(code)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        sys.exit(code)

    if violations:
        rp = os.path.join(VERIF, "target", "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.txt" % pid)
        confirmed = False
        lines = ["property %s: failed obligations" % pid]
        for n, cs in violations.items():
            lines.append("harness %s::%s (functions: %s)" % (pid.lower(), n, hs.get(n, {}).get("fns", "")))
            lines += ["  FAILED " + describe(c) for c in cs]
        # replay the cheapest failing harnesses natively
        order = sorted((n for n in violations if n in hs), key=lambda n: R.results[n].get("duration_ms") or 0)
        if os.environ.get("VERIF_NO_REPLAY") != "1":
            for n in order[:3]:
                left = deadline - time.time() - 10
                if left < 60:
                    break
                try:
                    okc, notes = native_replay(pid, n, violations[n], hs[n], min(left, 240))
                except Exception as e:  # the replay is best effort, the failed obligation stands
                    okc, notes = False, ["replay failed: %r" % e]
                lines.append("---- native replay of %s" % n)
                lines += notes
                if okc:
                    confirmed = True
                    break
        lines.append("---- verifier commands\n" + R.engine.commands[0] + "\n" + "\n".join(R.results[n].get("cbmc", "") for n in violations if n in R.results))
        lines.append("---- failed checks (verifier output)\n" + json.dumps(violations, indent=1))
        open(path, "w").write("\n".join(lines) + "\n")
        log("VIOLATION property=%s replay=%s%s" % (pid, path, "" if confirmed else " no-failing-input-found"))
        finish(1)
    if undecided:
        log("UNDECIDED property=%s: %s" % (pid, ", ".join(sorted(undecided))))
        finish(2)
    log("HELD property=%s: %d obligations discharged in %d harnesses" % (pid, discharged, len(names)))
    for n in vnotes:
        log("NOTE " + n)
    finish(0)


if __name__ == "__main__":
    main()
