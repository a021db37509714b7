"""Compiles the harness crate with Kani and runs its verification pipeline (the commands `cargo kani` itself issues) for
every harness, with CBMC's plain output: `cargo kani` asks CBMC for JSON with a full trace of every satisfied cover, which
takes longer than the proof, can run out of memory, and then silently loses the remaining results."""
import glob, json, os, re, resource, signal, subprocess, threading, time

KANI_FLAGS = ["-Z", "stubbing", "-Z", "function-contracts", "-Z", "unstable-options", "--no-assertion-reach-checks"]
# small heap objects (the attributes of a layout) are tracked element by element, so constants in them propagate
CBMC_EXTRA = ["--max-field-sensitivity-array-size", "512"]
CBMC_FLAGS = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
              "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16", "--slice-formula"]
MEMORY = int(os.environ.get("VERIF_MEM_GB", "14")) << 30


def kani_bin(tool):
    for d in sorted(glob.glob(os.path.expanduser("~/.kani/kani-*/bin")), reverse=True):
        if os.path.exists(os.path.join(d, tool)):
            return os.path.join(d, tool)
    return tool


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


class Engine:
    def __init__(self, crate, target, env, work):
        self.crate, self.target, self.env, self.work = crate, target, env, work
        self.procs, self.lock, self.stopped = set(), threading.Lock(), False
        self.log = ""
        self.commands = []

    def sh(self, cmd, cwd, timeout, limited=False):
        """-> (return code or None on timeout, output)"""
        with self.lock:
            if self.stopped:
                return None, ""
            p = subprocess.Popen(cmd, cwd=cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                 errors="replace", start_new_session=True, preexec_fn=limit if limited else None)
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=max(1, timeout))
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return None, out
        finally:
            with self.lock:
                self.procs.discard(p)

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    def build(self, features, names, timeout):
        """Compiles the harnesses, in parts at the same time (the compiler takes them one by one)
        -> {harness: metadata} or None"""
        k = max(1, min(4, len(names) // 6))
        parts = [names[i::k] for i in range(k)]
        out = [None] * k

        def one(i):
            cmd = ["cargo", "kani", "--target-dir", self.target + (str(i) if i else ""), "--features", features] + KANI_FLAGS
            cmd += ["--only-codegen", "--verbose", "--exact"]
            for n in parts[i]:
                cmd += ["--harness", n]
            self.commands.append(" ".join(cmd))
            out[i] = self.sh(cmd, self.crate, timeout)
        ts = [threading.Thread(target=one, args=(i,)) for i in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        found = {}
        for i, (rc, text) in enumerate(out):
            self.log = text or ""
            if rc != 0:
                return None
            for d in set(os.path.dirname(m) for m in re.findall(r"Running: `goto-cc (\S+)\.symtab\.out", self.log)):
                for f in glob.glob(os.path.join(d, "*.kani-metadata.json")):
                    for h in json.load(open(f))["proof_harnesses"]:
                        if h["pretty_name"] in parts[i]:
                            found[h["pretty_name"]] = h
        return found

    def verify(self, h, timeout, unwind=None, solver=None):
        """-> result of one harness: {"checks": [...], "duration_ms", "status", "solver"}"""
        t0 = time.time()
        deadline = t0 + timeout
        base = h["goto_file"].replace(".symtab.out", "")
        tmp = os.path.join(self.work, h["mangled_name"][-120:])
        steps = [
            [kani_bin("goto-cc"), base + ".out", "--function", h["mangled_name"], "-o", tmp + ".1"],
            [kani_bin("goto-instrument"), "--add-library", "--no-malloc-may-fail", tmp + ".1", tmp + ".2"],
            [kani_bin("goto-instrument"), "--generate-function-body-options", "assert-false-assume-false",
             "--generate-function-body", ".*", "--drop-unused-functions", tmp + ".2", tmp + ".3"],
            [kani_bin("goto-instrument"), "--ensure-one-backedge-per-target", tmp + ".3", tmp + ".4"],
        ]
        a = h["attributes"]
        s = solver or str(a.get("solver") or "Minisat").lower()
        pick = {"minisat": [], "cadical": ["--sat-solver", "cadical"], "kissat": ["--external-sat-solver", kani_bin("kissat")]}.get(s, [])
        cbmc = [kani_bin("cbmc")] + CBMC_FLAGS + CBMC_EXTRA + pick
        u = unwind or a.get("unwind_value")
        if u:
            cbmc += ["--unwind", str(u)]
        cbmc += [tmp + ".4"]
        res = {"checks": [], "status": "error", "solver": s}
        try:
            for c in steps:
                rc, out = self.sh(c, self.crate, deadline - time.time(), True)
                if rc != 0:
                    res["status"] = "timeout" if rc is None else "pipeline failed: %s: %s" % (os.path.basename(c[0]), (out or "")[-300:])
                    return res
            rc, out = self.sh(cbmc, self.crate, deadline - time.time(), True)
            res["cbmc"] = " ".join(cbmc)
            out = out or ""
            res["stats"] = re.findall(r"Runtime (?:Symex|Solver): [\d.]+s|\d+ variables, \d+ clauses", out)
            if rc is None:
                res["status"] = "stopped" if self.stopped else "timeout"
                return res
            done = re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)$", out, re.M)
            total = re.search(r"^\*\* (\d+) of (\d+) failed", out, re.M)
            if rc not in (0, 10) or not done or not total:
                res["status"] = "CBMC gave no verdict (exit status %s): %s" % (rc, out[-300:])
                return res
            res["checks"] = parse(out)
            if len(res["checks"]) != int(total.group(2)) or sum(c["raw"] == "FAILURE" for c in res["checks"]) != int(total.group(1)):
                res["status"] = "results incomplete: %d of %s parsed" % (len(res["checks"]), total.group(2))
                res["checks"] = []
                return res
            res["status"] = "Success" if done.group(1) == "SUCCESSFUL" else "Failure"
            return res
        finally:
            res["duration_ms"] = int((time.time() - t0) * 1000)
            for k in "1234":
                try:
                    os.unlink(tmp + "." + k)
                except OSError:
                    pass

    def run_all(self, jobs, todo, work_fn, on_result):
        """Runs work_fn on every element of todo with `jobs` threads"""
        it = iter(list(todo))
        guard = threading.Lock()

        def worker():
            while True:
                with guard:
                    x = next(it, None)
                if x is None or self.stopped:
                    return
                r = work_fn(x)
                with guard:
                    on_result(x, r)
        ts = [threading.Thread(target=worker) for _ in range(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


START = re.compile(r"^\[((?:.+?\.)?[A-Za-z_][A-Za-z0-9_-]*\.\d+)\] (?:line (\d+) )?(.*)$")


def parse(out):
    """Checks of CBMC's plain result listing"""
    at = out.find("\n** Results:")
    checks, cur = [], None
    where, fn = "", ""
    for line in out[at:].split("\n")[2:]:
        m = START.match(line)
        if m and (cur is None or cur["raw"]):
            prop = m.group(1)
            parts = prop.rsplit(".", 2)
            cur = {"property": prop, "category": parts[-2], "function": parts[0] if len(parts) == 3 else fn,
                   "location": {"file": where, "line": m.group(2)}, "description": m.group(3), "raw": ""}
            checks.append(cur)
        elif cur is not None and not cur["raw"]:
            cur["description"] += "\n" + line
        elif line.startswith("** "):
            break
        else:
            m = re.match(r"^(\S+|<[^>]*>) function (.*)$", line)
            if m:
                where, fn = m.group(1), m.group(2)
            continue
        m = re.match(r"(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", cur["description"], re.S)
        if m:
            cur["description"], cur["raw"] = m.group(1).strip(), m.group(2)
    for c in checks:
        c["status"] = {"SUCCESS": "Success", "FAILURE": "Failure"}.get(c["raw"], "Undetermined")
        if c["category"] == "cover":
            c["status"] = {"SUCCESS": "Unsatisfiable", "FAILURE": "Satisfied"}.get(c["raw"], "Undetermined")
    return checks
