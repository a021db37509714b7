"""Verus part of C15: contract of `align_to` for every width, on the bodies extracted from /repo on every run.

The extraction copies the body of `fn align_to` of each `impl Alignable for T` verbatim; `self` becomes the parameter
`this`, `Self` becomes T. Dropped: the trait itself and doc comments. Nothing else is changed.
"""
import os, re, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/pasture-core/src/math/arithmetic.rs"
TYPES = ["u8", "u16", "u32", "u64", "u128", "usize"]


def block(text, at):
    """text of the braces block that starts at the first `{` from `at`"""
    i = text.index("{", at)
    d = 0
    for j in range(i, len(text)):
        d += {"{": 1, "}": -1}.get(text[j], 0)
        if d == 0:
            return text[i + 1:j]
    raise ValueError("unbalanced braces")


def run(work, limit):
    text = re.sub(r"//[^\n]*", "", open(SRC).read())
    out = []
    for t in TYPES:
        name = "verus_align_to_" + t
        r = {"harness": name, "functions": "<%s as Alignable>::align_to" % t, "fallback": True}
        m = re.search(r"impl\s+Alignable\s+for\s+%s\s*\{" % t, text)
        try:
            imp = block(text, m.start())
            f = re.search(r"fn\s+align_to\s*\(\s*&self\s*,\s*(\w+)\s*:\s*(?:Self|%s)\s*\)\s*->\s*(?:Self|%s)\s*\{" % (t, t), imp)
            body = block(imp, f.end() - 1)
            arg = f.group(1)
        except Exception:
            r.update(verdict="unsupported", detail="anchor not found: impl Alignable for %s { fn align_to }" % t)
            out.append(r)
            continue
        body = re.sub(r"\bself\b", "this", body)
        body = re.sub(r"\bSelf\b", t, body)
        src = open(os.path.join(HERE, "c15_prelude.rs")).read() + """
fn align_to(this: &%(t)s, %(a)s: %(t)s) -> (r: %(t)s)
    requires %(a)s > 0 ==> up(*this as int, %(a)s as int) <= %(t)s::MAX,
    ensures %(a)s == 0 ==> r == *this, %(a)s > 0 ==> r == up(*this as int, %(a)s as int),
{
    proof { if %(a)s > 0 { up_by_remainder(*this as int, %(a)s as int); } }
%(b)s
}
fn main() {}
}
""" % {"t": t, "a": arg, "b": body}
        path = os.path.join(work, name + ".rs")
        open(path, "w").write(src)
        t0 = time.time()
        try:
            p = subprocess.run(["verus", "--rlimit", "60", path], capture_output=True, text=True, timeout=limit)
            o = p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            o = "timeout"
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", o)
        r["ms"] = int(1000 * (time.time() - t0))
        if m and m.group(2) == "0":
            r.update(verdict="ok", obligations=int(m.group(1)), detail="")
        elif m and "rlimit" not in o and "Resource limit" not in o:
            r.update(verdict="fail", obligations=int(m.group(1)) + int(m.group(2)), detail=o[-3000:])
        else:
            r.update(verdict="unsupported", detail=o[-3000:])
        out.append(r)
    return out
