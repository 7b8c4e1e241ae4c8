"""Extracts the functions of /repo under contract and has Verus decide their obligations.

    run() -> Proof: what was accepted, what failed and where, what could not be decided.
"""
import json
import os
import re
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QLC_REPO", "/repo")
CONTRACTS = os.path.join(ROOT, "contracts")
TOOL_TARGET = os.path.join(ROOT, ".build", "vxtract")
TOOL = os.path.join(TOOL_TARGET, "debug", "vxtract")
BASELINE = os.path.join(CONTRACTS, "FUNCTIONS")
VERUS_ARGS = ["--triggers-mode", "silent", "--num-threads", "8"]
RLIMIT = ["--rlimit", "40"]
CHECKER_CMD = "vxtract /repo contracts OUT.rs OUT.json && verus OUT.rs " + " ".join(VERUS_ARGS + RLIMIT)


class ToolBroken(Exception):
    pass


def build_tool():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TARGET_DIR=TOOL_TARGET)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(ROOT, "tools", "vxtract"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolBroken(r.stderr[-2000:])


class Failure:
    """one obligation that the verifier did not accept"""

    def __init__(self, fn, kind, message, text, clause, rendered, tags):
        self.fn, self.kind, self.message, self.text, self.clause, self.rendered, self.tags = fn, kind, message, text, clause, rendered, set(tags)
        self.undecided = None  # why this is not evidence of a violation

    def name(self):
        return "%s: %s%s" % (self.fn or "(no function)", self.message, " `%s`" % self.clause if self.clause else "")


class Proof:
    def __init__(self):
        self.available = False
        self.why = None
        self.failures = []
        self.degraded = {}   # function -> why its body was not put before the verifier
        self.missing = []    # (function, tags): under contract, but not in the source any more
        self.fns = {}
        self.rules = {}
        self.dropped = []
        self.verified = self.errors = 0
        self.solver_ms = 0
        self.queries = {}
        self.wall = 0.0
        self.baseline = set()
        self.trusted = []
        self.vacuity = None

    def undecided_for(self, prop):
        """why the proof of this property is not complete, if it is not"""
        out = []
        if not self.available:
            out.append("no proof: %s" % self.why)
        for f, why in self.degraded.items():
            if prop in self.fns.get(f, {}).get("tags", []) or prop == "C16":
                out.append("%s: not verified: %s" % (f, why))
        for f, tags in self.missing:
            if prop in tags:
                out.append("%s: under contract, but not in the source any more" % f)
        for x in self.failures:
            if prop in x.tags and x.undecided:
                out.append("%s (undecided: %s)" % (x.name(), x.undecided))
        return out

    def failed_for(self, prop):
        return [x for x in self.failures if prop in x.tags and not x.undecided]


def extract(workdir, degraded, probe=False):
    out, js = os.path.join(workdir, "out.rs"), os.path.join(workdir, "out.json")
    env = dict(os.environ)
    if probe:
        env["VX_PROBE"] = "1"
    r = subprocess.run([TOOL, REPO, CONTRACTS, out, js] + sorted(degraded), capture_output=True, text=True, env=env)
    if r.returncode:
        return None, (r.stderr or r.stdout).strip()
    with open(js) as f:
        return (out, json.load(f)), None


def verus(path, extra=()):
    try:
        r = subprocess.run(["verus", path, "--output-json", "--time-expanded", "--error-format=json"] + VERUS_ARGS + RLIMIT + list(extra),
                           capture_output=True, text=True, cwd=os.path.dirname(path), timeout=VERUS_S)
    except subprocess.TimeoutExpired:
        return {}, [], "no result within %d s" % VERUS_S
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    try:
        summary = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        summary = {}
    return summary, diags, r.stderr[-3000:]


SAFETY = ("precondition not satisfied", "possible arithmetic", "possible division", "decreases not satisfied", "could not prove termination", "requires not satisfied",
          "recursive function must", "unreached", "loop must have a decreases")
VERIFY = SAFETY + ("postcondition not satisfied", "assertion failed", "invariant not satisfied", "assert_", "loop invariant", "unable to prove", "ensures not satisfied", "not all errors",
                   "split assertion", "split precondition", "split postcondition", "split invariant")
# the time of one run of the verifier, and of all runs of one check
VERUS_S, PROOF_S = 180, 300
LIMIT = ("rlimit", "Resource limit", "timed out", "Timeout")


def is_verification(msg):
    return any(w in msg for w in VERIFY)


def fn_at(fns, line):
    for k, f in fns.items():
        if f["out"][0] <= line <= f["out"][1]:
            return k
    return None


def prop_ids(text):
    m = re.search(r"//\s*\[((?:C\d\d[ ,]*)+)\]", text)
    return re.findall(r"C\d\d", m.group(1)) if m else []


def run(workdir, probe=True):
    t0 = time.time()
    p = Proof()
    try:
        with open(BASELINE) as f:
            p.baseline = {l.strip() for l in f if l.strip()}
    except OSError:
        pass
    build_tool()
    degraded = {}
    for _ in range(12):
        if time.time() - t0 > PROOF_S:
            p.why = "the verifier did not take the extracted text within %d s" % PROOF_S
            break
        got, err = extract(workdir, degraded)
        if got is None:
            p.why = "the source could not be extracted: %s" % err
            p.wall = time.time() - t0
            return p
        out, js = got
        fns = js["fns"]
        summary, diags, raw = verus(out)
        lines = open(out).read().split("\n")
        errors = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due to")]
        hard = [d for d in errors if not is_verification(d["message"]) and not any(w in d["message"] for w in LIMIT)]
        limit = [d for d in errors if any(w in d["message"] for w in LIMIT)]
        if not hard and not summary.get("verification-results"):
            p.why = "the verifier gave no result: %s" % raw[-800:]
            break
        new = {}
        lost_place = None
        for d in hard + limit:
            fn = None
            for sp in sorted(d.get("spans", []), key=lambda s: not s["is_primary"]):
                if os.path.basename(sp["file_name"]) == "out.rs":
                    fn = fn_at(fns, sp["line_start"])
                    if fn:
                        break
            if fn is None or fn in degraded:
                lost_place = d["message"] + " " + str([(s["file_name"], s["line_start"]) for s in d.get("spans", [])][:2])
            else:
                new[fn] = ("beyond the verifier: " if d in hard else "the solver gave up: ") + d["message"].split("\n")[0][:200]
        if hard or limit:
            if new:
                degraded.update(new)
                continue
            p.why = "the verifier does not take the extracted text: %s" % lost_place
            break
        p.available = True
        break
    else:
        p.why = "the verifier did not take the extracted text after 12 rounds"
    p.fns, p.rules, p.dropped = js["fns"], js["rules"], js["dropped"]
    p.missing = [(k, t) for k, t in js["missing"]]
    p.degraded = degraded
    if not p.available:
        p.wall = time.time() - t0
        return p
    vr = summary["verification-results"]
    p.verified, p.errors = vr.get("verified", 0), vr.get("errors", 0)
    p.solver_ms = summary.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    known = p.baseline
    for d in errors:
        if "not all errors may have been reported" in d["message"]:
            continue
        fn, clause, text = None, "", ""
        for sp in sorted(d.get("spans", []), key=lambda s: not s["is_primary"]):
            if os.path.basename(sp["file_name"]) != "out.rs":
                continue
            f = fn_at(p.fns, sp["line_start"])
            label = sp.get("label") or ""
            if "failed this" in label or "failed precondition" in label or "failed postcondition" in label:
                clause = clause or " ".join(t["text"].strip() for t in sp["text"])[:200]
                text = "\n".join(lines[sp["line_start"] - 1:sp["line_end"]])
            elif f:
                fn = f if fn is None else fn
        if fn is None:
            for sp in d.get("spans", []):
                if os.path.basename(sp["file_name"]) == "out.rs":
                    fn = fn or fn_at(p.fns, sp["line_start"])
        safety = any(w in d["message"] for w in SAFETY)
        tags = set(prop_ids(text))
        if not tags:
            tags = set(p.fns[fn]["tags"]) if fn else set()
        if safety:
            tags.add("C16")
        x = Failure(fn, "safety" if safety else "contract", d["message"].split("\n")[0], text, clause, d.get("rendered") or "", tags)
        if fn is None:
            x.undecided = "not in a function of the program"
        else:
            r = p.fns[fn]
            if fn not in known:
                x.undecided = "a new function without a contract"
            elif r["lost"]:
                x.undecided = "annotations lost their place: " + "; ".join(r["lost"])
            else:
                names = {k.split("::")[-1] for k in p.fns if k not in known}
                called = sorted(names & set(r["calls"]))
                if called:
                    x.undecided = "calls %s, which has no contract" % ", ".join(called)
                else:
                    gone = sorted({k.split("::")[-1] for k in known if k not in p.fns} & set(r["calls"]))
                    deg = sorted(k for k in degraded if k.split("::")[-1] in r["calls"])
                    if gone:
                        x.undecided = "calls %s, whose contract is lost" % ", ".join(gone)
        p.failures.append(x)
    # a new function cannot carry tags of its own: what it leaves open is open for its callers
    for x in p.failures:
        if x.undecided and x.fn and x.fn not in known:
            short = x.fn.split("::")[-1]
            for k, f in p.fns.items():
                if short in f["calls"]:
                    x.tags |= set(f["tags"])
    p.trusted = trusted_base(lines, p.fns)
    if probe and not p.failures:
        p.vacuity = vacuity(workdir, degraded, p)
    p.wall = time.time() - t0
    return p


def vacuity(workdir, degraded, p):
    """every function once more, with `assert(false)` first: each has to fail, or its contract is vacuous"""
    got, err = extract(workdir, degraded, probe=True)
    if got is None:
        return {"error": err}
    out, js = got
    summary, diags, _ = verus(out)
    if not summary.get("verification-results", {}).get("errors"):
        return {"error": "; ".join(d["message"] for d in diags if d.get("level") == "error")[:500] or "no result"}
    failed = set()
    for d in diags:
        if d.get("level") == "error" and "assertion failed" in d["message"]:
            for sp in d.get("spans", []):
                f = fn_at(js["fns"], sp["line_start"])
                if f:
                    failed.add(f)
    want = {k for k, f in js["fns"].items() if f["mode"] == "verified"}
    if not failed:
        return {"error": "; ".join(d["message"] for d in diags if d.get("level") == "error")[:500] or "no result"}
    return {"probed": len(want), "vacuous": sorted(want - failed)}


def trusted_base(lines, fns):
    """a scan of the verified text for everything that is assumed and not proved"""
    out = {}
    pend = None
    for i, l in enumerate(lines):
        s = l.strip()
        for word in ("assume(", "admit()"):
            if word in s and not s.startswith("//"):
                out.setdefault("%s at line %d of the extracted text" % (word, i + 1), 1)
        m = re.search(r"\baxiom fn (\w+)", s)
        if m:
            out["axiom %s" % m.group(1)] = 1
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]\s*\(", s)
        if m:
            out["assumed contract of %s" % m.group(1)] = 1
        if "#[verifier::external_body]" in s:
            pend = s.split("#[verifier::external_body]", 1)[1]
        if pend is not None:
            m = re.search(r"\b(fn|struct) (\w+)", s)
            if m:
                out["assumed contract of %s %s" % ("std" if m.group(1) == "fn" else "opaque type", m.group(2))] = 1
                pend = None
    for k, f in fns.items():
        if f["mode"] != "verified":
            out["body of %s not verified (%s)" % (k, f["mode"])] = 1
    return sorted(out)
