#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the qlc in /repo.

1. vxtract puts the functions of /repo's current source under contract; Verus decides every obligation.
2. The real binary, rebuilt from /repo, runs generated projects against an oracle written from the
   property's statement: the bounded stand-in for what is not under contract, and the search for a
   failing input of an obligation that was not accepted.

exit 0: held on everything explored.  exit 1: VIOLATION line(s).
"""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import proof  # noqa: E402
import runner  # noqa: E402
import scenarios  # noqa: E402
import known  # noqa: E402

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
QUICK_FACTOR, THOROUGH_FACTOR = 1, 25
SEARCH_S = {"quick": 150, "thorough": 900}[TIER]
REPLAY_DIR = os.path.join(ROOT, "evidence", "replay")


def log(*a):
    print(*a, flush=True)


def one(job):
    """one scenario, in a worker process"""
    name, salt, i = job
    key = "%s:%s:%s:%d" % (SEED, salt, name, i)
    runner.RECORD = runner.Record()
    try:
        r = getattr(scenarios, name)(random.Random(key), runner.BINARY)
    except Exception as e:  # an error of the harness is no statement about qlc
        return name, key, "error", "%s %s: %r" % (name, key, e), None
    if r is None:
        return name, key, "skipped", None, None
    mine = [(d, c) for d, c in r if PROP in d.tags][:1]
    other = [t for d, _ in r for t in d.tags if PROP not in d.tags]
    return name, key, "ran", (mine, other), runner.RECORD


def in_parallel(f, jobs, n, deadline=None):
    """the results of f on each job, from n forked processes, until the caller stops asking or the deadline comes"""
    procs = {}
    sys.stdout.flush()
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.setpgid(0, 0)
                os.close(r)
                with os.fdopen(wr, "wb") as out:
                    for job in jobs[w::n]:
                        data = pickle.dumps(f(job))
                        out.write(struct.pack("<Q", len(data)) + data)
                        out.flush()
                rc = 0
            finally:
                os._exit(rc)
        os.close(wr)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        procs[r] = (pid, bytearray())
    try:
        while procs:
            ready, _, _ = select.select(list(procs), [], [], 1)
            for r in ready:
                pid, buf = procs[r]
                got = os.read(r, 1 << 20)
                if not got:
                    os.close(r)
                    del procs[r]
                    if os.waitpid(pid, 0)[1]:
                        yield None, None, "error", "a worker ended early", None
                    continue
                buf += got
                while len(buf) >= 8:
                    size = struct.unpack_from("<Q", buf)[0]
                    if len(buf) < 8 + size:
                        break
                    res = pickle.loads(bytes(buf[8:8 + size]))
                    del buf[:8 + size]
                    yield res
            if deadline and time.time() > deadline:
                break
    finally:
        for r, (pid, _) in procs.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            os.close(r)
            os.waitpid(pid, 0)


class Sweep:
    """runs scenarios in parallel and keeps what disagreed with the property"""

    def __init__(self):
        self.n = 0
        self.skipped = 0
        self.other = {}
        self.found = []  # (scenario, seed string, Diff, Case)
        self.errors = []
        self.record = runner.Record()

    def run(self, plan, salt, factor=1, deadline=None):
        jobs = [(fn.__name__, salt, i) for fn, n in plan for i in range(max(1, int(n * factor)))]
        random.Random(salt).shuffle(jobs)
        for name, key, what, res, rec in in_parallel(one, jobs, 8, deadline):
            if what == "error":
                self.errors.append(res)
            elif what == "skipped":
                self.skipped += 1
            else:
                self.n += 1
                self.record.merge(rec)
                mine, other = res
                for t in other:
                    self.other[t] = self.other.get(t, 0) + 1
                if mine:
                    self.found.append((name, key) + mine[0])
                    break
        return self


def replay(kind, data):
    os.makedirs(REPLAY_DIR, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:12]
    path = os.path.join(REPLAY_DIR, "%s-%s-%s.json" % (PROP, kind, h))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def obligations(xs):
    return [{"obligation": x.name(), "function": x.fn, "kind": x.kind, "verifier": x.rendered, "undecided": x.undecided} for x in xs]


def main():
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="qlc-check-")
    try:
        return decide(work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(work, t0):
    box = {}

    def build():
        try:
            box["bin"] = runner.build()
        except Exception as e:
            box["err"] = e

    th = threading.Thread(target=build)
    th.start()
    try:
        p = proof.run(work, probe=True)
    except proof.ToolBroken as e:
        log("the extractor does not build:", e)
        th.join()
        return 2
    th.join()
    if "err" in box:
        log("qlc does not build from /repo:", box["err"])
        return 2
    binary = box["bin"]
    # the binary is run by an unprivileged user where there is one
    runner.prepare(binary, work)
    plan = scenarios.SCENARIOS[PROP]
    sweep = Sweep().run(plan, "base", THOROUGH_FACTOR if TIER == "thorough" else QUICK_FACTOR)

    failed, undecided = p.failed_for(PROP), p.undecided_for(PROP)
    if p.vacuity and p.vacuity.get("vacuous"):
        log("vacuous contracts:", p.vacuity)
        return 2
    if p.vacuity and p.vacuity.get("error"):
        log("UNPROVED: the contracts were not probed for vacuity:", p.vacuity["error"])
    searched = 0
    if not sweep.found and (failed or undecided):
        log("searching for a failing input, since the proof is not complete:")
        for x in failed:
            log("  not accepted: " + x.name())
        for u in undecided:
            log("  UNPROVED: " + u)
        before = sweep.n
        deadline = time.time() + SEARCH_S
        k = 0
        while time.time() < deadline and not sweep.found:
            sweep.run(plan, "search%d" % k, 4, deadline)
            k += 1
        searched = sweep.n - before

    violations = 0
    rc = 0
    if sweep.found:
        name, key, d, case = sweep.found[0]
        path = replay("input", {"property": PROP, "scenario": name, "seed": key, "difference": d.text, "case": case.to_json(),
                                "obligations_not_accepted": obligations(failed), "how_to_replay": "write case.files into an empty directory, run qlc there with case.args"})
        log("%s: %s" % (name, d.text[:1500]))
        for x in failed:
            log("obligation not accepted: " + x.name())
        log("VIOLATION property=%s replay=%s" % (PROP, path))
        violations, rc = 1, 1
    elif failed:
        path = replay("obligation", {"property": PROP, "obligations_not_accepted": obligations(failed), "searched": searched,
                                     "note": "the verifier gives no counterexample, and no failing input was found among %d runs" % searched})
        for x in failed:
            log("obligation not accepted: " + x.name())
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path))
        violations, rc = 1, 1
    elif undecided:
        log("UNPROVED on this tree, and held on %d bounded runs instead: %s" % (sweep.n, "; ".join(undecided)))
    if rc == 0:
        for line in known.report(PROP, runner.BINARY):
            log(line)
    write_evidence(p, sweep, failed, undecided, searched, violations, time.time() - t0)
    if sweep.errors:
        log("harness errors: %d, first: %s" % (len(sweep.errors), sweep.errors[0]))
        if rc == 0 and len(sweep.errors) > sweep.n // 10 + 3:
            return 2
    if rc == 0:
        log("OK property=%s: %d obligations-carrying functions accepted, %d runs agree (%.1f s)" % (PROP, p.verified, sweep.n, time.time() - t0))
    return rc


def write_evidence(p, sweep, failed, undecided, searched, violations, wall):
    mine = {k: f for k, f in p.fns.items() if PROP in f["tags"]}
    bad = {x.fn for x in p.failures if PROP in x.tags} | {k for k in mine if k in p.degraded}
    under = sorted(k for k, f in mine.items() if f["contracted"] and f["mode"] == "verified")
    callees = set()
    rec = sweep.record
    cov = {
        "obligations": len(mine) if p.available else 0,
        "discharged": len([k for k in mine if k not in bad and mine[k]["mode"] == "verified"]) if p.available else 0,
        "obligations_are": "functions of the program that carry this property, each with all its verification conditions (postconditions, invariants, preconditions of calls, bounds, overflow)",
        "whole_program": {"verified_items": p.verified, "not_accepted": p.errors, "functions_extracted": len(p.fns),
                          "functions_with_own_contract": len([k for k, f in p.fns.items() if f["contracted"]]),
                          "termination_not_proved": sorted(k for k, f in p.fns.items() if f["no_termination"])},
        "functions_under_contract": under,
        "functions_checked_for_safety_only": sorted(k for k, f in mine.items() if not f["contracted"]),
        "not_accepted": [x.name() for x in failed],
        "undischarged": undecided,
        "checker_cmd": proof.CHECKER_CMD,
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "solver_ms": p.solver_ms,
        "proof_wall_s": round(p.wall, 2),
        "trusted_base": p.trusted + ["extraction rule %s (%d uses)" % kv for kv in sorted(p.rules.items())] + ["left out of the verified text: %s" % x for x in p.dropped],
        "vacuity_probe": p.vacuity,
        "evaluations": rec.evaluations,
        "distinct_nontrivial": len(rec.distinct),
        "rule": "bounded: projects generated from a seed, run through the binary built from /repo and compared with an oracle; counted when its files and command line are new and it has a GraphQL document or a configuration",
        "bounded_scenarios": {fn.__name__: n for fn, n in scenarios.SCENARIOS[PROP]},
        "bounded_runs_searching_a_failing_input": searched,
        "differences_of_other_properties": sweep.other,
        "samples": rec.samples,
    }
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
        "assumptions": ["std collections, strings and iterators behave as the contracts in contracts/00_vx.rs say",
                        "the extraction rules D1..D16 keep the meaning of the program",
                        "machine integers are machine integers; no arithmetic is treated as mathematical",
                        "parts of the property outside the functions under contract are checked by bounded runs only"],
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % PROP)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", PROP + ".json"))


if __name__ == "__main__":
    sys.exit(main())
