"""Decide one property: run its symbolic harnesses, replay counterexamples, write evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAY_EXIT = {"assert": 33, "panic": 34, "hang": -1}


def known_findings():
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                k = json.loads(line)
                if k.get("status") == "open":
                    out.append(k)
    return out


def is_known(known, pid, entry, v):
    for k in known:
        if k["property"] == pid and k["entry"] == entry and k["msg"] == v["msg"] and all(re.search(p, "\n".join(v["log"])) for p in k.get("log", [])):
            return k
    return None


def run_entry(b, pid, e, tier, budget, tmp):
    out = os.path.join(tmp, e["entry"] + ".json")
    cmd = [b["symrs"], "--bc-list", b["bclist"], "--entry", e["entry"], "--out", out, "--jobs", str(e.get("jobs", 8)),
           "--time", str(budget), "--max-viol", str(e.get("max_viol", 1)), "--tmp", tmp, "--quiet"]
    for k in ("max_steps", "rlimit", "split"):
        if k in e:
            cmd += ["--" + k.replace("_", "-"), str(e[k])]
    cmd += e.get("args", [])
    ov = os.path.join(VERIF, "tools", "overrides.txt")
    if os.path.exists(ov):
        cmd += ["--overrides", ov]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 300)
    if p.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("executor failed on %s (%d): %s" % (e["entry"], p.returncode, p.stderr[-2000:]))
    return json.load(open(out))


def replay(b, entry, v, path, tmp):
    """Run the counterexample in the real binary. Hash order is random there: try a few times."""
    for _ in range(30):
        code, out = replay_once(b, entry, v, path, tmp)
        if code == REPLAY_EXIT.get(v["kind"]) or code == -1:
            break
    return code, out


def replay_once(b, entry, v, path, tmp):
    with open(path, "w") as f:
        f.write(" ".join(str(x) for x in v["values"]) + "\n")
    d = tempfile.mkdtemp(dir=tmp)
    try:
        env = dict(os.environ, VERIF_SCRATCH=d, HOME=d)
        p = subprocess.run([b["exe"], entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=30, cwd=d, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace")[-4000:]
    except subprocess.TimeoutExpired as ex:
        return -1, "replay timed out\n" + (ex.stdout or b"").decode("utf-8", "replace")[-2000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    prop = PROPS[pid]
    try:
        b = vbuild.build_all()
    except vbuild.BuildError as ex:
        print("check %s: build failed\n%s" % (pid, ex))
        return 3
    entries = [e for e in prop["entries"] if tier == "thorough" or e.get("tier", "quick") == "quick"]
    skip = set(x for e in entries for x in e.get("replaces", []))
    entries = [e for e in entries if e["entry"] not in skip]
    total_budget = 600 if tier == "quick" else 9000
    tmp = tempfile.mkdtemp(prefix="symrs-")
    known = known_findings()
    ev_entries, problems, violations, known_hits = [], [], [], []
    try:
        for e in entries:
            left = total_budget - (time.time() - t0)
            if violations:
                break
            if left < 5:
                problems.append("%s: not run, time budget used up" % e["entry"])
                continue
            r = run_entry(b, pid, e, tier, left, tmp)
            ev_entries.append((e, r))
            for m, n in r["errors"].items():
                problems.append("%s: %s (x%d)" % (e["entry"], m[:600], n))
            if r["timed_out"]:
                problems.append("%s: time limit reached before all paths were decided" % e["entry"])
            new = []
            for i, v in enumerate(r["violations"]):
                k = is_known(known, pid, e["entry"], v)
                if k:
                    known_hits.append((k, v))
                    continue
                new.append(v)
            for i, v in enumerate(new):
                rp = os.path.join(EVID, "%s.%s.%d.replay" % (pid, e["entry"], i))
                code, text = replay(b, e["entry"], v, rp, tmp)
                v["replay_exit"] = code
                want = REPLAY_EXIT.get(v["kind"])
                if code == want or (v["kind"] in ("panic", "hang") and code in (34, 134, -6, -11)):
                    violations.append((e, v, rp, text))
                else:
                    problems.append("%s: counterexample for '%s' did not reproduce natively (exit %s): %s" % (e["entry"], v["msg"], code, text[-400:]))
            if not r["violations"]:
                for c in e.get("covers", []):
                    if not r["covers"].get(c):
                        problems.append("%s: vacuous, '%s' never reached" % (e["entry"], c))
    except Exception as ex:  # noqa: BLE001 - every failure of the machinery is an error of the check
        problems.append("machinery: %r" % ex)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    tot = lambda k: sum(r.get(k, 0) for _, r in ev_entries)
    funcs = {}
    for _, r in ev_entries:
        for f, n in r["functions"].items():
            if not f.startswith(("core::", "alloc::", "std::", "<core::", "<alloc::", "<std::", "vharness", "<vharness", "h_")):
                funcs[f] = funcs.get(f, 0) + n
    repo_funcs = {f: n for f, n in funcs.items() if re.search(prop.get("repo_re", r"branchless|scm_bisect"), f)}
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths"), "transitions": tot("instrs"),
            "traces_validated_against_impl": len(violations),
            "samples": ["%s: %d paths, %d solver queries, covers %s" % (e["entry"], r["paths"], r["queries"], json.dumps(r["covers"], sort_keys=True)) for e, r in ev_entries][:20] or ["none"],
            "explanation": "symbolic execution of the compiled implementation; every feasible path within the bounds was enumerated by the solver and each assertion decided for all remaining input values",
            "bounds": [{"entry": e["entry"], "bound": e["bound"]} for e, _ in ev_entries],
            "entries": [{"entry": e["entry"], "complete": r["complete"], "paths": r["paths"], "instructions": r["instrs"], "assertions_evaluated": r["asserts"],
                         "assertions_discharged_by_solver": r["dis"], "queries": r["queries"], "z3_calls": r["z3calls"], "sat": r["sat"], "unsat": r["unsat"],
                         "solver_s": round(r["z3time"], 3), "max_query_s": round(r["maxq"], 3), "wall_s": round(r["wall_s"], 2), "covers": r["covers"],
                         "assertions": r["assertions"]} for e, r in ev_entries],
            "queries": tot("queries"), "solver_s": round(tot("z3time"), 3),
            "functions_encoded": len(funcs), "implementation_functions": dict(sorted(repo_funcs.items(), key=lambda x: -x[1])[:60]),
            "modules_loaded": b["modules"],
        },
        "assumptions": prop["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"entry": e["entry"], "kind": v["kind"], "message": v["msg"], "where": v["where"], "values": v["values"], "log": v["log"], "replay": rp} for e, v, rp, _ in violations],
    }
    if known_hits:
        evidence["known_findings"] = sorted(set(k["what"] for k, _ in known_hits))
    if problems:
        evidence["problems"] = problems[:40]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)

    for k in sorted(set(k["what"] for k, _ in known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for e, v, rp, text in violations:
        print("counterexample in %s: %s (%s)" % (e["entry"], v["msg"], v["where"]))
        for l in v["log"]:
            print("   " + l)
        print("   native replay: " + text.strip().replace("\n", "\n   "))
    print("%s [%s]: %d entries, %d paths, %d instructions, %d queries, %.1f s solver, %.1f s total" % (pid, tier, len(ev_entries), tot("paths"), tot("instrs"), tot("queries"), tot("z3time"), time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][2]))
        return 1
    if problems:
        for p in problems[:20]:
            print("INCONCLUSIVE: " + p)
        return 4
    return 0


if __name__ == "__main__":
    sys.exit(main())
