"""Development aid: write properties.jsonl, MANIFEST.json and DESIGN.md's catalogue from props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from na import NOT_APPLICABLE, HOOKS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for pid, p in PROPS.items():
            assert len(p["title"]) <= 80, (pid, len(p["title"]))
            f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
        for p in NOT_APPLICABLE:
            f.write(json.dumps(p["property"]) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/vbuild.py",
        "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS='--cfg verif' (set by tools/vbuild.py)", "source_commits": HOOKS},
        "checks": [{"property": pid, "quick_cmd": "./check.sh %s quick" % pid, "thorough_cmd": "./check.sh %s thorough" % pid,
                    "evidence_file": "evidence/%s.json" % pid,
                    "technique": "symbolic execution of the implementation's LLVM IR; the SMT solver (Z3) decides every branch and assertion; counterexamples replayed natively",
                    "level": "model_checking", "level_note": "bounded: all inputs within the sizes stated in the evidence"} for pid in PROPS],
        "not_applicable": [{"property": p["property"]["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    out = []
    for pid, p in PROPS.items():
        out.append("### %s %s\n\nOracle: %s.\n" % (pid, p["title"], p["oracle"]))
        out.append("| harness | tier | bound |\n|---|---|---|")
        for x in p["entries"]:
            out.append("| %s | %s | %s |" % (x["entry"], x.get("tier", "quick"), x["bound"]))
        out.append("")
    d = os.path.join(V, "DESIGN.md")
    s = open(d).read()
    a, b = "<!-- catalogue -->\n", "<!-- /catalogue -->"
    if a in s:
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n".join(out) + "\n" + s[j:]
        open(d, "w").write(s)


main()
