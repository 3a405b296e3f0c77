#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), note="", na=None):
    assert len(title) <= 80, title
    # at most three sentences
    n = len(re.findall(r"[.;!?](?:\s|$)", re.sub(r"e\.g\.|i\.e\.|;", ",", statement)))
    assert n <= 3, (id, n)
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}}
    P.append((d, note))
    if na:
        NA[id] = na


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

TECH = "symbolic execution of the real code's LLVM IR with SAT/SMT decision of every assertion"
BASE = ("Bounded: holds for every input within the bounds given at the head of harness/%s.cpp (also in the evidence file); nothing is claimed outside them. "
        "Trusts clang 18 -O1 as front end, the engine in engine/ (UNSAT answers cross-checked with z3 on a sample; sampled paths replayed natively under ASan/UBSan and compared), "
        "and the libstdc++ models in rt/. Memory allocation is assumed to succeed.")


def main():
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P:
            f.write(json.dumps(d, ensure_ascii=True) + "\n")
    checks = []
    for d, note in P:
        i = d["id"]
        if i in NA:
            continue
        assert os.path.exists(HERE + "/harness/%s.cpp" % i), i
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking",
                       "level_note": (note + " " if note else "") + BASE % i})
    m = {"version": 1, "setup_cmd": "make -s -j4 -C engine", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
         "notes": "No hooks in /repo are needed: the checks compile /repo's headers and sources as they are, with the stand-in for the missing rapidjson submodule in shim/."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
