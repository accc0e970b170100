"""Source of properties.jsonl and of MANIFEST.json (python3 engine/props.py rewrites both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/proxsuite-nlp/"
P = []
NA = []


def prop(id, title, statement, over, why, files, mech, qtext, note, state=None, observe_at=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = state
    if observe_at:
        d["anchors"]["observe_at"] = observe_at
    P.append((d, note))


def main():
    import specs
    import proptext  # noqa: fills P and NA
    q = proptext.base
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for d, _ in q.P:
            f.write(json.dumps(d) + "\n")
    checks = [{"property": d["id"], "quick_cmd": f"./check {d['id']}", "thorough_cmd": f"./check {d['id']} --thorough",
               "technique": "symbolic execution of the instrumented LLVM IR of the real code, SMT (z3, cvc5) verdict per path, native replay",
               "level": "model_checking", "level_note": note} for d, note in q.P if d["id"] in specs.SPECS]
    na = [{"property": i, "reason": r} for i, r in q.NA]
    have = {c["property"] for c in checks} | {i for i, _ in q.NA}
    for d, _ in q.P:
        assert d["id"] in have, d["id"]
        assert len(d["title"]) <= 80, d["title"]
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: harnesses in /verif/harness include /repo's headers directly; see DESIGN.md."}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(q.P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
