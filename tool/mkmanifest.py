"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
NOTE = "Machine-checked postconditions for all shapes of the listed ranks and all contents, discharged function by function from clang's AST of /repo on every run; reals for floats; trusts the extractor, the verifier, z3 and the STL contracts; every harness is also replayed on concrete inputs under AddressSanitizer."
def prop(id, title, statement, text, why, files, mech, over=("inputs",), level="proof", note=None, observe=(), state=None, na=None):
    e = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe) or ["values, shapes and gradients returned through the public API"], "hook_needed": None}}
    if state: e["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((e, level, note or NOTE))
    if na: NA.append({"property": id, "reason": na})
exec(open(os.path.join(ROOT, "tool", "proptable.py")).read())
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e, _, _ in P: f.write(json.dumps(e) + "\n")
    nas = {x["property"] for x in NA}
    m = {"version": 1, "setup_cmd": "python3-vt dv/check.py --setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks read the unmodified headers", "source_commits": []},
         "checks": [{"property": e["id"], "quick_cmd": "./check %s --tier quick" % e["id"], "thorough_cmd": "./check %s --tier thorough" % e["id"],
                     "technique": "contract-based deductive verification: symbolic execution of the extracted code with inferred loop invariants, postconditions discharged by a normal-form prover and z3", "level": lv, "level_note": nt} for e, lv, nt in P if e["id"] not in nas and os.path.exists(os.path.join(ROOT, "specs", e["id"] + ".cc"))],
         "not_applicable": NA}
    for e, _, _ in P:
        if e["id"] not in nas and not os.path.exists(os.path.join(ROOT, "specs", e["id"] + ".cc")): m["not_applicable"].append({"property": e["id"], "reason": "no check built yet"})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
