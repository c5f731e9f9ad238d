#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from props.py"""
import json
from props import PROPS, NOT_APPLICABLE
out = []
for id, p in list(PROPS.items()) + [(k, v["p"]) for k, v in NOT_APPLICABLE.items()]:
    assert len(p["title"]) <= 80, (id, len(p["title"]))
    out.append({
        "id": id, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": [p["observe"]], "hook_needed": None},
    })
open("properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks are needed: checks rewrite a copy of the sources", "source_commits": []},
    "checks": [{
        "property": id,
        "quick_cmd": "python3 check.py " + id,
        "thorough_cmd": "python3 check.py %s --thorough" % id,
        "technique": "symbolic execution of the real Rust functions (f64/i64 replaced by symbolic scalars at compile time), every branch and assertion decided by SMT (z3, cvc5); counterexamples replayed on the real crate",
        "level": "model_checking",
        "level_note": "solver verdict over all inputs within bounds: " + "; ".join(p["bounds"]),
    } for id, p in PROPS.items()],
    "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in NOT_APPLICABLE.items()],
    "notes": "generated by mk.py from props.py; see DESIGN.md",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
