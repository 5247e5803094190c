"""Write properties.jsonl and MANIFEST.json from spec/props.py."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/spec", HERE + "/engine"]
import props
import rules

EFF = "abstract interpretation of the typed syntax tree to canonical effect contracts"
DESCR = {"process_discipline": "wait/sensitivity analysis of every process", "vc_class": "VC-range use per message class",
         "bundle_names": "signal pairing of interface bundles", "knob_names": "parameter name/type agreement between writer, parser and readers",
         "booksim_keys": "parameter name/type agreement", "stat_names": "statistic declaration/kind agreement", "pool_reset": "must-reset of pooled fields",
         "timing_tables": "constraint-table reachability", "determinism": "nondeterminism-source effect analysis", "bus_layout": "symbolic bit-layout disjointness"}


def main():
    with open(HERE + "/properties.jsonl", "w") as fh:
        for p in props.PROPS:
            assert len(p["title"]) <= 80, p["id"]
            ns = len(re.findall(r"\.(\s|$)", p["statement"]))
            assert ns <= 3, (p["id"], ns)
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"what": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        for i, t, s, over, q, why in props.NOT_APPLICABLE:
            fh.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": q},
                                 "why_tests_cant": "no test set covers " + q, "anchors": {"files": ["rad-sim/sim"], "mechanism": []}}) + "\n")
    checks = []
    for p in props.PROPS:
        rs = [r for r in p["rules"] if r in rules.RULES]
        tech = "; ".join(([EFF] if p["sel"] else []) + [DESCR[r] for r in rs])
        note = "decided from the current source alone, over all inputs and paths of each analysed function; "
        note += "loops and calls are abstracted (same abstraction on both sides), composition across functions rests on the contracts of the callees"
        cmd = "python3 engine/check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": tech, "level": "other", "level_note": note})
    m = {"version": 1, "setup_cmd": "bash radx/build.sh", "checks": checks,
         "not_applicable": [{"property": x[0], "reason": x[5]} for x in props.NOT_APPLICABLE]}
    with open(HERE + "/MANIFEST.json", "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
