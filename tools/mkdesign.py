"""Fill the generated tables of DESIGN.md (between markers)."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/spec", HERE + "/engine"]
import props
import rules


def part(name, lines, s):
    body = "<!-- %s -->\n%s\n<!-- end %s -->" % (name, "\n".join(lines), name)
    if "@%s@" % name in s:
        return s.replace("@%s@" % name, body)
    return re.sub(r"<!-- %s -->.*?<!-- end %s -->" % (name, name), lambda m: body, s, flags=re.S)


def main():
    s = open(HERE + "/DESIGN.md").read()
    t = ["| id | property | decided by effect contracts of | rules |", "|---|---|---|---|"]
    for p in props.PROPS:
        sel = []
        for x in p["sel"]:
            if x[0].startswith("design:") and x[0] not in ("design:mlp", "design:npu"):
                continue
            sel.append("`%s` %s%s" % (x[0], x[1].replace("|", "\\|"), "" if x[2] == "." else " fn " + x[2].replace("|", "\\|")))
        t.append("| %s | %s | %s | %s |" % (p["id"], p["title"], "; ".join(sel) or "-", ", ".join(r for r in p["rules"] if r in rules.RULES) or "-"))
    s = part("TABLE", t, s)
    s = part("NA", ["- %s %s: %s" % (x[0], x[1], x[5]) for x in props.NOT_APPLICABLE], s)
    t = ["| bug | property | caught by | needs |", "|---|---|---|---|"]
    det = json.load(open(HERE + "/seeded/detected.json")) if os.path.exists(HERE + "/seeded/detected.json") else {}
    for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        m = json.load(open(f))
        b = os.path.basename(os.path.dirname(f))
        t.append("| %s | %s | %s | %s |" % (b, m["property"], det.get(b, "?"), m["needs"].replace("|", "\\|")))
    s = part("SEEDED", t, s)
    open(HERE + "/DESIGN.md", "w").write(s)


main()
