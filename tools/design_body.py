"""Assembles DESIGN.md: head, one section per property (from the check modules), repairs, findings, planted bugs, false alarms."""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTES = {}
NA = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())
D = {}
exec(open(os.path.join(V, "tools", "design_notes.py")).read())
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    f = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(f) or i not in NOTES:
        out.append("Not claimed: %s\n" % NA.get(i, "no check built yet"))
        continue
    m = importlib.import_module("checks." + i.lower())
    d = D.get(i, {})
    out.append("*Decided by* %s. *Tests*: %s.\n" % (NOTES[i][0], ", ".join("`%s` (%d cases quick, %d thorough)" % (t.name, t.quick, t.thorough) for t in m.TESTS)))
    out.append("*Case and non-triviality*: %s\n" % m.RULE)
    if d.get("how"):
        out.append(d["how"] + "\n")
    out.append("*Bounds and assumptions*: %s.\n" % "; ".join(a.rstrip(".") for a in m.ASSUMPTIONS))
    if d.get("why"):
        out.append("*Beyond the tests*: %s\n" % d["why"])
out.append("## Repairs (`fix:` commits)\n\nEach was found by a check on the tree as given, shown against the real code, and repaired; the check passes on the repaired tree and reports the violation again without the repair.\n")
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed:"):
        w = l.split(None, 3)
        out.append("* %s `%s` %s" % (w[1].split("=")[1], w[2], w[3].strip().replace("defect: (repair) ", "")))
out.append("\n" + open(os.path.join(V, "tools", "design_tail.md")).read())
out.append("## Planted bugs (`/verif/seeded`)\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    b = f.split("/")[-2]
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], SEEDED.get(b, "yes, by %s as it stood" % m["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
