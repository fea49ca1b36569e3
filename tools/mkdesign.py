"""writes DESIGN.md"""
import glob, importlib, json, os, sys, warnings
warnings.simplefilter("ignore")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
rd = lambda p: open(os.path.join(V, p), encoding="utf-8").read()
out = [rd("tools/design_head.md"), "## Per property\n"]
man = dict((c["property"], c) for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"])
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); d["id"] = m.split(os.sep)[-2]
    seeds.setdefault(d["property"], []).append(d)
known = [l.strip() for l in rd("known_findings.txt").split("\n") if l.startswith(("known:", "fixed:"))]
import io, contextlib
for l in rd("properties.jsonl").split("\n"):
    if not l: continue
    p = json.loads(l); i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in man:
        out.append("Not claimed.\n"); continue
    with contextlib.redirect_stdout(io.StringIO()):
        m = importlib.import_module("mon.checks." + i.lower())
    out.append("*Specified*: %s\n" % p["statement"])
    out.append("*Monitored*: %s\n" % m.RULE)
    out.append("*Technique*: %s (%s)\n" % (man[i]["technique"], man[i]["level_note"]))
    out.append("*Cases*: " + "; ".join("%s %d quick / %d thorough" % (g.name, g.quick, g.thorough) for g in m.GROUPS) + ".\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Bounds and assumptions*: " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append("*Beyond the tests*: %s\n" % p["why_tests_cant"])
    f = [k for k in known if "property=%s " % i in k]
    if f:
        out.append("*Defects found*:\n\n" + "\n".join("* " + (k.split(" ", 2)[0] + " " + k.split(" ", 2)[2]) for k in f) + "\n")
    if i in seeds:
        out.append("*Planted bugs*: " + "; ".join("`%s` (%s)" % (s["id"], s["what_it_breaks"]) for s in seeds[i]) + ".\n")
out.append("## Planted bugs\n\n| planted bug | property | needs | caught by (quick) |\n|---|---|---|---|")
for ss in sorted(seeds.values(), key=lambda s: s[0]["id"]):
    for s in ss:
        out.append("| %s | %s | %s | %s |" % (s["id"], s["property"], s["needs"], s.get("caught_by", s["property"])))
out.append("\n" + rd("tools/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))
