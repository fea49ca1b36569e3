"""writes MANIFEST.json from properties.jsonl and the check modules"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
for l in open(os.path.join(V, "tools", "techniques.tsv")):
    if l.strip():
        i, t, n = l.rstrip("\n").split("\t")
        T[i] = (t, n)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "mon", "checks", p.lower() + ".py")) and p in T:
        checks.append(dict(property=p, quick_cmd="bash check.sh %s quick" % p,
                           thorough_cmd="bash check.sh %s thorough" % p,
                           technique=T[p][0], level="exploration", level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason="machinery not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the monitors are audit hooks, reference models and wrappers in the harness.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
