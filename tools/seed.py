"""seed.py SPEC.py ...  make /verif/seeded/<id> from a description and confirm it.

A SPEC defines: id, property, file, edits [(old, new)], needs, breaks, demo (python text),
extra (files of /verif/mon to put beside the demo, optional), checks (optional list)."""
import json, os, re, shutil, subprocess, sys
V = "/verif"
R = "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo():
    sh("git -C /repo checkout -- .")
PRE = '''import sys, os, shutil, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
os.environ["RESCENE_NO_SPINNER"] = "1"
D = tempfile.mkdtemp(prefix="demo_")
def main():
    os.chdir(D)
%s
try:
    rc = main()
finally:
    os.chdir("/")
    shutil.rmtree(D, ignore_errors=True)
sys.exit(1 if rc else 0)
'''
def one(path):
    s = {}
    exec(open(path).read(), s)
    d = os.path.join(V, "seeded", s["id"])
    undo()
    assert not sh("git -C /repo status --short").stdout.strip()
    os.makedirs(d, exist_ok=True)
    files = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    base = set()
    for fn, edits in files.items():
        p = os.path.join(R, fn)
        t = open(p, newline="", encoding="latin-1").read()
        crlf = "\r\n" in t
        for old, new in edits:
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (t.count(old), old)
            t = t.replace(old, new)
        open(p, "w", newline="", encoding="latin-1").write(t)
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
    undo()
    # every removed line must be one of the original repository
    removed = 0
    for fn in files:
        blame = sh("git -C /repo blame -l -s %s" % fn).stdout.split("\n")
        cur = None
        for line in sh("git -C /repo apply --numstat /dev/stdin 2>&1", input="").stdout: pass
        n = 0
        infile = False
        for line in diff.decode("latin-1").split("\n"):
            if line.startswith("--- "):
                infile = line.strip().endswith("/" + fn)
            elif not infile:
                continue
            elif line.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", line).group(1)) - 1
            elif line.startswith("-"):
                removed += 1
                h = blame[n].split()[0].lstrip("^")
                if not "e80ffab".startswith(h[:7]):
                    print("NOT ORIGINAL", h, line)
                n += 1
            elif line.startswith(" "):
                n += 1
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    body = "".join("    " + l + "\n" if l else "\n" for l in s["demo"].strip("\n").split("\n"))
    open(os.path.join(d, "demo.py"), "w").write(PRE % body)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
        'export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 TZ=UTC\nexec "$PY" -W ignore "$D/demo.py"\n')
    for e in s.get("extra", ()):
        shutil.copy(os.path.join(V, "mon", e), d)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    ok = r0.returncode == 0
    res = ["demo clean rc=%d" % r0.returncode]
    if not ok: res.append(r0.stdout[-1500:])
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: res.append("APPLY " + a.stdout); ok = False
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        res.append("patched rc=%d" % r1.returncode)
        if r1.returncode == 0: ok = False
        else: res.append((r1.stdout.strip().split("\n") or [""])[-1][:150])
        t = sh("bash %s/tools/rtest.sh" % V)
        res.append("tests rc=%d" % t.returncode)
        if t.returncode: ok = False; res.append(t.stdout[-600:])
        caught = []
        for c in s.get("checks", [s["property"]]):
            k = sh("bash %s/check.sh %s quick" % (V, c), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = k.returncode == 1 and "VIOLATION property=%s" % c in k.stdout
            caught.append("%s:%s" % (c, "CAUGHT" if hit else "missed(rc %d)" % k.returncode))
        res.append(" ".join(caught))
    finally:
        undo()
    if removed == 0: res.append("NO ORIGINAL LINE CHANGED")
    print("%s %s: %s" % ("GOOD" if ok else "BAD ", s["id"], " | ".join(res)), flush=True)
for p in sys.argv[1:]:
    one(p)
