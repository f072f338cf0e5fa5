#!/usr/bin/env python3
"""mkseed.py FILE: creates seeded/<id>/ from a description file (python: ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO=go source)."""
import sys, os, json, subprocess, difflib
REPO, VERIF = os.environ.get("REPO", "/repo"), os.environ.get("VERIF", "/verif")
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = f"{VERIF}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in s["edits"]:
        t = files.get(f) or open(REPO + "/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        files[f] = t.replace(old, new)
    for f, t in files.items():
        o = open(REPO + "/" + f).read()
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, REPO + "/" + f, "-"], input=t.encode(), stdout=subprocess.PIPE).stdout.decode()
        out += f"diff --git a/{f} b/{f}\n" + p
    open(d + "/patch.diff", "w").write(out)
    # changed lines must be original
    if s.get("demo"): open(d + "/main.go", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(open(VERIF + "/tools/demo.tmpl").read())
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    base = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE).stdout
    for f, old, new in s["edits"]:
        t = open(REPO + "/" + f).read()
        l0 = t[:t.index(old)].count("\n") + 1
        l1 = l0 + old.rstrip("\n").count("\n")
        bl = subprocess.run(["git", "-C", REPO, "blame", "-s", "-L", f"{l0},{l1}", f], stdout=subprocess.PIPE).stdout.decode()
        for line in bl.splitlines():
            if "84cebad" not in line.split()[0]:
                print("note: not original:", s["id"], line)
