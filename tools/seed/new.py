#!/usr/bin/env python3
"""Make and validate a planted bug.  usage: new.py ID PROP SPEC.py
SPEC.py defines edits=[(file, old, new), ...], demo (C++ text), needs, breaks, optional flags, libs."""
import json, os, shutil, subprocess, sys
V = "/verif"; sid, prop, spec = sys.argv[1:4]; g = {"flags": "", "libs": ""}; exec(open(spec).read(), g)
d = os.path.join(V, "seeded", sid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
shutil.copytree(os.path.join(V, "tools/seed/stubs"), d + "/stubs")
open(d + "/demo.cpp", "w").write(g["demo"]); open(d + "/demo.sh", "w").write(open(os.path.join(V, "tools/seed/demo.sh")).read().replace("@FLAGS@", g["flags"]).replace("@LIBS@", g["libs"])); os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
w = "/tmp/seedwork-%s" % sid; shutil.rmtree(w, ignore_errors=True); subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.check_call(["git", "clone", "-q", "/repo", w])
def demo():
    r = subprocess.run([d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); return r.returncode, r.stdout[-1500:]
try:
    a = demo(); print("unchanged:", a[0], a[1][-300:] if a[0] else "")
    for f, o, n in g["edits"]:
        p = os.path.join(w, "include/albatross/src", f); t = open(p).read(); assert t.count(o) == 1, (f, t.count(o), o); open(p, "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    b = demo(); print("patched:", b[0], b[1][-300:])
    if a[0] == 0 and b[0] not in (0, 2): print("OK", sid)
    else: print("REJECTED", sid)
finally: shutil.rmtree(w, ignore_errors=True)
