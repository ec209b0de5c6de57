#!/usr/bin/env python3
"""seed.py ID PROPERTY PATCH DEMODIR NEEDS BREAKS: assembles /verif/seeded/ID and confirms it in a scratch copy.
DEMODIR holds expect.txt (+ inputs) for a command line demo, or demo.cpp, or its own demo.sh."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, patch, demodir, needs, breaks = sys.argv[1:7]
d = os.path.join(V, "seeded", id)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copy(patch, d + "/patch.diff")
for f in os.listdir(demodir):
    s = os.path.join(demodir, f)
    (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, f))
if not os.path.exists(d + "/demo.sh"):
    shutil.copy(V + "/tools/demo/build.sh", d)
    shutil.copytree(V + "/shim", d + "/shim")
    if os.path.exists(d + "/expect.txt"):
        shutil.copy(V + "/tools/demo/demo_cli.sh", d + "/demo.sh")
    else:
        open(d + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/build.sh"\nbuild\ncd "$W"\ntimeout 60 ./verifypn "$H"\n')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
w = tempfile.mkdtemp(prefix="seed-")
try:
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    x = tempfile.mkdtemp(prefix="seeddemo-")
    shutil.copytree(d, x + "/d")
    for f in ("patch.diff", "meta.json"):
        os.unlink(x + "/d/" + f)
    a = subprocess.run(["bash", x + "/d/demo.sh"], cwd=w + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("clean:", a.returncode, a.stdout[-300:] if a.returncode else "")
    g = subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"])
    if g.returncode:
        sys.exit("patch does not apply")
    b = subprocess.run(["bash", x + "/d/demo.sh"], cwd=w + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("patched:", b.returncode, b.stdout[-600:])
    shutil.rmtree(x)
    ok = a.returncode == 0 and b.returncode not in (0, 99)
    print("DEMO", "OK" if ok else "BAD")
finally:
    shutil.rmtree(w)
