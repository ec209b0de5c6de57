#!/usr/bin/env python3
"""mkdemo.py OUTDIR REPLAYDIR...: a command line demo (inputs + expect.txt) from replay folders of wrong verdicts."""
import os, re, shutil, sys
out = sys.argv[1]
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
lines = []
for n, r in enumerate(sys.argv[2:]):
    w = open(r + "/what.txt").read()
    m = re.search(r"^(\S+): answered .*?, the reference says (\S+) \(.*\): (m\.pnml .*)", w, re.M | re.S)
    if not m:
        print("skipped", r)
        continue
    q, v, args = m.group(1), m.group(2), m.group(3).strip().split("\n")[0]
    shutil.copy(r + "/model.pnml", "%s/m%d.pnml" % (out, n))
    shutil.copy(r + "/query.xml", "%s/q%d.xml" % (out, n))
    args = args.replace("m.pnml", "@m%d.pnml" % n).replace("q.xml", "@q%d.xml" % n)
    lines.append("%s|FORMULA %s %s" % (args, q, v))
open(out + "/expect.txt", "w").write("\n".join(lines) + "\n")
print("\n".join(lines))
