#!/usr/bin/env python3
"""findings.py HASH PROPERTY: appends a fixed entry for a /repo commit to known_findings.txt"""
import subprocess, sys
for h, p in zip(sys.argv[1::2], sys.argv[2::2]):
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], capture_output=True, text=True, check=True).stdout.strip()
    h, t = s.split(" ", 1)
    assert t.startswith("fix: ")
    if (" %s " % h) not in open("/verif/known_findings.txt").read():
        open("/verif/known_findings.txt", "a").write("fixed: property=%s %s %s\n" % (p, h, t[5:]))
