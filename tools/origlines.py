#!/usr/bin/env python3
"""usage: origlines.py ID...   Lines a planted bug removes that are not of the original repository (6c89bc0)."""
import subprocess, sys, re, os
R = "/repo"; BASE = "6c89bc0"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
new = set(subprocess.check_output(["git", "-C", R, "rev-list", BASE + "..HEAD"], text=True).split())
for id in sys.argv[1:]:
    f = None; n = 0; rem = orig = 0; bad = []; gap = None
    for l in open("%s/seeded/%s/patch.diff" % (V, id)):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame = [x.split()[0] for x in subprocess.check_output(["git", "-C", R, "blame", "-l", "-s", "--abbrev=40", f], text=True).splitlines()]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            rem += 1
            if blame[n-1].lstrip("^") in new: bad.append("%s:%d" % (f, n))
            n += 1
        elif l.startswith(" "): n += 1
    print(id, "removes", rem, "not original:", bad)
