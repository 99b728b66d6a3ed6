#!/usr/bin/env python3
"""mkbug.py DEFS.py OUTDIR: makes OUTDIR/<id>/{patch.diff,meta.json} from the substitutions in DEFS.py (B: id -> (property, [(file, old, new)],
needs, breaks)) and refuses those that do not change lines of the original repository."""
import json
import os
import subprocess
import sys

ns = {}
exec(open(sys.argv[1]).read(), ns)
out = sys.argv[2]
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout
base = git("rev-list", "--max-parents=0", "HEAD").split()[0]
for bid, (prop, subs, needs, breaks) in ns["B"].items():
    new = {}
    bad = None
    for f, a, b in subs:
        s = new.get(f) or open("/repo/" + f).read()
        if s.count(a) != 1:
            bad = "%s: %d matches of %r" % (f, s.count(a), a[:60])
            break
        new[f] = s.replace(a, b)
    if bad:
        print(bid, "SKIPPED", bad)
        continue
    d = os.path.join(out, bid)
    os.makedirs(d, exist_ok=True)
    diff = ""
    orig = added = 0
    for f, s in new.items():
        t = "/tmp/mkbug_new"
        open(t, "w").write(s)
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t], capture_output=True, text=True).stdout
        diff += p
        bl = git("blame", "--root", "-l", "-s", "HEAD", "--", f).splitlines()
        n = 0
        for l in p.splitlines():
            if l.startswith("@@"):
                n = int(l.split()[1].split(",")[0][1:]) - 1
            elif l.startswith("-") and not l.startswith("---"):
                if bl[n].lstrip("^").startswith(base[:39]):
                    orig += 1
                else:
                    added += 1
                n += 1
            elif l.startswith(" "):
                n += 1
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(bid, prop, "original lines changed: %d, later lines: %d" % (orig, added), "" if orig and not added else "<-- NOT USABLE")
