#!/usr/bin/env python3
# usage: mkseed.py ID PROPERTY NP 'needs' 'what' FILE OLD NEW [FILE OLD NEW ...]   (demo.cpp from stdin)
# OLD may be given as "@file" to read from a file
import sys, subprocess, os, json, difflib
i, prop, np, needs, what = sys.argv[1:6]
rest = sys.argv[6:]
d = os.environ.get("V", "/verif") + "/seeded/" + i
os.makedirs(d, exist_ok=True)
files = {}
for k in range(0, len(rest), 3):
    f, old, new = rest[k:k+3]
    s = files.get(f) or open(os.environ.get("R", "/repo") + "/" + f).read()
    if s.count(old) != 1: sys.exit("%s: %d occurrences of %r" % (f, s.count(old), old))
    files[f] = s.replace(old, new)
out = ""
for f, s in files.items():
    a = open(os.environ.get("R", "/repo") + "/" + f).read().splitlines(True); b = s.splitlines(True)
    for l in difflib.unified_diff(a, b, "a/" + f, "b/" + f):
        out += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
open(d + "/patch.diff", "w").write(out)
demo = sys.stdin.read()
if demo.strip():
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(open(os.environ.get("V", "/verif") + "/dev/demo_template.sh").read().replace("@NP@", np))
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
print(out)
