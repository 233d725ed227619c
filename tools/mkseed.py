#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < edit: writes seeded/ID/patch.diff from an edit of FILE.
stdin: the old text, a line of ====, the new text; then a line of ==== needs, ==== what it breaks."""
import sys, os, subprocess, json, tempfile, shutil
ident, prop, path = sys.argv[1:4]
parts = sys.stdin.read().split("====\n")
old, new, needs, breaks = parts[:4]
out = "/verif/seeded/" + ident
os.makedirs(out, exist_ok=True)
w = tempfile.mkdtemp()
for side in "ab":
    os.makedirs(os.path.join(w, side, os.path.dirname(path)))
src = open("/repo/" + path).read()
assert src.count(old) == 1, "old text found %d times" % src.count(old)
open(os.path.join(w, "a", path), "w").write(src)
open(os.path.join(w, "b", path), "w").write(src.replace(old, new))
d = subprocess.run(["diff", "-u", "a/" + path, "b/" + path], cwd=w, capture_output=True, text=True).stdout
d = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in d.split("\n"))
prev = os.path.join(out, "patch.diff")
mode = "a" if len(sys.argv) > 4 else "w"
open(prev, mode).write(d)
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()},
          open(os.path.join(out, "meta.json"), "w"), indent=1)
demo = os.path.join(out, "demo.sh")
if not os.path.exists(demo):
    open(demo, "w").write('''#!/bin/bash
# Runs t.vhd, which checks itself; fails if an assertion does.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export NVC_LIBPATH=$r/_build/lib
cd "$w" || exit 2
timeout 100 "$r/_build/bin/nvc" --std=2008 --messages=compact -a "$d/t.vhd" -e --jit --no-save t \\
   -r --exit-severity=error t >out 2>&1
rc=$?
cat out
[ $rc = 0 ] && grep -q "PASS" out
''')
shutil.rmtree(w)
