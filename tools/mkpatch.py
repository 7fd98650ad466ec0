#!/usr/bin/env python3
"""mkpatch.py NAME PROP FILE OLD NEW [FILE OLD NEW ...] -- writes seeded/NAME/patch.diff from replacements (each OLD must occur once)."""
import sys, subprocess, tempfile, os, shutil
name, rest = sys.argv[1], sys.argv[2:]
w = tempfile.mkdtemp(prefix="mkp-")
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x", shell=True)
for i in range(0, len(rest), 3):
    f, o, n = rest[i:i+3]
    p = os.path.join(w, f); s = open(p).read()
    if s.count(o) != 1: sys.exit(f"{f}: {s.count(o)} occurrences of {o!r}")
    open(p, "w").write(s.replace(o, n))
import re
diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
cur = None
for l in diff.splitlines():
    if l.startswith("--- a/"):
        cur = subprocess.run(["git", "-C", "/repo", "show", "3bca79d:" + l[6:]], capture_output=True).stdout.decode().splitlines()
    elif l.startswith("-") and l[1:].strip() and l[1:] not in cur:
        print("!! not an original line:", l)
d = os.environ.get("VSRC", "/verif") + f"/seeded/{name}"; os.makedirs(d, exist_ok=True)
out = subprocess.check_output(["git", "-C", w, "diff"])
open(d + "/patch.diff", "wb").write(out)
shutil.rmtree(w)
print(out.decode())
