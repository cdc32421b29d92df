#!/usr/bin/env python3
"""For every planted bug: does it change lines of the original repository?"""
import subprocess, glob, os
BASE = "7db4035"
for d in sorted(glob.glob("/verif/seeded/*")):
    f = None; rem = {}
    lines = open(d + "/patch.diff").read().splitlines()
    n = 0; add_at = {}
    for l in lines:
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("+++"): pass
        elif l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"): rem.setdefault(f, []).append((n, l[1:])); n += 1
        elif l.startswith("+"): add_at.setdefault(f, []).append(n)
        else: n += 1
    ok = bad = 0
    for f, ls in rem.items():
        b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=12", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        for n, t in ls:
            new = not subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", b[n-1].split()[0].lstrip("^"), BASE], capture_output=True).returncode == 0
            ok, bad = ok + (not new), bad + new
    print(os.path.basename(d), "original lines:", ok, "own lines:", bad, "" if rem else "(only additions)")
