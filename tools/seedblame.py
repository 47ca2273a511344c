#!/usr/bin/env python3
"""Which seeds change lines that our own commits added (base: the original commit)?"""
import subprocess, os, re, sys
BASE = "caa9e0f"
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded"
own = {}
def blame(f):
    if f not in own:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        own[f] = [not l.startswith("^") for l in out]
    return own[f]
for s in sorted(os.listdir(R)):
    d = open(R + "/" + s + "/patch.diff").read()
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", R + "/" + s + "/patch.diff"]).returncode == 0
    o = n = pure = 0; f = None; ln = 0
    for l in d.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if blame(f)[ln - 1]: o += 1
            else: n += 1
            ln += 1
        elif l.startswith("+") and not l.startswith("+++"): pure += 1
        elif l.startswith(" "): ln += 1
    print(s, "applies" if ok else "DOES NOT APPLY", "original", n, "ours", o, "added", pure)
