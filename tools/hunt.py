#!/usr/bin/env python3
"""hunt.py [-a] [ID...]: apply each planted bug to /repo, run the check of its
property (all checks with -a), undo it, and say what caught it."""
import json, os, subprocess, sys
args = sys.argv[1:]
every = "-a" in args
args = [a for a in args if a != "-a"]
S = "/verif/seeded"
claimed = sorted(json.load(open("/verif/mc/programs.json")))
for b in args or sorted(os.listdir(S)):
    meta = json.load(open("%s/%s/meta.json" % (S, b)))
    subprocess.check_call(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, b)])
    res = []
    try:
        ids = claimed if every else [meta["property"]]
        for i in ids:
            if i not in claimed: res.append(i + " not claimed"); continue
            r = subprocess.run(["/verif/check.py", i, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % i)]
            if r.returncode == 1 and v: res.append(i + " caught")
            elif r.returncode: res.append("%s exit %d: %s" % (i, r.returncode, r.stdout[-300:]))
            elif not every: res.append(i + " MISSED")
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    print(b, ", ".join(res)); sys.stdout.flush()
