#!/usr/bin/env python3
"""Adds to regress/CXX.json the cases of the given replay files (default: all of replays/)
which hold on the current tree; the others are listed."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files = sys.argv[1:] or sorted(glob.glob(V + "/replays/*.json"))
for f in files:
    rec = json.load(open(f)); prop = rec["property"]
    r = subprocess.run([V + "/check.py", prop, "--replay", f], capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        print("NOT HELD", f, (r.stdout + r.stderr)[:300].replace("\n", " | ")); continue
    path = V + "/regress/%s.json" % prop
    recs = json.load(open(path)) if os.path.exists(path) else []
    new = {"part": rec["part"], "case": rec["case"]}
    if new not in recs:
        recs.append(new)
        recs.sort(key=lambda r: (r["part"], len(json.dumps(r)), json.dumps(r)))
        with open(path, "w") as g:
            g.write("[\n" + ",\n".join(json.dumps(r, sort_keys=True) for r in recs) + "\n]\n")
