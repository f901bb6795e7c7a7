#!/usr/bin/env python3
"""Writes covers.json: the situations each entry reaches on the unchanged tree (run after a build, see dev.sh)."""
import json, os, subprocess, sys, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from props import PROPS
ll = sys.argv[1]; exe = sys.argv[2]
c = {}
for pid, P in PROPS.items():
    o = "/tmp/covers.json"
    subprocess.run([exe, ll, "--entries", ",".join(P["entries"]), "--out", o, "--threads", "8", "--time", "600", "--steps", "60000000", "--tier", "0", "--solver-ms", "60000"], check=True, stdout=subprocess.DEVNULL)
    r = json.load(open(o))
    assert r["complete"] and not r["violations"], pid
    for e, x in r["entries"].items(): c[e] = sorted(int(k) for k in x["covers"])
    print(pid, r["explore_seconds"], sum(x["paths"] for x in r["entries"].values()), flush=True)
with open(os.path.join(H, "covers.json"), "w") as f: f.write("{\n" + ",\n".join(' "%s": %s' % (e, c[e]) for e in sorted(c)) + "\n}\n")
