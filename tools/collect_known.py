#!/usr/bin/env python3
"""Development aid: prints known-findings lines for every keyed failure of a property (never run by a check)."""
import json, os, subprocess, sys, tempfile
prop, cfgs = sys.argv[1], sys.argv[2:] or ["default", "full"]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = tempfile.mktemp()
seen = {}
open(known, "w").close()
for cfg in cfgs:
    while True:
        out = tempfile.mktemp()
        subprocess.run([f"{here}/target/{cfg}/release/mc", "worker", prop, "thorough", "--out", out, "--known", known, "--family", "documented_angle"] , stderr=subprocess.DEVNULL)
        v = json.load(open(out))["families"][-1].get("violation")
        os.remove(out)
        if not v or "[finding key: " not in v["msg"]:
            if v: print("UNKEYED", v)
            break
        key = v["msg"].split("[finding key: ")[1].split("]")[0]
        seen[key] = v["msg"].split(" [finding key")[0]
        with open(known, "a") as f:
            f.write(f"known: property={prop} key={key} | x\n")
os.remove(known)
for k, m in seen.items():
    print(f"known: property={prop} key={k} | {m}")
