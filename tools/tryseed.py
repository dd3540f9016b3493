#!/usr/bin/env python3
# Apply each planted change to /repo, run its property's check (or the checks named), undo it.
#   tryseed.py [--checks C01,C02] ID...
import sys, os, subprocess, json, time
a = sys.argv[1:]; checks = None
if a and a[0] == "--checks": checks = a[1].split(","); a = a[2:]
ids = a or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = f"/verif/seeded/{i}"; m = json.load(open(d + "/meta.json"))
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], stdout=subprocess.PIPE, text=True).stdout == ""
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for c in checks or [m["property"]]:
            t = time.time()
            r = subprocess.run(["python3-vt", "check.py", c, "--tier", "quick"], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "KNOWN"))]
            print(i, c, f"rc={r.returncode}", f"{time.time()-t:.0f}s", v, flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
