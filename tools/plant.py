#!/usr/bin/env python3
# Confirm a planted change: builds it in a scratch copy of /repo, runs the stable tests there,
# and runs its demonstration with and without the change.   plant.py ID...
import sys, os, subprocess, json, shutil
S = "/tmp/plant"; R = S + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        sh(f"git clone -q /repo {R}")
    sh(f"cd {R} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd -e _build")
    shutil.rmtree(S + "/vp", ignore_errors=True); shutil.copytree("/opt/vp", S + "/vp")
    for f in ("build.sh", "test.sh", "driver/env.sh", "driver/CMakeLists.txt"):
        t = open(f"/opt/vp/{f}").read().replace("/opt/vp", S + "/vp").replace("R=/repo", "R=" + R)
        open(f"{S}/vp/{f}", "w").write(t)
def main():
    prep(); base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    for i in sys.argv[1:]:
        d = f"/verif/seeded/{i}"; res = []
        sh(f"cd {R} && git checkout -q -f . ")
        r = sh(f"cp -r {d} {S}/demo && rm -f {S}/demo/patch.diff {S}/demo/meta.json; cd {R} && timeout 300 bash {S}/demo/demo.sh")
        res.append(f"demo clean rc={r.returncode}"); ok = r.returncode == 0
        if not ok: print(r.stdout[-2000:])
        a = sh(f"cd {R} && git apply {d}/patch.diff"); ok &= a.returncode == 0
        if a.returncode: print(a.stdout)
        r = sh(f"cd {R} && timeout 300 bash {S}/demo/demo.sh"); res.append(f"demo patched rc={r.returncode}"); ok &= r.returncode != 0
        shutil.rmtree(S + "/demo")
        if "--nobuild" not in os.environ.get("PLANT", ""):
            t = sh(f"bash {S}/vp/test.sh {S}/out.json"); o = json.load(open(S + "/out.json"))
            ps = set(o.get("passed") or [k for k, v in (o.get("tests") or o).items() if v in ("passed", "pass", True)])
            miss = stable - ps; res.append(f"tests missing={len(miss)} {sorted(miss)[:4]}"); ok &= not miss
        sh(f"cd {R} && git checkout -q -f .")
        print(i, "OK" if ok else "REJECTED", "; ".join(res), flush=True)
main()
