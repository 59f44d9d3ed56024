"""Confirm and record a planted bug.

plant.py SPEC.py  -- SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text),
SOURCES (extra /repo sources), FLAGS.  Everything happens in a scratch copy of /repo that is
bind-mounted over /repo in a private mount namespace; /repo itself is never touched.
"""
import sys, os, subprocess, json, runpy, shutil
s = runpy.run_path(sys.argv[1])
ID = s["ID"]
out = f"/verif/seeded/{ID}"
os.makedirs(out, exist_ok=True)
flags = "-w " + s.get("FLAGS", "-g -fsanitize=address,undefined -fno-sanitize-recover=all")
if s.get("STUBS"):
    flags += " -DVC_NATIVE -I$d/stubs"
    shutil.copytree("/verif/harness/stubs", out + "/stubs", dirs_exist_ok=True)
src = " ".join("/repo/" + x for x in s.get("SOURCES", []))
open(out + "/demo.cpp", "w").write(s["DEMO"])
open(out + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0 when the property holds on the program below, non-zero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++17 {flags} -I/repo/include -I/repo/src/lib -I/repo/src/lib/gravity -I/usr/include/eigen3 "$d/demo.cpp" {src} -o "$t/demo" || exit 3
cd "$t" && timeout 200 ./demo
rc=$?
rm -f "$t/demo"; cd / ; rmdir "$t"
exit $rc
""")
os.chmod(out + "/demo.sh", 0o755)
json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
scratch = f"/tmp/rep_{ID}"
subprocess.run(["cp", "-a", "/repo", scratch], check=True)
try:
    for f, old, new in s["EDITS"]:
        p = f"{scratch}/{f}"
        t = open(p).read()
        n = t.count(old)
        assert n == 1, (f, n, old)
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", scratch, "diff"], capture_output=True, text=True, check=True).stdout
    open(out + "/patch.diff", "w").write(d)
    script = f"""mount --bind {scratch} /repo || exit 9
cd /repo; bash /opt/vp/build.sh > {scratch}.blog 2>&1 || {{ tail -30 {scratch}.blog; echo BUILDFAIL; exit 1; }}
bash /opt/vp/test.sh {scratch}.json > {scratch}.tlog 2>&1; echo tests rc $?
bash {out}/demo.sh > {scratch}.dlog 2>&1; echo "patched demo rc $?"; tail -5 {scratch}.dlog"""
    subprocess.run(["unshare", "-m", "bash", "-c", script])
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(scratch + ".json"))
    print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in res.items()})
    stable = base.get("stable") or base.get("passed") or base
    bad = [t for t in stable if t not in res.get("passed", res.get("passing", []))] if isinstance(stable, list) else "?"
    print("stable not passing:", bad)
    r = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    print("clean demo rc", r.returncode, r.stdout[-300:], r.stderr[-600:])
finally:
    shutil.rmtree(scratch)
    for e in (".blog", ".json", ".tlog", ".dlog"):
        try: os.remove(scratch + e)
        except OSError: pass
