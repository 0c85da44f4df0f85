#!/usr/bin/env python3
# refac.py FILE.py [checks...]: apply all behaviour-preserving edits in FILE.py (list `edits` of (header, old, new)) to a scratch copy
# of /repo, run its tests, then every check; every check must stay quiet.
import sys, subprocess, re, os, json, time
W = "/tmp/rw"; V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def run(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
if not os.path.exists(W): run(f"git clone -q /repo {W}")
run(f"git -C {W} fetch -q /repo HEAD; git -C {W} reset -q --hard FETCH_HEAD")
ns = {}; exec(open(sys.argv[1]).read(), ns)
touched = set()
for fn, old, new in ns["edits"]:
    p = f"{W}/inc/ptl/{fn}.hpp"; s = open(p).read()
    if s.count(old) != 1: print("EDIT MATCHES", s.count(old), fn, repr(old[:70])); sys.exit(1)
    open(p, "w").write(s.replace(old, new)); touched.add(fn)
t = run(f"cd {W} && CC=gcc CXX=g++ cmake -S {W} -B {W}/_b2 -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DPTL_BUILD_TESTS=ON >/dev/null && ninja -C {W}/_b2 2>&1 | tail -3 && {W}/_b2/test-ptl 2>&1 | tail -4")
if "All tests passed" not in t.stdout: print("TESTS", t.stdout[-3000:]); sys.exit(1)
m = json.load(open(f"{V}/MANIFEST.json"))
for c in m["checks"]:
    p = c["property"]
    if sys.argv[2:] and p not in sys.argv[2:]: continue
    t0 = time.time(); r = run(f"cd {V} && PTL_REPO={W} timeout 900 python3 tools/check.py {p}"); dt = time.time() - t0
    if r.returncode or dt > 150 or "reduced" in r.stdout: print(f"{p}: exit {r.returncode} {dt:.0f} s\n{r.stdout[-1500:]}", flush=True)
print("done", sys.argv[1])
