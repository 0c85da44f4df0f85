#!/usr/bin/env python3
# usage: seed.py BUGFILE...   each BUGFILE defines bugs = [dict(id, prop, edits=[(file, old, new)], demo, needs, what)]
import sys, os, subprocess, json, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
V="/verif/seeded"; W="/tmp/sw"
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: it does not (run with cwd = the repository)
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -r "$d"' EXIT
g++ -std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -Iinc "$here/demo.cpp" -o "$d/demo" || exit 2
timeout 60 "$d/demo"
'''
PRE='''#include <functional>
#include <utility>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <memory>
#include <sstream>
#include <iterator>
#include <stdexcept>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s (line %d)\\n", #x, __LINE__); std::exit(1); } } while(0)
'''
only=None
bugs=[]
for f in sys.argv[1:]:
    if f.startswith("only="): only=f[5:].split(","); continue
    ns={}; exec(open(f).read(), ns); bugs+=ns["bugs"]
for b in bugs:
    if only and b["id"] not in only: continue
    run(f"git -C {W} fetch -q /repo HEAD; git -C {W} reset -q --hard FETCH_HEAD")
    ok=True
    for (fn,old,new) in b["edits"]:
        p=f"{W}/inc/ptl/{fn}.hpp"; s=open(p).read()
        if s.count(old)!=1: print(b["id"],"EDIT MATCHES",s.count(old),repr(old[:60])); ok=False; break
        open(p,"w").write(s.replace(old,new))
    if not ok: continue
    diff=run(f"git -C {W} diff").stdout
    d=f"{V}/{b['id']}"; os.makedirs(d,exist_ok=True)
    open(f"{d}/patch.diff","w").write(diff); open(f"{d}/demo.cpp","w").write(PRE+b["demo"].lstrip("\n")); open(f"{d}/demo.sh","w").write(DEMO.replace("-fsanitize=address,undefined -fno-sanitize-recover=all", "-pthread -fsanitize=thread") if b.get("tsan") else DEMO); os.chmod(f"{d}/demo.sh",0o755)
    json.dump(dict(property=b["prop"],needs=b["needs"],what_it_breaks=b["what"]),open(f"{d}/meta.json","w"),indent=1)
    r1=run(f"cd {W} && git stash -q && bash {d}/demo.sh; e=$?; git stash pop -q; exit $e")
    r2=run(f"cd {W} && bash {d}/demo.sh")
    t=run(f"cd {W} && CC=gcc CXX=g++ cmake -S {W} -B {W}/_b2 -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DPTL_BUILD_TESTS=ON >/dev/null && ninja -C {W}/_b2 2>&1 | tail -3 && {W}/_b2/test-ptl 2>&1 | tail -4")
    good=r1.returncode==0 and r2.returncode not in (0,2) and "All tests passed" in t.stdout
    print(b["id"], "OK" if good else "BAD", "base",r1.returncode,"bug",r2.returncode, (r2.stdout.strip().splitlines() or [""])[0][:80], "" if "All tests passed" in t.stdout else "TESTS: "+t.stdout[-300:], (r1.stdout+r1.stderr)[-300:] if r1.returncode else "", r2.stderr[:600] if r2.returncode==2 else "", flush=True)
    if not good: shutil.rmtree(d)
