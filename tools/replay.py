#!/usr/bin/env python3
"""replay.py <file.replay> : rebuild the real code of /repo with sanitizers and run the recorded counterexample on it."""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as c
f = os.path.abspath(sys.argv[1]); t = open(f).read(); g = lambda k: re.search(rf"^# {k} (\S+)", t, re.M).group(1)
tmp = tempfile.mkdtemp(prefix="sx-replay-", dir="/tmp")
try:
    if g("build") == "compile": # a use of the public interface that no longer compiles
        print(t); sys.exit(c.run(["g++", "-std=c++17", "-w", "-DSX_NATIVE=1", "-I", f"{c.V}/harness", "-I", f"{c.REPO}/inc", "-fsyntax-only", f"{c.V}/harness/{g('harness')}"]).stderr[:2000])
    e = c.build_native(f"{c.V}/harness/{g('harness')}", f"{tmp}/native", [f"-DSX_THOROUGH={1 if g('tier') == 'thorough' else 0}"], c.MSAN if g("build") == "msan" else c.ASAN) if g("build") != "tsan" else c.build_tsan(f"{c.V}/harness/{g('harness')}", f"{tmp}/native", [f"-DSX_THOROUGH={1 if g('tier') == 'thorough' else 0}"])
    if e: sys.exit(e)
    print(t.split("\n\t")[0]); os.environ.update(c.ENV); os.system(f"{tmp}/native {f} 20")
finally: shutil.rmtree(tmp, ignore_errors=True)
