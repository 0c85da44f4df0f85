#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {
 "N01": "a statement about code produced by other compilers (MSVC, other versions) that are not installed: only clang's lowering of the sources can be encoded here (L01 decides the layout for that one)",
 "N02": "constant evaluation happens inside the compiler, on its syntax tree and before there is any code to execute symbolically; the run-time meaning of the same functions is what the other properties decide",
}
TECH = "bounded symbolic execution of the compiled library (LLVM IR from clang, regenerated per run), path conditions and assertions decided by Z3 (QF_BV); counterexamples replayed on a sanitized native build"
checks, na = [], []
for p in props:
    f = f"{V}/harness/{p['id']}.cpp"
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=p.get("na_reason") or NA.get(p["id"], "no check built"))); continue
    b = [m.strip() for m in re.findall(r"^// BOUND: *(.*)$", open(f).read(), re.M)]
    o = [m.strip() for m in re.findall(r"^// OUTSIDE: *(.*)$", open(f).read(), re.M)]
    checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough", technique=TECH, level="model_checking",
        level_note="Holds for all values within the bounds, all paths explored, no sampling. Bounds: " + " | ".join(b) + ". Outside: " + (" | ".join(o) or "larger bounds") + ". Engine, libc/libstdc++ runtime models and Z3 are trusted; sampled paths are validated against the real code on every run."))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in na])
