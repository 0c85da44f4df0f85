#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep] : decide one property by symbolic execution of the code in /repo.

Compiles harness/<property>.cpp against /repo/inc to LLVM IR, runs the symbolic executor on every harness function in it,
replays every counterexample and a sample of the explored paths on the real code (g++, ASan+UBSan; MSan when needed),
writes evidence/<property>.json.  Exit 0: holds within the bounds; 1: VIOLATION line(s); 2: no verdict."""
import json, os, re, subprocess, sys, tempfile, shutil, time, argparse, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PTL_REPO", "/repo")
CLANG, OPT = "/usr/bin/clang++-18", "/usr/bin/opt-18"
IR_FLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w"]
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free", "-rdynamic", "-ldl"]
ASAN = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,nonnull-attribute,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-no-pie", "-DSX_NATIVE=1"]
MSAN = [CLANG, "-Wl,--allow-multiple-definition", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=memory", "-fsanitize-memory-use-after-dtor", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie", "-DSX_NATIVE=1"]
TSAN = [CLANG, "-Wl,--allow-multiple-definition", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=thread", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie", "-DSX_NATIVE=1", "-DSX_TSAN=1", "-pthread"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:strict_string_checks=0:detect_stack_use_after_return=1:replace_str=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98", MSAN_OPTIONS="exitcode=97:poison_in_dtor=1", TSAN_OPTIONS="exitcode=96:halt_on_error=1:handle_segv=0")

def brief(name):
    """a function's name with long template argument lists left out"""
    while len(name) > 160:
        short = re.sub(r"<[^<>]{4,}>", "<..>", name)
        if short == name: short = re.sub(r"\([^()]{60,}\)", "(..)", name)
        if short == name: short = re.sub(r"(?:, ?[\w:.]+(?:<\.\.>|<\d+ul>)?){6,}", ", ..", name)
        if short == name: break
        name = short
    return name[:400]
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def comments(src, tag):
    return [m.group(1).strip() for m in re.finditer(r"^\s*//\s*" + tag + r":\s*(.*)$", src, re.M)]

def build_ir(src, out, defs):
    bc = out + ".raw.bc"
    inc = ["-I", f"{V}/harness", "-I", f"{REPO}/inc"]
    inc += ["-isystem", f"{V}/harness/stub"] # stream stand-ins
    r = run([CLANG, *IR_FLAGS, *defs, *inc, "-emit-llvm", "-c", src, "-o", bc])
    if r.returncode: return "compile: " + r.stderr[-3000:]
    passes = "".join(comments(open(src).read(), "PASSES")) or "sroa" # simplifycfg: selects instead of branches, fewer paths
    r = run([OPT, "-passes=" + passes, bc, "-o", out])
    if r.returncode: return "opt: " + r.stderr[-2000:]
    return ""

def compilable(src, text, entries, defs, tmp):
    """the harness file reduced to those harness functions that compile against the current headers"""
    parts = re.split(r"(?m)^(?=SX_HARNESS\(\w+\))|(?<=^\})\n", text) # harness functions start in column 0 and end with a brace there (or on their own line)
    units, other = {}, []
    for x in parts:
        m = re.match(r"SX_HARNESS\((\w+)\)", x)
        if not m: other.append((None, x)); continue
        l = x.split("\n", 1)
        if l[0].rstrip().endswith("}") and l[0].count("{") == l[0].count("}"): other.append((m.group(1), l[0])); other.append((None, l[1] if len(l) > 1 else ""))
        else: other.append((m.group(1), x))
    def source(keep): return "\n".join(x for n, x in other if n is None or n in keep)
    def ok(keep):
        fn = f"{tmp}/only-{'-'.join(keep)[:80]}.cpp"; open(fn, "w").write(source(keep))
        r = run([CLANG, *IR_FLAGS, *defs, "-I", f"{V}/harness", "-I", f"{REPO}/inc", "-isystem", f"{V}/harness/stub", "-fsyntax-only", fn]); os.unlink(fn); return r.returncode == 0
    with cf.ThreadPoolExecutor(8) as ex: good = [e for e, x in zip(entries, ex.map(lambda e: ok([e]), entries)) if x]
    def gcc(e): # is it the code and not a peculiarity of one compiler?
        fn = f"{tmp}/gcc-{e}.cpp"; open(fn, "w").write(source([e]))
        r = run(["g++", "-std=c++17", "-w", "-DSX_NATIVE=1", *defs, "-I", f"{V}/harness", "-I", f"{REPO}/inc", "-fsyntax-only", fn]); os.unlink(fn)
        return "" if r.returncode == 0 else (re.search("error: .*", r.stderr) or [r.stderr[-300:]])[0][:300]
    rejected = {}
    if good:
        for e in entries:
            if e not in good:
                m = gcc(e)
                if m: rejected[e] = m
    if not good: return None, good, rejected
    fn = f"{tmp}/{os.path.basename(src)}"; open(fn, "w").write(source(good)); return fn, good, rejected

def build_native(src, out, defs, compiler):
    inc = ["-I", f"{V}/harness", "-I", f"{REPO}/inc"]
    extra = " ".join(comments(open(src).read(), "NATIVEFLAGS")).split()
    r = run([*compiler, *extra, *defs, *inc, src, f"{V}/harness/rt.cpp", "-o", out, *WRAP])
    return "" if r.returncode == 0 else "native build: " + r.stderr[-3000:]

def build_tsan(src, out, defs): # the runtime itself is not instrumented
    inc = ["-I", f"{V}/harness", "-I", f"{REPO}/inc"]
    for c in ([c for c in TSAN if c != "-fsanitize=thread"] + ["-c", f"{V}/harness/rt.cpp", "-o", out + ".rt.o"], [*TSAN, *defs, *inc, src, out + ".rt.o", "-o", out, *WRAP]):
        r = run(c)
        if r.returncode: return "native build: " + r.stderr[-3000:]
    return ""

def line(entry, inputs, notes=()):
    f = lambda l: "".join(f"{n}={v};" for n, v in l)
    return f"{entry}\t{f(inputs)}\t{f(notes)}\n"

def replay(prog, lines, tmp, secs=20, jobs=8):
    """run trace lines natively, in parallel; list of '' or failure reason"""
    if not lines: return []
    chunks = [lines[i::jobs] for i in range(jobs)]
    def one(i):
        if not chunks[i]: return []
        fn = f"{tmp}/replay.{os.path.basename(prog)}.{i}"
        open(fn, "w").write("".join(chunks[i]))
        r = subprocess.run([prog, fn, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, errors="replace")
        res = [re.sub(r"^\d+ (ok|FAIL )", "", l) if not re.match(r"^\d+ ok", l) else "" for l in r.stdout.splitlines() if re.match(r"^\d+ (ok|FAIL)", l)]
        if len(res) != len(chunks[i]): res += [f"DESYNC: replay program ended early ({r.returncode}) {r.stderr[-300:]}"] * (len(chunks[i]) - len(res))
        san = [l for l in r.stderr.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: MemorySanitizer" in l or "WARNING: ThreadSanitizer" in l]
        k = 0
        for j, x in enumerate(res):
            if x.startswith("SANITIZER") and k < len(san): res[j] = x + ": " + re.sub(r"^==\d+==", "", san[k])[:300]; k += 1
        return res
    with cf.ThreadPoolExecutor(jobs) as ex: parts = list(ex.map(one, range(jobs)))
    out = [""] * len(lines)
    for i in range(jobs):
        for j, x in enumerate(parts[i]): out[i + j * jobs] = x
    return out

def known(prop):
    res = []
    fn = f"{V}/known-findings.txt"
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) harness=(\S+) message=(.*)$", l.strip())
            if m and m.group(1) == prop: res.append((m.group(2), m.group(3)))
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--keep", action="store_true"); ap.add_argument("--entry", action="append"); ap.add_argument("--jobs", default=str(os.cpu_count() or 8)); ap.add_argument("-v", action="store_true"); ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args()
    t0 = time.time(); prop = a.prop; tier = "thorough" if a.tier == "thorough" else "quick"; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    src = f"{V}/harness/{prop}.cpp"; text = open(src).read()
    entries = a.entry or re.findall(r"^SX_HARNESS\((\w+)\)", text, re.M)
    defs = [f"-DSX_THOROUGH={1 if tier == 'thorough' else 0}"]
    ir_defs = comments(text, "IRFLAGS"); ir_defs = ir_defs[0].replace("$V", V).split() if ir_defs else []
    r = run(["bash", f"{V}/engine/build.sh"])
    if r.returncode: print("engine build failed\n" + r.stderr[-3000:]); return 2
    tmp = tempfile.mkdtemp(prefix=f"sx-{prop}-", dir="/tmp")
    try:
        r = check(a, prop, tier, seed, src, text, entries, defs, ir_defs, tmp, t0, "600" if tier != "quick" else "300")
        if r == "reduce": # the code got more expensive to explore: decide it for the smaller bounds instead
            shutil.rmtree(tmp); os.makedirs(tmp)
            r = check(a, prop, tier, seed, src, text, entries, defs + ["-DSX_REDUCED=1"], ir_defs, tmp, t0, "400")
        return r
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)

def check(a, prop, tier, seed, src, text, entries, defs, ir_defs, tmp, t0, limit):
    reduced = "-DSX_REDUCED=1" in defs
    pool = cf.ThreadPoolExecutor(4)
    native = f"{tmp}/native"
    fnat = None if a.no_native else pool.submit(build_native, src, native, defs, ASAN)
    e = build_ir(src, f"{tmp}/h.bc", defs + ir_defs)
    dropped, rejected = [], {}
    if e:
        part, good, rejected = compilable(src, text, entries, defs + ir_defs, tmp)
        if not part or len(good) == len(entries): print(e); return 2
        dropped = [f"{x}: does not compile against the current headers: {(re.search('error: .*', e) or [''])[0][:300]}" for x in entries if x not in good and x not in rejected]
        src, entries = part, good
        if fnat: fnat.result(); fnat = pool.submit(build_native, src, native, defs, ASAN)
        e = build_ir(src, f"{tmp}/h.bc", defs + ir_defs)
        if e: print(e); return 2
    opts = " ".join(comments(text, "OPTIONS")).split()
    tl = limit if tier == "quick" else os.environ.get("SX_TIME", "6000")
    cmd = [f"{V}/build/sxe", f"{tmp}/h.bc", "--out", f"{tmp}/out.json", "--tmp", tmp, "--jobs", a.jobs, "--seed", str(seed), "--time", tl, "--samples", "32" if tier == "quick" else "64", *opts]
    if tier == "thorough": cmd += ["--max-steps", "200000000"]
    for x in entries: cmd += ["--entry", x]
    te = time.time(); r = run(cmd); te = time.time() - te
    if r.returncode or not os.path.exists(f"{tmp}/out.json"): print("engine failed:", r.returncode, r.stderr[-3000:]); return 2
    res = json.load(open(f"{tmp}/out.json"))
    if fnat:
        e = fnat.result()
        if e: print(e); return 2
    if tier == "quick" and not reduced and any("time limit" in h["problems"] for h in res) and not any(h["violations"] for h in res):
        print(f"{prop}: not finished within {tl} s, deciding it for the reduced bounds"); return "reduce"
    problems, viols, findings = list(dropped), [], []
    kn = known(prop)
    # counterexamples: replay on the real code
    msan = tsan = None
    rdir = f"{V}/evidence/replay"; os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"): os.unlink(f"{rdir}/{f}")
    cex = [(h["entry"], v) for h in res for v in h["violations"]]
    outcome = replay(native, [line(en, v["inputs"]) for en, v in cex], tmp) if fnat else ["(not replayed)"] * len(cex)
    bad = lambda o: o and not o.startswith("DESYNC") and not o.startswith("MISMATCH")
    groups = {} # several counterexamples of the same violation: one that the real code reproduces is enough
    for (en, v), o in zip(cex, outcome): groups.setdefault((en, v["kind"], v["msg"], v["where"]), []).append((v, o))
    for (en, kind, msg, where), g in groups.items():
        how = "asan"
        v, o = next(((v, o) for v, o in g if bad(o)), g[0])
        if not bad(o) and kind == "race":
            if tsan is None:
                tsan = f"{tmp}/tsan"; e = build_tsan(src, tsan, defs)
                if e: problems.append(e); tsan = ""
            if tsan:
                for (v2, _), o2 in zip(g[:12], replay(tsan, [line(en, v["inputs"]) for v, _ in g[:12]], tmp)):
                    if bad(o2): v, o, how = v2, o2, "tsan"; break
        elif not bad(o):
            if msan is None:
                msan = f"{tmp}/msan"; e = build_native(src, msan, defs, MSAN)
                if e: problems.append(e); msan = ""
            if msan:
                for (v2, _), o2 in zip(g[:12], replay(msan, [line(en, v["inputs"]) for v, _ in g[:12]], tmp)):
                    if bad(o2): v, o, how = v2, o2, "msan"; break
        rec = dict(entry=en, kind=v["kind"], message=v["msg"], where=v["where"], stack=v["stack"], native=o, inputs=v["inputs"])
        if not bad(o): problems.append(f"counterexample not reproduced on the real code ({len(g)} tried): {en}: {v['kind']}: {v['msg']} at {v['where']} [{o}] inputs {v['inputs'][:40]} stack {v['stack']}"); continue
        if any(en == k and v["msg"] == m for k, m in kn): print(f"KNOWN-FINDING: property={prop} {en}: {v['msg']}"); findings.append(rec); continue
        fn = f"{rdir}/{prop}-{len(viols)}.replay"
        with open(fn, "w") as f:
            f.write(f"# property {prop}\n# harness {os.path.basename(src)}\n# tier {tier}\n# build {how}\n# {v['kind']}: {v['msg']} at {v['where']} in {v['function']}\n# stack {v['stack']}\n# native result: {o}\n".replace("\t", " ") + line(en, v["inputs"]))
        viols.append((fn, rec))
    # sampled paths: the engine's prediction against the real code
    traces = []
    cap = 40 if tier == "quick" else 200
    for h in res:
        ts = h["traces"]; step = max(1, len(ts) // cap)
        traces += [(h["entry"], t) for t in ts[::step][:cap]]
    checked = 0
    if fnat and not viols:
        for (en, t), o in zip(traces, replay(native, [line(en, t["inputs"], t["notes"]) for en, t in traces], tmp)):
            if not o: checked += 1
            elif o.startswith("DESYNC") or o.startswith("MISMATCH"): problems.append(f"{en}: real code and engine differ: {o} inputs {t['inputs'][:40]}")
            else:
                if any(en == k for k, m in kn): continue
                fn = f"{rdir}/{prop}-{len(viols)}.replay"
                open(fn, "w").write(f"# property {prop}\n# harness {os.path.basename(src)}\n# tier {tier}\n# build asan\n# path the engine found correct fails natively: {o}\n" + line(en, t["inputs"], t["notes"]))
                viols.append((fn, dict(entry=en, kind="native", message=o, where="", stack="", native=o, inputs=t["inputs"])))
    # uses of the public interface the property covers that neither compiler accepts any more (they compile on the committed tree)
    for en, m in rejected.items():
        fn = f"{rdir}/{prop}-{len(viols)}.replay"
        open(fn, "w").write(f"# property {prop}\n# harness {prop}.cpp\n# tier {tier}\n# build compile\n# {en} no longer compiles: {m}\n{en}\t\t\n")
        viols.append((fn, dict(entry=en, kind="rejected", message="a use of the public interface no longer compiles", where="", stack="", native=m, inputs=[])))
    # vacuity
    reach = {l: n for h in res for l, n in h["reach"].items()}
    if not viols and not findings and not dropped and not rejected:
        for h in res:
            if not h["reach"].get("end"): problems.append(f"{h['entry']}: the end of the harness was never reached")
        if not a.entry:
            for l in set() if reduced else set(re.findall(r'sx_reach\("([^"]+)"\)', text)):
                if not reach.get(l): problems.append(f"label never reached: {l}")
    partial = []
    for h in res:
        if reduced and h["incomplete"] and set(h["problems"]) == {"time limit"} and h["reach"].get("end"): partial.append(h["entry"]); print(f"NOTE: {h['entry']}: not all of the bounds explored within {limit} s, the property held on {h['paths']} paths"); continue
        if h["incomplete"]: problems += [f"{h['entry']}: incomplete: {p}" for p in h["problems"] or ["?"]]
    S = lambda k: sum(h[k] for h in res)
    allfns = {f for h in res for f in h["functions"] if "ptl::" in f or "ptl_" in f}
    fns = sorted({brief(f) for f in allfns})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viols),
        assumptions=comments(text, "ASSUME") + comments(text, "STUB") + GENERAL,
        coverage=dict(states=S("states"), transitions=S("steps"), traces_validated_against_impl=checked,
            samples=[dict(harness=en, inputs=t["inputs"][:60], observed=t["notes"][:30]) for en, t in traces[:: max(1, len(traces) // 6)][:6]] + [dict(violation=r["kind"], message=r["message"], harness=r["entry"], inputs=r["inputs"][:200], native=r["native"]) for _, r in viols],
            exhaustive=not problems and not viols and not partial, partly_explored=partial, bounds=comments(text, "BOUND") + (["REDUCED (the full bounds did not finish in time): " + " ".join(comments(text, "REDUCED") or ["fewer sizes and modes, fewer symbolic bits"])] if reduced else []), outside_the_claim=comments(text, "OUTSIDE"),
            completed_paths=S("paths"), paths_cut_by_assumptions=S("assumed_away"), assertions_checked=S("asserts"), assertions_needing_the_solver=S("solver_asserts"),
            memory_accesses_checked=S("memory_checks"), longest_path_instructions=max(h["max_path_steps"] for h in res), most_symbolic_inputs=max(h["max_inputs"] for h in res),
            solver=dict(name="Z3 4.8.12 (QF_BV)", queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), answered_from_cache=S("cache_hits"), answered_by_model_reuse=S("model_reuse"), seconds=round(S("solver_s"), 3), slowest_query_s=round(max(h["max_query_s"] for h in res), 4)),
            engine_wall_s=round(te, 2), harnesses={h["entry"]: dict(paths=h["paths"], states=h["states"], instructions=h["steps"], assertions=h["asserts"], solver_queries=h["queries"], reached=h["reach"]) for h in res},
            functions_encoded_count=len(allfns), functions_encoded=fns, problems=problems, known_findings=findings))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    if not a.entry: json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {S('paths')} paths, {S('steps')} instructions, {S('asserts')} assertions, {S('queries')} queries ({S('solver_s'):.1f} s), {len(allfns)} ptl functions, {checked}/{len(traces)} traces validated, engine {te:.1f} s, total {time.time()-t0:.1f} s")
    if a.v:
        for h in res: print(f"  {h['entry']}: paths {h['paths']} killed {h['assumed_away']} steps {h['steps']} asserts {h['asserts']} q {h['queries']} solver {h['solver_s']:.2f} maxsteps {h['max_path_steps']} {h['reach']}")
    for p in problems[:8]: print("PROBLEM:", p[:700])
    if len(problems) > 8: print(f"... {len(problems) - 8} more problems (see evidence)")
    for fn, rec in viols[:10]:
        print(f"  {rec['entry']}: {rec['kind']}: {rec['message']} at {rec['where']} [native: {rec['native']}]" + (f"\n    {rec['stack']}\n    {rec['inputs'][:80]}" if a.v else ""))
        print(f"VIOLATION property={prop} replay={fn}")
    if viols: return 1
    return 2 if problems else 0

GENERAL = ["the code under test is what clang 18 lowers from /repo/inc for x86-64 at -O1 without optimisation passes (only scalar replacement of aggregates)",
    "libstdc++ 13 templates are executed as they are; memcpy/memmove/memset/memcmp/memchr/strlen/strcmp, operator new/delete, malloc/calloc/free, the C++ exception runtime and std::exception classes are engine models of their documented contracts",
    "allocation requests above 1 MiB always fail; smaller ones fail only where a harness says so; unaligned accesses work (x86-64; the packed types rely on that); addresses are engine-chosen and never reused while a dangling pointer to them could be confused"]
if __name__ == "__main__": sys.exit(main())
