#!/usr/bin/env python3
"""Driver: compile harness + current /repo sources to bitcode, run the symbolic executor over every
harness entry, validate explored paths and replay counterexamples natively, write evidence."""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLBIN = "/usr/lib/llvm-18/bin"
CXX = "clang++-18"
NCPU = os.cpu_count() or 4

DEFS = ["-D_GNU_SOURCE", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS",
        "-DNDEBUG", "-DENABLE_SHARED_LIBS", "-DRAPIDJSON_HAS_STDSTRING", "-DTBB_PREVIEW_TASK_GROUP_EXTENSIONS=1",
        "-DARROW_NO_DEPRECATED_API"]
INCS = [f"-I{VERIF}/stubs", f"-I{VERIF}/lib", f"-I{VERIF}/harness", f"-I{REPO}/omniscidb",
        f"-I{REPO}/omniscidb/ThirdParty/rapidjson", f"-I{REPO}/omniscidb/ThirdParty", f"-I{REPO}/src"]
if os.path.isdir(f"{REPO}/_build"):
    INCS.append(f"-I{REPO}/_build")
INCS.append("-I/usr/lib/llvm-16/include")
BASE = ["-std=gnu++17", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-strict-aliasing"] + DEFS + INCS


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Inconclusive(Exception):
    pass


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["make", "-j4", "-C", os.path.join(VERIF, "engine"), f"B={BUILD}"])
    if r.returncode:
        raise Inconclusive("engine build failed\n" + r.stdout[-3000:])
    for src, out, cc, fl in (("rt.cpp", "rt.bc", CXX, ["-std=gnu++17"]), ("rt_c.c", "rtc.bc", "clang-18", ["-fno-builtin"])):
        s, o = os.path.join(VERIF, "lib", src), os.path.join(BUILD, out)
        if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s):
            r = sh([cc, "-O1", "-Xclang", "-disable-llvm-passes", "-g0", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
                    "-emit-llvm", "-c", s, "-o", o] + fl)
            if r.returncode:
                raise Inconclusive("run-time build failed\n" + r.stdout[-3000:])


def parse_harness(path):
    t = open(path).read()
    h = {"path": path, "name": os.path.splitext(os.path.basename(path))[0], "sources": [], "flags": [], "bounds": [],
         "assume": [], "opts": [], "entry_opts": {}, "covers": sorted(set(re.findall(r'sym_cover\("([^"]+)"\)', t))),
         "inline": False, "threads": False, "nsources": [], "skip_functions": []}
    for m in re.finditer(r"^// @(\w+)(?: (.*))?$", t, re.M):
        k, v = m.group(1), (m.group(2) or "").strip()
        if k == "sources":
            h["sources"] += v.split()
        elif k == "flags":
            h["flags"] += v.replace("$REPO", REPO).replace("$VERIF", VERIF).split()
        elif k == "bounds":
            h["bounds"].append(v)
        elif k == "assume":
            h["assume"].append(v)
        elif k == "opts":
            h["opts"] += v.split()
        elif k == "entry":
            p = v.split()
            h["entry_opts"].setdefault(p[0], []).extend(p[1:])
        elif k == "inline":
            h["inline"] = True
        elif k == "threads":
            h["threads"] = True
    return h


PASSES_FN = ("function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=4;switch-to-lookup;"
             "no-keep-loops;hoist-common-insts;sink-common-insts>,sroa,early-cse,instcombine<no-verify-fixpoint>,"
             "simplifycfg<bonus-inst-threshold=4;hoist-common-insts;sink-common-insts>)")


def build(h, tier, work):
    """bitcode and native binaries of one harness"""
    tdef = ["-DTHOROUGH=1"] if tier == "thorough" else []
    srcs = [h["path"]] + [os.path.join(REPO, s) if not s.startswith("@") else os.path.join(VERIF, s[1:]) for s in h["sources"]]
    n = h["name"]
    jobs = []

    def comp(src, out, mode):
        cmd = [CXX] + BASE + h["flags"] + tdef
        if mode == "bc":
            cmd += ["-O1", "-Xclang", "-disable-llvm-passes", "-g0", "-emit-llvm", "-c", src, "-o", out]
        elif mode == "nat":
            cmd += ["-O1", "-g0", "-DSYM_NATIVE=1", "-c", src, "-o", out]
        else:
            cmd += ["-O1", "-g1", "-DSYM_NATIVE=1", "-fsanitize=address", "-c", src, "-o", out]
        return src, mode, sh(cmd)

    modes = ["bc"] if h["threads"] else ["bc", "nat"]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for i, s in enumerate(srcs):
            for m in modes:
                jobs.append(ex.submit(comp, s, f"{work}/{n}.{i}.{'bc' if m == 'bc' else 'o'}", m))
        for j in jobs:
            src, mode, r = j.result()
            if r.returncode:
                raise Inconclusive(f"cannot compile {src} ({mode})\n" + r.stdout[:3000])
    bc = f"{work}/{n}.bc"
    linked = f"{work}/{n}.linked.bc"
    r = sh([f"{LLBIN}/llvm-link", "-o", linked] + [f"{work}/{n}.{i}.bc" for i in range(len(srcs))])
    if r.returncode:
        raise Inconclusive("llvm-link failed\n" + r.stdout[-3000:])
    nm = sh([f"{LLBIN}/llvm-nm", "--defined-only", f"{work}/{n}.0.bc"]).stdout
    entries = sorted(set(re.findall(r" T ([hk]_\w+)$", nm, re.M)))
    if tier == "thorough":
        entries += sorted(set(re.findall(r" T (t_\w+)$", nm, re.M)))
    if not entries:
        raise Inconclusive("harness has no entries")
    ins = linked
    if h["threads"]:
        # one instrumented module for both sides, so that scheduling points coincide
        pre, ins = f"{work}/{n}.pre.bc", f"{work}/{n}.yield.bc"
        r = sh([f"{LLBIN}/opt", "-passes=always-inline,function(sroa,early-cse)", linked, "-o", pre])
        if r.returncode == 0:
            r = sh([f"{BUILD}/symex", pre, "--instrument", ins])
        if r.returncode:
            raise Inconclusive("instrumentation failed\n" + r.stdout[-3000:])
    rtl = f"{work}/{n}.rtl.bc"
    r = sh([f"{LLBIN}/llvm-link", "-o", rtl, ins, "--override", f"{BUILD}/rt.bc", "--override", f"{BUILD}/rtc.bc"])
    if r.returncode:
        raise Inconclusive("llvm-link (run time) failed\n" + r.stdout[-3000:])
    passes = f"internalize,globaldce,{PASSES_FN},globaldce"
    if h["inline"]:
        passes = f"internalize,globaldce,{PASSES_FN},cgscc(inline),{PASSES_FN},globaldce"
    r = sh([f"{LLBIN}/opt", f"-passes={passes}", f"-internalize-public-api-list={','.join(entries)}",
            "-phi-node-folding-threshold=6", "-two-entry-phi-node-folding-threshold=12", rtl, "-o", bc])
    if r.returncode:
        raise Inconclusive("opt failed\n" + r.stdout[-3000:])
    nat = f"{work}/{n}.native"
    if h["threads"]:
        r = sh([CXX, "-O1", "-w", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", ins, f"{VERIF}/lib/native.cpp", "-o", nat, "-ldl", "-lpthread"] + link_libs(h))
    else:
        r = sh([CXX, "-std=gnu++17", "-O1", "-w", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all"] + [f"{work}/{n}.{i}.o" for i in range(len(srcs))] +
               [f"{VERIF}/lib/native.cpp", "-o", nat, "-ldl", "-lpthread"] + link_libs(h))
    if r.returncode:
        raise Inconclusive("native link failed\n" + r.stdout[-3000:])
    return {"bc": bc, "native": nat, "entries": entries, "srcs": srcs}


def link_libs(h):
    return [f for f in h["flags"] if f.startswith("-l")] + ["-ltbb", "-lboost_filesystem", "-lboost_system"]


def build_asan(h, tier, work):
    n = h["name"]
    out = f"{work}/{n}.asan"
    if os.path.exists(out):
        return out
    tdef = ["-DTHOROUGH=1"] if tier == "thorough" else []
    srcs = [h["path"]] + [os.path.join(REPO, s) if not s.startswith("@") else os.path.join(VERIF, s[1:]) for s in h["sources"]]
    if h["threads"]:
        bcs = []
        for i, src in enumerate(srcs):
            o = f"{work}/{n}.{i}.asan.bc"
            r = sh([CXX] + BASE + h["flags"] + tdef + ["-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fsanitize=address", "-emit-llvm", "-c", src, "-o", o])
            if r.returncode:
                return None
            bcs.append(o)
        lk = f"{work}/{n}.asan.linked.bc"
        for cmd in ([f"{LLBIN}/llvm-link", "-o", lk] + bcs,
                    [f"{LLBIN}/opt", "-passes=always-inline,function(sroa,early-cse)", lk, "-o", lk + ".pre.bc"],
                    [f"{BUILD}/symex", lk + ".pre.bc", "--instrument", lk + ".ins.bc"],
                    [CXX, "-O0", "-w", "-rdynamic", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all", lk + ".ins.bc", f"{VERIF}/lib/native.cpp",
                     "-o", out, "-ldl", "-lpthread"] + link_libs(h)):
            r = sh(cmd)
            if r.returncode:
                return None
        return out
    r = sh([CXX] + BASE + [f for f in h["flags"] if not f.startswith("-l")] + tdef +
           ["-O0", "-g1", "-DSYM_NATIVE=1", "-fsanitize=address", "-fno-sanitize-recover=all", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all"] +
           srcs + [f"{VERIF}/lib/native.cpp", "-o", out, "-ldl", "-lpthread"] + link_libs(h))
    return out if r.returncode == 0 else None


def lim():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


def run_engine(b, h, entry, tier, work, extra):
    out = f"{work}/{h['name']}.{entry}.json"
    cmd = [f"{BUILD}/symex", b["bc"], "--entry", entry, "--out", out, "--tmp", work] + h["opts"] + h["entry_opts"].get(entry, []) + extra
    t0 = time.time()
    try:
        r = sh(cmd, preexec_fn=lim, timeout=3300 if tier == "thorough" else 860)
        tail = r.stdout[-1500:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc, tail = -1, "timeout"
    try:
        j = json.load(open(out))
    except Exception as e:
        j = None
    return entry, j, rc, tail, time.time() - t0


def preempt(h, entry):
    o = h["opts"] + h["entry_opts"].get(entry, [])
    n = [o[i + 1] for i in range(len(o) - 1) if o[i] == "--preempt"]
    return {"SYM_PREEMPT": n[-1] if n else "2"}


def native(binary, entry, inputs, work, tag, timeout=20, env=None):
    f = f"{work}/in.{os.path.basename(binary)}.{entry}.{tag}"
    with open(f, "w") as o:
        for i in inputs:
            o.write(str(i[2]) + "\n")
    e = dict(os.environ, MALLOC_PERTURB_="50", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:malloc_fill_byte=205:max_malloc_fill_size=1048576")
    if env:
        e.update(env)
    try:
        r = subprocess.run([binary, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def confirm(b, h, entry, v, tier, work, tag):
    kind = v["kind"]
    env = preempt(h, entry)
    rc, out, err = native(b["native"], entry, v["inputs"], work, tag, env=env)
    if rc == 42:
        m = re.search(r"ASSERT-FAILED (.*)", out)
        return True, "native run fails: " + (m.group(1) if m else "assertion")
    if rc in (44, 45) or rc == "timeout" or (isinstance(rc, int) and rc < 0):
        return True, f"native run ends abnormally (rc={rc}) {out.strip()[-100:]}"
    if kind == "memory":
        a = build_asan(h, tier, work)
        if a:
            rc, out, err = native(a, entry, v["inputs"], work, tag, timeout=60, env=env)
            if rc not in (0, 43):
                m = re.search(r"ERROR: (AddressSanitizer: [^\n]*)", err)
                return True, "sanitized native run fails: " + (m.group(1) if m else f"rc={rc}")
    return False, f"native rc={rc}"


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix=f"vf.{pid}.")
    replay_dir = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(replay_dir, ignore_errors=True)
    try:
        return check_in(pid, tier, t0, seed, work, replay_dir)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    finally:
        if os.environ.get("VF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def known_findings():
    r = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("status") == "known":
                    r.append(d)
    return r


def check_in(pid, tier, t0, seed, work, replay_dir):
    ensure_engine()
    only = os.environ.get("VF_ENTRY")
    hs = [parse_harness(p) for p in sorted(glob.glob(os.path.join(VERIF, "harness", f"{pid.lower()}_*.cpp")))]
    if not hs:
        raise Inconclusive("no harness")
    with cf.ThreadPoolExecutor(4) as ex:
        bs = list(ex.map(lambda h: build(h, tier, work), hs))
    t_build = time.time() - t0
    jobs, results = [], []
    extra = ["--max-time", "3000", "--portfolio-s", "600"] if tier == "thorough" else []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for h, b in zip(hs, bs):
            for e in b["entries"]:
                if only and not re.search(only, e):
                    continue
                jobs.append((h, b, ex.submit(run_engine, b, h, e, tier, work, extra)))
        results = [(h, b) + j.result() for h, b, j in jobs]
    problems, viols, unconf = [], [], []
    tot = dict(paths=0, ended=0, steps=0, forks=0, merges=0, asserts=0, assert_queries=0, queries=0, solver_runs=0, sat=0, unsat=0,
               unknown=0, portfolio=0, solver_s=0.0, by_cache=0, by_model=0)
    funcs, entries, covers, samples = {}, [], set(), []
    validated = mism = 0
    vjobs = []
    kf = [k for k in known_findings() if k["property"] == pid]
    known_hit = set()
    exe = cf.ThreadPoolExecutor(NCPU)
    for h, b, e, j, rc, tail, w in results:
        if j is None:
            problems.append(f"{e}: engine failed rc={rc} {tail}")
            continue
        for k in tot:
            tot[k] += j.get(k, 0)
        covers |= set(j["covers"])
        for fn in j["functions"]:
            funcs[fn[0]] = funcs.get(fn[0], 0) + fn[1]
        entries.append({"entry": e, "paths": j["ended"], "steps": j["steps"], "assertions": j["asserts"], "queries": j["queries"],
                        "solver_runs": j["solver_runs"], "unsat": j["unsat"], "sat": j["sat"], "solver_s": round(j["solver_s"], 2), "wall_s": round(j["wall_s"], 2)})
        for why, n in j["incomplete"].items():
            problems.append(f"{e}: {why} (x{n})")
        if not j["ended"] and not j["violations"]:
            problems.append(f"{e}: no path reaches the end of the harness")
        if j["ended"] and not j["asserts"] and not j["violations"]:
            problems.append(f"{e}: no assertion reached")
        for i, s in enumerate(j["samples"]):
            vjobs.append((h, b, e, s, exe.submit(native, b["native"], e, s["inputs"], work, f"s{i}", 60, preempt(h, e))))
        for i, v in enumerate(j["violations"]):
            v["entry"] = e
            ok, how = confirm(b, h, e, v, tier, work, f"v{i}")
            if ok:
                viols.append((h, b, v, how))
            else:
                unconf.append((e, v, how))
    for h, b, e, s, f in vjobs:
        rc, out, err = f.result()
        obs = re.findall(r"^OBS (\d+)$", out, re.M)
        if rc == 42 or rc == 45 or (isinstance(rc, int) and rc < 0):
            # the real code breaks on an input of an explored path
            if not any(v[2]["entry"] == e for v in viols):
                viols.append((h, b, {"entry": e, "kind": "native", "msg": out.strip()[-200:] or f"rc={rc}", "where": "native run of an explored path",
                                     "inputs": s["inputs"]}, "native run of an explored path fails"))
            continue
        if rc == "timeout":
            problems.append(f"{e}: native run of an explored path does not finish")
            continue
        if rc != 0 or obs != [str(x) for x in s["obs"]]:
            mism += 1
            problems.append(f"{e}: native run disagrees with the encoding (rc={rc}, native {obs[:8]}, encoded {s['obs'][:8]}) inputs {s['inputs'][:8]}")
        else:
            validated += 1
            if len(samples) < 6:
                samples.append({"entry": e, "inputs": {f"{i}:{n}": v for i, (n, w, v) in enumerate(s["inputs"][:12])}, "observed": s["obs"][:8]})
    exe.shutdown()
    need = set()
    for h in hs:
        need |= set(h["covers"])
    missing = sorted(c for c in need if c not in covers)
    if missing and not only and not viols:
        problems.append("not reached: " + ", ".join(missing))
    for e, v, how in unconf:
        problems.append(f"{e}: counterexample not reproduced natively ({v['kind']}: {v['msg']}; {how}) at {v['where'][:300]} inputs {v['inputs'][:8]}")
    # report
    real = []
    for h, b, v, how in viols:
        k = next((k for k in kf if k["entry"] == v["entry"] and (k.get("msg") in (None, v["msg"]))), None)
        if k:
            known_hit.add((k["entry"], k["what"]))
            continue
        real.append((h, b, v, how))
    for ent, what in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {what}")
    if real:
        os.makedirs(replay_dir, exist_ok=True)
    for i, (h, b, v, how) in enumerate(real):
        p = os.path.join(replay_dir, f"{v['entry']}-{i}.json")
        json.dump({"property": pid, "entry": v["entry"], "harness": os.path.relpath(h["path"], VERIF), "kind": v["kind"], "message": v["msg"],
                   "where": v["where"], "inputs": v["inputs"], "native": how,
                   "replay_cmd": f"python3 vf.py replay evidence/replay/{pid}/{os.path.basename(p)}"}, open(p, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {v['entry']}: {v['kind']}: {v['msg']} [{how}] inputs " + ", ".join(f"{n}={x}" for n, w, x in v["inputs"][:16]))
    hw = f"{REPO}/"
    repo_funcs = sorted(funcs.items(), key=lambda kv: -kv[1])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples,
              "exhaustive": not problems and not unconf,
              "explanation": "states: symbolic paths explored; transitions: IR instructions executed symbolically; each path stands for every input satisfying its path condition",
              "paths_completed": tot["ended"], "path_forks": tot["forks"], "state_merges": tot["merges"], "assertions_evaluated": tot["asserts"],
              "assertions_needing_solver": tot["assert_queries"], "queries": tot["queries"], "solver_runs": tot["solver_runs"],
              "answered_unsat": tot["unsat"], "answered_sat": tot["sat"], "answered_by_cache": tot["by_cache"], "answered_by_model": tot["by_model"],
              "unknown": tot["unknown"], "portfolio_runs": tot["portfolio"], "solver_s": round(tot["solver_s"], 2), "build_s": round(t_build, 1),
              "functions_encoded": len(funcs), "functions": [f"{n} x{c}" for n, c in repo_funcs[:150]],
              "sources": sorted({os.path.relpath(s, REPO) for b in bs for s in b["srcs"] if s.startswith(hw)}),
              "bounds": [x for h in hs for x in h["bounds"]], "entries": entries, "reachability": sorted(c for c in covers if not c.startswith("assert:")),
              "problems": problems[:30]},
          "assumptions": [x for h in hs for x in h["assume"]] +
          ["log output is dropped; fatal log messages end the program", "freshly allocated memory holds the byte 0xCD",
           "standard library run time replaced by the bitcode run time in lib/rt.cpp; allocation never fails"],
          "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    if os.environ.get("VF_V"):
        for x in sorted(entries, key=lambda x: -x["wall_s"])[:25]:
            print(x)
    print(f"{pid} {tier}: {len(entries)} entries, {tot['ended']} paths, {tot['asserts']} assertions ({tot['assert_queries']} by solver), {tot['queries']} queries, "
          f"{tot['solver_runs']} solver runs, {tot['solver_s']:.1f}s solver, {validated} paths validated natively, {len(funcs)} functions, build {t_build:.1f}s, wall {time.time()-t0:.1f}s")
    if real:
        return 1
    if problems:
        for p in problems[:20]:
            print("PROBLEM " + p[:1500])
        print(f"INCONCLUSIVE property={pid}")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vf.replay.")
    try:
        ensure_engine()
        h = parse_harness(os.path.join(VERIF, r["harness"]))
        b = build(h, "quick", work)
        ok, how = confirm(b, h, r["entry"], r, "quick", work, "r")
        print(("REPRODUCED " if ok else "not reproduced ") + how)
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        try:
            ensure_engine()
        except Inconclusive as e:
            print(e)
            sys.exit(2)
        sys.exit(0)
    if sys.argv[1] == "bc":  # debugging aid: build harness bitcode into .build/dbg
        os.makedirs(f"{BUILD}/dbg", exist_ok=True)
        ensure_engine()
        for f in sys.argv[2:]:
            print(build(parse_harness(os.path.abspath(f)), os.environ.get("VERIF_TIER", "quick"), f"{BUILD}/dbg"))
        sys.exit(0)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3:
        tier = sys.argv[3]
    sys.exit(check(sys.argv[2], tier))
