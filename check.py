#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Compiles the harness of one property against /repo's current sources to LLVM bitcode, once per vector target and
compiler flavour, executes every goal symbolically (engine/vpse), lets the SMT solver decide every check, replays
counterexamples on the natively compiled code and writes evidence/<PROPERTY>.json.
Exit status: 0 held on everything explored; 1 with a VIOLATION line otherwise."""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
ENGINE = os.path.join(HERE, "build", "vpse")
TARGETS = {
    "sse2": ["-DHWY_COMPILE_ONLY_STATIC"], "ssse3": ["-mssse3", "-DHWY_COMPILE_ONLY_STATIC"],
    "sse4": ["-msse4.2", "-maes", "-mpclmul", "-DHWY_COMPILE_ONLY_STATIC"],
    "avx2": ["-march=haswell", "-maes", "-DHWY_COMPILE_ONLY_STATIC"],
    "avx3": ["-march=skylake-avx512", "-maes", "-DHWY_COMPILE_ONLY_STATIC"],
    "dl": ["-march=icelake-server", "-DHWY_COMPILE_ONLY_STATIC"], "zen4": ["-march=znver4", "-DHWY_COMPILE_ONLY_STATIC"],
    "spr": ["-march=sapphirerapids", "-DHWY_COMPILE_ONLY_STATIC"],
    "scalar": ["-DHWY_COMPILE_ONLY_SCALAR"], "emu": ["-DHWY_COMPILE_ONLY_EMU128"],
}
BUILT = ["sse2", "ssse3", "sse4", "avx2", "avx3", "scalar"]  # the targets /opt/vp/build.sh compiles
COMMON = ["-std=c++17", "-O1", "-DNDEBUG", "-w", "-I" + REPO, "-I" + HERE]
BC = ["-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
      # branches without side effects become selects, so that they cost no paths
      "-mllvm", "-two-entry-phi-node-folding-threshold=2000", "-mllvm", "-phi-node-folding-threshold=2000", "-mllvm", "-max-speculation-depth=200"]


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


def ensure_engine():
    if not os.path.exists(ENGINE):
        rc, o, e = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine"), "B=" + os.path.join(HERE, "build")])
        if rc:
            print("engine build failed\n" + e[-3000:]); return False
    return True


def tag(extra): return "-" + re.sub(r"[^A-Za-z0-9]", "", "".join(extra)) if extra else ""


def to_bc(work, src, target, flavor, extra):
    """source -> bitcode; flavor gcc: preprocess as g++ 13 would, then compile the result with clang."""
    name = os.path.splitext(os.path.basename(src))[0]
    out = os.path.join(work, f"{name}{tag(extra)}.{target}.{flavor}.bc")
    flags = COMMON + BC + TARGETS[target] + extra
    if flavor == "gcc":
        ii = out + ".ii"
        rc, o, e = sh([CLANG, *flags, "-include", os.path.join(HERE, "lib/gccmode.h"), "-E", src, "-o", ii], 300)
        if rc == 0:
            t = open(ii, errors="replace").read()
            open(ii, "w").write(re.sub(r'"%v([a-z])', r'"v\1', t))
            rc, o, e = sh([CLANG, *flags, "-c", "-emit-llvm", "-x", "c++-cpp-output", ii, "-o", out], 600)
            os.unlink(ii)
    else:
        rc, o, e = sh([CLANG, *flags, "-c", "-emit-llvm", src, "-o", out], 600)
    return (out if rc == 0 else None), (e if rc else "")


def native(work, src, target, compiler, extra, asan=False, opt="-O1"):
    name = os.path.splitext(os.path.basename(src))[0]
    exe = os.path.join(work, f"{name}{tag(extra)}.{target}.{os.path.basename(compiler)}{'.asan' if asan else ''}{opt}")
    if os.path.exists(exe): return exe, ""
    fl = [f if f != "-O1" else opt for f in COMMON] + TARGETS[target] + [f for f in extra if f not in ("-fno-pic", "-fno-pie")] + ["-ffp-contract=off"]
    if asan: fl += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    rc, o, e = sh([compiler, *fl, src, os.path.join(HERE, "lib/native.cc"), "-rdynamic", "-ldl", "-lpthread", "-o", exe], 600)
    return (exe if rc == 0 else None), e


def run_native(exe, goal, path, env=None):
    return sh([exe, goal, path], 90, env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0:exitcode=1:allow_user_segv_handler=1:handle_segv=0", **(env or {})})


def replay(work, src, target, flavor, extra, goal, path, kind):
    """Runs the recorded inputs on the natively compiled code. Returns a description when the violation shows."""
    tries = []
    order = ["g++", CLANG] if flavor == "gcc" else [CLANG, "g++"]
    for asan in ([False, True] if kind != "check" else [False]):
        for comp in order:
            if target == "emu" and comp == "g++": continue
            exe, err = native(work, src, target, comp, extra, asan)
            if not exe: tries.append(f"{comp}: does not compile"); continue
            for env in ({}, {"VP_FRONT": "1"}, {"VP_FILL": "00"}, {"VP_FILL": "FF"}):
                rc, o, e = run_native(exe, goal, path, env)
                if rc == 1:
                    msg = [l for l in (o + "\n" + e).splitlines() if l.startswith(("FAIL", "got ")) or "ERROR: AddressSanitizer" in l]
                    return f"{os.path.basename(comp)}{' asan' if asan else ''}{' ' + str(env) if env else ''}: " + "; ".join(msg[-2:]), tries
                tries.append(f"{os.path.basename(comp)} {env}: rc {rc} {o.strip()[-80:]}")
                if rc == 78: break
    return None, tries


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--targets"); ap.add_argument("--goal"); ap.add_argument("-v", action="store_true"); ap.add_argument("--no-validate", action="store_true")
    a = ap.parse_args()
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1); prop = a.prop; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    import config
    cfg = config.PROPS[prop]; tc = dict(cfg, **cfg.get(tier, {}))
    work = tempfile.mkdtemp(prefix=f"vp.{prop}.")
    evdir = os.path.join(HERE, "evidence"); rpdir = os.path.join(evdir, "replays", prop); os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir): os.unlink(os.path.join(rpdir, f))
    try:
        rc = body(a, prop, tier, cfg, tc, work, evdir, rpdir, seed, t0)
    except Exception as ex:  # a fault of the machinery is not a verdict
        import traceback; traceback.print_exc()
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], explanation="machinery error: " + repr(ex)), assumptions=[], wall_s=time.time() - t0, violations=[])
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1); rc = 0
    if not a.keep: shutil.rmtree(work, ignore_errors=True)
    else: print("kept", work)
    sys.exit(rc)


def body(a, prop, tier, cfg, tc, work, evdir, rpdir, seed, t0):
    if not ensure_engine(): raise RuntimeError("no engine")
    units = []  # (src, target, flavor, extra)
    for u in tc["units"]:
        for fl in u.get("flavors", ["gcc"]):
            for t in u["targets"]:
                if a.targets and t not in a.targets.split(","): continue
                if fl == "gcc" and t == "emu": continue
                units.append((os.path.join(HERE, "harness", u["src"]), t, fl, u.get("flags", [])))
    bcs, errors, meta = [], [], {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(to_bc, work, *u): u for u in units}
        vt = None
        if not a.no_validate and tc.get("validate", True) and units:
            cand = [u for u in units if u[1] != "emu"] or units
            vt = random.Random(seed).choice(cand)
            vf = ex.submit(native, work, vt[0], vt[1], "g++" if vt[2] == "gcc" else CLANG, vt[3])
        for f in cf.as_completed(futs):
            out, err = f.result(); u = futs[f]
            if out: bcs.append(out); meta[os.path.basename(out)[:-3]] = u
            else: errors.append(f"{os.path.basename(u[0])} {u[1]} {u[2]}: " + err[:1500])
        vexe = vf.result()[0] if vt else None
    # order: the most capable targets first, so that duplicates of weaker ones collapse onto them
    rank = ["avx3", "avx2", "sse4", "ssse3", "sse2", "scalar", "spr", "zen4", "dl", "emu"]
    bcs.sort(key=lambda p: (meta[os.path.basename(p)[:-3]][2] != "gcc", rank.index(meta[os.path.basename(p)[:-3]][1]), p))
    t_compile = time.time() - t0
    if errors:
        for e in errors: print("COMPILE-ERROR " + e.splitlines()[0]); 
        if a.v: print("\n".join(errors))
    res = {"goals": [], "wall_s": 0}
    if bcs:
        out = os.path.join(work, "res.json"); budget = tc.get("budget_s", 420 if tier == "quick" else 7200)
        cmd = [ENGINE, "--out", out, "--goal-s", str(tc.get("goal_s", 60)), "--deadline-s", str(budget), "--query-ms", str(tc.get("query_ms", 10000)), "--max-fail", "40",
               "--mem-mb", str(tc.get("mem_mb", 5000)), "-j", "8", *tc.get("engine", []), *(["--goal", a.goal] if a.goal else []), *(["-v"] if a.v else []), *bcs]
        rc, o, e = sh(cmd, budget + 120)
        if os.path.exists(out): res = json.load(open(out))
        else: raise RuntimeError("engine: rc %s %s" % (rc, e[-500:]))
    t_engine = time.time() - t0 - t_compile
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop and k.get("status") != "fixed"] if os.path.exists(os.path.join(HERE, "known_findings.json")) else []
    # ---- failures: replay on the real code
    violations, unconfirmed, undecided, knownhit = [], [], [], {}
    fails = []
    for g in res["goals"]:
        st = g["r"]["status"]
        if st == "fail" and not g["dup"]: fails.append(g)
        elif st not in ("ok", "fail") and not g["dup"]: undecided.append(dict(goal=g["goal"], module=g["module"], status=st, why="; ".join(f["label"] for f in g["r"]["failures"][:2])))
    rng = [f for f in fails]
    seen_goals = {}
    def do_replay(g):
        f = next(x for x in g["r"]["failures"] if x["decided"]); src, target, flavor, extra = meta[g["module"]]
        path = os.path.join(rpdir, f"{g['module']}.{g['goal']}.replay")
        with open(path, "w") as fh:
            fh.write(f"# property {prop} goal {g['goal']} module {g['module']}\n# {f['kind']}: {f['label']} in {f['where']}\n# rerun: {HERE}/replay.py {path}\n")
            for n, v in f["inputs"]: fh.write(f"{v} {n}\n")
        got, tries = replay(work, src, target, flavor, extra, g["goal"], path, f["kind"])
        return g, f, path, got, tries
    def is_known(g, f):
        for k in known:
            if re.fullmatch(k["goal"], g["goal"]) and re.search(k.get("label", ""), f["label"]) and re.search(k.get("module", ""), g["module"]): return k
        return None
    todo = []
    for g in fails:
        f = next(x for x in g["r"]["failures"] if x["decided"]); k = is_known(g, f)
        if k: knownhit.setdefault(k["id"], []).append(f"{g['module']}:{g['goal']}"); continue
        todo.append(g)
    # spread over distinct goals first
    todo.sort(key=lambda g: (seen_goals.setdefault(g["goal"], len(seen_goals)) * 0, meta[g["module"]][2] != "gcc"))
    replay_budget = time.time() + tc.get("replay_s", 240)
    i = 0
    while i < len(todo) and len(violations) < 3 and time.time() < replay_budget:
        batch = todo[i:i + 4]; i += 4
        # the same executable may serve several goals: build sequentially per (target), run in parallel over targets
        with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda gs: [do_replay(g) for g in gs], group(batch, meta)))
        for g, f, path, got, tries in sum(rs, []):
            d = dict(goal=g["goal"], module=g["module"], label=f["label"], kind=f["kind"], where=f["where"], replay=path)
            if got: violations.append(dict(d, shown=got))
            else: unconfirmed.append(dict(d, tries=tries[:6]))
    for v in violations: print(f"{v['module']} {v['goal']}: {v['kind']} {v['label']} -- {v['shown']}")
    for u in unconfirmed: print(f"UNCONFIRMED {u['module']} {u['goal']}: {u['kind']} {u['label']} ({'; '.join(u['tries'][:2])})")
    for k in known:
        if k["id"] in knownhit: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in undecided: print(f"UNDECIDED {u['module']} {u['goal']}: {u['status']} {u['why'][:160]}")
    # ---- engine against the real binary: the same random inputs through both
    validated, vmism = 0, []
    if vexe and not violations:
        validated, vmism = validate(work, vt, vexe, res, meta, seed, tc.get("validate_goals", 24 if tier == "quick" else 400))
        for m in vmism[:5]: print("ENGINE-MISMATCH " + m)
    G = [g for g in res["goals"]]; uniq = [g for g in G if not g["dup"]]
    fns = set(); paths = steps = checks = queries = cached = 0; ssec = 0.0
    for g in uniq:
        r = g["r"]; fns.update(r.get("functions", [])); paths += r.get("paths", 0); steps += r.get("steps", 0); checks += r.get("checks", 0); queries += r.get("queries", 0); cached += r.get("cached", 0); ssec += r.get("solver_s", 0)
    names = demangle(sorted(fns))
    repo_fns = [n for n in names if not n.startswith(("std::", "__gnu"))]
    ok_goals = sum(g["r"]["status"] == "ok" for g in G)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=max(paths, 0), transitions=steps, traces_validated_against_impl=validated,
                            samples=[f"{g['module']}:{g['goal']} {g['r']['status']} paths={g['r'].get('paths')} checks={g['r'].get('checks')} solver_s={g['r'].get('solver_s')}" for g in uniq[:: max(1, len(uniq) // 12)]][:14],
                            explanation="symbolic execution of the LLVM IR compiled from /repo on this run; every check decided by rewriting plus SMT (z3) over all input values within the bounds",
                            goals=len(G), goals_distinct=len(uniq), goals_held=ok_goals, checks_decided=checks, reachable_goals=sum(1 for g in uniq if g["r"].get("reached")), smt_queries=queries, smt_cached=cached, solver_s=round(ssec, 2),
                            modules=sorted(meta), bounds=cfg.get("bounds", ""), outside=cfg.get("outside", ""), functions_encoded=len(fns), functions=repo_fns[:400],
                            undecided=undecided, unconfirmed=unconfirmed, compile_errors=errors, engine_mismatches=vmism[:20], known_findings=sorted(knownhit),
                            compile_s=round(t_compile, 1), engine_s=round(t_engine, 1)),
              assumptions=cfg.get("assumptions", []) + ["clang 18 front end and -O1 pipeline translate the sources faithfully", "x86 intrinsic models in engine/intrin.cc (compared with the CPU on recorded runs)", "z3 is sound"],
              wall_s=round(time.time() - t0, 2), violations=[dict(replay=v["replay"], what=f"{v['module']} {v['goal']} {v['label']}: {v['shown']}") for v in violations])
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(G)} goals ({len(uniq)} distinct), {ok_goals} held, {len(undecided)} undecided, {checks} checks, {queries} solver queries ({ssec:.1f} s), {paths} paths, {validated} traces compared; compile {t_compile:.0f} s, engine {t_engine:.0f} s, total {time.time() - t0:.0f} s")
    if violations:
        for v in violations[:1]: print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    return 0


def group(gs, meta):
    d = {}
    for g in gs: d.setdefault(meta[g["module"]][:3], []).append(g)
    return list(d.values())


def demangle(names):
    if not names: return []
    rc, o, e = sh(["c++filt"], 20, input="\n".join(names)) if shutil.which("c++filt") else (1, "", "")
    return [re.sub(r"<.*", "<>", l) if len(l) > 160 else l for l in o.splitlines()] if rc == 0 else names


def validate(work, vt, exe, res, meta, seed, limit):
    """Concrete runs: the engine's interpretation and the native binary must print the same values."""
    label = next((m for m, u in meta.items() if u == vt), None)
    goals = [g["goal"] for g in res["goals"] if g["module"] == label]
    random.Random(seed).shuffle(goals); goals = goals[:limit]; n, bad = 0, []
    def one(goal):
        out = os.path.join(work, f"c.{goal}.json")
        sh([ENGINE, "--concrete", "--trace", "--seed", str(seed), "--goal", goal, "--no-dedup", "-j", "1", "--goal-s", "20", "--out", out, os.path.join(work, label + ".bc")], 40)
        try: r = json.load(open(out))["goals"][0]["r"]
        except Exception: return None
        if r["status"] not in ("ok", "fail", "vacuous"): return None
        if not r.get("inputs"): return None
        path = os.path.join(work, f"c.{goal}.replay")
        open(path, "w").write("\n".join(v for _, v in r["inputs"]) + "\n")
        rc, o, e = run_native(exe, goal, path, {"VP_TRACE": "1", "VP_FILL": "00"})
        mine = [t for t in r["trace"]]; theirs = [l for l in o.splitlines() if l[:2] in ("V ", "C ")]
        if rc == 77 or "FAIL" in o: return None
        if [t for t in mine if t[0] == "V"] != [t for t in theirs if t[0] == "V"]:
            d = next(((x, y) for x, y in zip([t for t in mine if t[0] == "V"], [t for t in theirs if t[0] == "V"]) if x != y), ("length", f"{len(mine)} {len(theirs)}"))
            if "?" in d[0]: return None
            return f"{label} {goal}: engine '{d[0]}' native '{d[1]}'"
        return True
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, goals):
            if r is True: n += 1
            elif r: bad.append(r)
    return n, bad


if __name__ == "__main__": main()
