#!/usr/bin/env python3
"""Check runner: run.py <property> [quick|thorough]; run.py --build-all; see DESIGN.md.

Builds the instrumented (symbolic) and native binaries of the property's harnesses from /repo's working tree, explores
every harness symbolically, replays solver counterexamples and sample paths on the native build, and writes
evidence/<property>.json. Exit status 0 (held) or 1 (a VIOLATION line was printed); anything else is an error."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(HERE, "build"))
NCPU = int(os.environ.get("SX_JOBS", str(os.cpu_count() or 8)))
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"

sys.path.insert(0, HERE)
import checks  # noqa: E402

BASE = ["slinky/base/arithmetic.cc"]
TP = ["slinky/base/thread_pool.cc", "slinky/base/thread_pool_impl.cc"]
RUNTIME = ["slinky/base/chrome_trace.cc", "slinky/base/thread_pool.cc"] + ["slinky/runtime/%s.cc" % s for s in
           ("buffer", "depends_on", "evaluate", "expr_stmt", "pipeline", "print")]
BUILDER = ["slinky/builder/%s.cc" % s for s in
           ("pipeline", "node_mutator", "optimizations", "simplify", "simplify_bounds", "simplify_exprs",
            "slide_and_fold_storage", "substitute")]
SETS = {"base": BASE, "tp": TP, "runtime": BASE + RUNTIME, "builder": BASE + RUNTIME + BUILDER}


def sources(chk):
    srcs = []
    for s in chk["libs"]:
        for f in SETS[s]:
            if f not in srcs:
                srcs.append(f)
    return srcs


def ninja_file(chks):
    """One ninja file covering the given checks."""
    cxx = "-std=c++17 -g1 -fno-exceptions -fno-rtti -fstrict-aliasing -w -I%s -I%s/engine -I%s/harness" % (REPO, HERE, HERE)
    L = []
    w = L.append
    w("llvmflags = " + subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).strip())
    w("rule pass\n  command = clang++ -shared -fPIC -O1 -w $llvmflags $in -o $out\n")
    w("rule rt\n  command = clang++ -O2 -g1 -w -std=c++17 -I%s/include -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n" % Z3)
    w("rule sym\n  command = clang++ -O2 %s -fno-vectorize -fno-slp-vectorize -fpass-plugin=%s/sxpass.so -MD -MF $out.d -emit-llvm -c $in -o $out.bc && "
      "llc-18 -O0 --relocation-model=pic --filetype=obj $out.bc -o $out && rm -f $out.bc\n  depfile = $out.d\n" % (cxx.replace("-g1", ""), BUILD))
    w("rule nat\n  command = g++ -O1 %s -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n" % cxx)
    w("rule asan\n  command = g++ -O1 %s -DSX_ASAN -fsanitize=address,undefined -fno-sanitize=vptr,signed-integer-overflow,shift,null,alignment,pointer-overflow -fno-sanitize-recover=undefined -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n" % cxx)
    w("rule symlink\n  command = clang++ -rdynamic $in -o $out -L%s/lib -lz3 -Wl,-rpath,%s/lib -lpthread\n" % (Z3, Z3))
    w("rule natlink\n  command = g++ $in -o $out -lpthread\n")
    w("rule asanlink\n  command = g++ -fsanitize=address,undefined $in -o $out -lpthread\n")
    w("build %s/sxpass.so: pass %s/engine/pass.cc" % (BUILD, HERE))
    for f in ("rt", "expr"):
        w("build %s/%s.o: rt %s/engine/%s.cc" % (BUILD, f, HERE, f))
    w("build %s/native.o: nat %s/engine/native.cc" % (BUILD, HERE))
    w("build %s/native_asan.o: asan %s/engine/native.cc" % (BUILD, HERE))
    w("build %s/sym/rt_instr.o: sym %s/engine/rt_instr.cc | %s/sxpass.so" % (BUILD, HERE, BUILD))
    done = set()
    for chk in chks:
        so, no, ao = [], [], []
        ins = [(os.path.join(REPO, s), s) for s in sources(chk)] + \
              [(os.path.join(HERE, "harness", h), "harness/" + h) for h in chk["files"]]
        for path, rel in ins:
            o = rel.replace("/", "_") + ".o"
            so.append("%s/sym/%s" % (BUILD, o))
            no.append("%s/nat/%s" % (BUILD, o))
            ao.append("%s/asan/%s" % (BUILD, o))
            if rel in done:
                continue
            done.add(rel)
            w("build %s/sym/%s: sym %s | %s/sxpass.so" % (BUILD, o, path, BUILD))
            w("build %s/nat/%s: nat %s" % (BUILD, o, path))
            w("build %s/asan/%s: asan %s" % (BUILD, o, path))
        p = chk["property"]
        w("build %s/%s.sym: symlink %s %s/rt.o %s/expr.o %s/sym/rt_instr.o" % (BUILD, p, " ".join(so), BUILD, BUILD, BUILD))
        w("build %s/%s.nat: natlink %s %s/native.o" % (BUILD, p, " ".join(no), BUILD))
        w("build %s/%s.asan: asanlink %s %s/native_asan.o" % (BUILD, p, " ".join(ao), BUILD))
    return "\n".join(L) + "\n"


def build(chks, targets):
    os.makedirs(BUILD, exist_ok=True)
    name = "build_%s.ninja" % (chks[0]["property"] if len(chks) == 1 else "all")
    nf = os.path.join(BUILD, name)
    txt = ninja_file(chks)
    if not os.path.exists(nf) or open(nf).read() != txt:
        with open(nf + ".tmp%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.replace(nf + ".tmp%d" % os.getpid(), nf)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-f", nf, "-j", str(NCPU)] + [os.path.join(BUILD, t) for t in targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("error: the build failed")
        sys.exit(2)


def natives(binary, cases, secs=30, env=None):
    """Runs cases [(harness, inputs)] natively. Returns [(violated, hash, message)]."""
    if not cases:
        return []
    out = [None] * len(cases)
    chunks = [list(range(i, len(cases), NCPU)) for i in range(NCPU)]

    def work(idx):
        if not idx:
            return
        with tempfile.NamedTemporaryFile("w", dir=BUILD, suffix=".batch", delete=False) as f:
            for i in idx:
                f.write(cases[i][0] + " " + ",".join(str(v) for v in cases[i][1]) + "\n")
        e = dict(os.environ, SX_NATIVE_SECS=str(secs), MALLOC_PERTURB_="165", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1")
        e.update(env or {})
        p = subprocess.run([binary, "--batch", f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           errors="replace", env=e)
        os.unlink(f.name)
        lines = [l for l in p.stdout.split("\n") if l.startswith(("held ", "VIOLATED "))]
        for i, l in zip(idx, lines):
            a = l.split(" ", 2)
            out[i] = (a[0] == "VIOLATED", a[1], a[2] if len(a) > 2 else "")
    ts = [threading.Thread(target=work, args=(c,)) for c in chunks]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    # A sanitizer report ends the process without our line: attribute by running missing ones alone.
    for i, o in enumerate(out):
        if o is None:
            out[i] = (None, "0", "no result")
    return out


def native_one(binary, harness, inputs, secs=60):
    e = dict(os.environ, SX_NATIVE_SECS=str(secs), MALLOC_PERTURB_="165", ASAN_OPTIONS="detect_leaks=0:exitcode=1:allocator_may_return_null=1")
    try:
        p = subprocess.run([binary, "--harness", harness, "--inputs", ",".join(str(v) for v in inputs)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, timeout=secs + 20)
    except subprocess.TimeoutExpired:
        return True, "did not finish"
    m = [l for l in p.stdout.split("\n") if "ERROR: AddressSanitizer" in l or "runtime error:" in l or l.startswith("VIOLATED")]
    return p.returncode != 0, (m[0] if m else "status %d" % p.returncode)


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.strip().split("\n")


def run_harnesses(chk, tier, hs, binary):
    r, w = os.pipe()
    os.write(w, b"t" * max(1, NCPU - 2))  # Each harness has one of its own.
    os.set_inheritable(r, True)
    os.set_inheritable(w, True)
    os.set_blocking(r, False)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="run")
    total = (chk.get("quick_s", 90) if tier == "quick" else chk.get("thorough_s", 3000))
    end = time.time() + total
    res = [None] * len(hs)
    todo = list(range(len(hs)))
    lock = threading.Lock()

    def work():
        # A few harnesses at a time: each uses all the job tokens it can get.
        while True:
            with lock:
                if not todo:
                    return
                i = todo.pop(0)
                rest = len(todo)
            h = hs[i]
            o = os.path.join(tmp, h["name"] + ".json")
            budget = h.get("budget", {}).get(tier) or (h["budget_s"] if "budget_s" in h else (150 if tier == "quick" else 1500))
            left = end - time.time()
            if tier == "quick":
                # A share of what is left: most harnesses need less than theirs.
                budget = min(budget, max(8, 2.0 * 3 * left / (rest + 1)))
            budget = max(8, min(budget, left))
            cmd = [binary, "--harness", h["name"], "--out", o, "--budget", str(budget), "--job-r", str(r), "--job-w", str(w),
                   "--path-secs", str(h.get("path_secs", 60))]
            env = dict(os.environ, SX_TIER=tier, SX_TMP=tmp)
            p = subprocess.Popen(cmd, close_fds=True, pass_fds=(r, w), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 text=True, errors="replace")
            out = p.communicate()
            res[i] = (h, None, "status %s: %s" % (p.returncode, out[1][-500:]))
            if os.path.exists(o):
                try:
                    res[i] = (h, json.load(open(o)), out[1])
                except ValueError:
                    pass
    try:
        ts = [threading.Thread(target=work) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res
    finally:
        os.close(r)
        os.close(w)
        shutil.rmtree(tmp, ignore_errors=True)


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def known_match(prop, harness, v, known):
    for k in known:
        if k["property"] == prop and k["harness"] == harness and k.get("status") != "fixed":
            if "inputs" in k and k["inputs"] != v["inputs"]:
                continue
            if "msg" in k and k["msg"] not in v["msg"]:
                continue
            return k
    return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--build-all" in sys.argv:
        cs = list(checks.CHECKS.values())
        build(cs, [c["property"] + s for c in cs for s in (".sym", ".nat")])
        return 0
    if "--build-engine" in sys.argv:
        build(list(checks.CHECKS.values()), ["sxpass.so", "rt.o", "expr.o"])
        return 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = checks.CHECKS[prop]
    t0 = time.time()
    os.environ["SX_TIER"] = tier
    build([chk], [prop + ".sym", prop + ".nat"])
    t_build = time.time() - t0
    sym, nat = os.path.join(BUILD, prop + ".sym"), os.path.join(BUILD, prop + ".nat")
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    hs = [h for h in chk["harnesses"] if (not only or re.search(only[0], h["name"])) and (tier == "thorough" or not h.get("thorough_only"))]
    listed = set(subprocess.check_output([sym, "--list"], text=True).split())
    for h in hs:
        if h["name"] not in listed:
            print("error: no harness", h["name"])
            return 2
    res = run_harnesses(chk, tier, hs, sym)
    t_sym = time.time() - t0 - t_build

    known = load_known()
    errors, harness_ev, viol_out = [], [], []
    tot = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, fallback=0, decided_over_integers=0, decisions=0, asserts_by_solver=0,
               asserts_by_rewriting=0, asserts_concrete=0, implied=0, concretizations=0)
    solver_s = 0.0
    funcs = set()
    samples, smts = [], []
    validated = 0
    cases, idx = [], []
    for h, j, err in res:
        if j is None:
            errors.append("%s: %s" % (h["name"], err))
            continue
        for s in j["samples"]:
            cases.append((h["name"], s["inputs"]))
            idx.append((h, s))
    nres = natives(nat, cases)
    mism = {}
    for (h, s), n in zip(idx, nres):
        if n[0] is None or n[0] or n[1] != s["hash"]:
            mism.setdefault(h["name"], []).append((s["inputs"], n))
        else:
            validated += 1
    confirmed, unconfirmed, knowns = [], [], set()
    asan_built = False
    for h, j, err in res:
        if j is None:
            continue
        for k in tot:
            tot[k] += j[k]
        solver_s += j["solver_s"]
        funcs.update(j["functions"])
        missing = [c for c, ok in j["covers"].items() if not ok]
        if j["violations"]:
            missing = []
        if missing:
            # A vacuous harness is an error, unless the budget simply ran out before getting there.
            if j["complete"]:
                errors.append("%s: never reached: %s" % (h["name"], " ".join(missing)))
            else:
                print("note: %s: not reached within the budget: %s" % (h["name"], " ".join(missing)))
        for e in j["errors"]:
            errors.append("%s: %s" % (h["name"], e))
        if h["name"] in mism and not j["violations"]:
            # The native run of a path that holds symbolically differs.
            for inputs, n in mism[h["name"]][:3]:
                if n[0]:
                    j["violations"].append({"kind": "native", "msg": "native replay of a sample path: " + n[2], "inputs": inputs})
                else:
                    errors.append("%s: translator validation mismatch on %s: %s" % (h["name"], inputs, n))
        vc = [(h["name"], v["inputs"]) for v in j["violations"]]
        vr = natives(nat, vc, secs=20)
        for v, n in zip(j["violations"], vr):
            k = known_match(prop, h["name"], v, known)
            if k:
                knowns.add(k["what"])
                continue
            ok, msg = n[0], n[2]
            if not ok:
                if not asan_built:
                    build([chk], [prop + ".asan"])
                    asan_built = True
                if v["kind"] in ("memory", "signal", "abort"):
                    ok, msg = native_one(os.path.join(BUILD, prop + ".asan"), h["name"], v["inputs"])
            (confirmed if ok else unconfirmed).append((h["name"], v, msg))
        harness_ev.append({"harness": h["name"], "bounds": h.get("bounds", ""), "complete": j["complete"], "why_incomplete": j["why"],
                           "paths": j["paths"], "pending": j["pending"], "queries": j["queries"], "sat": j["sat"], "unsat": j["unsat"],
                           "unknown": j["unknown"], "solver_s": j["solver_s"], "wall_s": j["wall_s"],
                           "assertions_discharged_by_solver": j["asserts_by_solver"],
                           "assertions_discharged_by_rewriting": j["asserts_by_rewriting"],
                           "assertions_constant_on_the_path": j["asserts_concrete"],
                           "max_decisions_on_a_path": j["max_decisions"], "reached": j["covers"]})
        for s in j["samples"][:2]:
            samples.append({"harness": h["name"], "inputs": s["inputs"]})
        for m, q in j["smt"][:1]:
            if len(smts) < 4:
                smts.append({"harness": h["name"], "assertion": m, "smt2": q[:3000]})
    outdir = os.path.join(HERE, "evidence")
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, "replay")
    os.makedirs(rep, exist_ok=True)
    shown = [c for i, c in enumerate(confirmed) if sum(1 for d in confirmed[:i] if d[0] == c[0]) < 3]
    for i, (hn, v, msg) in enumerate(shown[:30]):
        p = os.path.join(rep, "%s-%s-%d.json" % (prop, hn, i))
        json.dump({"property": prop, "harness": hn, "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"], "native": msg,
                   "replay": "%s --harness %s --inputs %s" % (nat, hn, ",".join(map(str, v["inputs"])))}, open(p, "w"), indent=1)
        print("%s: %s: %s\n  inputs %s\n  native replay: %s" % (hn, v["kind"], v["msg"], v["inputs"], msg))
        viol_out.append(p)
    for hn, v, msg in unconfirmed[:8]:
        print("unconfirmed (not reported): %s %s %s inputs %s: native %s" % (hn, v["kind"], v["msg"], v["inputs"], msg))
    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    complete = all(x["complete"] for x in harness_ev) and not errors
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
        "assumptions": chk.get("assumptions", []) + [
            "bounds are those stated per harness under coverage.harnesses; nothing is claimed outside of them",
            "the instrumented build is clang 18 -O2 of the same sources; sample paths and counterexamples are replayed on a g++ build"],
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": validated,
            "samples": samples[:60], "exhaustive": complete,
            "explanation": "states: feasible execution paths of the instrumented code explored (each covers all inputs that follow it); "
                           "transitions: symbolic decisions first taken on those paths; exhaustive: every harness ran out of unexplored "
                           "feasible decisions within its bounds.",
            "functions_encoded": sorted(set(demangle(sorted(funcs))))[:400], "functions_encoded_count": len(funcs),
            "queries": {k: tot[k] for k in ("queries", "sat", "unsat", "unknown", "fallback", "decided_over_integers")},
            "solver_s": round(solver_s, 2),
            "assertions": {"by_solver": tot["asserts_by_solver"], "by_rewriting": tot["asserts_by_rewriting"],
                           "constant_on_path": tot["asserts_concrete"]},
            "concretizations": tot["concretizations"], "harnesses": harness_ev, "smt_samples": smts,
            "unconfirmed_counterexamples": [{"harness": a, "violation": b, "native": c} for a, b, c in unconfirmed[:20]],
            "engine_errors": errors[:20],
            "build_s": round(t_build, 1), "symbolic_s": round(t_sym, 1),
        },
    }
    with open(os.path.join(outdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d queries (%d unsat, %d sat, %d unknown), %d assertions by solver, %.1f s solver, "
          "%d traces validated, build %.0f s, symbolic %.0f s, complete=%s" % (
              prop, tier, len(hs), tot["paths"], tot["queries"], tot["unsat"], tot["sat"], tot["unknown"], tot["asserts_by_solver"],
              solver_s, validated, t_build, t_sym, complete))
    for e in harness_ev:
        if not e["complete"] or "-v" in sys.argv:
            print("  %s: complete=%s (%s) paths %d pending %d queries %d unknown %d wall %.1f solver %.1f" % (
                e["harness"], e["complete"], e["why_incomplete"], e["paths"], e["pending"], e["queries"], e["unknown"], e["wall_s"], e["solver_s"]))
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, viol_out[0]))
        return 1
    for e in errors[:10]:
        print("error:", e)
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
