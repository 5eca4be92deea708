#!/usr/bin/env python3
"""Decides one property of the crate in /repo by symbolic execution.

usage: check.py PROPERTY [--tier quick|thorough] [--keep-going] [--only REGEX]

Rebuilds the symbolic executor (from symex/), the LLVM IR of the harness crate
together with the current /repo sources, and two native replay binaries; runs
the property's jobs in parallel; replays every counterexample and a sample of
the explored paths natively; writes evidence/PROPERTY.json.

exit 0: held on everything explored     exit 1: VIOLATION (confirmed natively)
exit 2: no verdict (build failure, unsupported construct, budget exhausted,
        counterexample or sampled path that the native build does not reproduce)
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import jobs as J

BUILD = os.path.join(ROOT, ".build")
TOOLCHAIN = "1.79.0"
T0 = time.time()
CORES = max(2, os.cpu_count() or 2)


def log(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)


class NoVerdict(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def cargo_env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=os.path.join(BUILD, target),
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0")
    return e


def build_engine():
    exe = os.path.join(BUILD, "symex")
    src = [os.path.join(ROOT, "symex", f) for f in ("engine.cpp", "expr.h", "solver.h", "build.sh")]
    stamp = exe + ".stamp"
    import hashlib
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        sh(["bash", os.path.join(ROOT, "symex", "build.sh"), exe + ".new"])
        os.replace(exe + ".new", exe)
        open(stamp, "w").write(h)
    return exe




def suffix(variant):
    return "" if variant == "full" else "-" + variant


def features(variant, *more):
    """Cargo arguments for a set of features of the crate ("full", "none" or names joined by +)."""
    if variant == "full":
        return ["--features", ",".join(more)] if more else []
    fs = [f for f in variant.split("+") if f != "none"] + list(more)
    return ["--no-default-features"] + (["--features", ",".join(fs)] if fs else [])


def build_ir(variant="full"):
    target = "ir" + suffix(variant)
    d = os.path.join(BUILD, target, "release", "deps")
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(("upon_symex-", "upon-", "libupon-")):
                os.unlink(os.path.join(d, f))
    fp = os.path.join(BUILD, target, "release", ".fingerprint")
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith("upon"):
                shutil.rmtree(os.path.join(fp, f))
    sh(["cargo", "rustc", "--release", "--offline"] + features(variant) + ["--", "--emit=llvm-bc",
        "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Clinker=/bin/true"],
       cwd=os.path.join(ROOT, "harness"), env=cargo_env(target))
    bcs = [f for f in os.listdir(d) if f.startswith("upon_symex-") and f.endswith(".bc")]
    if len(bcs) != 1:
        raise NoVerdict("expected one bitcode file, found %r" % bcs)
    out = os.path.join(BUILD, "harness%s.bc" % suffix(variant))
    shutil.copy(os.path.join(d, bcs[0]), out)
    return out


def build_native(profile, variant="full"):
    sub = "debug" if profile == "dev" else profile
    target = "native-" + profile + suffix(variant)
    fp = os.path.join(BUILD, target, sub, ".fingerprint")
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith("upon"):
                shutil.rmtree(os.path.join(fp, f))
    sh(["cargo", "build", "--offline", "--profile", profile] + features(variant, "native"),
       cwd=os.path.join(ROOT, "harness"), env=cargo_env(target))
    return os.path.join(BUILD, target, sub, "upon_symex")


def build(variants):
    """The executor, and for every set of features the IR and the native binaries."""
    os.makedirs(BUILD, exist_ok=True)
    with cf.ThreadPoolExecutor(CORES) as ex:
        eng = ex.submit(build_engine)
        f = {v: (ex.submit(build_ir, v), ex.submit(build_native, "dev", v), ex.submit(build_native, "replay", v))
             for v in variants}
        return eng.result(), {v: [x.result() for x in xs] for v, xs in f.items()}


def label(job):
    return " ".join([job[0]] + [str(p) for p in job[1]] + ([] if job[2] == "full" else [job[2]]))


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20 if hard < 0 else min(hard, 8 << 20), hard))


RUNNING = set()
STOP = threading.Event()


def run_job(exe, bc, job, deadline, opts):
    h, params, variant = job
    if STOP.is_set():
        return None
    left = deadline - time.time()
    if left < 2:
        return {"harness": h, "params": params, "variant": variant, "complete": False, "error": "", "note": "no time left"}
    line = " ".join([h] + [str(p) for p in params])
    cmd = [exe, "--bc", bc, "--max-time", str(int(left)), "--job", line] + opts
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit)
    RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=left + 30)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    finally:
        RUNNING.discard(p)
    if STOP.is_set() and p.returncode != 0:
        return None
    try:
        return dict(json.loads(out.strip().splitlines()[-1]), variant=variant)
    except Exception:
        return {"harness": h, "params": params, "variant": variant, "complete": False, "note": "",
                "error": "symex ended with %s: %s" % (p.returncode, err[-500:])}


def replay(exe, items, timeout):
    """items: list of (harness, params, hex). Returns a list of outcomes."""
    out = []
    text = "".join("%s %s %s\n" % (h, ",".join(map(str, ps)) or "-", b or "-") for h, ps, b in items)
    try:
        p = subprocess.run([exe], input=text, text=True, errors="replace", timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit)
        lines, rc = p.stdout.splitlines(), p.returncode
        end = {"outcome": "crash", "detail": "exit status %s %s" % (rc, p.stderr[-200:])}
    except subprocess.TimeoutExpired as e:
        so = e.stdout or b""
        lines = (so if isinstance(so, str) else so.decode("utf8", "replace")).splitlines()
        end = {"outcome": "hang", "detail": "no result within %s s" % timeout}
    for l in lines:
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    while len(out) < len(items):
        out.append(end)
        if len(out) < len(items):
            out.append({"outcome": "skipped"})
    return out[:len(items)]


BAD = ("fail", "panic", "crash", "hang")


def confirm(natives, v):
    res = {}
    for name, exe in natives.items():
        r = replay(exe, [v], 20)[0]
        res[name] = r
    return any(r["outcome"] in BAD for r in res.values()), res


def known(prop):
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) match=/(.*?)/ (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    if prop == "--build":
        build(sorted({j[2] for p in J.PROPERTIES.values() for j in p.jobs("quick")}))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    keep, only, sample = False, None, None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--keep-going":
            keep = True
        elif a == "--only":
            only = re.compile(args.pop(0))
        else:
            sys.exit("unknown option " + a)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = J.PROPERTIES[prop]
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "840"))
    deadline = T0 + budget
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    jobs = spec.jobs(tier)
    if only:
        jobs = [j for j in jobs if only.search(label(j))]
    exe, built = build(sorted({j[2] for j in jobs}))
    natives = {v: {"dev": b[1], "release": b[2]} for v, b in built.items()}
    build_s = time.time() - T0
    log("built symbolic executor, IR and replay binaries")

    cost = {}
    cpath = os.path.join(ROOT, "jobcost.json")
    if os.path.exists(cpath):
        cost = json.load(open(cpath))
    key = label
    order = sorted(jobs, key=lambda j: -cost.get(key(j), 1e9))
    opts = ["--sample", "3" if tier == "quick" else "8", "--seed", str(seed),
            "--max-steps", "1000000000"]
    results, confirmed, unconfirmed, findings = [], [], [], set()
    kn = known(prop)
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(run_job, exe, built[j[2]][0], j, deadline, opts) for j in order]
        for f in cf.as_completed(futs):
            r = f.result()
            if r is None:
                continue
            results.append(r)
            for v in r.get("violations", []):
                if confirmed and not keep:
                    break
                ok, nat = confirm(natives[r["variant"]], (r["harness"], r["params"], v["bytes"]))
                v = dict(v, harness=r["harness"], params=r["params"], variant=r["variant"], native=nat)
                detail = " ".join(n.get("detail", "") for n in nat.values())
                hit = [w for h, rx, w in kn if h == r["harness"] and rx.search(detail)]
                if ok and hit:
                    findings.add(hit[0])
                elif ok:
                    confirmed.append(v)
                    log("counterexample confirmed: %s %s %s" % (key((r["harness"], r["params"], r["variant"])), v["bytes"],
                                                            {k: (n["outcome"], n.get("detail", "")[:300]) for k, n in nat.items()}))
                elif v["kind"] != "abort":
                    unconfirmed.append(v)
                    log("counterexample NOT reproduced: %s %s %s %s" % (key((r["harness"], r["params"], r["variant"])), v["kind"], v["bytes"], v["detail"][:300]))
            if confirmed and not keep:
                STOP.set()
                for p in list(RUNNING):
                    p.kill()
                for g in futs:
                    g.cancel()
                break
    run_s = time.time() - T0 - build_s

    # Validate the encoding: sampled paths must behave the same natively.
    items, want = [], []
    mismatch = []
    for variant in sorted(built):
        its, wts = [], []
        for r in results:
            for s in r.get("samples", []) if r["variant"] == variant else []:
                if s["outcome"] == "ok":
                    its.append((r["harness"], r["params"], s["bytes"]))
                    wts.append(s)
        items += its
        want += wts
        if confirmed or not its:
            continue
        for it, w, g in zip(its, wts, replay(natives[variant]["dev"], its, 300)):
            if g.get("outcome") != "ok" or g.get("hash") != w["obs"].rjust(16, "0") or g.get("len") != w["len"]:
                mismatch.append((variant, it, w, g))
    incomplete = [r for r in results if r.get("error") or not r.get("complete")]
    if findings or confirmed:
        incomplete = [r for r in incomplete if r.get("error") or "violations" not in (r.get("note") or "")]
    # Vacuity: every outcome the property distinguishes was reached.
    reach = {}
    for r in results:
        reach[r["harness"]] = reach.get(r["harness"], 0) | r.get("reach", 0)
    missing = []
    if not only:
        for h, want_ids in spec.reach.items():
            for i in want_ids:
                if not reach.get(h, 0) >> i & 1:
                    missing.append((h, i))

    tot = lambda k: sum(r.get(k, 0) for r in results)
    fns = {}
    for r in results:
        for name, v, n in r.get("fns", []):
            a = fns.get(name, (0, n))
            fns[name] = (max(a[0], v), n)
    outcomes = {}
    for r in results:
        for k, v in r.get("outcomes", {}).items():
            outcomes[k] = outcomes.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("forks") + tot("single_decisions") + tot("multi_decisions"),
            "traces_validated_against_impl": len(items) - len(mismatch),
            "samples": [{"harness": it[0], "params": it[1], "input_bytes": it[2], "observation_hash": w["obs"]}
                        for it, w in list(zip(items, want))[:12]],
            "exhaustive": not (incomplete or mismatch or unconfirmed or missing or confirmed),
            "meaning": "states: feasible paths, each standing for every input that satisfies its path condition; "
                       "transitions: branch decisions settled by the solver or its cache and state splits",
            "bounds": spec.bounds,
            "outside": spec.outside,
            "jobs": len(results), "jobs_planned": len(jobs),
            "max_symbolic_bytes": max([r.get("sym_bytes", 0) for r in results] or [0]),
            "infeasible_or_excluded_paths": tot("pruned"),
            "path_outcomes": outcomes,
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "cached_decisions": tot("cache_hits"),
            "solver_s": round(tot("solver_s"), 2),
            "max_query_s": max([r.get("max_query_s", 0) for r in results] or [0]),
            "instructions_executed": tot("steps"),
            "feature_sets": {v: sum(r["variant"] == v for r in results) for v in sorted(built)},
            "functions_encoded": {k: "%d/%d blocks reached" % v for k, v in sorted(fns.items())},
            "reach_markers": {h: [i for i in range(64) if m >> i & 1] for h, m in reach.items()},
            "build_s": round(build_s, 1), "exploration_s": round(run_s, 1),
        },
        "assumptions": J.ASSUMPTIONS + spec.assumptions,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(confirmed),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("JOBCOST"):
        for r in results:
            if r.get("complete"):
                cost[key((r["harness"], r["params"], r["variant"]))] = round(r["wall_s"], 2)
        json.dump(cost, open(cpath, "w"), indent=0, sort_keys=True)
    log("%d/%d jobs, %d paths, %d queries, %.1f s solver, %d paths replayed" % (
        len(results), len(jobs), tot("paths"), tot("queries"), tot("solver_s"), len(items)))
    for w in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if confirmed:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        v = confirmed[0]
        with open(path, "w") as f:
            json.dump({"property": prop, "counterexamples": confirmed[:20],
                       "how": "echo '%s %s %s' | %s" % (v["harness"], ",".join(map(str, v["params"])) or "-",
                                                        v["bytes"] or "-", natives[v["variant"]]["dev"])}, f, indent=1)
        for v in confirmed[:5]:
            print("  %s %s%s: %s code %s" % (v["harness"], v["params"], suffix(v["variant"]), v["kind"], v["code"]))
            for n, r in v["native"].items():
                print("    %s: %s code %s %s" % (n, r["outcome"], r.get("code"), r.get("detail", "")[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad = False
    for v in unconfirmed[:5]:
        bad = True
        print("NO VERDICT: counterexample not reproduced natively: %s" % json.dumps(v)[:600])
    for m in mismatch[:5]:
        bad = True
        print("NO VERDICT: sampled path behaves differently natively: %s" % json.dumps(m)[:600])
    for r in incomplete[:8]:
        bad = True
        print("NO VERDICT: job %s incomplete: %s %s" % (key((r["harness"], r["params"], r["variant"])), r.get("error"), r.get("note")))
    for m in missing:
        bad = True
        print("NO VERDICT: outcome %s of %s never reached" % (m[1], m[0]))
    if bad:
        return 2
    print("OK property=%s tier=%s" % (prop, tier))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except NoVerdict as e:
        print("NO VERDICT:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
