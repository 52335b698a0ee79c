#!/usr/bin/env python3
"""Solver-based checks for burn_fm.

  check.py run ID [--tier quick|thorough]     decide property ID on /repo's current working tree
  check.py replay FILE                        re-run a recorded counterexample natively
  check.py setup                              build the symbolic executor
"""
from concurrent.futures import ThreadPoolExecutor
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, ".build"))
ENGINE = os.path.join(VERIF, "engine")
SYMEX = os.path.join(ENGINE, "target", "release", "symex")
EVID = os.path.join(VERIF, "evidence")
TOOLCHAIN = "1.98.1"
NCPU = min(8, os.cpu_count() or 8)


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, what, timeout=880):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Broken("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-6000:]))
    return p.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], ENGINE, "building the symbolic executor")


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


class Conflict(Exception):
    pass


REPAIRS = os.path.join(VERIF, "repairs")


def variant_text(rel, text, variant):
    """the interpreter's source, with the recorded repairs merged into it if the variant is `repaired`"""
    n = os.path.relpath(rel, "testing")
    base, fixed = (os.path.join(REPAIRS, k, n) for k in ("base", "fixed"))
    if variant in (None, "tree") or not rel.startswith("testing" + os.sep) or not os.path.exists(base):
        return text
    b = open(base, encoding="utf-8").read()
    f = open(fixed, encoding="utf-8").read()
    if text == b:
        return f
    with tempfile.NamedTemporaryFile("w", suffix=".rs", encoding="utf-8") as t:
        t.write(text)
        t.flush()
        p = subprocess.run(["git", "merge-file", "-p", t.name, base, fixed], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if p.returncode != 0:
        raise Conflict("src/%s has changed where a recorded repair changes it" % rel)
    return p.stdout.decode("utf-8")


def prepare(pid, files, variant=None):
    """a crate holding an exact copy of /repo/src (module declarations made visible) plus the harness"""
    d = os.path.join(BUILD, pid + ("-" + variant if variant else ""))
    nm = pid.lower() + (variant[0] if variant else "")
    src = os.path.join(d, "src")
    want = set()
    rs = os.path.join(REPO, "src")
    if variant == "tree":
        rs = os.path.join(REPAIRS, "tree")
    elif variant:
        for n in os.listdir(os.path.join(REPAIRS, "base")):
            if not os.path.exists(os.path.join(rs, "testing", n)):
                raise Conflict("src/testing/%s is gone" % n)
    for root, _, fs in os.walk(rs):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, rs)
            t = variant_text(rel, open(p, encoding="utf-8").read(), variant)
            t = re.sub(r"(?m)^(\s*)(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*;", r"\1pub mod \2;", t)
            if rel == "main.rs":
                root_text = re.sub(r"(?m)^\s*#!\[[^\]]*\]", "", t)
                continue
            want.add(rel)
            write_if_changed(os.path.join(src, rel), t)
    head = "#![allow(warnings)]\n"
    head += "macro_rules! println { ($($a:tt)*) => {{ let _ = format_args!($($a)*); }}; }\n"
    head += "macro_rules! eprintln { ($($a:tt)*) => {{ let _ = format_args!($($a)*); }}; }\n"
    head += "macro_rules! print { ($($a:tt)*) => {{ let _ = format_args!($($a)*); }}; }\n"
    head += "macro_rules! eprint { ($($a:tt)*) => {{ let _ = format_args!($($a)*); }}; }\n"
    body = root_text + "\n"
    fns = []
    body += "#[path=\"%s\"] pub mod rt;\n" % os.path.join(VERIF, "harness", "rt.rs")
    for f in files:
        t = open(os.path.join(VERIF, "harness", f + ".rs")).read()
        body += "#[path=\"%s\"] pub mod hx_%s;\n" % (os.path.join(VERIF, "harness", f + ".rs"), f)
        fns += [(f, x) for x in re.findall(r"pub extern \"C\" fn (h_\w+)", t)]
    disp = "#[cfg(feature = \"native\")]\npub fn sx_native_main() {\n    if std::env::var(\"SX_MAIN\").is_ok() { rt::native_child(); return; }\n    let n = std::env::args().nth(1).unwrap();\n    let f: extern \"C\" fn() = match n.as_str() {\n"
    disp += "".join("        \"%s\" => hx_%s::%s,\n" % (x, f, x) for f, x in fns)
    disp += "        _ => panic!(\"no such harness\"),\n    };\n    std::thread::Builder::new().stack_size(64 << 20).spawn(move || rt::native_main(f)).unwrap().join().unwrap();\n}\n"
    write_if_changed(os.path.join(src, "lib.rs"), head + body + disp)
    write_if_changed(os.path.join(src, "sx_native.rs"), "fn main() { sx_%s::sx_native_main() }\n" % nm)
    want |= {"lib.rs", "sx_native.rs"}
    for root, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(root, f)
            if os.path.relpath(p, src) not in want:
                os.remove(p)
    deps = []
    sec = False
    for line in open(os.path.join(REPO, "Cargo.toml")):
        if line.strip().startswith("["):
            sec = line.strip() == "[dependencies]"
        elif sec and "=" in line and not re.match(r"\s*color-print\b", line):
            deps.append(line.strip())
    deps.append("color-print = { path = \"%s\" }" % os.path.join(VERIF, "stub", "color-print"))
    cargo = """[package]
name = "sx_%s"
version = "0.1.0"
edition = "2021"
[features]
native = []
[lib]
name = "sx_%s"
path = "src/lib.rs"
crate-type = ["cdylib", "rlib"]
[[bin]]
name = "sx_%s_native"
path = "src/sx_native.rs"
required-features = ["native"]
[dependencies]
%s
[profile.release]
opt-level = 1
overflow-checks = true
debug-assertions = true
panic = "abort"
lto = "fat"
codegen-units = 1
[profile.dev]
debug = 0
incremental = false
[workspace]
""" % (nm, nm, nm, "\n".join(deps))
    write_if_changed(os.path.join(d, "Cargo.toml"), cargo)
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def build(pid, files, variants=(None,)):
    """-> {variant: {"ir": .., "native": ..} or the reason why there is none}"""
    out, errs = {}, []

    def go(f, *a):
        try:
            f(*a)
        except Exception as e:
            errs.append(e)

    def ir(d, nm, o):
        t = os.path.join(BUILD, "t-ir")
        for f in glob.glob(os.path.join(t, "release", "deps", "sx_%s.ll" % nm)) + glob.glob(os.path.join(t, "release", "deps", "sx_%s-*.ll" % nm)):
            os.remove(f)
        # cargo would otherwise consider the crate fresh and skip writing the IR
        os.utime(os.path.join(d, "src", "lib.rs"))
        sh(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "--target-dir", t, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], d, "compiling /repo to LLVM IR")
        fs = glob.glob(os.path.join(t, "release", "deps", "sx_%s.ll" % nm)) + glob.glob(os.path.join(t, "release", "deps", "sx_%s-*.ll" % nm))
        if len(fs) != 1:
            raise Broken("expected one IR file, found %r" % fs)
        keep = os.path.join(d, "prog.ll")
        shutil.move(fs[0], keep)
        o["ir"] = keep

    def nat(d, nm, o):
        t = os.path.join(BUILD, "t-nat")
        sh(["cargo", "build", "--offline", "--bin", "sx_%s_native" % nm, "--features", "native", "--target-dir", t], d, "compiling /repo natively")
        keep = os.path.join(d, "native")
        shutil.copy(os.path.join(t, "debug", "sx_%s_native" % nm), keep)
        o["native"] = keep

    dirs = {}
    for v in variants:
        # a variant that cannot be made is no reason to stop: the check goes on without it
        try:
            dirs[v] = prepare(pid, files, v)
            out[v] = {}
        except Conflict as e:
            out[v] = str(e)

    def each(f):
        for v in variants:
            if v in dirs and not (v == "tree" and f is ir):
                try:
                    f(dirs[v], pid.lower() + (v[0] if v else ""), out[v])
                except Broken as e:
                    if v is None:
                        raise
                    out[v] = str(e)
                    dirs.pop(v, None)

    ts = [threading.Thread(target=go, args=a) for a in ((each, ir), (each, nat), (build_engine,))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out[None] if variants == (None,) else out


def native_run(binary, fn, params, inp, timeout=10):
    """-> (outcome, [observations], [witnesses]); outcome is 'ok', 'fail ..', 'panic ..', 'reject ..', 'assume', 'hang' or 'crash N'"""
    d = tempfile.mkdtemp(prefix="sxrun.")
    try:
        with open(os.path.join(d, "sx_input"), "w") as f:
            f.write(inp)
        e = {"PATH": "/usr/bin:/bin", "SX_INPUT": os.path.join(d, "sx_input"), "SX_PARAMS": ",".join(map(str, params)), "RUST_BACKTRACE": "0"}
        try:
            p = subprocess.run(["/bin/sh", "-c", "ulimit -v 4000000; ulimit -c 0; exec \"$0\" \"$1\"", binary, fn], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
            out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode("utf-8", "replace"), None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    obs, wit, end = [], [], None
    for l in out.splitlines():
        k, _, h = l.partition(" ")
        if k == "SX-OBS":
            obs.append(h)
        elif k == "SX-WIT":
            wit.append(bytes.fromhex(h).decode("utf-8", "replace"))
        elif k == "SX-END":
            end = bytes.fromhex(h).decode("utf-8", "replace")
    if end is None:
        end = "hang" if rc is None else "crash %s" % rc
    return end, obs, wit


def sym_outcome(r):
    if r["kind"] in ("fail", "reject", "panic"):
        return (r["kind"] + " " + r["msg"]).rstrip() if r["kind"] != "ok" else "ok"
    return r["kind"]


def engine_run(ir, run, tier, budget):
    out = tempfile.mkdtemp(prefix="sxeng.")
    opt = dict(run)
    opt.update(run.get(tier, {}))
    t = min(opt.get("time", 600 if tier == "quick" else 3000), budget)
    cmd = [SYMEX, "run", ir, run["fn"], "--out", out, "--jobs", str(opt.get("jobs", NCPU)), "--time", str(t), "--max-steps", str(opt.get("max_steps", 100_000_000)),
           "--params", ",".join(map(str, opt.get("params", []))), "--expr-limit", str(opt.get("expr_limit", 4000)), "--samples", str(opt.get("samples", 997)), "--stop-after", str(opt.get("stop_after", 1))]
    cmd += opt.get("args", [])
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t + 120)
        if p.returncode != 0:
            raise Broken("executor failed (%d) on %s: %s" % (p.returncode, run["fn"], p.stderr[-3000:]))
        r = {"fn": run["fn"], "params": opt.get("params", []), "wall": time.time() - t0, "counts": {}, "wit": set(), "incon": [], "viols": [], "recs": [], "funcs": set(), "workers": 0, "prof": {}, "forkprof": {}}
        for k in ("paths", "steps", "forks", "decisions", "pending", "queries", "cache_hits", "model_hits", "sat", "unsat"):
            r[k] = 0
        r["solver_s"] = r["solver_max_s"] = 0.0
        for f in sorted(glob.glob(os.path.join(out, "*.json"))):
            x = json.load(open(f))
            r["workers"] += 1
            for k in ("paths", "steps", "forks", "decisions", "pending", "queries", "cache_hits", "model_hits", "sat", "unsat"):
                r[k] += x[k]
            r["solver_s"] += x["solver_s"]
            r["solver_max_s"] = max(r["solver_max_s"], x["solver_max_s"])
            for k, v in x["counts"].items():
                r["counts"][k] = r["counts"].get(k, 0) + v
            for k in ("prof", "forkprof"):
                for a, b in x.get(k, {}).items():
                    r[k][a] = r[k].get(a, 0) + b
            r["wit"] |= set(x["wit"])
            r["incon"] += x["incon"]
            r["viols"] += x["viols"]
            r["recs"] += x["recs"]
            r["funcs"] |= set(x["funcs"])
        if r["workers"] == 0:
            raise Broken("executor wrote no result")
        return r
    except subprocess.TimeoutExpired:
        raise Broken("executor overran its time limit on %s" % run["fn"])
    finally:
        shutil.rmtree(out, ignore_errors=True)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == pid and k.get("status") == "open":
                    out.append(k)
    return out


def failed(out):
    return out.startswith(("fail", "panic", "crash")) or out == "hang"


def attribute(real, rep, tree, run, tier, budget, rng):
    """explore the tree as it is: what fails there must be one of the recorded findings, that is, it must have failed on the source
    the findings were recorded on, and must not fail once the recorded repairs are merged in (where they can be)"""
    rr = dict(run, stop_after=1000000)
    if tier == "quick" or rep:
        rr["time"] = 40 if rep else 150
    r = engine_run(real["ir"], rr, "quick" if rep else tier, budget)
    problems, violation = [], None
    if r["incon"]:
        problems.append("%s: inconclusive: %s" % (r["fn"], sorted(set(r["incon"]))[:3]))
    hangs = [v for v in r["viols"] if v["kind"] == "hang"]
    rest = [v for v in r["viols"] if v["kind"] != "hang"]
    hangs, rest = (rng.sample(x, n) if len(x) > n else x for x, n in ((hangs, 8), (rest, 240)))

    def judge(v):
        t = 3 if v["kind"] == "hang" else 10
        outs = [native_run(x["native"], r["fn"], r["params"], v["input"], t) for x in (real, tree)]
        if not failed(outs[0][0]):
            return "%s: counterexample %s %s input %s does not reproduce natively (%s)" % (r["fn"], v["kind"], v["msg"], v["input"], outs[0][0])
        if failed(outs[1][0]) and not (rep and failed(native_run(rep["native"], r["fn"], r["params"], v["input"], t)[0])):
            return None
        return {"harness": r["fn"], "params": r["params"], "input": v["input"], "outcome": outs[0][0], "symbolic": sym_outcome(v), "observed": [bytes.fromhex(o).decode("utf-8", "replace") for o in outs[0][1]]}

    vs = sorted(rest + hangs, key=lambda v: len(v["input"]))
    with ThreadPoolExecutor(8) as ex:
        js = list(ex.map(judge, vs))
    problems += [j for j in js if isinstance(j, str)]
    violation = next((j for j in js if isinstance(j, dict)), None)
    n = js.count(None)
    for s in r["recs"][:12]:
        out, obs, _ = native_run(real["native"], r["fn"], r["params"], s["input"])
        if out != sym_outcome(s) or obs != s["obs"]:
            problems.append("%s: model and code disagree on input %s: executor %s %r, native %s %r" % (r["fn"], s["input"], sym_outcome(s), s["obs"], out, obs))
    print("  %-22s as it is: paths %d %s%s, %d failing ones checked against the recorded findings, wall %.1f s" % (r["fn"], r["paths"], r["counts"], ", not all explored" if r["pending"] else "", n, r["wall"]))
    d = summ(run, r, tier)
    d.update({k: r[k] for k in ("paths", "steps", "forks", "decisions", "queries", "cache_hits", "model_hits", "sat", "unsat", "funcs", "solver_s")})
    d.update({"harness": r["fn"], "outcomes": r["counts"], "unexplored": r["pending"], "failing_checked": n, "compared_with": "the recorded source" + (", the tree with the recorded repairs" if rep else "")})
    return d, violation, problems


def run_property(pid, tier, only=None, profile=False):
    from checks import PROPS
    import random
    prop = PROPS[pid]
    t0 = time.time()
    limit = float(os.environ.get("SX_LIMIT", "840" if tier == "quick" else "7200"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rng = random.Random(seed)
    known = load_known(pid)
    if prop.get("repaired"):
        bs = build(pid, prop["files"], (None, "repaired", "tree"))
        real, b, base = bs[None], bs["repaired"], bs["tree"]
        if isinstance(base, str):
            raise Broken("the recorded source does not compile: " + base)
        if isinstance(b, str):
            print("the recorded repairs do not go with the current tree (%s)" % b.strip().splitlines()[0][:200])
            b = None
    else:
        real, base = None, None
        b = build(pid, prop["files"])
    tb = time.time() - t0
    print("%s: built in %.1f s" % (pid, tb))
    tot = {"paths": 0, "steps": 0, "forks": 0, "decisions": 0, "queries": 0, "cache_hits": 0, "model_hits": 0, "sat": 0, "unsat": 0}
    solver_s, solver_max = 0.0, 0.0
    funcs = set()
    runs_out, samples = [], []
    validated = 0
    violation = None
    known_seen = {}
    asis = []
    problems = []
    for run in prop["runs"]:
        if only and run["fn"] not in only:
            continue
        if tier == "quick" and run.get("thorough_only"):
            continue
        rr = dict(run)
        if real:
            r, v, ps = attribute(real, b, base, run, tier, max(20.0, limit - (time.time() - t0)), rng)
            problems += ps
            asis.append(r)
            for k in tot:
                tot[k] += r.pop(k)
            solver_s += r["solver_s"]
            funcs |= r.pop("funcs")
            if v:
                violation = dict(v, property=pid)
                break
            if not b:
                continue
        if profile:
            rr["args"] = rr.get("args", []) + ["--profile"]
        r = engine_run(b["ir"], rr, tier, max(20.0, limit - (time.time() - t0)))
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        solver_max = max(solver_max, r["solver_max_s"])
        funcs |= r["funcs"]
        print("  %-22s paths %d %s  forks %d  queries %d (cache %d, model %d)  solver %.1f s (max %.2f)  steps %.1fM  workers %d  wall %.1f s" % (
            r["fn"], r["paths"], r["counts"], r["forks"], r["queries"], r["cache_hits"], r["model_hits"], r["solver_s"], r["solver_max_s"], r["steps"] / 1e6, r["workers"], r["wall"]))
        if profile:
            for k in ("prof", "forkprof"):
                print("  --", k)
                for a, n in sorted(r[k].items(), key=lambda x: -x[1])[:25]:
                    print("     %8d %s" % (n, a))
        # counterexamples first: each must reproduce on the natively compiled code
        bad = 0
        for v in sorted(r["viols"], key=lambda v: len(v["input"])):
            out, obs, _ = native_run((real or b)["native"], r["fn"], r["params"], v["input"])
            ok = out.startswith(("fail", "panic", "crash")) or out == "hang"
            if not ok:
                bad += 1
                problems.append("%s: counterexample %s %s input %s does not reproduce natively (%s)" % (r["fn"], v["kind"], v["msg"], v["input"], out))
                continue
            if violation is None:
                violation = {"property": pid, "harness": r["fn"], "params": r["params"], "input": v["input"], "outcome": out, "symbolic": sym_outcome(v),
                             "observed": [bytes.fromhex(o).decode("utf-8", "replace") for o in obs]}
        if violation:
            runs_out.append(summ(run, r, tier))
            break
        if r["incon"]:
            problems.append("%s: inconclusive: %s" % (r["fn"], sorted(set(r["incon"]))[:3]))
        if r["pending"]:
            problems.append("%s: %d unexplored paths when time ran out" % (r["fn"], r["pending"]))
        miss = set(run.get("witness", [])) - r["wit"]
        if miss:
            problems.append("%s: expected situations not reached: %s" % (r["fn"], sorted(miss)))
        recs = r["recs"]
        nval = run.get("validate", 24 if tier == "quick" else 120)
        if len(recs) > nval:
            recs = rng.sample(recs, nval)
        for s in recs:
            out, obs, _ = native_run(b["native"], r["fn"], r["params"], s["input"])
            want = sym_outcome(s)
            if out != want or obs != s["obs"]:
                problems.append("%s: model and code disagree on input %s: executor %s %r, native %s %r" % (r["fn"], s["input"], want, s["obs"], out, obs))
            else:
                validated += 1
                if len(samples) < 12:
                    samples.append({"harness": r["fn"], "params": r["params"], "input": s["input"], "outcome": want, "observed": [bytes.fromhex(o).decode("utf-8", "replace")[:300] for o in s["obs"]]})
        runs_out.append(summ(run, r, tier))
    for k in known:
        # a listed finding is one input that fails on the tree as it is
        n = (real or b)["native"]
        out, obs, _ = native_run(n, k["harness"], k["params"], k["input"], 3)
        if out.startswith(("fail", "panic", "crash")) or out == "hang":
            known_seen[k["id"]] = k
    own = sorted(f for f in funcs if f.startswith("sx_"))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "wall_s": round(time.time() - t0, 2),
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples,
                       "technique": "symbolic execution of the whole-program LLVM IR of /repo; every feasible path within the bounds decided by Z3 over quantifier-free bit-vectors",
                       "runs": runs_out, "tree_as_it_is": asis, "functions_encoded": [re.sub(r"^sx_\w+?::", "", f) for f in own if "::rt::" not in f], "library_functions_encoded": len(funcs) - len(own),
                       "branch_decisions": tot["decisions"], "queries_discharged": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "answered_from_cache": tot["cache_hits"] + tot["model_hits"],
                       "solver_s": round(solver_s, 3), "slowest_query_s": round(solver_max, 3), "ir_instructions_executed": tot["steps"], "build_s": round(tb, 1), "bounds": prop["bounds"], "outside_bounds": prop["outside"],
                       "known_findings_seen": sorted(known_seen), "problems": problems},
          "assumptions": COMMON_ASSUMPTIONS + prop.get("assumptions", []), "violations": 1 if violation else 0}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_seen.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for k in known:
        if k["id"] not in known_seen and not violation and not problems:
            print("note: listed finding %s was not met in this run" % k["id"])
    if violation:
        rp = os.path.join(EVID, "%s.replay.json" % pid)
        with open(rp, "w") as f:
            json.dump(violation, f, indent=1)
        print("counterexample: harness %s: %s" % (violation["harness"], violation["outcome"]))
        for o in violation["observed"]:
            print("  observed: %s" % o[:1000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        for p in problems[:20]:
            print("NOT DECIDED: " + p)
        return 2
    print("%s holds within the bounds%s (%s tier): %d paths, %d solver queries, %.1f s" % (pid, " apart from the findings above" if known_seen else "", tier, tot["paths"], tot["queries"], time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc %s emits for /repo (opt-level 1, fat LTO, overflow checks and debug assertions on, panic=abort) has the behaviour of the code a user builds in the default development profile; sampled paths and every counterexample are replayed on an unoptimised native build" % TOOLCHAIN,
    "hash seeds are fixed to one value per run; heap allocation does not fail; terminal output is discarded",
]


def summ(run, r, tier):
    return {"harness": r["fn"], "what": run.get("what", ""), "params": r["params"], "paths": r["paths"], "outcomes": r["counts"], "forks": r["forks"], "queries": r["queries"], "solver_s": round(r["solver_s"], 3),
            "wall_s": round(r["wall"], 2), "workers": r["workers"], "witnesses": sorted(r["wit"])}


def main():
    a = sys.argv[1:]
    sys.path.insert(0, VERIF)
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build_engine()
        print(subprocess.run([SYMEX, "version"], stdout=subprocess.PIPE, text=True).stdout.strip())
        return 0
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        only = a[a.index("--only") + 1].split(",") if "--only" in a else None
        try:
            return run_property(a[1], tier, only, "--profile" in a)
        except Broken as e:
            print("CHECK BROKEN: %s" % e)
            return 3
    if a[0] == "replay":
        v = json.load(open(a[1]))
        from checks import PROPS
        b = build(v["property"], PROPS[v["property"]]["files"])
        out, obs, wit = native_run(b["native"], v["harness"], v["params"], v["input"])
        print("harness %s input %s -> %s" % (v["harness"], v["input"], out))
        for o in obs:
            print("  observed: " + bytes.fromhex(o).decode("utf-8", "replace"))
        return 1 if out.startswith(("fail", "panic", "crash")) or out == "hang" else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
