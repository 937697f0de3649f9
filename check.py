#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --setup                            build everything
   check.py --replay FILE                      replay a recorded counterexample
   check.py --harness NAME [--tier T]          run one harness, print its report

Builds the harness crate together with /repo's current working tree to LLVM IR,
runs the symbolic executor (engine/) on the property's harnesses, replays every
counterexample natively and reports only those that reproduce.
"""
import fcntl
import json
import os
import re
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import plan  # noqa: E402

T = os.path.join(V, "target")
ENGINE = os.path.join(T, "engine", "release", "symex")
IRS = {None: os.path.join(T, "ir", "release", "deps", "harness.ll"), "rpc": os.path.join(T, "ir_rpc", "release", "deps", "harness.ll")}
REPLAYS = {None: os.path.join(T, "replay", "debug", "replay"), "rpc": os.path.join(T, "replay_rpc", "debug", "replay")}
REAL = os.path.join(T, "real", "debug", "replay")
REPO = os.path.dirname(re.search(r'path = "(.*?/stacks)"', open(os.path.join(V, "harness", "Cargo.toml")).read()).group(1))
FINDINGS = os.path.join(V, "known-findings.txt")
EV = os.path.join(V, "evidence")
CORES = os.cpu_count() or 4


class Broken(Exception):
    pass


def run(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault("RUST_BACKTRACE", "0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        if k not in (env or {}):
            e.pop(k, None)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def must(cmd, cwd, env=None, what=""):
    rc, out = run(cmd, cwd, env)
    if rc != 0:
        raise Broken(f"{what} failed:\n{out[-6000:]}")
    return out


def build_engine():
    must(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"),
         {"CARGO_TARGET_DIR": os.path.join(T, "engine")}, "engine build")


def build_ir(feat=None):
    f, d = (["--features", feat], "ir_" + feat) if feat else ([], "ir")
    must(["cargo", "rustc", "--offline", "--release", "--lib"] + f + ["--crate-type", "cdylib", "--", "--emit=llvm-ir,link"],
         os.path.join(V, "harness"),
         {"CARGO_TARGET_DIR": os.path.join(T, d), "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp --cap-lints allow"}, "IR build")
    if not os.path.exists(IRS[feat]):
        raise Broken("no IR produced")


def build_replay(feat=None):
    f, d = (["--features", feat], "replay_" + feat) if feat else ([], "replay")
    must(["cargo", "build", "--offline", "--bin", "replay"] + f, os.path.join(V, "harness"),
         {"CARGO_TARGET_DIR": os.path.join(T, d), "RUSTFLAGS": "--cap-lints allow"}, "replay build")


def build_real():
    must(["cargo", "build", "--offline", "--bin", "replay"], os.path.join(V, "real"),
         {"CARGO_TARGET_DIR": os.path.join(T, "real"), "RUSTFLAGS": "--cap-lints allow"}, "real replay build")


class Lock:
    def __enter__(self):
        os.makedirs(T, exist_ok=True)
        self.f = open(os.path.join(T, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def freshen():
    """Cargo compares mtimes; compare contents, so that a file put in place with an old mtime is seen."""
    import glob
    import hashlib
    import shutil
    h = hashlib.sha256()
    for sub in ("stacks", "stacks_derive"):
        for f in sorted(glob.glob(os.path.join(REPO, sub, "**", "*"), recursive=True)):
            if os.path.isfile(f) and "/target/" not in f:
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    stamp = os.path.join(T, ".sources")
    try:
        if open(stamp).read() == h.hexdigest():
            return
    except FileNotFoundError:
        pass
    for d in ("ir", "replay", "real", "ir_rpc", "replay_rpc"):
        for f in glob.glob(os.path.join(T, d, "*", ".fingerprint", "*")):
            if re.match(r"(stacks|harness|real|replay)", os.path.basename(f)):
                shutil.rmtree(f, ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def build_all(feats=(None,)):
    with Lock():
        freshen()
        with ThreadPoolExecutor(5) as ex:
            fs = [ex.submit(build_engine)]
            for x in feats:
                fs += [ex.submit(build_ir, x), ex.submit(build_replay, x)]
            for f in fs:
                f.result()


def feat_of(h):
    return "rpc" if h.startswith("h_c29") else None


class Budget:
    """Shares the time that is left among the jobs that are left, so that a tree whose paths have become many
    more is explored for as long as there is time, and reported as cut, instead of running out of it."""

    def __init__(self, end, jobs):
        self.end, self.jobs, self.lock = end, jobs, threading.Lock()

    def limit(self, most):
        with self.lock:
            rounds = -(-self.jobs // CORES)
            self.jobs -= 1
        return int(max(15, min(most, (self.end - time.time()) / max(rounds, 1))))


def symex(h, case, tier, tlimit, out, budget):
    tlimit = budget.limit(tlimit)
    cmd = [ENGINE, IRS[feat_of(h)], h, out, "--tier", "1" if tier == "thorough" else "0", "--time", str(tlimit),
           "--qtime", str(1000 * min(120, tlimit))]
    if case:
        cmd += ["--case", case]
    try:
        os.remove(out)
    except FileNotFoundError:
        pass
    try:
        rc, text = run(["bash", "-c", "ulimit -v 20000000; exec \"$@\"", "x"] + cmd, V, timeout=2 * tlimit + 30)
    except subprocess.TimeoutExpired:
        rc, text = 99, "engine timeout"
    try:
        r = json.load(open(out))
    except Exception:
        r = {"harness": h, "case": case, "paths": 0, "violations": [], "samples": [], "reached": {}, "checks": {},
             "functions": [], "lines": [], "incomplete": [f"engine ended with {rc}: {text[-300:]}"]}
    return r


def native(h, inputs, ufs, tier, binary=None, timeout=60):
    """Run the harness natively; returns (kind, detail, obs)."""
    binary = binary or REPLAYS[feat_of(h)]
    d = os.path.join(T, "tmp")
    os.makedirs(d, exist_ok=True)
    tag = f"{os.getpid()}_{time.monotonic_ns()}_{abs(hash((h, inputs[:64], ufs[:64]))) % 10**9}"
    fi, fu = os.path.join(d, tag + ".in"), os.path.join(d, tag + ".uf")
    open(fi, "w").write(inputs)
    open(fu, "w").write(ufs)
    try:
        p = subprocess.run([binary, h, "@" + fi, "@" + fu, "1" if tier == "thorough" else "0"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=dict(os.environ, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return "HANG", f"no end after {timeout} s", []
    finally:
        os.remove(fi)
        os.remove(fu)
    lines = p.stdout.splitlines()
    obs = [x[4:] for x in lines if x.startswith("OBS ")] + ["" for x in lines if x == "OBS"]
    last = lines[-1] if lines else ""
    if p.returncode < 0:
        return "CRASH", f"signal {-p.returncode} {p.stderr[-200:].strip()}", obs
    k = last.split(" ")[0] if last else f"EXIT{p.returncode}"
    return k, last[len(k):].strip(), obs


BAD = ("CHECK-FAIL", "PANIC", "HUGE-ALLOC", "HANG", "CRASH")


def findings():
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) harness=(\S+) native=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(prop, h, kind, detail):
    for p, hh, k, pat, what in findings():
        if p == prop and hh == h and k == kind and re.search(pat, detail):
            return what
    return None


def demangle(names):
    try:
        p = subprocess.run(["c++filt", "--format=rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        if p.returncode == 0:
            return [re.sub(r"\[[0-9a-f]{16}\]|::h[0-9a-f]{16}$", "", x) for x in p.stdout.splitlines()]
    except OSError:
        pass
    return names


def check(prop, tier):
    t0 = time.time()
    P = plan.PLAN[prop]
    build_all({feat_of(h) for h in P["harnesses"]})
    tb = time.time() - t0
    jobs = []
    for h, o in P["harnesses"].items():
        if o.get("tier") == "thorough" and tier != "thorough":
            continue
        n = o.get("cases", 1) if tier == "quick" else o.get("tcases", o.get("cases", 1))
        tl = o.get("time", 150) if tier == "quick" else o.get("ttime", 2400)
        for i in range(n):
            jobs.append((h, f"{i}/{n}" if n > 1 else None, tl, o))
    od = os.path.join(T, "out", prop)
    os.makedirs(od, exist_ok=True)
    jobs.sort(key=lambda j: -j[3].get("weight", 1))
    budget = Budget(t0 + (600 if tier == "quick" else 36000), len(jobs))
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(symex, h, c, tier, tl, os.path.join(od, f"{h}_{(c or '0').replace('/', '_')}.json"), budget)
              for h, c, tl, o in jobs]
        reps = [f.result() for f in fs]
    viol, known, unconf, incomplete = [], [], [], []
    for (h, c, tl, o), r in zip(jobs, reps):
        for i in r["incomplete"]:
            incomplete.append(f"{h}{' case ' + c if c else ''}: {i}")
        seen = set()
        for v in r["violations"]:
            if (v["kind"], v["id"], v["msg"]) in seen and len(seen) > 4:
                continue
            seen.add((v["kind"], v["id"], v["msg"]))
            if v["kind"] == "hang" and any(r["native"].startswith("HANG") for _, r in viol):
                continue
            k, d, _ = native(h, v["inputs"], v["ufs"], tier)
            rec = {"property": prop, "harness": h, "tier": tier, "kind": v["kind"], "obligation": v["id"], "message": v["msg"],
                   "inputs": v["inputs"], "ufs": v["ufs"], "native": f"{k} {d}".strip()}
            if k in BAD:
                w = is_known(prop, h, k, d)
                (known if w else viol).append((w, rec))
            elif v["kind"] in ("hang", "stack") and k == "OK":
                # longer or deeper than the engine follows, but it does end
                incomplete.append(f"{h}{' case ' + c if c else ''}: {v['msg']} (ends natively)")
            else:
                unconf.append(rec)
    # the engine's own runs, re-run natively: outputs have to agree
    validated, disagree = 0, []
    todo = []
    for (h, c, tl, o), r in zip(jobs, reps):
        for s in r["samples"][:8]:
            todo.append((h, s))
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(lambda x: native(x[0], x[1]["inputs"], x[1]["ufs"], tier), todo))
    for (h, s), (k, d, obs) in zip(todo, res):
        if k == "OK" and obs == s["obs"]:
            validated += 1
        elif k in BAD:
            rec = {"property": prop, "harness": h, "tier": tier, "kind": "native", "obligation": d, "message": k,
                   "inputs": s["inputs"], "ufs": s["ufs"], "native": f"{k} {d}".strip()}
            w = is_known(prop, h, k, d)
            (known if w else viol).append((w, rec))
        else:
            disagree.append(f"{h}: engine {s['obs']} native {k} {d} {obs} inputs {s['inputs'][:200]}")
    reached, checks, paths_by = {}, {}, {}
    for (h, c, tl, o), r in zip(jobs, reps):
        reached.setdefault(h, set()).update(r["reached"].keys())
        paths_by[h] = paths_by.get(h, 0) + r["paths"]
        for k, n in r["checks"].items():
            x = checks.setdefault(f"{h}:{k}", {"normal_form": 0, "solver": 0})
            x["normal_form"] += n["normal_form"]
            x["solver"] += n["solver"]
    tot = lambda k: sum(r.get(k, 0) for r in reps)
    cut = {i.split(":")[0].split(" ")[0] for i in incomplete}
    missing = [f"{h}: {i}" for h, o in P["harnesses"].items() if h in reached and not (h in cut and tot("paths"))
               for i in o.get("reach", ["end"]) if i not in reached[h]]
    fns = sorted({f for r in reps for f in r["functions"]})
    dem = demangle(fns)
    repo_fns = sorted({d for d in dem if "stacks_rs" in d or "stacks_rs" in d})
    samples = []
    for (h, s) in todo[:6]:
        samples.append({"harness": h, "inputs": s["inputs"][:160], "uf_outputs": s["ufs"][:160], "outputs": [x[:160] for x in s["obs"]][:6]})
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks") + tot("infeasible"),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"note": "no completed path"}],
        "what_states_means": "states: completed symbolic paths (each stands for every input satisfying its path condition); transitions: branch decisions taken on symbolic values, infeasible sides included",
        "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"],
        "outside_bounds": P.get("outside", "sizes, counts and depths beyond the bounds"),
        "harnesses": paths_by,
        "obligations": checks,
        "instructions_executed": tot("steps"),
        "solver": {"name": "Z3 (libz3, QF_BV) behind a term normaliser and a byte-domain filter", "queries": tot("queries"),
                   "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
                   "solver_s": round(tot("solver_s"), 3), "max_query_s": max([r.get("max_query_s", 0) for r in reps] or [0]),
                   "decided_by_domain_filter": tot("fast"), "cached": tot("cached")},
        "functions_encoded": {"total": len(fns), "of_the_repository": repo_fns[:200],
                              "note": "LLVM functions entered, after inlining; regenerated from /repo on this run"},
        "repository_lines_executed": plan_lines(reps),
        "reach_witnesses": {h: sorted(x) for h, x in reached.items()},
        "incomplete": incomplete,
        "counterexamples_not_reproduced": unconf[:5],
        "engine_native_disagreements": disagree[:5],
        "known_findings": [r for _, r in known][:5],
    }
    evidence = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
                "coverage": cov, "assumptions": plan.COMMON + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                "build_s": round(tb, 2), "violations": [{k: (x[:4000] if isinstance(x, str) else x) for k, x in r.items()} for _, r in viol][:10]}
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for w in sorted({w for w, _ in known}):
        print(f"KNOWN-FINDING: property={prop} {w}")
    print(f"{prop} {tier}: {tot('paths')} paths, {len(checks)} obligations, {tot('queries')} solver queries "
          f"({tot('solver_s'):.1f} s), {validated} paths re-run natively, build {tb:.0f} s, total {time.time() - t0:.0f} s")
    for i in incomplete[:10]:
        print("INCOMPLETE", i)
    if viol:
        rd = os.path.join(EV, "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for _, r in viol:
            key = (r["harness"], r["obligation"])
            if key in done:
                continue
            done.add(key)
            fn = os.path.join(rd, f"{prop}_{len(done)}.json")
            if len(done) == 1:
                r["native_real_crypto"] = real_replay(r)
            json.dump(r, open(fn, "w"), indent=1)
            print(f"  {r['harness']}: {r['obligation']} {r['message']}: native: {r['native'][:300]} inputs={r['inputs'][:200]}")
            print(f"VIOLATION property={prop} replay={fn}")
        return 1
    if unconf:
        print("ERROR: counterexample does not reproduce natively:", json.dumps(unconf[0])[:1500])
        return 2
    if disagree:
        print("ERROR: engine and native run disagree:", disagree[0][:1500])
        return 2
    if missing:
        print("ERROR: never reached:", missing)
        return 2
    return 0


def plan_lines(reps):
    out = {}
    for r in reps:
        for x in r.get("lines", []):
            f, _, l = x.rpartition(":")
            out.setdefault(f, set()).add(int(l))
    return {f: len(s) for f, s in sorted(out.items())}


def real_replay(r):
    """The same inputs with the real cryptographic crates; information only."""
    if feat_of(r["harness"]):
        return "not run: there is no network"
    try:
        build_real()
        k, d, _ = native(r["harness"], r["inputs"], "", r["tier"], REAL)
        return f"{k} {d}".strip()
    except Exception as e:  # noqa: BLE001
        return f"not run: {str(e)[-200:]}"


def main():
    a = sys.argv[1:]
    tier = "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    try:
        if a[0] == "--setup":
            build_all((None, "rpc"))
            return 0
        if a[0] == "--replay":
            r = json.load(open(a[1]))
            build_replay(feat_of(r["harness"]))
            k, d, obs = native(r["harness"], r["inputs"], r["ufs"], r["tier"])
            print(k, d)
            return 1 if k in BAD else 0
        if a[0] == "--harness":
            build_all((feat_of(a[1]),))
            r = symex(a[1], a[2] if len(a) > 2 else None, tier, 600, os.path.join(T, "one.json"))
            r.pop("functions", 0)
            r.pop("samples", 0)
            r.pop("lines", 0)
            print(json.dumps(r, indent=1)[:6000])
            return 0
        return check(a[0], tier)
    except Broken as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
