#!/usr/bin/env python3
"""Decide one property: build the engine and the harness crates against /repo's current tree,
execute every harness of the property symbolically, replay counterexamples natively.

usage: check.py PROPERTY [quick|thorough]
exit 0: every obligation discharged; 1: violation (replayed); 2: no answer
"""
import json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
GFSYM = os.path.join(T, "engine/release/gfsym")
RUNNER = os.path.join(T, "runner")
T0 = time.time()


def env(toolchain):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def say(*a):
    print(*a, flush=True)


def fail(msg):
    say("NO-ANSWER:", msg)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", T + "/engine"], cwd=V + "/engine", env=env("stable"))
    if r.returncode:
        fail("engine build failed\n" + r.stdout[-4000:])
    r = run(["gcc", "-O1", "-rdynamic", "-o", RUNNER, V + "/runner/runner.c", "-ldl"])
    if r.returncode:
        fail("runner build failed\n" + r.stdout)


def build_harness(crate):
    """-> (path of LLVM IR, path of shared library)"""
    e = env("nightly-2025-04-24")
    e["RUSTFLAGS"] = "-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq"
    args = []
    src, suffix = crate, ""
    if "+" in crate:  # crate+feature variant, e.g. packed+portable
        src, var = crate.split("+")
        suffix = "_" + var
        args = ["--no-default-features"]
    tdir = T + "/h" + suffix
    r = run(
        ["cargo", "rustc", "-Zchecksum-freshness", "--release", "--offline", "--target-dir", tdir, *args, "--",
         "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
        cwd=f"{V}/harness/{src}", env=e)
    if r.returncode:
        fail(f"harness crate {crate} does not build against the current tree\n" + r.stdout[-6000:])
    ll, so = f"{tdir}/release/deps/h{src}.ll", f"{tdir}/release/libh{src}.so"
    if not os.path.exists(ll) or not os.path.exists(so):
        fail(f"missing build output for {crate}")
    return ll, so


STOP = threading.Event()


def engine(ll, h, out, model, timeout, extra=()):
    try:
        if STOP.is_set():
            raise RuntimeError("stopped: a violation was found")
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.Popen([GFSYM, ll, h, "--out", out, "--model", model, "--timeout", str(timeout), *extra],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        t = time.time()
        while p.poll() is None:
            if STOP.is_set() or time.time() - t > timeout + 30:
                os.killpg(p.pid, 9)
                p.wait()
                raise RuntimeError("stopped: a violation was found" if STOP.is_set() else "time limit")
            try:
                p.wait(0.5)
            except subprocess.TimeoutExpired:
                pass
        with open(out) as f:
            return json.load(f)
    except Exception as ex:  # noqa
        return {"harness": h, "status": "error", "error": f"engine: {ex!r}"[:500], "functions": []}


def replay(so, h, model, viol):
    r = run(["timeout", "300", RUNNER, so, h, model])
    if r.returncode in (10, 11):
        return True, r.stdout[-1500:]
    out = r.stdout[-800:]
    if viol.startswith("memory:"):
        v = run(["timeout", "600", "valgrind", "-q", "--error-exitcode=99", RUNNER, so, h, model])
        if v.returncode in (10, 11, 99):
            return True, v.stdout[-1500:]
        out += v.stdout[-800:]
    return False, f"exit {r.returncode}\n" + out


def main():
    from propdefs import P
    if sys.argv[1] == "--build":
        os.makedirs(T, exist_ok=True)
        build_engine()
        for crate in sorted({c for d in P.values() for c in d["crates"]}):
            build_harness(crate)
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = P[prop]
    known = json.load(open(V + "/known_findings.json"))["findings"]
    hints = json.load(open(V + "/timings.json")) if os.path.exists(V + "/timings.json") else {}
    budget = 840 if tier == "quick" else 6 * 3600
    per = cfg.get("timeout", 300) if tier == "quick" else 3600
    os.makedirs(T, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    rdir = f"{V}/replays/{prop}"
    os.makedirs(rdir, exist_ok=True)
    build_engine()
    todo = []
    crates = list(cfg["crates"]) + (list(cfg.get("thorough_crates", [])) if tier == "thorough" else [])
    for crate in crates:
        ll, so = build_harness(crate)
        names = subprocess.run([GFSYM, ll, "--list"], capture_output=True, text=True).stdout.split()
        pre = "h_" + prop.lower() + "_"
        sel = [n for n in names if n.startswith(pre) and (tier == "thorough" or not n.endswith("_thorough"))]
        if not sel:
            fail(f"no harness for {prop} in {crate}")
        skip = cfg.get("skip", {}).get(crate, "$^")
        todo += [(crate, ll, so, n) for n in sel if not re.search(skip, n)]
    t_build = time.time() - T0
    say(f"{prop} {tier}: {len(todo)} harnesses, build {t_build:.0f}s")
    todo.sort(key=lambda x: -hints.get(x[3], 1))
    results = []

    def is_known(j):
        for x in known:
            if (x["property"], x["harness"], x["violation"]) == (prop, j["harness"], j["violation"]):
                j["status"], j["known"] = "known", x

    def go(item):
        crate, ll, so, h = item
        left = budget - (time.time() - T0)
        if left < 5:
            return item, {"harness": h, "status": "error", "error": "check budget exhausted", "functions": []}
        tag = h if "+" not in crate else h + "." + crate.split("+")[1]
        j = engine(ll, h, f"{rdir}/{tag}.json", f"{rdir}/{tag}.model", int(min(per, left)))
        if j["status"] == "violation":
            is_known(j)
            if j["status"] == "violation":
                j["replayed"], j["replay_out"] = replay(so, h, f"{rdir}/{tag}.model", j["violation"])
                if j["replayed"] or j["violation"].startswith("memory:"):
                    STOP.set()
        return item, j

    with ThreadPoolExecutor(cfg.get("jobs", 8)) as ex:
        for item, j in ex.map(go, todo):
            results.append((item, j))
            if j["status"] != "ok" and "stopped" not in j.get("error", ""):
                say(f"  {j['harness']}: {j['status']} {j.get('violation') or j.get('error') or ''}"[:400])
    violations, unknown, knownhits = [], [], []
    for (crate, ll, so, h), j in results:
        if j["status"] == "ok":
            continue
        tag = h if "+" not in crate else h + "." + crate.split("+")[1]
        if j["status"] == "known":
            knownhits.append(j["known"])
            continue
        if j["status"] != "violation":
            unknown.append((h, j.get("error", j["status"])))
            continue
        model = f"{rdir}/{tag}.model"
        ok, out = j["replayed"], j["replay_out"]
        with open(f"{rdir}/{tag}.txt", "w") as f:
            f.write(f"property {prop}\nharness {h} (crate {crate})\nviolation: {j['violation']}\nstack:\n  "
                    + "\n  ".join(j.get("stack", [])) + f"\ninputs: {j.get('model_hex')}\nreproduced natively: {ok}\n{out}\n"
                    f"replay: {RUNNER} {so} {h} {model}\n")
        if ok or j["violation"].startswith("memory:"):
            violations.append((h, j["violation"], f"{rdir}/{tag}.txt"))
        else:
            unknown.append((h, "counterexample not reproduced natively: " + j["violation"] + "\n" + out))
    js = [j for _, j in results]
    tot = lambda k: sum(j.get(k, 0) for j in js)
    fns = sorted({re.sub(r"\s+", " ", f) for j in js for f in j.get("functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - T0, 1),
        "coverage": {
            "explanation": cfg["explanation"],
            "bounds": cfg["bounds"],
            "outside_bounds": cfg["outside"],
            "technique": "symbolic execution of the LLVM IR compiled from the current /repo tree; assertions decided over all input values by ANF normal forms, truth tables, z3 and kissat/cadical",
            "harnesses": len(js),
            "harnesses_discharged": sum(j["status"] == "ok" for j in js),
            "symbolic_input_bytes": tot("symbolic_bytes"),
            "paths": tot("paths"), "forks": tot("forks"), "merges": tot("merges"), "instructions": tot("instructions"),
            "assertion_queries": tot("asserts"),
            "closed_by_normal_form": tot("asserts_closed_by_normal_form"),
            "closed_by_truth_table_or_solver": tot("asserts") - tot("asserts_closed_by_normal_form"),
            "z3_queries": tot("z3_queries"), "sat_queries": tot("sat_queries"),
            "z3_unsat": tot("z3_unsat"), "sat_unsat": tot("sat_unsat"),
            "solver_time_s": round(tot("solver_time_s"), 3),
            "engine_time_s": round(tot("wall_s"), 1),
            "build_time_s": round(t_build, 1),
            "api_under_check": cfg.get("api", []),
            "functions_encoded": len(fns), "functions": fns[:400],
            "per_harness": [{k: j.get(k) for k in ("harness", "status", "wall_s", "paths", "asserts", "symbolic_bytes", "covers")} for j in js],
            "unknown": [f"{h}: {e}"[:300] for h, e in unknown],
            "violations": [f"{h}: {m}" for h, m, _ in violations],
            "known_findings": [k["what"] for k in knownhits],
        },
    }
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_RECORD_TIMINGS"):
        for j in js:
            if "wall_s" in j:
                hints[j["harness"]] = round(j["wall_s"], 1)
        hints = {k: v for k, v in hints.items() if v >= 1}
        json.dump(hints, open(V + "/timings.json", "w"), indent=0, sort_keys=True)
    for k in knownhits:
        say(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        for h, m, p in violations[:20]:
            say(f"  violated: {h}: {m}")
        say(f"VIOLATION property={prop} replay={violations[0][2]}")
        sys.exit(1)
    if unknown:
        for h, e in unknown[:20]:
            say(f"  no answer: {h}: {e}"[:800])
        fail(f"{len(unknown)} of {len(js)} harnesses undecided")
    say(f"{prop}: {len(js)} harnesses discharged, {tot('asserts')} assertions, {time.time()-T0:.0f}s")


main()
