#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

Builds the symbolic executor, the compiler IR of /repo and the native replay program, runs the
symbolic jobs of the property, and confirms any refutation on the real code before reporting it."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vk"))
import build
import jobs as J

T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "0")) or None


def left(total):
    return total - (time.time() - T0)


def cap():
    # a job that does not converge must not exhaust the machine (ordinary jobs stay below 1 GB)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_job(exe, ll, job, tmo, tag):
    hints = os.path.join(build.WORK, "run", f"{tag}.hints")
    if os.path.exists(hints):
        os.remove(hints)
    cmd = [exe, "--ll", ll, "--check", job["check"], "--set", job["set"], "--pattern", job["pattern"], "--seed", str(job["seed"]), "--hints", hints] + job.get("args", [])
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(5, tmo), preexec_fn=cap)
        line = p.stdout.strip().splitlines()
        r = json.loads(line[-1]) if line else {"status": "crash", "details": [p.stderr[-400:]]}
    except subprocess.TimeoutExpired:
        r = {"status": "timeout", "details": [f"no verdict within {tmo:.0f} s"]}
    except Exception as e:
        r = {"status": "crash", "details": [str(e)[:300]]}
    r.update({k: job[k] for k in ("check", "set", "pattern", "seed", "pkg", "flavour")})
    r["cmd"] = cmd
    r["hints"] = hints if os.path.exists(hints) else None
    r["wall"] = time.time() - t
    return r


def native_search(bins, prop, hints, seed, secs, out):
    """look for a native reproduction of a refutation; returns a message or None"""
    allh = os.path.join(build.WORK, "run", f"{prop}.hints")
    with open(allh, "w") as f:
        for h in hints:
            if h:
                f.write(open(h).read())
    for b in bins:
        trace = None
        for attempt in range(2):
            cmd = [b, "search", prop, str(secs), str(seed), out, "--hints", allh]
            if trace:
                cmd += ["--trace", trace]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs * 3 + 60)
                rc, msg = p.returncode, next((l for l in p.stdout.splitlines() if l.startswith("FOUND")), "")
            except subprocess.TimeoutExpired:
                rc, msg = -999, "the code under check does not terminate"
            if rc == 1 and msg.startswith("FOUND"):
                return f"{msg} ({os.path.basename(os.path.dirname(b))} build)"
            if rc < 0:
                # died or hung: repeat, recording every case before it runs
                if trace:
                    if os.path.exists(trace):
                        shutil.copy(trace, out)
                        return f"process ended by signal {-rc}" if rc != -999 else msg
                    break
                trace = os.path.join(build.WORK, "run", f"{prop}.trace")
                if os.path.exists(trace):
                    os.remove(trace)
                continue
            break
    return None


def confirm_concrete(exe, r, limit=3):
    """re-execute the real code's IR and the specification on the refuting assignment"""
    ks = [str(k) for k in (r.get("bad_sims") or [])[:limit]]
    over = (r.get("extra") or {}).get("overlay")
    if over:
        ks.insert(0, "0 --overlay " + over)
    for k in ks:
        cmd = [x for x in r["cmd"]]
        i = cmd.index("--hints")
        del cmd[i:i + 2]
        cmd += ["--concrete"] + k.split()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
            d = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            continue
        if d.get("status") == "violated":
            return k, d
    return None


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv:
        tier = "thorough"
    total = BUDGET or (840 if tier == "quick" else 6 * 3600)
    os.makedirs(os.path.join(build.WORK, "run"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    spec = J.PROPS[prop]
    js = J.jobs(prop, tier, seed)
    # ---- build
    need = sorted({(j["pkg"], j["flavour"]) for j in js})
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fk = ex.submit(build.kemsym)
        fi = {n: ex.submit(build.ir, *n) for n in need}
        try:
            exe = fk.result()
            lls = {n: f.result() for n, f in fi.items()}
        except build.BuildError as e:
            print(f"BUILD-ERROR {e}")
            return 2
    tb = time.time() - T0
    # ---- symbolic jobs
    out = [None] * len(js)
    stop = threading.Event()
    order = sorted(range(len(js)), key=lambda i: -js[i].get("cost", 1))

    def one(i):
        j = js[i]
        if stop.is_set() or left(total) < 30:
            return i, dict(status="skipped", details=[], **{k: j[k] for k in ("check", "set", "pattern", "seed", "pkg", "flavour")})
        reserve = 120 if tier == "quick" else 300
        r = run_job(exe, lls[(j["pkg"], j["flavour"])], j, min(j.get("timeout", 1e9), left(total) - reserve), f"{prop}-{i}")
        if r["status"] == "violated" and tier == "quick":
            stop.set()
        return i, r

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, r in ex.map(one, order):
            out[i] = r
            if os.environ.get("VERIF_PROGRESS"):
                print(r["check"], r["set"], r["pattern"], r["seed"], r["status"], f"{r.get('wall', 0):.1f}", r.get("details", [])[:2], flush=True)
    bad = [r for r in out if r["status"] == "violated"]
    open_ = [r for r in out if r["status"] not in ("ok", "violated")]
    if bad:
        open_ = [r for r in open_ if r["status"] != "skipped"]
    violation = None
    known = []
    tried = []
    if bad or open_:
        for r in bad + open_:
            print(f"NOTE {r['check']} set={r['set']} pattern={r['pattern']} seed={r['seed']}: {r['status']}: " + "; ".join(str(d)[:300] for d in r["details"][:3]))
        rp = os.path.join(build.WORK, "run", f"{prop}.replay")
        if os.path.exists(rp):
            os.remove(rp)
        if spec.get("native", True):
            try:
                bins = build.replay()
                secs = min(25 if bad else 15, max(5, left(total) / 6))
                if tier == "thorough":
                    secs = 90
                m = native_search(bins, prop, [r.get("hints") for r in bad + open_], seed, secs, rp)
            except build.BuildError as e:
                print(f"NOTE replay build failed: {str(e)[-500:]}")
                m = None
            tried.append("native search")
            if m:
                violation = (rp, m)
        if not violation and spec.get("concrete", True):
            for r in bad:
                c = confirm_concrete(exe, r)
                if c:
                    with open(rp, "w") as f:
                        cmd = " ".join(r["cmd"][:r["cmd"].index("--hints")] + r["cmd"][r["cmd"].index("--hints") + 2:])
                        f.write(f"property={prop}\nset={r['set']}\nwhat={' | '.join(str(d) for d in c[1]['details'][:4])}\nrun={cmd} --concrete {c[0]}\n")
                        if r.get("hints"):
                            f.write(open(r["hints"]).read())
                    violation = (rp, "concrete re-execution of the compiled code: " + str(c[1]["details"][:1]))
                    break
    n_ok = sum(r["status"] == "ok" for r in out)
    # ---- evidence
    g = lambda k: sum(int(r.get(k, 0) or 0) for r in out)
    fns = {}
    for r in out:
        for f in r.get("functions", []):
            n = re.sub(r" x\d+$", "", f)
            fns[n] = fns.get(n, 0) + 1
    own = sorted(n for n in fns if n.startswith(("ml_kem", "x_wing", "dhkem")))
    unint = sorted(n for n in fns if n.startswith("[uninterpreted]"))
    samples = [{k: r.get(k) for k in ("check", "set", "pattern", "seed", "pkg", "flavour", "status", "compared", "same_term", "by_solver", "solver_calls", "xof_path_conditions", "seconds", "extra")} for r in out][:40]
    obligations = g("compared") + g("panic_obligations") + g("range_by_interval") + g("range_by_solver")
    undisch = g("mismatched") + g("undecided")
    cov = {
        "explanation": spec["explain"],
        "bounds": J.bounds(prop, tier, seed),
        "jobs": len(out),
        "jobs_ok": n_ok,
        "obligations": obligations,
        "discharged": obligations - undisch if n_ok == len(out) else max(0, obligations - undisch - 1),
        "equalities_and_properties": g("compared"),
        "panic_memory_overflow_obligations": g("panic_obligations"),
        "of_those_by_interval": g("panic_obligations_by_interval"),
        "reduction_range_obligations": g("range_by_interval") + g("range_by_solver"),
        "reduction_range_by_solver": g("range_by_solver"),
        "identical_terms": g("same_term"),
        "identical_terms_confirmed_by_solver": g("certified"),
        "by_solver": g("by_solver"),
        "solver_queries": g("queries"),
        "solver_calls_after_memo": g("solver_calls"),
        "solver_unsat": g("unsat"),
        "solver_sat": g("sat"),
        "solver_unknown": g("unknown"),
        "solver_seconds": round(sum(float(r.get("solver_seconds", 0) or 0) for r in out), 2),
        "instructions_executed": g("instructions"),
        "terms": g("terms"),
        "xof_path_conditions": g("xof_path_conditions"),
        "merges_proved_equal": g("merges"),
        "functions_encoded": len(fns),
        "functions_of_repo": own[:150],
        "uninterpreted": unint[:20],
        "samples": samples,
        "checker_cmd": f"python3 check.py {prop}",
        "trusted_base": ["kemsym (symbolic executor and term rewriting, /verif/kemsym)", "cvc5 1.1.2, z3 4.8.12", "rustc/LLVM front end producing the executed IR"] + spec.get("trusted", []),
        "build_seconds": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec.get("assume", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov["functions_of_repo"]:
        cov["functions_of_repo"] = cov["functions_of_repo"][: len(cov["functions_of_repo"]) // 2]
        cov["samples"] = cov["samples"][: max(3, len(cov["samples"]) // 2)]
        s = json.dumps(ev, indent=1)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        f.write(s + "\n")
    if violation:
        rp, m = violation
        dst = os.path.join(ROOT, "evidence", f"{prop}.replay")
        shutil.copy(rp, dst)
        kn = next((k for k in load_known() if k["property"] == prop and k.get("match") and re.search(k["match"], open(dst).read() + m)), None)
        if kn:
            print(f"KNOWN-FINDING: property={prop} {kn['what']}")
            return 0
        print(f"counterexample: {m}")
        print(f"VIOLATION property={prop} replay={dst}")
        return 1
    if n_ok == len(out):
        print(f"OK property={prop} jobs={n_ok} obligations={obligations} solver_calls={cov['solver_calls_after_memo']} wall={ev['wall_s']}s")
        return 0
    print(f"INCONCLUSIVE property={prop}: {len(out) - n_ok} of {len(out)} jobs without a verdict, no counterexample reproduced")
    return 2


if __name__ == "__main__":
    sys.exit(main())
