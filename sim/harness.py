"""Runs one property's check: seeded search over many simulated runs, minimisation, replay, evidence.

  python -m sim.harness check  C01 [--tier quick|thorough]     (parent)
  python -m sim.harness worker C01 ...                         (child, one of several)
  python -m sim.harness one    C01 FILE                        (child: run one tape, print the outcome)
  python -m sim.harness replay FILE                            (replay a violation file)
"""
import argparse
import hashlib
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python"
OUT = os.path.join(VERIF, "out")

ENV = dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
           PYTHONWARNINGS="ignore")


def child_env():
    e = dict(os.environ)
    e.update(ENV)
    e.setdefault("PYTHONHASHSEED", "0")
    e["PYTHONPATH"] = VERIF
    return e


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(f"{base}:{prop}:{i}".encode()).digest()[:7], "big")


def load_check(prop):
    """Build, install the simulator's import hook and stand-ins, import the check."""
    from sim import loader, runtime
    mod = importlib.import_module("checks." + prop.lower())
    c = mod.CHECK
    root = loader.build_python()
    sos = loader.build_ext(c.real_ext) if c.real_ext else {}
    if c.sim_ext:
        sos.update(loader.build_ext(c.sim_ext, sim=True))
    if c.fit:
        c.fit_so = loader.build_fit()
    if c.real_ext is not None:
        runtime.install_stubs()
        loader.install(root, sos)
    c.root = root
    c.sos = sos
    c.load()
    return c


def build_only(prop):
    from sim import loader
    mod = importlib.import_module("checks." + prop.lower())
    c = mod.CHECK
    loader.build_python()
    if c.real_ext:
        loader.build_ext(c.real_ext)
    if c.sim_ext:
        loader.build_ext(c.sim_ext, sim=True)
    if c.fit:
        loader.build_fit()


class Check:
    """Base of checks/cNN.py."""
    id = None
    real_ext = ("_psparse", "_continued_fraction")
    sim_ext = ()
    fit = False
    quick_runs, quick_cap = 2000, 60
    thorough_runs, thorough_cap = 200000, 600
    rule = ""
    real_parts, stub_parts, assumptions = (), (), ()
    sim_measure = "hash of (task, yield point) at every preemption and of the task run at every scheduling decision"

    def load(self):
        pass

    def run(self, tape):
        raise NotImplementedError


class Outcome:
    pass


def one_run(check, seed=None, values=None):
    """One simulated run.  Returns a dict: status ok | violation | harness."""
    from sim import core
    tape = core.Tape(seed, values)
    t0 = time.perf_counter()
    info = {}
    try:
        check.info = info
        check.run(tape)
        status, kind, detail = "ok", None, None
    except core.Violation as v:
        status, kind, detail = "violation", v.kind, v.detail
    except core.HarnessGap as e:
        status, kind, detail = "harness", "gap", str(e)
    except (Exception, core.Stop) as e:
        import traceback
        tb = traceback.format_exc()
        if core.origin(e, check.root + os.sep):
            status, kind = "violation", "unexpected-" + type(e).__name__
            detail = core.describe(e)
        else:
            status, kind, detail = "harness", type(e).__name__, tb[-3000:]
    core.Sim.current = None
    r = {"status": status, "kind": kind, "detail": detail, "values": tape.values, "seed": seed,
         "wall": time.perf_counter() - t0, "info": info, "tape": tape}
    return r


def strip(values):
    v = list(values)
    while v and v[-1] == 0:
        v.pop()
    return v


def minimise(run, values, kind, budget=25.0, attempts=2000):
    """Shrink a tape while the same kind of violation persists.  run(values) -> (kind, consumed)."""
    best = strip(values)
    end = time.time() + budget
    n = [0]

    def attempt(cand):
        nonlocal best
        cand = strip(cand)
        if cand == best or n[0] >= attempts or time.time() > end:
            return False
        n[0] += 1
        k, used = run(cand)
        if k != kind:
            return False
        used = strip(used)
        new = used if (len(used), sum(used)) <= (len(cand), sum(cand)) else cand
        if (len(new), sum(new)) < (len(best), sum(best)):
            best = new
            return True
        return False
    # shortest prefix that still fails
    lo = 0
    step = len(best) // 2
    while step:
        if step < len(best) and attempt(best[:len(best) - step]):
            step = min(step, len(best) // 2)
            continue
        step //= 2
    changed = True
    while changed and time.time() < end and n[0] < attempts:
        changed = False
        size = max(1, len(best) // 2)
        while size and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    changed = True
                elif attempt(best[:i] + best[i + size:]):
                    changed = True
                    continue
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo < hi and time.time() < end:
                mid = (lo + hi) // 2
                if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                    changed = True
                    if i >= len(best):
                        break
                    hi = best[i]
                else:
                    lo = mid + 1
    return best, n[0]


# ------------------------------------------------------------------------------------- worker
def worker(a):
    os.environ.update(ENV)
    import warnings
    warnings.filterwarnings("ignore")
    import io
    real_out = sys.stdout
    out = os.fdopen(os.dup(1), "w", buffering=1)
    sys.stdout = io.StringIO()      # code under test prints
    try:
        check = load_check(a.prop)
    except BaseException as e:
        import traceback
        out.write("X " + json.dumps({"error": traceback.format_exc()[-3000:]}) + "\n")
        return 3
    known = [k for k in known_findings(a.prop)]
    deadline = time.time() + a.cap
    agg = {"runs": 0, "nontrivial": 0, "faults": {}, "probes": {}, "sim_ns": 0, "steps": 0, "yields": 0,
           "hashes": [], "samples": [], "known": {}, "wall": 0.0, "draws": 0, "counts": {}}
    seen = set()
    i = a.start
    while i < a.count and time.time() < deadline:
        out.write(f"B {i}\n")
        seed = seed_of(a.seed, a.prop, i)
        r = one_run(check, seed)
        info = r["info"]
        agg["runs"] += 1
        agg["wall"] += r["wall"]
        agg["draws"] += len(r["values"])
        for k in ("faults", "probes", "counts"):
            for n, v in info.get(k, {}).items():
                agg[k][n] = agg[k].get(n, 0) + v
        for k in ("sim_ns", "steps", "yields"):
            agg[k] += info.get(k, 0)
        h = info.get("hash")
        if info.get("nontrivial"):
            agg["nontrivial"] += 1
            if h is not None:
                seen.add(h)
        if len(agg["samples"]) < 2 and info.get("sample") and r["status"] == "ok" and info.get("nontrivial"):
            agg["samples"].append({"seed": seed, "case": info["sample"]})
        if r["status"] != "ok":
            f = match_known(known, r)
            if f is not None:
                agg["known"][f["id"]] = agg["known"].get(f["id"], 0) + 1
            else:
                r2 = {k: r[k] for k in ("status", "kind", "detail", "values", "seed")}
                r2["index"] = i
                r2["trace"] = info.get("trace")
                r2["sample"] = info.get("sample")
                out.write("V " + json.dumps(r2, default=str) + "\n")
                break
        i += a.step
    agg["hashes"] = sorted(seen)
    out.write("D " + json.dumps(agg, default=str) + "\n")
    out.flush()
    return 0


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def match_known(known, r):
    for k in known:
        if r["status"] == "violation" and r["kind"] == k["kind"] and re.search(k["match"], r["detail"] or ""):
            return k
    return None


# ---------------------------------------------------------------------- one tape in a fresh process
def one(a):
    os.environ.update(ENV)
    import warnings
    warnings.filterwarnings("ignore")
    import io
    out = os.fdopen(os.dup(1), "w", buffering=1)
    sys.stdout = io.StringIO()
    with open(a.file) as f:
        spec = json.load(f)
    check = load_check(a.prop)
    r = one_run(check, seed=spec.get("seed"), values=spec.get("values"))
    out.write("R " + json.dumps({"status": r["status"], "kind": r["kind"], "detail": r["detail"], "values": r["values"],
                                 "trace": r["info"].get("trace"), "sample": r["info"].get("sample"),
                                 "hash": r["info"].get("hash")}, default=str) + "\n")
    if a.minimise and r["status"] == "violation":
        def run(v):
            q = one_run(check, values=v)
            return (q["kind"] if q["status"] == "violation" else None), q["values"]
        best, n = minimise(run, r["values"], r["kind"], a.budget)
        q = one_run(check, values=best)
        t = q["tape"]
        draws = [[l, v, n_] for l, v, n_ in zip(t.labels, t.values, t.limits)][:3000]
        out.write("M " + json.dumps({"status": q["status"], "kind": q["kind"], "detail": q["detail"], "values": best,
                                     "trace": q["info"].get("trace"), "sample": q["info"].get("sample"),
                                     "hash": q["info"].get("hash"), "attempts": n, "draws": draws}, default=str) + "\n")
    out.flush()
    return 0


def run_fresh(prop, spec, minim=False, budget=25, timeout=120):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"tmp-{prop}-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump(spec, f)
    cmd = [PY, "-m", "sim.harness", "one", prop, path]
    if minim:
        cmd += ["--minimise", "--budget", str(budget)]
    try:
        p = subprocess.run(cmd, cwd=VERIF, env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, txt, err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, txt, err = "timeout", (e.stdout or b"").decode(errors="replace"), ""
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    res = {}
    for line in txt.splitlines():
        if line[:2] in ("R ", "M "):
            res[line[0]] = json.loads(line[2:])
    if "R" not in res:
        if rc == "timeout":
            return {"status": "violation", "kind": "hang", "detail": f"no result within {timeout} s of wall time",
                    "values": spec.get("values")}, None
        if isinstance(rc, int) and rc < 0 or rc in (139, 134):
            name = signal.Signals(-rc).name if isinstance(rc, int) and rc < 0 else str(rc)
            return {"status": "violation", "kind": "crash-" + name, "detail": "the process running the simulation died",
                    "values": spec.get("values"), "stderr": err[-1500:]}, None
        return {"status": "harness", "kind": "child", "detail": f"rc={rc} {err[-2000:]}", "values": None}, None
    return res["R"], res.get("M")


# ------------------------------------------------------------------------------------- parent
def check_cmd(a):
    t0 = time.time()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    os.environ.update(ENV)
    prop = a.prop
    mod = importlib.import_module("checks." + prop.lower())
    c = mod.CHECK
    print(f"[{prop}] VERIF_SEED={base} tier={tier}", flush=True)
    from sim import loader
    try:
        build_only(prop)
    except loader.BuildError as e:
        print(f"[{prop}] build failed: {e}")
        return 2
    t_build = time.time() - t0
    runs, cap = (c.quick_runs, c.quick_cap) if tier == "quick" else (c.thorough_runs, c.thorough_cap)
    if tier == "quick":
        cap *= 3      # a slow or busy machine gets the time it needs for the same runs
    if a.runs:
        runs = a.runs
    if a.cap:
        cap = a.cap
    nw = a.workers or min(8, os.cpu_count() or 1)
    stall = getattr(c, "stall", 90)
    procs = []
    for w in range(nw):
        cmd = [PY, "-m", "sim.harness", "worker", prop, "--seed", str(base), "--start", str(w), "--step", str(nw),
               "--count", str(runs), "--cap", str(cap)]
        p = subprocess.Popen(cmd, cwd=VERIF, env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.set_blocking(p.stdout.fileno(), False)
        os.set_blocking(p.stderr.fileno(), False)
        procs.append({"p": p, "buf": b"", "err": b"", "last": None, "t": time.time(), "done": None, "v": None, "x": None})
    found = None
    harness = None

    def pump(q):
        for name in ("stdout", "stderr"):
            try:
                d = os.read(getattr(q["p"], name).fileno(), 1 << 20)
            except (BlockingIOError, OSError, ValueError):
                d = b""
            if name == "stderr":
                q["err"] = (q["err"] + d)[-4000:]
            else:
                q["buf"] += d
                if d:
                    q["t"] = time.time()
        *lines, q["buf"] = q["buf"].split(b"\n")
        for l in lines:
            l = l.decode(errors="replace")
            if l.startswith("B "):
                q["last"] = int(l[2:])
            elif l.startswith("V "):
                q["v"] = json.loads(l[2:])
            elif l.startswith("D "):
                q["done"] = json.loads(l[2:])
            elif l.startswith("X "):
                q["x"] = json.loads(l[2:])["error"]
    live = list(procs)
    suspects = []
    while live:
        fds = [x for q in live for x in (q["p"].stdout, q["p"].stderr)]
        select.select(fds, [], [], 0.2)
        for q in list(live):
            pump(q)
            rc = q["p"].poll()
            if rc is not None:
                for _ in range(50):
                    before = len(q["buf"])
                    pump(q)
                    if len(q["buf"]) == before:
                        break
                live.remove(q)
                if q["x"]:
                    harness = harness or ("worker could not start", q["x"])
                elif q["done"] is None and q["v"] is None:
                    suspects.append((q["last"], f"rc={rc}", q["err"].decode(errors="replace")))
            elif time.time() - q["t"] > stall:
                q["p"].kill()
                live.remove(q)
                q["p"].wait()
                suspects.append((q["last"], "stalled", ""))
        if any(q["v"] for q in procs) or suspects:
            # let the others finish the runs they are in, then stop
            for q in live:
                q["p"].kill()
                q["p"].wait()
            live = []
    vs = sorted((q["v"] for q in procs if q["v"]), key=lambda v: (v["status"] != "violation", v["index"]))
    if vs and vs[0]["status"] == "violation":
        found = vs[0]
    elif vs:
        harness = harness or ("harness error in run %s" % vs[0]["index"], f"{vs[0]['kind']}: {vs[0]['detail']}")
    if not found and suspects and not harness:
        i, why, err = sorted(suspects, key=lambda s: (s[0] is None, s[0]))[0]
        if i is None:
            harness = ("worker died before its first run", why + " " + err)
        else:
            seed = seed_of(base, prop, i)
            r, _ = run_fresh(prop, {"seed": seed}, timeout=max(120, 2 * stall))
            if r["status"] == "violation":
                r.update(seed=seed, index=i)
                found = r
            else:
                harness = (f"worker died ({why}) in run {i}, which does not fail alone", err)
    # ---- report
    agg = {"runs": 0, "nontrivial": 0, "faults": {}, "probes": {}, "counts": {}, "sim_ns": 0, "steps": 0, "yields": 0, "draws": 0,
           "wall": 0.0, "samples": [], "known": {}}
    hashes = set()
    for q in procs:
        d = q["done"]
        if not d:
            continue
        for k in ("runs", "nontrivial", "sim_ns", "steps", "yields", "wall", "draws"):
            agg[k] += d[k]
        for k in ("faults", "probes", "known", "counts"):
            for n, v in d[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        hashes.update(d["hashes"])
        agg["samples"].extend(d["samples"])
    t_search = time.time() - t0 - t_build
    rc = 0
    viol = 0
    if found:
        viol = 1
        path = report(prop, c, base, found)
        print(f"[{prop}] {found['kind']}: {str(found['detail'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    elif harness:
        print(f"[{prop}] HARNESS ERROR: {harness[0]}\n{harness[1]}", flush=True)
        rc = 2
    elif agg["runs"] < min(runs, getattr(c, "min_runs", 20)):
        print(f"[{prop}] HARNESS ERROR: only {agg['runs']} runs finished", flush=True)
        rc = 2
    for k in known_findings(prop):
        if agg["known"].get(k["id"]) or k.get("always"):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    write_evidence(c, prop, tier, base, agg, hashes, t_search, time.time() - t0, viol, nw)
    print(f"[{prop}] runs={agg['runs']} distinct={len(hashes)} faults={agg['faults']} build={t_build:.1f}s search={t_search:.1f}s rc={rc}", flush=True)
    return rc


def report(prop, c, base, v):
    """Minimise in a fresh process, confirm the replay in another, write the replay file."""
    os.makedirs(OUT, exist_ok=True)
    crash = v["kind"].startswith(("crash", "hang"))
    best, trace, sample, detail, draws, note = v.get("values"), v.get("trace"), v.get("sample"), v["detail"], None, ""
    kind = v["kind"]
    seed = v.get("seed")
    if crash:
        # every attempt needs its own process; a few are enough to drop the tail
        spec = {"seed": seed} if best is None else {"values": best}
        note = "the run kills its process; replay by seed"
    else:
        r, m = run_fresh(prop, {"values": best}, minim=True, timeout=150)
        if r["status"] == "violation" and r["kind"] == kind:
            src = m if m and m["status"] == "violation" and m["kind"] == kind else r
            cand = src["values"]
            conf, _ = run_fresh(prop, {"values": cand})
            if conf["status"] == "violation" and conf["kind"] == kind:
                best, trace, sample, detail = cand, conf.get("trace"), conf.get("sample"), conf["detail"]
                draws = src.get("draws")
                note = f"minimised in {src.get('attempts', 0)} attempts; replayed in a fresh process: same violation"
            else:
                note = "minimised tape did not replay; full tape kept"
        elif r["status"] == "violation":
            note = f"fresh process reports {r['kind']} instead"
        else:
            note = "WARNING: did not fail again in a fresh process"
    path = os.path.join(OUT, f"replay-{prop}-{base}-{v.get('index')}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": kind, "detail": detail, "seed": seed, "verif_seed": base,
                   "index": v.get("index"), "values": best, "case": sample, "schedule_and_fault_trace": trace,
                   "draws": draws, "note": note,
                   "replay": f"cd {VERIF} && {PY} -m sim.harness replay {path}"}, f, indent=1, default=str)
    return path


def replay(a):
    with open(a.file) as f:
        spec = json.load(f)
    build_only(spec["property"])
    s = {"values": spec["values"]} if spec.get("values") is not None else {"seed": spec["seed"]}
    r, _ = run_fresh(spec["property"], s)
    print(json.dumps({k: r.get(k) for k in ("status", "kind", "detail", "sample")}, indent=1, default=str))
    for t in r.get("trace") or []:
        print("  ", *t)
    if r["status"] == "violation":
        print(f"VIOLATION property={spec['property']} replay={a.file}")
        return 1
    return 0 if r["status"] == "ok" else 2


def write_evidence(c, prop, tier, base, agg, hashes, t_search, wall, viol, nw):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    per_h = 3600.0 / max(t_search, 1e-9)
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(hashes), "rule": c.rule,
            "samples": agg["samples"][:6],
            "nontrivial_runs": agg["nontrivial"],
            "runs_per_hour": int(agg["runs"] * per_h), "seeds": "one fresh seed per run",
            "simulated_seconds": round(agg["sim_ns"] * 1e-9, 6),
            "scheduling_steps": agg["steps"], "yield_points": agg["yields"], "tape_draws": agg["draws"],
            "faults_fired": agg["faults"], "probes": agg["probes"], "counts": agg["counts"],
            "distinct_measure": c.sim_measure, "workers": nw,
            "real_components": list(c.real_parts), "stub_components": list(c.stub_parts),
            "known_findings_seen": agg["known"],
        },
        "assumptions": list(c.assumptions), "wall_s": round(wall, 2), "violations": viol,
    }
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def setup(a):
    """Nothing outside the checks is needed; building once shows that the tools work."""
    from sim import loader
    loader.build_python()
    loader.build_ext(("_psparse", "_continued_fraction"))
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd")
    p = sub.add_parser("check")
    p.add_argument("prop")
    p.add_argument("--tier")
    p.add_argument("--runs", type=int)
    p.add_argument("--cap", type=float)
    p.add_argument("--workers", type=int)
    p = sub.add_parser("worker")
    p.add_argument("prop")
    for o in ("--seed", "--start", "--step", "--count"):
        p.add_argument(o, type=int)
    p.add_argument("--cap", type=float)
    p = sub.add_parser("one")
    p.add_argument("prop")
    p.add_argument("file")
    p.add_argument("--minimise", action="store_true")
    p.add_argument("--budget", type=float, default=25)
    sub.add_parser("setup")
    p = sub.add_parser("replay")
    p.add_argument("file")
    a = ap.parse_args()
    return {"check": check_cmd, "worker": worker, "one": one, "replay": replay, "setup": setup}[a.cmd](a)


if __name__ == "__main__":
    sys.exit(main())
