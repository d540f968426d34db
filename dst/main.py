"""Runner: plans -> worker processes -> minimised replay files and evidence."""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
ENVVARS = {
    "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "JAX_PLATFORMS": "cpu",
    "XLA_PYTHON_CLIENT_PREALLOCATE": "false", "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg", "PYTHONWARNINGS": "ignore", "JAX_ENABLE_X64": "1",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}
PY = "/opt/venv/bin/python"


def load(prop):
    return importlib.import_module(f"dst.p_{prop.lower()}").SCENARIO()


def setup_jax():
    sys.path.insert(0, os.path.join(os.environ.get("DST_REPO", "/repo"), "src"))
    import jax

    jax.config.update("jax_enable_x64", True)
    import bijx  # noqa: F401

    return jax


# ------------------------------------------------------------------ one run


def run_plan(sc, plan):
    from dst.core import Ctx, HarnessError, Violation

    ctx = Ctx()
    viol = None
    try:
        sc.execute(plan, ctx)
    except Violation as v:
        if xla_internal(v.__cause__):
            return xla_skip(ctx)
        viol = {"kind": v.kind, "detail": v.detail}
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        # an error raised inside the library during a legal call is a finding; any other
        # exception is a defect of the harness and ends the batch with an error exit
        if xla_internal(e):
            return xla_skip(ctx)
        where = lib_frame(e)
        if where is None:
            raise
        viol = {"kind": "unexpected-exception", "detail": f"{type(e).__name__}: {e} (in {where})"[:1500]}
    if viol:
        ctx.log("VIOLATION", viol["kind"])
    return ctx, viol


def xla_internal(e):
    """An assertion inside the XLA compiler or its runtime: not a result of the code under test."""
    return e is not None and "RET_CHECK failure (external/xla/" in str(e)


def xla_skip(ctx):
    ctx.probe("xla-internal-error")
    ctx.log("XLA internal error")
    return ctx, None


def lib_frame(e):
    from dst.core import SRC

    seen, where = 0, None
    while e is not None and seen < 6:
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(SRC):
                where = f"{os.path.basename(fn)}:{tb.tb_lineno}"
            tb = tb.tb_next
        if where:
            return where
        e, seen = e.__cause__ or e.__context__, seen + 1
    return None


def gen(sc, seed, idx, tier):
    from dst.core import plan_rng

    return json.loads(json.dumps(sc.generate(plan_rng(seed, sc.ID, idx), idx, tier)))


def worker(args):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    try:
        setup_jax()
        sc = load(args.prop)
        idxs = json.loads(args.idxs)
        t0 = time.time()
        for idx in idxs:
            out.write(json.dumps({"start": idx}) + "\n")
            plan = gen(sc, args.seed, idx, args.tier)
            t = time.time()
            ctx, viol = run_plan(sc, plan)
            rec = dict(idx=idx, hash=ctx.digest(), events=ctx.events, faults=ctx.faults,
                       probes=ctx.probes, states=sorted(ctx.states), simtime=ctx.simtime,
                       nontrivial=bool(sc.nontrivial(plan, ctx)), violation=viol,
                       wall=time.time() - t, tail=ctx.tail[-12:] if viol else None)
            if ctx.full is not None:
                rec["full"] = ctx.full
            if viol:
                rec["plan"] = plan
            out.write(json.dumps(rec) + "\n")
            if args.cache_every and (idx // max(1, args.stride)) % args.cache_every == args.cache_every - 1:
                import jax

                jax.clear_caches()
        out.write(json.dumps({"end": True, "wall": time.time() - t0}) + "\n")
    except BaseException as e:  # noqa: BLE001
        import traceback

        out.write(json.dumps({"error": f"{type(e).__name__}: {e}",
                              "tb": traceback.format_exc()[-3000:]}) + "\n")
        out.flush()
        os._exit(3)
    out.flush()
    os._exit(0)


# ------------------------------------------------------------------ subprocess helpers


def child_env(extra=None):
    env = dict(os.environ)
    env.update(ENVVARS)
    env.setdefault("PYTHONHASHSEED", "0")
    env.pop("PYTHONPATH", None)
    env.update(extra or {})
    return env


class WorkerProc:
    def __init__(self, prop, seed, tier, idxs, stride, env=None):
        self.idxs = list(idxs)
        self.done = []
        self.cur = None
        self.last = time.time()
        self.error = None
        self.ended = False
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [PY, "-m", "dst.main", "--worker", "--prop", prop, "--seed", str(seed), "--tier", tier,
             "--idxs", json.dumps(self.idxs), "--stride", str(stride)],
            cwd=VERIF, env=child_env(env), stdout=subprocess.PIPE, stderr=self.err, text=True)
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            self.last = time.time()
            if "start" in r:
                self.cur = r["start"]
            elif "error" in r:
                self.error = r
            elif "end" in r:
                self.ended = True
            else:
                self.done.append(r)

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def stderr_tail(self):
        try:
            self.err.seek(0)
            return self.err.read().decode(errors="replace")[-2000:]
        except Exception:
            return ""


def once(args_list, timeout, env=None):
    """Run a helper mode in a fresh process, returning its JSON answer."""
    p = subprocess.run([PY, "-m", "dst.main"] + args_list, cwd=VERIF, env=child_env(env),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("{"):
            return json.loads(line)
    return {"error": p.stderr[-2000:]}


# ------------------------------------------------------------------ replay / minimise


def do_replay(args):
    rep = json.load(open(args.replay))
    setup_jax()
    sc = load(rep["property"])
    for idx in rep.get("prefix", []):
        run_plan(sc, gen(sc, rep["seed"], idx, rep["tier"]))
    ctx, viol = run_plan(sc, rep["plan"])
    for line in ctx.tail:
        print("  ", line)
    res = dict(property=rep["property"], hash=ctx.digest(), violation=viol)
    if viol:
        print(f"VIOLATION property={rep['property']} replay={args.replay}")
        print(f"   {viol['kind']}: {viol['detail']}")
    print(json.dumps(res))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


def do_shrink(args):
    """Greedy minimisation inside one fresh process, budgeted by candidate count and time."""
    rep = json.load(open(args.shrink))
    setup_jax()
    sc = load(rep["property"])
    kind = rep["violation"]["kind"]
    best, tried, t0 = rep["plan"], 0, time.time()

    def fails(plan):
        try:
            _, v = run_plan(sc, plan)
        except BaseException:  # noqa: BLE001 - an ill-formed candidate is not a reproduction
            return False
        return v is not None and v["kind"] == kind

    if not fails(best):
        print(json.dumps({"plan": best, "reproduced": False, "tried": 1}))
        sys.stdout.flush()
        os._exit(0)
    progress = True
    while progress and tried < args.max_tries and time.time() - t0 < args.budget:
        progress = False
        for cand in sc.simplify(best):
            tried += 1
            if tried >= args.max_tries or time.time() - t0 > args.budget:
                break
            if fails(cand):
                best, progress = cand, True
                break
    print(json.dumps({"plan": best, "reproduced": True, "tried": tried}))
    sys.stdout.flush()
    os._exit(0)


def known_findings(prop):
    """`finding: property=<id> kind=<kind> match=<regex> :: <what fails>` lines suppress nothing else."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.+?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def report(prop, seed, tier, rec, prefix_of):
    """Minimise, write the replay file, confirm it in a fresh process, print the line."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{tier}-s{seed}-r{rec['idx']}.json")
    rep = dict(property=prop, seed=seed, tier=tier, run=rec["idx"], violation=rec["violation"],
               plan=rec["plan"], prefix=[])

    def save():
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)

    save()
    note = ""
    try:
        r = once(["--shrink", path, "--budget", "120", "--max-tries", "400"], 400)
        if r.get("reproduced"):
            rep["original_size"] = len(json.dumps(rec["plan"]))
            rep["plan"] = r["plan"]
            rep["minimised_in"] = r["tried"]
        save()
        c = once(["--replay", path], 300)
        if not c.get("violation"):
            rep["plan"] = rec["plan"]
            rep["prefix"] = prefix_of(rec["idx"])
            save()
            c = once(["--replay", path], 600)
        if c.get("violation"):
            rep["violation"] = c["violation"]
            rep["trace_hash"] = c["hash"]
            note = "replay confirmed in a fresh process"
        else:
            note = "observed once; replay did not reproduce it (state outside the simulator)"
        rep["note"] = note
        save()
    except subprocess.TimeoutExpired:
        note = "minimisation or replay exceeded its time limit"
    print(f"  {rec['violation']['kind']}: {rec['violation']['detail']}")
    print(f"  run {rec['idx']} seed {seed}; {note}")
    for t in (rec.get("tail") or [])[-8:]:
        print("   ", t[:300])
    print(f"VIOLATION property={prop} replay={path}")


# ------------------------------------------------------------------ batch


def batch(args):
    prop, seed, tier = args.prop, args.seed, args.tier
    t0 = time.time()
    sc = load(prop)
    total = args.runs or (sc.QUICK if tier == "quick" else sc.THOROUGH)
    W = min(args.workers, total)
    deadline = t0 + (args.deadline or (480 if tier == "quick" else 6 * 3600))
    procs = [WorkerProc(prop, seed, tier, range(w, total, W), W) for w in range(W)]
    again = range(total // 2, 0, -7)[:2] if tier == "quick" else range(total // 2, 0, -max(7, total // 200))
    det = WorkerProc(prop, seed, tier, again, 1, env={"PYTHONHASHSEED": "4242"})
    retries = {w: 0 for w in range(W)}
    finished = {w: [] for w in range(W)}
    hung, error, timed_out = None, None, False
    kf = known_findings(prop)

    def is_known(r):
        v = r["violation"]
        for kind, rx, what in kf:
            if v["kind"] == kind and rx.search(v["detail"]):
                return what
        return None

    def results():
        for w in range(W):
            yield from finished[w]
            yield from list(procs[w].done)

    while True:
        time.sleep(0.2)
        viols = [r for r in results() if r["violation"] and not is_known(r)]
        vmin = min((r["idx"] for r in viols), default=None)
        busy = False
        for w, p in enumerate(procs):
            if p.ended:
                continue
            if vmin is not None and p.cur is not None and p.cur > vmin:
                p.kill()
                p.ended = True
                continue
            if p.p.poll() is not None:
                p.t.join(2)
                if p.ended:
                    continue
                got = {r["idx"] for r in p.done}
                rest = [i for i in p.idxs if i not in got]
                if p.error is not None or retries[w] >= 2:
                    error = error or (p.error or {"error": "worker died", "tb": p.stderr_tail(), "idx": p.cur})
                    p.ended = True
                    continue
                retries[w] += 1
                finished[w] += p.done
                procs[w] = WorkerProc(prop, seed, tier, rest, W)
                busy = True
                continue
            if p.cur is not None and time.time() - p.last > sc.RUN_TIMEOUT:
                p.kill()
                key = p.cur
                got = {r["idx"] for r in p.done}
                rest = [i for i in p.idxs if i not in got]
                finished[w] += p.done
                if hung == key or retries[w] >= 2:
                    hung = ("confirmed", key)
                    p.ended = True
                    p.done = []
                    continue
                hung, retries[w] = key, retries[w] + 1
                procs[w] = WorkerProc(prop, seed, tier, rest, W)
            busy = True
        if isinstance(hung, tuple) or error:
            break
        if not busy:
            break
        if time.time() > deadline:
            timed_out = True
            break
    if not timed_out and not error and not isinstance(hung, tuple) and vmin is None:
        det.t.join(60)
    for p in procs + [det]:
        p.kill()
        p.t.join(2)
    recs = sorted(results(), key=lambda r: r["idx"])
    viols = [r for r in recs if r["violation"]]
    known = [(r, is_known(r)) for r in viols if is_known(r)]
    viols = [r for r in viols if not is_known(r)]

    if isinstance(hung, tuple) and not viols:
        plan = gen(sc, seed, hung[1], tier)
        viols = [dict(idx=hung[1], plan=plan, violation=dict(kind="no-progress",
                 detail=f"run made no progress for {sc.RUN_TIMEOUT}s, twice"), tail=[])]

    wall = time.time() - t0
    first = {r["idx"]: r["hash"] for r in recs}
    twice = [(r["idx"], r["hash"] == first[r["idx"]]) for r in det.done if r["idx"] in first]
    determinism = dict(runs_repeated_in_another_process_order_and_hash_seed=len(twice),
                       identical_traces=sum(ok for _, ok in twice), differing_runs=[i for i, ok in twice if not ok])
    write_evidence(sc, tier, seed, recs, viols, known, total, wall, timed_out, W, determinism)

    for what in sorted({k for _, k in known}):
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} {tier}: {len(recs)}/{total} runs, seed {seed}, {wall:.0f}s, "
          f"{len({r['hash'] for r in recs})} distinct traces, faults "
          f"{sum(sum(r['faults'].values()) for r in recs)}, {len(viols)} violation(s)")
    if viols:
        report(prop, seed, tier, viols[0], lambda i: list(range(i % W, i, W)))
        return 1
    if error:
        print("HARNESS-ERROR", error.get("error"))
        print(error.get("tb"))
        return 2
    if timed_out and len(recs) < max(1, total // 4):
        print(f"HARNESS-ERROR too slow: {len(recs)} of {total} runs before the wall guard")
        return 2
    return 0


def write_evidence(sc, tier, seed, recs, viols, known, total, wall, timed_out, W, determinism):
    faults, probes, states = {}, {}, set()
    for r in recs:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r["states"])
    distinct = len({r["hash"] for r in recs if r["nontrivial"]})
    step = max(1, len(recs) // 3)
    samples = [dict(run=r["idx"], trace_hash=r["hash"], events=r["events"],
                    plan=_clip(gen(sc, seed, r["idx"], tier))) for r in recs[::step][:3]]
    cov = dict(
        evaluations=len(recs), distinct_nontrivial=distinct, rule=sc.RULE, samples=samples,
        planned_runs=total, simulated_events=sum(r["events"] for r in recs),
        runs_per_hour=round(len(recs) / max(wall, 1e-9) * 3600),
        simulated_time=round(sum(r["simtime"] for r in recs), 3),
        faults_fired=dict(sorted(faults.items())), probes=dict(sorted(probes.items())),
        runs_with_faults=sum(1 for r in recs if r["faults"]),
        distinct_states=len(states),
        distinct_states_measure="hash of the abstract state the scenario records after each operation",
        components_real=sc.REAL, components_stubbed=sc.STUB,
        determinism=determinism, known_findings_hit=len(known), wall_guard_reached=timed_out, workers=W,
    )
    ev = dict(property=sc.ID, tier=tier, seed=seed, level=sc.LEVEL, coverage=cov,
              assumptions=sc.ASSUME, wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{sc.ID}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def _clip(plan):
    s = json.dumps(plan)
    return plan if len(s) < 3000 else s[:3000] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pos", nargs="?")
    ap.add_argument("pos_tier", nargs="?")
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--idxs")
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--cache-every", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--shrink")
    ap.add_argument("--budget", type=float, default=120)
    ap.add_argument("--max-tries", type=int, default=400)
    args = ap.parse_args()
    args.prop = args.prop or args.pos
    args.tier = args.tier or args.pos_tier or os.environ.get("VERIF_TIER", "quick")
    if args.worker:
        worker(args)
    if args.replay:
        do_replay(args)
    if args.shrink:
        do_shrink(args)
    sys.exit(batch(args))


if __name__ == "__main__":
    main()
