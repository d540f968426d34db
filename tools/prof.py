"""Wall time per run of a scenario, grouped by an attribute of the plan (development aid)."""
import sys, time, json, collections
sys.path.insert(0, "/verif")
import os
from dst import main
os.environ.update(main.ENVVARS)
main.setup_jax()
prop, n = sys.argv[1], int(sys.argv[2])
off = int(sys.argv[4]) if len(sys.argv) > 4 else 0
keyf = eval(sys.argv[3]) if len(sys.argv) > 3 else (lambda p: "")
sc = main.load(prop)
t = collections.defaultdict(list)
for i in range(off, off + n):  # noqa
    p = main.gen(sc, 1, i, "quick")
    t0 = time.time()
    try:
        ctx, v = main.run_plan(sc, p)
    except Exception as e:
        import traceback; traceback.print_exc(file=sys.stdout); v = repr(e)
    d = time.time() - t0
    t[str(keyf(p))].append(d)
    if v: print(i, v if isinstance(v, str) else (v["kind"], v["detail"][:600]), flush=True)
for k, v in sorted(t.items(), key=lambda kv: -sum(kv[1])):
    print(f"{k:30s} n={len(v):3d} mean={sum(v)/len(v):.2f} max={max(v):.2f} sum={sum(v):.1f}")
