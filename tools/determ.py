"""Determinism study: the same plans in one order in one process and reversed, one by one, under another hash seed."""
import json, os, subprocess, sys
prop, n = sys.argv[1], int(sys.argv[2])
sys.path.insert(0, "/verif")
os.chdir("/verif")
from dst import main as m
seed = os.environ.get("SEED", "1")
def go(idxs, hs):
    p = subprocess.Popen([m.PY, "-m", "dst.main", "--worker", "--prop", prop, "--seed", seed, "--tier", "quick", "--idxs", json.dumps(idxs), "--stride", "1"],
        cwd="/verif", env=m.child_env({"PYTHONHASHSEED": hs, "DST_FULLLOG": "1"}), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p
def col(p):
    out = {}
    for l in p.stdout:
        r = json.loads(l)
        if "hash" in r: out[r["idx"]] = r
        if "error" in r: print(prop, r)
    return out
a = list(range(n))
pa, pb, pc = go(a, "0"), go(a[::-1], "77"), [go([i], "5") for i in a[n//2:n//2+2]]
ra, rb = col(pa), col(pb)
bad = [i for i in a if ra[i]["hash"] != rb[i]["hash"]]
for p in pc:
    for i, r in col(p).items():
        if r["hash"] != ra[i]["hash"]: bad.append(("single", i))
print(prop, "plans", n, "differing", bad, flush=True)
for i in bad:
    j = i[1] if isinstance(i, tuple) else i
    fa, fb = ra[j].get("full"), rb[j].get("full")
    if fa and fb:
        for x, y in zip(fa, fb):
            if x != y:
                print("   ", j, str(x)[:300], "|||", str(y)[:300]); break
        else: print("   len", len(fa), len(fb))
