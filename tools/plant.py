"""Build and confirm planted bugs (development aid, not used by any check).

plant.py DEFS.py ID...   DEFS defines BUGS = {id: dict(property, edits=[(file, old, new)], needs, breaks, demo)}.
Writes seeded/<id>/ when the demo passes on a clean copy, fails on the changed one, and the stable tests still pass.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"
HEAD = '''import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ["JAX_ENABLE_X64"] = "1"
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

'''
SH = '''#!/bin/bash
# run in the repository; fails when the planted change is present
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "pass"):
        if k in b:
            return set(b[k])
    raise SystemExit(list(b))


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for bid in sys.argv[2:] or list(bugs):
        b = bugs[bid]
        d = f"/tmp/plant/{bid}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            n = b.get("nth", 1)
            if s.count(old) < 1:
                print(bid, "TEXT NOT FOUND", f, old[:50]); ok = False; break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if not ok:
            continue
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        out = tempfile.mkdtemp()
        open(out + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        r0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
        if r0.returncode != 0 or r1.returncode == 0:
            print(bid, "DEMO clean rc", r0.returncode, "changed rc", r1.returncode, (r0.stderr[-600:] if r0.returncode else r1.stdout[-300:]))
            continue
        msg = (r1.stderr or r1.stdout).strip().splitlines()[-1:]
        env = dict(os.environ, PYTHONPATH=d + "/src", HYPOTHESIS_STORAGE_DIRECTORY=d + "/hyp")
        subprocess.run(f". /opt/vp/env.sh; export PYTHONPATH={d}/src; cd {d}; $PY -m pytest -q -p no:cacheprovider --timeout=600 "
                       f"--continue-on-collection-errors --hypothesis-seed=0 -n {os.environ.get('N', '8')} -o junit_family=xunit2 --junitxml={d}/junit.xml tests src/bijx",
                       shell=True, executable="/bin/bash", env=env, capture_output=True, text=True)
        res = subprocess.run(["python3", "/opt/vp/results.py", d + "/out.json", f"junit:{d}/junit.xml"], capture_output=True, text=True)
        o = json.load(open(d + "/out.json"))
        passed = set(o.get("passed", []))
        miss = sorted(stable() - passed)
        if miss:
            print(bid, "TESTS FAIL", len(miss), miss[:3])
            shutil.rmtree(d, ignore_errors=True)
            continue
        dst = f"{SEED}/{bid}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        print(bid, "KEPT:", msg)
        shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()


main()
