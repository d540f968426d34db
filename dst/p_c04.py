"""C04: crash, rebuild from constructors, restore the last intact checkpoint, compare with an
uninterrupted twin of the same history."""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .buffered import Scripted, interpreted, key
from .core import (Disk, HarnessError, InjectedInterrupt, LineFault, Violation, module_state, np_rng,
                   restore_state, same, same_state, show, tree_np)
from .scenario import Scenario


class Sys:
    """Everything one simulated process holds in memory."""

    def __init__(self, plan, salt):
        self.plan = plan
        kind = plan["kind"]
        self.interp = kind in ("buffered", "imh")
        rs = plan["rseed"] + salt
        rngs = nnx.Rngs(rs) if plan["stream"] == 0 else nnx.Rngs(sample=rs, params=rs + 1)
        self.chain = None
        with zoo.salted(salt):
            if kind == "flow":
                self.m = zoo.build(plan["spec"])
            elif plan["spec"]["k"] == "scripted":
                self.m = Scripted(plan["spec"]["form"], rngs=rngs)
            else:
                self.m = zoo.build_dist(plan["spec"], 0, rngs=rngs)
            if kind in ("buffered", "imh") and plan["n"]:
                with interpreted():
                    self.m = bijx.BufferedSampler(self.m, plan["n"])
            if salt:
                # a rebuilt process starts from other randomness and other parameters
                zoo.perturb(self.m, ("rebuild", salt), 0.3)
            if kind == "imh":
                form = plan["spec"].get("form")

                def target(x):
                    v = x["a"] if form == "tree" else x
                    return -0.5 * jnp.sum(jnp.sin(jnp.asarray(v)) ** 2) - 0.001 * jnp.sum(jnp.asarray(v)) ** 2 * 1e-6

                self.m = bijx.IMH(self.m, target)
                with interpreted():
                    self.chain = self.m.init(key(plan["rseed"] + 5 + salt))
        self.jits = {}

    def items(self):
        it = [("m" + p, v) for p, v in module_state(self.m)]
        if self.chain is not None:
            it += [(f"c{i}", np.asarray(v)) for i, v in enumerate(jax.tree.leaves(self.chain))]
        return it

    def load(self, items, how):
        its = [(p[1:], v) for p, v in items if p[0] == "m"]
        if how == "pickle":
            its = pickle.loads(pickle.dumps(its))
        restore_state(self.m, its)
        if self.chain is not None:
            cs = [jnp.asarray(v) for p, v in items if p[0] == "c"]
            self.chain = jax.tree.unflatten(jax.tree.structure(self.chain), cs)

    def apply(self, op):
        o = op["o"]
        if o == "train":
            zoo.perturb(self.m, ("train", op["s"]), 0.1)
            return ()
        if self.interp:
            with interpreted():
                return tree_np(self._apply(op))
        return tree_np(self._apply(op))

    def _jit(self, name, f):
        if name not in self.jits:
            self.jits[name] = nnx.jit(f)
        return self.jits[name]

    def _apply(self, op):
        o, m = op["o"], self.m
        jit = op.get("mode") == "jit"
        if o == "step":
            if self.chain is None:
                return ()
            self.chain, info = m.step(key(op["key"]), self.chain)
            return self.chain, info.is_accepted, info.accept_prob
        d = m.sampler if isinstance(m, bijx.IMH) else m
        if o == "sample":
            sh = tuple(op["shape"])
            if op["key"] is None:
                f = lambda mm: mm.sample(sh)  # noqa: E731
                return self._jit(("s", sh), f)(d) if jit else f(d)
            f = lambda mm, k: mm.sample(sh, rng=k)  # noqa: E731
            return self._jit(("k", sh), f)(d, key(op["key"])) if jit else f(d, key(op["key"]))
        if o == "dens":
            if self.plan["spec"]["k"] == "scripted":
                return ()
            shape, dom = tuple(self.plan["spec"].get("shape", ())), self.plan["dom"]
            x = jnp.asarray(zoo.draw_x(np_rng("x", op["s"]), (2,), shape, dom))
            f = lambda mm, x: mm.log_density(x)  # noqa: E731
            return self._jit("d", f)(d, x) if jit else f(d, x)
        if o in ("fwd", "rev"):
            shape = tuple(self.plan["spec"].get("shape", ()))
            x = jnp.asarray(zoo.draw_x(np_rng("x", op["s"]), (2,), shape, "real", 0.5))
            kw = {"c": jnp.asarray([0.3, -0.4])} if zoo.needs_kw(self.plan["spec"]) else {}
            if o == "fwd":
                f = lambda mm, x, kw: mm.forward(x, jnp.zeros(2), **kw)  # noqa: E731
                return self._jit("f", f)(m, x, kw) if jit else f(m, x, kw)

            def g(mm, x, kw):
                y, ld = mm.forward(x, jnp.zeros(2), **kw)
                return mm.reverse(y, ld, **kw)

            return self._jit("g", g)(m, x, kw) if jit else g(m, x, kw)
        raise HarnessError(o)


class SCENARIO(Scenario):
    ID = "C04"
    TITLE = "Checkpoint and restart reproduce the uninterrupted history exactly"
    QUICK = 70
    THOROUGH = 8000
    RULE = ("one case = one history over one system (distribution, flow, buffered sampler or chain) with checkpoints, "
            "storage faults and crashes between and inside operations, compared result by result with an uninterrupted "
            "twin; non-trivial if a crash was followed by a restore from a checkpoint and further compared results; "
            "distinct by event-log hash")
    REAL = ["all bijx distributions, bijections, BufferedSampler, IMH", "flax.nnx state", "jax"]
    STUB = ["checkpoint store (simulated disk with lost, torn and late writes)", "scripted base in a third of the sampler runs"]
    ASSUME = ["JAX evaluates the same computation to the same bits within one process"]

    def generate(self, R, idx, tier):
        kind = R.choices(["dist", "flow", "buffered", "imh"], [4, 3, 3, 3])[0]
        n = 0
        if kind == "flow":
            spec = zoo.gen_bij(R, R.choice([(2,), (3,), (2, 2)]), depth=2, heavy=R.random() < 0.4, kw=True)
        elif kind == "dist":
            spec = zoo.gen_dist(R, depth=1, shapes=((2,), (3,)), heavy=False, kw=False)
            if R.random() < 0.1:
                spec = dict(k="haar", n=2, seed=1, base=[], shape=[2, 2])
        else:
            spec = dict(k="scripted", form=R.choice(["array", "vec", "tree"])) if R.random() < 0.6 else \
                zoo.gen_dist(R, depth=0, shapes=((2,),), heavy=False, kw=False)
            n = R.choice([1, 2, 3, 4]) if kind == "buffered" or R.random() < 0.7 else 0
        dom = "real" if kind == "flow" or spec["k"] == "scripted" else zoo.dist_dom(spec)
        ops, faults = [], []
        L = R.randint(4, 11)
        shapes = [[]] if kind in ("buffered", "imh") else [[], [2]]
        for i in range(L):
            if kind == "flow":
                o = R.choices(["fwd", "rev", "train"], [3, 3, 2])[0]
            elif kind == "imh":
                o = R.choices(["step", "sample", "train"], [5, 1, 1])[0]
            else:
                o = R.choices(["sample", "dens", "train"], [5, 1.2 if kind == "dist" and spec["k"] != "haar" else 0, 1.5])[0]
            op = dict(o=o)
            if o == "step":
                op["key"] = R.randrange(10**6)
            elif o == "sample":
                op["shape"] = R.choice(shapes)
                op["key"] = R.randrange(10**6) if R.random() < 0.3 else None
            else:
                op["s"] = R.randrange(10**6)
            if kind in ("dist", "flow") and o != "train" and R.random() < 0.3:
                op["mode"] = "jit"
            ck = R.random()
            if ck < 0.45:
                op["ckpt"] = R.choices(["ok", "lost", "torn", "late"], [5, 1, 1, 1])[0]
            ops.append(op)
        for _ in range(R.randint(1, 3)):
            faults.append(dict(at=R.randrange(L), n=R.choice([0, 0, R.randint(1, 12), R.randint(1, 40)]),
                               salt=R.randint(1, 10**4)))
        return dict(kind=kind, spec=spec, dom=dom, n=n, rseed=R.randrange(10**6), stream=R.randrange(2), ops=ops,
                    faults=faults, how=R.choice(["plain", "pickle"]))

    def execute(self, plan, ctx):
        twin = ctx.call("construct", Sys, plan, 0)
        want = []
        for i, op in enumerate(plan["ops"]):
            want.append(ctx.call(f"twin op {i} {op['o']}", twin.apply, op))
        sys_ = ctx.call("construct", Sys, plan, 0)
        disk = Disk(ctx)
        pending = [dict(f) for f in plan["faults"]]
        i, steps, restored = 0, 0, False
        ops = plan["ops"]
        while i < len(ops):
            steps += 1
            if steps > 20 * len(ops) + 50:
                raise HarnessError("too many re-executions")
            op = ops[i]
            f = next((f for f in pending if f["at"] == i), None)
            if f is not None:
                pending.remove(f)
                if f["n"]:
                    lf = LineFault(f["n"], InjectedInterrupt)
                    try:
                        with lf:
                            sys_.apply(op)
                    except InjectedInterrupt:
                        ctx.fault("crash-inside-operation")
                    if not lf.fired:
                        ctx.fault("crash-after-operation")
                else:
                    ctx.fault("crash")
                rec = disk.load()
                sys_ = ctx.call("rebuild", Sys, plan, f["salt"] if rec else 0)
                i = 0
                if rec:
                    i = rec[0]
                    sys_.load(rec[1], plan["how"])
                    ok, why = same_state(sys_.items(), rec[1])
                    if not ok:
                        raise Violation("restore-mismatch", f"restored state differs from the checkpoint: {why}")
                    restored = True
                    ctx.probe("restored")
                else:
                    ctx.probe("restarted-from-scratch")
                ctx.log("resume", i)
                continue
            got = ctx.call(f"op {i} {op['o']}", sys_.apply, op)
            if not same(got, want[i]):
                raise Violation("history-diverged", f"op {i} {op}: {show(got)} uninterrupted {show(want[i])}"
                                + (" (after restore)" if restored else ""))
            if restored:
                ctx.probe("compared-after-restore")
            ctx.log(op["o"], *jax.tree.leaves(got))
            if op.get("ckpt"):
                disk.write(i + 1, sys_.items(), None if op["ckpt"] == "ok" else op["ckpt"])
            ctx.state(plan["kind"], plan["spec"]["k"], op["o"], restored, len(disk.slots), len(pending))
            i += 1

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("compared-after-restore"))

    def simplify(self, plan):
        # keep the crash points meaningful while operations are dropped
        for p in super().simplify(plan):
            for f in p["faults"]:
                f["at"] = min(f["at"], max(0, len(p["ops"]) - 1))
            yield p
        for i, f in enumerate(plan["faults"]):
            if f["n"]:
                p = copy.deepcopy(plan)
                p["faults"][i]["n"] = 0
                yield p
        for s in plan["spec"].get("sub", []):
            if plan["kind"] == "flow" and s.get("shape") == plan["spec"].get("shape"):
                p = copy.deepcopy(plan)
                p["spec"] = s
                yield p
