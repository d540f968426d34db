"""C07: threads and nested callers share objects; every call behaves as if alone and changes nothing."""
import copy
import threading

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .buffered import interpreted, key
from .core import (Scheduler, Violation, close, leaves_np, module_config, module_state, np_rng, same_config, same_state,
                   show, tree_np)
from .scenario import Scenario


class Hooked(bijx.Bijection):
    """Identity whose forward/reverse run a callback (the library is entered again from inside a call)."""

    def __init__(self):
        self.cb = None

    def forward(self, x, log_density, **kwargs):
        if HOOK.cb is not None:
            HOOK.cb(x)
        return x, log_density

    reverse = forward


class HOOK:
    cb = None


class Rec:
    """A reconstructor shared by all callers and the modules they made from it and still hold."""

    def __init__(self, spec, i):
        self.spec, self.i = spec, i
        self.rec = bijx.ModuleReconstructor(zoo.build(spec, i))
        self.held = {}
        self.epoch = 0

    def values(self, n):
        base = nnx.state(zoo.build(self.spec, self.i), nnx.Param)
        r = np_rng("rec", self.spec.get("seed", 0), n, self.epoch)
        return jax.tree.map(lambda v: jnp.asarray(np.asarray(v) + 0.3 * r.uniform(-1, 1, size=np.shape(v))), base)

    def make(self, n, form):
        st = self.values(n)
        if form == "dict":
            st = nnx.to_pure_dict(st)
        elif form == "list":
            st = jax.tree.leaves(st)
        elif form == "array":
            st = jnp.concatenate([jnp.ravel(v) for v in jax.tree.leaves(st)])
        return self.rec.from_params(st)

    def direct(self, n):
        m = zoo.build(self.spec, self.i)
        nnx.update(m, self.values(n))
        return m

    def get(self, n, form):
        if (n, form) not in self.held:
            self.held[n, form] = self.make(n, form)
        return self.held[n, form]


class SCENARIO(Scenario):
    ID = "C07"
    TITLE = "Shared objects are safe to use from concurrent and nested callers"
    QUICK = 72
    THOROUGH = 10000
    RULE = ("one case = two to three simulated threads issuing requests to shared objects under one seeded preemption "
            "schedule, with nested re-entry and parameter changes between phases, compared with each request executed "
            "alone; non-trivial if at least one preemption or re-entry happened; distinct by event-log hash "
            "(preemption points included)")
    REAL = ["all bijx bijections, distributions, Transformed, IMH, BufferedSampler batch and density requests"]
    STUB = ["thread scheduler (real threads, one runnable at a time, seeded switches at library statements)", "callbacks"]
    ROUNDS = 5  # schedules tried per phase on the same objects and requests
    ASSUME = ["JAX and flax internals are atomic at the preemption points used (library statements outside tracing)"]

    def generate(self, R, idx, tier):
        objs = []
        for _ in range(R.choice([1, 1, 2])):
            if R.random() < 0.15:
                sh = R.choice([(2,), (3,)])
                while True:
                    sp = zoo.gen_leaf(R, sh, heavy=False, kw=False)
                    if sp["k"] in ("affine", "shift", "scaling", "negscaling", "sinhconj", "cubicconj", "spline"):
                        break
                objs.append(dict(t="rec", spec=sp, form=R.choice(["dict", "dict", "list", "array", "state"])))
            elif R.random() < 0.62:
                sh = R.choice([(2,), (3,), (4,), (2, 2), (3, 4)])
                sp = zoo.gen_bij(R, sh, depth=R.choice([0, 1, 1, 2]), heavy=R.random() < 0.3)
                if R.random() < 0.2:
                    # per-layer arguments that differ between the layers
                    sub = [dict(k="condshift", shape=list(sh), seed=R.randrange(10**6)), zoo.gen_bij(R, sh, depth=0, heavy=False, kw=False),
                           dict(k="condshift", shape=list(sh), seed=R.randrange(10**6))]
                    sp = dict(k="chain", shape=list(sh), sub=sub[: R.choice([2, 3])])
                objs.append(dict(t="bij", spec=sp, hook=R.random() < 0.3))
            else:
                sp = zoo.gen_dist(R, depth=1 if R.random() < 0.6 else 0, shapes=((2,), (3,), (2, 2)), heavy=False)
                objs.append(dict(t=R.choice(["dist", "dist", "imh", "buf"]), spec=sp))
        nt = R.choice([2, 2, 3])
        phases = []
        for _ in range(R.choice([1, 2])):
            ops = []
            for j in range(nt * R.choice([1, 2, 2])):
                ops.append(dict(th=j % nt, obj=R.randrange(len(objs)), o=R.choice(["a", "a", "b"]),
                                inp=R.randrange(3), np=R.random() < 0.6, args=R.random() < 0.5, key=R.randrange(4),
                                nokw=R.random() < 0.3))
            gaps = R.choice([[1, 2], [1, 2, 3, 5], [1, 2, 3, 5, 8, 13, 21, 40]])
            sw = [[[R.choice(gaps), R.randrange(nt)] for _ in range(R.choice([6, 25, 80]))] for _ in range(self.ROUNDS)]
            phases.append(dict(ops=ops, switches=sw, train=R.random() < 0.6))
        return dict(objs=objs, nt=nt, phases=phases, s=R.randrange(10**6), reenter=R.random() < 0.5)

    # ------------------------------------------------------------------

    def build(self, plan):
        out = []
        for i, o in enumerate(plan["objs"]):
            if o["t"] == "bij":
                m = zoo.build(o["spec"], i)
                if o["hook"]:
                    m = bijx.Chain(m, Hooked(), bijx.Shift(jnp.asarray(0.25)))
                out.append(m)
                continue
            if o["t"] == "rec":
                out.append(Rec(o["spec"], i))
                continue
            d = zoo.build_dist(o["spec"], i, rngs=nnx.Rngs(5))
            if o["t"] == "imh":
                d = bijx.IMH(d, lambda x: -0.5 * jnp.sum(jnp.sin(x) ** 2))
            elif o["t"] == "buf":
                with interpreted():
                    d = bijx.BufferedSampler(d, 3)
            out.append(d)
        return out

    @staticmethod
    def has_kw(o):
        return "condshift" in (zoo.kinds(o["spec"]) if o["t"] in ("bij", "rec") else zoo.dist_kinds(o["spec"]))

    def inputs(self, plan, i, o, op):
        """The caller's own arrays and containers: shared by every operation with the same description."""
        ev = tuple(o["spec"].get("shape", ()))
        r = np_rng("in", plan["s"], i, op["inp"])
        dom = "real" if o["t"] in ("bij", "rec") else zoo.dist_dom(o["spec"])
        x = zoo.draw_x(r, (2,), ev, dom, 0.6)
        ld = r.normal(size=2)
        kw = {}
        if self.has_kw(o) and not op.get("nokw"):
            c = r.uniform(-1, 1, size=2)
            kw["c"] = c if op["np"] else jnp.asarray(c)
            sub = o["spec"].get("sub") if (o["t"] == "bij" and not o["hook"]) else None
            if op["args"] and o["spec"]["k"] == "chain" and sub:
                kw = {"arg_list": [({"c": kw["c"]} if zoo.needs_kw(s) else {}) for s in sub]}
        if not op["np"]:
            x, ld = jnp.asarray(x), jnp.asarray(ld)
        return x, ld, kw

    def call(self, plan, m, o, op, inp):
        x, ld, kw = inp
        a = op["o"] == "a"
        if o["t"] == "rec":
            m = m.get(op["key"], o["form"]) if isinstance(m, Rec) else m
        if o["t"] in ("bij", "rec"):
            return (m.forward if a else m.reverse)(x, ld, **kw)
        k = key(op["key"])
        if o["t"] == "imh":
            st = bijx.mcmc.IMHState(position=x[0], log_prob_target=jnp.asarray(-0.3), log_prob_proposal=jnp.asarray(-1.1))
            if a:
                s, info = m.step(k, st)
                return s, info.is_accepted, info.accept_prob
            return m.sampler.log_density(x)
        if a:
            return m.sample((2,), rng=k, **kw)
        return m.log_density(x, **kw)

    @staticmethod
    def snap(m):
        if isinstance(m, Rec):
            return [x for k in sorted(m.held) for x in module_state(m.held[k])], {}
        return module_state(m), module_config(m)

    def execute(self, plan, ctx):
        HOOK.cb = None
        objs = ctx.call("construct", self.build, plan)
        ref = self.build(plan)
        shared = {}
        for pi, ph in enumerate(plan["phases"]):
            if pi and ph["train"]:
                for i, (m, r) in enumerate(zip(objs, ref)):
                    if isinstance(m, Rec):
                        m.epoch, r.epoch, m.held = pi, pi, {}
                        continue
                    zoo.perturb(m, ("train", pi, i), 0.1)
                    zoo.perturb(r, ("train", pi, i), 0.1)
                ctx.log("train")
            ops = ph["ops"]
            ops = [dict(op, obj=op["obj"] % len(objs), th=op["th"] % plan["nt"]) for op in ops]
            # the same requests executed alone, with inputs of their own
            want = []
            for op in ops:
                o = plan["objs"][op["obj"]]
                r = ref[op["obj"]]
                r = r.direct(op["key"]) if isinstance(r, Rec) else r
                want.append(tree_np(ctx.call("isolated", self.call, plan, r, o, op, self.inputs(plan, op["obj"], o, op))))
            ins = []
            for op in ops:
                k = (op["obj"], op["inp"], op["np"], op["args"], op.get("nokw", False))
                if k not in shared:
                    v = self.inputs(plan, op["obj"], plan["objs"][op["obj"]], op)
                    shared[k] = (v, copy.deepcopy(jax.tree.map(np.array, v)), jax.tree.structure(v))
                ins.append(shared[k][0])
            for op in ops:
                if isinstance(objs[op["obj"]], Rec):
                    # callers hold their modules from here on
                    ctx.call("reconstruct", objs[op["obj"]].get, op["key"], plan["objs"][op["obj"]]["form"])
                    ctx.probe("reconstructed-modules-held")
            before = [self.snap(m) for m in objs]
            main = ops[0]
            for rd, sw in enumerate(ph["switches"]):
                nested = []
                depth = threading.local()
                if plan["reenter"]:
                    inner = self.inputs(plan, main["obj"], plan["objs"][main["obj"]], main)

                    def cb(x):
                        d = getattr(depth, "n", 0)
                        if d >= 2 or (d == 0 and len(nested) > 6):
                            return
                        depth.n = d + 1
                        try:
                            nested.append(tree_np(self.call(plan, objs[main["obj"]], plan["objs"][main["obj"]], main, inner)))
                        finally:
                            depth.n = d

                    HOOK.cb = cb
                got = [None] * len(ops)

                def body(t):
                    def run():
                        for j, op in enumerate(ops):
                            if op["th"] == t:
                                got[j] = tree_np(self.call(plan, objs[op["obj"]], plan["objs"][op["obj"]], op, ins[j]))
                    return run

                sch = Scheduler(ctx, sw)
                try:
                    res = sch.run([body(t) for t in range(plan["nt"])])
                finally:
                    HOOK.cb = None
                ctx.fault("preemption", sch.preempts) if sch.preempts else None
                ctx.probe("yield-points", sch.yields)
                for t, r in enumerate(res):
                    if r[0] == "exc":
                        if isinstance(r[1], Violation):
                            raise r[1]
                        raise Violation("exception-under-concurrency", f"phase {pi} round {rd} thread {t}: {type(r[1]).__name__}: {r[1]}")
                for j, op in enumerate(ops):
                    what = f"phase {pi} round {rd} op {j} thread {op['th']} {plan['objs'][op['obj']]['t']} {op['o']}"
                    if not close(got[j], want[j], 1e-9, 1e-11):
                        raise Violation("result-differs-from-isolated", f"{what}: {show(got[j])} alone {show(want[j])}")
                    ctx.log(what, *leaves_np(got[j]))
                    ctx.state(op["o"], plan["objs"][op["obj"]]["t"], op["np"], bool(sch.preempts), pi, len(nested) > 0)
                for v in nested:
                    ctx.fault("re-entry")
                    if not close(v, want[0], 1e-9, 1e-11):
                        raise Violation("nested-result", f"phase {pi} round {rd}: nested call {show(v)} alone {show(want[0])}")
            for i, m in enumerate(objs):
                now = self.snap(m)
                ok, why = same_state(before[i][0], now[0])
                if ok:
                    ok, why = same_config(before[i][1], now[1])
                if not ok:
                    raise Violation("state-changed", f"phase {pi} object {i}: {why}")
            for k, (v, orig, td) in shared.items():
                if jax.tree.structure(v) != td:
                    raise Violation("caller-container-changed", f"phase {pi} inputs {k}")
                for a, b in zip(leaves_np(v), leaves_np(orig)):
                    if a.shape != b.shape or a.tobytes() != b.tobytes():
                        raise Violation("caller-array-changed", f"phase {pi} inputs of object {k[0]}: {b.ravel()[:4]} became {a.ravel()[:4]}")

    def nontrivial(self, plan, ctx):
        return bool(ctx.faults)

    def simplify(self, plan):
        for i in range(len(plan["phases"])):
            if len(plan["phases"]) > 1:
                p = copy.deepcopy(plan)
                del p["phases"][i]
                yield p
        for i, ph in enumerate(plan["phases"]):
            for rd in range(len(ph["switches"])):
                if len(ph["switches"]) > 1:
                    p = copy.deepcopy(plan)
                    p["phases"][i]["switches"] = [ph["switches"][rd]]
                    yield p
            if len(ph["switches"]) == 1:
                n = len(ph["switches"][0])
                size = max(1, n // 2)
                while size >= 1 and n:
                    for a in range(0, n, size):
                        p = copy.deepcopy(plan)
                        del p["phases"][i]["switches"][0][a : a + size]
                        yield p
                    if size == 1:
                        break
                    size //= 2
            for kk in ("ops",):
                n = len(ph[kk])
                size = max(1, n // 2)
                while size >= 1 and n:
                    for a in range(0, n, size):
                        p = copy.deepcopy(plan)
                        del p["phases"][i][kk][a : a + size]
                        if p["phases"][i]["ops"]:
                            yield p
                    if size == 1:
                        break
                    size //= 2
        if plan["reenter"]:
            p = copy.deepcopy(plan)
            p["reenter"] = False
            yield p
        for i, o in enumerate(plan["objs"]):
            if o.get("hook"):
                p = copy.deepcopy(plan)
                p["objs"][i]["hook"] = False
                yield p
            for s in o["spec"].get("sub", []) if o["t"] == "bij" else []:
                if s.get("shape") == o["spec"].get("shape"):
                    p = copy.deepcopy(plan)
                    p["objs"][i]["spec"] = s
                    yield p
