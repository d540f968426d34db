"""C14: sessions forwarded on one replica are reversed on another, over an unreliable network.

Clients hold (value, log density) pairs; replicas of one flow hold the parameters.  A client sends its pair
through one direction on some replica and later through the other direction on another one.  Messages are
delayed, reordered, lost and duplicated; replicas batch whatever has arrived together with unrelated
neighbours, crash, and come back from the last intact checkpoint.
"""
import copy
import json

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .core import Disk, HarnessError, Violation, module_state, np_rng, restore_state, show, tree_np
from .scenario import Scenario

WRAPS = ["plain", "plain", "inverse", "inverse2", "frozen", "condinv", "condinv2", "partial", "chain1", "clone", "copy", "merge"]
SOLVERS = ("rk4", "diffrax", "cgflow", "convcnf")


def tol(spec):
    if zoo.has(spec, ("cgflow",)):
        return 2e-3
    if zoo.has(spec, SOLVERS):
        return 2e-4
    return 2e-6


# ---------------------------------------------------------------- reference composition


def collect(spec, seed=0, out=None):
    """Build every leaf once (outside tracing)."""
    out = {} if out is None else out
    k, sub = spec["k"], spec.get("sub", [])
    inner = spec.get("seed", 0) * 1000 + seed
    if k == "chain":
        for i, s in enumerate(sub):
            collect(s, inner + i + 1, out)
    elif k == "scan":
        for i in range(spec["n"]):
            collect(sub[0], inner + 17 * i + 1, out)
    elif k in ("inverse", "condinv", "condinv_inv", "inverse2", "frozen", "partial"):
        collect(sub[0], inner, out)
    elif k not in ("reshape", "expand", "squeeze", "flip", "maskperm"):
        out[json.dumps(spec), seed] = zoo.build(spec, seed)
    return out


def compose(leaves, spec, direction, x, ld, kw, seed=0, arglist=None):
    """What the composition means: containers are interpreted here, only leaves run library code."""
    k, sub = spec["k"], spec.get("sub", [])
    inner = spec.get("seed", 0) * 1000 + seed
    fwd = direction == "forward"
    other = "reverse" if fwd else "forward"
    if k == "chain":
        parts = list(enumerate(sub))
        for i, s in parts if fwd else parts[::-1]:
            kk = kw if arglist is None else {**kw, **arglist[i]}
            x, ld = compose(leaves, s, direction, x, ld, kk, inner + i + 1)
        return x, ld
    if k == "scan":
        order = range(spec["n"]) if fwd else reversed(range(spec["n"]))
        for i in order:
            x, ld = compose(leaves, sub[0], direction, x, ld, kw, inner + 17 * i + 1)
        return x, ld
    if k == "inverse":
        return compose(leaves, sub[0], other, x, ld, kw, inner)
    if k == "condinv":
        return compose(leaves, sub[0], other if spec["flag"] else direction, x, ld, kw, inner)
    if k == "condinv_inv":
        return compose(leaves, sub[0], direction if spec["flag"] else other, x, ld, kw, inner)
    if k in ("inverse2", "frozen"):
        return compose(leaves, sub[0], direction, x, ld, kw, inner)
    if k == "partial":
        return compose(leaves, sub[0], direction, x, ld, {"c": float(spec["c"]), **kw}, inner)
    if k in ("reshape", "expand", "squeeze", "flip"):
        b = jnp.ndim(ld)
        bs = jnp.shape(x)[:b]
        if k == "reshape":
            return jnp.reshape(x, bs + tuple(spec["to"] if fwd else spec["shape"])), ld
        if k == "flip":
            return jnp.flip(x, -1), ld
        if (k == "expand") == fwd:
            return jnp.reshape(x, jnp.shape(x) + (1,)), ld
        return jnp.reshape(x, jnp.shape(x)[:-1]), ld
    if k == "maskperm":
        return _maskperm(tuple(spec["shape"]), x, fwd), ld
    if k == "condshift":
        a = leaves[json.dumps(spec), seed].a.get_value()
        c = jnp.asarray(kw.get(spec.get("kw", "c"), 0.0))
        l = a * jnp.tanh(c)
        n = int(np.prod(jnp.shape(x)[jnp.ndim(ld):]))
        e = c.reshape(c.shape + (1,) * (jnp.ndim(x) - c.ndim)) if c.ndim else c
        s = l.reshape(l.shape + (1,) * (jnp.ndim(x) - l.ndim)) if l.ndim else l
        return (x * jnp.exp(s) + e, ld - n * l) if fwd else ((x - e) * jnp.exp(-s), ld + n * l)
    leaf = leaves[json.dumps(spec), seed]
    return getattr(leaf, direction)(x, ld, **kw)


def _maskperm(shape, x, fwd):
    """The two checkerboard halves exchanged: primary entries first-to-first with secondary ones."""
    idx = np.indices(shape).sum(0) % 2
    a = np.flatnonzero(idx.ravel() == 0)
    b = np.flatnonzero(idx.ravel() == 1)
    n = int(np.prod(shape))
    src = np.empty(n, int)
    src[a], src[b] = b, a
    flat = jnp.reshape(x, jnp.shape(x)[: jnp.ndim(x) - len(shape)] + (n,))
    return jnp.reshape(flat[..., src], jnp.shape(x))


# ---------------------------------------------------------------- replicas


def wrap(m, how, fresh=False):
    """(object, swapped): the same flow behind another wrapper; swapped means its directions are exchanged."""
    if how == "inverse":
        return m.invert(), True
    if how == "inverse2":
        return m.invert().invert(), False
    if how == "frozen":
        return bijx.Frozen(m), False
    if how == "condinv":
        # a rebuilt process may construct the other setting; the checkpoint restores it
        return bijx.CondInverse(m, invert=not fresh), True
    if how == "condinv2":
        return bijx.CondInverse(m, invert=True).invert(), False
    if how == "partial":
        return bijx.Partial(m), False
    if how == "chain1":
        return bijx.Chain(bijx.Identity, m, bijx.Chain()), False
    if how == "clone":
        return nnx.clone(m), False
    if how == "copy":
        return copy.deepcopy(m), False
    if how == "merge":
        return nnx.merge(*nnx.split(m)), False
    return m, False


class Replica:
    def __init__(self, plan, ctx, rp, salt, disk):
        self.plan, self.rp, self.ctx = plan, rp, ctx
        with zoo.salted(salt):
            m = zoo.build(plan["spec"])
        self.obj, self.swapped = wrap(m, rp["wrap"], fresh=bool(salt))
        if salt:
            rec = disk.load()
            if rec is None:
                raise HarnessError("no intact checkpoint")
            restore_state(self.obj, rec[1])
        self.inbox = []

    def run(self, direction, x, ld, kw, jits):
        meth = direction if not self.swapped else ("reverse" if direction == "forward" else "forward")
        mode = self.rp["mode"]
        al = self.plan.get("arglist")

        def call(mm, x, ld, kw):
            if al is not None:
                lst = [({"c": kw["c"] * a} if a is not None else {}) for a in al]
                kw = {k: v for k, v in kw.items() if k != "c"}
                kw["arg_list"] = lst
            return getattr(mm, meth)(x, ld, **kw)

        if mode == "eager":
            return call(self.obj, x, ld, kw)
        if mode == "vmap":
            return jax.vmap(lambda x, ld, kw: call(self.obj, x, ld, kw))(x, ld, kw)
        graph, state = nnx.split(self.obj)
        k = (id(self.plan), self.rp["wrap"], meth)
        if k not in jits:
            # replicas with the same wrapper share one compiled function: only the state differs
            jits[k] = jax.jit(lambda s, x, ld, kw: call(nnx.merge(graph, s), x, ld, kw))
        return jits[k](state, x, ld, kw)


class SCENARIO(Scenario):
    ID = "C14"
    TITLE = "Sessions can reverse on any replica what was forwarded on any other"
    QUICK = 96
    THOROUGH = 8000
    RULE = ("one case = several client sessions over several replicas of one flow, linked by a network that delays, "
            "reorders, loses and duplicates messages, with replica crashes and restores; every reply is compared with the "
            "reference composition of the parts and every round trip with the session's original value; non-trivial if a "
            "session was closed on another replica than it was opened on; distinct by event-log hash")
    REAL = ["all bijx bijections and compositions, every wrapper (Inverse, CondInverse, Frozen, Partial, Chain, ScanChain, Reshape...)", "flax.nnx state"]
    STUB = ["network, clients, checkpoint store", "containers in the reference composition"]
    ASSUME = ["inputs stay where the maps are invertible in double precision", "solver round trips agree to 2e-4 (2e-3 for order-3 group flows)"]

    def generate(self, R, idx, tier):
        p = dict(s=R.randrange(10**6), dom="real")
        if R.random() < 0.15:
            name = R.choice(list(zoo.SCALAR))
            p["dom"] = zoo.SCALAR[name][0]
            p["spec"] = zoo.gen_scalar(R, R.choice([(), (2,), (2, 3)]), name, p["dom"])
        else:
            p["spec"] = zoo.gen_bij(R, R.choice(zoo.SHAPES), depth=R.choice([0, 1, 2, 2, 3]))
        sp = p["spec"]
        if p["dom"] == "real" and not zoo.has(sp, zoo.WILD + SOLVERS + ("exp", "softplus", "power", "flowjax")):
            p["size"] = R.choice([1, 1, 1, 4, 10, 0.01])
            p["special"] = R.random() < 0.3
        if sp["k"] == "chain" and p["dom"] == "real" and R.random() < 0.2:
            # a part that takes one argument from the list and another one from the common keywords
            both = [dict(k="condshift", shape=sp["shape"], seed=R.randrange(10**6), sc=R.randrange(2), kw=kw) for kw in "cd"]
            sp["sub"].append(dict(k="chain", shape=sp["shape"], sub=both))
            p["d"] = 1
        if sp["k"] == "chain" and any(zoo.needs_kw(s) for s in sp["sub"]) and R.random() < 0.5 + 0.5 * p.get("d", 0):
            p["arglist"] = [round(R.uniform(0.5, 1.5), 3) if zoo.needs_kw(s) else None for s in sp["sub"]]
        n = R.choice([3, 4, 5])
        p["sessions"] = [dict(rev=R.random() < 0.35, dup=R.random() < 0.2) for _ in range(n)]
        p["replicas"] = [dict(wrap="plain", mode="split")]
        wraps = [w for w in WRAPS if p.get("arglist") is None or w not in ("chain1",)]
        if zoo.has(sp, ("flowjax", "diffrax")):
            # flax cannot deep-copy the equinox objects inside
            wraps = [w for w in wraps if w != "copy"]
        for _ in range(R.choice([1, 1, 2])):
            p["replicas"].append(dict(wrap=R.choice(wraps), mode=R.choice(["split", "split", "eager", "vmap"])))
        p["batch"] = R.choice([[4], [4], [3], [2, 2], [1, 3], [1]])
        p["poison"] = R.choice([None, None, "nan", "inf"])
        p["net"] = dict(delay=R.choice([1, 3, 6]), loss=R.choice([0, 0.1, 0.3]), dup=R.choice([0, 0.1, 0.3]))
        p["netseed"] = R.randrange(10**6)
        p["faults"] = [dict(tick=R.randrange(1, 14), rep=R.randrange(3), salt=R.randint(1, 9999), down=R.randint(1, 5),
                            disk=R.choice([None, None, "torn", "lost"])) for _ in range(R.randint(0, 3))]
        p["calm"] = 30
        return p

    # ------------------------------------------------------------------ simulation

    def execute(self, plan, ctx):
        spec, S = plan["spec"], plan["sessions"]
        n = len(S)
        ev = tuple(spec.get("shape", ()))
        rng = np_rng("x", plan["s"])
        xs = zoo.draw_x(rng, (n,), ev, plan["dom"], plan.get("size", 1))
        if plan.get("special"):
            v = rng.choice([0.0, 1.0, -1.0, 3.0, -0.0], size=xs.shape)
            xs = np.where(rng.uniform(size=xs.shape) < 0.4, v, xs)
        ld0 = rng.normal(size=n)
        cs = rng.uniform(-1, 1, size=n) if zoo.needs_kw(spec) else None
        al = plan.get("arglist")

        leaves = ctx.call("construct parts", collect, spec)

        def ref(direction):
            def f(x, ld, c):
                kw = {} if cs is None or al is not None else {"c": c}
                if plan.get("d"):
                    kw["d"] = 0.5 - c
                args = None if al is None else [({"c": c * a} if a is not None else {}) for a in al]
                return compose(leaves, spec, direction, x, ld, kw, 0, args)

            return jax.jit(jax.vmap(f))

        c0 = jnp.zeros(n) if cs is None else jnp.asarray(cs)
        ys, lf = tree_np(ctx.call("parts, forward", ref("forward"), jnp.asarray(xs), jnp.asarray(ld0), c0))
        if not (np.all(np.isfinite(ys)) and np.all(np.isfinite(lf))):
            raise Violation("not-finite", f"forward of ordinary values: {show((ys, lf))}")
        # sessions that reverse first start from the image of another value
        start = [ys if s["rev"] else xs for s in S]
        start = [start[i][i] for i in range(n)]
        yr, lr = None, None
        if any(s["rev"] for s in S):
            yr, lr = tree_np(ctx.call("parts, reverse", ref("reverse"), jnp.asarray(ys), jnp.asarray(ld0), c0))
        expect = [(yr[i], lr[i]) if S[i]["rev"] else (ys[i], lf[i]) for i in range(n)]

        disk = Disk(ctx)
        first = ctx.call("construct", Replica, plan, ctx, plan["replicas"][0], 0, disk)
        disks = []
        reps = []
        for r, rp in enumerate(plan["replicas"]):
            rep = first if r == 0 else ctx.call("construct", Replica, plan, ctx, rp, 0, disk)
            d = Disk(ctx)
            d.write(0, module_state(rep.obj))
            d.write(1, module_state(rep.obj))
            disks.append(d)
            reps.append(rep)
        self.jits = {}
        nr = len(reps)
        R = np_rng("net", plan["netseed"])
        pend = sorted(copy.deepcopy(plan["faults"]), key=lambda f: f["tick"])
        down = {}
        # session state: 0 opening, 1 closing, 2 done
        stage = [0] * n
        held = [(start[i], ld0[i]) for i in range(n)]
        sent = [-99] * n
        seenrep = [None] * n
        net = []  # (deliver tick, sequence, kind, payload)
        seq = 0
        calm = plan["calm"]

        def post(tick, kind, dest, payload):
            nonlocal seq
            faulty = tick < calm
            copies = 1
            if faulty and R.random() < plan["net"]["loss"]:
                ctx.fault("message-lost")
                copies = 0
            elif faulty and R.random() < plan["net"]["dup"]:
                ctx.fault("message-duplicated")
                copies = 2
            for _ in range(copies):
                dl = int(R.integers(0, plan["net"]["delay"])) if faulty else 0
                if dl:
                    ctx.fault("message-delayed")
                net.append((tick + 1 + dl, seq, kind, dest, payload))
                seq += 1

        limit = calm + 40
        tick = 0
        while min(stage) < 2:
            tick += 1
            if tick > limit:
                raise Violation("no-progress", f"sessions not finished {limit - calm} ticks after the last fault: {stage}")
            while pend and pend[0]["tick"] <= tick:
                f = pend.pop(0)
                r = f["rep"] % nr
                if r in down:
                    continue
                if f["disk"]:
                    disks[r].write(2, module_state(reps[r].obj), f["disk"])
                ctx.fault("replica-crash")
                lost = [m for m in net if m[2] == "req" and m[3] == r and m[0] <= tick]
                for m in lost:
                    net.remove(m)
                reps[r].inbox.clear()
                down[r] = (tick + f["down"], f["salt"])
            for r, (t, salt) in list(down.items()):
                if tick >= t:
                    reps[r] = ctx.call("rebuild and restore", Replica, plan, ctx, plan["replicas"][r], salt, disks[r])
                    ctx.probe("restored")
                    del down[r]
            # clients
            for i in range(n):
                if stage[i] < 2 and tick - sent[i] > 8:
                    if sent[i] >= 0:
                        ctx.probe("resent")
                    r = int(R.integers(0, nr)) if sent[i] >= 0 else (i if stage[i] == 0 else i + 1) % nr
                    post(tick, "req", r, (i, stage[i]) + held[i])
                    sent[i] = tick
            due = sorted([m for m in net if m[0] <= tick], key=lambda m: (m[0], m[1]))
            for m in due:
                net.remove(m)
                if m[2] == "req":
                    if m[3] not in down:
                        reps[m[3]].inbox.append(m[4])
                    continue
                i, st, x, ld, r = m[4]
                if st != stage[i]:
                    ctx.probe("stale-reply-ignored")
                    continue
                held[i] = (x, ld)
                stage[i] += 1
                sent[i] = -99
                if st == 0:
                    seenrep[i] = r
                elif seenrep[i] != r:
                    ctx.probe("closed-on-other-replica")
                    ctx.state(plan["replicas"][seenrep[i]]["wrap"], plan["replicas"][r]["wrap"], S[i]["rev"], tuple(zoo.kinds(spec)))
            for r, rep in enumerate(reps):
                if r in down or not rep.inbox:
                    continue
                for direction in ("forward", "reverse"):
                    todo = [q for q in rep.inbox if ((q[1] == 0) == (not S[q[0]]["rev"])) == (direction == "forward")]
                    while todo:
                        todo = self.serve(plan, ctx, rep, r, direction, todo, xs, ys, ld0, cs, expect, start, post, tick)
                rep.inbox.clear()
        ctx.simtime = float(tick)

    def serve(self, plan, ctx, rep, r, direction, todo, xs, ys, ld0, cs, expect, start, post, tick):
        S, spec = plan["sessions"], plan["spec"]
        batch = tuple(plan["batch"])
        size = int(np.prod(batch))
        part, rest = todo[:size], todo[size:]
        pad = size - len(part)
        src = xs if direction == "forward" else ys
        rows = [np.asarray(q[2]) for q in part]
        lds = [float(q[3]) for q in part]
        cc = [0.0 if cs is None else cs[q[0]] for q in part]
        for k in range(pad):
            v = np.array(src[k % len(src)])
            if plan["poison"]:
                v = np.full_like(v, np.nan if plan["poison"] == "nan" else np.inf)
                ctx.fault("poisoned-neighbour")
            rows.append(v)
            lds.append(0.1 * k)
            cc.append(0.3)
        x = jnp.asarray(np.stack(rows)).reshape(batch + rows[0].shape)
        ld = jnp.asarray(np.array(lds)).reshape(batch)
        kw = {} if cs is None else {"c": jnp.asarray(np.array(cc)).reshape(batch)}
        if plan.get("d"):
            kw["d"] = 0.5 - kw["c"]
        rp = plan["replicas"][r]
        what = f"tick {tick} {direction} on replica {r} ({rp['wrap']}, {rp['mode']}) of {len(part)} sessions in a batch {batch}"
        y, l = tree_np(ctx.call(what, rep.run, direction, x, ld, kw, self.jits))
        if l.shape != batch:
            raise Violation("shape", f"{what}: log density shape {l.shape}")
        if y.shape[: len(batch)] != batch:
            raise Violation("shape", f"{what}: value shape {y.shape}")
        y, l = y.reshape((size,) + y.shape[len(batch):]), l.reshape(size)
        t = tol(spec)
        for k, (i, st, x0, l0) in enumerate(part):
            if st == 0:
                ex, el = expect[i]
                err = (2e-6, "not-the-composition")
            else:
                ex, el = start[i], ld0[i]
                err = (t, "round-trip")
            if y[k].shape != np.shape(ex):
                raise Violation("shape", f"{what}: value of session {i} {y[k].shape}, expected {np.shape(ex)}")
            sc = 1.0 + float(np.max(np.abs(ex))) if np.size(ex) else 1.0
            d = float(np.max(np.abs(y[k] - ex))) if np.size(ex) else 0.0
            dl = abs(float(l[k]) - float(el))
            if not d <= err[0] * sc:
                raise Violation(err[1], f"{what}: session {i} value {show(y[k])} expected {show(ex)} (off by {d:.3g})")
            if not dl <= err[0] * (1 + abs(float(el))) * max(1, np.size(ex)):
                raise Violation(err[1] + "-log-density", f"{what}: session {i} log density {l[k]!r} expected {float(el)!r}")
            ctx.probe("opened" if st == 0 else "closed")
            post(tick, "rep", -1, (i, st, y[k], float(l[k]), r))
        ctx.log(what, y[: len(part)], l[: len(part)])
        return rest

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("closed-on-other-replica"))

    def simplify(self, plan):
        yield from super().simplify(plan)
        for k, v in (("poison", None), ("size", 1), ("special", False), ("batch", [1]), ("net", dict(delay=1, loss=0, dup=0)), ("arglist", None)):
            if k in plan and plan[k] != v:
                p = copy.deepcopy(plan)
                p[k] = v
                yield p
        for i in range(len(plan["sessions"])):
            if len(plan["sessions"]) > 1:
                p = copy.deepcopy(plan)
                del p["sessions"][i]
                yield p
        for i in range(1, len(plan["replicas"])):
            if len(plan["replicas"]) > 2:
                p = copy.deepcopy(plan)
                del p["replicas"][i]
                yield p
            for k, v in (("wrap", "plain"), ("mode", "split")):
                if plan["replicas"][i][k] != v:
                    p = copy.deepcopy(plan)
                    p["replicas"][i][k] = v
                    yield p
        for s in plan["spec"].get("sub", []):
            if s.get("shape") == plan["spec"].get("shape") and s["k"] != "condshift" and plan["dom"] == "real":
                p = copy.deepcopy(plan)
                p["spec"] = s
                p["arglist"] = None
                yield p
