"""C15: training histories with skipped, interrupted, crashed, rolled-back and noisy updates.

The simulator keeps its own copy of every parameter and applies every update to it; the selection of what may
change comes from the architecture, not from the library.  Each call on the trained object is compared with a
freshly constructed object that holds the copied parameters.
"""
import copy

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax import nnx

import bijx

from . import zoo
from .buffered import key
from .core import (Disk, HarnessError, InjectedInterrupt, LineFault, Violation, module_state, np_rng, restore_state,
                   show, tree_np)
from .scenario import Scenario

SOLVERS = ("rk4", "diffrax", "cgflow", "convcnf")
TRAIN = nnx.All(nnx.Param, nnx.Not(bijx.FrozenFilter))


# ---------------------------------------------------------------- what is trainable, from the architecture


def psize(spec):
    """Number of trainable numbers of a bijection spec, worked out by hand (None: not predicted)."""
    k, sub = spec["k"], spec.get("sub", [])
    shape = tuple(spec.get("shape", ()))
    n = int(np.prod(shape)) if shape else 1
    if k in zoo.SCALAR:
        p = int(np.prod(tuple(spec.get("pshape", ())))) if spec.get("pshape") else 1
        return PER[k] * p
    if k in ("reshape", "expand", "squeeze", "flip", "maskperm", "tofourier", "free", "identity"):
        return 0
    if k == "frozen":
        return 0
    if k == "chain":
        return _sum(psize(s) for s in sub)
    if k == "scan":
        return _map(lambda v: v * spec["n"], psize(sub[0]))
    if k in ("inverse", "inverse2", "condinv", "condinv_inv", "partial", "ray"):
        return psize(sub[0])
    if k == "condshift":
        return 1
    if k == "radial":
        return _map(lambda v: v + 2 * n, psize(sub[0]))
    if k == "radcond":
        return _map(lambda v: _mlp5(n, v) + 2 * n, psize(sub[0]))
    if k == "coupling":
        per = PER[spec["inner"]]
        if not spec.get("split", True):
            return _mlp6(n, n * per)
        m = (np.indices(shape).sum(0) % 2 == int(bool(spec.get("parity", 0)))).sum()
        act = int(m) if not spec.get("fliped") else n - int(m)
        return ("either", _mlp6(n - act, act * per), _mlp6(act, (n - act) * per))
    if k == "specscale":
        return int(np.prod(shape[:-1] + (shape[-1] // 2 + 1,))) if spec.get("param") else 0
    if k in ("rk4", "diffrax", "cgflow"):
        d = shape[-1]
        return d * d + d + 1
    return None


PER = dict(affine=2, scaling=1, negscaling=1, shift=1, sinh=0, cubicrat=3, sinhconj=5, cubicconj=4, spline=14, gausscdf=2,
           sigmoid=0, tanh=0, exp=0, softplus=0, betastretch=1, tan=0, power=1)


def _mlp6(a, b):
    return a * 6 + 6 + 6 * b + b


def _mlp5(a, b):
    return a * 5 + 5 + 5 * b + b


def _map(f, s):
    if s is None:
        return None
    return (s[0], *map(f, s[1:])) if isinstance(s, tuple) else f(s)


def _sum(it):
    tot = 0
    alts = {0}
    for s in it:
        if s is None:
            return None
        opts = s[1:] if isinstance(s, tuple) else (s,)
        alts = {a + o for a in alts for o in opts}
    return ("either",) + tuple(sorted(alts)) if len(alts) > 1 else alts.pop() + tot


def dsize(spec):
    k = spec["k"]
    shape = tuple(spec.get("shape", ()))
    n = shape[-1] if shape else 1
    m = spec.get("m", 2)
    if k in ("normal", "uniform"):
        return 0
    if k == "mvn":
        return n + n * (n + 1) // 2
    if k == "diag":
        return 2 * n
    if k == "gmm_diag":
        return m * (2 * n + 1)
    if k == "gmm_full":
        return m * (n + n * (n + 1) // 2 + 1)
    if k == "mixstack":
        return m * (1 + (n + n * (n + 1) // 2 if spec["kind"] == "mvn" else 2 * n))
    if k == "transformed":
        return _sum([dsize(spec["base"]), psize(spec["bij"])])
    return None


# ---------------------------------------------------------------- state copies


def items_of(m, sel=TRAIN):
    """[(path, array)] of the selected part of the state."""
    st = nnx.state(m, sel)
    flat = jax.tree_util.tree_flatten_with_path(nnx.to_pure_dict(st))[0]
    return {jax.tree_util.keystr(p): np.array(v) for p, v in flat if v is not None}


def apply_const(m, picks):
    """Turn some parameters into constants, the way users do (module.name = Const(value))."""
    found = []
    seen = set()

    def walk(o, path):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, nnx.List) or isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                walk(v, path + (i,))
            return
        if isinstance(o, bijx.Distribution) or isinstance(o, bijx.Bijection) or isinstance(o, nnx.Module):
            for name in sorted(vars(o)):
                if name.startswith("_"):
                    continue
                v = getattr(o, name)
                if type(v) is nnx.Param:
                    found.append((o, name, v))
                elif isinstance(v, (nnx.Module, nnx.List)):
                    walk(v, path + (name,))

    walk(m, ())
    n = 0
    for r in picks:
        if found:
            o, name, v = found[int(r * len(found)) % len(found)]
            if type(getattr(o, name)) is nnx.Param:
                setattr(o, name, bijx.Const(v.get_value()))
                n += 1
    return n


class SCENARIO(Scenario):
    ID = "C15"
    TITLE = "Training changes exactly the trainable parameters and calls see the latest"
    QUICK = 60
    THOROUGH = 6000
    RULE = ("one case = one training history (updates, skipped, interrupted and crashed updates, noise, rollback, calls in "
            "several execution modes) of one distribution or flow; after every step all state is compared with the "
            "simulator's own copy and every call with a fresh object holding that copy; non-trivial if parameters "
            "changed and a call after the change was compared; distinct by event-log hash")
    REAL = ["all bijx bijections, distributions, Const, Frozen, FrozenFilter, noise_model", "flax.nnx optimizer and state", "optax"]
    STUB = ["training loop, data source with poisoned batches, checkpoint store, the simulator's parameter copy"]
    ASSUME = ["optax applies the same update to equal arrays", "central differences of the loss agree with its gradient to 1e-4 (solvers 5e-3)"]

    def generate(self, R, idx, tier):
        for _ in range(100):
            if R.random() < 0.3:
                spec = zoo.gen_dist(R, depth=0, shapes=((2,), (3,)), heavy=False, kw=False)
            else:
                base = zoo.gen_dist(R, depth=0, shapes=((2,), (3,), (2, 2)), heavy=False, kw=False)
                if base["k"] == "uniform":
                    continue
                sh = tuple(base["shape"])
                bij = zoo.gen_bij(R, sh, depth=R.choice([0, 1, 2]), heavy=R.random() < 0.5, kw=True)
                r = R.random()
                if r < 0.3:
                    bij = dict(k="chain", shape=list(sh), sub=[dict(k="frozen", shape=list(sh), sub=[zoo.gen_leaf(R, sh, heavy=False, kw=False)]), bij])
                elif r < 0.4:
                    bij = dict(k="chain", shape=list(sh), sub=[bij, dict(k="inverse", shape=list(sh), sub=[
                        dict(k="frozen", shape=list(sh), sub=[zoo.gen_leaf(R, sh, heavy=False, kw=False)])])])
                spec = dict(k="transformed", seed=R.randrange(10**6), base=base, bij=bij, shape=list(sh))
                if not zoo.tame(bij):
                    continue
            if zoo.dist_dom(spec) != "real" or set(zoo.dist_kinds(spec)) & {"flowjax", "uniform"}:
                continue
            if (dsize(spec) or 1) != 0:
                break
        L = R.randint(5, 9)
        ops = []
        for i in range(L):
            o = R.choices(["train", "call", "noise", "rollback", "save", "ckpt"], [5, 4, 1, 1, 0.7, 0.7])[0]
            if i in (0, 2):
                o = "train"
            if i == L - 1:
                o = "call"
            op = dict(o=o)
            if o == "train":
                op["fault"] = R.choices([None, "nan", "inf", "interrupt", "crash"], [6, 1, 0.7, 1.2, 0.8])[0]
                op["n"] = R.choice([1, 2, 5, 20, 60])
                op["s"] = R.randrange(10**6)
            elif o == "call":
                op["what"] = R.choice(["dens", "dens", "sample"])
                op["mode"] = R.choice(["eager", "jit", "jit", "vmap", "closure"])
                op["s"] = R.randrange(10**6)
            elif o == "noise":
                op.update(s=R.randrange(10**6), scale=R.choice([0.05, 0.1]), filter=R.choice(["default", "train", "both"]),
                          rngs=R.random() < 0.4)
            elif o == "ckpt":
                op["how"] = R.choices([None, "torn", "lost"], [4, 1, 1])[0]
            ops.append(op)
        opts = ["manual-jit", "manual-jit", "sgd", "adam", "finite"]
        if not set(zoo.dist_kinds(spec)) & set(SOLVERS):
            opts.append("manual")
        return dict(spec=spec, ops=ops, opt=R.choice(opts), s=R.randrange(10**6),
                    const=[R.random() for _ in range(R.choice([0, 0, 1, 2]))], fd=R.random() < 0.6, salt=R.randint(1, 9999))

    # ------------------------------------------------------------------ the simulated training process

    def build(self, plan, salt):
        with zoo.salted(salt):
            m = zoo.build_dist(plan["spec"])
        n = apply_const(m, plan["const"])
        return m, n

    def execute(self, plan, ctx):
        spec = plan["spec"]
        m, nconst = ctx.call("construct", self.build, plan, 0)
        twin, _ = ctx.call("construct", self.build, plan, plan["salt"])
        kw = {"c": 0.3} if spec["k"] == "transformed" and zoo.needs_kw(spec["bij"]) else {}
        full = module_state(m)
        restore_state(twin, full)
        if not nconst:
            want = dsize(spec)
            got = sum(v.size for v in items_of(m).values())
            opts = want[1:] if isinstance(want, tuple) else (want,)
            if want is not None and got not in opts:
                raise Violation("selection", f"{got} trainable numbers selected, the architecture has {opts}")
            ctx.probe("selection-size-checked")
        store = dict(full)
        train = items_of(m)  # paths that may change
        if not train:
            ctx.probe("nothing-trainable")
        tg, _ = nnx.split(twin)
        fns = {}

        def fresh(name, f, *a):
            if name not in fns:
                fns[name] = jax.jit(lambda s, *b: f(nnx.merge(tg, s), *b))
            restore_state(twin, list(store.items()))
            return tree_np(fns[name](nnx.split(twin)[1], *a))

        def dens(mm, x):
            return mm.log_density(x, **kw)

        def smp(mm, k):
            return mm.sample((3,), rng=k, **kw)

        def loss(mm, x):
            return -jnp.mean(mm.log_density(x, **kw))

        data0 = np.asarray(ctx.call("data", fresh, "smp", smp, key(plan["s"]))[0])
        if not np.all(np.isfinite(data0)):
            ctx.probe("data-not-finite")
            return
        tx = {"manual": None, "manual-jit": None,
              "sgd": optax.chain(optax.clip_by_global_norm(0.1), optax.sgd(1.0)),
              "adam": optax.adam(0.03),
              "finite": optax.apply_if_finite(optax.chain(optax.clip_by_global_norm(0.1), optax.sgd(1.0)), 1000)}[plan["opt"]]
        opt = nnx.Optimizer(m, tx, wrt=TRAIN) if tx is not None else None
        mirror = tx.init(train) if tx is not None else None
        jits = {}
        saved = dict(train)
        disk = Disk(ctx)
        disk.write(0, self.pack(store, mirror, opt))
        old = []  # (object, expected state) of objects replaced by noise_model
        changed = False
        fd_left = plan["fd"]

        def check(what, obj=None, exp=None):
            obj, exp = (m, store) if obj is None else (obj, exp)
            now = module_state(obj)
            if [p for p, _ in now] != list(exp):
                raise Violation("state-structure", f"{what}: state paths changed: {sorted(set(dict(now)) ^ set(exp))[:4]}")
            for p, v in now:
                e = exp[p]
                if v.shape != e.shape or v.dtype != e.dtype:
                    raise Violation("state-structure", f"{what}: {p} is {v.dtype}{v.shape}, was {e.dtype}{e.shape}")
                if p in train and obj is m:
                    if not np.allclose(v, e, rtol=1e-9, atol=1e-12, equal_nan=True):
                        raise Violation("wrong-update", f"{what}: {p} {show(v)} expected {show(e)}")
                elif v.tobytes() != e.tobytes():
                    raise Violation("constant-changed", f"{what}: {p} {show(e)} -> {show(v)}")

        def grads_of(x):
            if plan["opt"] == "manual":
                g, p, rest = nnx.split(m, TRAIN, ...)
                gr = jax.grad(lambda p: loss(nnx.merge(g, p, rest), x))(p)
                return nnx.to_pure_dict(gr)
            if plan["opt"] == "manual-jit":
                if "g" not in jits:
                    g, _, _ = nnx.split(m, TRAIN, ...)
                    jits["g"] = jax.jit(lambda p, rest, x: jax.grad(lambda p: loss(nnx.merge(g, p, rest), x))(p))
                _, p, rest = nnx.split(m, TRAIN, ...)
                return nnx.to_pure_dict(jits["g"](p, rest, x))
            if "g" not in jits:
                jits["g"] = nnx.jit(nnx.grad(loss, argnums=nnx.DiffState(0, TRAIN)))
            return jits["g"](m, x)

        i, steps = 0, 0
        ops = plan["ops"]
        done = set()
        while i < len(ops):
            steps += 1
            if steps > 8 * len(ops) + 20:
                raise HarnessError("too many re-executions")
            op = ops[i]
            o = op["o"]
            what = f"op {i} {o}"
            if o == "train" and train:
                rng = np_rng("d", op["s"])
                x = data0 + 0.1 * rng.normal(size=data0.shape)
                fault = op["fault"] if i not in done else None
                done.add(i)
                what += f" ({plan['opt']}, {fault})"
                if fault in ("nan", "inf"):
                    x[0] = np.nan if fault == "nan" else np.inf
                    ctx.fault("poisoned-batch-" + fault)
                x = jnp.asarray(x)
                if fault == "interrupt":
                    # the update is being traced when the interrupt arrives
                    lf = LineFault(op["n"], InjectedInterrupt, tracing=True)
                    g, p, rest = nnx.split(m, TRAIN, ...)
                    try:
                        with lf:
                            ctx.call(what, jax.eval_shape, lambda p: jax.grad(lambda p: loss(nnx.merge(g, p, rest), x))(p), p)
                    except InjectedInterrupt:
                        ctx.fault("interrupted-update")
                    check(what + " interrupted")
                elif fault == "crash":
                    ctx.fault("crash")
                    rec = disk.load()
                    m, _ = ctx.call("rebuild", self.build, plan, plan["salt"] + 1)
                    store = {p[1:]: v for p, v in rec[1] if p[0] == "m"}
                    mirror = jax.tree.unflatten(jax.tree.structure(mirror), [jnp.asarray(v) for p, v in rec[1] if p[0] == "h"])
                    restore_state(m, list(store.items()))
                    jits = {}
                    if opt is not None:
                        opt = nnx.Optimizer(m, tx, wrt=TRAIN)
                        st = nnx.state(opt, nnx.OptState)
                        nnx.update(opt, jax.tree.unflatten(jax.tree.structure(st), [jnp.asarray(v) for p, v in rec[1] if p[0] == "o"]))
                    i = rec[0]
                    check("after restart")
                    ctx.log("resume", i)
                    continue
                gr = ctx.call(what, grads_of, x)
                flat = {jax.tree_util.keystr(p): np.asarray(v) for p, v in
                        jax.tree_util.tree_flatten_with_path(nnx.to_pure_dict(gr) if isinstance(gr, nnx.State) else gr)[0] if v is not None}
                if set(flat) != set(train):
                    raise Violation("selection", f"{what}: gradients for {sorted(set(flat) ^ set(train))[:4]} missing or too many")
                check(what + " (gradient only)")
                finite = all(np.all(np.isfinite(v)) for v in flat.values())
                if finite and fd_left and fault in (None, "interrupt"):
                    fd_left = False
                    self.fd(plan, ctx, what, store, flat, fresh, loss, x)
                if not finite and plan["opt"] != "finite":
                    ctx.probe("update-skipped")  # the training loop drops invalid gradients
                elif opt is None:
                    mx = max(1e-12, max(float(np.max(np.abs(v), initial=0)) for v in flat.values()))
                    lr = 0.05 / max(mx, 1.0)
                    _, p, _ = nnx.split(m, TRAIN, ...)
                    pd = nnx.to_pure_dict(p)
                    new = jax.tree.map(lambda a, g: a - lr * g, pd, gr)
                    nnx.replace_by_pure_dict(p, new)
                    ctx.call(what, nnx.update, m, p)
                    for k in train:
                        store[k] = np.asarray(store[k] - lr * flat[k])
                    changed = True
                else:
                    ctx.call(what, opt.update, m, gr)
                    cur = {k: jnp.asarray(store[k]) for k in train}
                    up, mirror = tx.update({k: jnp.asarray(flat[k]) for k in train}, mirror, cur)
                    new = optax.apply_updates(cur, up)
                    for k in train:
                        store[k] = np.asarray(new[k])
                    if finite:
                        changed = True
                    else:
                        ctx.probe("update-skipped")
                check(what)
                # follow rounding exactly from here on
                for k, v in items_of(m).items():
                    store[k] = v
                ctx.probe("updates")
            elif o == "call":
                what += f" {op['what']} {op['mode']}"
                if op["what"] == "dens":
                    x = jnp.asarray(data0 + 0.1 * np_rng("q", op["s"]).normal(size=data0.shape))
                    want = ctx.call(what, fresh, "dens", dens, x)
                    got = ctx.call(what, self.call, m, dens, x, op["mode"], jits, "dens")
                else:
                    k = key(op["s"])
                    want = ctx.call(what, fresh, "smp", smp, k)
                    got = ctx.call(what, self.call, m, smp, k, op["mode"] if op["mode"] != "vmap" else "jit", jits, "smp")
                self.same(what, got, want)
                check(what)
                if changed:
                    ctx.probe("compared-after-change")
                ctx.log(what, *jax.tree.leaves(got))
            elif o == "noise":
                m, opt, mirror, jits = self.noise(plan, ctx, what, op, m, store, train, opt, mirror, tx, jits, old)
                changed = True
                check(what)
            elif o == "save":
                saved = {k: store[k] for k in train}
                jits["saved"] = jax.tree.map(lambda v: jnp.array(v), nnx.to_pure_dict(nnx.state(m, TRAIN)))
            elif o == "rollback" and train:
                st = nnx.state(m, TRAIN)
                if "saved" in jits:
                    nnx.replace_by_pure_dict(st, jits["saved"])
                else:
                    flat, td = jax.tree_util.tree_flatten_with_path(nnx.to_pure_dict(st))
                    nnx.replace_by_pure_dict(st, jax.tree_util.tree_unflatten(td, [jnp.asarray(saved[jax.tree_util.keystr(p)]) for p, _ in flat]))
                ctx.call(what, nnx.update, m, st)
                ctx.fault("rollback")
                for k in train:
                    store[k] = saved[k]
                changed = True
                check(what)
            elif o == "ckpt":
                disk.write(i + 1, self.pack(store, mirror, opt), op["how"])
            ctx.state(o, plan["opt"], op.get("mode"), op.get("fault"), tuple(sorted(set(zoo.dist_kinds(spec)))))
            i += 1
        for obj, exp in old:
            check("object from before noise_model", obj, exp)

    @staticmethod
    def pack(store, mirror, opt):
        """Checkpoint contents: model state, optimizer state, and the simulator's own optimizer state."""
        out = [("m" + p, v) for p, v in store.items()]
        if opt is not None:
            out += [(f"o{i}", np.array(v)) for i, v in enumerate(jax.tree.leaves(nnx.state(opt, nnx.OptState)))]
            out += [(f"h{i}", np.asarray(v)) for i, v in enumerate(jax.tree.leaves(mirror))]
        return out

    @staticmethod
    def call(m, f, x, mode, jits, name):
        if mode == "jit":
            if name not in jits:
                jits[name] = nnx.jit(f)
            return tree_np(jits[name](m, x))
        if mode == "vmap":
            return tree_np(jax.vmap(lambda v: f(m, v))(x))
        if mode == "closure":
            return tree_np(jax.jit(lambda v: f(m, v))(x))
        return tree_np(f(m, x))

    @staticmethod
    def same(what, got, want):
        for a, b in zip(jax.tree.leaves(got), jax.tree.leaves(want), strict=True):
            if a.shape != b.shape or not np.allclose(a, b, rtol=2e-6, atol=2e-6 * max(1.0, _mag(b)), equal_nan=True):
                raise Violation("stale-parameters", f"{what}: {show(a)}; a fresh object with the current parameters gives {show(b)}")

    def fd(self, plan, ctx, what, store, flat, fresh, loss, x):
        rng = np_rng("v", plan["s"])
        v = {k: rng.normal(size=g.shape) for k, g in flat.items()}
        nv = np.sqrt(sum(float((a * a).sum()) for a in v.values()))
        eps = 1e-5
        out = []
        keep = dict(store)
        for sgn in (1, -1):
            for k in flat:
                store[k] = np.asarray(keep[k] + sgn * eps * v[k] / nv)
            out.append(float(ctx.call(what, fresh, "loss", loss, x)))
        store.update(keep)
        num = (out[0] - out[1]) / (2 * eps)
        ana = sum(float((flat[k] * v[k]).sum()) for k in flat) / nv
        gn = np.sqrt(sum(float((g * g).sum()) for g in flat.values()))
        tol = 5e-3 if set(zoo.dist_kinds(plan["spec"])) & set(SOLVERS) else 1e-4
        if not np.isfinite(num):
            ctx.probe("fd-not-finite")
            return
        if abs(num - ana) > tol * max(1.0, abs(num), gn) + 1e-9 * abs(out[0]) / eps:
            raise Violation("gradient", f"{what}: derivative of the loss along a random direction {ana!r}, differences give {num!r}")
        ctx.probe("gradient-checked")

    def noise(self, plan, ctx, what, op, m, store, train, opt, mirror, tx, jits, old):
        before = module_state(m)
        rng = nnx.Rngs(op["s"]) if op["rngs"] else key(op["s"])
        fl = {"default": (), "train": (TRAIN,), "both": (nnx.Param,)}[op["filter"]]
        new = ctx.call(what, bijx.noise_model, rng, m, op["scale"], *fl)
        if new is m:
            raise Violation("noise-in-place", what)
        after = module_state(m)
        if any(a.tobytes() != b.tobytes() for (_, a), (_, b) in zip(before, after, strict=True)):
            raise Violation("noise-in-place", f"{what}: the original model changed")
        params = items_of(new, nnx.Param) if op["filter"] != "train" else {k: None for k in train}
        now = module_state(new)
        if [p for p, _ in now] != [p for p, _ in before]:
            raise Violation("state-structure", f"{what}: state paths differ")
        deltas = []
        for (p, a), (_, b) in zip(before, now):
            if a.shape != b.shape or a.dtype != b.dtype:
                raise Violation("state-structure", f"{what}: {p} {a.dtype}{a.shape} -> {b.dtype}{b.shape}")
            if p in params:
                d = (b - a) / op["scale"]
                if a.size and (np.any(d == 0) or np.max(np.abs(d)) > 7):
                    raise Violation("noise", f"{what}: {p} changed by {show(d)} standard deviations")
                deltas.extend(np.round(d.ravel(), 9).tolist())
            elif a.tobytes() != b.tobytes():
                raise Violation("constant-changed", f"{what}: {p} {show(a)} -> {show(b)}")
        # rounding of a + noise limits the comparison; equal draws for different numbers are reuse
        if len(set(deltas)) < len(deltas):
            raise Violation("noise-reused", f"{what}: the same noise added to several parameters")
        old.append((m, dict(before)))
        for p, v in now:
            store[p] = v
        if opt is not None:
            opt = nnx.Optimizer(new, tx, wrt=TRAIN)
            mirror = tx.init({k: store[k] for k in train})
        return new, opt, mirror, {k: v for k, v in jits.items() if k == "saved"}

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("compared-after-change"))

    def simplify(self, plan):
        yield from super().simplify(plan)
        for k, v in (("const", []), ("opt", "manual"), ("fd", False)):
            if plan[k] != v:
                p = copy.deepcopy(plan)
                p[k] = v
                yield p
        if plan["spec"]["k"] == "transformed":
            for s in plan["spec"]["bij"].get("sub", []):
                if s.get("shape") == plan["spec"]["shape"] and s["k"] != "condshift":
                    p = copy.deepcopy(plan)
                    p["spec"]["bij"] = s
                    yield p


def _mag(b):
    b = np.abs(b[np.isfinite(b)]) if b.size else b
    return float(b.max()) if b.size else 1.0
