"""C01: buffered sampling against a list-of-pending-draws reference model."""
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from .buffered import Model, check_draw, gen_base, interpreted, key, make_base
from .core import Disk, Violation, close, module_state, restore_state, same_state, show, tree_np
from .scenario import Scenario


class SCENARIO(Scenario):
    ID = "C01"
    TITLE = "Buffered sampling hands out every pre-computed draw once, in order"
    QUICK = 170
    THOROUGH = 16000
    RULE = ("one case = one history of single draws (implicit or explicit key, keyword arguments), bursts, batch "
            "requests, density evaluations, forks (clone), checkpoint/rebuild/restore, over a base distribution, "
            "buffer size and execution mode drawn from the seed; non-trivial if at least one refill after the first "
            "or a draw from a partly used buffer was checked against the model; distinct by the hash of the whole "
            "event log, results included")
    REAL = ["bijx.BufferedSampler", "bijx.Distribution and all normal, uniform, mixture and transformed bases",
            "flax.nnx split/merge/clone/cond/jit", "jax"]
    STUB = ["scripted base distribution (half of the runs): unique, attributable draws"]
    ASSUME = ["JAX evaluates a given computation deterministically on this CPU",
              "interpreted mode is jax.disable_jit(); compiled modes are covered in the jit/eager/scan runs"]

    def generate(self, R, idx, tier):
        base = gen_base(R)
        n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16] if base["k"] == "scripted" else [1, 2, 2, 3, 3, 5])
        mode = R.choices(["fast", "jit", "eager", "scan"], [6, 2.5, 0.7, 1.2])[0]
        ops = []
        length = R.randint(4, 14) if mode != "eager" else R.randint(3, 5)
        wkey = R.choice([0.0, 0.3, 0.8, 1.0])
        reps = 1

        def k():
            return R.randrange(10**6) if R.random() < wkey else None

        for _ in range(length):
            o = R.choices(["draw", "burst", "batch", "dens", "fork", "ckpt", "split"],
                          [6, 2.5, 1.5, 1.2, 0.8, 0.8, 0.8])[0]
            r = R.randrange(reps)
            if o == "draw":
                ops.append(dict(o="draw", r=r, key=k(), tag=R.choice([None, None, None, 1.0, 2.0])))
            elif o == "burst":
                ops.append(dict(o="burst", r=r, key=k(), m=R.randint(2, 2 * n + 1) if mode != "eager" else 2))
            elif o == "batch":
                ops.append(dict(o="batch", r=r, key=k(), shape=R.choice([[1], [2], [n], [2, 2], [0 + 3]])))
            elif o == "dens":
                ops.append(dict(o="dens", r=r, key=R.randrange(10**6)))
            elif o == "fork" and reps < 3:
                ops.append(dict(o="fork", r=r))
                reps += 1
            elif o == "ckpt":
                ops.append(dict(o="ckpt", r=r, seed=R.randrange(10**6)))
            elif o == "split":
                ops.append(dict(o="split", r=r, key=k()))
        if mode == "scan":
            ops.append(dict(o="burst", r=0, key=k(), m=n + 1))
        if not ops:
            ops.append(dict(o="draw", r=0, key=None, tag=None))
        return dict(base=base, n=n, seed=R.randrange(10**6), mode=mode, ops=ops)

    # -------------------------------------------------------------- execution

    def execute(self, plan, ctx):
        n = max(1, int(plan["n"]))
        base = ctx.call("construct base", make_base, plan["base"], plan["seed"])
        before = module_state(base)
        with interpreted():
            sam = ctx.call("BufferedSampler()", bijx.BufferedSampler, base, n)
        ok, why = same_state(before, module_state(base))
        if not ok:
            raise Violation("construction-side-effect", why)
        reps = [(sam, Model(plan["base"], n, plan["seed"]))]
        self.jits = {}
        self.partial_draws = 0
        mode = plan["mode"]
        scripted = plan["base"]["k"] == "scripted"
        for i, op in enumerate(plan["ops"]):
            ri = op["r"] % len(reps)
            s, m = reps[ri]
            what = f"op {i} {op['o']} replica {ri}"
            o = op["o"]
            kw = {"tag": op["tag"]} if (op.get("tag") and scripted) else {}
            if o == "draw":
                self.one(ctx, s, m, op["key"], kw, mode, what)
            elif o == "burst":
                if mode == "scan":
                    self.scan(ctx, s, m, op["key"], op["m"], what)
                else:
                    for j in range(op["m"]):
                        kk = None if op["key"] is None else op["key"] + j
                        self.one(ctx, s, m, kk, {}, mode, f"{what}[{j}]")
            elif o == "batch":
                shape = tuple(op["shape"])
                kk = None if op["key"] is None else key(op["key"])
                snap = self.buf(s)
                with interpreted():
                    got = ctx.call(what, s.sample, shape, rng=kk)
                    want = m.twin.sample(shape, rng=kk)
                check_draw("batch-mismatch", tree_np(got), tree_np(want), what)
                self.untouched(s, snap, what)
                ctx.log("batch", shape, *jax.tree.leaves(tree_np(got)))
            elif o == "dens":
                snap = module_state(s)
                with interpreted():
                    x, _ = make_base(plan["base"], 0).sample((3,), rng=key(op["key"]))
                    got = ctx.call(what, s.log_density, x)
                    want = m.twin.log_density(x)
                    bs = ctx.call(what, s.get_batch_shape, x)
                if not close(got, want, 1e-8, 1e-9):
                    raise Violation("density-mismatch", f"{what}: {show(got)} vs {show(want)}")
                if tuple(bs) != (3,):
                    raise Violation("density-mismatch", f"{what}: batch shape {bs}")
                ok, why = same_state(snap, module_state(s))
                if not ok:
                    raise Violation("density-side-effect", f"{what}: {why}")
                ctx.log("dens", np.asarray(got))
            elif o == "fork":
                reps.append((ctx.call(what, nnx.clone, s), m.fork()))
                ctx.log("fork", len(reps))
            elif o == "split":
                graph, st = nnx.split(s)
                c = nnx.merge(graph, st)
                with interpreted():
                    got = ctx.call(what, c.sample, rng=None if op["key"] is None else key(op["key"]))
                self.verify(ctx, got, m, op["key"], {}, what)
                nnx.update(s, nnx.split(c)[1])
            elif o == "ckpt":
                disk = Disk(ctx)
                disk.write(i, module_state(s))
                fresh = bijx.BufferedSampler(make_base(plan["base"], op["seed"]), n)
                with interpreted():
                    ctx.call(what, fresh.sample)  # used before the restore: nothing of it may survive
                restore_state(fresh, disk.load()[1])
                reps[ri] = (fresh, m)
                ctx.probe("restored")
                ctx.log("ckpt")
            if scripted and o not in ("fork", "dens"):
                s2 = reps[ri][0]
                c1, c2 = int(s2.dist.count.get_value()), int(m.twin.count.get_value())
                if c1 != c2:
                    raise Violation("refill-count", f"{what}: wrapped distribution produced {c1 - 1} implicit batches, expected {c2 - 1}")
            ctx.state(plan["base"]["k"], n, mode, o, [len(mm.pending) for _, mm in reps][:3], ri)

    @staticmethod
    def buf(s):
        return [(p, v) for p, v in module_state(s) if "buffer" in p]

    def untouched(self, s, snap, what):
        ok, why = same_state(snap, self.buf(s))
        if not ok:
            raise Violation("pending-draws-changed", f"{what}: {why}")

    def one(self, ctx, s, m, k, kw, mode, what):
        rng = None if k is None else key(k)
        if mode == "jit":
            f = self.jits.get((k is None, bool(kw)))
            if f is None:
                f = nnx.jit((lambda mm, kw: mm.sample(**kw)) if k is None else (lambda mm, r, kw: mm.sample(rng=r, **kw)))
                self.jits[(k is None, bool(kw))] = f
            got = ctx.call(what, f, s, kw) if k is None else ctx.call(what, f, s, rng, kw)
        elif mode == "eager":
            got = ctx.call(what, s.sample, rng=rng, **kw)
        else:
            with interpreted():
                got = ctx.call(what, s.sample, rng=rng, **kw)
        self.verify(ctx, got, m, k, kw, what)

    def verify(self, ctx, got, m, k, kw, what):
        if m.pending and len(m.pending) < m.n:
            ctx.probe("draw-from-partly-used-buffer")
        elif m.pending == [] and m.refills:
            ctx.probe("refill-after-exhaustion")
        want = m.draw(None if k is None else key(k), kw)
        check_draw("draw-mismatch", tree_np(got), want, f"{what}, {len(m.pending)} of {m.n} left")
        ctx.log("draw", len(m.pending), *jax.tree.leaves(tree_np(got)))

    def scan(self, ctx, s, m, k, length, what):
        f = self.jits.get(("scan", k is None))
        if f is None:

            @nnx.jit
            def f(mm, keys):
                graph, st = nnx.split(mm)

                def step(c, kk):
                    x = nnx.merge(graph, c)
                    d = x.sample(rng=kk) if k is not None else x.sample()
                    return nnx.split(x)[1], d

                st, ds = jax.lax.scan(step, st, keys)
                nnx.update(mm, st)
                return ds

            self.jits[("scan", k is None)] = f
        keys = jax.vmap(jax.random.key)(jnp.arange(length) + (k or 0))
        ds = tree_np(ctx.call(what, f, s, keys))
        if type(ds) is not tuple or len(ds) != 2:
            raise Violation("result-structure", f"{what}: {type(ds).__name__}")
        for j in range(length):
            got = jax.tree.map(lambda a: a[j], ds)
            self.verify(ctx, got, m, None if k is None else k + j, {}, f"{what}[{j}]")
        ctx.probe("scan")

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("draw-from-partly-used-buffer") or ctx.probes.get("refill-after-exhaustion"))

    def simplify(self, plan):
        import copy

        yield from super().simplify(plan)
        if plan["mode"] != "fast":
            p = copy.deepcopy(plan)
            p["mode"] = "fast"
            yield p
        for n in (1, 2, 3):
            if n < plan["n"]:
                p = copy.deepcopy(plan)
                p["n"] = n
                yield p
        if plan["base"]["k"] != "scripted":
            p = copy.deepcopy(plan)
            p["base"] = dict(k="scripted", form="array", seed=0)
            yield p
        for i, op in enumerate(plan["ops"]):
            if op.get("m", 0) > 2:
                p = copy.deepcopy(plan)
                p["ops"][i]["m"] = op["m"] // 2
                yield p
