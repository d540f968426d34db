"""C06: results of one request do not depend on grouping, order, neighbours or execution mode."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .buffered import key
from .core import Violation, np_rng, show, tree_np
from .scenario import Scenario

RT, AT = 2e-6, 2e-8

GROUPS = {1: [(1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1), (1, 3, 1)], 4: [(4,), (2, 2), (2, 1, 2)],
          6: [(6,), (2, 3), (3, 2), (3, 1, 2)]}


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=RT, atol=AT * max(1.0, float(np.max(np.abs(b))) if b.size and np.all(np.isfinite(b)) else 1.0), equal_nan=True)


class SCENARIO(Scenario):
    ID = "C06"
    TITLE = "Results do not depend on how requests are scheduled, grouped or executed"
    QUICK = 80
    THOROUGH = 8000
    RULE = ("one case = a queue of requests to one object and a seeded schedule that groups, orders, repeats and poisons "
            "them and chooses the execution mode of each group; every result is compared with the same request "
            "executed alone; non-trivial if at least two groups of several items were compared; distinct by event-log hash")
    REAL = ["all bijx bijections and compositions, distributions, Transformed, ModuleReconstructor/AutoVmapReconstructor, ConvVF"]
    STUB = ["request queue and its scheduler; neighbouring requests with NaN/infinite inputs as faults"]
    ASSUME = ["rounding differences between differently compiled versions of one computation stay below 2e-6 relative"]

    # ------------------------------------------------------------------ generation

    def generate(self, R, idx, tier):
        kind = R.choices(["bij", "dist", "recon", "conv"], [6, 3, 2, 0.5])[0]
        p = dict(kind=kind, s=R.randrange(10**6))
        if kind == "bij":
            if R.random() < 0.15:
                name = R.choice(list(zoo.SCALAR))
                p["dom"] = zoo.SCALAR[name][0]
                sh = R.choice([(), (2,), (2, 3)])
                p["spec"] = zoo.gen_scalar(R, sh, name, p["dom"])
            else:
                p["dom"] = "real"
                p["spec"] = zoo.gen_bij(R, R.choice(zoo.SHAPES), depth=R.choice([0, 1, 1, 2]))
        elif kind == "dist":
            p["spec"] = zoo.gen_dist(R, depth=1 if R.random() < 0.6 else 0, shapes=((2,), (3,), (2, 2)))
            p["dom"] = zoo.dist_dom(p["spec"])
        elif kind == "conv":
            p["spec"] = dict(k="convcnf", shape=[4, 4] + ([2] if R.random() < 0.4 else []), seed=R.randrange(10**6),
                             solver=R.choice(["rk4", "diffrax"]), bias=R.randrange(2))
            p["dom"] = "real"
        else:
            name = R.choice(["affine", "spline", "cubicrat", "sinhconj", "scaling", "coupling", "radial", "rk4"])
            sh = (3,) if name in ("coupling", "radial", "rk4") else R.choice([(), (2,)])
            sp = dict(k=name, shape=list(sh), pshape=list(sh) if R.random() < 0.6 else [], seed=R.randrange(10**6))
            if name == "coupling":
                sp.update(inner="affine", split=R.random() < 0.5, parity=1, fliped=0, rank=0)
            if name == "radial":
                sp["sub"] = [dict(k="ray", sub=[dict(k="affine", pshape=[], seed=3)])]
            if name == "rk4":
                sp.update(auto=0, steps=4)
            p.update(spec=sp, dom="real", rep=R.choice(["array", "dict", "list", "state"]),
                     native=len(sh) == 0 and R.random() < 0.4)
        n = R.choice([4, 5, 6])
        p["n"] = n
        p["kw"] = R.random() < 0.5
        ops = []
        for _ in range(R.randint(3, 5)):
            m = R.choice([1, 2, 3, 4, 4, 6])
            ops.append(dict(o=R.choice(["fwd", "fwd", "rev"]), items=[R.randrange(n) for _ in range(m)],
                            shape=list(R.choice(GROUPS[m])), ld=R.random() < 0.7,
                            mode=R.choice(["eager", "jit", "jit", "vmap", "scan", "split", "map"]),
                            poison=R.choice([None, None, None, "nan", "inf", "zero"])))
        p["ops"] = ops
        return p

    # ------------------------------------------------------------------ systems

    def execute(self, plan, ctx):
        getattr(self, "run_" + ("recon" if plan["kind"] == "recon" else "dist" if plan["kind"] == "dist" else "bij"))(plan, ctx)

    def kw_items(self, plan, spec_has):
        n = plan["n"]
        if not spec_has:
            return None
        c = np_rng("c", plan["s"]).uniform(-1, 1, size=n)
        return c if plan["kw"] else np.full(n, c[0])

    def run_bij(self, plan, ctx):
        spec, n = plan["spec"], plan["n"]
        m = ctx.call("construct", zoo.build, spec)
        ref = zoo.build(spec)
        ev = tuple(spec.get("shape", ()))
        rng = np_rng("x", plan["s"])
        xs = zoo.draw_x(rng, (n,), ev, plan["dom"])
        lds = rng.normal(size=n)
        c0 = zoo.center_of(spec, ref)
        centred = c0 is not None and plan["s"] % 2
        if centred:
            # one item lies exactly on the centre of the (first) radial layer
            xs[0] = c0
            ctx.fault("item-on-centre")
        cs = self.kw_items(plan, zoo.needs_kw(spec))

        def alone(mm, direction):
            def f(x, c):
                kw = {} if cs is None else {"c": c}
                return getattr(mm, direction)(x, jnp.zeros(()), **kw)

            return jax.jit(f)

        def ref_all(direction, ins):
            f = alone(ref, direction)
            out = [tree_np(f(jnp.asarray(ins[i]), jnp.asarray(0.0 if cs is None else cs[i]))) for i in range(n)]
            return out

        fw = ctx.call("isolated forward", ref_all, "forward", xs)
        for i, (y, ld) in enumerate(fw):
            if np.shape(ld) != ():
                raise Violation("ld-shape", f"isolated forward of item {i}: log density shape {np.shape(ld)}")
        refs = {"fwd": (xs, fw)}
        for i, op in enumerate(plan["ops"]):
            o = op["o"]
            what = f"op {i} {o} {op['mode']} items {op['items']} as {op['shape']}"
            if o == "rev" and o not in refs:
                ys = np.stack([y for y, _ in fw])
                refs["rev"] = (ys, ctx.call("isolated reverse", ref_all, "reverse", ys))
            ins, outs = refs[o]
            items = [j % n for j in op["items"]]
            batch = tuple(op["shape"])
            x = np.stack([ins[j] for j in items])
            ld = np.array([lds[j] if op["ld"] else 0.0 for j in items])
            c = None if cs is None else np.array([cs[j] for j in items])
            clean = list(range(len(items)))
            if centred and o == "rev" and spec["k"] == "chain":
                # rounding in later layers decides the direction of the image of the centre
                clean = [k for k in clean if items[k] != 0]
            if op["poison"] and len(items) > 1:
                v = {"nan": np.nan, "inf": np.inf, "zero": 0.0}[op["poison"]]
                x[0] = v
                clean = [k for k in clean if k]
                ctx.fault("poisoned-neighbour-" + op["poison"])
            got = ctx.call(what, self.group, m, {"fwd": "forward", "rev": "reverse"}[o], x.reshape(batch + x.shape[1:]),
                           ld.reshape(batch), None if c is None else c.reshape(batch), batch, op["mode"])
            y, l = (np.asarray(v) for v in got)
            ey = np.asarray(outs[0][0]).shape
            if l.shape != batch:
                raise Violation("ld-shape", f"{what}: log density shape {l.shape}, batch {batch}")
            if y.shape != batch + ey:
                raise Violation("value-shape", f"{what}: {y.shape}, expected {batch + ey}")
            y, l = y.reshape((len(items),) + ey), l.reshape(len(items))
            for k in clean:
                j = items[k]
                if not near(y[k], outs[j][0]):
                    raise Violation("value-depends-on-grouping", f"{what}: item {j} at place {k}: {show(y[k])} alone {show(outs[j][0])}")
                if not near(l[k], ld[k] + outs[j][1]):
                    raise Violation("ld-depends-on-grouping", f"{what}: item {j} at place {k}: {l[k]!r} expected {ld[k]!r} + {outs[j][1]!r}")
            if len(items) > 1:
                ctx.probe("groups-compared")
            ctx.log(what, y, l)
            ctx.state(o, op["mode"], batch, op["poison"], tuple(zoo.kinds(spec)) if "sub" in spec or True else ())

    @staticmethod
    def group(m, method, x, ld, c, batch, mode):
        """Execute one group of requests in the given mode; vectorised modes consume the leading axis."""
        x, ld = jnp.asarray(x), jnp.asarray(ld)
        kw = {} if c is None else {"c": jnp.asarray(c)}

        def call(mm, x, ld, kw):
            return getattr(mm, method)(x, ld, **kw)

        if mode == "eager":
            return call(m, x, ld, kw)
        if mode == "jit":
            return nnx.jit(call)(m, x, ld, kw)
        if mode == "split":
            graph, state = nnx.split(m)
            return jax.jit(lambda s, x, ld, kw: call(nnx.merge(graph, s), x, ld, kw))(state, x, ld, kw)
        if mode == "vmap":
            return jax.vmap(lambda x, ld, kw: call(m, x, ld, kw))(x, ld, kw)
        if mode == "scan":
            return jax.lax.scan(lambda carry, a: (carry, call(m, *a)), 0, (x, ld, kw))[1]
        if mode == "map":
            return jax.lax.map(lambda a: call(m, *a), (x, ld, kw))
        raise KeyError(mode)

    def run_dist(self, plan, ctx):
        spec, n = plan["spec"], plan["n"]
        m = ctx.call("construct", zoo.build_dist, spec)
        ref = zoo.build_dist(spec)
        ev = tuple(spec.get("shape", ()))
        rng = np_rng("x", plan["s"])
        has_kw = spec["k"] == "transformed" and "condshift" in zoo.dist_kinds(spec)
        cs = self.kw_items(plan, has_kw)
        f = jax.jit(lambda x, c: ref.log_density(x, **({} if cs is None else {"c": c})))
        # stay inside the support: evaluate at samples
        kw0 = {} if cs is None else {"c": jnp.asarray(cs)}
        xs = np.asarray(ctx.call("sample", ref.sample, (n,), rng=key(plan["s"]), **kw0)[0])
        out = [np.asarray(f(jnp.asarray(xs[i]), jnp.asarray(0.0 if cs is None else cs[i]))) for i in range(n)]
        smp = {}
        for i, op in enumerate(plan["ops"]):
            items = [j % n for j in op["items"]]
            batch, mode = tuple(op["shape"]), op["mode"]
            what = f"op {i} log_density {mode} items {items} as {batch}"
            if op["o"] == "rev":
                # sampling: the same request in every mode
                def call(mm, k, kw):
                    return mm.sample(batch, rng=k, **kw)

                c = None if cs is None else np.array([cs[j] for j in items]).reshape(batch)
                kw = {} if c is None else {"c": jnp.asarray(c)}
                k = key(plan["s"] + 1)
                want = smp.get((batch, tuple(items)))
                if want is None:
                    want = smp[batch, tuple(items)] = tree_np(ctx.call("sample", call, ref, k, kw))
                    if mode == "eager":
                        mode = "jit"
                what = f"op {i} sample {batch} {mode}"
                if mode in ("vmap", "scan", "map"):
                    g = jax.vmap(lambda k: call(m, k, kw)) if mode == "vmap" else (lambda ks: jax.lax.map(lambda k: call(m, k, kw), ks))
                    got = ctx.call(what, g, jnp.stack([key(5), k]))
                    got = jax.tree.map(lambda v: v[1], got)
                elif mode == "split":
                    graph, state = nnx.split(m)
                    got = ctx.call(what, jax.jit(lambda s, k, kw: call(nnx.merge(graph, s), k, kw)), state, k, kw)
                else:
                    got = ctx.call(what, nnx.jit(call) if mode == "jit" else call, m, k, kw)
                x, l = tree_np(got)
                if x.shape != batch + ev or l.shape != batch:
                    raise Violation("sample-shape", f"{what}: {x.shape} {l.shape}")
                if not near(x, want[0]) or not near(l, want[1]):
                    raise Violation("sample-depends-on-mode", f"{what}: {show((x, l))} expected {show(want)}")
                ctx.log(what, x, l)
                continue
            x = np.stack([xs[j] for j in items])
            c = None if cs is None else np.array([cs[j] for j in items]).reshape(batch)
            clean = list(range(len(items)))
            if op["poison"] and len(items) > 1:
                x[0] = {"nan": np.nan, "inf": np.inf, "zero": 0.0}[op["poison"]]
                clean = clean[1:]
                ctx.fault("poisoned-neighbour-" + op["poison"])
            x = x.reshape(batch + ev)
            got = np.asarray(ctx.call(what, self.dens, m, jnp.asarray(x), c, mode))
            if got.shape != batch:
                raise Violation("ld-shape", f"{what}: {got.shape}")
            g = got.reshape(-1)
            for k in clean:
                if not near(g[k], out[items[k]]):
                    raise Violation("ld-depends-on-grouping", f"{what}: item {items[k]} at place {k}: {g[k]!r} alone {out[items[k]]!r}")
            if len(items) > 1:
                ctx.probe("groups-compared")
            ctx.log(what, got)
            ctx.state("dens", mode, batch, op["poison"], tuple(sorted(set(zoo.dist_kinds(spec)))))

    @staticmethod
    def dens(m, x, c, mode):
        kw = {} if c is None else {"c": jnp.asarray(c)}

        def call(mm, x, kw):
            return mm.log_density(x, **kw)

        if mode == "jit":
            return nnx.jit(call)(m, x, kw)
        if mode == "split":
            graph, state = nnx.split(m)
            return jax.jit(lambda s, x, kw: call(nnx.merge(graph, s), x, kw))(state, x, kw)
        if mode == "vmap":
            return jax.vmap(lambda x, kw: call(m, x, kw))(x, kw)
        if mode in ("scan", "map"):
            return jax.lax.map(lambda a: call(m, *a), (x, kw))
        return call(m, x, kw)

    # ------------------------------------------------------------------ per-item parameters

    def run_recon(self, plan, ctx):
        spec, n = plan["spec"], plan["n"]
        ev = tuple(spec["shape"])
        tmpl = ctx.call("reconstructor", bijx.ModuleReconstructor, zoo.build(spec))
        rng = np_rng("p", plan["s"])
        base = nnx.state(zoo.build(spec), nnx.Param)
        per = [jax.tree.map(lambda v: jnp.asarray(np.asarray(v) + 0.2 * rng.uniform(-1, 1, size=np.shape(v))), base) for _ in range(n)]
        xs = zoo.draw_x(rng, (n,), ev, "real")
        lds = rng.normal(size=n)
        # reference: a module holding the item's own parameters
        mods = []
        for st in per:
            b = zoo.build(spec)
            nnx.update(b, st)
            mods.append(b)
        graph, _ = nnx.split(mods[0])
        f = jax.jit(lambda s, x: nnx.merge(graph, s).forward(x, jnp.zeros(())))
        g = jax.jit(lambda s, x: nnx.merge(graph, s).reverse(x, jnp.zeros(())))
        fw = [tree_np(f(nnx.state(b), jnp.asarray(xs[i]))) for i, b in enumerate(mods)]
        rv = None
        for i, op in enumerate(plan["ops"]):
            items = [j % n for j in op["items"]]
            batch = tuple(op["shape"])
            o, mode = op["o"], op["mode"]
            what = f"op {i} {o} with per-item parameters ({plan['rep']}) {mode} items {items} as {batch}"
            if o == "rev" and rv is None:
                rv = [tree_np(g(nnx.state(b), jnp.asarray(fw[k][0]))) for k, b in enumerate(mods)]
            ins = xs if o == "fwd" else np.stack([y for y, _ in fw])
            outs = fw if o == "fwd" else rv
            x = jnp.asarray(np.stack([ins[j] for j in items]).reshape(batch + ev))
            ld = jnp.asarray(np.array([lds[j] for j in items]).reshape(batch))
            st = jax.tree.map(lambda *v: jnp.stack(v).reshape(batch + v[0].shape), *[per[j] for j in items])
            params = ctx.call("representation", self.represent, tmpl, st, batch, plan["rep"])
            method = {"fwd": "forward", "rev": "reverse"}[o]

            def call(params, x, ld):
                if plan["native"]:
                    return getattr(tmpl.from_params(params), method)(x, ld)
                r = tmpl.from_params(params, autovmap=True)
                if plan["s"] % 2:
                    return getattr(r, method)(x, ld, input_ranks=(len(ev), 0))
                return r(method, x, ld, input_ranks=(len(ev), 0))

            if mode in ("eager", "split"):
                got = ctx.call(what, call, params, x, ld)
            elif mode == "jit":
                got = ctx.call(what, jax.jit(call), params, x, ld)
            elif mode == "vmap":
                got = ctx.call(what, jax.vmap(call), params, x, ld)
            else:
                got = ctx.call(what, jax.lax.map, lambda a: call(*a), (params, x, ld))
            y, l = tree_np(got)
            if l.shape != batch or y.shape != batch + ev:
                raise Violation("ld-shape", f"{what}: {y.shape} {l.shape}")
            y, l = y.reshape((len(items),) + ev), l.reshape(-1)
            for k, j in enumerate(items):
                if not near(y[k], outs[j][0]) or not near(l[k], lds[j] + outs[j][1]):
                    raise Violation("parameters-of-other-item", f"{what}: item {j} at place {k}: {show((y[k], l[k]))} alone "
                                                                f"{show((outs[j][0], lds[j] + outs[j][1]))}")
            if len(items) > 1:
                ctx.probe("groups-compared")
            ctx.log(what, y, l)
            ctx.state("recon", o, mode, batch, plan["rep"], spec["k"])

    @staticmethod
    def represent(tmpl, st, batch, rep):
        if rep == "state":
            return st
        if rep == "dict":
            return nnx.to_pure_dict(st)
        leaves = jax.tree.leaves(st)
        if rep == "list":
            return leaves
        return jnp.concatenate([v.reshape(batch + (-1,)) for v in leaves], axis=-1)

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("groups-compared", 0) >= 2

    def simplify(self, plan):
        yield from super().simplify(plan)
        for i, op in enumerate(plan["ops"]):
            for k, v in (("mode", "eager"), ("poison", None), ("ld", False)):
                if op[k] != v:
                    p = copy.deepcopy(plan)
                    p["ops"][i][k] = v
                    yield p
            if len(op["shape"]) > 1 or len(op["items"]) > 1:
                for m in (1, 2):
                    if m < len(op["items"]) or len(op["shape"]) > 1:
                        p = copy.deepcopy(plan)
                        p["ops"][i]["items"] = op["items"][:m]
                        p["ops"][i]["shape"] = [len(op["items"][:m])]
                        yield p
        sp = plan["spec"]
        if plan["kind"] == "bij":
            for s in sp.get("sub", []):
                if s.get("shape") == sp.get("shape"):
                    p = copy.deepcopy(plan)
                    p["spec"] = s
                    yield p
