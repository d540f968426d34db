"""C13: reported log densities against the density implied by the sampling map, with scripted randomness."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .core import Disk, Violation, module_state, np_rng, restore_state, tree_np
from .scenario import Scenario

REAL = {n: getattr(jax.random, n) for n in ("normal", "uniform")}


class Scripted:
    """Replaces the primitive continuous draws by scripted outcomes (plus a perturbation)."""

    def __init__(self, seed, style, delta=None, values=None):
        self.seed, self.style, self.delta, self.values = seed, style, delta, values
        self.draws = []
        self.off = 0

    def _make(self, name):
        def draw(key, shape=(), dtype=None, *a, **k):
            if a or k:
                return REAL[name](key, shape, *([] if dtype is None else [dtype]), *a, **k)
            shape = tuple(shape)
            i = len(self.draws)
            if self.values is None:
                r = np_rng("draw", self.seed, i, name)
                if name == "normal":
                    z = r.normal(size=shape)
                    z = {"plain": z, "zero": 0.05 * z, "far": np.sign(z) * (1.8 + 0.6 * np.abs(z)).clip(max=3.2)}[self.style]
                else:
                    z = r.uniform(size=shape)
                    z = {"plain": 0.02 + 0.96 * z, "zero": 0.5 + 0.02 * (z - 0.5), "far": np.where(z < 0.5, 0.004 + 0.01 * z, 0.996 - 0.01 * (1 - z))}[self.style]
            else:
                z = self.values[i][1]
            self.draws.append((name, z))
            if self.delta is not None:
                n = z.size
                z = z + self.delta[self.off:self.off + n].reshape(shape)
                self.off += n
            return jnp.asarray(z)
        return draw

    def __enter__(self):
        for n in REAL:
            setattr(jax.random, n, self._make(n))
        return self

    def __exit__(self, *a):
        for n, v in REAL.items():
            setattr(jax.random, n, v)


def base_log_density(draws, batch):
    """Independent density of the scripted outcomes, one value per item."""
    tot = np.zeros(batch)
    for name, z in draws:
        ax = tuple(range(len(batch), z.ndim))
        if name == "normal":
            tot = tot + np.sum(-0.5 * z**2 - 0.5 * np.log(2 * np.pi), axis=ax)
        else:
            tot = tot + np.where(np.all((z >= 0) & (z <= 1), axis=ax), 0.0, -np.inf)
    return tot


def bottom(spec):
    while "base" in spec:
        spec = spec["base"]
    return spec


MIX = ("gmm_diag", "gmm_full", "mixstack")


class SCENARIO(Scenario):
    ID = "C13"
    TITLE = "A sample's reported log density is its true density for every random outcome"
    QUICK = 50
    THOROUGH = 8000
    RULE = ("one case = a session of draws and evaluations on one randomly composed distribution under scripted random outcomes "
            "(ordinary, degenerate and far-tail), training steps and restarts; every reported log density is compared with the one "
            "evaluated for the sample and with the one implied by the sampling map (finite differences of the map from scripted "
            "draws to samples); non-trivial when an implied density was checked or a mixture formula was; distinct by event-log hash")
    REAL = ["all distributions and samplers", "all bijections the compositions use", "JAX compiler"]
    STUB = ["jax.random.normal/uniform (scripted outcomes)", "user-defined conditional bijections", "checkpoint store"]
    ASSUME = ["finite differences with two step sizes; cases where they disagree by more than 2e-5 are skipped and counted"]

    def generate(self, R, idx, tier):
        if R.random() < 0.12:
            dist = dict(k="haar", n=R.choice([2, 3]), base=R.choice([[], [2]]))
        else:
            big = {"shapes": R.choice([((3, 4),), ((3, 3),), ((4, 4),), ((6,),), ((2, 2, 3),)])} if R.random() < 0.25 else {}
            dist = zoo.gen_dist(R, depth=R.choice([0, 1, 1, 1, 2]), kw=True, **big)
            if bottom(dist)["k"] in ("mvn", "diag") and R.random() < 0.5:
                bottom(dist)["trained"] = 1
            for b in [dist]:
                if b["k"] == "transformed" and R.random() < 0.25:
                    sh = b["shape"]
                    b["bij"] = dict(k="chain", sub=[b["bij"], dict(k="condshift", seed=R.randrange(10**6), shape=sh, sc=R.randrange(2))], shape=sh)
        ops = []
        for _ in range(R.randint(2, 4)):
            ops.append(dict(op=R.choices(["draw", "train", "restart", "kwdraw"], [5, 1, 0.8, 1])[0], batch=R.choice([[], [3], [3], [2, 2], [1]]),
                            mode=R.choice(["eager", "jit", "jit"]), style=R.choice(["plain", "plain", "far", "zero"]),
                            key=R.randrange(100), implicit=R.random() < 0.25, c=R.choice([None, 0.4, -0.9, "batch"])))
        ops.append(dict(op="draw", batch=R.choice([[], [3]]), mode="jit", style="plain", key=R.randrange(100), implicit=False, c=R.choice([None, 0.4])))
        return dict(dist=dist, ops=ops, seed=R.randrange(10**6), law=R.random() < 0.4)

    def execute(self, plan, ctx):
        spec = plan["dist"]
        ctx.checked = 0
        rngs = lambda: nnx.Rngs(plan["seed"] % 1000)  # noqa: E731
        dist = ctx.call("construct", zoo.build_dist, spec, 0, rngs())
        box = [dist]
        event = (tuple(spec.get("base", ())) + (spec["n"], spec["n"])) if spec["k"] == "haar" else tuple(spec["shape"])
        kinds = zoo.dist_kinds(spec) if spec["k"] != "haar" else ["haar"]
        condit = "condshift" in kinds and not spec["k"] == "haar"
        disk = Disk(ctx)
        mixture = bottom(spec)["k"] in MIX if spec["k"] != "haar" else False

        def save(i):
            disk.write(i, [(q, np.array(v)) for q, v in module_state(box[0])])

        def kwargs(op):
            if op["c"] is None or not condit:
                return {}
            c = np_rng("c", op["key"]).uniform(-1, 1, size=op["batch"]) if op["c"] == "batch" else op["c"]
            return {"c": jnp.asarray(c)}

        def sample_fn(op):
            graph, st = nnx.split(box[0])
            bs = tuple(op["batch"])

            def go(st, key, kw):
                d = nnx.merge(graph, st)
                return d.sample(bs, rng=key, **kw)
            return go, st

        def draw(op, kw, script):
            key = jax.random.key(op["key"])
            with script:
                if op["implicit"]:
                    return tree_np(box[0].sample(tuple(op["batch"]), **kw))
                go, st = sample_fn(op)
                f = jax.jit(go) if op["mode"] == "jit" else go
                return tree_np(f(st, key, kw))

        def evaluate(op, x, kw):
            graph, st = nnx.split(box[0])
            f = lambda st, x, kw: nnx.merge(graph, st).log_density(x, **kw)  # noqa: E731
            return np.asarray((jax.jit(f) if op["mode"] == "jit" else f)(st, jnp.asarray(x), kw))

        save(-1)
        for i, op in enumerate(plan["ops"]):
            what = f"op {i} {op['op']} {op['mode']} batch {op['batch']} {op['style']}"
            if op["op"] == "train":
                p = nnx.state(box[0], nnx.Param)
                r = np_rng("train", plan["seed"], i)
                nnx.update(box[0], jax.tree.map(lambda v: v + 0.05 * r.normal(size=np.shape(v)) if np.issubdtype(v.dtype, np.floating) else v, p))
                save(i)
                ctx.log(what)
                continue
            if op["op"] == "restart":
                ctx.fault("crash-restart")
                with zoo.salted(3 + i):
                    new = zoo.build_dist(spec, 1, rngs())
                rec = disk.load()
                new = zoo.build_dist(spec, 0, rngs()) if spec["k"] == "haar" else new
                restore_state(new, list(rec[1]))
                box[0] = new
                ctx.log(what)
                continue
            kw = kwargs(op)
            script = Scripted((plan["seed"], i), op["style"])
            if mixture:
                x, ld = ctx.call(what, draw, op, kw, contextless())
            else:
                x, ld = ctx.call(what, draw, op, kw, script)
            bs = tuple(op["batch"])
            if x.shape != bs + event or ld.shape != bs:
                raise Violation("wrong-shape", f"{what}: sample {x.shape}, log density {ld.shape}; expected {bs + event}, {bs}")
            if not np.all(np.isfinite(x)) or not np.all(np.isfinite(ld)):
                raise Violation("not-finite", f"{what}: {x.ravel()[:3]} {ld.ravel()[:3]}")
            l2 = ctx.call(what + " log_density", evaluate, op, x, kw)
            tol = 1e-6 * (1 + np.abs(ld).max())
            if {"rk4", "diffrax", "cgflow"} & set(kinds):
                tol *= 500
            if l2.shape != bs or np.abs(l2 - ld).max() > tol:
                raise Violation("reported-differs-from-evaluated", f"{what}: reported {ld.ravel()[:3]} evaluated {l2.ravel()[:3]}")
            d2 = np.asarray(box[0].density(jnp.asarray(x), **kw))
            if not np.allclose(d2, np.exp(l2), rtol=1e-6, atol=1e-12):
                raise Violation("density", f"{what}: density {d2.ravel()[:3]} is not exp(log density) {np.exp(l2).ravel()[:3]}")
            ctx.log(what, x, ld)
            ctx.state(tuple(sorted(set(kinds)))[:4], op["mode"], op["style"], len(bs), bool(kw))
            if condit and kw and op["op"] == "kwdraw" and "partial" not in kinds:
                y, _ = draw(op, {"c": kw["c"] + 0.37}, contextless() if mixture else Scripted((plan["seed"], i), op["style"]))
                if not op["implicit"] and np.array_equal(x, y):
                    raise Violation("kwargs-ignored", f"{what}: sampling ignores the keyword argument")
            # ---- implied density
            if spec["k"] == "haar":
                continue
            if mixture:
                self.mixture(ctx, what, plan, spec, box, op, kw, x, ld, bs, event)
                continue
            if not script.draws:
                ctx.probe("seam-missed")
                continue
            D = sum(z.size for _, z in script.draws)
            if D != x.size or any(z.shape[:len(bs)] != bs for _, z in script.draws):
                ctx.probe("draws-not-one-to-one")
                continue
            go, st = sample_fn(op)
            values = script.draws
            key = jax.random.key(op["key"])

            def F(delta, kw):
                with Scripted(None, None, delta, values):
                    return go(st, key, kw)[0]

            jac = self.jacobian(F, D, kw)
            self.implied(ctx, what, jac, x, ld, bs, event, base_log_density(values, bs))
        if plan["law"] and (mixture and spec["k"] in MIX):
            self.weights(ctx, plan, spec, box[0])

    # ------------------------------------------------------------ Jacobians
    @staticmethod
    def jacobian(F, D, kw):
        """Central differences with two step sizes."""
        f = jax.jit(jax.vmap(F, in_axes=(0, None)))
        out = []
        e1, e2 = 2e-5, 8e-6
        rows = np.concatenate([e * s * np.eye(D) for e in (e1, e2) for s in (1, -1)])
        y = np.asarray(f(jnp.asarray(rows), kw)).reshape(4, D, -1)
        out = [(y[0] - y[1]) / (2 * e1), (y[2] - y[3]) / (2 * e2)]
        return out

    def implied(self, ctx, what, jac, x, ld, bs, event, base):
        n = int(np.prod(bs))
        d = int(np.prod(event))
        ld = ld.reshape(n)
        base = np.asarray(base).reshape(n)
        for j in range(n):
            blocks = []
            for J in jac:
                J = J.reshape(n, d, n, d)
                others = np.abs(np.delete(J[:, :, j], j, axis=0)).max() if n > 1 else 0
                if others > 1e-6:
                    raise Violation("items-not-independent", f"{what}: item {j} depends on the draws of other items")
                blocks.append(np.linalg.slogdet(J[j, :, j])[1])
            if not np.all(np.isfinite(blocks)) or abs(blocks[0] - blocks[1]) > 2e-5:
                ctx.probe("ill-conditioned")
                continue
            want = base[j] - blocks[1]
            ctx.checked += 1
            ctx.probe("implied-density-checked")
            if abs(want - ld[j]) > 2e-4 * (1 + abs(blocks[1]) / 10):
                raise Violation("wrong-log-density", f"{what}: reported {ld[j]:.6f}, implied by the sampling map {want:.6f}")

    # ------------------------------------------------------------ mixtures
    def mixture(self, ctx, what, plan, spec, box, op, kw, x, ld, bs, event):
        if spec["k"] in MIX:
            want = self.formula(spec, x, box[0])
            if want is None:
                return
            ctx.checked += 1
            if np.abs(want - ld).max() > 1e-6 * (1 + np.abs(ld).max()):
                raise Violation("wrong-mixture-density", f"{what}: reported {ld.ravel()[:3]}, mixture of normals {want.ravel()[:3]}")
            return
        # flows over mixtures: scripted prior sample
        d = box[0]
        prior = d.prior
        key = jax.random.key(op["key"])
        u, pl = tree_np(prior.sample(bs, rng=key, **kw))
        graph, st = nnx.split(d)

        def F(delta, kw):
            m = nnx.merge(graph, st)
            val = jnp.asarray(u) + delta.reshape(u.shape)
            m.prior.sample = lambda batch_shape=(), rng=None, **k: (val, m.prior.log_density(val, **k))
            y, l = m.sample(bs, rng=key, **kw)
            return jnp.concatenate([y.ravel(), l.ravel()])

        y0 = np.asarray(F(jnp.zeros(u.size), kw))
        jac = self.jacobian(lambda e, k: F(e, k)[: u.size], u.size, kw)
        self.implied(ctx, what + " from prior sample", jac, y0[: u.size].reshape(u.shape), y0[u.size:].reshape(bs), bs, event, pl)

    @staticmethod
    def formula(spec, x, dist):
        """Mixture of normals from the distribution's own reported means, covariances and weights, written in numpy."""
        mix = dist.mixture if hasattr(dist, "mixture") else dist
        st = mix.stack
        mean, cov = np.asarray(st.mean.get_value() if hasattr(st.mean, "get_value") else st.mean), None
        w = np.asarray(mix.weights_normalized)
        raw = np.asarray(mix.weights.get_value() if hasattr(mix.weights, "get_value") else mix.weights)
        sm = np.exp(raw - raw.max())
        sm /= sm.sum()
        if np.abs(sm - w).max() > 1e-9:
            raise Violation("weights", f"normalised weights {w} are not the softmax of {raw}")
        logs = []
        for k in range(len(w)):
            m = mean[k]
            if hasattr(st, "cholesky"):
                c = np.tril(np.asarray(st.cholesky.get_value())[k], -1)
                dg = np.diag(np.asarray(st.cholesky.get_value())[k])
                # sign and regularisation of the diagonal do not matter beyond epsilon
                L = c + np.diag(dg)
                if np.any(np.abs(dg) < 1e-3) or np.any(dg < 0):
                    return None
            else:
                s = st.scales if not callable(st.scales) else st.scales()
                L = np.diag(np.abs(np.asarray(s)[k]))
            z = np.linalg.solve(L, (x - m)[..., None])[..., 0]
            logs.append(np.log(w[k]) - 0.5 * np.sum(z**2, axis=-1) - np.log(np.abs(np.diag(L))).sum() - 0.5 * len(m) * np.log(2 * np.pi))
        logs = np.stack(logs)
        mx = logs.max(0)
        return mx + np.log(np.exp(logs - mx).sum(0))

    def weights(self, ctx, plan, spec, dist):
        """Over many draws the posterior responsibilities average to the weights."""
        N = 4000
        mix = dist.mixture if hasattr(dist, "mixture") else dist
        graph, st = nnx.split(dist)
        x = np.asarray(jax.jit(lambda st, k: nnx.merge(graph, st).sample((N,), rng=k)[0])(st, jax.random.key(plan["seed"])))
        w = np.asarray(mix.weights_normalized)
        comp = []
        for k in range(len(w)):
            one = jax.tree.map(lambda v: v[k], nnx.split(mix.stack)[1])
            c = nnx.merge(nnx.split(mix.stack)[0], one)
            comp.append(np.log(w[k]) + np.asarray(c.log_density(jnp.asarray(x))))
        comp = np.stack(comp)
        resp = np.exp(comp - comp.max(0))
        resp /= resp.sum(0)
        ctx.probe("weights-checked")
        for k in range(len(w)):
            z = abs(resp[k].mean() - w[k]) / (resp[k].std() / np.sqrt(N) + 1e-9)
            if z > 6.5:
                raise Violation("weights", f"component {k} chosen with frequency {resp[k].mean():.4f}, weight {w[k]:.4f} ({z:.1f} sigma)")
        # draws of different items are independent
        r = (x - x.mean(0)).reshape(N, -1)
        lag = np.abs((r[1:] * r[:-1]).mean(0) / (r.var(0) + 1e-12)).max() * np.sqrt(N)
        if lag > 7:
            raise Violation("items-not-independent", f"successive samples are correlated ({lag:.1f} sigma)")
        ctx.log("weights", resp.mean(1))

    def nontrivial(self, plan, ctx):
        return ctx.checked > 0 or plan["dist"]["k"] == "haar"

    def simplify(self, plan):
        yield from self.simplify_ops(plan)
        if plan["law"]:
            yield dict(copy.deepcopy(plan), law=False)
        if plan["dist"]["k"] == "transformed":
            b = plan["dist"]["bij"]
            for sub in b.get("sub", []):
                if b["k"] in ("chain", "inverse") and sub.get("shape", b.get("shape")) == b.get("shape"):
                    q = copy.deepcopy(plan)
                    q["dist"]["bij"] = sub
                    yield q
        for i, op in enumerate(plan["ops"]):
            for k, v in (("mode", "eager"), ("implicit", False), ("c", None), ("style", "plain"), ("batch", [])):
                if op[k] != v:
                    q = copy.deepcopy(plan)
                    q["ops"][i][k] = v
                    yield q


class contextless:
    draws = ()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
