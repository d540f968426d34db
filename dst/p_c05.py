"""C05: explicit keys are pure, implicit draws advance one stream, nothing is drawn twice.

Seam: module-level sampling functions of jax.random, wrapped to log (through a host callback, so
also under vmap and scan) which key they consume and which values they return.
"""
import contextlib
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .buffered import interpreted, key
from .core import Violation, close, leaves_np, module_state, np_rng, same, same_state, show, tree_np
from .scenario import Scenario

PRIMS = ["normal", "uniform", "choice", "categorical", "gumbel", "exponential", "truncated_normal", "bernoulli",
         "randint", "permutation", "laplace", "gamma", "beta", "dirichlet", "rademacher", "multivariate_normal",
         "logistic", "cauchy", "ball", "orthogonal", "bits", "t"]


class KeyLog:
    def __init__(self):
        self.entries = []

    @contextlib.contextmanager
    def on(self):
        old = {}
        for p in PRIMS:
            f = getattr(jax.random, p, None)
            if f is None:
                continue
            old[p] = f
            setattr(jax.random, p, self.wrap(p, f))
        self.entries = []
        try:
            yield self
            jax.effects_barrier()
        finally:
            for p, f in old.items():
                setattr(jax.random, p, f)

    def wrap(self, name, f):
        def g(key, *a, **k):
            r = f(key, *a, **k)
            kd = jax.random.key_data(key) if jnp.issubdtype(jnp.asarray(key).dtype, jax.dtypes.prng_key) else key
            jax.debug.callback(lambda kd, r: self.entries.append((name, np.array(kd), np.array(r))), kd, r)
            return r

        return g


class SCENARIO(Scenario):
    ID = "C05"
    TITLE = "Explicit keys are pure, implicit draws advance one stream, none is reused"
    QUICK = 50
    THOROUGH = 6000
    RULE = ("one case = an interleaving of explicit draws, implicit draws, density evaluations and repeated draws by "
            "clients that share distributions and streams; non-trivial if implicit draws surrounded by other requests "
            "were compared with the twin that made only implicit draws; distinct by event-log hash")
    REAL = ["all bijx distributions, Transformed flows, Haar, BufferedSampler batches", "flax.nnx.Rngs", "jax.random"]
    STUB = ["jax.random sampling functions wrapped to log keys and values (results unchanged)"]
    ASSUME = ["keys and noise values of independent draws collide with negligible probability"]

    def generate(self, R, idx, tier):
        clients = []
        for _ in range(R.choice([1, 2, 2, 3])):
            r = R.random()
            if r < 0.12:
                spec = dict(k="haar", n=R.choice([2, 3]), seed=1, base=R.choice([[], [2]]))
            else:
                spec = zoo.gen_dist(R, depth=1 if R.random() < 0.35 else 0, shapes=((2,), (3,)), heavy=False, kw=False)
            clients.append(dict(spec=spec, stream=R.choice([0, 0, 1, None]), buffered=R.random() < 0.12))
        if all(c["stream"] is None for c in clients):
            clients[0]["stream"] = 0
        keys = [R.randrange(10**6) for _ in range(3)]
        ops = []
        for _ in range(R.randint(5, 14)):
            c = R.randrange(len(clients))
            o = R.choices(["imp", "exp", "dens", "norng"], [5, 4, 1.5, 0.6])[0]
            ops.append(dict(o=o, c=c, key=R.choice(keys) if R.random() < 0.7 else R.randrange(10**6),
                            shape=R.choice([[], [3], [3], [2, 2]]), mode=R.choice(["eager", "eager", "jit", "eager"]),
                            legacy=R.random() < 0.15, s=R.randrange(10**6)))
        return dict(clients=clients, streams=[R.randrange(10**6), R.randrange(10**6)], kind=R.randrange(2), ops=ops)

    def build(self, plan):
        rngs = [nnx.Rngs(s) if plan["kind"] == 0 else nnx.Rngs(sample=s, params=s + 1) for s in plan["streams"]]
        out = []
        for c in plan["clients"]:
            d = zoo.build_dist(c["spec"], 0, rngs=None if c["stream"] is None else rngs[c["stream"]])
            if c["buffered"] and c["stream"] is not None and c["spec"]["k"] != "haar":
                with interpreted():
                    d = bijx.BufferedSampler(d, 3)
            out.append(d)
        return out

    def execute(self, plan, ctx):
        dists = ctx.call("construct", self.build, plan)
        twins = self.build(plan)
        bare = [zoo.build_dist(c["spec"], 0, rngs=None) for c in plan["clients"]]
        log = KeyLog()
        seen_keys = {}   # consumed key -> label of the draw
        seen_noise = {}  # value -> label
        rows = {}
        expl = {}
        jits = {}
        implicit = 0
        interleaved = False
        for i, op in enumerate(plan["ops"]):
            c = op["c"] % len(dists)
            d, cl = dists[c], plan["clients"][c]
            shape = tuple(op["shape"])
            if isinstance(d, bijx.BufferedSampler) and shape == ():
                shape = (2,)  # single draws of a buffered sampler come from its buffer (C01)
            o = op["o"]
            what = f"op {i} {o} client {c} ({cl['spec']['k']}) {op['mode']}"
            snap = module_state(d)
            if o == "imp" and cl["stream"] is None:
                o = "norng"
            if o == "norng":
                b = bare[c]
                try:
                    b.sample(shape)
                except ValueError:
                    ctx.probe("no-stream-error")
                except Exception as e:
                    raise Violation("wrong-error", f"{what}: {type(e).__name__}: {e}") from e
                else:
                    raise Violation("no-error-without-stream", what)
                ctx.log(o)
                continue
            if o == "dens":
                if cl["spec"]["k"] == "haar":
                    continue
                x = jnp.asarray(zoo.draw_x(np_rng("x", op["s"]), (2,), tuple(cl["spec"]["shape"]), zoo.dist_dom(cl["spec"])))
                got = ctx.call(what, d.log_density, x)
                self.unchanged(snap, d, what)
                ctx.log(o, np.asarray(got))
                interleaved = interleaved or implicit > 0
                continue
            k = None
            if o == "exp":
                k = jax.random.PRNGKey(op["key"]) if op["legacy"] else key(op["key"])
            if op["mode"] == "jit":
                f = jits.get((c, shape, k is None))
                if f is None:
                    f = jits[c, shape, k is None] = nnx.jit((lambda m, sh=shape: m.sample(sh)) if k is None else
                                                           (lambda m, r, sh=shape: m.sample(sh, rng=r)))
                got = ctx.call(what, f, d) if k is None else ctx.call(what, f, d, k)
                got = tree_np(got)
            else:
                with log.on():
                    got = tree_np(ctx.call(what, d.sample, shape, rng=k))
                label = ("key", op["key"]) if o == "exp" else ("implicit", i)
                self.keys(ctx, log.entries, seen_keys, seen_noise, label, what)
            self.distinct_rows(got, shape, rows, ("key", op["key"]) if o == "exp" else ("implicit", i), what, cl["spec"])
            if o == "exp":
                self.unchanged(snap, d, what)
                ident = (c, op["key"], shape)
                if ident in expl:
                    ctx.probe("explicit-repeated")
                    ref = expl[ident]
                else:
                    ref = expl[ident] = tree_np(bare[c].sample(shape, rng=key(op["key"])))
                if not close(got, ref, 1e-9, 1e-11):
                    raise Violation("explicit-draw-not-pure", f"{what}: {show(got)} expected {show(ref)}")
                interleaved = interleaved or implicit > 0
            else:
                want = tree_np(twins[c].sample(shape))
                implicit += 1
                if not close(got, want, 1e-9, 1e-11):
                    raise Violation("implicit-sequence", f"{what}: draw {implicit}: {show(got)} expected {show(want)}")
                if interleaved:
                    ctx.probe("implicit-after-interleaving")
            ctx.log(o, *leaves_np(got))
            ctx.state(o, cl["spec"]["k"], cl["stream"], op["mode"], implicit > 0, shape, len(dists))

    @staticmethod
    def unchanged(snap, d, what):
        ok, why = same_state(snap, module_state(d))
        if not ok:
            raise Violation("state-changed", f"{what}: {why}")

    @staticmethod
    def keys(ctx, entries, seen_keys, seen_noise, label, what):
        here = {}
        for name, kd, r in entries:
            t = tuple(int(v) for v in kd.ravel())
            ctx.probe("keys-logged")
            if t in here:
                raise Violation("key-reused", f"{what}: one draw consumed a key twice ({here[t]}, {name})")
            here[t] = name
            if seen_keys.get(t, label) != label:
                raise Violation("key-reused", f"{what}: {name} consumed a key already used by draw {seen_keys[t]}")
            if r.dtype.kind == "f" and name in ("normal", "uniform", "gumbel", "exponential"):
                vals = r.ravel().tolist()
                mine = set()
                for v in vals:
                    if v in mine or seen_noise.get(v, label) != label:
                        raise Violation("noise-repeated", f"{what}: {name} value {v} occurs twice")
                    mine.add(v)
                for v in vals:
                    seen_noise[v] = label
        for t in here:
            seen_keys[t] = label

    @staticmethod
    def distinct_rows(got, shape, rows, label, what, spec):
        x = leaves_np(got[0])[0]
        k = len(shape)
        if x.size == 0:
            return
        flat = x.reshape((int(np.prod(shape)) if shape else 1,) + x.shape[k:])
        mine = set()
        for r in flat:
            b = r.tobytes()
            if b in mine:
                raise Violation("rows-repeated", f"{what}: two items of one batch are equal: {r.ravel()[:4]}")
            mine.add(b)
            if rows.get(b, label) != label:
                raise Violation("rows-repeated", f"{what}: value {r.ravel()[:4]} already drawn by {rows[b]}")
        for b in mine:
            rows[b] = label

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("implicit-after-interleaving"))

    def simplify(self, plan):
        yield from super().simplify(plan)
        for i, op in enumerate(plan["ops"]):
            for k, v in (("mode", "eager"), ("shape", [])):
                if op[k] != v:
                    p = copy.deepcopy(plan)
                    p["ops"][i][k] = v
                    yield p
        for i, c in enumerate(plan["clients"]):
            if c["spec"]["k"] == "transformed":
                p = copy.deepcopy(plan)
                p["clients"][i]["spec"] = c["spec"]["base"]
                yield p
