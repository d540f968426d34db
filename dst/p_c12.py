"""C12: stochastic integration driven by scripted and by real Brownian increments."""
import copy

import diffrax
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx.solvers import DiffraxConfig

from .core import Disk, InjectedFault, InjectedInterrupt, LineFault, Violation, np_rng, tree_np
from .scenario import Scenario

REAL_PATHS = {n: getattr(diffrax, n) for n in ("UnsafeBrownianPath", "VirtualBrownianTree")}
W_FREQ = np.array([1.3, 4.1, 9.7, 23.0])


def amplitudes(xp_key, shape, amp):
    """Coefficients of the scripted path that belongs to a key."""
    k = jax.random.fold_in(xp_key, 77)
    return amp * jax.random.normal(k, (*shape, 8), dtype=jnp.float64)


def path_value(xp, coef, t):
    ph = t * W_FREQ
    return coef @ xp.concatenate([xp.sin(ph), xp.cos(ph)])


class SimBM(diffrax.AbstractBrownianPath):
    """Scripted Brownian motion: a smooth function of time determined by its key."""

    shape: tuple
    coef: jax.Array
    levy_area: type = diffrax.BrownianIncrement
    out_dtype: object = None

    @property
    def t0(self):
        return -jnp.inf

    @property
    def t1(self):
        return jnp.inf

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        if t1 is None:
            t0, t1 = jnp.zeros_like(t0), t0
        w = (path_value(jnp, self.coef, t1) - path_value(jnp, self.coef, t0)).astype(self.out_dtype)
        if use_levy:
            return diffrax.BrownianIncrement(dt=t1 - t0, W=w)
        return w


class Script:
    """Replaces diffrax's Brownian paths while active and records the keys they are created with."""

    def __init__(self, amp):
        self.amp = amp
        self.keys = []

    def make(self, *args, **kw):
        names = ["shape", "key", "levy_area"] if len(args) <= 3 else ["t0", "t1", "tol", "shape", "key", "levy_area"]
        kw = dict(zip(names, args), **kw)
        shape, key = kw["shape"], kw["key"]
        dtype = jnp.zeros(()).dtype
        if not (isinstance(shape, tuple) and all(isinstance(q, (int, np.integer)) for q in shape)):
            (leaf,) = jax.tree.leaves(shape, is_leaf=lambda q: hasattr(q, "dtype"))
            shape, dtype = tuple(leaf.shape), leaf.dtype
        if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
            data = jax.random.key_data(key)
        else:
            data, key = key, jax.random.wrap_key_data(key)
        jax.debug.callback(lambda d: self.keys.append(np.array(d)), data)
        return SimBM(tuple(shape), amplitudes(key, shape, self.amp), kw.get("levy_area", diffrax.BrownianIncrement), dtype)

    def __enter__(self):
        for n in REAL_PATHS:
            setattr(diffrax, n, self.make)
        return self

    def __exit__(self, *a):
        for n, v in REAL_PATHS.items():
            setattr(diffrax, n, v)


def drift_fn(kind, xp):
    def f(t, y, args):
        a = args["a"] if args else 0.7
        if kind == "ou":
            return -a * y + 0.3 * xp.sin(3 * t)
        if kind == "tanh":
            return a * xp.tanh(y) * (1 + t) - 0.2
        if kind == "zero":
            return 0.0 * y
        return xp.cos(t) * a + 0.1 * y**2 / (1 + y**2)
    return f


def diff_fn(kind, xp):
    def g(t, y, args):
        b = args["b"] if args else 0.5
        if kind == "const":
            return b + 0.0 * y
        if kind == "scalar":
            return xp.asarray(b)
        if kind == "state":
            return b * (1 + 0.3 * xp.sin(y))
        if kind == "one":
            return 1.0 + 0.0 * y
        return b * (0.4 + t**2) + 0.0 * y
    return g


def transform_fn(kind, xp):
    if kind == "double":
        return lambda w: 2.0 * w
    if kind == "centre":
        return lambda w: w - xp.mean(w)
    if kind == "flip":
        return lambda w: xp.flip(w, axis=-1) * 0.5
    if kind == "cube":
        return lambda w: w + w**3
    return None


GRIDS = {}


def step_times(t0, t1, dt):
    """Times diffrax steps through for this interval and step size (asked from diffrax with a trivial equation)."""
    k = (t0, t1, dt)
    if k not in GRIDS:
        sol = diffrax.diffeqsolve(diffrax.ODETerm(lambda t, y, a: 0 * y), diffrax.Euler(), t0=t0, t1=t1, dt0=abs(dt) * np.sign(t1 - t0),
                                  y0=jnp.zeros(()), saveat=diffrax.SaveAt(steps=True))
        ts = np.asarray(sol.ts)
        ts = np.concatenate([[t0], ts[np.isfinite(ts)]])
        assert np.isclose(ts[-1], t1) and np.abs(np.diff(ts)).max() <= abs(dt) * 1.001
        GRIDS[k] = ts
    return GRIDS[k]


class SCENARIO(Scenario):
    ID = "C12"
    TITLE = "Stochastic integration is driven exactly by its key's increments"
    QUICK = 52
    THOROUGH = 6000
    RULE = ("one case = a history of stochastic solves with repeated and fresh keys, interleaved with other solves, failing "
            "drifts, interrupts and restarts, driven by scripted Brownian paths and by the real one; each result is compared "
            "with an Euler-Maruyama reference on the same increments; non-trivial when at least two solves succeeded; "
            "distinct by event-log hash")
    REAL = ["DiffraxConfig.solve_sde", "DiffraxConfig.optional_override/replace", "diffrax.diffeqsolve", "diffrax.UnsafeBrownianPath (law and purity)"]
    STUB = ["Brownian path (scripted, for the driving check)", "drift and diffusion functions"]
    ASSUME = ["Euler-Maruyama reference written in numpy", "statistical checks use a 7 sigma threshold over thousands of keys"]

    def generate(self, R, idx, tier):
        shape = R.choice([[], [2], [3, 2]])
        back = R.random() < 0.25
        t0 = R.choice([0.0, 0.0, -0.4, 0.35])
        t1 = round(t0 + R.choice([0.5, 1.0, 0.73]), 3)
        if back:
            t0, t1 = t1, t0
        cfg = dict(t0=t0, t1=t1, dt=R.choice([0.1, 0.07, 0.25, -0.1, 2.0]), save=R.choice(["t1", "steps"]),
                   solver=R.choice(["default", "default", "euler", "dopri5"]), drift=R.choice(["ou", "tanh", "zero", "cos"]),
                   diff=R.choice(["const", "scalar", "state", "time"]), tr=R.choice([None, None, "double", "flip", "centre"] + ([] if back else ["cube"])),
                   args=R.random() < 0.5, dtype=R.choice(["f8", "f8", "f8", "f4"]))
        if shape == [] and cfg["tr"] in ("flip", "centre"):
            cfg["tr"] = "double"
        ops = []
        for _ in range(R.randint(3, 6)):
            k = R.choices(["solve", "other", "fail", "interrupt", "restart", "override", "segment", "vmap", "scan"],
                          [4, 0.8, 0.6, 0.5, 0.7, 2, 1, 0.7, 0.5])[0]
            ops.append(dict(op=k, key=R.randrange(5), y=R.randrange(3), mode=R.choice(["eager", "jit", "jit"]),
                            amp=R.choice([0.3, 0.3, 0.0, 8.0]), script=R.random() < 0.7, frac=R.random(),
                            ov=R.choice(["t_end", "dt", "t_start", "saveat"])))
        if cfg["tr"] == "cube":
            for o in ops:
                o["amp"] = min(o["amp"], 0.5)  # (otherwise chaotic: rounding errors would be amplified)
        return dict(shape=shape, cfg=cfg, ops=ops, seed=R.randrange(10**6), law=R.random() < 0.3)

    def config(self, c):
        kw = dict(t_start=c["t0"], t_end=c["t1"], dt=c["dt"],
                  saveat=diffrax.SaveAt(steps=True) if c["save"] == "steps" else diffrax.SaveAt(t1=True))
        if c["solver"] != "default":
            kw["solver"] = {"euler": diffrax.Euler, "dopri5": diffrax.Dopri5}[c["solver"]]()
        return DiffraxConfig(**kw)

    def execute(self, plan, ctx):
        c = plan["cfg"]
        shape = tuple(plan["shape"])
        dtype = np.float64 if c["dtype"] == "f8" else np.float32
        r = np_rng("sde", plan["seed"])
        ys = [r.normal(size=shape).astype(dtype) for _ in range(3)]
        args = {"a": dtype(0.6), "b": dtype(0.4)} if c["args"] else None
        tol = 1e-9 if c["dtype"] == "f8" else 2e-4
        cfg = ctx.call("construct", self.config, c)
        keys = [jax.random.fold_in(jax.random.key(plan["seed"]), i) for i in range(5)]
        bad = [False]
        ctx.ok = 0
        f, g, tr = drift_fn(c["drift"], jnp), diff_fn(c["diff"], jnp), transform_fn(c["tr"], jnp)

        def drift(t, y, a):
            if bad[0]:
                raise InjectedFault("drift")
            return f(t, y, a).astype(y.dtype)

        def diffusion(t, y, a):
            return jnp.asarray(g(t, y, a)).astype(y.dtype)

        jits = {}

        def solve(cf, y, key, mode, script=None):
            def go(y, key, args):
                s = cf.solve_sde(drift, diffusion, y, key, args=args, **({} if tr is None else {"noise_transform": tr}))
                return s.ts, s.ys
            if mode == "jit":
                kk = (id(cf), None if script is None else script.amp)
                if kk not in jits:
                    jits[kk] = (jax.jit(go), script, cf)
                fn, sc, _ = jits[kk]
                if sc is not None:
                    sc.keys.clear()
                    script = sc
            else:
                fn = go
            if script is not None:
                with script:
                    out = tree_np(fn(jnp.asarray(y), key, args))
                    jax.effects_barrier()
                return out, list(script.keys)
            return tree_np(fn(jnp.asarray(y), key, args)), []

        def reference(y, key_data, amp, t0, t1, dt):
            coef = np.asarray(amplitudes(jax.random.wrap_key_data(jnp.asarray(key_data)), shape, amp))
            fn, gn, tn = drift_fn(c["drift"], np), diff_fn(c["diff"], np), transform_fn(c["tr"], np)
            ts = step_times(t0, t1, dt)
            y = y.astype(np.float64)
            a = None if args is None else {q: float(v) for q, v in args.items()}
            out = []
            for u, v in zip(ts[:-1], ts[1:]):
                dw = path_value(np, coef, v) - path_value(np, coef, u)
                dw = dw if tn is None else tn(dw)
                y = y + fn(u, y, a) * (v - u) + gn(u, y, a) * dw
                out.append(y)
            return ts[1:], np.array(out)

        def check(what, res, y, key_data, amp, t0, t1, dt, save):
            ts, yy = res
            rt, ry = reference(y, key_data, amp, t0, t1, dt)
            if save == "t1":
                rt, ry = rt[-1:], ry[-1:]
            else:
                fin = np.isfinite(ts)
                if not np.array_equal(fin, np.arange(len(ts)) < fin.sum()):
                    raise Violation("saved-steps", f"{what}: finite times are not a prefix")
                ts, yy = ts[fin], yy[fin]
                if len(ts) == len(rt) + 1 and np.isclose(ts[0], t0):
                    ts, yy = ts[1:], yy[1:]
            if ts.shape != rt.shape or yy.shape != ry.shape:
                raise Violation("wrong-steps", f"{what}: saved times {ts} values {yy.shape}; expected times {rt} {ry.shape}")
            if np.abs(ts - rt).max() > 1e-5:
                raise Violation("wrong-times", f"{what}: saved {ts} expected {rt}")
            e = np.abs(yy - ry).max() / (1 + np.abs(ry).max())
            if not e <= tol:
                raise Violation("wrong-path", f"{what}: relative deviation {e:.2e} from Euler-Maruyama on the same increments; got {yy[-1].ravel()[:3]} "
                                              f"expected {ry[-1].ravel()[:3]}")

        seen = {}     # what -> result, for purity
        used = {}     # public key -> key of the Brownian path
        disk = Disk(ctx)

        def pure(tag, res, key):
            if tag in seen:
                for a, b in zip(res, seen[tag]):
                    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9 if dtype == np.float64 else 1e-4, atol=1e-10 if dtype == np.float64 else 1e-5, equal_nan=True):
                        raise Violation("key-not-deterministic", f"{tag}: same key gave {a.ravel()[:3]} after {b.ravel()[:3]}")
            seen.setdefault(tag, res)
            for (q, *rest), v in seen.items():
                if q != tag[0] and tuple(rest) == tag[1:] and np.array_equal(v[1], res[1]) and tag[-1] != "quiet":
                    raise Violation("keys-not-independent", f"keys {q} and {tag[0]} give the same path")

        def keycheck(what, key, got):
            if len(got) != 1:
                raise Violation("several-paths", f"{what}: {len(got)} Brownian paths were created") if len(got) > 1 else AssertionError("seam missed")
            d = got[0].tobytes()
            if used.setdefault(key, d) != d:
                raise Violation("key-not-deterministic", f"{what}: the path's key differs between calls with the same key")
            for q, v in used.items():
                if q != key and v == d:
                    raise Violation("keys-not-independent", f"keys {q} and {key} drive the same path")
            return got[0]

        def solve_checked(what, cf, op, t0, t1, dt, save, tag, y=None):
            y = ys[op["y"]] if y is None else y
            if op["script"]:
                res, kd = ctx.call(what, solve, cf, y, keys[op["key"]], op["mode"], Script(op["amp"]))
                if kd:
                    ctx.fault("scripted-path")
                    check(what, res, y, keycheck(what, op["key"], kd), op["amp"], t0, t1, dt, save)
                    pure((op["key"], tag, "script", op["amp"], y.tobytes(), "quiet"), res, op["key"])
                    return res
                ctx.probe("seam-missed")
            res, _ = ctx.call(what, solve, cf, y, keys[op["key"]], op["mode"])
            # (diffrax: the real path depends on the rounding of times, so only equal programs are comparable)
            pure((op["key"], tag, "real", op["mode"], y.tobytes(), "loud"), res, op["key"])
            return res

        for i, op in enumerate(plan["ops"]):
            k = op["op"]
            what = f"op {i} {k} key {op['key']} {op['mode']} {'scripted' if op['script'] else 'real'}"
            if k == "solve":
                res = solve_checked(what, cfg, op, c["t0"], c["t1"], c["dt"], c["save"], "base")
            elif k == "other":
                # unrelated use of randomness in between
                jax.random.normal(jax.random.key(op["key"]), (3,))
                bijx.IndependentNormal((2,), rngs=nnx.Rngs(op["key"])).sample((2,))
                ctx.log(what)
                continue
            elif k == "fail":
                bad[0] = True
                try:
                    solve(self.config(c), ys[op["y"]], keys[op["key"]], "eager")
                    raise Violation("error-swallowed", what)
                except InjectedFault:
                    ctx.fault("drift-raises")
                finally:
                    bad[0] = False
                ctx.log(what)
                continue
            elif k == "interrupt":
                with LineFault(1 + int(op["frac"] * 12), InjectedInterrupt, tracing=True) as lf:
                    try:
                        solve(self.config(c), ys[op["y"]], keys[op["key"]], "eager")
                    except InjectedInterrupt:
                        pass
                if lf.fired:
                    ctx.fault("interrupt")
                ctx.log(what)
                continue
            elif k == "restart":
                ctx.fault("crash-restart")
                graph, st = nnx.split(cfg)
                cfg = nnx.merge(graph, st) if op["frac"] < 0.5 else self.config(c)
                jits.clear()
                ctx.log(what)
                continue
            elif k == "override":
                self.override_fields(cfg, np_rng("ov", plan["seed"], i))
                t0, t1, dt, save = c["t0"], c["t1"], c["dt"], c["save"]
                if op["ov"] == "t_end":
                    t1 = round(t0 + 0.6 * (t1 - t0), 4)
                    cf = cfg.optional_override(t_end=t1) if op["frac"] < 0.5 else cfg.replace(t_end=t1)
                elif op["ov"] == "t_start":
                    t0 = 0.0 if t0 * t1 != 0 and op["frac"] < 0.5 else round(t0 + 0.3 * (t1 - t0), 4)
                    cf = cfg.optional_override(t_start=t0)
                elif op["ov"] == "dt":
                    dt = 0.13
                    cf = cfg.optional_override(dt=dt)
                else:
                    save = "steps" if save == "t1" else "t1"
                    cf = cfg.optional_override(saveat=diffrax.SaveAt(steps=True) if save == "steps" else diffrax.SaveAt(t1=True))
                res = solve_checked(what, cf, op, t0, t1, dt, save, f"override {t0} {t1} {dt} {save}")
            elif k == "segment":
                # stop half way, crash, restart from the stored state with another key
                tm = round(c["t0"] + 0.5 * (c["t1"] - c["t0"]), 4)
                cf = cfg.optional_override(t_end=tm, saveat=diffrax.SaveAt(t1=True))
                res = solve_checked(what + " first half", cf, op, c["t0"], tm, c["dt"], "t1", f"half {tm}")
                disk.write(i, [(".y", res[1][-1])], None)
                ctx.fault("crash-restart")
                cfg = self.config(c)
                jits.clear()
                y = dict(disk.load()[1])[".y"]
                cf = cfg.optional_override(t_start=tm)
                op2 = dict(op, key=(op["key"] + 1) % 5)
                res = solve_checked(what + " second half", cf, op2, tm, c["t1"], c["dt"], c["save"], f"half2 {tm}", y=y)
            elif k in ("vmap", "scan"):
                kk = jnp.stack([keys[op["key"]], keys[(op["key"] + 2) % 5]])
                cf = cfg.optional_override(saveat=diffrax.SaveAt(t1=True))
                y = jnp.asarray(ys[op["y"]])

                def one(q):
                    s = cf.solve_sde(drift, diffusion, y, q, args=args, **({} if tr is None else {"noise_transform": tr}))
                    return s.ts, s.ys

                with Script(op["amp"]) as sc:
                    if k == "vmap":
                        res = tree_np(ctx.call(what, jax.vmap(one), kk))
                    else:
                        res = tree_np(ctx.call(what, lambda kk: jax.lax.scan(lambda _, q: (None, one(q)), None, kk)[1], kk))
                    jax.effects_barrier()
                if not sc.keys:
                    ctx.probe("seam-missed")
                for j, q in enumerate((op["key"], (op["key"] + 2) % 5) if sc.keys else ()):
                    ctx.fault("scripted-path")
                    alone, kd = ctx.call(what + " alone", solve, cf, ys[op["y"]], keys[q], "jit", Script(op["amp"]))
                    keycheck(what, q, kd)
                    for a, b in zip((v[j] for v in res), alone):
                        if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol):
                            raise Violation("key-not-deterministic", f"{what}: {k} over keys gives {a.ravel()[:3]}, alone {b.ravel()[:3]}")
            ctx.ok += 1
            ctx.simtime += abs(c["t1"] - c["t0"])
            ctx.log(what, *res)
            ctx.state(k, op["script"], op["mode"], c["save"], c["solver"], c["drift"], c["diff"], c["tr"], len(shape), c["t1"] > c["t0"])
        if plan["law"]:
            self.law(plan, ctx)

    @staticmethod
    def override_fields(cfg, r):
        """Overriding replaces exactly the given fields, for any values (also zero and negative ones)."""
        fields = ("solver", "t_start", "t_end", "dt", "saveat", "stepsize_controller", "adjoint", "max_steps", "throw",
                  "solver_state", "controller_state", "made_jump", "event")
        pool = dict(t_start=[0.0, 0, -0.5, 0.3], t_end=[0.0, 0, 2.0, -1.0], dt=[0.01, -0.2, 1.5],
                    saveat=[diffrax.SaveAt(steps=True), diffrax.SaveAt(t1=True)], solver_state=[(1.0,)], controller_state=[(2.0,)])
        for _ in range(25):
            ch = {k: v[r.integers(len(v))] for k, v in pool.items() if r.random() < 0.4}
            before = {k: getattr(cfg, k) for k in fields}
            new = cfg.optional_override(**ch) if r.random() < 0.7 else cfg.replace(**ch)
            for k in fields:
                want = ch.get(k, before[k])
                if not (getattr(new, k) is want or getattr(new, k) == want):
                    raise Violation("override", f"overriding {ch}: {k} is {getattr(new, k)} instead of {want}")
                if not (getattr(cfg, k) is before[k] or getattr(cfg, k) == before[k]):
                    raise Violation("override", f"overriding {ch} changed {k} of the original configuration")

    def law(self, plan, ctx):
        """Increments of the real path over many keys."""
        c = dict(plan["cfg"], save="steps")
        dt = 0.15
        cf = self.config(c).replace(dt=dt, max_steps=16)
        shape = tuple(plan["shape"])
        N = 3000
        keys = jax.random.split(jax.random.key(plan["seed"] + 1), N)
        one = lambda q: cf.solve_sde(lambda t, y, a: 0 * y, lambda t, y, a: 1 + 0 * y, jnp.zeros(shape), q)  # noqa: E731
        sol = ctx.call("law", jax.jit(jax.vmap(one)), keys)
        ts, ys = np.asarray(sol.ts), np.asarray(sol.ys)
        n = np.isfinite(ts[0]).sum()
        lens = np.abs(np.diff(np.concatenate([[c["t0"]], ts[0][:n]])))
        inc = np.diff(np.concatenate([np.zeros((N, 1, *shape)), ys[:, :n]], axis=1), axis=1).reshape(N, n, -1)
        keep = lens > 1e-9
        z = (inc[:, keep] / np.sqrt(lens[keep])[:, None]).reshape(N, -1)
        if not np.isclose(lens.sum(), abs(c["t1"] - c["t0"])):
            raise Violation("wrong-times", f"steps cover {lens.sum()} of {abs(c['t1'] - c['t0'])}")
        ctx.probe("law-checked")
        m = np.abs(z.mean(0)).max() * np.sqrt(N)
        v = np.abs(z.var(0) - 1).max() / np.sqrt(2 / N)
        cov = z.T @ z / N - np.diag((z**2).mean(0))
        lag = np.abs((z[1:] * z[:-1]).mean(0)).max() * np.sqrt(N)
        for nm, s in (("mean", m), ("variance", v), ("correlation between steps or components", np.abs(cov).max() * np.sqrt(N)), ("correlation between keys", lag)):
            if s > 7:
                raise Violation("increment-law", f"{nm} of increments is {s:.1f} sigma off")
        ctx.log("law", m, v, lag)

    def nontrivial(self, plan, ctx):
        return ctx.ok >= 2 or plan["law"]

    def simplify(self, plan):
        yield from self.simplify_ops(plan)
        for k, v in (("law", False), ("shape", [2])):
            if plan[k] != v and not (k == "law" and not plan["ops"]):
                yield dict(copy.deepcopy(plan), **{k: v})
        for k, v in (("tr", None), ("args", False), ("drift", "zero"), ("diff", "const"), ("solver", "default"), ("dt", 0.1), ("dtype", "f8")):
            if plan["cfg"][k] != v:
                q = copy.deepcopy(plan)
                q["cfg"][k] = v
                yield q
