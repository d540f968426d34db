"""C11: group-valued flows over long interrupted histories, projection and Haar sampling."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import flows as F
from .core import Disk, InjectedInterrupt, LineFault, Violation, module_state, np_rng, restore_state, tree_np
from .scenario import Scenario

TOLK = 40.0


def defect(u, special):
    """Largest deviation from unitarity (and unit determinant)."""
    n = u.shape[-1]
    d = np.abs(np.conj(np.swapaxes(u, -1, -2)) @ u - np.eye(n)).max()
    return max(d, np.abs(np.linalg.det(u) - 1).max()) if special else d


class SCENARIO(Scenario):
    ID = "C11"
    TITLE = "Group-valued flows stay on the group over long interrupted runs"
    QUICK = 64
    THOROUGH = 6000
    RULE = ("one case = a long history of integrations of one group flow (many stops, restarts, reversals, crashes, lossy or "
            "perturbed storage), a convergence study, or a sampling session of the Haar distribution with scripted "
            "randomness; non-trivial when at least two segments or draws were made; distinct by event-log hash")
    REAL = ["ContFlowCG", "crouch_grossmann", "Matrix/Unitary/UnitaryDeriv", "ButcherTableau", "sample_haar", "HaarDistribution"]
    STUB = ["group vector fields (known algebra element)", "checkpoint store", "normal draws (transformed after drawing)"]
    ASSUME = ["reference flow: fine RK4 in ambient coordinates written in the harness",
              f"accuracy allowed: {TOLK:g} times the error of the documented scheme re-implemented in numpy, plus 1e-9",
              "off-group perturbations up to 1e-3"]

    # ------------------------------------------------------------ plans
    def generate(self, R, idx, tier):
        mode = R.choices(["history", "order", "haar", "project"], [4, 2, 2.2, 0.6])[0]
        n = R.choice([1, 2, 2, 3, 3])
        special = n > 1 and R.random() < 0.7
        p = dict(mode=mode, n=n, special=special, seed=R.randrange(10**6), x=R.randrange(10**6))
        if mode == "haar":
            p.update(n=R.choice([2, 2, 3, 4]), base=R.choice([[], [], [2], [2, 2]]), lattice=R.random() < 0.25,
                     ops=[dict(how=R.choice(["fn", "dist", "dist", "implicit"]), mode=R.choice(["eager", "jit", "vmap"]),
                               key=R.randrange(50), batch=R.choice([[], [1], [3], [2, 2]]),
                               act=R.choice(["left", "left", "right-diag", "scale"]), extreme=R.random() < 0.3)
                          for _ in range(R.randint(3, 6))], law=R.random() < 0.5)
            return p
        if mode == "project":
            p.update(eps=[R.choice([0.0, 1e-12, 1e-6, 1e-3]) for _ in range(6)], batch=R.choice([[], [3], [2, 2]]))
            return p
        p.update(tab=R.choice(["EULER", "CG2", "CG3"]) if mode == "order" else R.choice(["EULER", "CG2", "CG2", "CG3"]),
                 mt=R.choice(["matrix", "unitary", "unitary"]), proj=None, linear=R.random() < 0.15,
                 batch=R.choice([[2], [2], [], [2, 2]]), kw=R.random() < 0.4)
        if p["mt"] == "unitary":
            p["proj"] = R.choice([None, "step", "stage"])
        if mode == "order":
            a = round(R.uniform(-0.3, 0.6), 3)
            p.update(seg=[a, round(a + R.choice([-1, 1]) * R.uniform(0.6, 1.0), 3)], how=R.choice(["forward", "reverse", "inverse", "direct"]))
            return p
        nv = R.choice([1, 2, 2])
        p["vocab"] = [dict(t=[round(R.uniform(-0.5, 0.6), 3), round(R.uniform(0.7, 1.6), 3)], steps=R.choice([6, 15, 40]),
                           how=R.choice(["forward", "reverse", "inverse", "direct", "config"])) for _ in range(nv)]
        if R.random() < 0.25:
            # few, very long steps: no accuracy to speak of, but still on the group
            p["vocab"][0].update(t=[-0.5, round(R.uniform(8, 30), 2)], steps=R.choice([2, 5]), far=True)
        faults = ["f32", "noise"] if p["proj"] else ["f32"]
        p["ops"] = [dict(v=R.randrange(nv), back=R.random() < 0.45, crash=R.random() < 0.1, torn=R.random() < 0.2,
                         store=R.choices([None, *faults], [8] + [1] * len(faults))[0], eps=R.choice([1e-8, 1e-5, 1e-3]),
                         interrupt=R.random() < 0.05, reps=R.choice([1, 1, 1, 5, 20]))
                    for _ in range(R.randint(8, 30))]
        return p

    def build(self, p, t0=0.0, t1=1.0, steps=20, salt=0):
        vf = F.GroupVF(p["n"], p["seed"], p["special"], p["linear"], None, salt)
        if p["mt"] == "matrix":
            mt = bijx.cg.Matrix()
        else:
            mt = bijx.cg.Unitary(special=p["special"], **({} if not p["proj"] else {"project_" + p["proj"]: True}))
        return bijx.ContFlowCG(vf, mt, t_start=t0, t_end=t1, steps=steps, tableau=F.bjx_tableau(p["tab"]))

    @staticmethod
    def call(m, how, a, b, steps, x, ld, kw, p):
        """Integrate from a to b through one of the public routes."""
        if how == "forward":
            return m.forward(x, ld, t_start=a, t_end=b, steps=steps, **kw)
        if how == "reverse":
            return m.reverse(x, ld, t_start=b, t_end=a, steps=steps, **kw)
        if how == "inverse":
            return m.invert().forward(x, ld, t_start=b, t_end=a, steps=steps, **kw)
        return bijx.cg.crouch_grossmann(lambda t, y, kw: m.vf(t, y[0], **kw), (x, ld), kw, a, b, step_size=(b - a) / (steps - 0.3),
                                        manifold_types=(m.x_type, bijx.cg.Euclidean()), tableau=m.tableau)

    def field(self, p, c):
        par = F.group_params(p["n"], p["seed"], p["special"])
        return lambda t, u: F.group_field(par, np, t, u, np.asarray(c), p["linear"])

    def execute(self, plan, ctx):
        getattr(self, "run_" + plan["mode"])(plan, ctx)

    def onto(self, ctx, what, u, p, bound, shape=None):
        if shape is not None and u.shape != shape:
            raise Violation("wrong-shape", f"{what}: {u.shape} instead of {shape}")
        if not np.all(np.isfinite(u)):
            raise Violation("not-finite", f"{what}: {u.ravel()[:4]}")
        d = defect(u, p["special"])
        if not d <= bound:
            raise Violation("left-the-group", f"{what}: deviation {d:.2e} from the group (allowed {bound:.1e})")

    # ------------------------------------------------------------ long histories
    def run_history(self, p, ctx):
        r = np_rng("x", p["x"])
        shape = (*p["batch"], p["n"], p["n"])
        x = F.random_group(r, p["n"], tuple(p["batch"]), p["special"])
        ld = np.zeros(p["batch"])
        kw = {"c": 0.2} if p["kw"] else {}
        f = self.field(p, kw.get("c", 0.0))
        vocab = p["vocab"]
        salt = [0]

        def fresh(salt):
            # "config" entries use the configured interval of their own flow
            return [self.build(p, *v["t"], v["steps"], salt) if v["how"] == "config" else self.build(p, salt=salt) for v in vocab]

        flows = ctx.call("construct", fresh, 0)
        jits = {}

        def segment(iv, back):
            v = vocab[iv]
            a, b = v["t"][::-1] if back else v["t"]
            if (iv, back) not in jits:
                graph, _ = nnx.split(flows[iv])

                def run(st, x, ld, n):
                    m = nnx.merge(graph, st)

                    def one(_, y):
                        if v["how"] == "config":
                            return (m.reverse if back else m.forward)(*y, **kw)
                        return self.call(m, v["how"], a, b, v["steps"], *y, kw, p)

                    return jax.lax.fori_loop(0, n, one, (x, ld))

                jits[iv, back] = jax.jit(run)
            st = nnx.split(flows[iv])[1]
            return lambda y, n: tree_np(jits[iv, back](st, jnp.asarray(y[0]), jnp.asarray(y[1]), n)), a, b

        disk = Disk(ctx)
        y = (x, ld)
        base = defect(x, p["special"])  # deviation inherited from storage
        nsteps = 0
        for i, op in enumerate(p["ops"]):
            run, a, b = segment(op["v"], op["back"])
            v = vocab[op["v"]]
            what = f"op {i} {v['how']} {a}->{b} x{op['reps']}"
            if op["interrupt"]:
                with LineFault(1 + (op["reps"] + i) % 20, InjectedInterrupt, tracing=True) as lf:
                    try:
                        self.call(flows[op["v"]], "forward" if v["how"] == "config" else v["how"], a, b, 3, jnp.asarray(y[0]), jnp.asarray(y[1]), kw, p)
                    except InjectedInterrupt:
                        pass
                if lf.fired:
                    ctx.fault("interrupt")
            y0, off = y, base > 1e-10
            y = ctx.call(what, run, y, op["reps"])
            n = v["steps"] * op["reps"]
            nsteps += n
            ctx.simtime += abs(b - a) * op["reps"]
            if p["proj"]:
                base = 0.0
                self.onto(ctx, what, y[0], p, 2e-13, shape)
            else:
                # exponentials of algebra elements neither create nor amplify a deviation
                self.onto(ctx, what, y[0], p, 1.5 * base + (1e-10 if any(w.get("far") for w in vocab) else 1e-13) * (20 + nsteps), shape)
            if op["reps"] == 1 and not v.get("far"):
                m = F.scheme_np(f, a, b, *y0, v["steps"], F.TABLEAUS[p["tab"]], True)
                e = F.exact_np(f, a, b, *y0, True)
                for nm, got, mir, ex in zip(("state", "log density"), y, m, e):
                    tol = TOLK * np.abs(mir - ex).max() + 1e-9
                    if p["proj"] and off:
                        tol += 30 * off_eps  # noqa: F821
                    if got.shape != ex.shape:
                        raise Violation("wrong-shape", f"{what} {nm}: {got.shape} instead of {ex.shape}")
                    d = np.abs(got - ex).max()
                    if not d <= tol:
                        raise Violation("wrong-flow", f"{what} {p['tab']} {v['steps']} steps, {nm} off by {d:.2e} (allowed {tol:.1e})")
            ctx.log(what, *y)
            ctx.state(v["how"], op["back"], p["tab"], p["proj"], op["store"], p["special"], p["n"])
            # ---- storage between segments
            u = y[0]
            if op["store"] == "f32":
                ctx.fault("lossy-storage")
                off_eps = 1e-6
                u = u.astype(np.complex64).astype(np.complex128)
            elif op["store"] == "noise":
                ctx.fault("perturbed-storage")
                off_eps = op["eps"] * 10
                u = u + op["eps"] * (r.normal(size=u.shape) + 1j * r.normal(size=u.shape))
            if op["store"]:
                y = (u, y[1])
                base = max(base, defect(u, p["special"]))
            disk.write(i, [(".x", y[0]), (".l", y[1])], "torn" if op["torn"] and op["crash"] else None)
            if op["crash"]:
                ctx.fault("crash-restart")
                salt[0] += 1
                items = [[(q, np.array(w)) for q, w in module_state(m)] for m in flows]
                flows[:] = fresh(salt[0])
                for m, it in zip(flows, items):
                    restore_state(m, it)
                rec = disk.load()
                if rec is not None:
                    y = (dict(rec[1])[".x"], dict(rec[1])[".l"])
                    base = max(base, defect(y[0], p["special"]))
                    off_eps = max(1e-6, defect(y[0], p["special"]))
        ctx.probe("integration-steps", nsteps)

    # ------------------------------------------------------------ convergence
    def run_order(self, p, ctx):
        r = np_rng("x", p["x"])
        x = F.random_group(r, p["n"], tuple(p["batch"]), p["special"])
        ld = np.zeros(p["batch"])
        kw = {"c": 0.2} if p["kw"] else {}
        f = self.field(p, kw.get("c", 0.0))
        a, b = p["seg"]
        flow = ctx.call("construct", self.build, p)
        ex = F.exact_np(f, a, b, x, ld, True, per_unit=500)
        errs, merrs = [], []
        counts = (12, 24, 48)
        for n in counts:
            y = tree_np(ctx.call(f"{p['how']} {n} steps", jax.jit(lambda x, ld: self.call(flow, p["how"], a, b, n, x, ld, kw, p)), jnp.asarray(x), jnp.asarray(ld)))
            self.onto(ctx, f"{n} steps", y[0], p, 1e-12)
            m = F.scheme_np(f, a, b, x, ld, n, F.TABLEAUS[p["tab"]], True)
            errs.append([np.abs(g - e).max() for g, e in zip(y, ex)])
            merrs.append([np.abs(g - e).max() for g, e in zip(m, ex)])
            for nm, g, t in zip(("state", "log density"), errs[-1], merrs[-1]):
                if not g <= TOLK * t + 1e-9:
                    raise Violation("wrong-flow", f"{p['tab']} {n} steps {nm}: error {g:.2e}, scheme {t:.2e}")
            ctx.log(n, *y)
            ctx.simtime += abs(b - a)
        # where the documented scheme converges with its order, so must the code
        order = F.ORDER[p["tab"]]
        for j, nm in ((0, "state"), (1, "log density")):
            g, t = [e[j] for e in errs], [e[j] for e in merrs]
            if g[2] < 1e-10 or t[2] < 1e-12:
                continue
            slope, mslope = (np.log2(v[0] / v[2]) / 2 for v in (g, t))
            ctx.probe("order-checked")
            if abs(mslope - order) < 0.25 and slope < order - 0.5:
                raise Violation("wrong-order", f"{p['tab']} {nm}: observed order {slope:.2f} (errors {g}), documented {order}")
        ctx.state("order", p["tab"], p["how"], p["proj"], p["special"], p["n"])

    # ------------------------------------------------------------ projections
    def run_project(self, p, ctx):
        r = np_rng("x", p["x"])
        n, sp = p["n"], p["special"]
        mt = bijx.cg.Unitary(special=sp, project_step=True)
        dt = bijx.cg.UnitaryDeriv(special=sp, project_step=True)
        for i, eps in enumerate(p["eps"]):
            u = F.random_group(r, n, tuple(p["batch"]), sp)
            z = r.normal(size=u.shape) + 1j * r.normal(size=u.shape)
            if eps:
                ctx.fault("perturbed-storage")
            v = np.asarray(ctx.call("project", mt.project, jnp.asarray(u + eps * z)))
            self.onto(ctx, f"project eps={eps}", v, p, 2e-13, u.shape)
            if np.abs(v - u).max() > 20 * eps + 1e-13:
                raise Violation("projection-moves-away", f"eps {eps}: moved by {np.abs(v - u).max():.2e}")
            t = np.asarray(ctx.call("project tangent", dt.project, jnp.asarray(z)))
            w = np.asarray(dt.project(jnp.asarray(t)))
            bad = max(np.abs(t + np.conj(np.swapaxes(t, -1, -2))).max(), np.abs(t - w).max(),
                      np.abs(np.trace(t, axis1=-2, axis2=-1)).max() if sp else 0)
            if t.shape != z.shape or bad > 1e-13:
                raise Violation("tangent-projection", f"result is {bad:.2e} off the Lie algebra")
            # orthogonal: what is removed has no component along the algebra
            a = (z - np.conj(np.swapaxes(z, -1, -2))) / 2
            if sp:
                a = a - np.trace(a, axis1=-2, axis2=-1)[..., None, None] / n * np.eye(n)
            if np.abs(t - a).max() > 1e-12:
                raise Violation("tangent-projection", "not the orthogonal projection to the Lie algebra")
            ctx.log(i, v, t)
            ctx.state("project", eps, n, sp)

    # ------------------------------------------------------------ Haar measure
    def run_haar(self, p, ctx):
        n = p["n"]
        p = dict(p, special=True)
        r = np_rng("haar", p["x"])
        if p["lattice"]:
            base = (2, 3, 2)
            dist = bijx.lie.HaarDistribution.periodic_gauge_lattice(n, (2, 3), rngs=nnx.Rngs(p["seed"]))
        else:
            base = tuple(p["base"])
            dist = bijx.lie.HaarDistribution(n, base, rngs=nnx.Rngs(p["seed"]))
        real = jax.random.normal
        hits = [0]

        def scripted(act, extreme, left=None):
            """The drawn Gaussians, acted on by a transformation that leaves their law invariant."""
            def normal(key, shape=(), dtype=None, **k):
                z = real(key, shape, **({} if dtype is None else {"dtype": dtype}), **k)
                pair = len(shape) >= 3 and shape[0] == 2 and tuple(shape[-2:]) == (n, n) and not jnp.iscomplexobj(z)
                if not pair and not (jnp.iscomplexobj(z) and tuple(shape[-2:]) == (n, n)):
                    return z
                hits[0] += 1
                c = z[0] + 1j * z[1] if pair else z
                if extreme:
                    c = c * jnp.asarray(np.where(np.arange(n) == 0, 1e-6, 7.0))[:, None]
                if left is not None:
                    c = act(c)
                return jnp.stack([c.real, c.imag]) if pair else c
            return normal

        def draw(op, key, act, left):
            bs = tuple(op["batch"])
            jax.random.normal = scripted(act, op["extreme"], left)
            try:
                if op["how"] == "fn":
                    full = bs + base
                    fn = lambda k: (bijx.lie.sample_haar(k, n, full), jnp.zeros(bs))  # noqa: E731
                elif op["how"] == "dist":
                    fn = lambda k: dist.sample(bs, rng=k)  # noqa: E731
                else:
                    fn = lambda k: dist.sample(bs)  # noqa: E731
                    return tree_np(fn(None))
                if op["mode"] == "jit":
                    fn = jax.jit(fn)
                if op["mode"] == "vmap":
                    return jax.tree.map(lambda v: v[0], tree_np(jax.vmap(fn)(jnp.stack([key, key]))))
                return tree_np(fn(key))
            finally:
                jax.random.normal = real

        for i, op in enumerate(p["ops"]):
            v = F.random_group(r, n, (), True)
            ph = np.exp(1j * r.uniform(-3, 3, size=n))
            key = jax.random.key(op["key"])
            act, expect = {
                "left": (lambda c: jnp.asarray(v) @ c, lambda u: v @ u),
                "scale": (lambda c: 3.7 * c, lambda u: u),
                "right-diag": (lambda c: c * jnp.asarray(ph / np.prod(ph) ** (1 / n)), lambda u: u * (ph / np.prod(ph) ** (1 / n))),
            }[op["act"]]
            what = f"{op['how']} {op['mode']} batch {op['batch']} base {base}"
            if op["extreme"]:
                ctx.fault("extreme-randomness")
            hits[0] = 0
            u, ld = ctx.call(what, draw, op, key, act, None)
            self.onto(ctx, what, u, p, 1e-12, (*op["batch"], *base, n, n))
            if ld.shape != tuple(op["batch"]) or not np.all(ld == ld.ravel()[0]):
                raise Violation("haar-density", f"{what}: log density {ld.shape} {ld.ravel()[:3]}")
            if op["how"] != "fn":
                l2 = np.asarray(dist.log_density(jnp.asarray(u)))
                if l2.shape != ld.shape or not np.array_equal(l2, ld):
                    raise Violation("haar-density", f"{what}: evaluated {l2.shape} differs from reported {ld.shape}")
            ctx.log(what, u)
            ctx.state("haar", op["how"], op["mode"], op["act"], op["extreme"], len(base))
            if hits[0] and op["how"] != "implicit":
                # an orthogonal change of the Gaussians must act on the group element by translation
                w, _ = ctx.call(what + " translated", draw, op, key, act, True)
                ctx.fault("scripted-randomness")
                want = expect(u)
                # principal roots may differ by an n-th root of unity (an element of the centre)
                q = np.einsum("...ij,...ij->...", np.conj(want), w) / n
                ok = np.abs(q**n - 1).max()
                tol = 1e-6 if op["extreme"] else 1e-9
                if not (ok < tol and np.abs(w - want * q[..., None, None]).max() < tol):
                    raise Violation("haar-not-invariant", f"{what} {op['act']}: translation of the draw is not a translation of the sample "
                                                          f"(centre defect {ok:.1e}, difference {np.abs(w - want * q[..., None, None]).max():.1e})")
        if p["law"]:
            # moments of the invariant measure over many keys
            N = 3000
            u = np.asarray(bijx.lie.sample_haar(jax.random.key(p["seed"]), n, (N,)))
            g = F.random_group(r, n, (), True)
            ctx.probe("law-checked")
            for nm, uu in (("samples", u), ("translated samples", g @ u)):
                tr = np.trace(uu, axis1=-2, axis2=-1)
                mom = [("tr", tr, 0), ("|tr|^2", np.abs(tr) ** 2, 1), ("|tr|^4", np.abs(tr) ** 4, 2),
                       ("|u00|^2", np.abs(uu[:, 0, 0]) ** 2, 1 / n), ("|u00|^4", np.abs(uu[:, 0, 0]) ** 4, 2 / n / (n + 1)),
                       ("u00 conj u11", uu[:, 0, 0] * np.conj(uu[:, 1, 1]), 0 if n > 2 else None),
                       ("tr^2", tr**2, 1 if n == 2 else 0), ("tr^3", tr**3, {2: 0, 3: 1}.get(n, 0))]
                for q, val, want in mom:
                    if want is None:
                        continue
                    z = abs(val.mean() - want) / (val.std() / np.sqrt(N) + 1e-12)
                    if z > 7:
                        raise Violation("haar-law", f"{nm}: mean of {q} is {val.mean():.4f}, Haar measure gives {want} ({z:.1f} sigma)")

    def nontrivial(self, plan, ctx):
        return True

    def simplify(self, plan):
        yield from self.simplify_ops(plan) if "ops" in plan else ()
        for i, op in enumerate(plan.get("ops", [])):
            for k, v in (("crash", False), ("torn", False), ("store", None), ("interrupt", False), ("reps", 1), ("extreme", False), ("mode", "eager")):
                if k in op and op[k] != v:
                    q = copy.deepcopy(plan)
                    q["ops"][i][k] = v
                    yield q
        for k, v in (("kw", False), ("law", False), ("linear", True)):
            if plan.get(k, v) != v:
                yield dict(copy.deepcopy(plan), **{k: v})
