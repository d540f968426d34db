"""C09: continuous flows stopped, checkpointed, crashed, restarted and reversed at any time."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import flows as F
from .core import Disk, Violation, module_state, np_rng, restore_state, show, tree_np
from .scenario import Scenario


class SCENARIO(Scenario):
    ID = "C09"
    TITLE = "Continuous flows can be stopped, restarted and reversed at any time"
    QUICK = 84
    THOROUGH = 10000
    RULE = ("one case = an integration of one continuous flow cut into segments by stops, checkpoints, crashes and "
            "restarts, reversals and overridden times and step counts; after every operation state and log density are "
            "compared with the exact flow; non-trivial if at least two segments ran; distinct by event-log hash")
    REAL = ["ContFlowRK4", "ContFlowDiffrax", "ContFlowCG", "AutoJacVF", "ConvVF", "odeint_rk4", "crouch_grossmann", "diffrax"]
    STUB = ["vector fields (known velocity and divergence, evaluation times recorded through host callbacks)", "checkpoint store"]
    ASSUME = ["a solver is entitled to four times the error of the documented scheme with the configured steps (numpy mirror), "
              "diffrax Tsit5/Dopri5 with dt<=0.1 to 3e-6"]

    def generate(self, R, idx, tier):
        k = R.choices(["rk4", "diffrax", "cg_e", "cg_u", "conv", "raw"], [4, 3, 2.2, 2.5, 0.6, 1])[0]
        s = dict(k=k, seed=R.randrange(10**6), t0=0.0, t1=1.0)
        if R.random() < 0.6:
            s["t0"], s["t1"] = R.choice([(0.3, 1.4), (1.0, 0.0), (-0.5, 0.5), (2.0, 0.7), (0.0, 0.35)])
        s["field"] = R.choice(["lin", "tanh", "sin"])
        s["n"] = R.choice([1, 2, 3])
        s["auto"] = k in ("rk4", "diffrax", "cg_e") and R.random() < 0.3
        s["kw"] = R.choice([None, "scalar", "batch"]) if k != "conv" else None
        if s["auto"] and s["kw"] == "batch":
            s["kw"] = "scalar"  # AutoJacVF maps over items of x only
        s["steps"] = R.choice([10, 20, 30])
        if k == "cg_e":
            s["tab"] = R.choice(["EULER", "CG2", "CG3", "HEUN"])
        if k == "cg_u":
            s.update(tab=R.choice(["EULER", "CG2", "CG3"]), n=R.choice([2, 3]), special=R.random() < 0.7,
                     linear=R.random() < 0.3, proj=R.choice([None, None, "step", "stage"]))
            if not s["special"]:
                s["proj"] = None if s["proj"] is None else s["proj"]
        if k == "diffrax":
            s["solver"] = R.choice(["Tsit5", "Dopri5"])
            s["dt"] = R.choice([0.1, 0.07, 0.05])
        s["times"] = R.random() < 0.5
        ops, n = [], R.randint(3, 7)
        grid = [-0.4, 0.0, 0.1, 0.25, 0.5, 0.61, 0.8, 1.0, 1.3]
        for _ in range(n):
            o = R.choices(["seg", "default", "back", "ckpt", "crash", "save"], [5, 1.5, 2.2, 1.5, 1.2, 1.2])[0]
            op = dict(o=o)
            if o in ("seg", "save"):
                op["t"] = R.choice(grid) if R.random() < 0.7 else round(R.uniform(-0.5, 1.5), 4)
                op["mode"] = R.choice(["eager", "jit", "jit", "traced"])
                op["steps"] = R.choice([None, None, 12, 25])
                op["how"] = R.choice(["forward", "forward", "reverse", "solve_flow", "inverse"])
                op["c"] = round(R.uniform(-0.5, 0.5), 3)
            if o == "default":
                op["how"] = R.choice(["forward", "reverse", "roundtrip"])
                op["mode"] = R.choice(["eager", "jit"])
                op["c"] = round(R.uniform(-0.5, 0.5), 3)
                op["half"] = R.choice([None, None, "t_start", "t_end"])
            if o == "ckpt":
                op["fault"] = R.choices([None, "lost", "torn"], [6, 1, 1])[0]
            ops.append(op)
        return dict(sys=s, ops=ops, x=R.randrange(10**6), start=R.choice(grid))

    # ------------------------------------------------------------------ systems

    def build(self, s, times, salt=0):
        k = s["k"]
        if k == "cg_u":
            vf = F.GroupVF(s["n"], s["seed"], s["special"], s["linear"], times, salt)
            proj = {} if not s["proj"] else {"project_" + s["proj"]: True}
            mt = bijx.cg.Unitary(special=s["special"], **proj)
            return bijx.ContFlowCG(vf, mt, t_start=s["t0"], t_end=s["t1"], steps=s["steps"], tableau=F.bjx_tableau(s["tab"]))
        if k == "conv":
            from functools import partial

            from bijx.bijections.conv_cnf import ConvVF
            from bijx.nn.features import FourierFeatures, PolynomialFeatures

            from . import zoo

            vf = ConvVF.build(kernel_shape=(3, 3), channel_shape=(), use_bias=bool(s["seed"] % 2),
                              time_kernel=bijx.nn.embeddings.KernelFourier(5), time_kernel_reduced=3,
                              features=(partial(FourierFeatures, 4), partial(PolynomialFeatures, (1,))), features_reduced=3,
                              rngs=nnx.Rngs(1 + salt))
            vf = zoo.perturb(vf, ("conv09", s["seed"], salt), 0.15)
            return bijx.ContFlowRK4(vf, t_start=s["t0"], t_end=s["t1"], steps=s["steps"])
        vf = F.VF(s["field"], s["n"], s["seed"], times, salt, auto=bool(s["auto"]))
        if s["auto"]:
            vf = bijx.AutoJacVF(vf, event_dim=1)
        if k in ("rk4", "raw"):
            return bijx.ContFlowRK4(vf, t_start=s["t0"], t_end=s["t1"], steps=s["steps"])
        if k == "cg_e":
            return bijx.ContFlowCG(vf, bijx.cg.Euclidean(), t_start=s["t0"], t_end=s["t1"], steps=s["steps"],
                                   tableau=F.bjx_tableau(s["tab"]))
        import diffrax

        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(t_start=s["t0"], t_end=s["t1"], dt=s["dt"],
                                                           solver=getattr(diffrax, s["solver"])()))

    def reference(self, s, flow):
        """(field(c) -> f(t, x) -> (velocity, log-density rate), group?)"""
        if s["k"] == "cg_u":
            p = F.group_params(s["n"], s["seed"], s["special"])
            return (lambda c: lambda t, u: F.group_field(p, np, t, u, c, s["linear"])), True
        if s["k"] == "conv":
            graph, st = nnx.split(flow.vf)

            @jax.jit
            def vel(t, x):
                vf = nnx.merge(graph, st)

                def one(x):
                    f = lambda y: vf(t, y[None])[0][0]  # noqa: E731
                    j = jax.jacfwd(f)(x).reshape(x.size, x.size)
                    return f(x), -jnp.trace(j)

                return jax.vmap(one)(x)

            return (lambda c: lambda t, x: tuple(np.asarray(a) for a in vel(t, x))), False
        p = F.euclid_params(s["field"], s["n"], s["seed"])

        def field(c):
            def f(t, x):
                v, div = F.euclid(s["field"], p, np, t, x, c)
                return v, -div
            return f

        return field, False

    def mirror(self, s, f, t0, t1, x, ld, steps, group):
        """What the documented scheme gives (unused for diffrax: fixed tolerance)."""
        if s["k"] == "diffrax":
            return x, ld
        tab = F.RK4 if s["k"] in ("rk4", "conv", "raw") else F.TABLEAUS[s["tab"]]
        return F.scheme_np(f, t0, t1, x, ld, steps, tab, group)

    # ------------------------------------------------------------------

    def execute(self, plan, ctx):
        s = plan["sys"]
        times = F.Times()
        times.on = bool(s["times"])
        flow = ctx.call("construct", self.build, s, times)
        field, group = self.reference(s, flow)
        r = np_rng("x", plan["x"])
        if s["k"] == "cg_u":
            x = F.random_group(r, s["n"], (2,), s["special"])
        elif s["k"] == "conv":
            x = r.normal(size=(2, 4, 4)) * 0.7
        else:
            x = r.normal(size=(2, s["n"]))
        ld = r.normal(size=2)
        t = plan["start"]
        # cur: delivered state; ex: exact state; mi: state of the documented scheme
        cur, ex, mi = (x, ld), (x, ld), (x, ld)
        err = 0.0  # error the diffrax solver is entitled to
        stack, disk, jits = [], Disk(ctx), {}
        segs = 0

        def cval(op):
            if s["kw"] is None:
                return None, 0.0
            c = np.asarray(op["c"])
            if s["kw"] == "batch":
                c = op["c"] + np_rng("c", plan["x"]).uniform(-0.3, 0.3, size=2)
            return c, c

        def run(what, how, t0, t1, st, op, mode, steps, c, default=False):
            """Integrate from t0 to t1 through the public interface named by `how`."""
            kw = {} if c is None else {"c": jnp.asarray(c)}
            ov = {}
            if s["k"] == "diffrax":
                if steps is not None:
                    ov["dt"] = max(0.02, abs(t1 - t0) / steps if t1 != t0 else 0.05)
                    ov["dt"] = min(ov["dt"], 0.1)
            elif steps is not None:
                ov["steps"] = steps
            rev = how in ("reverse", "inverse")
            a, b = (t1, t0) if rev else (t0, t1)

            def go(x, ld, a, b, kw):
                tt = {} if default else dict(t_start=a, t_end=b)
                m = self_flow[0]
                if s["k"] == "raw" and not default:
                    from bijx.solvers import odeint_rk4

                    n = steps or s["steps"]
                    return odeint_rk4(lambda t, y, kw: m.vf(t, y[0], **kw), (x, ld), t1, kw,
                                      step_size=abs(t1 - t0) / n if t1 != t0 else 0.1, start_time=t0)
                if how == "forward":
                    return m.forward(x, ld, **tt, **ov, **kw)
                if how == "reverse":
                    return m.reverse(x, ld, **tt, **ov, **kw)
                if how == "inverse":
                    return m.invert().forward(x, ld, **tt, **ov, **kw)
                out = m.solve_flow(x, ld, **tt, **ov, **kw)
                return jax.tree.map(lambda z: z[-1], out.ys) if s["k"] == "diffrax" else out

            self_flow = [box[0]]
            times.ts.clear()
            xj, lj = jnp.asarray(st[0]), jnp.asarray(st[1])
            if mode == "traced" and s["k"] in ("rk4", "diffrax") and not default:
                key = ("traced", how, steps if s["k"] != "diffrax" else str(ov))
                if key not in jits:
                    gr, vs = nnx.split(box[0])

                    def pure(vs, x, ld, a, b, kw):
                        self_flow[0] = nnx.merge(gr, vs)
                        return go(x, ld, a, b, kw)

                    jits[key] = (jax.jit(pure), vs)
                fn, _ = jits[key]
                out = ctx.call(what, fn, nnx.split(box[0])[1], xj, lj, a, b, kw)
            elif mode in ("jit", "traced"):
                out = ctx.call(what, jax.jit(lambda x, ld, kw: go(x, ld, a, b, kw)), xj, lj, kw)
            else:
                out = ctx.call(what, go, xj, lj, a, b, kw)
            out = tree_np(out)
            if times.on:
                jax.effects_barrier()
                lo, hi = min(t0, t1), max(t0, t1)
                bad = [v for v in times.ts if not lo - 1e-6 <= v <= hi + 1e-6]
                if bad:
                    raise Violation("time-outside-interval", f"{what}: field evaluated at {bad[:3]} for [{lo}, {hi}]")
                ctx.probe("field-evaluations", len(times.ts))
            ctx.simtime += abs(t1 - t0)
            return out

        def check(what, out, ex, mi, extra=0.0):
            if s["k"] == "diffrax":
                tol = 3e-6 * (1 + err) + extra
            else:
                tol = 4 * max(np.abs(mi[0] - ex[0]).max(), np.abs(mi[1] - ex[1]).max()) + 2e-8 + extra
            for nm, a, b in (("state", out[0], ex[0]), ("log density", out[1], ex[1])):
                if a.shape != b.shape:
                    raise Violation("wrong-shape", f"{what}: {nm} {a.shape} instead of {b.shape}")
                e = np.abs(a - b).max()
                if not e <= tol * (1 + np.abs(b).max()):
                    raise Violation("off-the-exact-flow", f"{what}: {nm} is off by {e:.3e}, solver accuracy {tol:.1e}: {show(a)} exact {show(b)}")
            ctx.log(what, *out)

        box = [flow]
        for i, op in enumerate(plan["ops"]):
            o = op["o"]
            if o in ("seg", "save"):
                c, cv = cval(op)
                f = field(cv)
                steps = op["steps"]
                t1 = op["t"]
                what = f"op {i} {s['k']} {op['how']} {op['mode']} {t}->{t1} steps {steps}"
                if o == "save" and s["k"] == "diffrax" and t1 != t:
                    import diffrax

                    ts = np.linspace(t, t1, 5)[1:4]
                    sol = ctx.call(what, box[0].solve_flow, jnp.asarray(cur[0]), jnp.asarray(cur[1]), t_start=t, t_end=t1,
                                   saveat=diffrax.SaveAt(ts=jnp.asarray(ts)), **({} if c is None else {"c": jnp.asarray(c)}))
                    e2, tp = ex, t
                    for j, tj in enumerate(ts):
                        e2 = F.exact_np(f, tp, tj, *e2)
                        tp = tj
                        check(f"{what} saved at {tj:.3f}", (np.asarray(sol.ys[0][j]), np.asarray(sol.ys[1][j])), e2, None, 1e-6)
                    continue
                new = run(what, op["how"], t, t1, cur, op, op["mode"], steps, c)
                nex = F.exact_np(f, t, t1, *ex, group)
                nmi = self.mirror(s, f, t, t1, *mi, steps or s["steps"], group) if t1 != t else mi
                stack.append((t, t1, steps, op["c"], cur))
                err += abs(t1 - t)
                check(what, new, nex, nmi)
                cur, ex, mi, t = new, nex, nmi, t1
                segs += 1
                ctx.state(s["k"], op["how"], op["mode"], steps, np.sign(t1 - stack[-1][0]))
            elif o == "back" and stack:
                t0, t1, steps, cc, before = stack.pop()
                if t1 != t:
                    stack.clear()
                    continue
                c, cv = cval(dict(c=cc))
                f = field(cv)
                what = f"op {i} back over {t0}->{t1}"
                kw = {} if c is None else {"c": jnp.asarray(c)}
                ov = {}
                if steps is not None and s["k"] != "diffrax":
                    ov["steps"] = steps
                new = tree_np(ctx.call(what, box[0].reverse, jnp.asarray(cur[0]), jnp.asarray(cur[1]), t_start=t0, t_end=t1, **ov, **kw))
                nex = F.exact_np(f, t1, t0, *ex, group)
                nmi = self.mirror(s, f, t1, t0, *mi, steps or s["steps"], group) if t1 != t0 else mi
                err += abs(t1 - t0)
                ctx.simtime += abs(t1 - t0)
                check(what, new, nex, nmi)
                cur, ex, mi, t = new, nex, nmi, t0
                segs += 1
                ctx.state(s["k"], "back", steps)
            elif o == "default":
                c, cv = cval(op)
                f = field(cv)
                a, b = s["t0"], s["t1"]
                what = f"op {i} {s['k']} default {op['how']} {op['mode']}"
                y = (x, ld)
                seq = {"forward": [("forward", a, b)], "reverse": [("reverse", b, a)],
                       "roundtrip": [("forward", a, b), ("reverse", b, a)]}[op["how"]]
                half = op["half"] if op["how"] != "roundtrip" else None
                e2, m2 = y, y
                for how, ta, tb in seq:
                    if half:
                        # one end configured, the other overridden
                        tov = 0.45
                        fa, fb = (tov, s["t1"]) if half == "t_start" else (s["t0"], tov)
                        ta, tb = (fa, fb) if how == "forward" else (fb, fa)
                        meth = box[0].forward if how == "forward" else box[0].reverse
                        kw = {} if c is None else {"c": jnp.asarray(c)}
                        y = tree_np(ctx.call(what, meth, jnp.asarray(y[0]), jnp.asarray(y[1]), **{half: tov}, **kw))
                    else:
                        y = run(what, how, ta, tb, y, op, op["mode"], None, c, default=True)
                    e2 = F.exact_np(f, ta, tb, *e2, group)
                    m2 = self.mirror(s, f, ta, tb, *m2, s["steps"], group)
                    err += abs(tb - ta)
                    check(f"{what} {how} {half}", y, e2, m2)
                segs += 1
                ctx.state(s["k"], "default", op["how"], op["mode"], half)
            elif o == "ckpt":
                items = [(".t", np.asarray(t)), (".x", cur[0]), (".ld", cur[1]), (".ex", ex[0]), (".exl", ex[1])]
                items += [(".mi", mi[0]), (".mil", mi[1])]
                disk.write(i, items + [("m" + p, v) for p, v in module_state(box[0])], op.get("fault"))
                ctx.log("ckpt")
            elif o == "crash":
                rec = disk.load()
                if rec is None:
                    continue
                ctx.fault("crash-restart")
                d = dict(rec[1])
                new = self.build(s, times, salt=7)  # same constructor arguments, other initial randomness
                restore_state(new, [(p[1:], v) for p, v in rec[1] if p.startswith("m")])
                box[0] = new
                t = float(d[".t"])
                cur, ex = (d[".x"], d[".ld"]), (d[".ex"], d[".exl"])
                mi = (d[".mi"], d[".mil"])
                stack.clear()
                ctx.log("crash", str(t))
        ctx.segments = segs

    def nontrivial(self, plan, ctx):
        return getattr(ctx, "segments", 0) >= 2

    def simplify_ops(self, plan):
        yield from super().simplify_ops(plan)
        for k, v in (("kw", None), ("auto", False), ("times", False)):
            if plan["sys"].get(k) not in (v, None):
                p = copy.deepcopy(plan)
                p["sys"][k] = v
                yield p
