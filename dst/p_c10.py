"""C10: gradients carried segment by segment through interrupted integrations."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import flows as F
from .core import Disk, InjectedInterrupt, LineFault, Violation, leaves_np, module_state, np_rng, restore_state, tree_np
from .scenario import Scenario

TOLK = 40.0


class SCENARIO(Scenario):
    ID = "C10"
    TITLE = "Gradients through interrupted integrations equal those of the exact flow"
    QUICK = 38
    THOROUGH = 5000
    RULE = ("one case = an integration of one continuous flow in one or more segments, stopped, saved, crashed and "
            "restarted in the forward and in the backward sweep, with cotangents carried back segment by segment; "
            "gradients with respect to initial state, log density, parameters and extra argument are compared with the "
            "exact flow's; non-trivial always; distinct by event-log hash")
    REAL = ["ContFlowRK4 and its adjoint", "ContFlowDiffrax with three adjoints", "ContFlowCG and its adjoint (Euclidean, Matrix, "
            "Unitary, transported, projected)", "odeint_rk4", "crouch_grossmann", "AutoJacVF", "diffrax", "JAX autodiff"]
    STUB = ["vector fields (known velocity and divergence)", "checkpoint store of states and cotangents"]
    ASSUME = ["reference gradients: autodiff through a fine RK4 in ambient coordinates written in the harness",
              f"accuracy allowed: {TOLK:g} times the relative error of the documented scheme on values, plus 2e-6"]

    def generate(self, R, idx, tier):
        k = R.choices(["rk4", "diffrax", "cg_e", "cg_u"], [3.5, 2, 2.2, 3])[0]
        s = dict(k=k, seed=R.randrange(10**6), n=R.choice([1, 2, 3]), field=R.choice(["lin", "tanh", "sin"]))
        s["kw"] = R.choice([None, "scalar", "batch", "batch"])
        s["auto"] = k in ("rk4", "cg_e") and R.random() < 0.3
        if s["auto"] and s["kw"] == "batch":
            s["kw"] = "scalar"
        s["steps"] = R.choice([15, 25])
        if k == "cg_e":
            s["tab"] = R.choice(["EULER", "CG2", "CG3", "HEUN"])
        if k == "cg_u":
            s.update(tab=R.choice(["CG2", "CG3", "CG3"]), n=R.choice([2, 3]), special=R.random() < 0.7, linear=R.random() < 0.2,
                     transport=R.random() < 0.5, mt=R.choice(["unitary", "matrix"]))
            s["dproj"] = R.choice([None, "step", "stage"]) if (s["transport"] and s["mt"] == "unitary") else None
            s["proj"] = None
        if s.get("tab") == "EULER":
            s["steps"] = 200
        if k == "diffrax":
            s.update(solver=R.choice(["Tsit5", "Dopri5"]), dt=R.choice([0.1, 0.07]),
                     adjoint=R.choice(["RecursiveCheckpointAdjoint", "DirectAdjoint", "BacksolveAdjoint"]))
        nseg = R.choice([1, 2, 2, 3])
        pts = sorted(round(R.uniform(-0.4, 1.2), 3) for _ in range(nseg + 1))
        if R.random() < 0.4:
            pts.reverse()
        if nseg == 2 and R.random() < 0.25:
            pts[2] = round(pts[0] + 0.3 * (pts[1] - pts[0]), 3)  # forwards, then partly back
        segs = [dict(a=pts[i], b=pts[i + 1], how=R.choice(["forward", "forward", "reverse", "inverse"] + ["direct"] * (0 if k == "diffrax" else 2)),
                     mode=R.choice(["jit", "jit", "eager"]), crash_f=R.random() < 0.2, crash_b=R.random() < 0.25,
                     again=R.random() < 0.2, interrupt=R.random() < 0.2, frac=round(R.random(), 3),
                     fault=R.choices([None, "torn"], [5, 1])[0]) for i in range(nseg)]
        return dict(sys=s, segs=segs, x=R.randrange(10**6), default=R.random() < 0.25)

    def build(self, s, segs, default, salt=0):
        k = s["k"]
        t0, t1 = (segs[0]["a"], segs[0]["b"]) if default else (0.0, 1.0)
        if k == "cg_u":
            vf = F.GroupVF(s["n"], s["seed"], s["special"], s["linear"], None, salt)
            if s["mt"] == "matrix":
                mt = bijx.cg.Matrix(transport_adjoint=s["transport"])
            else:
                d = bijx.cg.UnitaryDeriv(special=s["special"], **({} if not s["dproj"] else {"project_" + s["dproj"]: True}))
                mt = bijx.cg.Unitary(special=s["special"], transport_adjoint=s["transport"], derivative=d)
            return bijx.ContFlowCG(vf, mt, t_start=t0, t_end=t1, steps=s["steps"], tableau=F.bjx_tableau(s["tab"]))
        vf = F.VF(s["field"], s["n"], s["seed"], None, salt, auto=bool(s["auto"]))
        if s["auto"]:
            vf = bijx.AutoJacVF(vf, event_dim=1)
        if k == "rk4":
            return bijx.ContFlowRK4(vf, t_start=t0, t_end=t1, steps=s["steps"])
        if k == "cg_e":
            return bijx.ContFlowCG(vf, bijx.cg.Euclidean(), t_start=t0, t_end=t1, steps=s["steps"], tableau=F.bjx_tableau(s["tab"]))
        import diffrax

        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(t_start=t0, t_end=t1, dt=s["dt"], solver=getattr(diffrax, s["solver"])(),
                                                           adjoint=getattr(diffrax, s["adjoint"])()))

    def params(self, s):
        if s["k"] == "cg_u":
            p = F.group_params(s["n"], s["seed"], s["special"])
            sp = p.pop("s")
            return p, sp
        return F.euclid_params(s["field"], s["n"], s["seed"]), None

    def execute(self, plan, ctx):
        s, segs = plan["sys"], plan["segs"]
        group = s["k"] == "cg_u"
        default = plan["default"]
        flow = ctx.call("construct", self.build, s, segs, default)
        p, sp = self.params(s)
        r = np_rng("x", plan["x"])
        if group:
            x = F.random_group(r, s["n"], (2,), s["special"])
            ctx_x = r.normal(size=x.shape) + 1j * r.normal(size=x.shape)
        else:
            x = r.normal(size=(2, s["n"]))
            ctx_x = r.normal(size=x.shape)
        ld, ct_l = r.normal(size=2), r.normal(size=2)
        c = np.zeros(2) if s["kw"] is None else (np.asarray(0.3) if s["kw"] == "scalar" else r.uniform(-0.5, 0.5, size=2))

        # ---- exact flow and its gradient
        def velocity(xp, t, y, p, c):
            if group:
                a, rate = F.group_field(dict(p, s=sp), xp, t, y, c, s["linear"])
                return a, rate
            v, div = F.euclid(s["field"], p, xp, t, y, c)
            return v, -div

        N = 400

        def exact(x, ld, p, c):
            def one(carry, k, a, h):
                def f(t, y):
                    v, rate = velocity(jnp, t, y, p, c)
                    return (v @ y if group else v), rate
                y, l = carry
                t = a + k * h
                k1 = f(t, y)
                k2 = f(t + h / 2, y + h / 2 * k1[0])
                k3 = f(t + h / 2, y + h / 2 * k2[0])
                k4 = f(t + h, y + h * k3[0])
                return (y + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0]), l + h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1]))

            def body(carry, ahk):
                a, h, k = ahk
                return one(carry, k, a, h), None

            n = max(40, N // len(segs))
            a = np.concatenate([np.full(n, g["a"]) for g in segs])
            h = np.concatenate([np.full(n, (g["b"] - g["a"]) / n) for g in segs])
            k = np.concatenate([np.arange(n) for g in segs])
            return jax.lax.scan(body, (x, ld), (jnp.asarray(a), jnp.asarray(h), jnp.asarray(k)))[0]

        def ref(x, ld, p, c):
            y, vjp = jax.vjp(exact, x, ld, p, c)
            return y, vjp((jnp.asarray(ctx_x), jnp.asarray(ct_l)))

        jp = {k: jnp.asarray(v) for k, v in p.items()}
        (ye, le), (gx, gl, gp, gc) = tree_np(jax.jit(ref)(jnp.asarray(x), jnp.asarray(ld), jp, jnp.asarray(c)))
        # accuracy the scheme is entitled to
        if s["k"] == "diffrax":
            acc = 1e-7
        else:
            tab = F.RK4 if s["k"] == "rk4" else F.TABLEAUS[s["tab"]]
            acc = 0

            def flat(t, u):
                v, rate = velocity(np, t, u, p, c)
                return v @ u, rate

            # (adjoints of group flows are integrated in flat space with the same scheme)
            for grp in ((True, False) if group else (False,)):
                y = z = (x, ld)
                fn = flat if group and not grp else (lambda t, u: velocity(np, t, u, p, c))
                for g in segs:
                    y = F.scheme_np(fn, g["a"], g["b"], *y, s["steps"], tab, grp)
                    z = F.exact_np(fn, g["a"], g["b"], *z, grp)
                    acc = max([acc] + [np.abs(u - v).max() / (1 + np.abs(v).max()) for u, v in zip(y, z)])

        # ---- the code under test
        box = [flow]
        jits = {}

        def seg_fn(g):
            rev = g["how"] in ("reverse", "inverse")
            ov = {} if (default and g is segs[0]) else dict(
                t_start=g["b"] if rev else g["a"], t_end=g["a"] if rev else g["b"])
            if default and g is segs[0] and rev:
                ov = dict(t_start=g["b"], t_end=g["a"])
            graph, st = nnx.split(box[0])

            def run(st, x, ld, c, ts):
                m = nnx.merge(graph, st)
                kw = {} if s["kw"] is None else {"c": c}
                if g["how"] == "direct":
                    # the solver functions themselves; the step size does not divide the interval
                    h = (g["b"] - g["a"]) / (s["steps"] - 0.4)
                    if s["k"] == "rk4":
                        from bijx.solvers import odeint_rk4

                        return odeint_rk4(lambda t, y, kw: m.vf(t, y[0], **kw), (x, ld), ts[1], kw, step_size=abs(h), start_time=ts[0])
                    return bijx.cg.crouch_grossmann(lambda t, y, kw: m.vf(t, y[0], **kw), (x, ld), kw, ts[0], ts[1], step_size=h,
                                                    manifold_types=(m.x_type, bijx.cg.Euclidean()), tableau=m.tableau)
                if g["how"] == "forward":
                    return m.forward(x, ld, **ov, **kw)
                if g["how"] == "reverse":
                    return m.reverse(x, ld, **ov, **kw)
                return m.invert().forward(x, ld, **ov, **kw)

            return run, st

        def forward(i, g, y):
            run, st = seg_fn(g)
            f = jax.jit(run) if g["mode"] == "jit" else run
            return tree_np(f(st, jnp.asarray(y[0]), jnp.asarray(y[1]), jnp.asarray(c), jnp.asarray([g["a"], g["b"]])))

        def backward(i, g, y, ct):
            run, st = seg_fn(g)

            def vj(st, x, ld, c, ts, ct):
                params, rest = nnx.split_state(st, nnx.Param, ...)
                _, vjp = jax.vjp(lambda pr, *args: run(nnx.merge_state(pr, rest), *args), params, x, ld, c, ts)
                return vjp(ct)

            f = jax.jit(vj) if g["mode"] == "jit" else vj
            gp_, gx_, gl_, gc_, gt_ = f(st, jnp.asarray(y[0]), jnp.asarray(y[1]), jnp.asarray(c), jnp.asarray([g["a"], g["b"]]), jax.tree.map(jnp.asarray, ct))
            names = {}
            for path, v in nnx.to_flat_state(gp_):
                nm = [q for q in path if isinstance(q, str) and q.startswith("p_")][-1][2:]
                names[nm] = np.asarray(v.get_value() if isinstance(v, nnx.Variable) else v)
            return names, (np.asarray(gx_), np.asarray(gl_)), np.asarray(gc_), np.asarray(gt_)

        disk = Disk(ctx)

        def crash(what):
            """Process dies: only what is on disk survives; objects are rebuilt by their constructor."""
            ctx.fault("crash-restart:" + what)
            items = [(q, np.array(v)) for q, v in module_state(box[0])]
            new = self.build(s, segs, default, salt=5)
            restore_state(new, items)
            box[0] = new

        ys = [(x, ld)]
        i = 0
        while i < len(segs):
            g = segs[i]
            if g["interrupt"] and g["mode"] == "eager":
                with LineFault(1 + int(g["frac"] * 25), InjectedInterrupt, tracing=True) as lf:
                    try:
                        forward(i, g, ys[-1])
                    except InjectedInterrupt:
                        pass
                if lf.fired:
                    ctx.fault("interrupt")
            y = ctx.call(f"segment {i} {s['k']} {g['how']}", forward, i, g, ys[-1])
            ys.append(y)
            disk.write(i, [(".x", y[0]), (".l", y[1])], None)
            if g["crash_f"]:
                crash("forward-sweep")
                rec = disk.load()
                ys[-1] = (dict(rec[1])[".x"], dict(rec[1])[".l"])
            i += 1
        ctx.simtime += sum(abs(g["b"] - g["a"]) for g in segs)
        ct = (ctx_x, ct_l)
        tp, tc, tpairs = {}, 0.0, []
        for i in reversed(range(len(segs))):
            g = segs[i]
            if g["crash_b"]:
                # cotangents of the later segments are reloaded; a torn record repeats the last segment
                crash("backward-sweep")
            what = f"gradient of segment {i} {s['k']} {g['how']} {g['a']}->{g['b']}"
            names, nct, gc_, gt_ = ctx.call(what, backward, i, g, ys[i], ct)
            if g["again"]:
                ctx.fault("repeated-segment")
                n2 = ctx.call(what, backward, i, g, ys[i], ct)
                for a, b in zip(leaves_np((names, nct, gc_, gt_)), leaves_np(n2)):
                    if a.tobytes() != b.tobytes() and not np.allclose(a, b, rtol=1e-12, atol=1e-13):
                        raise Violation("gradient-not-repeatable", what)
            if group and s["transport"]:
                # cotangents are reported at the identity; carry them back in ambient coordinates
                u0 = ys[i][0]
                at_id = nct[0]
                nct = (np.einsum("...ij,...jk->...ik", at_id, np.conj(u0)), nct[1])
            if g["how"] == "direct":
                # moving an end point of the interval moves the result along the field
                for q, (u, cot, sign) in enumerate(((ys[i], nct, -1), (ys[i + 1], ct, 1))):
                    v, rate = velocity(np, g["ab"[q]], u[0], p, c)
                    want = sign * (np.real(np.sum(cot[0] * (v @ u[0] if group else v))) + np.sum(cot[1] * rate))
                    tpairs.append((f"segment {i} time {'ab'[q]}", np.asarray(gt_[q]), np.asarray(want)))
            ct = nct
            for kname, v in names.items():
                tp[kname] = tp.get(kname, 0) + v
            tc = tc + gc_
            ctx.log(what, *leaves_np(ct))
            ctx.state(s["k"], g["how"], g["mode"], np.sign(g["b"] - g["a"]), len(segs), s.get("transport"), s.get("adjoint"))

        tol = TOLK * acc + 2e-6
        if s.get("dproj"):
            # a projected adjoint only determines derivatives along directions in the algebra
            for q in ("a0", "a1"):
                tp[q], gp[q] = ((v - np.conj(np.swapaxes(v, -1, -2))) / 2 for v in (tp[q], gp[q]))
                if s["special"]:
                    tp[q], gp[q] = (v - np.trace(v) / s["n"] * np.eye(s["n"]) for v in (tp[q], gp[q]))
        pairs = [("log density", ct[1], gl)] + [(f"parameter {kname}", tp[kname], gp[kname]) for kname in sorted(gp)]
        if s["kw"] is not None:
            pairs.append(("argument c", tc, gc))
        if group and (s["transport"]):
            # compare along group directions: dL for U -> exp(eps X) U
            for j in range(3):
                a = r.normal(size=(s["n"], s["n"])) + 1j * r.normal(size=(s["n"], s["n"]))
                a = (a - a.conj().T) / 2
                if s["special"]:
                    a = a - np.trace(a) / s["n"] * np.eye(s["n"])
                d = lambda gr: np.real(np.sum(gr * (a @ x), axis=(-1, -2)))  # noqa: E731
                pairs.append((f"initial state along a group direction {j}", d(ct[0]), d(gx)))
        else:
            pairs.append(("initial state", ct[0], gx))
        pairs += tpairs
        worst = 0
        for nm, a, b in pairs:
            if a.shape != b.shape:
                raise Violation("gradient-shape", f"{nm}: {a.shape} instead of {b.shape}")
            if not np.all(np.isfinite(a)):
                raise Violation("gradient-not-finite", nm)
            scale = 1 + np.abs(b).max()
            e = np.abs(a - b).max() / scale
            worst = max(worst, e / tol)
            if e > tol:
                raise Violation("wrong-gradient", f"{s['k']} {s.get('tab', '')} {s.get('adjoint', '')} {nm}: relative error {e:.2e} "
                                                  f"(allowed {tol:.1e}); got {a.ravel()[:3]} exact {b.ravel()[:3]}")
        ctx.probe("worst-permille-of-tolerance", int(1000 * worst))
        ctx.worst = worst

    def nontrivial(self, plan, ctx):
        return True

    def simplify(self, plan):
        for i in range(len(plan["segs"])):
            if len(plan["segs"]) > 1:
                p = copy.deepcopy(plan)
                del p["segs"][i]
                if i and i < len(p["segs"]):
                    p["segs"][i]["a"] = p["segs"][i - 1]["b"]
                yield p
            for k, v in (("crash_f", False), ("crash_b", False), ("again", False), ("interrupt", False), ("how", "forward"), ("mode", "jit")):
                if plan["segs"][i][k] != v:
                    p = copy.deepcopy(plan)
                    p["segs"][i][k] = v
                    yield p
        for k, v in (("kw", None), ("auto", False), ("transport", False)):
            if plan["sys"].get(k) not in (v, None):
                p = copy.deepcopy(plan)
                p["sys"][k] = v
                if k == "transport":
                    p["sys"]["dproj"] = None
                yield p
