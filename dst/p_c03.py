"""C03: independent Metropolis-Hastings against a reference acceptance rule.

Seam: the module-level function jax.random.uniform, replaced while a chain runs so that the
simulator chooses (or at least records) the step's uniform draw.  If a refactored library does
not draw through that seam, only the parts of the rule that hold for every uniform in [0,1) are
checked, plus the acceptance frequencies of the `stat` runs.
"""
import contextlib
import copy
import math

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .buffered import interpreted
from .core import (InjectedFault, InjectedInterrupt, LineFault, Violation, _clean, close, same, show,
                   tree_np)
from .scenario import Scenario

_REAL_UNIFORM = jax.random.uniform


def kdata(k):
    return tuple(int(x) for x in np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k).ravel())


class Rows(bijx.Distribution):
    """Scripted proposal: a table of positions and log densities, row chosen by the key.

    log densities may be NaN or infinite (a numerically failing flow)."""

    def __init__(self, table, logq, form, rngs=None):
        super().__init__(rngs)
        self.table = nnx.Variable(jnp.asarray(table))
        self.logq = nnx.Variable(jnp.asarray(logq))
        self.form = form
        self.rec = Recorder()

    def get_batch_shape(self, x):
        return jnp.shape(x["a"] if self.form == "tree" else x)

    def sample(self, batch_shape=(), rng=None, **kwargs):
        rng = self._get_rng(rng)
        self.rec.saw(rng)
        m = self.table.shape[0]
        u = _REAL_UNIFORM(rng, batch_shape)
        i = jnp.minimum((u * m).astype(int), m - 1)
        v, q = self.table.get_value()[i], self.logq.get_value()[i]
        if self.form == "tree":
            return {"a": v, "b": (i, jnp.stack([v, -v], axis=-1))}, q
        return v, q

    def log_density(self, x, **kwargs):
        v = x["a"] if self.form == "tree" else x
        i = jnp.argmin(jnp.abs(self.table.get_value() - v[..., None]), axis=-1)
        return self.logq.get_value()[i]


class Recorder:
    def __init__(self):
        self.keys = []
        self.fail = False

    def saw(self, rng):
        if self.fail:
            raise InjectedFault("proposal failure")
        if rng is not None and _clean() and not isinstance(rng, jax.core.Tracer):
            self.keys.append(kdata(rng))

    def __eq__(self, o):
        return isinstance(o, Recorder)

    def __hash__(self):
        return 11


class Seam:
    """Replaces jax.random.uniform; scalar draws return the scripted value (None: the real one)."""

    def __init__(self):
        self.u = None
        self.hits = []
        self.keys = []

    def __call__(self, key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
        if tuple(shape) != ():
            return _REAL_UNIFORM(key, shape, dtype, minval, maxval, **kw)
        u = _REAL_UNIFORM(key, shape) if self.u is None else jnp.asarray(self.u, dtype=float)
        self.hits.append(u)
        if _clean() and not isinstance(key, jax.core.Tracer):
            self.keys.append(kdata(key))
        return u

    @contextlib.contextmanager
    def on(self):
        jax.random.uniform = self
        try:
            yield self
        finally:
            jax.random.uniform = _REAL_UNIFORM


def target_of(kind, table, logp, form):
    """Scripted target: table lookup by position, or a smooth function of the position."""
    tab, lp = jnp.asarray(table), jnp.asarray(logp)

    def t(x):
        v = x["a"] if form == "tree" else x
        if kind == "smooth":
            return -jnp.sum(jnp.asarray(v) ** 4) + 0.3 * jnp.sum(v)
        if kind == "hole":
            s = jnp.sum(v)
            return jnp.where(s < -0.5, -jnp.inf, jnp.where(s > 1.5, jnp.nan, -0.5 * jnp.sum(v**2)))
        return lp[jnp.argmin(jnp.abs(tab - v))]

    return t


SPECIAL = [float("nan"), float("-inf"), float("inf"), 0.0, -800.0, 700.0]
UNI = [0.0, 0.0, 2**-52, 1e-16, 0.5, 1 - 2**-24, 1 - 2**-53]


class SCENARIO(Scenario):
    ID = "C03"
    TITLE = "Every Metropolis-Hastings step follows the acceptance rule in every history"
    QUICK = 320
    THOROUGH = 16000
    RULE = ("one case = one chain history: proposal kind, target kind, scripted or real uniforms (boundary values "
            "included), execution mode, restarts and failing proposals/targets drawn from the seed; non-trivial if a "
            "proposal was accepted, one was rejected and every decision was compared with the reference rule; distinct "
            "by event-log hash")
    REAL = ["bijx.IMH", "bijx.BufferedSampler, Transformed and other proposals", "flax.nnx.cond/jit", "jax"]
    STUB = ["scripted proposal table and target (most runs)", "jax.random.uniform for the scalar accept draw"]
    ASSUME = ["ties within 1e-9 of the acceptance boundary are not decided"]

    def generate(self, R, idx, tier):
        prop = R.choices(["rows", "buffered", "flow", "haar"], [7, 2, 1, 0.4])[0]
        mode = R.choices(["fast", "jit", "scan", "vmap", "stat", "eager"], [7, 2, 2, 1.5, 0.8, 0.2])[0]
        if prop == "buffered" and mode in ("vmap", "stat"):
            mode = "fast"
        if prop in ("flow", "haar") and mode == "stat":
            mode = "jit"
        m = R.choice([1, 2, 3, 5, 8])
        special = R.choice([0.0, 0.25, 0.5])

        def val():
            return SPECIAL[R.randrange(len(SPECIAL))] if R.random() < special else round(R.uniform(-3, 3), 3)

        table = [round(100 * i + R.uniform(-20, 20), 3) for i in range(m)]
        plan = dict(prop=prop, mode=mode, form=R.choice(["arr", "tree"]) if prop in ("rows", "buffered") else "arr",
                    table=table, logq=[val() for _ in range(m)], logp=[val() for _ in range(m)],
                    target="table" if prop in ("rows", "buffered") else R.choice(["smooth", "hole"]),
                    legacy=R.random() < 0.3, seed=R.randrange(10**6), n=R.choice([1, 2, 3]),
                    real_u=R.random() < 0.35, chains=R.choice([1, 1, 2, 3]))
        ops = []
        for i in range(R.randint(4, 14)):
            op = dict(o="step", c=R.randrange(plan["chains"]), key=R.randrange(10**6), u=R.choice([R.random(), R.choice(UNI)]))
            r = R.random()
            if mode == "fast" and r < 0.15:
                op["fault"] = R.choice([dict(k="target"), dict(k="proposal"), dict(k="interrupt", n=R.randint(1, 25))])
            elif r < 0.25:
                op = dict(o="restart", c=op["c"])
            elif r < 0.3 and prop != "buffered":
                op["again"] = True
            ops.append(op)
        plan["ops"] = ops
        if mode == "stat":
            plan["logq"] = [round(R.uniform(-2, 2), 3) for _ in range(m)]
            a = R.choice([0.15, 0.5, 0.8])
            plan["alpha"] = a
            plan["logp"] = [q + math.log(a) for q in plan["logq"]]
        return plan

    def key(self, plan, i):
        return jax.random.PRNGKey(i) if plan["legacy"] else jax.random.key(i)

    # ------------------------------------------------------------ execution

    def execute(self, plan, ctx):
        self.form = plan["form"]
        self.seam = Seam()
        self.failing_target = False
        raw_target = target_of(plan["target"], plan["table"], plan["logp"], self.form)

        def target(x):
            if self.failing_target:
                raise InjectedFault("target failure")
            return raw_target(x)

        self.raw_target = raw_target
        prop = plan["prop"]
        if prop == "rows":
            s = Rows(plan["table"], plan["logq"], self.form)
        elif prop == "buffered":
            with interpreted():
                s = bijx.BufferedSampler(Rows(plan["table"], plan["logq"], self.form, rngs=nnx.Rngs(3)), plan["n"])
        elif prop == "flow":
            s = zoo.build_dist(dict(k="transformed", seed=plan["seed"], base=dict(k="normal", shape=[2], seed=1),
                                    bij=dict(k="affine", shape=[2], pshape=[2], seed=plan["seed"])))
        else:
            s = bijx.lie.HaarDistribution(2)
            raw_target = lambda g: jnp.trace(g).real * 1.3  # noqa: E731
            self.raw_target = raw_target
        self.sampler = s
        self.rec = s.rec if prop == "rows" else (s.dist.rec if prop == "buffered" else None)
        if self.rec is not None:
            self.rec.keys.clear()
        imh = bijx.IMH(s, target)
        self.accepts = self.rejects = 0
        self.buf_pos = None
        with self.seam.on():
            if plan["mode"] == "stat":
                return self.stat(plan, ctx, imh)
            self.history(plan, ctx, imh)

    def history(self, plan, ctx, imh):
        mode = plan["mode"]
        states = []
        for c in range(plan["chains"]):
            with interpreted():
                st = ctx.call("init", imh.init, self.key(plan, plan["seed"] + c))
            self.genuine(plan, st, "init")
            states.append(st)
            ctx.log("init", *jax.tree.leaves(tree_np(st)))
        if mode in ("scan", "vmap"):
            return self.many(plan, ctx, imh, states)
        jitted = None
        for i, op in enumerate(plan["ops"]):
            c = op["c"] % len(states)
            what = f"op {i} {op['o']} chain {c}"
            if op["o"] == "restart":
                # crash of the process that holds the chain: only the numbers survive
                st = tree_np(states[c])
                states[c] = bijx.IMHState(jax.tree.map(jnp.asarray, st.position), jnp.asarray(st.log_prob_target),
                                          jnp.asarray(st.log_prob_proposal))
                imh = bijx.IMH(self.sampler, imh.target_log_prob)
                ctx.fault("restart")
                continue
            k = self.key(plan, op["key"])
            old = states[c]
            keep = tree_np(old)
            u = None if plan["real_u"] else op["u"]
            f = op.get("fault")
            if f and mode == "fast":
                snap = [np.asarray(x) for x in jax.tree.leaves(nnx.state(self.sampler, nnx.Not(nnx.RngKey)))] if plan["prop"] != "buffered" else None
                if self.faulty(ctx, plan, imh, k, old, f, what, u):
                    if not same(tree_np(old), keep):
                        raise Violation("state-corrupted-by-fault", f"{what}: {show(keep)} -> {show(old)}")
                    if snap is not None:
                        now = [np.asarray(x) for x in jax.tree.leaves(nnx.state(self.sampler, nnx.Not(nnx.RngKey)))]
                        if not same(now, snap):
                            raise Violation("sampler-corrupted-by-fault", what)
                    continue
            self.seam.u, self.seam.hits, self.seam.keys = u, [], []
            if self.rec:
                self.rec.keys.clear()
            if mode == "jit":
                if jitted is None:

                    @nnx.jit
                    def jitted(imh, k, st, u, real):
                        self.seam.u, self.seam.hits = jnp.where(real, jnp.nan, u), []
                        return imh.step(k, st) + (list(self.seam.hits),)

                    @nnx.jit
                    def jitted_real(imh, k, st):
                        self.seam.u, self.seam.hits = None, []
                        return imh.step(k, st) + (list(self.seam.hits),)

                if u is None:
                    new, info, hits = ctx.call(what, jitted_real, imh, k, old)
                else:
                    new, info, hits = ctx.call(what, jitted, imh, k, old, jnp.asarray(u), jnp.asarray(False))
            elif mode == "eager":
                new, info = ctx.call(what, imh.step, k, old)
                hits = self.seam.hits
            else:
                with interpreted():
                    new, info = ctx.call(what, imh.step, k, old)
                hits = self.seam.hits
                if self.seam.keys:
                    used = set(self.rec.keys) if self.rec else set()
                    if set(self.seam.keys) & used:
                        raise Violation("uniform-shares-proposal-key", what)
                    if kdata(k) in set(self.seam.keys) | used:
                        raise Violation("step-key-reused", f"{what}: the step's own key was consumed directly")
            self.check(plan, ctx, keep, new, info, hits[0] if len(hits) == 1 else u if u is not None else None, what,
                       seam=bool(hits))
            if not same(tree_np(old), keep):
                raise Violation("old-state-mutated", what)
            if op.get("again") or (plan["real_u"] and mode != "fast" and plan["prop"] != "buffered"):
                # the same key and state again, in interpreted mode
                self.seam.u = u
                with interpreted():
                    new2, info2 = ctx.call(what, imh.step, k, old)
                if bool(info2.is_accepted) != bool(info.is_accepted) or not close(new2, new, 1e-10, 1e-12):
                    raise Violation("mode-mismatch", f"{what}: {show(new)} vs {show(new2)}")
                ctx.probe("repeated-step")
            states[c] = new
            ctx.log("step", bool(info.is_accepted), *jax.tree.leaves(tree_np(new)))
            ctx.state(plan["prop"], mode, bool(info.is_accepted), self.cls(info.proposal.log_prob_target),
                      self.cls(keep.log_prob_target), self.cls(info.proposal.log_prob_proposal))

    @staticmethod
    def cls(x):
        x = float(x)
        return "nan" if math.isnan(x) else ("inf" if math.isinf(x) and x > 0 else "-inf" if math.isinf(x) else "fin")

    def faulty(self, ctx, plan, imh, k, old, f, what, u):
        """Returns True if the injected fault fired and surfaced unchanged."""
        self.seam.u = u
        if f["k"] == "interrupt":
            lf = LineFault(f["n"], InjectedInterrupt)
            try:
                with lf, interpreted():
                    imh.step(k, old)
            except InjectedInterrupt:
                ctx.fault("interrupt")
                self.buf_pos = None
                return True
            if lf.fired:
                raise Violation("error-swallowed", f"{what} {lf.fired}")
            self.buf_pos = None
            return False
        if f["k"] == "proposal" and not self.rec:
            return False
        self.failing_target = f["k"] == "target"
        if self.rec:
            self.rec.fail = f["k"] == "proposal"
        if plan["prop"] == "haar":
            self.failing_target = False
        try:
            with interpreted():
                imh.step(k, old)
        except InjectedFault:
            ctx.fault(f"{f['k']}-failure")
            return True
        except Exception as e:
            raise Violation("error-replaced", f"{what}: {type(e).__name__}: {e}") from e
        finally:
            self.failing_target = False
            self.buf_pos = None
            if self.rec:
                self.rec.fail = False
        if f["k"] == "target" and plan["prop"] != "haar":
            raise Violation("error-swallowed", what)
        return False

    # ------------------------------------------------------------ oracle

    def genuine(self, plan, st, what):
        """Stored log probabilities belong to the stored position."""
        x = st.position
        with interpreted():
            p = self.raw_target(x)
        if not close(p, st.log_prob_target, 1e-9, 1e-12):
            raise Violation("target-not-of-position", f"{what}: stored {show(st.log_prob_target)} expected {show(p)}")
        if plan["prop"] in ("rows", "buffered"):
            v = float(x["a"] if self.form == "tree" else x)
            if v not in plan["table"]:
                raise Violation("position-not-proposed", f"{what}: {v}")
            j = plan["table"].index(v)
            if self.form == "tree" and (int(x["b"][0]) != j or not close(x["b"][1], np.array([v, -v]))):
                raise Violation("position-not-proposed", f"{what}: mixed positions {show(x)}")
            q = plan["logq"][j]
        else:
            with interpreted():
                q = self.sampler.log_density(x)
        if not close(np.asarray(q, dtype=float), np.asarray(st.log_prob_proposal, dtype=float), 1e-6, 1e-8):
            raise Violation("proposal-density-not-of-position", f"{what}: stored {show(st.log_prob_proposal)} expected {show(q)}")

    def check(self, plan, ctx, old, new, info, u, what, seam=True):
        prop = tree_np(info.proposal)
        new = tree_np(new)
        acc = bool(info.is_accepted)
        if np.shape(info.is_accepted) != () or np.shape(info.accept_prob) != ():
            raise Violation("info-shape", what)
        self.genuine(plan, info.proposal, what + " proposal")
        self.genuine(plan, jax.tree.map(jnp.asarray, new), what + " new state")
        exp = prop if acc else tree_np(old)
        if not same(new, exp):
            raise Violation("new-state", f"{what}: accepted={acc} state {show(new)} expected {show(exp)}")
        with np.errstate(all="ignore"):
            la = (np.float64(prop.log_prob_target) - np.float64(prop.log_prob_proposal)
                  - np.float64(old.log_prob_target) + np.float64(old.log_prob_proposal))
            ap = np.minimum(1.0, np.exp(la))
        detail = (f"{what}: log alpha {la!r} (p' {float(prop.log_prob_target)} q' {float(prop.log_prob_proposal)} "
                  f"p {float(old.log_prob_target)} q {float(old.log_prob_proposal)}) u {u} accepted {acc}")
        if not np.isnan(la) and not close(np.asarray(info.accept_prob, dtype=float), ap, 1e-9, 1e-15):
            raise Violation("accept-prob", f"{detail} reported {float(info.accept_prob)}")
        if np.isnan(la):
            ctx.probe("nan-ratio")
            want = False
        elif la == -np.inf:
            ctx.probe("zero-ratio")
            want = False
        elif la >= 0:
            want = True
        elif seam and u is not None:
            with np.errstate(all="ignore"):
                lu = np.log(np.float64(u))
            if abs(lu - la) < 1e-9 * max(1.0, abs(la)):
                want = acc
            else:
                want = bool(lu < la)
            if lu == -np.inf:
                ctx.probe("u-zero")
        else:
            want = acc
            ctx.probe("seam-missed")
        if want != acc:
            raise Violation("acceptance-rule", detail)
        ctx.probe("accepted" if acc else "rejected")

    # ------------------------------------------------------------ scan / vmap / stat

    def many(self, plan, ctx, imh, states):
        ops = [o for o in plan["ops"] if o["o"] == "step"] or [dict(key=1, u=0.5)]
        keys = jnp.stack([self.key(plan, o["key"]) for o in ops])
        us = jnp.asarray([o["u"] for o in ops])
        real = plan["real_u"]
        seam = self.seam
        graph, mstate = nnx.split(imh.sampler)

        def one(ms, st, k, u):
            m = nnx.merge(graph, ms)
            seam.u, seam.hits = (None if real else u), []
            new, info = bijx.IMH(m, imh.target_log_prob).step(k, st)
            hit = seam.hits[0] if len(seam.hits) == 1 else jnp.nan
            return nnx.state(m), new, info, hit

        if plan["mode"] == "vmap":
            st0 = states[0]
            _, new, info, hit = ctx.call("vmap", jax.jit(jax.vmap(lambda k, u: one(mstate, st0, k, u))), keys, us)
            olds = [tree_np(st0)] * len(ops)
        else:

            @jax.jit
            def run(ms, st, keys, us):
                def body(c, ku):
                    ms, st = c
                    ms, new, info, hit = one(ms, st, *ku)
                    return (ms, new), (st, new, info, hit)

                return jax.lax.scan(body, (ms, st), (keys, us))[1]

            old, new, info, hit = ctx.call("scan", run, mstate, states[0], keys, us)
            olds = [jax.tree.map(lambda a: np.asarray(a)[j], old) for j in range(len(ops))]
        for j, op in enumerate(ops):
            pick = lambda t: jax.tree.map(lambda a: a[j], t)  # noqa: E731
            h = float(hit[j])
            what = f"{plan['mode']} step {j}"
            n, inf = pick(new), pick(info)
            self.check(plan, ctx, olds[j], n, inf, None if math.isnan(h) else h, what, seam=not math.isnan(h))
            ctx.log("step", bool(inf.is_accepted), *jax.tree.leaves(tree_np(n)))
            ctx.state(plan["prop"], plan["mode"], bool(inf.is_accepted), self.cls(inf.proposal.log_prob_target))
            if plan["prop"] != "buffered":
                seam.u = None if real else op["u"]
                with interpreted():
                    n2, i2 = imh.step(self.key(plan, op["key"]), jax.tree.map(jnp.asarray, olds[j]))
                if bool(i2.is_accepted) != bool(inf.is_accepted) or not close(n2, n, 1e-9, 1e-12):
                    raise Violation("mode-mismatch", f"{what}: {show(n)} interpreted {show(n2)}")

    def stat(self, plan, ctx, imh):
        """Acceptance frequency per proposal row under real randomness (fixed seed)."""
        self.seam.u = None
        N = 3000
        j0 = 0
        v = plan["table"][j0]
        pos = {"a": jnp.asarray(v), "b": (jnp.asarray(j0), jnp.asarray([v, -v]))} if self.form == "tree" else jnp.asarray(v)
        # the present state has ratio 1, so every proposal has acceptance probability alpha
        st = bijx.IMHState(pos, jnp.asarray(plan["logq"][j0]), jnp.asarray(plan["logq"][j0]))
        keys = jax.vmap(jax.random.key)(jnp.arange(N) + 7919 * plan["seed"])
        info = ctx.call("vmap", jax.jit(jax.vmap(lambda k: imh.step(k, st)[1])), keys)
        acc = np.asarray(info.is_accepted)
        x = info.proposal.position
        x = np.asarray(x["a"] if self.form == "tree" else x)
        a = plan["alpha"]
        if not close(np.asarray(info.accept_prob), np.full(N, a), 1e-9):
            raise Violation("accept-prob", f"{show(info.accept_prob)} expected {a}")
        for t in plan["table"]:
            sel = x == t
            n = int(sel.sum())
            if n < 0.5 * N / len(plan["table"]):
                raise Violation("proposal-frequency", f"row {t} proposed {n} of {N}")
            f = acc[sel].mean()
            if abs(f - a) > 6.5 * math.sqrt(a * (1 - a) / n):
                raise Violation("acceptance-frequency", f"row {t}: {f:.4f} of {n}, expected {a}")
        ctx.log("stat", acc, x)
        ctx.probe("accepted", int(acc.sum()))
        ctx.probe("rejected", int((~acc).sum()))
        ctx.state("stat", len(plan["table"]), a, self.form)

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("accepted") and ctx.probes.get("rejected"))

    def simplify(self, plan):
        yield from super().simplify(plan)
        if plan["chains"] > 1:
            p = copy.deepcopy(plan)
            p["chains"] = 1
            yield p
        if plan["mode"] not in ("fast", "stat"):
            p = copy.deepcopy(plan)
            p["mode"] = "fast"
            yield p
