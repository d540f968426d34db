"""C08: calls that fail or are interrupted leave every object as it was."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .buffered import interpreted, key
from .core import (InjectedFault, InjectedInterrupt, InjectedOOM, LineFault, Violation, close, leaves_np, module_config,
                   module_state, np_rng, same_config, same_state, show, tree_np)
from .scenario import Scenario

FLOWS = ("rk4", "diffrax", "cgflow")
EXC = {"fault": InjectedFault, "interrupt": InjectedInterrupt, "oom": InjectedOOM}


class Trigger:
    """The n-th invocation of a user-supplied part after arm() raises."""

    def __init__(self):
        self.n = None
        self.raised = None
        self.calls = 0

    def arm(self, n, exc):
        self.n, self.exc, self.raised = n, exc, None

    def disarm(self):
        self.n = None

    def tick(self):
        self.calls += 1
        if self.n is None:
            return
        self.n -= 1
        if self.n == 0:
            self.n = None
            self.raised = self.exc("user part failed")
            raise self.raised


class FragileCall(nnx.Module):
    """User network or vector field."""

    def __init__(self, inner, trig):
        self.inner = inner
        self.trig = trig

    def __call__(self, *a, **k):
        self.trig.tick()
        r = self.inner(*a, **k)
        self.trig.tick()
        return r


class FragileBij(bijx.Bijection):
    def __init__(self, inner, trig):
        self.inner = inner
        self.trig = trig

    def forward(self, x, log_density, **kwargs):
        self.trig.tick()
        return self.inner.forward(x, log_density)

    def reverse(self, x, log_density, **kwargs):
        self.trig.tick()
        return self.inner.reverse(x, log_density)


class FragileDist(bijx.Distribution):
    """User distribution: delegates, fails before or after the inner draw."""

    def __init__(self, inner, trig):
        super().__init__(None)
        self.inner = inner
        self.trig = trig

    def get_batch_shape(self, x):
        return self.inner.get_batch_shape(x)

    def sample(self, batch_shape=(), rng=None, **kwargs):
        self.trig.tick()
        r = self.inner.sample(batch_shape, rng=rng, **kwargs)
        self.trig.tick()
        return r

    def log_density(self, x, **kwargs):
        self.trig.tick()
        return self.inner.log_density(x, **kwargs)


def is_rng(path):
    return "rngs" in path or "'count'" in path and "stream" in path


class SCENARIO(Scenario):
    ID = "C08"
    TITLE = "A failing or interrupted call leaves every object as it was"
    QUICK = 34
    THOROUGH = 8000
    RULE = ("one case = a history of calls on a few shared objects in which user-supplied parts fail at seeded "
            "invocations and interrupts or memory errors strike at seeded library statements; after every failure the "
            "state, configuration and caller's arrays are compared with before and later calls with a fault-free twin; "
            "non-trivial if at least one fault fired; distinct by event-log hash")
    REAL = ["all bijx bijections, continuous flows, distributions, Transformed, MixtureStack, IMH, BufferedSampler batches"]
    STUB = ["user parts (conditioning nets, vector fields, bijections, targets, base distributions) with a fault switch",
            "interrupts and memory errors raised at library statements through the trace hook"]
    ASSUME = ["faults strike between Python statements of the library or inside user parts, not inside JAX or flax"]

    def generate(self, R, idx, tier):
        objs = []
        flows = idx % 4 == 1
        for _ in range(R.choice([1, 1, 2]) if not flows else 1):
            r = R.random()
            if flows:
                want = FLOWS[idx // 4 % 3]
                for _ in range(400):
                    sp = zoo.gen_leaf(R, R.choice([(2,), (3,), (2, 2)]), heavy=True, kw=False)
                    if sp["k"] == want:
                        break
                objs.append(dict(t="bij", spec=sp))
                continue
            if r < 0.62:
                sh = R.choice([(2,), (3,), (4,), (2, 2), (3, 4)])
                if R.random() < 0.4 and len(sh) == 1:
                    sp = zoo.gen_leaf(R, sh, heavy=True, kw=False)
                    for _ in range(30):
                        if sp["k"] in ("coupling", "radcond", "rk4", "diffrax", "cgflow"):
                            break
                        sp = zoo.gen_leaf(R, sh, heavy=True, kw=False)
                else:
                    sp = zoo.gen_bij(R, sh, depth=R.choice([0, 1, 2]), heavy=R.random() < 0.4)
                if R.random() < 0.5:
                    fr = dict(k="fragile", shape=list(sh))
                    sub = [sp, fr] if R.random() < 0.5 else [fr, sp]
                    if sp["k"] not in FLOWS or R.random() < 0.3:
                        sp = dict(k="chain", shape=list(sh), sub=sub)
                    if sp["k"] == "chain" and R.random() < 0.3:
                        sp = dict(k=R.choice(["inverse", "condinv", "frozen"]), shape=list(sh), sub=[sp], flag=R.randrange(2))
                objs.append(dict(t="bij", spec=sp))
            else:
                sp = zoo.gen_dist(R, depth=1 if R.random() < 0.6 else 0, shapes=((2,), (3,), (2, 2)), heavy=R.random() < 0.2)
                objs.append(dict(t=R.choice(["dist", "dist", "trans", "imh", "buf"]), spec=sp))
        ops = []
        for _ in range(R.choice([6, 9, 13]) if not flows else 7):
            i = R.randrange(len(objs))
            t = objs[i]["t"]
            o = R.choice({"bij": ["fwd", "fwd", "rev", "grad"], "dist": ["imp", "exp", "dens"], "trans": ["imp", "exp", "dens"],
                          "imh": ["step", "dens"], "buf": ["imp", "dens"]}[t])
            op = dict(i=i, o=o, inp=R.randrange(2), key=R.randrange(3), np=R.random() < 0.4,
                      mode=R.choice(["eager", "eager", "jit"]), fault=None)
            if R.random() < (0.75 if flows else 0.55):
                exc = R.choice(["fault", "fault", "interrupt", "oom"])
                sp = objs[i]["spec"]
                frag = t in ("trans", "imh", "buf") or "fragile" in str(sp) or zoo.has(
                    sp.get("bij", sp), FLOWS + ("coupling", "radcond"))
                if frag and R.random() < 0.6:
                    op["fault"] = dict(k="user", n=R.choice([1, 1, 2, 3, 4, 6]), exc=exc)
                else:
                    op["fault"] = dict(k="line", frac=round(R.random(), 4), exc=exc, tracing=R.random() < 0.6)
            if objs[i]["spec"]["k"] in FLOWS and R.random() < (0.75 if flows else 0.5):
                op["ov"] = dict(t_start=R.choice([None, 0.1]), t_end=R.choice([None, 0.7]), n=R.choice([None, 1, 1]))
            if R.random() < 0.12:
                ops.append(dict(i=i, o="train", s=R.randrange(1000)))
            ops.append(op)
        return dict(objs=objs, ops=ops, s=R.randrange(10**6))

    # ------------------------------------------------------------------

    def build(self, plan, trig):
        def wrap(kind, part):
            return FragileBij(part, trig) if kind == "bij" else FragileCall(part, trig)

        out = []
        with zoo.wrapping(wrap):
            for i, o in enumerate(plan["objs"]):
                if o["t"] == "bij":
                    out.append(zoo.build(o["spec"], i))
                    continue
                d = zoo.build_dist(o["spec"], i, rngs=nnx.Rngs(11 + i))
                if o["t"] in ("trans", "imh", "buf"):
                    d = FragileDist(d, trig)
                if o["t"] == "trans":
                    d = bijx.Transformed(d, zoo.build(dict(k="chain", sub=[dict(k="affine"), dict(k="fragile")]), i))
                elif o["t"] == "imh":
                    def target(x, trig=trig):
                        trig.tick()
                        return -0.5 * jnp.sum(jnp.sin(x) ** 2)
                    d = bijx.IMH(d, target)
                elif o["t"] == "buf":
                    with interpreted():
                        d = bijx.BufferedSampler(d, 3)
                out.append(d)
        return out

    def inputs(self, plan, op):
        o = plan["objs"][op["i"]]
        ev = tuple(o["spec"].get("shape", ()))
        r = np_rng("in", plan["s"], op["i"], op["inp"])
        x = zoo.draw_x(r, (2,), ev, "real" if (o["t"] in ("bij", "trans", "imh")) else zoo.dist_dom(o["spec"]), 0.6)
        if o["t"] in ("imh", "trans") and zoo.dist_dom(o["spec"]) == "unit":
            x = 0.2 + 0.6 / (1 + np.exp(-x))
            if o["t"] == "trans":
                x = x + 0.25
        ld = r.normal(size=2)
        kw = {}
        if "condshift" in (zoo.kinds(o["spec"]) if o["t"] == "bij" else zoo.dist_kinds(o["spec"])):
            kw = {"c": r.uniform(-1, 1, size=2)}
        ov = {}
        if op.get("ov") and o["spec"]["k"] in FLOWS:
            ov = {k: v for k, v in op["ov"].items() if k != "n" and v is not None}
            if op["ov"]["n"]:
                ov.update(dict(dt=0.2) if o["spec"]["k"] == "diffrax" else dict(steps=8))
        if not op["np"]:
            x, ld, kw = jax.tree.map(jnp.asarray, (x, ld, kw))
        return x, ld, kw, ov

    def call(self, m, op, inp):
        """One request; a fresh closure per call, so nothing is served from an earlier trace."""
        x, ld, kw, ov = inp
        o = op["o"]
        if o in ("fwd", "rev"):
            f = lambda x, ld, kw: (m.forward if o == "fwd" else m.reverse)(x, ld, **kw, **ov)  # noqa: E731
        elif o == "grad":
            def f(x, ld, kw):
                def loss(x):
                    y, l = m.forward(x, ld, **kw, **ov)
                    return jnp.sum(jnp.sin(y)) + jnp.sum(l)
                return jax.grad(loss)(x)
        elif o == "imp":
            return m.sample((2,), **kw)  # advances the object's own stream: eager only
        elif o == "exp":
            k = key(op["key"])
            f = lambda x, ld, kw: m.sample((2,), rng=k, **kw)  # noqa: E731
        elif o == "dens":
            d = m.sampler if isinstance(m, bijx.IMH) else m
            f = lambda x, ld, kw: d.log_density(x, **kw)  # noqa: E731
        else:
            k = key(op["key"])

            def f(x, ld, kw):
                st = bijx.mcmc.IMHState(position=x[0], log_prob_target=jnp.asarray(-0.3), log_prob_proposal=jnp.asarray(-1.1))
                s, info = m.step(k, st)
                return s, info.is_accepted, info.accept_prob
        if o == "grad":
            x, ld, kw = jax.tree.map(jnp.asarray, (x, ld, kw))
        if op["mode"] == "jit":
            f = jax.jit(f)
        return f(x, ld, kw)

    @staticmethod
    def rng_items(m):
        return [(p, v) for p, v in nnx.to_flat_state(nnx.state(m, nnx.RngState))]

    def execute(self, plan, ctx):
        trig, trig2 = Trigger(), Trigger()
        objs = ctx.call("construct", self.build, plan, trig)
        twins = self.build(plan, trig2)
        for n, op in enumerate(plan["ops"]):
            op = dict(op, i=op["i"] % len(objs))
            m, tw, o = objs[op["i"]], twins[op["i"]], plan["objs"][op["i"]]
            if op["o"] == "train":
                zoo.perturb(m, ("train", op["s"]), 0.1)
                zoo.perturb(tw, ("train", op["s"]), 0.1)
                ctx.log("train")
                continue
            what = f"op {n} {o['t']} {op['o']} {op['mode']}"
            inp = self.inputs(plan, op)
            orig = jax.tree.map(np.array, inp)
            keys = sorted(inp[2])
            st0, cf0 = module_state(m), module_config(m)
            f = op["fault"]
            tst0 = [np.array(v) for v in leaves_np(nnx.state(tw, nnx.RngState))]
            lf2 = LineFault(None, tracing=bool(f and f["k"] == "line" and f["tracing"]))
            if f and f["k"] == "line":
                with lf2:
                    want = ctx.call(what + " (twin)", self.call, tw, op, self.inputs(plan, op))
            else:
                want = ctx.call(what + " (twin)", self.call, tw, op, self.inputs(plan, op))
            want = tree_np(want)
            fired = None
            if f:
                ctx.probe("armed:" + f["k"])
                lf = None
                try:
                    if f["k"] == "user":
                        trig.arm(f["n"], EXC[f["exc"]])
                        r = self.call(m, op, inp)
                    else:
                        lf = LineFault(1 + int(f["frac"] * lf2.count), EXC[f["exc"]], tracing=f["tracing"])
                        with lf:
                            r = self.call(m, op, inp)
                except BaseException as e:  # noqa: BLE001
                    expected = trig.raised if f["k"] == "user" else lf.raised
                    trig.disarm()
                    if expected is None:
                        raise Violation("unexpected-exception", f"{what}: {type(e).__name__}: {e}") from e
                    if e is not expected:
                        raise Violation("error-changed", f"{what}: {type(expected).__name__} reached the caller as {type(e).__name__}: {e}") from e
                    fired = f["k"] + ":" + f["exc"]
                else:
                    expected = trig.raised if f["k"] == "user" else lf.raised
                    trig.disarm()
                    if f["k"] == "user":
                        trig.raised = None
                    if expected is not None:
                        raise Violation("error-swallowed", f"{what}: injected {type(expected).__name__} never reached the caller")
                    got = tree_np(r)
                if fired:
                    trig.raised = None
                    ctx.fault(fired)
                    ctx.log(what, fired, lf.fired if lf is not None else "")
                    self.check_after(what, m, st0, cf0)
                    self.resync(what, m, tw, tst0)
                    # once the fault is gone the same request succeeds with the same result
                    again = ctx.call(what + " repeated after the failure", self.call, m, op, inp)
                    if op["o"] == "imp":
                        want = tree_np(self.call(tw, op, self.inputs(plan, op)))
                    got = tree_np(again)
            else:
                got = tree_np(ctx.call(what, self.call, m, op, inp))
            if not close(got, want, 1e-11, 1e-12):
                raise Violation("later-result-changed" if fired else "result-differs-from-twin",
                                f"{what}: {show(got)} without failures {show(want)}")
            if op["o"] != "imp":
                self.check_after(what, m, st0 if not fired else None, cf0)
            if sorted(inp[2]) != keys or not all(a.shape == b.shape and a.tobytes() == b.tobytes()
                                                 for a, b in zip(leaves_np(inp), leaves_np(orig))):
                raise Violation("caller-array-changed", what)
            ctx.log(what, *leaves_np(got))
            ctx.state(o["t"], op["o"], op["mode"], fired)
        # at the end both histories are in the same state
        for i, (m, tw) in enumerate(zip(objs, twins)):
            ok, why = same_state(module_state(m), module_state(tw))
            if not ok:
                raise Violation("final-state-differs", f"object {i}: {why}")

    def check_after(self, what, m, st0, cf0):
        if st0 is not None:
            rng = {jax.tree_util.keystr(tuple(jax.tree_util.DictKey(k) for k in p)) for p, _ in self.rng_items(m)}
            a = [(p, v) for p, v in st0 if not self._in(p, rng)]
            b = [(p, v) for p, v in module_state(m) if not self._in(p, rng)]
            ok, why = same_state(a, b)
            if not ok:
                raise Violation("state-changed-by-failure", f"{what}: {why}")
        ok, why = same_config(cf0, module_config(m))
        if not ok:
            raise Violation("configuration-changed", f"{what}: {why}")

    @staticmethod
    def _in(p, rng):
        return any(p == q or p.startswith(q) for q in rng)

    def resync(self, what, m, tw, before):
        """The implicit stream may or may not have advanced: not beyond where the completed twin is."""
        cur = nnx.state(m, nnx.RngState)
        a = before
        b = leaves_np(cur)
        c = leaves_np(nnx.state(tw, nnx.RngState))
        for x, y, z in zip(a, b, c, strict=True):
            if x.shape == () and np.issubdtype(x.dtype, np.integer):
                if not x <= y <= z:
                    raise Violation("stream-moved", f"{what}: counter {x} -> {y}, completed call {z}")
            elif x.tobytes() != y.tobytes():
                raise Violation("stream-key-changed", what)
        nnx.update(tw, jax.tree.map(lambda v: jnp.array(v) if not jnp.issubdtype(v.dtype, jax.dtypes.prng_key) else v, cur))

    def nontrivial(self, plan, ctx):
        return bool(ctx.faults)

    def simplify(self, plan):
        yield from super().simplify(plan)
        for i, o in enumerate(plan["objs"]):
            for s in o["spec"].get("sub", []) if o["t"] == "bij" else []:
                if s.get("shape") == o["spec"].get("shape"):
                    p = copy.deepcopy(plan)
                    p["objs"][i]["spec"] = s
                    yield p
