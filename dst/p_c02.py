"""C02: buffered sampling with failing bases, interrupts and crashes.

The model is a *set* of possible states (implicit batches produced so far, pending draws).  A
failed operation may or may not have consumed the draw it was about to deliver or the batch it
was computing, nothing else; a successful one narrows the set and must be explained by it.
"""
import copy

import jax
import numpy as np
from flax import nnx

import bijx

from .buffered import check_draw, gen_base, interpreted, key, make_base
from .core import (Disk, HarnessError, InjectedFault, InjectedInterrupt, InjectedOOM, LineFault, Violation,
                   close, module_state, restore_state, show, tree_np)
from .scenario import Scenario


class Batches:
    """Genuine draws: batch c of the implicit stream, or the batch of an explicit key."""

    def __init__(self, spec, n, seed):
        b = make_base(spec, seed)
        if spec["k"] == "scripted":
            b.control.armed = False
        self.twins = [b]
        self.n = n
        self.cache = {}

    def twin(self, c):
        while len(self.twins) <= c:
            t = nnx.clone(self.twins[-1])
            with interpreted():
                t.sample((self.n,))
            self.twins.append(t)
        return nnx.clone(self.twins[c])

    def get(self, ident, shape=None):
        """ident = ('i', c) or ('k', key)"""
        kk = (ident, shape)
        if kk not in self.cache:
            t = self.twin(ident[1] if ident[0] == "i" else 0)
            with interpreted():
                r = t.sample(shape or (self.n,), rng=None if ident[0] == "i" else key(ident[1]))
            self.cache[kk] = tree_np(r)
        return self.cache[kk]

    def draw(self, ident, j):
        x, ld = self.get(ident)
        return jax.tree.map(lambda a: a[j], x), ld[j]


class SCENARIO(Scenario):
    ID = "C02"
    TITLE = "A failed or interrupted buffered draw never yields garbage or repeated draws"
    QUICK = 190
    THOROUGH = 20000
    RULE = ("one case = one history of draws, batch requests, checkpoints, crashes and forks with base failures and "
            "interrupts at seeded statements, followed by a fault-free tail; non-trivial if a fault fired inside a "
            "request and a later draw was checked; distinct by event-log hash")
    REAL = ["bijx.BufferedSampler", "bijx distributions as bases", "flax.nnx cond/split/merge", "jax"]
    STUB = ["scripted base distribution (most runs)", "checkpoint store (simulated disk)"]
    ASSUME = ["interrupts occur at Python statement boundaries of the library, not inside the interpreter or XLA"]

    def generate(self, R, idx, tier):
        base = gen_base(R)
        scripted = base["k"] == "scripted"
        n = R.choice([1, 2, 2, 3, 3, 4, 6] if scripted else [1, 2, 3])
        mode = "jit" if scripted and R.random() < 0.12 else "fast"
        wkey = R.choice([0.0, 0.0, 0.4, 1.0])
        wf = R.choice([0.15, 0.35, 0.5])
        ops, reps, nk = [], 1, 0
        for _ in range(R.randint(5, 16)):
            o = R.choices(["draw", "batch", "ckpt", "crash", "fork"], [9, 1.2, 1.0, 0.8, 0.5])[0]
            if o == "fork" and reps >= 3:
                o = "draw"
            nk += 1
            op = dict(o=o, r=R.randrange(reps), key=nk * 1000 + R.randrange(1000) if R.random() < wkey else None)
            if o in ("draw", "batch") and R.random() < wf:
                f = R.choices(["interrupt", "oom", "base"], [5, 1.5, 3 if scripted else 0])[0]
                if f == "base":
                    op["fault"] = dict(k="base", at=R.choice([1, 2]))
                else:
                    op["fault"] = dict(k=f, n=R.choice([R.randint(1, 14), R.randint(1, 30), R.randint(1, 60)]))
                    if R.random() < 0.5:
                        # counted from the last statement of the request (a dry run on a copy counts them)
                        op["fault"] = dict(k=f, n=R.randint(1, 12), end=True)
            if o == "batch":
                op["shape"] = R.choice([[2], [n], [1, 2]])
            if o == "ckpt":
                op["disk"] = R.choices([None, "lost", "torn", "late"], [6, 1, 1, 1])[0]
            if o == "crash":
                op["seed"] = R.randrange(10**6)
            if o == "fork":
                reps += 1
            ops.append(op)
        return dict(base=base, n=n, seed=R.randrange(10**6), mode=mode, ops=ops)

    # state of the model: (c, pending tuple of (ident, pos))
    def fail(self, states, key_, batch):
        out = set()
        for c, p in states:
            out.add((c, p))
            if batch:
                if key_ is None:
                    out.add((c + 1, p))
                continue
            if p:
                out.add((c, p[1:]))
            else:
                full, c2 = self.refill(c, key_)
                out |= {(c2, ()), (c2, full), (c2, full[1:])}
        return out

    def refill(self, c, key_):
        ident = ("i", c) if key_ is None else ("k", key_)
        return tuple((ident, j) for j in range(self.n)), (c + 1 if key_ is None else c)

    def succeed(self, states, key_, got, what):
        got = tree_np(got)
        out, wants = set(), []
        for c, p in sorted(states, key=repr):
            if not p:
                p, c = self.refill(c, key_)
            want = self.batches.draw(*p[0])
            wants.append((p[0], want))
            try:
                check_draw("x", got, want, what)
            except Violation as v:
                if v.kind != "x":
                    raise
                continue
            out.add((c, p[1:]))
        if not out:
            raise Violation("draw-not-genuine", f"{what}: got {show(got)}; allowed next: "
                            + " | ".join(f"{i} {show(w)}" for i, w in wants[:4]))
        return out

    def execute(self, plan, ctx):
        self.n = n = max(1, int(plan["n"]))
        spec = plan["base"]
        scripted = spec["k"] == "scripted"
        self.batches = Batches(spec, n, plan["seed"])
        base = make_base(spec, plan["seed"])
        control = base.control if scripted else None
        with interpreted():
            sam = ctx.call("BufferedSampler()", bijx.BufferedSampler, base, n)
        if control:
            control.n = 0
            control.fail_at = set()
        reps = [[sam, {(0, ())}]]
        disk = {0: (Disk(ctx), {})}
        self.fn = {}
        fired = False
        for i, op in enumerate(plan["ops"]):
            ri = op["r"] % len(reps)
            s, st = reps[ri]
            o, what = op["o"], f"op {i} {op['o']} replica {ri}"
            if o in ("draw", "batch"):
                res = self.attempt(ctx, s, op, control, plan["mode"], what)
                batch = o == "batch"
                if res is None:
                    fired = True
                    reps[ri][1] = self.fail(st, op["key"], batch)
                    ctx.probe("failed-on-empty-buffer" if any(not p for _, p in st) else "failed-on-filled-buffer")
                elif batch:
                    reps[ri][1] = self.batch_ok(st, op, res, what)
                else:
                    reps[ri][1] = self.succeed(st, op["key"], res, what)
                    if fired:
                        ctx.probe("draw-after-fault")
                if len(reps[ri][1]) > 400:
                    raise HarnessError("model state explosion")
                ctx.log(o, "failed" if res is None else "ok", *([] if res is None else jax.tree.leaves(tree_np(res))))
            elif o == "fork":
                reps.append([ctx.call(what, nnx.clone, s), set(st)])
                disk[len(reps) - 1] = (Disk(ctx), {})
            elif o == "ckpt":
                d, snaps = disk[ri]
                snaps[i] = set(st)
                d.write(i, module_state(s), op.get("disk"))
                ctx.log("ckpt", str(op.get("disk")))
            elif o == "crash":
                d, snaps = disk[ri]
                rec = d.load()
                ctx.fault("crash")
                seed = plan["seed"] if rec is None else op["seed"]
                fb = make_base(spec, seed)
                with interpreted():
                    fresh = ctx.call(what, bijx.BufferedSampler, fb, n)
                if control:
                    fb.control = control
                if rec is None:
                    reps[ri] = [fresh, {(0, ())}]
                else:
                    restore_state(fresh, rec[1])
                    reps[ri] = [fresh, set(snaps[rec[0]])]
                ctx.log("crash", rec is None)
            ctx.state(spec["k"], n, o, len(reps[ri][1]), sorted({len(p) for _, p in reps[ri][1]}))
        # faults have stopped: every replica serves the next n+2 requests
        for ri, (s, st) in enumerate(reps):
            for j in range(n + 2):
                what = f"tail {j} replica {ri}"
                with interpreted():
                    got = ctx.call(what, s.sample)
                st = self.succeed(st, None, got, what)
                ctx.log("tail", *jax.tree.leaves(tree_np(got)))
                ctx.state("tail", len(st))
            if fired:
                ctx.probe("tail-after-fault")

    def batch_ok(self, states, op, got, what):
        shape = tuple(op["shape"])
        out = set()
        for c, p in sorted(states, key=repr):
            want = self.batches.get(("i", c) if op["key"] is None else ("k", op["key"]), shape)
            if close(tree_np(got), want, 1e-8, 1e-9):
                out.add((c + 1 if op["key"] is None else c, p))
        if not out:
            raise Violation("batch-not-genuine", f"{what}: got {show(got)}")
        return out

    def attempt(self, ctx, s, op, control, mode, what):
        f = op.get("fault")
        shape = tuple(op.get("shape", ()))
        rng = None if op["key"] is None else key(op["key"])

        def call():
            if mode == "jit" and not shape:
                fn = self.fn.get(rng is None)
                if fn is None:
                    fn = nnx.jit((lambda m: m.sample()) if rng is None else (lambda m, r: m.sample(rng=r)))
                    self.fn[rng is None] = fn
                return fn(s) if rng is None else fn(s, rng)
            with interpreted():
                return s.sample(shape, rng=rng)

        if f is None:
            return ctx.call(what, call)
        if f["k"] == "base":
            if control is None:
                return ctx.call(what, call)
            control.n, control.fail_at, control.fired = 0, {f["at"]}, 0
            try:
                return call()
            except InjectedFault:
                ctx.fault("base-failure")
                return None
            except Exception as e:
                raise Violation("error-replaced", f"{what}: injected base failure surfaced as {type(e).__name__}: {e}") from e
            finally:
                control.fail_at = set()
        exc = InjectedInterrupt if f["k"] == "interrupt" else InjectedOOM
        at = f["n"]
        if f.get("end"):
            twin = nnx.clone(s)
            with LineFault(None) as dry, interpreted():
                ctx.call(what, twin.sample, shape, rng=rng)
            at = max(1, dry.count - f["n"] + 1)
        lf = LineFault(at, exc)
        try:
            with lf:
                r = call()
        except exc:
            ctx.fault(f["k"])
            ctx.log("at", lf.fired)
            return None
        except Exception as e:
            if lf.fired:
                raise Violation("error-replaced", f"{what}: injected {exc.__name__} at {lf.fired} surfaced as {type(e).__name__}: {e}") from e
            raise Violation("unexpected-exception", f"{what}: {type(e).__name__}: {e}") from e
        if lf.fired:
            raise Violation("error-swallowed", f"{what}: injected {exc.__name__} at {lf.fired} vanished")
        return r

    def nontrivial(self, plan, ctx):
        return bool(ctx.probes.get("tail-after-fault"))

    def simplify(self, plan):
        yield from super().simplify(plan)
        for n in (1, 2):
            if n < plan["n"]:
                p = copy.deepcopy(plan)
                p["n"] = n
                yield p
        if plan["base"] != dict(k="scripted", form="array", seed=0):
            p = copy.deepcopy(plan)
            p["base"] = dict(k="scripted", form="array", seed=0)
            yield p
        for i, op in enumerate(plan["ops"]):
            f = op.get("fault")
            if op.get("key") is not None:
                p = copy.deepcopy(plan)
                p["ops"][i]["key"] = None
                yield p
            if f and "n" in f and f["n"] > 1:
                for m in (1, f["n"] // 2, f["n"] - 1):
                    p = copy.deepcopy(plan)
                    p["ops"][i]["fault"]["n"] = m
                    yield p
