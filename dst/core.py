"""Core of the deterministic simulator: seeded plans, trace log, faults, scheduler.

Everything a run does is a pure function of its *plan* (a JSON value) and of the code under
test; a plan is a pure function of (VERIF_SEED, property, run index).  Nothing here reads a
clock or draws randomness outside the `random.Random` handed to the generators.
"""
import hashlib
import os
import random
import sys
import threading

import numpy as np

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src", "bijx") + os.sep


class Violation(Exception):
    """The property is broken.  `kind` is the class that minimisation must preserve."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:1500]


class HarnessError(Exception):
    pass


class InjectedFault(Exception):
    """Raised by simulated components (callbacks, base distributions) as an application error."""


class InjectedInterrupt(KeyboardInterrupt):
    """Asynchronous interrupt injected at a chosen statement of the library."""


class InjectedOOM(MemoryError):
    pass


def plan_rng(seed, prop, idx):
    return random.Random(f"{seed}/{prop}/{idx}")


def np_rng(*key):
    """Deterministic numpy generator from any printable key (never Python's hash())."""
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(h[:8], "little")))


class Ctx:
    """Per-run recorder: event log (hashed), fault/probe counters, abstract states."""

    def __init__(self, keep=40):
        self._h = hashlib.sha256()
        self.events = 0
        self.tail = []
        self.keep = keep
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.full = [] if os.environ.get("DST_FULLLOG") else None

    def log(self, *parts):
        s = " ".join(_fmt(p) for p in parts)
        self._h.update(s.encode() + b"\n")
        self.events += 1
        self.tail.append(s)
        if self.full is not None:
            self.full.append(s)
        if len(self.tail) > self.keep:
            del self.tail[0]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.sha256(repr(sig).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()[:24]

    def call(self, label, fn, *a, **k):
        """A call into the library that has to succeed."""
        try:
            return fn(*a, **k)
        except (Violation, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001 - any library exception here is a finding
            raise Violation("unexpected-exception", f"{label}: {type(e).__name__}: {e}") from e


def _fmt(p):
    if isinstance(p, str):
        return p
    if isinstance(p, float):
        return repr(p)
    if isinstance(p, (int, bool, type(None))):
        return str(p)
    try:
        a = np.asarray(p)
        if a.dtype != object:
            return f"{a.dtype}{a.shape}:{hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:12]}"
    except Exception:
        pass
    return repr(p)


# ------------------------------------------------------------------ comparisons


def tree_np(t):
    import jax

    return jax.tree.map(lambda x: np.asarray(x), t)


def leaves_np(t):
    import jax

    return [np.asarray(_unkey(x)) for x in jax.tree.leaves(t)]


def _unkey(x):
    import jax

    if isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(x)
    return x


def same(a, b):
    """Bit-identical trees (NaN equals NaN)."""
    la, lb = leaves_np(a), leaves_np(b)
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.tobytes() != y.tobytes() and not _eqnan(x, y):
            return False
    return True


def _eqnan(x, y):
    try:
        return bool(np.array_equal(x, y, equal_nan=True))
    except TypeError:
        return bool(np.array_equal(x, y))


def close(a, b, rtol=1e-7, atol=1e-9):
    la, lb = leaves_np(a), leaves_np(b)
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if x.shape != y.shape:
            return False
        if not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            return False
    return True


def show(t, n=6):
    out = []
    for x in leaves_np(t)[:3]:
        out.append(f"{x.dtype}{list(x.shape)}{np.array2string(x.ravel()[:n], precision=9)}")
    return "; ".join(out)


def module_state(m):
    """Everything nnx exposes of a module, as numpy leaves in a deterministic order."""
    from flax import nnx
    import jax

    st = nnx.state(m)
    flat = jax.tree_util.tree_flatten_with_path(nnx.to_pure_dict(st))[0]
    return [(jax.tree_util.keystr(p), np.array(_unkey(v))) for p, v in flat if v is not None]


def module_config(m, path="", seen=None, out=None):
    """Plain configuration (static attributes) reachable from a module, by attribute path."""
    from flax import nnx
    import jax

    seen = set() if seen is None else seen
    out = {} if out is None else out
    if isinstance(m, (nnx.Variable, jax.Array)) or id(m) in seen:
        return out
    if not isinstance(m, (int, float, str, bool, bytes, type(None))):
        seen.add(id(m))
    items = ()
    if isinstance(m, (dict, list, tuple)) or type(m).__name__ in ("List", "Dict"):
        try:
            items = list(m.items()) if hasattr(m, "items") else list(enumerate(m))
        except Exception:  # noqa: BLE001
            items = ()
        out[path + "#len"] = len(items)
    elif isinstance(m, nnx.Module) or type(m).__module__.startswith("bijx"):
        items = [(k, v) for k, v in vars(m).items() if not k.startswith("_pytree") and k != "_object__state"]
    elif isinstance(m, (int, float, str, bool, bytes, type(None), np.ndarray, np.generic)):
        out[path] = np.array(m) if isinstance(m, np.ndarray) else m
    for k, v in items:
        module_config(v, f"{path}.{k}", seen, out)
    return out


def same_config(a, b):
    """Every configuration value present before is still there and equal (new private caches are allowed)."""
    for p, v in a.items():
        if "._" in p and (v is None or v is False or p.endswith("#len")):
            continue  # a private attribute that was empty: filling it in later is not a change of configuration
        if p not in b:
            return False, f"{p} disappeared"
        w = b[p]
        if isinstance(v, np.ndarray) or isinstance(w, np.ndarray):
            if not np.array_equal(v, w):
                return False, p
        elif type(v) is not type(w) or (v != w and not (v != v and w != w)):
            return False, f"{p}: {v!r} -> {w!r}"
    return True, ""


def same_state(a, b):
    if len(a) != len(b):
        return False, "different number of leaves"
    for (pa, va), (pb, vb) in zip(a, b):
        if pa != pb or va.shape != vb.shape or va.dtype != vb.dtype:
            return False, f"{pa} vs {pb}"
        if va.tobytes() != vb.tobytes():
            return False, f"{pa}: {va.ravel()[:4]} -> {vb.ravel()[:4]}"
    return True, ""


# ------------------------------------------------------------------ statement-level faults


def _clean():
    from jax._src import core as _jc

    return _jc.trace_state_clean()


class LineFault:
    """Raise `exc` at the n-th statement executed by the library (outside JAX tracing).

    With n=None only counts.  Statements executed while JAX traces are not counted, so the
    count does not depend on what JAX has cached.
    """

    def __init__(self, n=None, exc=InjectedInterrupt, tracing=False):
        self.n, self.exc = n, exc
        self.tracing = tracing  # also count statements executed while JAX traces
        self.raised = None
        self.count = 0
        self.fired = None

    def _local(self, frame, event, arg):
        if event == "line" and (self.tracing or _clean()):
            self.count += 1
            if self.n is not None and self.count == self.n and self.fired is None:
                self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.raised = self.exc("injected")
                raise self.raised
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return self._local
        return None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


# ------------------------------------------------------------------ cooperative threads


class _Kill(BaseException):
    pass


class Scheduler:
    """Real threads, one runnable at a time; every statement of the library is a yield point.

    `switches` is a list of [gap, target]: after `gap` yield points the next live thread (by
    `target` modulo the number of live threads) is released.  When the list is exhausted each
    thread runs to its end in order.  The choice of who runs is therefore data, not timing.
    """

    def __init__(self, ctx, switches, stall=120.0):
        self.ctx = ctx
        self.switches = [tuple(s) for s in switches]
        self.pos = 0
        self.gap = self.switches[0][0] if self.switches else None
        self.sems = []
        self.alive = []
        self.results = []
        self.cur = None
        self.done = threading.Semaphore(0)
        self.yields = 0
        self.preempts = 0
        self.where = []
        self.stall = stall

    def _yield(self, me, frame):
        if not _clean():
            return
        self.yields += 1
        if self.gap is None:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        target = self.switches[self.pos][1]
        self.pos += 1
        self.gap = self.switches[self.pos][0] if self.pos < len(self.switches) else None
        live = [i for i, a in enumerate(self.alive) if a]
        nxt = live[target % len(live)]
        if nxt == me:
            return
        self.preempts += 1
        self.where.append((me, os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, nxt))
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def _body(self, i, fn):
        self.sems[i].acquire()

        def local(frame, event, arg):
            if event == "line":
                self._yield(i, frame)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None

        try:
            sys.settrace(glob)
            try:
                r = ("ok", fn())
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            r = ("exc", e)
        self.results[i] = r
        self.alive[i] = False
        live = [j for j, a in enumerate(self.alive) if a]
        if live:
            self.cur = live[0]
            self.sems[live[0]].release()
        else:
            self.done.release()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.results = [None] * n
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        self.cur = 0
        self.sems[0].release()
        if not self.done.acquire(timeout=self.stall):
            raise HarnessError("scheduler stalled")
        for t in ths:
            t.join()
        for w in self.where:
            self.ctx.log("PREEMPT", *[str(x) for x in w])
        return self.results


# ------------------------------------------------------------------ simulated stable storage


class Disk:
    """Checkpoint store of a simulated machine.

    write() is atomic-rename style: a checkpoint is either durable or lost.  Faults: `lost`
    (the write never becomes durable), `torn` (a prefix is durable; detected by checksum at
    load, as a real loader would, so the previous intact checkpoint is used), `late` (durable
    only after the next successful write).
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.slots = []
        self.pending = None

    @staticmethod
    def _sum(items):
        h = hashlib.sha256()
        for p, v in items:
            h.update(p.encode())
            h.update(str((v.dtype, v.shape)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        return h.hexdigest()

    def write(self, tag, items, fault=None):
        items = [(p, np.array(v, copy=True)) for p, v in items]
        rec = dict(tag=tag, items=items, sum=self._sum(items))
        if fault == "lost":
            self.ctx.fault("checkpoint-lost")
            return
        if fault == "torn":
            self.ctx.fault("checkpoint-torn")
            cut = max(0, len(items) // 2)
            rec["items"] = items[:cut] + [(p, np.zeros_like(v)) for p, v in items[cut:]]
            if self._sum(rec["items"]) == rec["sum"]:
                rec["sum"] = "torn"
        if fault == "late":
            self.ctx.fault("checkpoint-late")
            self.pending = rec
            return
        self.slots.append(rec)
        if self.pending is not None:
            self.pending = None

    def load(self):
        for rec in reversed(self.slots):
            if self._sum(rec["items"]) == rec["sum"]:
                return rec["tag"], [(p, v.copy()) for p, v in rec["items"]]
            self.ctx.probe("torn-checkpoint-skipped")
        return None


def restore_state(module, items):
    """Write checkpointed leaves into a freshly built module, matched by path."""
    import jax
    from flax import nnx

    st = nnx.state(module)
    pure = nnx.to_pure_dict(st)
    flat, treedef = jax.tree_util.tree_flatten_with_path(pure)
    saved = dict(items)
    new = []
    for p, v in flat:
        k = jax.tree_util.keystr(p)
        if v is None:
            new.append(v)
            continue
        if k not in saved:
            raise Violation("restore-structure", f"checkpoint has no entry {k}")
        x = saved.pop(k)
        if isinstance(v, jax.Array) and jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key):
            new.append(jax.random.wrap_key_data(np.asarray(x)))
        else:
            if tuple(np.shape(v)) != tuple(x.shape):
                raise Violation("restore-structure", f"{k}: shape {np.shape(v)} vs {x.shape}")
            new.append(jax.numpy.asarray(x))
    if saved:
        raise Violation("restore-structure", f"rebuilt object lacks {sorted(saved)[:3]}")
    nnx.replace_by_pure_dict(st, jax.tree_util.tree_unflatten(treedef, new))
    nnx.update(module, st)
