"""Shared machinery of C01/C02/C03: scripted base distributions and the buffered-sampler model."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from . import zoo
from .core import InjectedFault, Violation, close, show, tree_np


class Scripted(bijx.Distribution):
    """A user-defined base distribution whose every draw is unique and attributable.

    Value of draw j of the i-th implicit batch is 1000*i + j (+ tag); with an explicit key the
    batch number is derived from the key.  The log density is a different unique number, so a
    draw paired with another draw's log density is visible.
    """

    def __init__(self, form="array", rngs=None, fail_at=()):
        super().__init__(rngs)
        self.count = nnx.Variable(jnp.array(1, dtype=int))
        self.form = form
        self.control = Control(fail_at)

    def get_batch_shape(self, x):
        leaf = x["a"] if isinstance(x, dict) else x
        return leaf.shape if self.form != "vec" else leaf.shape[:-1]

    def _pack(self, v):
        if self.form == "array":
            return v
        if self.form == "vec":
            return jnp.stack([v, -2.0 * v], axis=-1)
        return {"a": v, "b": (v.astype(int), jnp.stack([v + 0.25, v + 0.5], axis=-1))}

    def _unpack(self, x):
        if self.form == "array":
            return x
        if self.form == "vec":
            return x[..., 0]
        return x["a"]

    def sample(self, batch_shape=(), rng=None, **kwargs):
        self.control.tick()
        if rng is None:
            base = 1000.0 * self.count.get_value()
            self.count.set_value(self.count.get_value() + 1)
        else:
            base = 1000.0 * (100 + jax.random.bits(rng, (), "uint32") % 1000003)
        m = int(np.prod(batch_shape)) if batch_shape else 1
        v = (base + jnp.arange(m) + 0.001 * kwargs.get("tag", 0.0)).reshape(batch_shape)
        self.control.tick()
        return self._pack(v), self.log_density(self._pack(v), **kwargs)

    def log_density(self, x, **kwargs):
        return -3.0 * self._unpack(x) - 0.5 + kwargs.get("tag", 0.0)


class Control:
    """Fault switch of a scripted component (plain Python object, not part of the state)."""

    def __init__(self, fail_at=()):
        self.fail_at = set(fail_at)
        self.n = 0
        self.armed = True
        self.fired = 0

    def tick(self):
        self.n += 1
        if self.armed and self.n in self.fail_at:
            self.fired += 1
            raise InjectedFault(f"scripted base failure #{self.n}")

    def __eq__(self, other):
        return isinstance(other, Control)

    def __hash__(self):
        return 7


def make_base(spec, seed):
    if spec["k"] == "scripted":
        return Scripted(spec["form"], rngs=nnx.Rngs(seed))
    return zoo.build_dist(spec, 0, rngs=nnx.Rngs(seed))


def gen_base(R, heavy=False):
    if R.random() < 0.8:
        return dict(k="scripted", form=R.choice(["array", "vec", "tree"]), seed=0)
    if R.random() < 0.6:
        s = zoo.gen_dist(R, depth=0, shapes=((2,),))
        return s
    b = zoo.gen_dist(R, depth=0, shapes=((2,),))
    sh = tuple(b["shape"])
    bij = (zoo.gen_unit(R, sh) if b["k"] == "uniform" else
           zoo.gen_scalar(R, sh, R.choice(["affine", "sinhconj", "exp", "sigmoid", "shift"])))
    return dict(k="transformed", base=b, bij=bij, shape=list(sh), seed=1)


def key(i):
    return jax.random.key(int(i))


@contextlib.contextmanager
def interpreted():
    with jax.disable_jit():
        yield


class Model:
    """Reference: a list of pending draws over an identical, independent copy of the base."""

    def __init__(self, base_spec, n, seed):
        self.twin = make_base(base_spec, seed)
        self.n = n
        self.pending = []
        self.refills = 0

    def fork(self):
        m = Model.__new__(Model)
        m.twin = nnx.clone(self.twin)
        m.n, m.pending, m.refills = self.n, list(self.pending), self.refills
        return m

    def draw(self, rng, kw):
        if not self.pending:
            with interpreted():
                x, ld = self.twin.sample((self.n,), rng=rng, **kw)
            x, ld = tree_np(x), np.asarray(ld)
            self.pending = [(jax.tree.map(lambda a: a[i], x), ld[i]) for i in range(self.n)]
            self.refills += 1
        return self.pending.pop(0)


def check_draw(kind, got, want, what):
    if type(got) is not tuple or len(got) != 2:
        raise Violation("result-structure", f"{what}: sample() returned {type(got).__name__}")
    if jax.tree.structure(got) != jax.tree.structure(want):
        raise Violation("result-structure", f"{what}: {jax.tree.structure(got)} expected {jax.tree.structure(want)}")
    for g, w in zip(jax.tree.leaves(got), jax.tree.leaves(want)):
        if np.shape(g) != np.shape(w):
            raise Violation("result-shape", f"{what}: shape {np.shape(g)} expected {np.shape(w)}")
    if not close(got, want, rtol=1e-8, atol=1e-9):
        raise Violation(kind, f"{what}: got {show(got)} expected {show(want)}")
