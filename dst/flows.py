"""Vector fields with independent references, shared by C09/C10/C11.

Every field is one function of an array namespace: numpy for the reference, jax.numpy for the
code under test.  Reference = plain RK4 with a very fine step in ambient coordinates.  Mirror =
a numpy implementation of the documented scheme with the configured number of steps; its error
against the reference measures the accuracy the solver is entitled to.
"""
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from .core import np_rng

EULER = ([[0.0]], [1.0])
CG2 = ([[0.0, 0.0], [0.5, 0.0]], [0.0, 1.0])
CG3 = ([[0, 0, 0], [3 / 4, 0, 0], [119 / 216, 17 / 108, 0]], [13 / 51, -2 / 3, 24 / 17])
HEUN = ([[0.0, 0.0], [1.0, 0.0]], [0.5, 0.5])
RK4 = ([[0, 0, 0, 0], [0.5, 0, 0, 0], [0, 0.5, 0, 0], [0, 0, 1, 0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6])
TABLEAUS = {"EULER": EULER, "CG2": CG2, "CG3": CG3, "HEUN": HEUN}
ORDER = {"EULER": 1, "CG2": 2, "CG3": 3, "HEUN": 2, "RK4": 4}


def bjx_tableau(name):
    if name == "HEUN":
        return bijx.cg.ButcherTableau(a=HEUN[0], b=HEUN[1])
    return getattr(bijx.cg, name)


# ---------------------------------------------------------------- fields


def euclid_params(kind, n, seed, salt=0):
    r = np_rng("field", kind, n, seed, salt)
    if kind == "lin":
        return dict(al=r.normal(size=n) * 0.7, be=r.normal(size=n) * 0.4, om=r.uniform(0.5, 2.5, size=n), ga=r.normal(size=n) * 0.4)
    if kind == "tanh":
        return dict(w=r.normal(size=(n, n)) * 0.7, b=r.normal(size=n) * 0.4, om=np.array(r.uniform(0.5, 2.0)))
    if kind == "sin":
        return dict(a=r.normal(size=n) * 0.8, k=r.uniform(0.5, 1.5, size=n), d=r.normal(size=n) * 0.3)
    raise KeyError(kind)


def euclid(kind, p, xp, t, x, c):
    """Velocity and divergence; c is a scalar or has the batch shape of x."""
    c = xp.asarray(c)
    cc = c[..., None] if c.ndim else c
    if kind == "lin":
        a = p["al"] * xp.cos(p["om"] * t) + p["be"]
        return a * x + p["ga"] * xp.sin(t) + 0.3 * cc, xp.sum(a) + 0.0 * xp.sum(x, axis=-1)
    if kind == "tanh":
        h = xp.tanh(xp.einsum("ij,...j->...i", p["w"], x) + p["b"])
        g = xp.cos(p["om"] * t) + 0.2 * t
        return h * g + 0.3 * cc, xp.sum((1 - h**2) * xp.diagonal(p["w"]), axis=-1) * g
    g = 1 + 0.5 * t
    return p["a"] * xp.sin(p["k"] * x + cc) * g + p["d"], xp.sum(p["a"] * p["k"] * xp.cos(p["k"] * x + cc), axis=-1) * g


class Times:
    """Times at which the integrator evaluated the field (host callback, also in compiled loops)."""

    def __init__(self):
        self.on = False
        self.ts = []

    def add(self, t):
        self.ts.append(float(t))


class VF(nnx.Module):
    """Harness vector field with hand-made divergence."""

    def __init__(self, kind, n, seed, times=None, salt=0, auto=False):
        self.kind = kind
        self.auto = auto
        self.times = times
        for k, v in euclid_params(kind, n, seed, salt).items():
            setattr(self, "p_" + k, nnx.Param(jnp.asarray(v)))
        self.names = tuple(euclid_params(kind, n, seed, salt))

    def __call__(self, t, x, **kwargs):
        if self.times is not None and self.times.on:
            jax.debug.callback(self.times.add, t)
        p = {k: getattr(self, "p_" + k).get_value() for k in self.names}
        v, div = euclid(self.kind, p, jnp, t, x, kwargs.get("c", 0.0))
        return v if self.auto else (v, -div)


def group_params(n, seed, special=True, salt=0):
    r = np_rng("group", n, seed, salt)

    def alg():
        a = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        a = (a - a.conj().T) / 2
        if special:
            a = a - np.trace(a) / n * np.eye(n)
        return a * 0.6

    return dict(a0=alg(), a1=alg(), b=r.normal(size=(n, n)) * 0.4 + 0.4j * r.normal(size=(n, n)),
                om=np.array(r.uniform(0.5, 2.0)), d=r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)),
                s=np.array(1.0 if special else 0.0))


def group_field(p, xp, t, u, c, linear=False):
    """Algebra element and scalar rate; u has shape (..., n, n)."""
    c = xp.asarray(c)
    cc = c[..., None, None] if c.ndim else c
    n = u.shape[-1]
    a = p["a0"] * xp.cos(p["om"] * t) + (0.5 + cc) * p["a1"]
    if not linear:
        m = xp.einsum("...ij,jk->...ik", u, p["b"])
        m = (m - xp.conj(xp.swapaxes(m, -1, -2))) / 2
        tr = xp.einsum("...ii->...", m)[..., None, None]
        a = a + m - p["s"] * tr / n * xp.eye(n)
    else:
        a = a + 0 * u
    rate = xp.real(xp.einsum("...ij,ji->...", u, p["d"])) * (0.3 + 0.1 * t)
    return a, rate


class GroupVF(nnx.Module):
    def __init__(self, n, seed, special=True, linear=False, times=None, salt=0):
        p = group_params(n, seed, special, salt)
        for k, v in p.items():
            setattr(self, "p_" + k, nnx.Param(jnp.asarray(v)) if k != "s" else bijx.Const(jnp.asarray(v)))
        self.names = tuple(p)
        self.linear = linear
        self.times = times

    def __call__(self, t, u, **kwargs):
        if self.times is not None and self.times.on:
            jax.debug.callback(self.times.add, t)
        p = {k: getattr(self, "p_" + k).get_value() for k in self.names}
        return group_field(p, jnp, t, u, kwargs.get("c", 0.0), self.linear)


def random_group(r, n, batch, special=True):
    z = r.normal(size=(*batch, n, n)) + 1j * r.normal(size=(*batch, n, n))
    q, rr = np.linalg.qr(z)
    d = np.einsum("...ii->...i", rr)
    q = q * (d / np.abs(d))[..., None, :]
    if special:
        q = q / (np.linalg.det(q) ** (1.0 / n))[..., None, None]
    return q


# ---------------------------------------------------------------- references


def expm_np(a):
    """Matrix exponential of (nearly) anti-Hermitian matrices by scaling and Taylor series."""
    k = max(0, int(np.ceil(np.log2(max(1e-300, np.abs(a).sum(-1).max()))))) + 4
    m = a / 2.0**k
    n = a.shape[-1]
    out = np.broadcast_to(np.eye(n, dtype=complex), m.shape).copy()
    term = out.copy()
    for j in range(1, 14):
        term = term @ m / j
        out = out + term
    for _ in range(k):
        out = out @ out
    return out


def scheme_np(f, t0, t1, x, ld, steps, tableau, group=False):
    """The documented explicit scheme with `steps` equal steps (products of exponentials on groups)."""
    a, b = tableau
    c = [sum(row) for row in a]
    h = (t1 - t0) / steps

    def move(x, ld, coef, ks):
        for w, (kx, kl) in zip(coef, ks):
            if w != 0:
                x = expm_np(h * w * kx) @ x if group else x + h * w * kx
                ld = ld + h * w * kl
        return x, ld

    for s in range(steps):
        t = t0 + s * h
        ks = []
        for i in range(len(b)):
            xi, _ = move(x, ld, a[i][:i], ks)
            ks.append(f(t + c[i] * h, xi))
        x, ld = move(x, ld, b, ks)
    return x, ld


def exact_np(f, t0, t1, x, ld, group=False, per_unit=240):
    """Fine RK4 in ambient coordinates; f returns (dx or algebra element, dld)."""
    if t1 == t0:
        return x, ld

    def g(t, x):
        v, r = f(t, x)
        return (v @ x if group else v), r

    return scheme_np(g, t0, t1, x, ld, max(24, int(np.ceil(abs(t1 - t0) * per_unit))), RK4)
