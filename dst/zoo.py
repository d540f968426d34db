"""Systems under simulation: builders for bijections and distributions from JSON specs.

A spec fixes the architecture; `seed` fixes the parameter values.  Every trainable parameter is
moved away from its initial value (most bijections start as the identity, which hides errors).
"""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx

from .core import np_rng

# ---------------------------------------------------------------- harness-side components


class CondShift(bijx.Bijection):
    """User-defined conditional bijection: y = x * exp(a*tanh(c)) + c, c a keyword argument."""

    def __init__(self, a=0.3, name="c"):
        self.a = nnx.Param(jnp.asarray(a, dtype=float))
        self.name = name

    def _c(self, kwargs, x):
        c = kwargs.get(self.name)
        return jnp.zeros(()) if c is None else jnp.asarray(c)

    def forward(self, x, log_density, **kwargs):
        c = self._c(kwargs, x)
        ls = self.a.get_value() * jnp.tanh(c)
        n = int(np.prod(x.shape[jnp.ndim(log_density):])) if jnp.ndim(x) else 1
        e = c.reshape(c.shape + (1,) * (jnp.ndim(x) - c.ndim)) if c.ndim else c
        l = ls.reshape(ls.shape + (1,) * (jnp.ndim(x) - ls.ndim)) if ls.ndim else ls
        return x * jnp.exp(l) + e, log_density - n * ls

    def reverse(self, x, log_density, **kwargs):
        c = self._c(kwargs, x)
        ls = self.a.get_value() * jnp.tanh(c)
        n = int(np.prod(x.shape[jnp.ndim(log_density):])) if jnp.ndim(x) else 1
        e = c.reshape(c.shape + (1,) * (jnp.ndim(x) - c.ndim)) if c.ndim else c
        l = ls.reshape(ls.shape + (1,) * (jnp.ndim(x) - ls.ndim)) if ls.ndim else ls
        return (x - e) * jnp.exp(-l), log_density + n * ls


class CondScalar(bijx.ScalarBijection):
    """User-defined conditional scalar bijection (same map, through the element-wise interface)."""

    def __init__(self, a=0.3, name="c"):
        self.a = nnx.Param(jnp.asarray(a, dtype=float))
        self.name = name

    def _c(self, kwargs, x):
        c = kwargs.get(self.name)
        c = jnp.zeros(()) if c is None else jnp.asarray(c)
        c = c.reshape(c.shape + (1,) * (jnp.ndim(x) - c.ndim)) if c.ndim else c
        return c, self.a.get_value() * jnp.tanh(c)

    def log_jac(self, x, y, **kwargs):
        return self._c(kwargs, x)[1] + jnp.zeros_like(x)

    def fwd(self, x, **kwargs):
        c, l = self._c(kwargs, x)
        return x * jnp.exp(l) + c

    def rev(self, y, **kwargs):
        c, l = self._c(kwargs, y)
        return (y - c) * jnp.exp(-l)


class TanhVF(nnx.Module):
    """Smooth time-dependent field on the last axis: dx/dt = tanh(W x + b) cos(w t) + c."""

    def __init__(self, n, rng):
        self.w = nnx.Param(jnp.asarray(rng.normal(size=(n, n)) * 0.5))
        self.b = nnx.Param(jnp.asarray(rng.normal(size=(n,)) * 0.3))
        self.om = nnx.Param(jnp.asarray(rng.uniform(0.3, 1.5)))

    def __call__(self, t, x, **kwargs):
        c = kwargs.get("c", 0.0)
        c = jnp.asarray(c)
        c = c.reshape(c.shape + (1,) * (jnp.ndim(x) - c.ndim)) if c.ndim else c
        h = jnp.tanh(jnp.einsum("ij,...j->...i", self.w.get_value(), x) + self.b.get_value())
        return h * jnp.cos(self.om.get_value() * t) + 0.3 * c


class TanhDivVF(TanhVF):
    """Same field with its divergence worked out by hand."""

    def __call__(self, t, x, **kwargs):
        c = jnp.asarray(kwargs.get("c", 0.0))
        c = c.reshape(c.shape + (1,) * (jnp.ndim(x) - c.ndim)) if c.ndim else c
        w = self.w.get_value()
        h = jnp.tanh(jnp.einsum("ij,...j->...i", w, x) + self.b.get_value())
        ct = jnp.cos(self.om.get_value() * t)
        div = jnp.sum((1 - h**2) * jnp.diagonal(w), axis=-1) * ct
        return h * ct + 0.3 * c, -div


# ---------------------------------------------------------------- parameters


WRAP = None  # fault injection: wraps user-supplied nets, vector fields and scalar parts while building


def _user(kind, part):
    return part if WRAP is None else WRAP(kind, part)


@contextlib.contextmanager
def wrapping(fn):
    global WRAP
    old, WRAP = WRAP, fn
    try:
        yield
    finally:
        WRAP = old


SALT = 0  # set while rebuilding: same constructor arguments, different randomness and training


@contextlib.contextmanager
def salted(n):
    global SALT
    old, SALT = SALT, n
    try:
        yield
    finally:
        SALT = old


def perturb(module, key, scale=0.5):
    """Move every float nnx.Param away from its initial value, deterministically."""
    st = nnx.state(module, nnx.Param)
    pure = nnx.to_pure_dict(st)
    flat, td = jax.tree_util.tree_flatten_with_path(pure)
    new = []
    for i, (p, v) in enumerate(flat):
        v = np.asarray(v)
        if np.issubdtype(v.dtype, np.floating):
            v = v + np_rng("perturb", key, i, SALT).uniform(-scale, scale, size=v.shape)
        new.append(jnp.asarray(v))
    nnx.replace_by_pure_dict(st, jax.tree_util.tree_unflatten(td, new))
    nnx.update(module, st)
    return module


def stack_modules(mods):
    graph, _ = nnx.split(mods[0])
    states = [nnx.split(m)[1] for m in mods]
    return nnx.merge(graph, jax.tree.map(lambda *xs: jnp.stack(xs), *states))


# ---------------------------------------------------------------- scalar bijections

SCALAR = {
    # name: (domain, codomain, takes parameter shape)
    "affine": ("real", "real"),
    "scaling": ("real", "real"),
    "negscaling": ("real", "real"),
    "shift": ("real", "real"),
    "sinh": ("real", "real"),
    "cubicrat": ("real", "real"),
    "sinhconj": ("real", "real"),
    "cubicconj": ("real", "real"),
    "spline": ("real", "real"),
    "gausscdf": ("real", "unit"),
    "sigmoid": ("real", "unit"),
    "tanh": ("real", "m11"),
    "exp": ("real", "pos"),
    "softplus": ("real", "pos"),
    "betastretch": ("unit", "unit"),
    "tan": ("unit", "real"),
    "power": ("pos", "pos"),
}


def _scalar(name, pshape, seed):
    rngs = nnx.Rngs(seed + 977 * SALT)
    s = tuple(pshape)
    b = bijx
    if name == "affine":
        m = b.AffineLinear(s, s, rngs=rngs)
    elif name in ("scaling", "negscaling"):
        m = b.Scaling(s, rngs=rngs)
    elif name == "shift":
        m = b.Shift(s, rngs=rngs)
    elif name == "sinh":
        m = b.Sinh()
    elif name == "cubicrat":
        m = b.CubicRational(s, s, s, rngs=rngs)
    elif name == "sinhconj":
        m = b.SinhConjugation(s, s, s, s, s, rngs=rngs)
    elif name == "cubicconj":
        m = b.CubicConjugation(s, s, s, s, rngs=rngs)
    elif name == "spline":
        m = b.MonotoneRQSpline(5, s, rngs=rngs)
    elif name == "gausscdf":
        m = b.GaussianCDF(s, s, rngs=rngs)
    elif name == "sigmoid":
        m = b.Sigmoid()
    elif name == "tanh":
        m = b.Tanh()
    elif name == "exp":
        m = b.Exponential()
    elif name == "softplus":
        m = b.SoftPlus()
    elif name == "betastretch":
        m = b.BetaStretch(s, rngs=rngs)
    elif name == "tan":
        m = b.Tan()
    elif name == "power":
        m = b.Power(s, rngs=rngs)
    else:
        raise KeyError(name)
    m = perturb(m, (name, seed))
    if name == "negscaling":
        m.scale.param.set_value(-m.scale.param.get_value())
    return m


# ---------------------------------------------------------------- build from spec


def build(spec, seed=0):
    k = spec["k"]
    shape = tuple(spec.get("shape", ()))
    seed = spec.get("seed", 0) * 1000 + seed
    rngs = nnx.Rngs(seed + 977 * SALT)
    if k in SCALAR:
        return _scalar(k, spec.get("pshape", ()), seed)
    if k == "identity":
        return bijx.Bijection()
    if k == "fragile":
        return _user("bij", bijx.Shift(jnp.asarray(0.25)))
    if k == "chain":
        return bijx.Chain(*[build(s, seed + i + 1) for i, s in enumerate(spec["sub"])])
    if k == "scan":
        return bijx.ScanChain(stack_modules([build(spec["sub"][0], seed + 17 * i + 1) for i in range(spec["n"])]))
    if k == "inverse":
        return build(spec["sub"][0], seed).invert()
    if k == "inverse2":
        return bijx.Inverse(bijx.Inverse(build(spec["sub"][0], seed)))
    if k == "condinv":
        return bijx.CondInverse(build(spec["sub"][0], seed), invert=bool(spec["flag"]))
    if k == "condinv_inv":
        return bijx.CondInverse(build(spec["sub"][0], seed), invert=bool(spec["flag"])).invert()
    if k == "frozen":
        return bijx.Frozen(build(spec["sub"][0], seed))
    if k == "partial":
        return bijx.Partial(build(spec["sub"][0], seed), c=float(spec["c"]))
    if k == "condshift":
        return perturb((CondScalar if spec.get("sc") else CondShift)(name=spec.get("kw", "c")), seed)
    if k == "reshape":
        return bijx.Reshape(shape, tuple(spec["to"]))
    if k == "tofourier":
        return bijx.ToFourierData(shape, bijx.fourier.FFTRep[spec["rep"]], unpack=bool(spec.get("unpack", 1)))
    if k == "expand":
        return bijx.ExpandDims(spec.get("axis", -1))
    if k == "squeeze":
        return bijx.SqueezeDims(spec.get("axis", -1))
    if k == "flip":
        return bijx.MetaLayer(lambda x: x[..., ::-1], lambda x: x[..., ::-1])
    if k == "maskperm":
        m = bijx.checker_mask(shape, False)
        return bijx.Chain(m, (~m).invert())
    if k == "radial":
        sc = build(spec["sub"][0], seed + 1)
        return perturb(bijx.Radial(sc, center=shape, scale=shape, rngs=rngs), ("radial", seed), 0.2)
    if k == "radcond":
        sc = build(spec["sub"][0], seed + 1)
        n = bijx.ModuleReconstructor(sc).params_total_size
        net = bijx.nn.nets.MLP(shape[-1], n, [5], final_activation=jnp.tanh, rngs=rngs)
        return perturb(bijx.RadialConditional(sc, _user("net", net), center=shape, scale=shape, rngs=rngs), ("radc", seed), 0.2)
    if k == "ray":
        return bijx.RayTransform(build(spec["sub"][0], seed + 1))
    if k == "coupling":
        return perturb(_coupling(spec, shape, seed, rngs), ("coup", seed), 0.25)
    if k == "specscale":
        half = shape[:-1] + (shape[-1] // 2 + 1,)
        sc = np.exp(np_rng("spec", seed).uniform(-0.7, 0.7, size=half))
        if spec.get("neg"):
            sc = sc * np.where(np_rng("sgn", seed).uniform(size=half) < 0.5, -1, 1)
        # self-conjugate modes are kept symmetric so that the map is real and invertible
        sc = _hermitise(sc, shape)
        v = nnx.Param(jnp.asarray(sc)) if spec.get("param") else jnp.asarray(sc)
        return bijx.SpectrumScaling(v)
    if k == "free":
        return bijx.FreeTheoryScaling(float(np_rng("m2", seed).uniform(0.3, 2.0)), shape,
                                      finite_size=bool(spec.get("fs", True)), half=bool(spec.get("half", True)))
    if k in ("rk4", "diffrax"):
        vf = TanhDivVF(shape[-1], np_rng("vf", seed, SALT))
        if spec.get("auto"):
            vf = bijx.AutoJacVF(TanhVF(shape[-1], np_rng("vf", seed, SALT)), event_dim=1)
        vf = _user("vf", vf)
        if k == "rk4":
            return bijx.ContFlowRK4(vf, t_start=spec.get("t0", 0.0), t_end=spec.get("t1", 1.0), steps=spec.get("steps", 16))
        import diffrax

        cfg = bijx.DiffraxConfig(t_start=spec.get("t0", 0.0), t_end=spec.get("t1", 1.0), dt=spec.get("dt", 0.1),
                                 solver=diffrax.Tsit5())
        return bijx.ContFlowDiffrax(vf, cfg)
    if k == "cgflow":
        vf = TanhDivVF(shape[-1], np_rng("vf", seed, SALT))
        return bijx.ContFlowCG(_user("vf", vf), bijx.cg.Euclidean(), steps=spec.get("steps", 40), tableau=bijx.cg.CG3)
    if k == "convcnf":
        from functools import partial as _p

        from bijx.bijections.conv_cnf import ConvVF
        from bijx.nn.features import FourierFeatures, PolynomialFeatures

        vf = ConvVF.build(kernel_shape=(3, 3), channel_shape=shape[2:], use_bias=bool(spec.get("bias")),
                          time_kernel=bijx.nn.embeddings.KernelFourier(5), time_kernel_reduced=3,
                          features=(_p(FourierFeatures, 4), _p(PolynomialFeatures, (1,))), features_reduced=3, rngs=rngs)
        vf = perturb(vf, ("conv", seed), 0.15)
        if spec["solver"] == "rk4":
            return bijx.ContFlowRK4(vf, steps=4)
        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(dt=0.25))
    if k == "flowjax":
        import flowjax.bijections as fb

        r = np_rng("fj", seed)
        loc, sc = jnp.asarray(r.normal(size=shape)), jnp.asarray(r.uniform(0.5, 1.5, size=shape))
        if spec.get("which", 0) == 0:
            fj = fb.Affine(loc, sc)
        else:
            fj = fb.Chain([fb.Affine(loc, sc), fb.Tanh(shape), fb.Invert(fb.Tanh(shape))])
        import bijx.flowjax as bfj

        return bfj.from_flowjax(fj)
    raise KeyError(k)


def _hermitise(sc, shape):
    """Make a half-spectrum of real factors consistent: s(k) = s(-k) on self-paired planes."""
    sc = np.array(sc)
    nd = len(shape)
    last = shape[-1]
    planes = [0] + ([last // 2] if last % 2 == 0 else [])
    if nd == 1:
        return sc
    for pl in planes:
        a = sc[..., pl]
        b = a.copy()
        for ax in range(nd - 1):
            b = np.roll(np.flip(b, ax), 1, ax)
        m = 0.5 * (np.abs(a) + np.abs(b)) * np.where(a + b >= 0, 1, -1)
        sc[..., pl] = m
    return sc


def _coupling(spec, shape, seed, rngs):
    mask = bijx.checker_mask(shape, bool(spec.get("parity", 0)))
    if spec.get("fliped"):
        mask = ~mask
    inner = spec.get("inner", "affine")
    split = bool(spec.get("split", True))
    rank = spec.get("rank", 0)
    if split:
        n_in, n_act = mask.count_secondary, mask.count_primary
        if rank == 0:
            sc = _scalar(inner, (), seed)
            tmpl = bijx.ModuleReconstructor(sc)
            out = n_act * tmpl.params_total_size
            resh = lambda p: p.reshape(*p.shape[:-1], n_act, -1)  # noqa: E731
        else:
            sc = _scalar(inner, (n_act,), seed)
            tmpl = bijx.ModuleReconstructor(sc)
            out = tmpl.params_total_size
            resh = lambda p: p  # noqa: E731
        net = nnx.Sequential(bijx.nn.nets.MLP(n_in, out, [6], final_activation=jnp.tanh, rngs=rngs), resh)
        return bijx.GeneralCouplingLayer(_user("net", net), mask, tmpl, bijection_event_rank=rank, split=True)
    sc = _scalar(inner, (), seed)
    tmpl = bijx.ModuleReconstructor(sc)
    n = int(np.prod(shape))
    nd = len(shape)
    pre = lambda x: x.reshape(*x.shape[: x.ndim - nd], n)  # noqa: E731
    post = lambda p: p.reshape(*p.shape[:-1], *shape, -1)  # noqa: E731
    net = nnx.Sequential(pre, bijx.nn.nets.MLP(n, n * tmpl.params_total_size, [6], final_activation=jnp.tanh, rngs=rngs), post)
    return bijx.GeneralCouplingLayer(_user("net", net), mask, tmpl, bijection_event_rank=0, split=False)


# ---------------------------------------------------------------- spec generation

RR = ["affine", "scaling", "negscaling", "shift", "sinh", "cubicrat", "sinhconj", "cubicconj", "spline"]


def _seed(R):
    return R.randrange(1, 10**6)


def gen_scalar(R, shape, name=None, dom="real"):
    names = [n for n, (d, c) in SCALAR.items() if d == dom]
    name = name or R.choice(names)
    # parameters: one scalar for all, or one per component
    ps = list(R.choice([(), tuple(shape)])) if shape else []
    if name == "spline":
        ps = list(shape) if (shape and R.random() < 0.5) else []
    return dict(k=name, shape=list(shape), pshape=ps, seed=_seed(R))


def cod(spec, dom="real"):
    """Codomain of a spec given its domain."""
    k = spec["k"]
    if k in SCALAR:
        return SCALAR[k][1]
    if k == "chain":
        for s in spec["sub"]:
            dom = cod(s, dom)
        return dom
    if k == "inverse":
        return SCALAR[spec["sub"][0]["k"]][0] if spec["sub"][0]["k"] in SCALAR else "real"
    return "real"


def center_of(spec, m):
    """Centre of the radial layer that sees the input first, or None."""
    while spec["k"] == "chain" and spec.get("sub"):
        spec, m = spec["sub"][0], m.bijections[0]
    return np.asarray(m.center) if spec["k"] in ("radial", "radcond") else None


def gen_leaf(R, shape, heavy=True, kw=True):
    """A real -> real bijection on events of this shape."""
    opts = [("scalar", 5)]
    if len(shape) == 1 and shape[0] >= 2:
        opts += [("coupling", 3), ("radial", 1.5), ("radcond", 1.2), ("flip", 0.5), ("flowjax", 0.7), ("maskperm", 0.4)]
        if heavy:
            opts += [("rk4", 1.2), ("diffrax", 0.8), ("cgflow", 0.6)]
    if len(shape) == 1 and shape[0] % 2:
        opts = [(n, w) for n, w in opts if n != "maskperm"]
    if len(shape) == 2:
        opts += [("coupling", 2), ("reshape", 1.5), ("flip", 0.4)]
    if len(shape) >= 1 and shape[-1] >= 2:
        opts += [("specscale", 1.0), ("free", 0.6)]
        opts += [("fourier", 0.8)]
    if len(shape) == 1:
        opts += [("expand", 0.6)]
    if tuple(shape) == (1,):
        opts += [("reshape0", 1.0)]
    if kw:
        opts += [("condshift", 0.8), ("partial", 0.4)]
    k = R.choices([o[0] for o in opts], [o[1] for o in opts])[0]
    s = dict(k=k, shape=list(shape), seed=_seed(R))
    if k == "scalar":
        if R.random() < 0.3:
            return gen_through(R, shape)
        return gen_scalar(R, shape, R.choice(RR))
    if k == "coupling":
        s["inner"] = R.choice(["affine", "spline", "cubicrat", "sinhconj", "shift", "cubicconj"])
        s["split"] = R.random() < 0.65
        s["parity"] = R.randrange(2)
        s["fliped"] = R.randrange(2)
        # rank 1 over a vector of active components
        s["rank"] = 1 if (s["split"] and R.random() < 0.3) else 0
    elif k == "radial":
        s["sub"] = [dict(k="ray", sub=[gen_scalar(R, (), R.choice(["affine", "cubicrat", "sinh", "spline"]))])]
        s["sub"][0]["sub"][0]["pshape"] = []
    elif k == "radcond":
        s["sub"] = [dict(k="ray", sub=[dict(k=R.choice(["affine", "cubicrat", "spline"]), pshape=[], seed=_seed(R))])]
    elif k == "reshape":
        n = int(np.prod(shape))
        sub = gen_leaf(R, (n,), heavy=False, kw=False)
        return dict(k="chain", sub=[dict(k="reshape", shape=list(shape), to=[n]), sub,
                                    dict(k="reshape", shape=[n], to=list(shape))], shape=list(shape))
    elif k == "reshape0":
        return dict(k="chain", sub=[dict(k="reshape", shape=[1], to=[]), gen_scalar(R, (), R.choice(RR)),
                                    dict(k="reshape", shape=[], to=[1])], shape=[1])
    elif k == "fourier":
        rep, unpack = R.choice([("comp_real", 1), ("comp_real", 1), ("comp_complex", 1), ("rfft", 0), ("real_space", 1)])
        t = dict(k="tofourier", shape=list(shape), rep=rep, unpack=unpack)
        n = int(np.prod(shape))
        mid = [gen_scalar(R, (n,), R.choice(["affine", "scaling", "negscaling", "cubicrat", "spline"]))] if rep == "comp_real" else []
        return dict(k="chain", sub=[t] + mid + [dict(k="inverse", sub=[dict(t)])], shape=list(shape))
    elif k == "expand":
        sub = gen_scalar(R, tuple(shape) + (1,), R.choice(RR))
        return dict(k="chain", sub=[dict(k="expand"), sub, dict(k="squeeze")], shape=list(shape))
    elif k == "specscale":
        s["neg"] = R.randrange(2)
        s["param"] = R.randrange(2)
    elif k == "free":
        s["fs"], s["half"] = R.randrange(2), R.randrange(2)
    elif k in ("rk4", "diffrax"):
        s["auto"] = R.randrange(2)
        s["t0"], s["t1"] = R.choice([(0.0, 1.0), (0.0, 1.0), (0.3, 1.4), (1.0, 0.0), (-0.5, 0.5)])
    elif k == "flowjax":
        s["which"] = R.randrange(2)
    elif k == "partial":
        s["sub"] = [dict(k="condshift", seed=_seed(R), sc=R.randrange(2))]
        s["c"] = round(R.uniform(-1, 1), 3)
    elif k == "condshift":
        s["sc"] = R.randrange(2)
    return s


def gen_through(R, shape):
    """real -> real via a bounded domain."""
    a, b = R.choice([
        (["sigmoid"], ["tan"]), (["sigmoid", "betastretch"], ["~sigmoid"]),
        (["gausscdf", "betastretch"], ["~gausscdf"]), (["tanh"], ["~tanh"]), (["exp", "power"], ["~exp"]),
        (["softplus", "power"], ["~softplus"]), (["softplus"], ["~exp"]),
    ])
    sub = []
    for n in a + b:
        if n.startswith("~"):
            sub.append(dict(k="inverse", sub=[gen_scalar(R, shape, n[1:])]))
        else:
            sub.append(gen_scalar(R, shape, n))
    return dict(k="chain", sub=sub, shape=list(shape))


WILD = ("sinh", "tan", "gausscdf", "sigmoid", "tanh")


def leaves_in_order(spec, fwd=True):
    """(kind, applied-forward?) of every leaf in the order forward() applies them."""
    k, sub = spec["k"], spec.get("sub", [])
    if k == "chain":
        order = sub if fwd else sub[::-1]
        return [l for s in order for l in leaves_in_order(s, fwd)]
    if k == "scan":
        return leaves_in_order(sub[0], fwd) * spec["n"]
    if k == "inverse" or (k == "condinv" and spec["flag"]) or (k == "condinv_inv" and not spec["flag"]):
        return leaves_in_order(sub[0], not fwd)
    if k in ("inverse2", "condinv", "condinv_inv", "frozen") or (k == "partial" and sub[0]["k"] != "condshift"):
        return leaves_in_order(sub[0], fwd)
    return [(k, fwd)]


def tame(spec):
    """Saturating or exponentially growing maps only act on values of ordinary size."""
    lv = leaves_in_order(spec)
    wild = [i for i, (k, f) in enumerate(lv) if k in WILD and f]
    if not wild:
        return True
    free = ("betastretch", "flip", "maskperm", "reshape", "expand", "squeeze", "frozen", "shift")
    return all(k in free or k in WILD for k, _ in lv[: wild[-1]]) and len(wild) <= 2 and (
        len(wild) == 1 or wild[1] == wild[0] + 1) and (len(wild) < 2 or lv[wild[0]][0] == "sigmoid")


def gen_bij(R, shape, depth=2, heavy=True, kw=True):
    for _ in range(60):
        s = _gen_bij(R, shape, depth, heavy, kw)
        if tame(s):
            return s
    return gen_scalar(R, shape, "affine")


def _gen_bij(R, shape, depth=2, heavy=True, kw=True):
    if depth <= 0 or R.random() < 0.35:
        return gen_leaf(R, shape, heavy, kw)
    k = R.choices(["chain", "scan", "inverse", "inverse2", "condinv", "condinv_inv", "frozen", "partial"],
                  [5, 2.5, 2, 0.5, 1.5, 0.7, 0.7, 0.8 if kw else 0])[0]
    if k == "chain":
        return dict(k=k, shape=list(shape), sub=[_gen_bij(R, shape, depth - 1, heavy, kw) for _ in range(R.randint(2, 3))])
    if k == "scan":
        for _ in range(20):
            sub = gen_leaf(R, shape, heavy=False, kw=kw)
            if not has(sub, ("flip", "maskperm", "expand", "squeeze", "reshape", "tofourier", "sinh", "free", "specscale", "partial", "flowjax") + WILD) and n_params(sub):
                break
        else:
            sub = gen_scalar(R, shape, "affine")
        return dict(k=k, shape=list(shape), n=R.randint(2, 4), sub=[sub])
    s = dict(k=k, shape=list(shape), sub=[_gen_bij(R, shape, depth - 1, heavy, kw)])
    if k == "partial":
        s["c"] = round(R.uniform(-1, 1), 3)
    if k.startswith("condinv"):
        s["flag"] = R.randrange(2)
    return s


def walk(spec):
    yield spec
    for s in spec.get("sub", []):
        yield from walk(s)


def has(spec, kinds):
    return any(s["k"] in kinds for s in walk(spec))


def n_params(spec):
    return any(s["k"] not in ("sinh", "sigmoid", "tanh", "exp", "softplus", "tan", "chain", "inverse", "ray", "identity")
               for s in walk(spec))


def kinds(spec):
    return sorted({s["k"] for s in walk(spec)})


SHAPES = [(2,), (3,), (4,), (5,), (2, 2), (3, 4), (4, 4), (1,)]


# ---------------------------------------------------------------- inputs


def draw_x(rng, batch, shape, dom="real", size=1.0):
    full = tuple(batch) + tuple(shape)
    if dom == "real":
        return np.clip(rng.normal(size=full) * 1.1 * size, -3.2 * size, 3.2 * size)
    if dom == "unit":
        return rng.uniform(0.03, 0.97, size=full)
    if dom == "pos":
        return rng.uniform(0.05, 3.0, size=full)
    if dom == "m11":
        return rng.uniform(-0.95, 0.95, size=full)
    raise KeyError(dom)


# ---------------------------------------------------------------- distributions


def gen_dist(R, depth=2, shapes=((2,), (3,), (2, 2)), heavy=True, kw=True):
    opts = [("normal", 3), ("mvn", 2.5), ("diag", 2), ("gmm_diag", 1.5), ("gmm_full", 1.5), ("mixstack", 1.0), ("uniform", 0.7)]
    if depth > 0:
        opts.append(("transformed", 5))
    k = R.choices([o[0] for o in opts], [o[1] for o in opts])[0]
    shape = R.choice(list(shapes))
    s = dict(k=k, seed=_seed(R), shape=list(shape))
    if k in ("mvn", "diag", "gmm_diag", "gmm_full", "mixstack"):
        n = R.choice([1, 2, 3])
        s["shape"] = [n]
        s["m"] = R.choice([2, 3, 4])
    if k == "mixstack":
        s["kind"] = R.choice(["mvn", "diag"])
    if k == "transformed":
        s["base"] = gen_dist(R, depth - 1, shapes, heavy, kw)
        sh = tuple(s["base"]["shape"])
        s["shape"] = list(sh)
        if dist_dom(s["base"]) == "unit":
            s["bij"] = gen_unit(R, sh)
        else:
            s["bij"] = gen_bij(R, sh, depth=1, heavy=heavy, kw=kw)
    return s


def gen_unit(R, shape):
    sub = [gen_scalar(R, shape, "betastretch")] if R.random() < 0.5 else []
    last = R.choice(["tan", "~sigmoid", "~gausscdf"])
    if last.startswith("~"):
        sub.append(dict(k="inverse", sub=[gen_scalar(R, shape, last[1:])]))
    else:
        sub.append(gen_scalar(R, shape, last))
    return dict(k="chain", sub=sub, shape=list(shape))


def dist_dom(spec):
    return "unit" if spec["k"] == "uniform" else "real"


def build_dist(spec, seed=0, rngs=None):
    k = spec["k"]
    s = spec.get("seed", 0) * 1000 + seed
    shape = tuple(spec.get("shape", ()))
    r = np_rng("dist", k, s)
    if k == "normal":
        return bijx.IndependentNormal(shape, rngs=rngs)
    if k == "uniform":
        return bijx.IndependentUniform(shape, rngs=rngs)
    n = shape[-1] if shape else 1
    if k == "mvn":
        a = r.normal(size=(n, n)) * 0.5 + np.eye(n)
        d = bijx.MultivariateNormal.given_cov(jnp.asarray(r.normal(size=n)), jnp.asarray(a @ a.T + 0.2 * np.eye(n)),
                                              rngs=rngs, var_cls=nnx.Param)
        if spec.get("trained"):
            # Cholesky entries wherever training may move them (negative diagonals included)
            c = np.array(d.cholesky.get_value())
            d.cholesky.set_value(jnp.asarray(c * np.where(r.uniform(size=c.shape) < 0.5, -1, 1)))
        return d
    if k == "diag":
        sc = r.uniform(0.4, 1.6, size=n)
        if spec.get("trained"):
            sc = sc * np.where(r.uniform(size=n) < 0.5, -1, 1)
        return bijx.DiagonalNormal(jnp.asarray(r.normal(size=n)), jnp.asarray(sc), rngs=rngs)
    m = spec.get("m", 2)
    if k == "gmm_diag":
        return bijx.GaussianMixture(jnp.asarray(r.normal(size=(m, n)) * 2), jnp.asarray(r.uniform(0.2, 1.5, size=(m, n))),
                                    jnp.asarray(r.normal(size=m)), rngs=rngs)
    if k == "gmm_full":
        a = r.normal(size=(m, n, n)) * 0.4 + np.eye(n)
        cov = np.einsum("mij,mkj->mik", a, a) + 0.2 * np.eye(n)
        return bijx.GaussianMixture(jnp.asarray(r.normal(size=(m, n)) * 2), jnp.asarray(cov), jnp.asarray(r.normal(size=m)), rngs=rngs)
    if k == "mixstack":
        comps = [build_dist(dict(k=spec["kind"], seed=spec["seed"] + 31 * i, shape=[n]), seed) for i in range(m)]
        return bijx.MixtureStack(stack_modules(comps), jnp.asarray(r.normal(size=m)), rngs=rngs)
    if k == "haar":
        return bijx.lie.HaarDistribution(spec["n"], tuple(spec.get("base", ())), rngs=rngs)
    if k == "transformed":
        return bijx.Transformed(build_dist(spec["base"], seed, rngs=rngs), build(spec["bij"], seed))
    if k == "buffered":
        return bijx.BufferedSampler(build_dist(spec["base"], seed, rngs=rngs), spec["n"])
    raise KeyError(k)


def dist_kinds(spec):
    out = [spec["k"]]
    if "base" in spec:
        out += dist_kinds(spec["base"])
    if "bij" in spec:
        out += kinds(spec["bij"])
    return out


def needs_kw(spec):
    return has(spec, ("condshift",))
