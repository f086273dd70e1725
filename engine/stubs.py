"""Contract of the sampler: `jax.random.choice(key, a, shape, p=p)` draws independently from the
rows of `a`, row k with probability p[k] / sum(p).

While a symbolic session is active the call becomes a primitive whose symbolic execution returns
`sum_k e_k a[k]` for fresh indicator variables e_k (exactly one of them is 1) and records the
distribution.  `MODE = "mean"` makes it return the mean of that distribution on concrete inputs,
which is how counterexamples of unbiasedness are replayed.
"""
from __future__ import annotations

import math

import jax
import jax.numpy as jnp
import jax.scipy.linalg
import numpy as np
from jax._src import core
from jax.interpreters import batching

from .sym import SA, pconst, pmul
from .trace import SPECIAL, to_np

MODE = None
_real = jax.random.choice

choice_p = core.Primitive("sym_choice")


def _abstract(key, a, p, *, shape):
    return core.ShapedArray(tuple(shape) + a.shape[1:], a.dtype if MODE == "sym" else jnp.result_type(a.dtype, p.dtype))


choice_p.def_abstract_eval(_abstract)


def _impl(key, a, p, *, shape):
    """Mean of the distribution."""
    a, p = np.asarray(a), np.asarray(p)
    m = np.tensordot(p / p.sum(), a, axes=(0, 0))
    dt = jnp.result_type(a.dtype, p.dtype)
    return jnp.asarray(np.broadcast_to(m, tuple(shape) + a.shape[1:]).astype(dt))


choice_p.def_impl(_impl)


def _lower(key, a, p, *, shape):
    q = p / jnp.sum(p)
    return jnp.broadcast_to(jnp.tensordot(q, a, axes=(0, 0)), tuple(shape) + a.shape[1:])


from jax.interpreters import mlir  # noqa: E402

mlir.register_lowering(choice_p, mlir.lower_fun(_lower, multiple_results=False))


def _batch(args, dims, *, shape):
    n = next(x.shape[d] for x, d in zip(args, dims) if d is not batching.not_mapped)
    outs = []
    for i in range(n):
        xs = [x if d is batching.not_mapped else jnp.take(x, i, axis=d) for x, d in zip(args, dims)]
        outs.append(choice_p.bind(*xs, shape=shape))
    return jnp.stack(outs), 0


batching.primitive_batchers[choice_p] = _batch


def choice(key, a, shape=(), replace=True, p=None, axis=0, mode=None):
    if MODE in (None, "expm") or not replace or axis not in (0,):
        return _real(key, a, shape, replace, p, axis)
    a = jnp.asarray(a)
    if a.ndim == 0:
        a = jnp.arange(int(a))
    if p is None:
        p = jnp.full((a.shape[0],), 1.0 / a.shape[0])
    if jnp.shape(p) != (a.shape[0],):
        raise ValueError(f"p must be None or a 1D vector with the same size as a.shape[0]. Got {jnp.shape(p)}")
    if jnp.issubdtype(jnp.asarray(key).dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
    return choice_p.bind(jnp.asarray(key), a, jnp.asarray(p), shape=tuple(shape))


jax.random.choice = choice


def draw(trace, key, a, p, shape):
    s = trace.session
    V = s.V
    a = a if isinstance(a, SA) else SA.const(V, a)
    p = p if isinstance(p, SA) else SA.const(V, p)
    d = p.shape[0]
    probs = p.polys()
    rows = a.reshape((d, -1)).polys()
    w = a.size // d
    n = int(np.prod(shape)) if shape else 1
    kb = tuple(int(x) for x in np.asarray(key).reshape(-1))
    ev = {"key": kb, "p": p, "a": a, "shape": tuple(shape), "draws": []}
    first = len(s.events)
    out = []
    for i in range(n):
        vs = []
        for k in range(d):
            v = V.new(f"draw{first}.{i}={k}", "bool", 0.0, 1.0, {"excl": set(), "group": None},
                      ("draw", first, i, k))
            vs.append(v)
        ids = [v.id for v in vs]
        for v in vs:
            v.info = {"excl": set(ids) - {v.id}, "group": tuple(ids)}
        if ids[0] not in s.asg:
            pick = s.rng.randrange(d) if getattr(s, "rng", None) else 0
            for k, x in enumerate(ids):
                s.asg[x] = 1.0 if k == pick else 0.0
        ev["draws"].append(ids)
        for j in range(w):
            acc = {}
            for k in range(d):
                for m, c in rows[k * w + j].items():
                    t = pmul(V, {m: c}, {((ids[k], 1),): 1 + 0j})
                    for mm, cc in t.items():
                        acc[mm] = acc.get(mm, 0) + cc
            out.append(acc)
    s.events.append(ev)
    return SA.from_polys(V, out, tuple(shape) + tuple(a.shape[1:]))


def _rule(trace, vals, params, in_avals, out_avals):
    key, a, p = vals
    return [draw(trace, to_np(key), a, p, params["shape"])]


SPECIAL["sym_choice"] = _rule


def expect(session, sa):
    """Mean over independent draws."""
    V = session.V
    prob = {}
    for ev in session.events:
        ps = ev["p"].polys()
        for ids in ev["draws"]:
            for k, i in enumerate(ids):
                prob[i] = ps[k]
    out = []
    for p in sa.polys():
        acc = {}
        for m, c in p.items():
            rest = tuple((v, q) for v, q in m if v not in prob)
            t = {rest: c}
            for v, _ in m:  # indicators: powers are dropped and the draws of a monomial are distinct
                if v in prob:
                    t = pmul(V, t, prob[v])
            for mm, cc in t.items():
                acc[mm] = acc.get(mm, 0) + cc
        out.append(acc)
    return SA.from_polys(V, out, sa.shape)


# Derivative of the matrix exponential for MODE == "expm": exact where the tangent commutes with the argument,
# as for A = -i H t differentiated with respect to t (harnesses in this mode differentiate nothing else).
_expm = jax.scipy.linalg.expm


@jax.custom_jvp
def commuting_expm(A):
    return _expm(A)


@commuting_expm.defjvp
def _expm_jvp(primals, tangents):
    E = commuting_expm(*primals)
    return E, jnp.matmul(tangents[0], E)


def expm(A, **kw):
    return commuting_expm(A) if MODE == "expm" else _expm(A, **kw)


def _install():
    import sys

    jax.scipy.linalg.expm = expm
    for nm, m in list(sys.modules.items()):
        if nm.startswith("horqrux"):
            for k, v in list(vars(m).items()):
                if v is _expm:
                    setattr(m, k, expm)


def set_mode(mode):
    global MODE
    if mode == "expm":
        _install()
    if MODE != mode:
        jax.clear_caches()
    MODE = mode
