"""Meaning of the JAX primitives: numeric folding (NUMPY) and symbolic execution (RULES)."""
from __future__ import annotations

import math

import numpy as np

from . import trace as T
from .sym import EPS, SA, Unsupported, is_const, padd, pconst, pmul, poly_key
from .trace import NUMPY, RULES, is_key, real_eval

A = "abcdefghijklmnopqrstuvwxABCDEFGHIJKLMNOPQRSTUVWX"  # einsum letters (Y, Z reserved)


def sa(tr, x):
    return x if isinstance(x, SA) else SA.const(tr.session.V, x)


def emap(tr, x, f):
    V = tr.session.V
    cache = {}
    out = []
    for p in x.polys():
        k = poly_key(p, 13)
        if k not in cache:
            cache[k] = f(p)
        out.append(cache[k])
    return SA.from_polys(V, out, x.shape)


def emap2(tr, x, y, f):
    V = tr.session.V
    shape = np.broadcast_shapes(np.shape(x) if not isinstance(x, SA) else x.shape,
                                np.shape(y) if not isinstance(y, SA) else y.shape)
    xs, ys = bcast(sa(tr, x), shape).polys(), bcast(sa(tr, y), shape).polys()
    return SA.from_polys(V, [f(a, b) for a, b in zip(xs, ys)], shape)


def bcast(x, shape):
    if x.shape == tuple(shape):
        return x
    co = np.broadcast_to(
        x.coefs.reshape((len(x.monos),) + (1,) * (len(shape) - len(x.shape)) + x.shape),
        (len(x.monos),) + tuple(shape),
    )
    return SA(x.V, x.monos, co)


def conc_idx(tr, v):
    return tr.session.concretize(v, np.dtype("int64")) if isinstance(v, SA) else np.asarray(v)


# ------------------------------------------------------------------- structural primitives
def _bid(x, p):
    shape, bd = p["shape"], p["broadcast_dimensions"]
    new = [1] * len(shape)
    for i, d in enumerate(bd):
        new[d] = x.shape[i]
    return np.broadcast_to(x.reshape(new), shape)


def _slice(x, p):
    st = p["strides"] or (1,) * x.ndim
    return x[tuple(slice(a, b, s) for a, b, s in zip(p["start_indices"], p["limit_indices"], st))]


def _reshape(x, p):
    if p.get("dimensions") is not None:
        x = np.transpose(x, p["dimensions"])
    return x.reshape(p["new_sizes"])


STRUCT = {
    "reshape": _reshape,
    "transpose": lambda x, p: np.transpose(x, p["permutation"]),
    "broadcast_in_dim": _bid,
    "squeeze": lambda x, p: x.reshape(
        [d for i, d in enumerate(x.shape) if i not in {q % x.ndim for q in p["dimensions"]}]
    ),
    "expand_dims": lambda x, p: np.expand_dims(x, p["dimensions"]),
    "slice": _slice,
    "rev": lambda x, p: np.flip(x, p["dimensions"]),
    "copy": lambda x, p: x,
    "copy_p": lambda x, p: x,
    "optimization_barrier": lambda x, p: x,
    "sharding_constraint": lambda x, p: x,
    "pvary": lambda x, p: x,
    "mesh_cast": lambda x, p: x,
    "stop_gradient": lambda x, p: x,
}


def _struct_rule(f):
    def rule(tr, vals, params, ia, oa):
        x = vals[0]
        if any(isinstance(v, SA) for v in vals[1:]):
            raise Unsupported("dynamic shape")
        return x.take(f(np.arange(x.size).reshape(x.shape), params))

    return rule


for _n, _f in STRUCT.items():
    RULES[_n] = _struct_rule(_f)
    NUMPY[_n] = (lambda f: lambda vals, p, ia: f(vals[0], p) if len(vals) == 1 else NotImplemented)(_f)


def idx_of(shape, base=0):
    n = int(np.prod(shape)) if shape else 1
    return (np.arange(n) + base).reshape(shape)


class _Prim:  # evaluate a structural primitive on index arrays with the real implementation
    @staticmethod
    def ev(name, vals, params):
        from jax._src.lax import slicing

        prim = {
            "gather": slicing.gather_p,
            "scatter": slicing.scatter_p,
            "scatter-add": slicing.scatter_add_p,
            "scatter-mul": slicing.scatter_mul_p,
            "dynamic_slice": slicing.dynamic_slice_p,
            "dynamic_update_slice": slicing.dynamic_update_slice_p,
        }[name]
        return real_eval(prim, vals, params)[0]


def r_gather(tr, vals, params, ia, oa):
    x, ind = vals
    ind = conc_idx(tr, ind)
    if not isinstance(x, SA):
        x = SA.const(tr.session.V, x)
    p = dict(params)
    p["fill_value"] = -1
    return x.take(_Prim.ev("gather", [idx_of(x.shape), ind], p))


def r_dynamic_slice(tr, vals, params, ia, oa):
    x = sa(tr, vals[0])
    starts = [int(conc_idx(tr, v)) for v in vals[1:]]
    ss = params["slice_sizes"]
    sl = tuple(
        slice(min(max(s, 0), d - n), min(max(s, 0), d - n) + n)
        for s, n, d in zip(starts, ss, x.shape)
    )
    return x.take(idx_of(x.shape)[sl])


def r_dus(tr, vals, params, ia, oa):
    x, u = sa(tr, vals[0]), sa(tr, vals[1])
    starts = [int(conc_idx(tr, v)) for v in vals[2:]]
    both = cat(tr, [x.reshape((-1,)), u.reshape((-1,))], 0)
    idx = idx_of(x.shape).copy()
    sl = tuple(
        slice(min(max(s, 0), d - n), min(max(s, 0), d - n) + n)
        for s, n, d in zip(starts, u.shape, x.shape)
    )
    idx[sl] = idx_of(u.shape, x.size)
    return both.take(idx)


def cat(tr, xs, dim):
    V = tr.session.V
    xs = [sa(tr, x) for x in xs]
    index = {}
    for x in xs:
        for m in x.monos:
            index.setdefault(m, len(index))
    parts = []
    for x in xs:
        co = np.zeros((len(index),) + x.shape, dtype=complex)
        for i, m in enumerate(x.monos):
            co[index[m]] += x.coefs[i]
        parts.append(co)
    return SA(V, list(index), np.concatenate(parts, axis=dim + 1))


def r_concat(tr, vals, params, ia, oa):
    return cat(tr, vals, params["dimension"])


def r_pad(tr, vals, params, ia, oa):
    x, pv = sa(tr, vals[0]), sa(tr, vals[1])
    both = cat(tr, [x.reshape((-1,)), pv.reshape((1,))], 0)
    idx = idx_of(x.shape)
    for ax, (lo, hi, inner) in enumerate(params["padding_config"]):
        n = idx.shape[ax]
        full = n + (n - 1) * inner if n else 0
        out = np.full(idx.shape[:ax] + (full,) + idx.shape[ax + 1 :], x.size)
        sl = [slice(None)] * idx.ndim
        sl[ax] = slice(0, full, inner + 1)
        out[tuple(sl)] = idx
        if lo < 0:
            out = np.take(out, range(-lo, out.shape[ax]), axis=ax)
            lo = 0
        if hi < 0:
            out = np.take(out, range(0, out.shape[ax] + hi), axis=ax)
            hi = 0
        w = [(0, 0)] * idx.ndim
        w[ax] = (lo, hi)
        idx = np.pad(out, w, constant_values=x.size)
    return both.take(idx)


def r_scatter(tr, vals, params, ia, oa):
    x, ind, u = vals
    ind = conc_idx(tr, ind)
    x, u = sa(tr, x), sa(tr, u)
    p = dict(params)
    idx = _Prim.ev("scatter", [idx_of(x.shape), ind, idx_of(u.shape, x.size)], p)
    return cat(tr, [x.reshape((-1,)), u.reshape((-1,))], 0).take(idx)


def r_scatter_add(tr, vals, params, ia, oa):
    x, ind, u = vals
    ind = conc_idx(tr, ind)
    x, u = sa(tr, x), sa(tr, u)
    n, m = x.size, u.size
    keys = ("dimension_numbers", "indices_are_sorted", "unique_indices", "mode")
    kw = {k: params[k] for k in keys}
    with T.core.eval_context():
        lax = T.jax.lax
        if m:
            f = lambda e: lax.scatter_add(T.jax.numpy.zeros(x.shape), T.jax.numpy.asarray(ind), e, **kw)
            mat = np.asarray(T.jax.vmap(f)(T.jax.numpy.eye(m).reshape((m,) + u.shape))).reshape(m, n)
        else:
            mat = np.zeros((0, n))
    if not m:
        return x
    upd = u.reshape((m,)).dot(SA.const(tr.session.V, mat), "a,ab->b").reshape(x.shape)
    return x.add(upd)


def r_scatter_mul(tr, vals, params, ia, oa):
    x, ind, u = vals
    ind = conc_idx(tr, ind)
    x, u = sa(tr, x), sa(tr, u)
    m = u.size
    if not m:
        return x
    keys = ("dimension_numbers", "indices_are_sorted", "unique_indices", "mode")
    kw = {k: params[k] for k in keys}
    with T.core.eval_context():
        lax = T.jax.lax
        f = lambda e: lax.scatter_add(T.jax.numpy.zeros(x.shape), T.jax.numpy.asarray(ind), e, **kw)
        mat = np.asarray(T.jax.vmap(f)(T.jax.numpy.eye(m).reshape((m,) + u.shape))).reshape(m, x.size)
    out = x.reshape((-1,))
    u = u.reshape((-1,))
    one = SA.const(tr.session.V, np.ones(1))
    # every position is multiplied by the updates which hit it, one after the other
    hits = [list(np.nonzero(mat[:, j])[0]) for j in range(x.size)]
    for r in range(max(len(q) for q in hits)):
        idx = np.array([q[r] + 1 if len(q) > r else 0 for q in hits])
        out = out.mul(cat(tr, [one, u], 0).take(idx))
    return out.reshape(x.shape)


RULES.update(
    {
        "gather": r_gather,
        "dynamic_slice": r_dynamic_slice,
        "dynamic_update_slice": r_dus,
        "concatenate": r_concat,
        "pad": r_pad,
        "scatter": r_scatter,
        "scatter-add": r_scatter_add,
        "scatter_add": r_scatter_add,
        "scatter-mul": r_scatter_mul,
        "scatter_mul": r_scatter_mul,
    }
)
NUMPY["concatenate"] = lambda v, p, ia: np.concatenate(v, axis=p["dimension"])


def r_split(tr, vals, params, ia, oa):
    x = vals[0]
    idx = idx_of(x.shape)
    cuts = np.cumsum(params["sizes"])[:-1]
    return [x.take(i) for i in np.split(idx, cuts, axis=params["axis"])]


RULES["split"] = r_split


def r_sort(tr, vals, params, ia, oa):
    """Keys of integer type are pinned by the path; the other operands follow their order."""
    d, nk = params["dimension"], params["num_keys"]
    keys = []
    for v, a in zip(vals[:nk], ia[:nk]):
        if np.dtype(a.dtype).kind not in "iub":
            if isinstance(v, SA):
                raise Unsupported("sort by symbolic values that are not integers")
            keys.append(np.asarray(v))
        else:
            keys.append(conc_idx(tr, v))
    keys = [np.moveaxis(k, d, -1) for k in keys]
    order = np.lexsort(keys[::-1], axis=-1)
    out = []
    for v in vals:
        i = np.moveaxis(idx_of(v.shape), d, -1)
        i = np.moveaxis(np.take_along_axis(i, order, axis=-1), -1, d)
        out.append(v.take(i) if isinstance(v, SA) else np.asarray(v).reshape(-1)[i])
    out[:nk] = [np.moveaxis(np.take_along_axis(k, order, axis=-1), -1, d) for k in keys]
    return out


RULES["sort"] = r_sort


# ------------------------------------------------------------------------------ elementwise
def r_add(tr, v, p, ia, oa):
    return sa(tr, v[0]).add(sa(tr, v[1]))


def r_sub(tr, v, p, ia, oa):
    return sa(tr, v[0]).add(sa(tr, v[1]), -1.0)


def r_mul(tr, v, p, ia, oa):
    x, y = v
    if not isinstance(x, SA):
        x, y = y, x
    if not isinstance(y, SA):
        y = np.asarray(y)
        if not np.isfinite(y).all():
            raise Unsupported("multiplication by a non-finite constant")
        y = SA.const(tr.session.V, y)
    r = x.mul(y)
    if x is y or (x.shape == y.shape and x.monos == y.monos and np.array_equal(x.coefs, y.coefs)):
        for a, b in zip(x.polys(), r.polys()):
            tr.session.note_square(a, b)
    return r


def r_div(tr, v, p, ia, oa):
    x, y = v
    if not isinstance(y, SA):
        y = np.asarray(y)
        if np.any(y == 0):
            raise Unsupported("division of a symbolic value by zero")
        dt = ia[0].dtype
        if np.issubdtype(dt, np.integer):
            return [np.asarray(np.trunc(conc_idx(tr, x) / y)).astype(dt)]
        return sa(tr, x).mul(SA.const(tr.session.V, 1.0 / y))
    return sa(tr, x).mul(emap(tr, y, tr.session.inv))


def ipow(tr, p, n):
    s = tr.session
    if n == 0:
        return pconst(1.0)
    if n < 0:
        return s.inv(ipow(tr, p, -n))
    r = pmul(s.V, p, p) if n >= 2 else p
    if n >= 2:
        s.note_square(p, r)
    for _ in range(n - 2):
        r = pmul(s.V, r, p)
    return r


def r_integer_pow(tr, v, p, ia, oa):
    return emap(tr, v[0], lambda q: ipow(tr, q, p["y"]))


def r_pow(tr, v, p, ia, oa):
    x, y = v
    if isinstance(y, SA):
        y = y.as_const()
        if y is None:
            raise Unsupported("symbolic exponent")
    y = np.asarray(y)
    if y.size != 1 and not np.all(y == y.flat[0]):
        raise Unsupported("varying exponents")
    e = complex(y.flat[0])
    shape = np.broadcast_shapes(x.shape, y.shape)
    x = bcast(sa(tr, x), shape)
    if e.imag == 0 and e.real == round(e.real):
        return emap(tr, x, lambda q: ipow(tr, q, int(e.real)))
    if e == 0.5:
        return emap(tr, x, tr.session.sqrt)
    raise Unsupported(f"power {e}")


def guard(f):
    return lambda tr, v, p, ia, oa: f(tr, v)


def cmp(op, swap=False, neg=False):
    def f(tr, v):
        a, b = (v[1], v[0]) if swap else (v[0], v[1])

        def g(x, y):
            r = tr.session.atom(op, padd(x, y, -1.0))
            return padd(pconst(1.0), r, -1.0) if neg else r

        return emap2(tr, a, b, g)

    return guard(f)


def r_not(tr, v, p, ia, oa):
    if ia[0].dtype != np.bool_:
        raise Unsupported("bitwise not")
    return SA.const(tr.session.V, np.ones(v[0].shape)).add(v[0], -1.0)


def r_and(tr, v, p, ia, oa):
    if ia[0].dtype != np.bool_:
        raise Unsupported("bitwise and")
    return sa(tr, v[0]).mul(sa(tr, v[1]))


def r_or(tr, v, p, ia, oa):
    if ia[0].dtype != np.bool_:
        raise Unsupported("bitwise or")
    a, b = sa(tr, v[0]), sa(tr, v[1])
    return a.add(b).add(a.mul(b), -1.0)


def r_xor(tr, v, p, ia, oa):
    if ia[0].dtype != np.bool_:
        raise Unsupported("bitwise xor")
    a, b = sa(tr, v[0]), sa(tr, v[1])
    return a.add(b).add(a.mul(b), -2.0)


def r_select_n(tr, v, p, ia, oa):
    which, cases = v[0], v[1:]
    if not isinstance(which, SA):
        which = np.asarray(which).astype(int)
        shape = cases[0].shape
        which = np.broadcast_to(which, shape)
        flat = cat(tr, [sa(tr, _finite(c)).reshape((-1,)) for c in cases], 0)
        n = int(np.prod(shape)) if shape else 1
        return flat.take(which * n + idx_of(shape))
    if len(cases) != 2:
        raise Unsupported("select with a symbolic integer")
    shape = cases[0].shape
    which = bcast(which, shape) if which.shape != shape else which
    one = SA.const(tr.session.V, np.ones(shape))
    a, b = sa(tr, _finite(cases[0])), sa(tr, _finite(cases[1]))
    return which.mul(b).add(one.add(which, -1.0).mul(a))


def _finite(c):
    if isinstance(c, SA):
        return c
    c = np.asarray(c)
    return np.where(np.isfinite(c), c, 0) if c.dtype.kind in "fc" else c


def r_max(tr, v, p, ia, oa):
    def f(x, y):
        d = padd(x, y, -1.0)
        g = tr.session.atom("ge", d)
        return padd(y, pmul(tr.session.V, g, d))

    return emap2(tr, v[0], v[1], f)


def r_min(tr, v, p, ia, oa):
    def f(x, y):
        d = padd(x, y, -1.0)
        g = tr.session.atom("ge", d)
        return padd(x, pmul(tr.session.V, g, d), -1.0)

    return emap2(tr, v[0], v[1], f)


def r_clamp(tr, v, p, ia, oa):
    lo, x, hi = v
    return r_min(tr, [r_max(tr, [x, lo], p, ia, oa), hi], p, ia, oa)


def r_sign(tr, v, p, ia, oa):
    def f(x):
        if any(abs(k.imag) > EPS for k in x.values()):
            raise Unsupported("sign of a complex value")
        s = tr.session
        return padd(s.atom("gt", x), s.atom("gt", {m: -k for m, k in x.items()}), -1.0)

    return emap(tr, v[0], f)


def r_convert(tr, v, p, ia, oa):
    x = v[0]
    src, dst = ia[0].dtype, np.dtype(p["new_dtype"])
    if np.issubdtype(src, np.complexfloating) and not np.issubdtype(dst, np.complexfloating):
        return x.real()
    if dst == np.bool_ and src != np.bool_:
        return emap(tr, x, lambda q: padd(pconst(1.0), tr.session.atom("eq", q), -1.0))
    if np.issubdtype(dst, np.integer) and np.issubdtype(src, np.floating):
        raise Unsupported("float to integer conversion")
    return x


def r_complex(tr, v, p, ia, oa):
    re, im = sa(tr, v[0]), sa(tr, v[1])
    return re.add(im, 1j)


RULES.update(
    {
        "add": r_add,
        "add_any": r_add,
        "sub": r_sub,
        "mul": r_mul,
        "div": r_div,
        "neg": lambda tr, v, p, ia, oa: -v[0],
        "integer_pow": r_integer_pow,
        "pow": r_pow,
        "square": lambda tr, v, p, ia, oa: r_mul(tr, [v[0], v[0]], p, ia, oa),
        "exp": lambda tr, v, p, ia, oa: emap(tr, v[0], tr.session.exp),
        "expm1": lambda tr, v, p, ia, oa: emap(tr, v[0], lambda q: padd(tr.session.exp(q), pconst(-1.0))),
        "tan": lambda tr, v, p, ia, oa: emap(tr, v[0], tr.session.sin).mul(emap(tr, v[0], lambda q: tr.session.inv(tr.session.cos(q)))),
        "cos": lambda tr, v, p, ia, oa: emap(tr, v[0], tr.session.cos),
        "sin": lambda tr, v, p, ia, oa: emap(tr, v[0], tr.session.sin),
        "sqrt": lambda tr, v, p, ia, oa: emap(tr, v[0], tr.session.sqrt),
        "rsqrt": lambda tr, v, p, ia, oa: emap(
            tr, v[0], lambda q: tr.session.inv(tr.session.sqrt(q))
        ),
        "abs": lambda tr, v, p, ia, oa: emap(tr, v[0], tr.session.abs),
        "real": lambda tr, v, p, ia, oa: v[0].real(),
        "imag": lambda tr, v, p, ia, oa: v[0].imag(),
        "conj": lambda tr, v, p, ia, oa: v[0].conj(),
        "complex": r_complex,
        "eq": cmp("eq"),
        "ne": cmp("eq", neg=True),
        "gt": cmp("gt"),
        "ge": cmp("ge"),
        "lt": cmp("gt", swap=True),
        "le": cmp("ge", swap=True),
        "not": r_not,
        "and": r_and,
        "or": r_or,
        "xor": r_xor,
        "select_n": r_select_n,
        "max": r_max,
        "min": r_min,
        "clamp": r_clamp,
        "sign": r_sign,
        "convert_element_type": r_convert,
        "is_finite": lambda tr, v, p, ia, oa: np.ones(v[0].shape, bool),
        "real_part": lambda tr, v, p, ia, oa: v[0].real(),
    }
)


# ------------------------------------------------------------------------ reductions, products
def r_reduce_sum(tr, v, p, ia, oa):
    ax = tuple(a + 1 for a in p["axes"])
    return SA(v[0].V, v[0].monos, v[0].coefs.sum(axis=ax)).prune()


def r_cumsum(tr, v, p, ia, oa):
    c = v[0].coefs
    ax = p["axis"] + 1
    c = np.flip(np.cumsum(np.flip(c, ax), ax), ax) if p["reverse"] else np.cumsum(c, ax)
    return SA(v[0].V, v[0].monos, c)


def _reduce_fold(f):
    def rule(tr, v, p, ia, oa):
        x = v[0]
        axes = tuple(p["axes"])
        keep = [i for i in range(len(x.shape)) if i not in axes]
        perm = np.transpose(idx_of(x.shape), keep + list(axes)).reshape(
            [x.shape[i] for i in keep] + [-1]
        )
        out = x.take(perm[..., 0])
        for j in range(1, perm.shape[-1]):
            out = f(tr, [out, x.take(perm[..., j])], p, ia, oa)
        return out

    return rule


def r_dot_general(tr, v, p, ia, oa):
    (lc, rc), (lb, rb) = p["dimension_numbers"]
    x, y = sa(tr, v[0]), sa(tr, v[1])
    for c in v:
        if not isinstance(c, SA) and not np.isfinite(np.asarray(c)).all():
            raise Unsupported("product with a non-finite constant")
    nx, ny = len(x.shape), len(y.shape)
    lx = list(A[:nx])
    ly = list(A[nx : nx + ny])
    for i, j in zip(lc, rc):
        ly[j] = lx[i]
    for i, j in zip(lb, rb):
        ly[j] = lx[i]
    out = (
        [lx[i] for i in lb]
        + [lx[i] for i in range(nx) if i not in lc and i not in lb]
        + [ly[j] for j in range(ny) if j not in rc and j not in rb]
    )
    return x.dot(y, f"{''.join(lx)},{''.join(ly)}->{''.join(out)}")


RULES.update(
    {
        "reduce_sum": r_reduce_sum,
        "cumsum": r_cumsum,
        "reduce_and": _reduce_fold(r_and),
        "reduce_or": _reduce_fold(r_or),
        "reduce_max": _reduce_fold(r_max),
        "reduce_min": _reduce_fold(r_min),
        "reduce_prod": _reduce_fold(r_mul),
        "dot_general": r_dot_general,
    }
)


# ------------------------------------------------------------------------------ control flow
def r_scan(tr, vals, params, ia, oa):
    nconst, ncarry, length = params["num_consts"], params["num_carry"], params["length"]
    jaxpr = params["jaxpr"]
    consts, carry, xs = vals[:nconst], vals[nconst : nconst + ncarry], vals[nconst + ncarry :]
    ys = []
    steps = range(length)
    if params["reverse"]:
        steps = reversed(steps)
    carry = list(carry)
    for i in steps:
        sl = []
        for x in xs:
            if isinstance(x, SA):
                sl.append(x.take(idx_of(x.shape)[i]))
            else:
                sl.append(x[i])
        out = tr.interpret(jaxpr, consts + carry + sl)
        carry = list(out[:ncarry])
        ys.append(out[ncarry:])
    if params["reverse"]:
        ys = ys[::-1]
    res = list(carry)
    nys = len(jaxpr.jaxpr.outvars) - ncarry
    for k in range(nys):
        col = [y[k] for y in ys]
        if not col:
            a = jaxpr.jaxpr.outvars[ncarry + k].aval
            res.append(np.zeros((0,) + a.shape, a.dtype))
        elif any(isinstance(c, SA) for c in col):
            cs = [sa(tr, c) for c in col]
            res.append(cat(tr, [c.reshape((1,) + c.shape) for c in cs], 0))
        elif is_key(col[0]):
            raise Unsupported("keys out of a scan")
        else:
            res.append(np.stack(col))
    return res


def r_cond(tr, vals, params, ia, oa):
    idx, ops = vals[0], vals[1:]
    i = int(conc_idx(tr, idx))
    br = params["branches"]
    return tr.interpret(br[min(max(i, 0), len(br) - 1)], list(ops))


def r_while(tr, vals, params, ia, oa):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, st = vals[:cn], vals[cn : cn + bn], list(vals[cn + bn :])
    for _ in range(10000):
        (go,) = tr.interpret(params["cond_jaxpr"], list(cc) + st)
        if not bool(conc_idx(tr, go)):
            return st
        st = list(tr.interpret(params["body_jaxpr"], list(bc) + st))
    raise Unsupported("while loop bound")


RULES.update({"scan": r_scan, "cond": r_cond, "while": r_while})


# ------------------------------------------------------------------------------ numpy folding
def _np2(f):
    return lambda v, p, ia: f(v[0], v[1])


def _np1(f):
    return lambda v, p, ia: f(v[0])


def _np_dot(v, p, ia):
    (lc, rc), (lb, rb) = p["dimension_numbers"]
    x, y = np.asarray(v[0]), np.asarray(v[1])
    if x.dtype.kind not in "fciu" or y.dtype.kind not in "fciu":
        return NotImplemented
    nx, ny = x.ndim, y.ndim
    lx, ly = list(A[:nx]), list(A[nx : nx + ny])
    for i, j in list(zip(lc, rc)) + list(zip(lb, rb)):
        ly[j] = lx[i]
    out = (
        [lx[i] for i in lb]
        + [lx[i] for i in range(nx) if i not in lc and i not in lb]
        + [ly[j] for j in range(ny) if j not in rc and j not in rb]
    )
    return np.einsum(f"{''.join(lx)},{''.join(ly)}->{''.join(out)}", x, y)


def _np_select(v, p, ia):
    which = np.broadcast_to(np.asarray(v[0]).astype(int), np.shape(v[1]))
    return np.choose(which, v[1:]) if len(v) <= 32 else NotImplemented


def _float(f):
    def g(v, p, ia):
        with np.errstate(all="ignore"):
            return f(*[np.asarray(x) for x in v])

    return g


def _np_convert(v, p, ia):
    x = np.asarray(v[0])
    if x.dtype.kind == "c" and np.dtype(p["new_dtype"]).kind != "c":
        x = x.real
    return x.astype(p["new_dtype"])


def _np_div(v, p, ia):
    if np.asarray(v[0]).dtype.kind not in "fc":
        return NotImplemented
    with np.errstate(all="ignore"):
        return v[0] / v[1]


NUMPY.update(
    {
        "add": _np2(np.add),
        "add_any": _np2(np.add),
        "sub": _np2(np.subtract),
        "mul": _np2(np.multiply),
        "div": _np_div,
        "neg": _np1(np.negative),
        "max": _np2(np.maximum),
        "min": _np2(np.minimum),
        "eq": _np2(np.equal),
        "ne": _np2(np.not_equal),
        "lt": _np2(np.less),
        "le": _np2(np.less_equal),
        "gt": _np2(np.greater),
        "ge": _np2(np.greater_equal),
        "and": _np2(np.bitwise_and),
        "or": _np2(np.bitwise_or),
        "xor": _np2(np.bitwise_xor),
        "not": _np1(np.invert),
        "cos": _float(np.cos),
        "sin": _float(np.sin),
        "exp": _float(np.exp),
        "sqrt": _float(np.sqrt),
        "abs": _float(np.abs),
        "real": _float(np.real),
        "imag": _float(np.imag),
        "conj": _float(np.conj),
        "complex": _float(lambda a, b: a + 1j * b),
        "integer_pow": lambda v, p, ia: np.asarray(v[0]) ** p["y"] if p["y"] >= 0 else NotImplemented,
        "square": _float(np.square),
        "convert_element_type": _np_convert,
        "reduce_sum": lambda v, p, ia: np.sum(v[0], axis=tuple(p["axes"])),
        "reduce_max": lambda v, p, ia: np.max(v[0], axis=tuple(p["axes"])),
        "reduce_min": lambda v, p, ia: np.min(v[0], axis=tuple(p["axes"])),
        "reduce_and": lambda v, p, ia: np.all(v[0], axis=tuple(p["axes"])),
        "reduce_or": lambda v, p, ia: np.any(v[0], axis=tuple(p["axes"])),
        "dot_general": _np_dot,
        "select_n": _np_select,
        "iota": lambda v, p, ia: np.broadcast_to(
            np.arange(p["shape"][p["dimension"]], dtype=p["dtype"]).reshape(
                [-1 if i == p["dimension"] else 1 for i in range(len(p["shape"]))]
            ),
            p["shape"],
        )
        if not v
        else NotImplemented,
    }
)
