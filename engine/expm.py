"""Matrix exponential: `jax.scipy.linalg.expm` on a symbolic matrix.

* `u * C` with one symbolic real polynomial u and a constant matrix C that is diagonalisable with
  imaginary eigenvalues, or a diagonal matrix with imaginary entries: expanded exactly into
  sines and cosines.
* anything else: uninterpreted; each entry is a fresh variable determined by the argument, so two
  calls agree exactly when their arguments do; of modulus at most one if the argument is anti-Hermitian.
"""
from __future__ import annotations

import numpy as np

from .sym import SA, Unsupported, is_const, padd, pmul, poly_key
from .trace import OPAQUE


def expm(session, A):
    """A: (d, d) SA."""
    V = session.V
    d = A.shape[0]
    c = A.as_const()
    if c is not None:
        return SA.const(V, _num(c))
    ps = A.polys()
    if all(not ps[i * d + j] for i in range(d) for j in range(d) if i != j):
        if all(abs(k.real) < 1e-12 for i in range(d) for k in ps[i * d + i].values()):
            out = [{}] * (d * d)
            for i in range(d):
                out[i * d + i] = session.exp(ps[i * d + i])
            return SA.from_polys(V, out, (d, d))
    r = _single(session, ps, d)
    if r is not None:
        return r
    key = tuple(poly_key(p) for p in ps)
    out = []
    memo = {}

    def entry(k, part):
        def f(asg, cache):
            tag = tuple(round(V.eval_poly(p, asg, cache).real, 12) + 1j * round(V.eval_poly(p, asg, cache).imag, 12) for p in ps)
            if tag not in memo:
                memo.clear()
                memo[tag] = _num(np.array(tag).reshape(d, d)).reshape(-1)
            z = memo[tag][k]
            return float(z.real if part == 0 else z.imag)

        return f

    # the exponential of an anti-Hermitian matrix is unitary
    unitary = all(not padd(ps[i * d + j], {m: complex(c).conjugate() for m, c in ps[j * d + i].items()}) for i in range(d) for j in range(d)) and all(
        V.vars[v].kind in ("real", "int") for p in ps for m in p for v, _ in m)
    top = 1 + 1e-9 if unitary else 1e6
    for k in range(d * d):
        vs = [V.new(f"exp#{len(V.vars)}[{k}].{'re' if part == 0 else 'im'}", "opaque", -top, top, entry(k, part),
                    ("expm", key, k, part)) for part in (0, 1)]
        out.append({((vs[0].id, 1),): 1 + 0j, ((vs[1].id, 1),): 1j})
    return SA.from_polys(V, out, (d, d))


def _single(session, ps, d):
    """exp(u C) for one polynomial u and a constant normal matrix C with imaginary spectrum."""
    V = session.V
    i0 = next(i for i, p in enumerate(ps) if p)
    lead = max(ps[i0])
    u = {m: k / ps[i0][lead] for m, k in ps[i0].items()}
    if any(abs(complex(k).imag) > 1e-12 for k in u.values()) or any(V.vars[v].kind not in ("real", "int") for m in u for v, _ in m):
        return None
    C = np.zeros(d * d, complex)
    for i, p in enumerate(ps):
        if p:
            C[i] = p.get(lead, 0)
            if padd(p, {m: k * C[i] for m, k in u.items()}, -1.0):
                return None
    C = C.reshape(d, d)
    B = 1j * C
    if not np.allclose(B, B.conj().T, atol=1e-12):
        return None
    w, U = np.linalg.eigh(B)  # C = U diag(-i w) U^dagger
    w = np.where(np.abs(2 * w - np.round(2 * w)) < 1e-9, np.round(2 * w) / 2, w)
    out = SA.const(V, np.zeros((d, d), complex))
    for x in sorted(set(np.round(w, 9))):
        cols = U[:, np.abs(w - x) < 1e-8]
        P = SA.const(V, cols @ cols.conj().T)
        e = SA.from_polys(V, [session.eipoly({m: complex(-x * k.real) for m, k in u.items()})], ())
        out = out.add(e.mul(P))
    return out


def _num(A):
    from scipy.linalg import expm as ex

    return ex(np.asarray(A, dtype=complex))


def _opaque(trace, vals, params, in_avals, out_avals):
    syms = [v for v in vals if isinstance(v, SA)]
    if len(vals) != 1 or len(out_avals) != 1 or len(syms) != 1:
        raise Unsupported("a transformed matrix exponential")
    A = syms[0]
    if len(A.shape) == 2:
        return [expm(trace.session, A)]
    d = A.shape[-1]
    ps = A.polys()
    V = trace.session.V
    out = []
    for k in range(0, len(ps), d * d):
        out += expm(trace.session, SA.from_polys(V, ps[k : k + d * d], (d, d))).polys()
    return [SA.from_polys(trace.session.V, out, A.shape)]


OPAQUE["expm"] = _opaque


def spec(h, A):
    """Exponential of a specified matrix."""
    if h.mode == "sym":
        return expm(h.session, A)
    c = A.as_const()
    return SA.const(h.V, _num(c if c is not None else A.eval(h.asg)))
