"""Reference semantics, written from the definitions (qubit 0 is the most significant index).

Everything works on symbolic arrays (SA); numeric inputs are constant SAs.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from .sym import SA, padd, pconst, pmul

R2 = 1 / math.sqrt(2)
FIXED = {
    "I": [[1, 0], [0, 1]],
    "X": [[0, 1], [1, 0]],
    "Y": [[0, -1j], [1j, 0]],
    "Z": [[1, 0], [0, -1]],
    "H": [[R2, R2], [R2, -R2]],
    "S": [[1, 0], [0, 1j]],
    "T": [[1, 0], [0, R2 + 1j * R2]],
    "SWAP": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
    "SQRTSWAP": [[1, 0, 0, 0], [0, (1 + 1j) / 2, (1 - 1j) / 2, 0],
                 [0, (1 - 1j) / 2, (1 + 1j) / 2, 0], [0, 0, 0, 1]],
    "ISWAP": [[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]],
    "ISQRTSWAP": [[1, 0, 0, 0], [0, R2, 1j * R2, 0], [0, 1j * R2, R2, 0], [0, 0, 0, 1]],
}


def mat(h, rows):
    """SA from a nested list of scalars / scalar SAs / polys."""
    rows = [list(r) for r in rows]
    polys = []
    for r in rows:
        for x in r:
            if isinstance(x, SA):
                (p,) = x.polys()
            elif isinstance(x, dict):
                p = x
            else:
                p = pconst(complex(x))
            polys.append(p)
    return SA.from_polys(h.V, polys, (len(rows), len(rows[0])))


def poly(x):
    (p,) = x.polys()
    return p


def gate(h, name, theta=None):
    """Textbook matrix of a gate; theta a scalar SA."""
    if name in FIXED:
        return SA.const(h.V, np.array(FIXED[name], dtype=complex))
    s = h.session
    t = poly(theta)
    half = {m: k / 2 for m, k in t.items()}
    if name == "PHASE":
        return mat(h, [[1, 0], [0, s.eipoly(t)]])
    c, n = s.cos(half), s.sin(half)
    neg = lambda p: {m: -k for m, k in p.items()}
    mi = lambda p: {m: -1j * k for m, k in p.items()}
    if name == "RX":
        return mat(h, [[c, mi(n)], [mi(n), c]])
    if name == "RY":
        return mat(h, [[c, neg(n)], [n, c]])
    if name == "RZ":
        return mat(h, [[s.eipoly(neg(half)), 0], [0, s.eipoly(half)]])
    raise KeyError(name)


def dgate(h, name, theta):
    """Derivative of a parametric gate with respect to its angle."""
    s = h.session
    t = poly(theta)
    half = {m: k / 2 for m, k in t.items()}
    sc = lambda p, f: {m: k * f for m, k in p.items()}
    if name == "PHASE":
        return mat(h, [[0, 0], [0, sc(s.eipoly(t), 1j)]])
    c, n = s.cos(half), s.sin(half)
    if name == "RX":
        return mat(h, [[sc(n, -0.5), sc(c, -0.5j)], [sc(c, -0.5j), sc(n, -0.5)]])
    if name == "RY":
        return mat(h, [[sc(n, -0.5), sc(c, -0.5)], [sc(c, 0.5), sc(n, -0.5)]])
    if name == "RZ":
        return mat(h, [[sc(s.eipoly(sc(half, -1)), -0.5j), 0], [0, sc(s.eipoly(half), 0.5j)]])
    raise KeyError(name)


def dag(U):
    return SA(U.V, U.monos, np.swapaxes(U.coefs, -1, -2).conj())


def apply(state, U, targets, controls=()):
    """new[b] = sum_c U[b_targets, c] state[b with targets <- c] if all controls are 1, else state[b].

    Qubits are the leading axes; U is (2^k, 2^k) with targets[0] the most significant bit."""
    n = max(list(targets) + list(controls)) + 1
    k = len(targets)
    shape = state.shape
    nq = 0
    while nq < len(shape) and shape[nq] == 2:
        nq += 1
    assert n <= nq
    idx = np.arange(state.size).reshape(shape)
    grid = np.indices(shape)
    row = np.zeros(shape, dtype=int)
    for t in targets:
        row = row * 2 + grid[t]
    on = np.ones(shape, dtype=bool)
    for c in controls:
        on &= grid[c] == 1
    d = 2**k
    acc = None
    for col in range(d):
        bits = [(col >> (k - 1 - i)) & 1 for i in range(k)]
        g = [grid[a] for a in range(len(shape))]
        for t, b in zip(targets, bits):
            g[t] = np.full(shape, b)
        src = idx[tuple(g)]
        coef = U.take(row * d + col)
        term = coef.mul(state.take(src))
        acc = term if acc is None else acc.add(term)
    mask = SA.const(state.V, on.astype(float))
    off = SA.const(state.V, (~on).astype(float))
    if on.all():
        return acc
    return mask.mul(acc).add(off.mul(state))


def opmatrix(h, n, U, targets, controls=()):
    """Full matrix on n qubits of (controlled) U."""
    d = 2**n
    eye = SA.const(h.V, np.eye(d).reshape((2,) * n + (d,)))
    return apply(eye, U, targets, controls).reshape((d, d))


def matmul(a, b):
    return a.dot(b, "ab,bc->ac")


def conjugate_by(O, rho):
    """O rho O^dagger for matrices."""
    return matmul(matmul(O, rho), dag(O))


def outer(psi):
    """|psi><psi| as a matrix."""
    v = psi.reshape((-1,))
    return v.dot(v.conj(), "a,b->ab")


def inner(a, b):
    return a.reshape((-1,)).conj().dot(b.reshape((-1,)), "a,a->")


def expval(psi, O):
    """Re <psi|O|psi>."""
    v = psi.reshape((-1,))
    return v.conj().dot(O.dot(v, "ab,b->a"), "a,a->").real()


def expval_dm(rho, O):
    return O.dot(rho, "ab,ba->").real()


def stack(xs):
    """Arrays of one shape, stacked along a new first axis."""
    V = xs[0].V
    return SA.from_polys(V, [p for x in xs for p in x.polys()], (len(xs),) + tuple(xs[0].shape))


# -------------------------------------------------------------------------------- channels
def channel(h, kind, p, rho1):
    """Documented action of a noise channel on a one-qubit density matrix given as 4 polys.

    rho1: function (i, j) -> SA block; returns function (i, j) -> SA block.
    p: tuple of scalar SAs."""
    one = SA.const(h.V, 1.0)
    s = h.session

    def sq(x):
        return SA.from_polys(h.V, [s.sqrt(poly(x))], ())

    r = rho1
    X = lambda i, j: r(1 - i, 1 - j)
    Z = lambda i, j: r(i, j) if i == j else -r(i, j)
    Y = lambda i, j: r(1 - i, 1 - j) if i == j else -r(1 - i, 1 - j)
    if kind in ("BitFlip", "PhaseFlip", "Depolarizing", "PauliChannel"):
        if kind == "BitFlip":
            px, py, pz = p[0], None, None
        elif kind == "PhaseFlip":
            px, py, pz = None, None, p[0]
        elif kind == "Depolarizing":
            t = p[0].mul(SA.const(h.V, 1 / 3))
            px = py = pz = t
        else:
            px, py, pz = p

        def out(i, j):
            tot = one
            acc = None
            for q, f in ((px, X), (py, Y), (pz, Z)):
                if q is None:
                    continue
                tot = tot.add(q, -1.0)
                t = q.mul(f(i, j))
                acc = t if acc is None else acc.add(t)
            return acc.add(tot.mul(r(i, j)))

        return out
    if kind in ("AmplitudeDamping", "PhaseDamping"):
        g = p[0]
        om = one.add(g, -1.0)

        def out(i, j):
            if i != j:
                return sq(om).mul(r(i, j))
            if kind == "PhaseDamping":
                return r(i, j)
            return r(0, 0).add(g.mul(r(1, 1))) if i == 0 else om.mul(r(1, 1))

        return out
    if kind == "GeneralizedAmplitudeDamping":
        q, g = p
        oq, og = one.add(q, -1.0), one.add(g, -1.0)

        def out(i, j):
            if i != j:
                return sq(og).mul(r(i, j))
            if i == 0:
                # q (r00 + g r11) + (1-q) (1-g) r00
                return q.mul(r(0, 0).add(g.mul(r(1, 1)))).add(oq.mul(og).mul(r(0, 0)))
            return q.mul(og).mul(r(1, 1)).add(oq.mul(r(1, 1).add(g.mul(r(0, 0)))))

        return out
    raise KeyError(kind)


def apply_channel(h, kind, p, rho, n, target):
    """rho: (2^n, 2^n) SA. Acts on one qubit."""
    d = 2**n
    t = rho.reshape((2,) * (2 * n))
    idx = np.arange(d * d).reshape((2,) * (2 * n))

    def blk(i, j):
        sl = [slice(None)] * (2 * n)
        sl[target] = i
        sl[n + target] = j
        return t.take(idx[tuple(sl)])

    f = channel(h, kind, p, blk)
    from .rules import cat

    class _T:
        session = h.session

    rows = []
    parts = {}
    flat_pos = []
    blocks = []
    for i in (0, 1):
        for j in (0, 1):
            sl = [slice(None)] * (2 * n)
            sl[target] = i
            sl[n + target] = j
            flat_pos.append(idx[tuple(sl)].reshape(-1))
            blocks.append(f(i, j).reshape((-1,)))
    allb = cat(_T, blocks, 0)
    inv = np.empty(d * d, dtype=int)
    inv[np.concatenate(flat_pos)] = np.arange(d * d)
    return allb.take(inv).reshape((d, d))


# ------------------------------------------------------------------------------ derivatives
def dpoly(V, p, var_id):
    """Partial derivative of a polynomial with respect to a base real variable."""
    out = {}
    for m, k in p.items():
        for i, (v, q) in enumerate(m):
            x = V.vars[v]
            rest = list(m[:i]) + ([(v, q - 1)] if q > 1 else []) + list(m[i + 1 :])
            rest = tuple(sorted(rest))
            if v == var_id:
                d = pconst(1.0)
            elif x.kind in ("cos", "sin"):
                mm, base = next(
                    key[1] for key, pr in V.by_key.items()
                    if isinstance(key, tuple) and key[0] == "trig" and v in (pr[0].id, pr[1].id)
                )
                da = dpoly(V, {mm: base + 0j}, var_id)
                if not da:
                    continue
                other = x.info[1]
                d = {mq: kk * (-0.5 if x.kind == "cos" else 0.5) for mq, kk in da.items()}
                d = pmul(V, d, {((other, 1),): 1 + 0j})
            elif x.kind == "sqrt":
                raise NotImplementedError("derivative of a square root")
            else:
                continue
            if not d:
                continue
            t = pmul(V, {rest: k * q}, d)
            out = padd(out, t)
    return out


def grad(h, scalar, name):
    """Derivative of a scalar SA with respect to the input called `name`."""
    v = h.names[name]
    return SA.from_polys(h.V, [dpoly(h.V, p, v) for p in scalar.polys()], scalar.shape)
