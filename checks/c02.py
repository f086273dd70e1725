"""C02: the gate library: matrices, unitarity, daggers, derivatives."""
from .common import *


def dense(x):
    return x.todense() if hasattr(x, "todense") else x


def body(name, sparse, p):
    x = g(name, (0, 1) if name in TWO else 0, p=p)

    def run(h):
        vc, vs = values(h, [x])
        op = build(x, sparse)
        d = 4 if name in TWO else 2
        U = h.value(dense(op._unitary(vc)))
        M = matrix(h, x, vs)
        h.check("matrix", U, M)
        h.check("tensor", dense(op.tensor(vc)), M)
        D = h.value(dense(op.dagger(vc)))
        h.check("dagger", D, ref.dag(M))
        h.check("unitary", ref.matmul(U, D), h.const(np.eye(d)))
        h.check("unitary'", ref.matmul(D, U), h.const(np.eye(d)))
        if name in PAR:
            h.check("jacobian", dense(op.jacobian(vc)), ref.dgate(h, name, theta(h, x, vs)))

    return run


def sum_body(name):
    """One-parameter group: R(a) R(b) = R(a + b)."""

    def run(h):
        a, b = h.angle("a"), h.angle("b")
        s = a.code + b.code
        mk = lambda v: h.value(getattr(P, name)("p", 0)._unitary({"p": v}))
        h.check("group", ref.matmul(mk(a.code), mk(b.code)), mk(s))
        h.check("inverse", mk(-a.code), ref.dag(mk(a.code)))

    return run


def deriv_body(name):
    """jax derivative of the matrix is what `jacobian` returns."""

    def run(h):
        a = h.angle("a")
        op = getattr(P, name)("p", 0)
        f = lambda v: op._unitary({"p": v})
        _, t = jax.jvp(f, (a.code,), (jnp.ones(()),))
        h.check("derivative", t, ref.dgate(h, name, a.spec))
        h.check("jacobian", op.jacobian({"p": a.code}), h.value(t))

    return run


def meta_body(name, c):
    """Angles given as plain numbers."""

    def run(h):
        rng = np.random.RandomState(7)
        for v in (0.0, 1.3, -2.7, 11.0, float(rng.uniform(-9, 9))):
            op = getattr(P, name)(v, 0)
            h.check(f"numeric angle {v:.3g}", op._unitary(), ref.gate(h, name, h.const(v)))

    return run


def harnesses(tier):
    out = []
    for name in ONE + TWO + PAR:
        for sparse in (False, True):
            out.append(Harness(f"{name}{'-sparse' if sparse else ''}", body(name, sparse, "a" if name in PAR else None)))
    for name in PAR:
        out.append(Harness(f"group:{name}", sum_body(name)))
        out.append(Harness(f"derivative:{name}", deriv_body(name)))
        out.append(Harness(f"numeric:{name}", meta_body(name, ())))
    return out
