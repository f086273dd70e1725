"""C15: adjoint mode returns the same expectations and derivatives as the exact ones."""
from .c14 import *

single = internal("horqrux.differentiation.adjoint:adjoint_expectation")


def single_body(gates, o, n):
    """One observable, called directly."""

    def run(h):
        vc, vs = obs_values(h, gates, [o])
        psi = h.cstate("psi", n)
        ob, circ = build_expr(o), circuit(gates, n)
        f = lambda v: single(psi.code, circ, ob, v)
        want = exact(h, psi.spec, gates, [o], n, vs)
        h.check("value", f(vc), want.take(0))
        J = jax.grad(f)(vc)
        for k in vc:
            h.check(f"d/d{k}", J[k], ref.grad(h, want, k).take(0))

    return run


def agree_body(gates, obs, n):
    """Both modes on the same input."""

    def run(h):
        vc, vs = obs_values(h, gates, obs)
        psi = h.cstate("psi", n)
        ob, circ = [build_expr(o) for o in obs], circuit(gates, n)
        f = lambda mode: (lambda v: hq.expectation(psi.code, circ, ob, v, diff_mode=mode))
        h.check("values", f("adjoint")(vc), h.value(f("ad")(vc)))
        A, B = jax.jacrev(f("adjoint"))(vc), jax.jacrev(f("ad"))(vc)
        for k in vc:
            h.check(f"d/d{k}", A[k], h.value(B[k]))

    return run


def refuse_body(n):
    def run(h):
        rho, _ = dm_code(h, "rho", n)
        c, o = circuit([g("RX", 0, p="a")], n), [Observable([P.Z(0)])]
        p = h.angle("a")
        for st in (rho, density_mat(hq.zero_state(n))):
            h.raises("density matrix refused", TypeError, lambda: hq.expectation(st, c, o, {"a": p.code}, diff_mode="adjoint"), True)

    return run


def harnesses(tier):
    rng = random.Random(1515)
    out = make("adjoint", tier, 1515)
    for k in range(6 if tier == "quick" else 20):
        n = 2 + k % 2
        gs = random_circuit(rng, n, 4, pnames=("a", "b"))
        gs[k % 4] = g("RX", k % n, p="a")
        (o,) = obs_list(rng, n, 1)
        if single is not None:
            out.append(Harness(f"single:{label(gs)}:{expr_label(o)}", single_body(gs, o, n), symspec=True, limit=200, cost=60))
        out.append(Harness(f"agree:{label(gs)}", agree_body(gs, obs_list(rng, n, 2), n), limit=200, cost=60))
    for n in (1, 2):
        out.append(Harness(f"density matrix:{n}", refuse_body(n)))
    return uniq(out)
