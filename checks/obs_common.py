from .common import *

Z, X_, Y_ = "Z", "X", "Y"


def obs_list(rng, n, k, params=True):
    """k observables on n qubits (each a list of terms)."""
    out = []
    for _ in range(k):
        terms = []
        for _ in range(rng.choice([1, 1, 2])):
            qs = rng.sample(range(n), rng.choice([1, min(2, n)]))
            t = [g(rng.choice("XYZ"), q) for q in qs]
            e = t[0] if len(t) == 1 else ("seq", t)
            r = rng.random()
            if params and r < 0.35:
                e = ("scale", rng.choice(["w", "v"]), e)
            elif r < 0.5:
                e = ("scale", round(rng.uniform(-2, 2), 2), e)
            terms.append(e)
        out.append(("obs", terms))
    return out


def obs_values(h, gates, obs, vc=None, vs=None):
    vc, vs = ({} if vc is None else vc), ({} if vs is None else vs)
    for n in names(gates) + [x for o in obs for x in expr_names(o)]:
        if n not in vc:
            p = h.angle(n)
            vc[n], vs[n] = p.code, p.spec
    return vc, vs


def exact(h, psi, gates, obs, n, vs, vo=None):
    """Re <psi|U^dagger O U|psi> of every observable."""
    phi = act_all(h, gates, psi, vs)
    return ref.stack([ref.expval(phi, expr_matrix(h, o, n, vo or vs)) for o in obs])


def exact_dm(h, rho, gates, obs, n, vs, vo=None):
    r = dm_evolve(h, gates, rho, n, vs)
    return ref.stack([ref.expval_dm(r, expr_matrix(h, o, n, vo or vs)) for o in obs])


def circuit(gates, n, kind="circuit"):
    ops = [build(x) for x in gates]
    if kind == "circuit":
        return QuantumCircuit(n, ops)
    if kind == "sequence":
        return OpSequence(ops)
    k = len(ops) // 2
    return OpSequence([OpSequence(ops[:k]), OpSequence(ops[k:])])


def grads(h, scalar_stack, names_):
    """Reference jacobian: name -> SA of shape (number of observables,)."""
    return {n: ref.grad(h, scalar_stack, n) for n in names_}
