"""C03: a gate maps a density matrix to U rho U^dagger, and agrees with the pure-state evolution."""
from .common import *


def gate_body(gates, n, how):
    def body(h):
        rho, spec = dm_code(h, "rho", n)
        vc, vs = values(h, gates)
        ops = [build(x) for x in gates]
        if how == "call":
            out = ops[0](rho, vc)
        elif how == "apply":
            out = apply_gates(rho, ops, vc)
        else:
            out = hq.run(QuantumCircuit(n, ops), rho, vc)
        h.true("a density matrix is returned", isinstance(out, DensityMatrix))
        U = full_all(h, gates, n, vs)
        h.check("rho", as_matrix(h, out, n), ref.conjugate_by(U, spec))

    return body


def op_body(n, t, c):
    def body(h):
        rho, spec = dm_code(h, "rho", n)
        U = h.carray("U", (2 ** len(t),) * 2)
        out = apply_operator(rho, U.code, t, c or (None,))
        F = ref.opmatrix(h, n, U.spec, t, c)
        h.check("rho", as_matrix(h, out, n), ref.conjugate_by(F, spec))

    return body


def pure_body(gates, n):
    def body(h):
        psi = h.cstate("psi", n)
        vc, vs = values(h, gates)
        seq = OpSequence([build(x) for x in gates])
        out = seq(density_mat(psi.code), vc)
        h.check("rho", as_matrix(h, out, n), ref.outer(act_all(h, gates, psi.spec, vs)))
        ket = seq(psi.code, vc)
        h.check("agreement", as_matrix(h, density_mat(ket), n), as_matrix(h, out, n))

    return body


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    hows = ("call", "apply", "run")
    i = 0
    for name in ONE + PAR:
        p = "a" if name in PAR else None
        for n in (1, 2, 3):
            for t in range(n):
                rest = [q for q in range(n) if q != t]
                for k in range(len(rest) + 1):
                    cs = list(itertools.permutations(rest, k))
                    if not big:
                        cs = cs[i % len(cs):][:1] if name in ("Y", "H", "RY", "PHASE") or n < 3 else []
                    for c in cs:
                        out.append(Harness(f"{G(name, (t,), c, p).label()}/{n}q", gate_body([G(name, (t,), c, p)], n, hows[i % 3]), cost=4.0**n))
                        i += 1
    for name in TWO:
        for n in (2, 3):
            for t in placements(n, 2):
                rest = [q for q in range(n) if q not in t]
                for k in range(len(rest) + 1):
                    if not big and (i % 2) and n == 3:
                        i += 1
                        continue
                    x = G(name, t, tuple(rest[:k]))
                    out.append(Harness(f"{x.label()}/{n}q", gate_body([x], n, hows[i % 3]), cost=4.0**n))
                    i += 1
    shapes = [(2, (0,), ()), (2, (1,), ()), (2, (0, 1), ()), (2, (1, 0), ()), (2, (1,), (0,)), (2, (0,), (1,)),
              (3, (0,), ()), (3, (1,), ()), (3, (2,), ()), (3, (2, 0), ()), (3, (1, 2), ()), (3, (0,), (2,)), (3, (2,), (1, 0)), (3, (1,), (2, 0)),
              (3, (1, 0), ())]
    if big:
        shapes += [(3, t, ()) for t in placements(3, 2)] + [(3, (t,), (c,)) for t, c in placements(3, 2)]
        shapes = list(dict.fromkeys(shapes))
        shapes += [(3, (0, 1), (2,)), (3, (2, 0), (1,)), (4, (1,), ()), (4, (3,), (0,)), (4, (1,), (3, 0)), (4, (2, 0), ())]
    for n, t, c in shapes:
        out.append(Harness(f"operator:t{t}c{c}/{n}q".replace(" ", ""), op_body(n, t, c), limit=400, cost=8.0**n))
    rng = random.Random(303)
    for n, m, k in ((2, 4, 6), (3, 4, 6), (4, 3, 3)) if not big else ((2, 6, 20), (3, 5, 20), (4, 4, 10), (5, 3, 3)) + (((2, 8, 40), (3, 7, 60), (4, 6, 30), (5, 4, 10)) if deep else ()):
        for _ in range(k):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            out.append(Harness(f"pure:{label(gs)}/{n}q", pure_body(gs, n), limit=300, cost=4.0**n * 2))
    for _ in range(20 if not deep else 120):
        gs = random_circuit(rng, 3, 3 if _ < 20 else 5, pnames=("a", "b"))
        out.append(Harness(f"mixed:{label(gs)}/3q", gate_body(gs, 3, hows[_ % 2 + 1]), limit=300, cost=300))
    for k in range(18 if not deep else 90):
        n = 2 + k % 2
        gs = analog_circuit(rng, n, 3, 1 + k % 2, pnames=("a", "b"))
        out.append(Harness(f"analog:{label(gs)}/{n}q", gate_body(gs, n, hows[1 + k % 2]), limit=300, cost=4.0**n * 4))
        out.append(Harness(f"analog pure:{label(gs)}/{n}q", pure_body(gs, n), limit=300, cost=4.0**n * 2))
    for k in range(12 if not deep else 60):
        n = 1 + k % 3
        gs = random_circuit(rng, n, 1 + k % 3, pnames=("a", "b"))
        how = hows[1 + k % 2] if len(gs) > 1 else hows[k % 3]
        out.append(Harness(f"real:{how}:{label(gs)}/{n}q", reals(gate_body(gs, n, how)), limit=300, cost=4.0**n * 4))
        out.append(Harness(f"real pure:{label(gs)}/{n}q", reals(pure_body(gs, n)), limit=300, cost=4.0**n * 2))
    # large registers: a few symbolic entries
    for n in (4, 5, 6):
        for i in range(24 if deep else 8):
            gs = random_circuit(rng, n, 1 + i % 3, pnames=("a", "b"))
            k = 4 if n < 6 else 3
            out.append(Harness(f"large:{label(gs)}/{n}q", few(k, gate_body(gs, n, hows[1 + i % 2] if len(gs) > 1 else hows[i % 3])), limit=300, cost=4.0**n))
            out.append(Harness(f"large pure:{label(gs)}/{n}q", few(k, pure_body(gs, n)), limit=300, cost=4.0**n))
    return uniq(out)
