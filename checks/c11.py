"""C11: expectation() returns Re<psi|U^dagger O U|psi> of each observable, in order."""
from .obs_common import *


def body(gates, obs, n, dm, kind, mode):
    def run(h):
        vc, vs = obs_values(h, gates, obs)
        vc.update(analog(gates))
        noisy = any(x.noise for x in gates)
        ob = [build_expr(o) for o in obs]
        circ = circuit(gates, n, kind)
        kw = {} if mode is None else {"diff_mode": mode}
        if dm:
            state, rho = dm_code(h, "rho", n)
            want = exact_dm(h, rho, gates, obs, n, vs)
        else:
            psi = h.cstate("psi", n)
            state = psi.code
            want = exact_dm(h, ref.outer(psi.spec), gates, obs, n, vs) if noisy else exact(h, psi.spec, gates, obs, n, vs)
        h.check("expectation", hq.expectation(state, circ, ob, vc, **kw), want)

    return run


def nested_body(gates, obs, n, mode):
    """Circuit and observable values given separately, with the same name on both sides."""

    def run(h):
        psi = h.cstate("psi", n)
        vc, vs, oc, os_ = {}, {}, {}, {}
        for k in names(gates):
            p = h.angle("circuit_" + k)
            vc[k], vs[k] = p.code, p.spec
        for o in obs:
            for k in expr_names(o):
                if k not in oc:
                    p = h.angle("obs_" + k)
                    oc[k], os_[k] = p.code, p.spec
        kw = {} if mode is None else {"diff_mode": mode}
        got = hq.expectation(psi.code, circuit(gates, n), [build_expr(o) for o in obs], {"circuit": vc, "observables": oc}, **kw)
        h.check("expectation", got, exact(h, psi.spec, gates, obs, n, vs, os_))

    return run


def observable_body(o, n, dm):
    """Calling an observable on a state."""

    def run(h):
        vc, vs = obs_values(h, [], [o])
        ob = build_expr(o)
        M = expr_matrix(h, o, n, vs)
        if dm:
            state, rho = dm_code(h, "rho", n)
            h.check("mean", ob(state, vc), ref.expval_dm(rho, M))
        else:
            psi = h.cstate("psi", n)
            h.check("mean", ob(psi.code, vc), ref.expval(psi.spec, M))
            h.check("same on |psi><psi|", ob(density_mat(psi.code), vc), ref.expval(psi.spec, M))

    return run


def refuse_body(mode):
    def run(h):
        k = h.integer("n_shots", -3, 0)
        want = h.cond("gt", -k.spec)
        c = QuantumCircuit(1, [P.RX("a", 0)])
        f = lambda: hq.expectation(hq.zero_state(1), c, [Observable([P.Z(0)])], {"a": 0.3}, diff_mode=mode, n_shots=k.code)
        h.raises("ValueError for negative shots", ValueError, f, want)

    return run


def mode_body():
    def run(h):
        c = QuantumCircuit(1, [P.RX("a", 0)])
        o = [Observable([P.Z(0)])]
        h.raises("unknown mode", ValueError, lambda: hq.expectation(hq.zero_state(1), c, o, {"a": 0.3}, diff_mode="nope"), True)
        h.raises("adjoint of a density matrix", TypeError,
                 lambda: hq.expectation(density_mat(hq.zero_state(1)), c, o, {"a": 0.3}, diff_mode="adjoint"), True)

    return run


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    rng = random.Random(1111)
    kinds = ("circuit", "sequence", "nested")
    modes = (None, "ad", "adjoint", "gpsr")
    i = 0
    for n, m, cnt in ((1, 3, 6), (2, 4, 20), (3, 4, 16), (4, 3, 4)) if not big else ((1, 5, 12), (2, 6, 50), (3, 6, 50), (4, 5, 16), (5, 3, 6)) + (((1, 10, 30), (2, 10, 100), (3, 8, 100), (4, 6, 50), (5, 5, 20), (6, 3, 10)) if deep else ()):
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            obs = obs_list(rng, n, rng.choice([1, 2, 3, 4, 5]))
            dm = i % 4 == 1 and n < 4
            mode = modes[i % 4] if not dm else None
            out.append(Harness(f"{mode}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q",
                               body(gs, obs, n, dm, kinds[i % 3], mode), limit=400, cost=4.0**n * m))
            i += 1
    for k in range(24 if not deep else 80):
        gs = random_circuit(rng, 2, 3, pnames=("a", "b"))
        j = rng.randrange(3)
        if len(gs[j].t) == 1:
            gs[j] = replace(gs[j], noise=((rng.choice(["BitFlip", "AmplitudeDamping", "PhaseDamping"]), 0.3),))
        else:
            gs[j] = G("H", (k % 2,), (), None, (("Depolarizing", 0.2),))
        obs = obs_list(rng, 2, 2)
        out.append(Harness(f"noisy:{label(gs)}:{';'.join(map(expr_label, obs))}", body(gs, obs, 2, k % 2 == 0, kinds[k % 3], None), limit=300, cost=100))
    for k, mode in enumerate((None, "ad", "adjoint", "gpsr", "adjoint", None, "gpsr")):
        gs = [g("RX", 0, p="x"), g("RY", 1, 0, p="y"), g("RX", 1, p="x")]
        obs = [("obs", [("scale", "x", g("Z", 0)), g("X", 1)]), ("obs", [("scale", "y", ("seq", [g("Y", 0), g("X", 1)]))])][: 1 + k % 2]
        out.append(Harness(f"separate values:{mode}:{k}", nested_body(gs, obs, 2, mode), cost=40))
    # parametric gates as observables (the value is the real part of <psi|O|psi>)
    for k, (x, nn) in enumerate(((g("RZ", 0, p="o"), 1), (g("RX", 1, 0, p="o"), 2), (g("PHASE", 0, p="o"), 1), (g("RY", 0, p="a"), 2))):
        gs = [g("RX", 0, p="a"), g("RY", nn - 1, p="b")]
        for o in ([("obs", [x])], [("obs", [("scale", "w", x), g("Z", 0)]), ("obs", [("seq", [x, g("X", nn - 1)])])]):
            for dm in (False, True):
                out.append(Harness(f"parametric observable:{';'.join(map(expr_label, o))}/{'dm' if dm else 'sv'}{nn}q",
                                   body(gs, o, nn, dm, kinds[k % 3], (None, "gpsr", "ad", "gpsr")[k]), cost=12))
        out.append(Harness(f"parametric observable, separate values:{expr_label(x)}", nested_body(gs, [("obs", [x])], nn, (None, "ad", "gpsr", None)[k]), cost=12))
    for k, o in enumerate(obs_list(rng, 2, 6) + obs_list(rng, 3, 6)):
        n = 2 if k < 6 else 3
        out.append(Harness(f"observable:{expr_label(o)}:{k}", observable_body(o, n, k % 2 == 0), cost=4.0**n))
    # order and multiplicity of the observables
    gs = [g("H", 0), g("RY", 1, 0, p="a")]
    obs = [("obs", [g("Z", 1)]), ("obs", [g("X", 0)]), ("obs", [g("Z", 1)]), ("obs", [("scale", 2.0, g("Z", 0)), g("Y", 1)])]
    for mode in modes:
        out.append(Harness(f"order:{mode}", body(gs, obs, 2, False, "circuit", mode), cost=20))
    out.append(Harness("order:dm", body(gs, obs, 2, True, "circuit", None), cost=20))
    for nm, ts in lookalike_terms():
        for mode in modes:
            out.append(Harness(f"lookalikes:{nm}:{mode}", body(gs, [("obs", [t]) for t in ts] + [("obs", ts)], 2, False, "circuit", mode), cost=40))
        out.append(Harness(f"lookalikes:{nm}:dm", body(gs, [("obs", [t]) for t in ts] + [("obs", ts)], 2, True, "circuit", None), cost=40))
    for nm, ls, nn in lookalike_circuits(True):
        ob = [("obs", [g("Z", nn - 1)]), ("obs", [g("Y", 0), ("scale", "w", g("X", nn - 1))])]
        for mode in modes[1:]:
            out.append(Harness(f"lookalikes:{nm}:{mode}", body(ls, ob, nn, False, "circuit", mode), cost=60))
    # observables on part of the register, the last qubit first
    obs = [("obs", [("seq", [g("Z", 3), g("X", 1)])]), ("obs", [g("X", 2, 0), g("Y", 3)])]
    out.append(Harness("part of the register:sv", body([g("H", 1), g("RX", 3, 1, p="a")], obs, 4, False, "circuit", None), cost=300))
    obs = [("obs", [("seq", [g("Z", 2), g("X", 1)])]), ("obs", [g("X", 2, 0), g("Y", 1)])]
    out.append(Harness("part of the register:dm", body([g("H", 1), g("RX", 2, 1, p="a")], obs, 3, True, "circuit", None), cost=300))
    for mode in ("ad", "gpsr"):
        out.append(Harness(f"shots:{mode}", refuse_body(mode)))
    out.append(Harness("modes", mode_body()))
    out.append(Harness("empty circuit", body([], [("obs", [g("Z", 0), g("X", 1)])], 2, False, "circuit", None)))
    out.append(Harness("empty circuit:dm", body([], [("obs", [g("Z", 0), g("X", 1)])], 2, True, "circuit", None)))
    for k in range(16 if not deep else 80):
        n = 2 + k % 2
        gs = analog_circuit(rng, n, 3, 1 + (k // 2) % 2, pnames=("a", "b"))
        obs, mode, dm = obs_list(rng, n, 1 + k % 3), ("ad", "adjoint", None)[k % 3], k % 4 == 0 and k % 3 != 1 and n == 2
        out.append(Harness(f"analog:{mode}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q", body(gs, obs, n, dm, kinds[k % 3], mode), limit=300, cost=4.0**n * 2))
    for k in range(12 if not deep else 60):
        n = 1 + k % 2
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        obs, mode, dm = obs_list(rng, n, 1 + k % 3), modes[k % 4], k % 4 == 0
        out.append(Harness(f"real:{mode}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q", reals(body(gs, obs, n, dm, kinds[k % 3], mode)), limit=300, cost=4.0**n * 2))
    # large registers: a few symbolic amplitudes
    for n, m, cnt in ((5, 4, 8), (6, 4, 8), (7, 3, 6), (8, 3, 4)) if not deep else ((5, 6, 30), (6, 6, 30), (7, 5, 16), (8, 4, 12), (9, 3, 8)):
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            obs = obs_list(rng, n, rng.choice([1, 2, 3]))
            mode = modes[i % 4]
            dm = i % 4 == 1 and n < 7
            out.append(Harness(f"large:{None if dm else mode}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q",
                               few(4 if not dm else 3, body(gs, obs, n, dm, kinds[i % 3], None if dm else mode)), limit=300, cost=4.0**n))
            i += 1
    return uniq(out)
