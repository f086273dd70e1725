"""C16: parameter-shift mode returns the exact expectations and derivatives."""
from .c14 import *
from horqrux.differentiation.gpsr import analytical_gpsr_bwd, jitted_analytical_exp


def fixed_obs(rng, n, k):
    return obs_list(rng, n, k, params=False)


def gate_for(rng, n, pnames):
    """Gates the single-gap rule covers: any fixed gate, uncontrolled rotations, any phase gate."""
    r = rng.random()
    if r < 0.45:
        return G(rng.choice(PAR), (rng.randrange(n),), (), rng.choice(pnames))
    if r < 0.6 and n > 1:
        qs = rng.sample(range(n), rng.choice([2, min(3, n)]))
        return G("PHASE", (qs[0],), tuple(qs[1:]), rng.choice(pnames))
    return random_gate(rng, n, ONE + TWO)


def circ_for(rng, n, m, pnames=("a", "b")):
    gs = [gate_for(rng, n, pnames) for _ in range(m)]
    if not names(gs):
        gs[0] = g("RY", 0, p=pnames[0])
    return gs


def bwd_body(gates, obs, n, dm, extra=(), order=None, one=False):
    """The gradient function of the parameter-shift rule: one entry per value, summed over observables."""

    def run(h):
        vc, vs = obs_values(h, gates, obs)
        for k in extra:
            p = h.angle(k)
            vc[k], vs[k] = p.code, p.spec
        if order:
            vc = {k: vc[k] for k in order}
        if one:
            vc = ones(h, vc)
        psi = rho = None
        if dm:
            state, rho = dm_code(h, "rho", n)
        else:
            p = h.cstate("psi", n)
            state, psi = p.code, p.spec
        ops, ob = [build(x) for x in gates], [build_expr(o) for o in obs]
        want = wanted(h, gates, obs, n, vs, dm, psi, rho)
        h.check("values", jitted_analytical_exp(state, ops, ob, vc), want)
        got = h.value(analytical_gpsr_bwd(state, ops, ob, vc))
        h.true("one entry per value", got.shape == (len(vc),), str(got.shape))
        for i, k in enumerate(vc):
            w = ref.grad(h, want, k)
            tot = w.take(0)
            for j in range(1, len(obs)):
                tot = tot.add(w.take(j))
            h.check(f"d/d{k}", got.take(i), tot)

    return run


def safe_controlled(rng, n):
    """Controlled rotations whose controls stay diagonal up to the measurement."""
    c = rng.sample(range(n), 1)
    rest = [q for q in range(n) if q not in c]
    pre = [random_gate(rng, n, ONE + TWO) for _ in range(2)]
    post = [G(rng.choice(("RX", "RY", "RZ")), (rng.choice(rest),), tuple(c), "a"),
            G("RY", (rng.choice(rest),), (), "b"), G(rng.choice(("Z", "S", "T")), (c[0],), (), None)]
    obs = [("obs", [g("X", rest[0])]), ("obs", [("seq", [g("Y", rest[-1]), g("Z", c[0])]), g("Z", rest[0])])]
    return pre + post, obs


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(1616)
    out = []
    add = lambda *a, **k: out.append(Harness(*a, symspec=True, **k))
    kinds = ("grad", "jacrev", "jacfwd")
    for i, k in enumerate(PAR):
        for x, n in ((g(k, 0, p="a"), 1), (g(k, 1, p="a"), 2)) + (((g(k, 1, 0, p="a"), 2), (g(k, 0, (2, 1), p="a"), 3)) if k == "PHASE" else ()):
            obs = [("obs", [("seq", [g("X", q) for q in range(n)])]), ("obs", [g("Y", 0), ("scale", 0.5, g("Z", n - 1))])]
            for dm in (False, True)[: 2 if n < 3 else 1]:
                add(f"gate:{x.label()}:{'dm' if dm else 'sv'}", body([x], obs, n, dm, kinds[i % 3], "gpsr"), cost=5.0**n)
                add(f"bwd:{x.label()}:{'dm' if dm else 'sv'}", bwd_body([x], obs, n, dm), cost=5.0**n)
    i = 0
    shapes = ((1, 4, 5), (2, 4, 14), (3, 4, 6)) if not big else ((1, 6, 10), (2, 6, 36), (3, 5, 24), (4, 4, 6))
    for n, m, cnt in shapes:
        for _ in range(cnt):
            gs = circ_for(rng, n, m)
            obs = fixed_obs(rng, n, rng.choice([1, 2, 3]))
            dm = i % 4 == 3 and n < 3
            add(f"{kinds[i % 3]}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q",
                body(gs, obs, n, dm, kinds[i % 3], "gpsr", circ_kind=("circuit", "sequence", "nested")[i % 3]), limit=400, cost=4.0**n * m)
            add(f"bwd:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q",
                bwd_body(gs, obs, n, dm), limit=400, cost=4.0**n * m)
            i += 1
    obs = [("obs", [g("Z", 0), g("X", 1)]), ("obs", [("seq", [g("Y", 0), g("Z", 1)])])]
    rep = [g("RX", 0, p="a"), g("RY", 1, p="a"), g("H", 1), g("RZ", 0, p="a"), g("PHASE", 1, 0, p="b"), g("RX", 1, p="b"), g("X", 1, 0), g("PHASE", 0, p="c")]
    mixed = [g("RX", 0, p="b"), g("RY", 1, p="a"), g("PHASE", 0, p="a"), g("X", 1, 0), g("RZ", 1, p="c"), g("RX", 1, p="b"), g("RY", 0, p=0.6)]
    for nm, gs in (("repeated", rep), ("mixed", mixed)):
        for k in kinds:
            add(f"{nm}:{k}", body(gs, obs, 2, False, k, "gpsr"), limit=300, cost=100)
        add(f"{nm}:dm", body(gs, obs, 2, True, "grad", "gpsr"), limit=400, cost=200)
        for o in (("a", "b", "c"), ("c", "b", "a"), ("b", "c", "a")):
            add(f"{nm}:bwd:{''.join(o)}", bwd_body(gs, obs, 2, False, order=o), limit=300, cost=100)
        add(f"{nm}:bwd:dm", bwd_body(gs, obs, 2, True), limit=400, cost=200)
        add(f"{nm}:unused", body(gs, obs, 2, False, "grad", "gpsr", extra=("z",)), limit=300, cost=110)
        add(f"{nm}:bwd:unused", bwd_body(gs, obs, 2, False, extra=("z",), order=("z", "a", "c", "b")), limit=300, cost=110)
    for nm, ls, nn in lookalike_circuits(True):
        ob = [("obs", [g("Z", nn - 1)]), ("obs", [g("Y", 0), ("scale", 0.5, g("X", nn - 1))])]
        if not names(ls):
            continue
        add(f"lookalikes:{nm}", body(ls, ob, nn, False, "grad", "gpsr"), cost=120, limit=300)
        add(f"lookalikes:bwd:{nm}", bwd_body(ls, ob, nn, False), cost=120, limit=300)
    gs = [g("H", 0), g("PHASE", 1, 0, p="a"), g("RX", 0, p="b"), g("RX", 1, p="a", shift=0.3)]
    for k, (nm, ts) in enumerate(lookalike_terms(False)):
        add(f"lookalikes:{nm}", body(gs, [("obs", [t]) for t in ts] + [("obs", ts)], 2, False, kinds[k % 3], "gpsr"), cost=80, limit=300)
        add(f"lookalikes:bwd:{nm}", bwd_body(gs, [("obs", [t]) for t in ts] + [("obs", ts)], 2, k == 1), cost=80, limit=300)
    one = [g("RX", 0, p="a"), g("RY", 1, p=0.3), g("X", 1, 0), g("PHASE", 1, p="b")]
    for nm, gs in ONE_ENTRY.items():
        add(f"one-entry:{nm}", body(gs, obs[:1], 2, False, "grad", "gpsr", one=True), cost=60)
        add(f"one-entry:bwd:{nm}", bwd_body(gs, obs, 2, False, one=True), cost=60)
    add("unused", body(one, obs, 2, False, "grad", "gpsr", extra=("z", "y")), cost=40)
    add("bwd:unused", bwd_body(one, obs, 2, False, extra=("z", "y"), order=("y", "b", "z", "a")), cost=40)
    for k in range(4 if not big else 12):
        gs, ob = safe_controlled(rng, 2 + k % 2)
        add(f"controlled:{label(gs)}", body(gs, ob, 2 + k % 2, False, "grad", "gpsr"), cost=40, limit=300)
        add(f"controlled:bwd:{label(gs)}", bwd_body(gs, ob, 2 + k % 2, False), cost=40, limit=300)
    for kd, pr in (("BitFlip", 0.2), ("Depolarizing", 0.25), ("AmplitudeDamping", 0.3)):
        gs = [g("RX", 0, p="a", noise=((kd, pr),)), g("X", 1, 0), g("RY", 1, p="b", noise=((kd, pr),)), g("PHASE", 0, p="a" if kd == "BitFlip" else "c")]
        add(f"noise:{kd}", body(gs, obs, 2, kd == "Depolarizing", "grad", "gpsr"), limit=400, cost=150)
        add(f"noise:bwd:{kd}", bwd_body(gs, obs, 2, False), limit=400, cost=150)
    add("hessian:single", hessian_body([g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")], obs[:1], 2, "gpsr", "fwd"), limit=400, cost=200)
    add("hessian:repeated", hessian_body([g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="a")], obs[:1], 2, "gpsr", "fwd"), limit=400, cost=200)
    # rotations whose control is not diagonal at the measurement: two frequencies
    for nm in ("RX", "RY", "RZ"):
        gs = [g("H", 0), g(nm, 1, 0, p="a")]
        ob = [("obs", [g("X", 0)])]
        add(f"two-frequencies:{nm}", body(gs, ob, 2, False, "grad", "gpsr"), cost=30)
        add(f"two-frequencies:bwd:{nm}", bwd_body(gs, ob, 2, False), cost=30)
        gs = [g(nm, 1, 0, p="a"), g("RX", 1, p="a")]
        ob = [("obs", [g("Y", 1)])]
        add(f"repeated-controlled:{nm}", body(gs, ob, 2, False, "grad", "gpsr"), cost=30)
        add(f"repeated-controlled:bwd:{nm}", bwd_body(gs, ob, 2, False), cost=30)
    many_parameters(add, rng, big, "gpsr", kinds, analytical_gpsr_bwd)
    more(add, rng, big, "gpsr", kinds, lambda n, m: circ_for(rng, n, m), lambda n, m: circ_for(rng, n, m), False, bwd_body)
    return uniq(out)
