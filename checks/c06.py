"""C06: noise acts after its gate, on the gate's target, in order; pure inputs are promoted."""
from .noise_common import *


def attach(rng, gates, k):
    """Give noise to k of the gates (numeric probabilities)."""
    idx = set(rng.sample(range(len(gates)), min(k, len(gates))))
    out = []
    for i, x in enumerate(gates):
        if i in idx and len(x.t) == 1 and x.name != "EVO":
            ns = []
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(KINDS)
                v = tuple(round(rng.uniform(0.05, 0.3), 3) for _ in range(ARITY[kind]))
                ns.append((kind, v if len(v) > 1 else v[0]))
            x = replace(x, noise=tuple(ns))
        out.append(x)
    return out


def circuit_body(gates, n, dm, how):
    def body(h):
        vc, vs = values(h, gates)
        if dm:
            state, rho = dm_code(h, "rho", n)
        else:
            psi = h.cstate("psi", n)
            state, rho = psi.code, ref.outer(psi.spec)
        ops = [build(x) for x in gates]
        if how == "run":
            out = hq.run(QuantumCircuit(n, ops), state, vc)
        elif how == "apply":
            out = apply_gates(state, ops, vc)
        elif how == "nomerge":
            out = apply_gates(state, ops, vc, merge_ops=False)
        else:
            out = OpSequence([OpSequence(ops[:1]), OpSequence(ops[1:])])(state, vc)
        h.true("a density matrix is returned", isinstance(out, DensityMatrix))
        h.check("rho", as_matrix(h, out, n), dm_evolve(h, gates, rho, n, vs))

    return body


def symbolic_body(gates, n, kinds, dm):
    """Several channels on several gates with symbolic probabilities."""

    def body(h):
        vc, vs = values(h, gates)
        if dm:
            state, rho = dm_code(h, "rho", n)
        else:
            psi = h.cstate("psi", n)
            state, rho = psi.code, ref.outer(psi.spec)
        ops = []
        for i, (x, ks) in enumerate(zip(gates, kinds)):
            pr = [probs(h, k, f"p{i}{j}_") for j, k in enumerate(ks)]
            noise = tuple(instance(k, c) for k, (c, _) in zip(ks, pr)) or None
            args = ([x.p] if x.name in PAR else []) + [x.t if len(x.t) > 1 else x.t[0], x.c or (None,)]
            ops.append(getattr(P, x.name)(*args, noise=noise))
            rho = ref.conjugate_by(full(h, x, n, vs), rho)
            for k, (_, s) in zip(ks, pr):
                rho = ref.apply_channel(h, k, s, rho, n, x.t[0])
        out = apply_gates(state, ops, vc)
        h.check("rho", as_matrix(h, out, n), rho)

    return body


def zero_body(kind, n, x):
    """A channel with probability zero changes nothing."""

    def body(h):
        psi = h.cstate("psi", n)
        v = {1: 0.0, 2: (0.35, 0.0), 3: (0.0, 0.0, 0.0)}[ARITY[kind]]
        vc, vs = values(h, [x])
        out = build(replace(x, noise=((kind, v),)))(psi.code, vc)
        h.check("rho", as_matrix(h, out, n), ref.outer(act(h, x, psi.spec, vs)))

    return body


def expect_body(gates, n, obs):
    def body(h):
        psi = h.cstate("psi", n)
        vc, vs = values(h, gates)
        got = hq.expectation(psi.code, QuantumCircuit(n, [build(x) for x in gates]), [build_expr(("obs", [obs]))], vc)
        rho = dm_evolve(h, gates, ref.outer(psi.spec), n, vs)
        h.check("expectation", got, ref.stack([ref.expval_dm(rho, expr_matrix(h, obs, n, vs))]))

    return body


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    rng = random.Random(606)
    hows = ("run", "apply", "nomerge", "nested")
    for n, m, cnt in ((1, 3, 4), (2, 3, 12), (2, 5, 4), (3, 3, 8)) if not big else ((1, 4, 10), (2, 6, 30), (3, 4, 25), (4, 2, 3)) + (((1, 8, 20), (2, 8, 60), (3, 6, 40), (4, 3, 10)) if deep else ()):
        for k in range(cnt):
            gs = attach(rng, random_circuit(rng, n, m, pnames=("a", "b")), rng.choice([1, 2, 3, 4, 5]))
            if not any(x.noise for x in gs):
                gs[0] = G("X", (rng.randrange(n),), (), None, (("AmplitudeDamping", 0.3),))
            out.append(Harness(f"{hows[k % 4]}:{label(gs)}/{'dm' if k % 3 == 0 else 'sv'}{n}q",
                               circuit_body(gs, n, k % 3 == 0, hows[k % 4]), limit=300, cost=4.0**n * m))
    pairs = [("BitFlip", "AmplitudeDamping"), ("PhaseFlip", "BitFlip"), ("AmplitudeDamping", "PhaseFlip"),
             ("Depolarizing", "GeneralizedAmplitudeDamping"), ("PhaseDamping", "AmplitudeDamping"), ("AmplitudeDamping", "BitFlip")]
    for i, (a, b) in enumerate(pairs):
        gs = [g("H", 0), g("X", 1, 0), g("RY", 0, p="a")]
        out.append(Harness(f"symbolic:{a}+{b}", symbolic_body(gs, 2, [(), (a, b), ()], i % 2 == 0), limit=300, cost=60))
        out.append(Harness(f"symbolic:{a},{b}", symbolic_body(gs, 2, [(a,), (b,), ()], i % 2 == 1), limit=300, cost=60))
    out.append(Harness("controlled:noise on the target only", symbolic_body([g("RX", 2, (0, 1), p="a")], 3, [("AmplitudeDamping",)], False), cost=60))
    out.append(Harness("controlled:target before control", symbolic_body([g("Y", 0, 2), g("H", 1)], 3, [("BitFlip",), ("PhaseFlip",)], False), cost=60))
    for i, kind in enumerate(KINDS):
        out.append(Harness(f"zero:{kind}", zero_body(kind, 2, [g("X", 0), g("RY", 1, 0, p="a"), g("H", 1)][i % 3])))
    for i in range(16 if not deep else 60):
        gs = attach(rng, random_circuit(rng, 2, 3, pnames=("a", "b")), 2)
        obs = ("seq", [g("Z", 0), g("X", 1)]) if i % 2 else g("Y", i % 2)
        out.append(Harness(f"expectation:{label(gs)}:{i % 2}", expect_body(gs, 2, obs), cost=40))
    for k in range(60 if deep else 20):
        n = 1 + k % 3
        gs = attach(rng, local_circuit(rng, n, 5, pnames=("a", "b")), 1 + k % 4)
        gs[0] = replace(gs[0], noise=(("AmplitudeDamping", 0.3),)) if len(gs[0].t) == 1 else gs[0]
        if any(x.noise for x in gs):
            out.append(Harness(f"local:{hows[k % 4]}:{label(gs)}/{'dm' if k % 3 == 0 else 'sv'}{n}q",
                               circuit_body(gs, n, k % 3 == 0, hows[k % 4]), limit=300, cost=4.0**n * 5))
    for k in range(8 if not deep else 40):
        n = 1 + k % 2
        gs = attach(rng, random_circuit(rng, n, 3, pnames=("a", "b")), 2)
        gs[-1] = g("RY", k % n, p="a", noise=(("BitFlip", 0.3),))
        out.append(Harness(f"real:{hows[k % 4]}:{label(gs)}/{'dm' if k % 3 == 0 else 'sv'}{n}q", reals(circuit_body(gs, n, k % 3 == 0, hows[k % 4])), limit=300, cost=4.0**n * 5))
    for k in range(12 if not deep else 60):
        n = 2 + k % 2 if deep or k % 3 == 0 else 2
        gs = attach(rng, analog_circuit(rng, n, 4, 1 + k % 2, pnames=("a", "b")), 2)
        gs[-1] = g("RY", k % n, p="a", noise=(("AmplitudeDamping", 0.3),))
        out.append(Harness(f"analog:{hows[k % 4]}:{label(gs)}/{'dm' if k % 3 == 0 else 'sv'}{n}q", circuit_body(gs, n, k % 3 == 0, hows[k % 4]), limit=300, cost=4.0**n * 5))
    for n in (4, 5, 6):
        for k in range(16 if deep else 6):
            gs = attach(rng, random_circuit(rng, n, 3, pnames=("a", "b")), 2)
            if not any(x.noise for x in gs):
                gs[0] = G("X", (rng.randrange(n),), (), None, (("AmplitudeDamping", 0.3),))
            out.append(Harness(f"large:{hows[k % 4]}:{label(gs)}/{'dm' if k % 3 == 0 else 'sv'}{n}q",
                               few(4 if n < 6 else 2, circuit_body(gs, n, k % 3 == 0, hows[k % 4])), limit=300, cost=4.0**n * 3))
    return uniq(out)
