"""C07: a circuit is its gates applied in order, however it is nested, grouped, merged or run."""
from .common import *


def body(gates, n, how, dm=False):
    def run(h):
        vc, vs = values(h, gates)
        if dm:
            state, rho = dm_code(h, "rho", n)
            want = ref.conjugate_by(full_all(h, gates, n, vs), rho)
        else:
            psi = h.cstate("psi", n)
            state = psi.code
            want = act_all(h, gates, psi.spec, vs)
        ops = [build(x) for x in gates]
        k = len(ops) // 2
        if how == "run":
            out = hq.run(OpSequence(ops), state, vc)
        elif how == "circuit":
            out = QuantumCircuit(n, ops)(state, vc)
        elif how == "merge":
            out = apply_gates(state, ops, vc)
        elif how == "group":
            out = apply_gates(state, ops, vc, group_gates=True)
        elif how == "plain":
            out = apply_gates(state, ops, vc, merge_ops=False)
        elif how == "group-plain":
            out = apply_gates(state, ops, vc, group_gates=True, merge_ops=False)
        elif how == "nested":
            out = OpSequence([OpSequence(ops[:k]), *ops[k:-1], OpSequence([OpSequence(ops[-1:])])])(state, vc)
        elif how == "nested-circuit":
            out = QuantumCircuit(n, [QuantumCircuit(n, ops[:k]), OpSequence(ops[k:])])(state, vc)
        elif how == "flattened":
            seq = OpSequence([OpSequence(ops[:k]), *ops[k:-1], OpSequence([OpSequence(ops[-1:])])])
            out = apply_gates(state, list(iter(seq)), vc)
        elif how == "from-sequence":
            out = QuantumCircuit(n, OpSequence(ops))(state, vc)
        elif how == "iterator":
            out = apply_gates(state, iter(ops), vc)
        elif how == "generator":
            out = apply_gates(state, (op for op in ops), vc, group_gates=True)
        elif how == "iterator-plain":
            out = apply_gates(state, iter(QuantumCircuit(n, ops)), vc, merge_ops=False)
        elif how == "tuple":
            out = apply_gates(state, tuple(ops), vc)
        elif how == "sequence":
            out = apply_gates(state, OpSequence(ops), vc)
        elif how == "from-iterator":
            out = QuantumCircuit(n, iter(ops))(state, vc)
        elif how == "twice":  # the same objects, run again
            c = QuantumCircuit(n, ops)
            first, second = c(state, vc), hq.run(c, state, vc)
            h.check("first", as_matrix(h, first, n) if dm else first, want)
            out = second
        elif how == "one-by-one":
            out = state
            for op in ops:
                out = op(out, vc)
        elif how == "split":
            out = hq.run(OpSequence(ops[k:]), hq.run(OpSequence(ops[:k]), state, vc), vc)
        else:
            raise KeyError(how)
        h.check("state", as_matrix(h, out, n) if dm else out, want)

    return run


def inverse_body(gates, n):
    """Undoing a circuit with the daggers in reverse order restores the state."""

    def run(h):
        from horqrux.utils.operator_utils import OperationType

        psi = h.cstate("psi", n)
        vc, vs = values(h, gates)
        ops = [build(x) for x in gates]
        out = apply_gates(psi.code, ops, vc)
        back = apply_gates(out, ops[::-1], vc, OperationType.DAGGER)
        h.check("state", back, psi.spec)

    return run


def default_body(e, n, kind, sparse=False):
    """Called without a state, operations act on the zero state of their qubits."""

    def run(h):
        gs = e if isinstance(e, list) else [e]
        vc, vs = {}, {}
        for x in gs:
            for k in expr_names(x):
                p = h.angle(k)
                vc[k], vs[k] = p.code, p.spec
        zero = h.const(np.eye(2**n)[0].reshape((2,) * n))
        want = zero
        for x in gs:
            want = matvec(expr_matrix(h, x, n, vs), want)
        ops = [build_expr(x, sparse) for x in gs]
        if kind == "op":
            got = ops[0](values=vc)
        elif kind == "circuit":
            got = QuantumCircuit(n, ops)(values=vc)
        elif kind == "sequence":
            got = OpSequence(ops)(None, vc)
        elif kind == "forward":
            got = ops[0].forward(values=vc)
        elif kind == "expectation":
            got = ops[0](values=vc)
            want = ref.expval(zero, expr_matrix(h, gs[0], n, vs))
            h.check("value", h.value(got).reshape(()), want)
            return
        h.check("state", got.todense() if sparse else got, want)

    return run


def defaults(out):
    a = g("RX", 0, p="a")
    add = lambda nm, *x, **k: out.append(Harness(f"default state:{nm}", default_body(*x, **k), cost=10))
    for x, n in ((a, 1), (g("RY", 1, p="a"), 2), (g("X", 2, 0), 3), (g("RZ", 0, 2, p="a"), 3), (g("SWAP", (2, 0)), 3), (g("PHASE", 2, p="a"), 3), (g("H", 3), 4)):
        add(x.label(), x, n, "op")
        add(f"sequence:{x.label()}", [x], n, "sequence")
        add(f"circuit:{x.label()}", [x], n + 1, "circuit")
    for gs, n in (([g("H", 0), g("X", 1, 0), g("RY", 1, p="a")], 2), ([g("RX", 2, p="a"), g("X", 0, 2)], 3), ([g("RX", 0, p="a")], 3), ([], 2)):
        add(f"circuit:{label(gs)}/{n}q", gs, n, "circuit")
        if gs:
            k = max(q for x in gs for q in x.t + x.c) + 1
            add(f"sequence:{label(gs)}", gs, k, "sequence")
            add(f"scale:{label(gs)}", ("scale", "w", ("seq", gs)), k, "op")
            add(f"add:{label(gs)}", ("add", gs), k, "op")
            add(f"observable:{label(gs)}", ("obs", [g("Z", 0), ("seq", [g("X", k - 1), g("Z", 0)])]), k, "expectation") if k > 1 else None
            add(f"forward:{label(gs)}", ("obs", gs), k, "forward")
    for gs, n in (([g("H", 0), g("X", 1, 0), g("RY", 1, p="a")], 2), ([g("RX", 1, p="a")], 2)):
        add(f"sparse:{label(gs)}/{n}q", gs, n, "circuit", sparse=True)
    add("sparse:gate", g("RX", 1, p="a"), 2, "op", sparse=True)


HOWS = ("run", "circuit", "merge", "group", "plain", "group-plain", "nested", "nested-circuit", "flattened",
        "from-sequence", "one-by-one", "split", "iterator", "generator", "iterator-plain", "tuple", "sequence",
        "from-iterator", "twice")


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    rng = random.Random(707)
    i = 0
    for n, m, cnt in ((1, 4, 6), (2, 5, 24), (3, 6, 36), (4, 6, 12), (5, 5, 6)) if not big else (
            (1, 6, 12), (2, 8, 60), (3, 8, 80), (4, 8, 40), (5, 6, 20), (6, 5, 12), (2, 14, 12), (3, 12, 12)) + (
            ((2, 16, 60), (3, 14, 60), (4, 12, 60), (5, 10, 40), (6, 8, 40), (7, 6, 30), (8, 5, 12)) if deep else ()):
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            how = HOWS[i % len(HOWS)]
            i += 1
            out.append(Harness(f"{how}:{label(gs)}/{n}q", body(gs, n, how), limit=300, cost=2.0**n * m))
    # runs of gates on the same and on interleaved qubits, where merging and grouping do something
    for how in ("merge", "group", "run", "group-plain"):
        gs = [g("RX", 0, p="a"), g("RY", 0, p="b"), g("H", 0), g("T", 1), g("X", 1, 0), g("Z", 1, 0), g("S", 0)]
        out.append(Harness(f"{how}:runs", body(gs, 2, how), cost=40))
        gs = [g("RX", 1, p="a"), g("Y", 0), g("RZ", 1, p="b"), g("H", 0), g("SWAP", (0, 1)), g("H", 1), g("T", 0)]
        out.append(Harness(f"{how}:interleaved", body(gs, 2, how), cost=40))
        gs = [g("X", 1, 0), g("X", 0, 1), g("X", 0, 1), g("RY", 1, 0, p="a"), g("X", 1, 0)]
        out.append(Harness(f"{how}:control and target exchanged", body(gs, 2, how), cost=40))
        gs = [g("ISWAP", (0, 1)), g("SQRTSWAP", (1, 0)), g("ISWAP", (1, 0)), g("S", 0)]
        out.append(Harness(f"{how}:two-qubit runs", body(gs, 2, how), cost=40))
    for nm, gs, n in lookalike_circuits():
        for how in HOWS if big else ("merge", "group", "run", "nested"):
            out.append(Harness(f"{how}:lookalikes:{nm}", body(gs, n, how), limit=300, cost=60))
        out.append(Harness(f"dm:lookalikes:{nm}", body(gs, n, "merge", True), limit=300, cost=150))
    defaults(out)
    for _ in range(30 if not deep else 150):
        n = rng.choice([2, 3])
        gs = random_circuit(rng, n, 4, pnames=("a", "b"))
        how = rng.choice(HOWS)
        out.append(Harness(f"dm:{how}:{label(gs)}/{n}q", body(gs, n, how, True), limit=300, cost=100))
        out.append(Harness(f"inverse:{label(gs)}/{n}q", inverse_body(gs, n), limit=300, cost=100))
    for n, m, cnt in ((7, 8, 12), (8, 8, 12), (9, 7, 8), (10, 6, 6), (11, 5, 4), (12, 4, 3)) if not deep else ((7, 12, 30), (8, 12, 30), (9, 10, 20), (10, 8, 20), (11, 6, 12), (12, 6, 12)):
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            how = HOWS[i % len(HOWS)]
            i += 1
            out.append(Harness(f"large:{how}:{label(gs)}/{n}q", few(6, body(gs, n, how)), limit=300, cost=2.0**n))
    for n, m, cnt in ((1, 8, 12), (2, 10, 24), (3, 10, 24), (4, 10, 12)) if not deep else ((1, 12, 24), (2, 12, 72), (3, 12, 72), (4, 14, 36)):
        for _ in range(cnt):
            gs = local_circuit(rng, n, m, pnames=("a", "b"))
            how = HOWS[i % len(HOWS)]
            i += 1
            out.append(Harness(f"local:{how}:{label(gs)}/{n}q", body(gs, n, how), limit=300, cost=2.0**n * m))
    for k in range(len(HOWS) if not deep else 4 * len(HOWS)):
        n = 1 + k % 3
        gs = random_circuit(rng, n, 4, pnames=("a", "b"))
        out.append(Harness(f"real:{HOWS[k % len(HOWS)]}:{label(gs)}/{n}q", reals(body(gs, n, HOWS[k % len(HOWS)])), limit=300, cost=2.0**n * 10))
    # thresholds on the length: mostly fixed gates
    for m in (70, 130, 260) if not deep else (64, 65, 101, 130, 257, 520):
        for how in ("run", "merge", "group", "plain"):
            gs = [x if x.name not in PAR or j in (m // 3, m - 2) else replace(x, p=round(0.37 * j - 2, 2), shift=0.0)
                  for j, x in enumerate(random_circuit(rng, 2, m, pnames=("a", "b")))]
            out.append(Harness(f"long:{how}:{m} gates", body(gs, 2, how), limit=300, cost=200))
    for k in range(2 * len(HOWS) if not deep else 8 * len(HOWS)):
        n = 2 + k % 3
        gs = analog_circuit(rng, n, 5, 1 + (k // 3) % 2, pnames=("a", "b"))
        out.append(Harness(f"analog:{HOWS[k % len(HOWS)]}:{label(gs)}/{n}q", body(gs, n, HOWS[k % len(HOWS)]), limit=300, cost=2.0**n * 10))
        if k % 4 == 0:
            out.append(Harness(f"analog inverse:{label(gs)}/{n}q", inverse_body(gs, n), limit=300, cost=2.0**n * 10))
    # long sequences on few qubits
    for n, m, cnt in ((2, 24, 12), (3, 24, 12), (3, 40, 4)) if not deep else ((2, 40, 24), (3, 40, 24), (4, 60, 12)):
        for _ in range(cnt):
            gs = [x if x.name not in PAR or k % 6 == 0 else replace(x, p=round(0.1 * k - 1.3, 2), shift=0.0)
                  for k, x in enumerate(random_circuit(rng, n, m, pnames=("a", "b")))]
            how = HOWS[i % len(HOWS)]
            i += 1
            out.append(Harness(f"long:{how}:{n}q:{m}:{_}", body(gs, n, how), limit=300, cost=2.0**n * m))
    return uniq(out)
