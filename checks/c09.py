"""C09: tensor() is the matrix of the action on the (sorted) full support."""
from .common import *


def remap(x, m):
    return replace(x, t=tuple(m[q] for q in x.t), c=tuple(m[q] for q in x.c))


def gate_body(x, fs, sparse=False):
    def body(h):
        vc, vs = values(h, [x])
        op = build(x, sparse)
        sup = tuple(sorted(x.qubits))
        want_sup = sup if fs is None else tuple(sorted(fs))
        m = {q: i for i, q in enumerate(want_sup)}
        if fs is None:
            got = op.tensor(vc)
        else:
            got = op.tensor(vc, fs)
        h.true("qubit support", tuple(op.qubit_support) == sup, str(op.qubit_support))
        got = h.value(got)
        d = 2 ** len(want_sup)
        h.check("matrix", got.reshape((d, d)), full(h, remap(x, m), len(want_sup), vs))

    return body


def expr_map(e, m):
    if isinstance(e, G):
        return remap(e, m)
    if e[0] == "scale":
        return ("scale", e[1], expr_map(e[2], m))
    return (e[0], [expr_map(x, m) for x in e[1]])


def expr_qubits(e):
    if isinstance(e, G):
        return set(e.qubits)
    if e[0] == "scale":
        return expr_qubits(e[2])
    return set().union(*[expr_qubits(x) for x in e[1]])


def expr_body(e, fs, circuit=None):
    def body(h):
        vc, vs = analog(expr_gates(e)), {}
        for n in expr_names(e):
            p = h.angle(n)
            vc[n], vs[n] = p.code, p.spec
        op = build_expr(e)
        if circuit:
            op = QuantumCircuit(circuit, op.operations)
        sup = tuple(sorted(expr_qubits(e)))
        want_sup = sup if fs is None else tuple(sorted(fs))
        m = {q: i for i, q in enumerate(want_sup)}
        h.true("qubit support", tuple(op.qubit_support) == sup, str(op.qubit_support))
        got = h.value(op.tensor(vc) if fs is None else op.tensor(vc, fs))
        d = 2 ** len(want_sup)
        h.check("matrix", got.reshape((d, d)), expr_matrix(h, expr_map(e, m), len(want_sup), vs))

    return body


def action_body(e, n):
    """tensor() applied as a matrix is what calling the operation does."""

    def body(h):
        psi = h.cstate("psi", n)
        vc, vs = analog(expr_gates(e)), {}
        for k in expr_names(e):
            p = h.angle(k)
            vc[k], vs[k] = p.code, p.spec
        op = build_expr(e)
        out = h.value(op(psi.code, vc))
        M = h.value(op.tensor(vc, tuple(range(n)))).reshape((2**n, 2**n))
        h.check("action", out, matvec(M, psi.spec))

    return body


def small_body(x, fs):
    """A full support which misses a qubit is refused."""

    def body(h):
        vc, vs = values(h, [x])
        op = build(x)
        h.raises("ValueError (gate)", ValueError, lambda: op.tensor(vc, fs), True)
        h.raises("ValueError (sequence)", ValueError, lambda: OpSequence([op]).tensor(vc, fs), True)

    return body


def expand_body(qs, fs):
    """expand_operator with a symbolic matrix: identity on the rest, for every matrix."""
    expand_operator = internal("horqrux.utils.operator_utils:expand_operator")

    def body(h):
        k = len(qs)
        U = h.carray("U", (2**k, 2**k))
        got = h.value(expand_operator(U.code, qs, fs))
        want_sup = tuple(sorted(fs))
        m = {q: i for i, q in enumerate(want_sup)}
        h.check("matrix", got, ref.opmatrix(h, len(fs), U.spec, [m[q] for q in sorted(qs)]))

    return body


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    rng = random.Random(909)
    supports = [None, (0, 1, 2), (2, 0, 1)]
    i = 0
    for name in ONE + PAR:
        p = "a" if name in PAR else None
        for t in range(3):
            rest = [q for q in range(3) if q != t]
            for k in range(3):
                for c in itertools.permutations(rest, k):
                    i += 1
                    if not big and k == 2 and name not in ("X", "RY", "S", "PHASE"):
                        continue
                    x = G(name, (t,), c, p)
                    fs = supports[i % 3]
                    out.append(Harness(f"{x.label()}:{fs}", gate_body(x, fs), cost=8))
    for name in TWO:
        for t in placements(3, 2):
            rest = [q for q in range(3) if q not in t]
            for k in (0, 1):
                i += 1
                x = G(name, t, tuple(rest[:k]))
                out.append(Harness(f"{x.label()}:{supports[i % 3]}", gate_body(x, supports[i % 3]), cost=8))
    for x, fs in ((g("X", 5), (3, 5)), (g("RY", 3, 7, p="a"), (7, 1, 3)), (g("RX", 7, 3, p="a"), None), (g("Y", 4, (9, 2)), (2, 4, 9)),
                  (g("H", 2), (4, 2, 0)), (g("S", 1, 6), (6, 1)), (g("RZ", 2, 0, p="a"), (0, 1, 2, 3)), (g("SWAP", (4, 1)), (1, 2, 4)),
                  (g("T", 3, (0, 2)), (3, 2, 1, 0)), (g("ISWAP", (3, 0), 1), None)):
        out.append(Harness(f"{x.label()}:{fs}", gate_body(x, fs), cost=16))
    exprs = [
        ("seq", [g("H", 0), g("S", 0)]), ("seq", [g("S", 0), g("H", 0), g("T", 0)]), ("seq", [g("H", 0), g("X", 1, 0)]),
        ("seq", [g("RX", 1, p="a"), g("RY", 1, p="b"), g("X", 0, 1)]), ("seq", [g("RY", 2, p="a"), g("X", 0, 2), g("RZ", 0, p="b")]),
        ("add", [g("X", 0), g("Z", 1)]), ("add", [g("X", 1, 0), g("Y", 0)]), ("scale", "w", g("X", 0)), ("scale", 2.5, g("RY", 1, p="a")),
        ("add", [("scale", "w", g("Z", 0)), ("scale", -0.5, ("seq", [g("X", 0), g("Y", 1)]))]),
        ("seq", [("add", [g("X", 0), g("Z", 0)]), g("S", 0)]), ("seq", [("scale", "w", ("seq", [g("H", 1), g("T", 1)])), g("X", 0, 1)]),
        ("obs", [g("Z", 0), g("X", 2)]), ("obs", [("scale", "w", ("add", [g("Y", 1), ("scale", 3.0, g("Z", 0))]))]),
        ("scale", "w", ("add", [("seq", [g("X", 0), g("Z", 2)]), g("Y", 1)])), ("seq", [("seq", [g("T", 1), g("H", 1)]), ("seq", [g("Y", 0, 1)])]),
    ]
    for e in exprs:
        sup = sorted(expr_qubits(e))
        more = tuple(sup) + (max(sup) + 2,)
        out.append(Harness(f"{expr_label(e)}:None", expr_body(e, None), cost=16))
        out.append(Harness(f"{expr_label(e)}:{more[::-1]}", expr_body(e, more[::-1]), cost=32))
        if e[0] == "seq" or e[0] == "add":
            out.append(Harness(f"action:{expr_label(e)}", action_body(e, 3), cost=32))
    for k in range(60 if not deep else 240):
        n = 4 + k % 2
        x = random_gate(rng, n)
        while len(x.c) < 2:
            x = random_gate(rng, n)
        out.append(Harness(f"{x.label()}:None", gate_body(x, None), cost=4.0**n / 8))
        if n == 4:
            out.append(Harness(f"{x.label()}:{n}q", gate_body(x, tuple(range(n))), cost=4.0**n / 4))
    for k in (3, 4):
        for c in ((0, 1, 2, 3), (3, 1, 0, 4), (4, 3, 2, 1))[:2 if not big else 3]:
            c = c[:k]
            t = next(q for q in (2, 4, 1, 0, 3) if q not in c)
            for nm in ("X", "RY"):
                x = G(nm, (t,), c, "a" if nm == "RY" else None)
                out.append(Harness(f"many controls:{x.label()}", gate_body(x, None), cost=60))
    for nm, gs, n in lookalike_circuits():
        out.append(Harness(f"lookalikes:{nm}", expr_body(("seq", gs), None), cost=60))
    for nm, ts in lookalike_terms():
        out.append(Harness(f"lookalikes:{nm}", expr_body(("add", ts), None), cost=20))
        out.append(Harness(f"lookalikes:{nm}:seq", expr_body(("seq", ts), (0, 1, 2)), cost=40))
    # indices with one, two and three digits
    wide = [dict(zip(range(6), w)) for w in ((10, 2, 9, 11, 3, 100), (2, 10, 100, 20, 19, 3), (9, 10, 8, 99, 101, 1))]
    for k, e in enumerate(exprs):
        for m in wide if deep else (wide[k % 3],):
            ew = expr_map(e, m)
            sup = sorted(expr_qubits(ew))
            out.append(Harness(f"wide:{expr_label(ew)}:None", expr_body(ew, None), cost=16))
            fs = sup + [12 + 88 * (k % 2)]
            rng.shuffle(fs)
            out.append(Harness(f"wide:{expr_label(ew)}:{fs}", expr_body(ew, tuple(fs)), cost=32))
    for i, e in enumerate(analog_exprs(rng, 18 if not deep else 90)):
        fs = [None, (1, 0, 3), (0, 2, 1)][i % 3]
        out.append(Harness(f"analog:{expr_label(e)}:{fs}", expr_body(e, fs), cost=20))
        ew = expr_map(e, wide[i % 3])
        out.append(Harness(f"analog:{expr_label(ew)}:None", expr_body(ew, None), cost=20))
        out.append(Harness(f"analog action:{expr_label(e)}", action_body(e, 2), cost=20))
    for k in range(16 if not deep else 80):
        x = remap(random_gate(rng, 3, maxc=2), wide[k % 3])
        fs = [wide[k % 3][q] for q in (0, 1, 2, 5)]
        rng.shuffle(fs)
        out.append(Harness(f"wide:{x.label()}:{fs}", gate_body(x, tuple(fs) if k % 4 else None), cost=32))
    for e in exprs[:5]:
        out.append(Harness(f"circuit:{expr_label(e)}", expr_body(e, None, 4), cost=16))
    for x, fs in ((g("X", 0), (1, 2)), (g("X", 0, 3), (0, 1, 2)), (g("RY", 2, (0, 1), p="a"), (0, 2)), (g("SWAP", (0, 1)), (0,))):
        out.append(Harness(f"refused:{x.label()}:{fs}", small_body(x, fs)))
    for qs, fs in (((0,), (0, 1)), ((1,), (0, 1)), ((1,), (2, 0, 1)), ((0, 2), (0, 1, 2)), ((1, 2), (0, 1, 2)), ((0, 1), (0, 1, 2)),
                   ((3, 5), (1, 3, 5)), ((1,), (0, 1, 2, 3)), ((0, 3), (0, 1, 2, 3)), ((2,), (3, 2, 1)), ((0, 1, 3), (0, 1, 2, 3))):
        if internal("horqrux.utils.operator_utils:expand_operator") is not None:
            out.append(Harness(f"expand:{qs}->{fs}".replace(" ", ""), expand_body(qs, fs), cost=32))
    for n, m, k in ((2, 4, 6), (3, 4, 8)) if not big else ((2, 6, 20), (3, 6, 30), (4, 4, 12)) + (((2, 10, 40), (3, 10, 60), (4, 6, 60), (5, 4, 12)) if deep else ()):
        for _ in range(k):
            e = ("seq", random_circuit(rng, n, m, pnames=("a", "b")))
            fs = list(range(n))
            rng.shuffle(fs)
            out.append(Harness(f"{expr_label(e)}:{fs}", expr_body(e, tuple(fs)), cost=40))
    return uniq(out)
