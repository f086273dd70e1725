"""C10: Scale multiplies, Add sums, sequences compose, to any depth."""
from .common import *


def vals_of(h, e, extra=()):
    vc, vs = analog(expr_gates(e)), {}
    for n in expr_names(e) + list(extra):
        if n not in vc:
            p = h.angle(n)
            vc[n], vs[n] = p.code, p.spec
    return vc, vs


def body(e, n, how):
    def run(h):
        psi = h.cstate("psi", n)
        vc, vs = vals_of(h, e)
        op = build_expr(e)
        M = expr_matrix(h, e, n, vs)
        if how == "call":
            out = op(psi.code, vc)
        elif how == "run":
            out = hq.run(op, psi.code, vc)
        elif how == "circuit":
            out = QuantumCircuit(n, [P.H(0), op])(psi.code, vc)
            M = ref.matmul(M, full(h, g("H", 0), n, {}))
        elif how == "in-sequence":
            out = OpSequence([OpSequence([P.S(n - 1), op]), P.X(0)])(psi.code, vc)
            M = ref.matmul(full(h, g("X", 0), n, {}), ref.matmul(M, full(h, g("S", n - 1), n, {})))
        elif how == "flattened":
            out = psi.code
            for o in OpSequence([P.T(0), op, OpSequence([op])]):
                out = o(out, vc)
            M = ref.matmul(M, ref.matmul(M, full(h, g("T", 0), n, {})))
        elif how == "forward":
            out = Observable([op]).forward(psi.code, vc)
        elif how == "scaled":
            out = Scale(op, "w2")(psi.code, {**vc, "w2": jnp.asarray(0.7)})
            M = M.mul(h.const(0.7))
        elif how == "tensor":
            out = None
            h.check("matrix", h.value(op.tensor(vc, tuple(range(n)))).reshape(M.shape), M)
            return
        h.check("state", out, matvec(M, psi.spec))

    return run


def linear_body(n):
    """Add and Scale are linear in their parameters and in the state."""

    def run(h):
        a, b = h.cstate("u", n), h.cstate("v", n)
        w = h.real("w", -5, 5)
        op = Scale(Add([P.X(0), P.RY(0.4, n - 1)]), "w")
        f = lambda s: h.value(op(s, {"w": w.code}))
        h.check("additive", f(a.code + b.code), f(a.code).add(f(b.code)))

    return run


def observable_body(e, n):
    """An observable inside another composition acts as the operator, not as its mean."""

    def run(h):
        psi = h.cstate("psi", n)
        vc, vs = vals_of(h, e)
        o = Observable([build_expr(e)])
        M = expr_matrix(h, e, n, vs)
        h.check("scaled", Scale(o, 2.0)(psi.code, vc), matvec(M.mul(h.const(2.0)), psi.spec))
        h.check("added", Add(list(o) + [P.X(0)])(psi.code, vc), matvec(M.add(full(h, g("X", 0), n, {})), psi.spec))
        h.check("expectation", o(psi.code, vc), ref.expval(psi.spec, M))

    return run


EXPRS = [
    ("scale", "w", g("X", 0)),
    ("scale", 0.5, g("RX", 1, p="a")),
    ("scale", "w", ("seq", [g("H", 0), g("S", 0), g("X", 1, 0)])),
    ("scale", "w", ("add", [g("X", 0), g("Z", 1)])),
    ("scale", "w", ("scale", "v", g("Y", 1))),
    ("scale", -2.0, ("scale", "w", ("add", [g("H", 0), ("scale", 3.0, g("T", 1))]))),
    ("add", [g("X", 0), g("Y", 0), g("Z", 0)]),
    ("add", [("scale", "w", g("X", 0)), ("scale", "v", g("Z", 1))]),
    ("add", [("scale", "w", g("X", 0)), ("scale", "w", g("Y", 1)), g("RZ", 0, 1, p="a")]),
    ("add", [("seq", [g("H", 0), g("S", 0)]), ("seq", [g("S", 0), g("H", 0)])]),
    ("add", [("add", [g("X", 0), g("Y", 1)]), ("add", [g("Z", 0)])]),
    ("seq", [("add", [g("X", 0), g("Z", 0)]), ("add", [g("Y", 0), g("H", 1)])]),
    ("seq", [("scale", "w", g("X", 0)), g("RY", 0, p="a"), ("scale", "v", g("Z", 0))]),
    ("seq", [("seq", [g("T", 0), ("add", [g("H", 0), g("S", 1)])]), g("X", 1, 0)]),
    ("add", [("scale", "w", ("seq", [g("X", 0), g("Z", 1)])), ("seq", [("scale", 0.25, g("Y", 0)), g("H", 1)])]),
    ("scale", "w", ("seq", [("add", [g("X", 0), ("scale", "v", g("Y", 0))]), g("RX", 0, p="a")])),
]


def random_expr(rng, n, depth):
    k = rng.random()
    if depth == 0 or k < 0.25:
        return random_gate(rng, n, maxc=1, pnames=("a", "b"))
    if k < 0.5:
        return ("scale", rng.choice(["w", "v", 0.5, -1.5]), random_expr(rng, n, depth - 1))
    return (rng.choice(["add", "seq"]), [random_expr(rng, n, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))])


def harnesses(tier):
    out = []
    rng0 = random.Random(1011)
    big, deep = True, tier == "thorough"
    hows = ("call", "run", "circuit", "in-sequence", "flattened", "forward", "scaled", "tensor")
    for i, e in enumerate(EXPRS):
        for k in range(4 if not big else 8):
            how = hows[(i * 3 + k) % 8]
            if e[0] == "seq" and how in ("forward", "scaled") and False:
                continue
            out.append(Harness(f"{how}:{expr_label(e)}", body(e, 2, how), cost=6))
    for n in (1, 2, 3):
        out.append(Harness(f"linear/{n}q", linear_body(n)))
    for nm, ts in lookalike_terms():
        for how in hows:
            out.append(Harness(f"{how}:lookalikes:{nm}", body(("add", ts), 2, how), cost=10))
            if big or how in ("call", "flattened", "tensor"):
                out.append(Harness(f"{how}:lookalikes:{nm}:seq", body(("seq", ts[:4]), 2, how), cost=10))
        out.append(Harness(f"observable:lookalikes:{nm}", observable_body(("add", ts), 2), cost=10))
    for i, ns in enumerate(NAMES):
        m = dict(zip("wva", ns))
        def ren(e):
            if isinstance(e, G):
                return replace(e, p=m.get(e.p, e.p)) if isinstance(e.p, str) else e
            if e[0] == "scale":
                return ("scale", m.get(e[1], e[1]) if isinstance(e[1], str) else e[1], ren(e[2]))
            return (e[0], [ren(x) for x in e[1]])
        for k in (5, 8, 12, 15):
            e = ren(EXPRS[k])
            out.append(Harness(f"{hows[(i + k) % 8]}:{expr_label(e)}", body(e, 2, hows[(i + k) % 8]), cost=8))
    for i in range(16 if not deep else 80):
        n = 4 + i % 2 if not deep else 4 + i % 4
        e = random_expr(rng0, n, 3)
        how = ("call", "run", "circuit", "in-sequence", "flattened", "forward", "scaled")[i % 7]
        if not isinstance(e, G):
            out.append(Harness(f"large:{how}:{expr_label(e)}/{n}q", few(2, body(e, n, how)), limit=400, cost=4.0**n / 4))
    for i, e in enumerate(EXPRS if deep else EXPRS[::2]):
        how = ("call", "run", "circuit", "in-sequence", "flattened", "scaled")[i % 6]
        if not isinstance(e, G) and e[0] != "obs":
            out.append(Harness(f"real:{how}:{expr_label(e)}", reals(body(e, 1 + max(q for x in expr_gates(e) for q in x.qubits), how)), limit=300, cost=20))
    for i, e in enumerate(analog_exprs(random.Random(1011), 24 if not deep else 120)):
        how = ("call", "run", "circuit", "in-sequence", "flattened", "forward", "scaled", "tensor")[i % 8]
        out.append(Harness(f"analog:{how}:{expr_label(e)}", body(e, 2, how), limit=300, cost=20))
    for e in EXPRS[3:8]:
        out.append(Harness(f"observable:{expr_label(e)}", observable_body(e, 2), cost=8))
    rng = random.Random(1010)
    for i in range(120 if not deep else 900):
        n = rng.choice([2, 3]) if i < 120 else rng.choice([2, 3, 4])
        e = random_expr(rng, n, 3 if i < 120 else rng.choice([3, 4, 5]))
        if isinstance(e, G):
            continue
        out.append(Harness(f"{hows[i % 8]}:{expr_label(e)}/{n}q", body(e, n, hows[i % 8]), cost=12))
    return uniq(out)
