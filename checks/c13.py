"""C13: conversion to sparse or dense form keeps everything but the form."""
from engine.symint import SymInt

from .obs_common import *
from jax.experimental.sparse import BCOO
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.analog import HamiltonianEvolution
from .c12 import sparse_state


def prims(op):
    if isinstance(op, OpSequence):
        return [p for o in op.operations for p in prims(o)]
    return [op]


def same_structure(h, where, a, b, sparse):
    """b is a with the sparse flag of its gates set."""
    h.true(where + "type", type(a) is type(b), f"{type(b).__name__} instead of {type(a).__name__}")
    if isinstance(a, OpSequence):
        h.true(where + "length", len(a.operations) == len(b.operations))
        h.true(where + "container", isinstance(b.operations, (list, tuple)))
        for f in ("n_qubits", "fparams", "parameter"):
            if hasattr(a, f):
                x, y = getattr(a, f), getattr(b, f)
                h.true(where + f, hasattr(b, f) and (list(x) == list(y) if f == "fparams" else x == y), f"{f} is {y} instead of {x}")
        h.true(where + "param_names", a.param_names == b.param_names)
        if isinstance(a, QuantumCircuit):
            h.true(where + "vparams", a.vparams == b.vparams and a.n_vparams == b.n_vparams)
        for k, (x, y) in enumerate(zip(a.operations, b.operations)):
            same_structure(h, f"{where}{k}.", x, y, sparse)
        return
    for f in ("generator_name", "target", "control", "noise", "param", "shift"):
        if hasattr(a, f):
            h.true(where + f, getattr(a, f) == getattr(b, f), f"{f} is {getattr(b, f)!r} instead of {getattr(a, f)!r}")
    h.true(where + "sparse", b.sparse is sparse)
    h.true(where + "name", a.name == b.name and a.is_parametric == b.is_parametric and a.qubit_support == b.qubit_support)


def conv_body(make, e, n, noisy=False):
    """make(sparse) builds the operation; e its expression for the specification."""

    def run(h):
        dense, sp = make(False), make(True)
        vc, vs = obs_values(h, [], [e])
        flags = [(p.sparse, p.shift) if hasattr(p, "shift") else p.sparse for p in prims(dense)]
        for where, src in (("dense ", dense), ("sparse ", sp)):
            s, d = to_sparse(src), to_dense(src)
            same_structure(h, where + "to_sparse:", src, s, True)
            same_structure(h, where + "to_dense:", src, d, False)
            back = to_dense(s)
            same_structure(h, where + "back:", dense, back, False)
            if noisy:
                state, rho = dm_code(h, where + "rho", n)
                h.check(where + "dense action", as_matrix(h, d(state, vc), n), dm_evolve(h, [e], rho, n, vs))
                continue
            M = expr_matrix(h, e, n, vs)
            psi = h.cstate(where + "psi", n)
            S, spec = sparse_state(h, n)
            for nm, o, st, p in (("dense action", d, psi.code, psi.spec), ("back action", back, psi.code, psi.spec), ("sparse action", s, S, spec)):
                if e[0] == "obs" if not isinstance(e, G) else False:
                    h.check(where + nm, o.forward(st, vc), matvec(M, p))
                    h.check(where + nm + " mean", o(st, vc), ref.expval(p, M))
                else:
                    h.check(where + nm, o(st, vc), matvec(M, p))
            h.check(where + "tensor", d.tensor(vc, tuple(range(n))), M)
        after = [(p.sparse, p.shift) if hasattr(p, "shift") else p.sparse for p in prims(dense)]
        h.true("the argument is unchanged", flags == after)

    return run


def array_body(n):
    def run(h):
        psi = h.cstate("psi", n)
        vals = np.where(np.arange(2**n) % 2 == 0, 0.5, 0).reshape((2,) * n).astype(complex)
        s = to_sparse(jnp.asarray(vals))
        h.true("type", isinstance(s, BCOO))
        h.check("values", to_dense(s), h.const(vals))
        S, spec = sparse_state(h, n)
        h.check("to_dense", to_dense(S), spec)
        h.check("there and back", to_dense(to_sparse(psi.code)), psi.spec)

    return run


def shifted_body(cls):
    def run(h):
        s = 0.37
        fn = getattr(P, cls)
        x = fn("a", 0)
        x = type(x)(generator_name=x.generator_name, target=0, control=(None,), param="a", shift=s)
        p = h.angle("a")
        want = ref.gate(h, cls, p.spec.add(h.const(s)))
        for nm, o in (("to_sparse", to_sparse(x)), ("to_dense", to_dense(x))):
            same_structure(h, nm + ":", x, o, nm == "to_sparse")
            h.check(nm, o.tensor({"a": p.code}), want)

    return run


def series_body(variants):
    """Lookalikes converted one after the other, in an order the solver chooses: each keeps its own parts."""

    def run(h):
        for r in range(2):
            k = int(SymInt(h, f"i{r}", 0, len(variants) - 1))
            for sparse in (False, True):
                x = variants[k](sparse)
                same_structure(h, f"{r} to_sparse:", x, to_sparse(x), True)
                same_structure(h, f"{r} to_dense:", x, to_dense(x), False)
        vc = {k: h.angle(k).code for k in ("a", "b")}
        for nm in ("dense", "sparse"):
            y = (to_dense if nm == "dense" else to_sparse)(variants[k](False))
            if getattr(y, "noise", None) is None:
                h.check(nm, y.tensor(vc, (0, 1)), h.value(variants[k](False).tensor(vc, (0, 1))))

    return run


def variants():
    """Families of operations which print alike, or differ in one part only."""
    N = lambda *ps: tuple(DigitalNoiseInstance(DigitalNoiseType(k), p) for k, p in ps)
    bf, bf3, pf = ("BitFlip", 0.2), ("BitFlip", 0.3), ("PhaseFlip", 0.2)
    noises = [None, N(bf), N(bf3), N(pf), N(bf, pf), N(pf, bf)]
    shifted = lambda p, s: (lambda sp: (lambda x: type(x)(x.generator_name, 0, (None,), param=x.param, sparse=sp, shift=s))(P.RX(p, 0)))
    return {
        "noise of RX": [lambda sp, n=n: P.RX("a", 0, noise=n, sparse=sp) for n in noises],
        "noise of PHASE": [lambda sp, n=n: P.PHASE("a", 0, 1, noise=n, sparse=sp) for n in noises[:4]],
        "noise of X": [lambda sp, n=n: P.X(0, noise=n, sparse=sp) for n in noises],
        "noise of SWAP": [lambda sp, n=n: P.SWAP((0, 1), noise=n, sparse=sp) for n in noises[:3]],
        "shifts": [shifted("a", 0.0), shifted("a", 0.5), shifted("b", 0.5), shifted(0.5, 0.0), shifted(0.0, 0.5), shifted("a", 0.5 + 1e-9)],
        "angles": [lambda sp, a=a: P.RY(a, 0, sparse=sp) for a in (0.1, 0.1 + 1e-9, 1, 1.0000001, -0.1, "a", 0.0)],
        "rotations": [lambda sp, f=f: f("a", 0, sparse=sp) for f in (P.RX, P.RY, P.RZ, P.PHASE)],
        "fixed": [lambda sp, f=f: f(0, sparse=sp) for f in (P.X, P.Y, P.Z, P.H, P.S, P.T, P.I)],
        "pairs": [lambda sp, f=f: f((0, 1), sparse=sp) for f in (P.SWAP, P.ISWAP, P.SQRTSWAP, P.ISQRTSWAP)],
        "qubits": [lambda sp, q=q: P.X(*q, sparse=sp) for q in ((0,), (1,), (0, 1), (1, 0))],
        "rotated qubits": [lambda sp, q=q: P.RZ("a", *q, sparse=sp) for q in ((0,), (1,), (0, 1), (1, 0))],
        "swapped": [lambda sp, q=q: P.ISWAP(q, sparse=sp) for q in ((0, 1), (1, 0))],
        "sums": [lambda sp, c=c: c([P.X(0, sparse=sp), P.Z(1, sparse=sp)]) for c in (Add, OpSequence, Observable)],
        "factors": [lambda sp, w=w: Scale(P.X(0, sparse=sp), w) for w in (2.0, 2, "a", "b", 2.0000001, -2.0)],
        "registers": [lambda sp, f=f: QuantumCircuit(2, [P.RX("a", 0, sparse=sp), P.RY("b", 1, sparse=sp)], f) for f in ([], ["a"], ["b"], ["a", "b"])],
    }


def circuit_of(gates, n, fparams):
    return lambda sparse: QuantumCircuit(n, [build(x, sparse) for x in gates], list(fparams))


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(1313)
    out = []
    ex = lambda e: (lambda sparse: build_expr(e, sparse))
    for x in [g(k, 0, p="a" if k in PAR else None) for k in ONE + PAR]:
        out.append(Harness(f"gate:{x.label()}", conv_body(ex(x), x, 1), cost=4))
    for x in [g(k, (1, 0)) for k in TWO] + [g("X", 1, 0), g("RY", 0, 1, p="b"), g("PHASE", 1, 0, p="b"), g("RZ", 1, p=0.7), g("PHASE", 0, p=-1.3)]:
        out.append(Harness(f"gate:{x.label()}", conv_body(ex(x), x, 2), cost=6))
    out.append(Harness("gate:RXc2", conv_body(ex(g("RX", 1, (2, 0), p="b")), g("RX", 1, (2, 0), p="b"), 3), cost=12))
    for kind, pr in (("BitFlip", 0.2), ("AmplitudeDamping", 0.3), ("PauliChannel", (0.1, 0.2, 0.3))):
        for x in (g("X", 0, noise=((kind, pr),)), g("RY", 1, 0, p="a", noise=((kind, pr),)), g("PHASE", 0, p="a", noise=((kind, pr),))):
            out.append(Harness(f"noisy:{x.label()}", conv_body(ex(x), x, len(x.qubits), True), cost=8))
    exprs = [
        (("seq", [g("X", 0), g("RY", 1, p="a")]), 2),
        (("scale", "w", g("Y", 0)), 1), (("scale", 2.5, ("seq", [g("X", 1), g("Z", 0)])), 2),
        (("scale", "w", ("seq", [g("RX", 0, p="a"), g("Z", 0), g("H", 0)])), 1),
        (("add", [g("X", 0), g("RZ", 1, 0, p="a")]), 2),
        (("add", [("scale", "w", g("X", 0)), ("scale", -1.5, ("seq", [g("Y", 0), g("Z", 1)]))]), 2),
        (("seq", [("seq", [g("H", 0), g("X", 1, 0)]), ("seq", [g("RX", 1, p="a")])]), 2),
        (("seq", [g("H", 0), ("scale", "w", g("Z", 0))]), 1),
        (("obs", [("scale", "w", g("X", 1)), g("Z", 0)]), 2), (("obs", [("seq", [g("X", 0), g("Y", 1)])]), 2),
        (("scale", "w", ("scale", 2.0, g("X", 0))), 1), (("scale", "w", ("add", [g("X", 0), g("Z", 0)])), 1),
    ]
    for e, n in exprs:
        out.append(Harness(f"composed:{expr_label(e)}", conv_body(ex(e), e, n), limit=200, cost=15))
    for k in range(6 if not big else 30):
        n = 1 + k % 2
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        out.append(Harness(f"circuit:{label(gs)}:{k}", conv_body(circuit_of(gs, n, ("a",) if k % 2 else ()), ("seq", gs), n), limit=300, cost=20))
    for k in range(4 if not big else 20):
        n = 2 + k % 2
        gs = local_circuit(rng, n, 5 if not big else 8, pnames=("a", "b"))
        out.append(Harness(f"local:{label(gs)}:{k}", conv_body(circuit_of(gs, n, ("b",) if k % 2 else ()), ("seq", gs), n), limit=300, cost=60))
    for k, ns in enumerate(NAMES if big else NAMES[:5]):
        gs = renamed([g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("PHASE", 0, p="c"), g("RZ", 1, p="a")], ns)
        out.append(Harness(f"names:{ns}", conv_body(circuit_of(gs, 2, ns[k % 3:]), ("seq", gs), 2), limit=300, cost=30))
        e = ("add", [("scale", ns[0], g("X", 0)), ("scale", ns[1], ("seq", [g("Z", 0), ("scale", ns[2], g("Y", 1))]))])
        out.append(Harness(f"names:{expr_label(e)}", conv_body(ex(e), e, 2), limit=300, cost=30))
    for nm, vs in variants().items():
        out.append(Harness(f"series:{nm}", series_body(vs), limit=300, cost=20))
    for nm, gs, n in lookalike_circuits():
        gs = gs[:5] if n == 3 else gs
        out.append(Harness(f"lookalikes:{nm}", conv_body(circuit_of(gs, n, ()), ("seq", gs), n), limit=300, cost=60))
    for nm, ts in lookalike_terms():
        out.append(Harness(f"lookalikes:{nm}:add", conv_body(ex(("add", ts)), ("add", ts), 2), limit=300, cost=40))
    for n, m, cnt in ((4, 4, 2),) if not big else ((4, 5, 10), (5, 4, 6)):
        for k in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            out.append(Harness(f"large:{label(gs)}:{k}", few(3, conv_body(circuit_of(gs, n, ()), ("seq", gs), n)), limit=600, cost=100))
    gs = [g("RX", 0, p="x"), g("RY", 1, p="y"), g("X", 1, 0)]
    out.append(Harness("circuit:feature parameters", conv_body(circuit_of(gs, 2, ("x",)), ("seq", gs), 2), limit=200, cost=20))
    out.append(Harness("circuit:spare qubit", conv_body(circuit_of(gs[:1], 2, ("x", "z")), ("seq", gs[:1]), 2), limit=200, cost=20))
    for c in PAR:
        out.append(Harness(f"shift:{c}", shifted_body(c), cost=3))
    for n in (1, 2):
        out.append(Harness(f"array:{n}", array_body(n), cost=3))
    return uniq(out)
