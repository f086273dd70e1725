"""C24: operations report their qubits, their spectrum and their equality truthfully."""
from engine.symint import SymInt

from .common import *


# ---------------------------------------------------------------------------- support
def distinct(h, qs):
    for k in range(len(qs)):
        for j in range(k):
            d = qs[k].spec().add(qs[j].spec(), -1.0)
            h.assume("gt", d.mul(d))


def support_body(name, nt, nc, n, sparse, low=0):
    """Every placement of the targets and controls at once."""

    def body(h):
        qs = [SymInt(h, f"q{k}", low, n - 1) for k in range(nt + nc)]
        distinct(h, qs)
        x = G(name, tuple(qs[:nt]), tuple(qs[nt:]), "a" if name in PAR else None)
        op = build(x, sparse)
        sup = op.qubit_support
        h.true("support", sorted(map(int, sup)) == sorted(map(int, qs)) and list(map(int, sup)) == sorted(map(int, sup)), f"{sup}")
        h.true("number of qubits", op.n_qubits == nt + nc, f"{op.n_qubits}")
        h.true("a control is announced", op.name.startswith("C") == (nc > 0), op.name)
        h.true("parametric", op.is_parametric == (name in PAR))
        h.true("iterates over itself", [y is op for y in op] == [True])
        if sparse or low:
            return
        # it leaves every other qubit alone: an operator there commutes with it
        psi = h.cstate("psi", n)
        V = h.carray("V", (2, 2))
        va = h.angle("a")
        vc = {"a": va.code} if name in PAR else {}
        used = set(map(int, op.qubit_support))
        for q in range(n):
            if q in used:
                continue
            first = op(apply_operator(psi.code, V.code, (q,), (None,)), vc)
            second = apply_operator(op(psi.code, vc), V.code, (q,), (None,))
            h.check(f"commutes with operators on qubit {q}", first, h.value(second))

    return body


def composed_body(kind, shapes, n, low=0):
    """The support of a composition is the union of its parts' for all placements."""

    def body(h):
        ops, all_ = [], []
        for i, (name, nt, nc) in enumerate(shapes):
            qs = [SymInt(h, f"q{i}_{k}", low, n - 1) for k in range(nt + nc)]
            distinct(h, qs)
            ops.append(build(G(name, tuple(qs[:nt]), tuple(qs[nt:]), f"p{i}" if name in PAR else None)))
            all_ += qs
        mk = {"seq": OpSequence, "add": Add, "obs": Observable, "scale": lambda o: Scale(OpSequence(o), "w"), "circuit": lambda o: QuantumCircuit(n, o),
              "nested": lambda o: OpSequence([o[0], Add([Scale(x, 2.0) for x in o[1:]])])}[kind]
        c = mk(ops)
        sup = tuple(map(int, c.qubit_support))
        h.true("support", sup == tuple(sorted(set(map(int, all_)))), f"{sup} for {all_}")
        h.true("parameters", c.param_names == {f"p{i}" for i, s in enumerate(shapes) if s[0] in PAR}, f"{c.param_names}")

    return body


# ---------------------------------------------------------------------------- spectrum
def spectrum_body(x, sparse):
    """e^{-i theta lambda / 2} are the eigenvalues of the gate's matrix, with multiplicity, at every angle."""

    def body(h):
        vc, vs = values(h, [x])
        op = build(x, sparse)
        lam = [float(np.real(v)) for v in np.ravel(np.asarray(op.eigenvals_generator))]
        d = 2 ** len(x.qubits)
        h.true("as many eigenvalues as the matrix has", len(lam) == d, f"{lam}")
        M = h.value(op.tensor(vc))
        th = theta(h, x, vs)
        e = lambda l: SA.from_polys(h.V, [h.session.eipoly({m: -l / 2 * k for m, k in ref.poly(th).items()})], ())
        eye = h.const(np.eye(d))
        prod, tr = eye, h.const(0.0)
        for l in sorted({round(v, 9) for v in lam}):
            prod = ref.matmul(M.add(eye.mul(e(l)), -1.0), prod)
        h.check("the eigenvalues are all of them", prod, h.const(np.zeros((d, d))))
        # multiplicities: traces of the first powers
        P_ = eye
        for k in range(1, min(d, 4) + 1):
            P_ = ref.matmul(M, P_)
            tr = h.const(0.0)
            for i in range(d):
                tr = tr.add(P_.take(i * d + i))
            want = h.const(0.0)
            for l in lam:
                want = want.add(e(k * l))
            h.check(f"trace of power {k}", tr, want)

    return body


def gap_body(x, n):
    """The gap a gate reports makes the two-term rule exact for every state and observable."""

    def body(h):
        vc, vs = values(h, [x])
        op = build(x)
        gap = float(np.ravel(np.asarray(op.spectral_gap))[0])
        h.true("one gap", np.size(op.spectral_gap) == 1)
        rho = h.hermitian("rho", 2**n).spec
        O = h.hermitian("O", 2**n).code
        s = np.pi / 2
        Oh = h.value(O)

        def f(v):
            M = h.value(op.tensor({"a": v}, tuple(range(n))))
            return ref.expval_dm(ref.conjugate_by(M, rho), Oh)

        up, dn = f(vc["a"] + s), f(vc["a"] - s)
        th = theta(h, x, vs)
        U, d1 = full(h, x, n, vs), ref.dgate(h, x.name, th)
        # the derivative acts where the controls are 1 and vanishes elsewhere
        dU = ref.opmatrix(h, n, d1, x.t, x.c).add(ref.opmatrix(h, n, h.const(np.zeros((2, 2))), x.t, x.c), -1.0)
        A = ref.matmul(dU, ref.matmul(rho, ref.dag(U)))
        want = ref.expval_dm(A.add(ref.dag(A)), Oh)
        h.check("derivative", up.add(dn, -1.0).mul(h.const(gap / (4 * np.sin(gap * s / 2)))), want)

    return body


# ---------------------------------------------------------------------------- equality
def gate_equality_body(na, nb, nt, nc, n):
    """Gates which compare equal act equally; equally built gates compare equal."""

    def body(h):
        def mk(tag, name, pname):
            qs = [SymInt(h, f"{tag}{k}", 0, n - 1) for k in range(nt + nc)]
            distinct(h, qs)
            return G(name, tuple(qs[:nt]), tuple(qs[nt:]), pname if name in PAR else None)

        x, y = mk("q", na, "a"), mk("r", nb, "a")
        A, B = build(x), build(y)
        h.true("equal to a gate built the same", build(x) == A and not (build(x) != A))
        vc, vs = values(h, [x, y])
        if A == B:
            h.true("not different", not (A != B))
            h.check("same support", h.const(np.array([*A.qubit_support])), h.const(np.array([*B.qubit_support])))
            fs = tuple(range(n))
            h.check("same matrix", A.tensor(vc, fs), h.value(B.tensor(vc, fs)))
        else:
            same = na == nb
            t1, t2 = tuple(map(int, x.t)), tuple(map(int, y.t))
            c1, c2 = tuple(map(int, x.c)), tuple(map(int, y.c))
            h.true("different only if a part is", not (same and t1 == t2 and c1 == c2))

    return body


def parts_body(make, parts, n):
    """make(number) builds an operation holding a symbolic integer: equal exactly when it is."""

    def body(h):
        i, j = SymInt(h, "i", -2, 2), SymInt(h, "j", -2, 2)
        A, B = make(i), make(j)
        eq = A == B
        d = i.spec().add(j.spec(), -1.0)
        h.check("equal exactly when the parts are", h.const(float(bool(eq))), h.cond("eq", d), 0.5)
        h.check("unequal exactly when they are not", h.const(float(bool(A != B))), h.const(1.0).add(h.cond("eq", d), -1.0), 0.5)
        if eq and parts == "acts":
            vc = {k: h.angle(k).code for k in ("a", "w")}
            psi = h.cstate("psi", n)
            h.check("same action", A(psi.code, vc), h.value(B(psi.code, vc)))

    return body


def lookalike_body(make, k, cases):
    """Pairs chosen by symbolic integers from lookalikes: equal exactly on the diagonal, and then with equal matrices."""

    def body(h):
        i, j = SymInt(h, "i", 0, len(cases) - 1), SymInt(h, "j", 0, len(cases) - 1)
        A, B = make(cases[int(i)]), make(cases[int(j)])
        same = cases[int(i)] == cases[int(j)]
        h.true("equal exactly when built from the same parts", bool(A == B) == same and bool(A != B) == (not same), f"{A} and {B}")

    return body


def harnesses(tier):
    big = tier == "thorough"
    out = []
    add = lambda nm, b, **k: out.append(Harness(nm, b, **k))
    top = 3 if not big else 4
    for name in ONE + PAR:
        for nc in range(top):
            if nc and not big and name in ("I", "S", "T", "Z"):
                continue
            add(f"support:{name}:{nc}c/{top}q", support_body(name, 1, nc, top, False), limit=400, cost=4.0**(nc + 1) * 3)
    for name in TWO:
        for nc in range(top - 1):
            add(f"support:{name}:{nc}c/{top}q", support_body(name, 2, nc, top, False), limit=400, cost=4.0**(nc + 2) * 3)
    for name, nt, nc in (("X", 1, 0), ("RY", 1, 2), ("PHASE", 1, 1), ("SWAP", 2, 1), ("Z", 1, 3)):
        add(f"support:sparse:{name}:{nc}c", support_body(name, nt, nc, 4, True), limit=400, cost=30)
    add("support:X:3c/5q", support_body("X", 1, 3, 5, True), limit=400, cost=40)
    shapes = [[("X", 1, 0), ("RY", 1, 0)], [("X", 1, 1), ("SWAP", 2, 0)], [("RX", 1, 1), ("Z", 1, 0), ("PHASE", 1, 0)]]
    for kind in ("seq", "add", "obs", "scale", "circuit", "nested"):
        for s in shapes[: 3 if big or kind in ("seq", "circuit") else 2]:
            add(f"support:{kind}:{'+'.join(f'{a}{b}{c}' for a, b, c in s)}", composed_body(kind, s, 3), limit=400, cost=40)
    # indices with one and with two or three digits
    for low, n in ((8, 12), (98, 102)) if big else ((8, 12), (98, 101)):
        for name, nt, nc in (("X", 1, 1), ("RZ", 1, 2), ("SWAP", 2, 0), ("ISWAP", 2, 1), ("H", 1, 0)):
            add(f"support:{name}:{nc}c/{low}-{n - 1}", support_body(name, nt, nc, n, nc == 1, low), limit=400, cost=20)
        for kind in ("seq", "add", "obs", "scale", "circuit", "nested"):
            add(f"support:{kind}:{low}-{n - 1}", composed_body(kind, shapes[2 if big else 0], n, low), limit=400, cost=40)
    # spectrum
    for name in PAR:
        for t, c in ((0, ()), (0, (1,)), (2, (0, 1)), (1, (2, 0))) + (((0, (1, 2, 3)),) if big else ()):
            for sp in (False, True):
                add(f"spectrum:{'sparse:' if sp else ''}{g(name, t, c, p='a').label()}", spectrum_body(g(name, t, c, p="a"), sp), cost=4.0 ** (1 + len(c)))
        add(f"spectrum:shifted:{name}", spectrum_body(g(name, 0, p="a", shift=0.7), False), cost=4)
        add(f"gap:{name}", gap_body(g(name, 0, p="a"), 1), cost=8)
        add(f"gap:{name}/2q", gap_body(g(name, 1, p="a"), 2), cost=40)
    for c in ((0,), (0, 2)):
        add(f"gap:PHASE1c{c}".replace(" ", ""), gap_body(g("PHASE", 1, c, p="a"), 1 + max(1, *c) if c else 1), cost=100)
    # equality
    for na, nb in (("X", "X"), ("X", "Y"), ("RX", "RX"), ("RX", "RY"), ("RZ", "PHASE"), ("S", "T")):
        for nc in (0, 1):
            add(f"equality:{na}:{nb}:{nc}c", gate_equality_body(na, nb, 1, nc, 2 + nc), limit=600, cost=60)
    add("equality:X:X:2c", gate_equality_body("X", "X", 1, 2, 3), limit=800, cost=80)
    for na, nb in (("SWAP", "SWAP"), ("ISWAP", "SWAP")):
        add(f"equality:{na}:{nb}", gate_equality_body(na, nb, 2, 0, 3), limit=600, cost=60)
    one = lambda: P.X(0)
    makes = {
        "scale factor": lambda i: Scale(one(), i), "scale of a sum": lambda i: Scale(Add([one(), P.Z(1)]), i),
        "sum of scaled": lambda i: Add([one(), Scale(P.Z(1), i)]), "observable": lambda i: Observable([Scale(P.Z(1), i), one()]),
        "sequence of scaled": lambda i: OpSequence([P.Y(0), Scale(one(), i)]), "circuit of scaled": lambda i: QuantumCircuit(2, [P.H(0), Scale(P.Z(1), i)]),
        "nested": lambda i: Scale(OpSequence([Scale(one(), i), P.Z(1)]), "w"),
        "angle": lambda i: P.RX(i, 0), "controlled angle": lambda i: P.PHASE(i, 0, 1), "sequence of angles": lambda i: OpSequence([P.RY(i, 0), P.RX("a", 1)]),
    }
    for k, m in makes.items():
        acts = "no" if k == "observable" else "acts"
        add(f"equality:{k}", parts_body(m, acts, 2), limit=400, cost=30)
    makes = {
        "register": lambda i: QuantumCircuit(i, [one()]), "error probability": lambda i: DigitalNoiseInstance(DigitalNoiseType.BITFLIP, i),
        "noisy gate": lambda i: P.X(0, noise=(DigitalNoiseInstance(DigitalNoiseType.BITFLIP, i),)),
        "second channel": lambda i: P.X(0, noise=(DigitalNoiseInstance(DigitalNoiseType.BITFLIP, 0.1), DigitalNoiseInstance(DigitalNoiseType.PAULI_CHANNEL, (0.1, i, 0.2)))),
    }
    for k, m in makes.items():
        add(f"equality:{k}", parts_body(m, "no", 2), limit=400, cost=5)
    c = lambda f: QuantumCircuit(2, [P.RX("a", 0), P.RY("b", 1)], f)
    add("equality:feature parameters", lookalike_body(c, 0, [[], ["a"], ["b"], ["a", "b"]]), cost=5)
    add("equality:parameter names", lookalike_body(lambda s: P.RX(s, 0), 0, ["a", "b", "", "ab"]), cost=5)
    add("equality:factor names", lookalike_body(lambda s: Scale(P.X(0), s), 0, ["a", "b", 1.0, 2.0]), cost=5)
    add("equality:noise types", lookalike_body(lambda t: P.X(0, noise=None if t is None else (DigitalNoiseInstance(DigitalNoiseType(t), 0.1),)), 0,
                                                [None, "BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping"]), cost=5)
    kinds = {"seq": OpSequence, "add": Add, "obs": Observable, "scale": lambda o: Scale(OpSequence(o), 1.0), "circuit": lambda o: QuantumCircuit(2, o)}
    add("equality:kinds", lookalike_body(lambda k: kinds[k]([P.X(0), P.Z(1)]), 0, list(kinds)), cost=5)
    orders = [("X0", "Z1"), ("Z1", "X0"), ("X0",), ("X0", "Z1", "Z1"), ()]
    tok = {"X0": lambda: P.X(0), "Z1": lambda: P.Z(1)}
    for k, m in kinds.items():
        add(f"equality:order:{k}", lookalike_body(lambda o, m=m: m([tok[t]() for t in o]), 0, orders), cost=5)
    add("equality:sparse", lookalike_body(lambda s: P.RX("a", 0, sparse=s), 0, [False, True]), cost=5)
    return uniq(out)
