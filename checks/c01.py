"""C01: applying a gate to a state vector is the action of its (controlled) matrix."""
from .common import *


def gate_body(gate, n, how):
    def body(h):
        psi = h.cstate("psi", n)
        vc, vs = values(h, [gate])
        op = build(gate)
        if how == "call":
            out = op(psi.code, vc)
        elif how == "apply_gates":
            out = apply_gates(psi.code, op, vc)
        else:
            out = hq.run(OpSequence([op]), psi.code, vc)
        h.check("state", out, act(h, gate, psi.spec, vs))

    return body


def op_body(n, t, c):
    """apply_operator with a symbolic operator: the action holds for every matrix."""

    def body(h):
        psi = h.cstate("psi", n)
        U = h.carray("U", (2 ** len(t),) * 2)
        out = apply_operator(psi.code, U.code, t, c or (None,))
        h.check("state", out, ref.apply(psi.spec, U.spec, t, c))

    return body


FORMS = {
    "tuple": lambda q: tuple(q), "numpy integers": lambda q: tuple(np.int64(k) for k in q), "numpy array": lambda q: np.array(q),
    "nested": lambda q: (tuple(q),), "int32": lambda q: np.array(q, dtype=np.int32), "single": lambda q: q[0], "numpy single": lambda q: np.int32(q[0]),
    "jax array": lambda q: jnp.array(q),
}


def form_body(x, n, tf, cf):
    """The accepted ways of writing indices mean the same."""

    def body(h):
        psi = h.cstate("psi", n)
        vc, vs = values(h, [x])
        fn = getattr(P, x.name)
        t, c = FORMS[tf](x.t), (FORMS[cf](x.c) if x.c else None)
        for ctl in ([c] if x.c else [None, (None,)]):
            op = fn(x.p, t, ctl) if x.name in PAR else fn(t, ctl)
            h.check("state", op(psi.code, vc), act(h, x, psi.spec, vs))
            h.check("state, in a list", apply_gates(psi.code, [op, op], vc), act_all(h, [x, x], psi.spec, vs))

    return body


def many_controls(rng, n, x):
    """The gate with all but one or two of the other qubits as controls."""
    rest = [q for q in range(n) if q not in x.t]
    rng.shuffle(rest)
    return replace(x, c=tuple(rest[: max(1, len(rest) - rng.choice([0, 1]))]))


def harnesses(tier):
    out = []

    def add(x, n, how="call"):
        out.append(Harness(f"{how}:{x.label()}/{n}q", gate_body(x, n, how), cost=2.0**n))

    big, deep = True, tier == "thorough"
    hows = ("call", "apply_gates", "run")
    i = 0
    # every gate at every position of a 3-qubit register, with every set and order of controls
    for name in ONE + PAR:
        p = "a" if name in PAR else None
        for n in (1, 2, 3):
            for t in range(n):
                rest = [q for q in range(n) if q != t]
                for k in range(len(rest) + 1):
                    for c in itertools.permutations(rest, k):
                        if not big and name in ("X", "Z", "S", "T", "RZ") and n < 3:
                            continue
                        if not big and name in ("I", "T", "S", "Z") and k == 2 and c[0] > c[1]:
                            continue
                        add(G(name, (t,), c, p), n, hows[i % 3])
                        i += 1
    for name in TWO:
        for n in (2, 3):
            for t in placements(n, 2):
                rest = [q for q in range(n) if q not in t]
                for k in range(len(rest) + 1):
                    add(G(name, t, tuple(rest[:k])), n, hows[i % 3])
                    i += 1
    # operators with symbolic entries: every gate of that shape at once
    for n in (2, 3):
        for nt in (1, 2, 3):
            for nc in (0, 1, 2):
                if nt + nc > n:
                    continue
                for qs in placements(n, nt + nc):
                    t, c = qs[:nt], qs[nt:]
                    if nt * nc > 2 or (not big and nt == 3 and qs[0] == 0):
                        continue
                    out.append(Harness(f"operator:t{t}c{c}/{n}q".replace(" ", ""), op_body(n, t, c), cost=2.0 ** (n + nt)))
    for n, t, c in ((4, (3,), (0, 2)), (4, (1, 3), (2,)), (4, (2, 0), ()), (4, (0,), (3, 1, 2)), (5, (2,), (4, 0, 1)),
                    (5, (4, 1), ()), (5, (3,), (1, 4)), (6, (5,), (0,)), (6, (2,), (5, 3))):
        out.append(Harness(f"operator:t{t}c{c}/{n}q".replace(" ", ""), op_body(n, t, c), cost=2.0 ** (n + 1)))
    for i, (tf, cf) in enumerate(itertools.product(FORMS, FORMS)):
        for x in (g("X", 1, 0), g("RY", 0, (2, 1), p="a"), g("SWAP", (2, 0), 1), g("SQRTSWAP", (1, 2)), g("PHASE", 2, p="a")):
            if ("single" in tf and len(x.t) > 1) or ("single" in cf and len(x.c) > 1) or (not x.c and cf != "tuple"):
                continue
            out.append(Harness(f"form:{x.label()}:{tf}:{cf}", form_body(x, 3, tf, cf), cost=8))
    rng = random.Random(101)
    if deep:
        for name in ("Y", "RX", "PHASE", "S", "SWAP", "ISQRTSWAP"):
            k = 2 if name in TWO else 1
            for nc in range(4):
                for qs in placements(4, min(k + nc, 4)):
                    x = G(name, qs[:k], qs[k:], "a" if name in PAR else None)
                    if f"call:{x.label()}/4q" not in {h.name for h in out}:
                        add(x, 4)
        for n, nt, nc in ((4, 1, 1), (4, 2, 0), (4, 2, 1), (4, 1, 2), (5, 1, 1), (5, 2, 0)):
            for t, c in {(qs[:nt], qs[nt:]) for qs in placements(n, nt + nc)}:
                nm = f"operator:t{t}c{c}/{n}q".replace(" ", "")
                if nm not in {h.name for h in out}:
                    out.append(Harness(nm, op_body(n, t, c), cost=2.0 ** (n + nt)))
    for n in (4, 5, 6, 7) + ((8, 9) if deep else ()):
        for i in range(60 if deep else 20):
            x = random_gate(rng, n, maxc=3)
            if i % 4 == 3:
                x = many_controls(rng, n, x)
            if f"call:{x.label()}/{n}q" not in {h.name for h in out}:
                add(x, n)
    for i in range(24 if not deep else 90):
        n = 1 + i % 3
        x = random_gate(rng, n, maxc=2)
        out.append(Harness(f"real:{x.label()}/{n}q:{hows[i % 3]}", reals(gate_body(x, n, hows[i % 3])), cost=8))
    # large registers, many controls: a few symbolic amplitudes
    for n in (8, 9, 10, 11, 12) + ((13, 14) if deep else ()):
        for i in range(24 if deep else 8):
            x = random_gate(rng, n, maxc=3)
            if i % 2:
                x = many_controls(rng, n, x)
            x = replace(x, c=x.c[:6])
            out.append(Harness(f"large:{x.label()}/{n}q", few(12, gate_body(x, n, hows[i % 3])), cost=2.0 ** (n - 3)))
        for nt, nc in ((1, 0), (2, 0), (1, 2), (3, 0), (2, 2)):
            qs = tuple(rng.sample(range(n), nt + nc))
            out.append(Harness(f"large operator:t{qs[:nt]}c{qs[nt:]}/{n}q".replace(" ", ""), few(6, op_body(n, qs[:nt], qs[nt:])), cost=2.0 ** (n - 3)))
    return uniq(out)
