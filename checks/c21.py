"""C21: Hamiltonian evolution applies exp(-i H t) to its qubits."""
from .common import *

NAMES = ("hamiltonian", "time_evolution")
def evo(t, c=()):
    return HamiltonianEvolution(t, c) if c else HamiltonianEvolution(t)


def hamiltonian(h, d, kind, tag="H"):
    if kind == "any":
        return h.carray(tag, (d, d))
    if kind == "diagonal":
        v = h.rarray(tag, (d,))
        e = np.zeros((d, d, d))
        for i in range(d):
            e[i, i, i] = 1
        sa = v.spec.dot(h.const(e.astype(complex)), "a,abc->bc")
        return h.derived(sa)
    if kind == "hermitian":
        return h.hermitian(tag, d)
    m = pauli_sum(kind)
    p = type("P", (), {})()
    p.code, p.spec = jnp.asarray(m), h.const(m)
    return p


def propagator(h, H, t):
    return expm.spec(h, H.mul(t).mul(h.const(-1j)))


def act_body(n, t, c, kind, how):
    def body(h):
        psi = h.cstate("psi", n)
        H = hamiltonian(h, 2 ** len(t), kind)
        tm = h.real("t", -4, 4)
        v = {"time_evolution": tm.code, "hamiltonian": H.code, "other": h.real("other").code}
        op = evo(t, c)
        want = ref.apply(psi.spec, propagator(h, H.spec, tm.spec), t, c)
        if how == "call":
            out = op(psi.code, v)
        elif how == "jit":
            out = jax.jit(apply_gates)(psi.code, op, v)
        else:
            out = hq.run(QuantumCircuit(n, [op]), psi.code, v)
        h.check("state", out, want)

    return body


def dm_body(n, t, c, kind):
    def body(h):
        rho, spec = dm_code(h, "rho", n)
        H = hamiltonian(h, 2 ** len(t), kind)
        tm = h.real("t", -4, 4)
        out = hq.run(QuantumCircuit(n, [evo(t, c)]), rho, {"hamiltonian": H.code, "time_evolution": tm.code})
        U = ref.opmatrix(h, n, propagator(h, H.spec, tm.spec), t, c)
        h.check("density matrix", as_matrix(h, out, n), ref.conjugate_by(U, spec))

    return body


def mixed_body(n, before, t, after, kind):
    """Among gates: the evolution uses its own values only."""

    def body(h):
        psi = h.cstate("psi", n)
        H = hamiltonian(h, 2 ** len(t), kind)
        tm = h.real("t", -4, 4)
        vc, vs = values(h, before + after)
        vc.update(hamiltonian=H.code, time_evolution=tm.code)
        qc = QuantumCircuit(n, [build(x) for x in before] + [evo(t)] + [build(x) for x in after])
        s = act_all(h, before, psi.spec, vs)
        s = ref.apply(s, propagator(h, H.spec, tm.spec), t)
        h.check("state", hq.run(qc, psi.code, vc), act_all(h, after, s, vs))

    return body


def sequence_body(n, items, k, kind, how, dm=False):
    """Several evolutions under one Hamiltonian on k qubits and gates, run in every way a circuit can be run.
    items: gates, and (targets, controls) for evolutions."""

    def body(h):
        gates = [x for x in items if isinstance(x, G)]
        H = hamiltonian(h, 2**k, kind)
        tm = h.real("t", -4, 4)
        vc, vs = values(h, gates)
        vc.update(hamiltonian=H.code, time_evolution=tm.code)
        if dm:
            state, spec = dm_code(h, "rho", n)
        else:
            psi = h.cstate("psi", n)
            state, spec = psi.code, psi.spec
        E = propagator(h, H.spec, tm.spec)
        for x in items:
            if dm:
                U = full(h, x, n, vs) if isinstance(x, G) else ref.opmatrix(h, n, E, *x)
                spec = ref.conjugate_by(U, spec)
            else:
                spec = act(h, x, spec, vs) if isinstance(x, G) else ref.apply(spec, E, *x)
        ops = [build(x) if isinstance(x, G) else evo(*x) for x in items]
        j = len(ops) // 2
        out = {
            "run": lambda: hq.run(QuantumCircuit(n, ops), state, vc), "merge": lambda: apply_gates(state, ops, vc),
            "plain": lambda: apply_gates(state, ops, vc, merge_ops=False), "group": lambda: apply_gates(state, ops, vc, group_gates=True),
            "nested": lambda: OpSequence([OpSequence(ops[:j]), QuantumCircuit(n, ops[j:])])(state, vc),
            "jit": lambda: jax.jit(lambda s, v: QuantumCircuit(n, ops)(s, v))(state, vc),
        }[how]()
        h.check("state", as_matrix(h, out, n) if dm else out, spec)

    return body


def sequences(rng, counts, hows=("merge", "run", "plain", "group", "nested", "jit")):
    """Seeded lists of evolutions and gates, with evolutions next to each other on the same qubits in other orders."""
    i = 0
    for n, k, m, cnt in counts:
        for _ in range(cnt):
            items, qs = [], rng.sample(range(n), k)
            for _ in range(m):
                r = rng.random()
                if r < 0.35:
                    items.append(random_gate(rng, n, maxc=1, pnames=("a", "b")))
                    continue
                if r < 0.6 or not items:
                    qs = rng.sample(range(n), k)
                else:
                    rng.shuffle(qs)
                rest = [q for q in range(n) if q not in qs]
                items.append((tuple(qs), tuple(rng.sample(rest, 1)) if rest and rng.random() < 0.3 else ()))
            yield n, k, items, hows[i % len(hows)], i % 7 == 6
            i += 1


def items_label(items):
    return ",".join(x.label() if isinstance(x, G) else "evo" + "".join(map(str, x[0])) + ("c" + "".join(map(str, x[1])) if x[1] else "") for x in items)


def again_body(n, t, c, what, how):
    """One evolution used with other Hamiltonians and times, one after the other."""

    def body(h):
        psi = h.cstate("psi", n)
        Hs = [hamiltonian(h, 2 ** len(t), "hermitian", f"H{i}") for i in range(2)]
        ts = [h.real(f"t{i}", -4, 4) for i in range(2)]
        op = evo(t, c)
        qc = QuantumCircuit(n, [op])
        f = {"op": lambda s, v: op(s, v), "circuit": lambda s, v: hq.run(qc, s, v), "tensor": lambda s, v: op.tensor(v),
             "jit": jax.jit(lambda s, v: qc(s, v))}[how]
        v = {}
        for i, j in {"hamiltonian": ((0, 0), (1, 0), (0, 0)), "time": ((0, 0), (0, 1), (0, 0)), "both": ((0, 0), (1, 1), (0, 1))}[what]:
            v.update(hamiltonian=Hs[i].code, time_evolution=ts[j].code)  # the caller's dictionary is updated in place
            E = propagator(h, Hs[i].spec, ts[j].spec)
            if how == "tensor":
                sup = sorted(t + c)
                want = ref.opmatrix(h, len(sup), E, tuple(map(sup.index, t)), tuple(map(sup.index, c)))
            else:
                want = ref.apply(psi.spec, E, t, c)
            h.check(f"Hamiltonian {i}, time {j}", f(psi.code, v), want)

    return body


def zero_body(n, t, c):
    def body(h):
        psi = h.cstate("psi", n)
        H = hamiltonian(h, 2 ** len(t), "any")
        out = evo(t, c)(psi.code, {"hamiltonian": H.code, "time_evolution": 0.0})
        h.check("unchanged for no time", out, psi.spec)

    return body


def group_body(n, t, kind):
    """exp(-iHs) exp(-iHt) = exp(-iH(s+t))"""

    def body(h):
        psi = h.cstate("psi", n)
        H = hamiltonian(h, 2 ** len(t), kind)
        a, b = h.real("s", -4, 4), h.real("t", -4, 4)
        op = evo(t)
        two = op(op(psi.code, {"hamiltonian": H.code, "time_evolution": a.code}), {"hamiltonian": H.code, "time_evolution": b.code})
        h.check("times add up", two, ref.apply(psi.spec, propagator(h, H.spec, a.spec.add(b.spec)), t))

    return body


def norm_body(n, t, kind):
    def body(h):
        psi = h.cstate("psi", n)
        H = hamiltonian(h, 2 ** len(t), kind)
        a = h.real("t", -4, 4)
        out = h.value(evo(t)(psi.code, {"hamiltonian": H.code, "time_evolution": a.code}))
        h.check("norm", ref.inner(out, out), ref.inner(psi.spec, psi.spec))

    return body


def tensor_body(t, c, kind, full=None):
    def body(h):
        H = hamiltonian(h, 2 ** len(t), kind)
        a = h.real("t", -4, 4)
        op = evo(t, c)
        v = {"hamiltonian": H.code, "time_evolution": a.code}
        sup = tuple(sorted(full or (t + c)))
        m = op.tensor(v, full) if full else op.tensor(v)
        pos = {q: i for i, q in enumerate(sup)}
        want = ref.opmatrix(h, len(sup), propagator(h, H.spec, a.spec), tuple(pos[q] for q in t), tuple(pos[q] for q in c))
        h.check("matrix", m, want)

    return body


def vmap_body(n, t, kind, batch):
    def body(h):
        psi = h.cstate("psi", n)
        Hs = [hamiltonian(h, 2 ** len(t), kind, f"H{i}") for i in range(batch)]
        ts = [h.real(f"t{i}", -4, 4) for i in range(batch)]
        v = {"hamiltonian": jnp.stack([x.code for x in Hs]), "time_evolution": jnp.stack([x.code for x in ts])}
        out = jax.vmap(apply_gates, in_axes=(None, None, 0))(psi.code, evo(t), v)
        want = ref.stack([ref.apply(psi.spec, propagator(h, a.spec, b.spec), t) for a, b in zip(Hs, ts)])
        h.check("batch", out, want)

    return body


def missing_body(drop):
    def body(h):
        v = {"hamiltonian": hamiltonian(h, 2, "any").code, "time_evolution": h.real("t").code}
        del v[drop]
        h.raises("missing", Exception, lambda: evo((0,))(h.cstate("psi", 1).code, v), True)
        h.check("decided", h.const(0.0), h.const(0.0))

    return body


SKEW = [(1.0, "XZ")]
ISING = [(0.5, "ZZ"), (1.0, "XI"), (1.0, "IX")]


def harnesses(tier):
    big = tier == "thorough"
    out = []
    lab = lambda t, c=(): ("".join(map(str, t)) + ("c" + "".join(map(str, c)) if c else "")).replace(" ", "")
    hows = ("call", "run", "jit")
    i = 0
    for n in (1, 2, 3, 4):
        for k in (1, 2, 3):
            if k > n or (n == 4 and k == 3):
                continue
            for t in placements(n, k):
                if k == 3 and n == 3 and not big and t not in ((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)):
                    continue
                if n == 4 and not big and sum(t) % 2:
                    continue
                rest = [q for q in range(n) if q not in t]
                for nc in range(min(2, len(rest)) + 1):
                    for c in itertools.permutations(rest, nc):
                        if nc == 2 and (c[0] < c[1]) == bool(i % 2) and not big:
                            continue
                        kind = "any" if k < 3 else "hermitian"
                        out.append(Harness(f"act:{hows[i % 3]}:{lab(t, c)}/{n}q", act_body(n, t, c, kind, hows[i % 3]), cost=2.0 ** (n + k)))
                        i += 1
    for n, t, c in ((1, (0,), ()), (2, (1,), ()), (2, (0, 1), ()), (2, (1, 0), ()), (2, (1,), (0,)), (3, (2, 0), ()), (3, (0,), (2, 1))):
        out.append(Harness(f"dm:{lab(t, c)}/{n}q", dm_body(n, t, c, "hermitian"), cost=2.0 ** (2 * n)))
    for n, t, c in ((1, (0,), ()), (2, (1, 0), ()), (3, (1,), (0, 2)), (3, (2, 0), (1,))):
        out.append(Harness(f"no-time:{lab(t, c)}/{n}q", zero_body(n, t, c), cost=2.0**n))
    kinds = {"Z": [(1.0, "Z")], "X": [(1.0, "X")], "Y": [(0.5, "Y")], "XZ": [(1.0, "XZ")], "ZZ+IZ": [(1.0, "ZZ"), (0.5, "IZ")],
             "XX+YY": [(0.5, "XX"), (0.5, "YY")], "ZZZ": [(1.5, "ZZZ")]}
    for nm, terms in kinds.items():
        k = len(terms[0][1])
        for t in (tuple(range(k)), tuple(reversed(range(k)))) if k > 1 else ((0,), (1,)):
            n = max(k, max(t) + 1)
            out.append(Harness(f"times-add:{nm}:{lab(t)}", group_body(n, t, terms), cost=2.0 ** (n + 2)))
            out.append(Harness(f"norm:{nm}:{lab(t)}", norm_body(n, t, terms), cost=2.0 ** (n + 2)))
            out.append(Harness(f"act:{nm}:{lab(t)}", act_body(n, t, (), terms, "run"), cost=2.0 ** (n + 2)))
    for k, t in ((1, (0,)), (2, (0, 1)), (2, (1, 0)), (3, (2, 0, 1))):
        out.append(Harness(f"times-add:diagonal:{lab(t)}", group_body(k, t, "diagonal"), cost=2.0 ** (k + 2)))
        out.append(Harness(f"norm:diagonal:{lab(t)}", norm_body(k, t, "diagonal"), cost=2.0 ** (k + 2)))
    for n, pre, t, post in (
        (2, [g("RX", 0, p="a")], (1, 0), [g("X", 1, 0)]),
        (3, [g("H", 0), g("X", 2, 0)], (2, 1), [g("RZ", 1, p="a"), g("SWAP", (0, 2))]),
        (2, [], (1,), [g("RY", 1, 0, p="t")]),
    ):
        out.append(Harness(f"circuit:{label(pre)}|{lab(t)}|{label(post)}", mixed_body(n, pre, t, post, "any"), cost=20))
    rng = random.Random(2121)
    for k, items in ((2, [((0, 1), ()), ((1, 0), ())]), (2, [((1, 0), ()), ((0, 1), ()), ((0, 1), ())]), (2, [((0, 1), (2,)), ((1, 0), (2,))]),
                     (1, [((0,), (1,)), ((0,), (1,)), ((1,), (0,))]), (1, [((0,), ()), g("H", 0), ((0,), ()), ((1,), ())])):
        for how in ("merge", "group", "run", "nested"):
            n = 1 + max(q for x in items for q in (x.qubits if isinstance(x, G) else x[0] + x[1]))
            out.append(Harness(f"sequence:{how}:{items_label(items)}", sequence_body(n, items, k, "hermitian", how), cost=20))
    for n, k, items, how, dm in sequences(rng, ((2, 1, 5, 12), (2, 2, 4, 12), (3, 2, 4, 12)) if not big else ((2, 1, 7, 40), (2, 2, 4, 40), (3, 2, 4, 40), (3, 1, 6, 20))):
        out.append(Harness(f"sequence:{how}:{items_label(items)}/{'dm' if dm else 'sv'}{n}q", sequence_body(n, items, k, SKEW if k == 2 and dm else "hermitian", how, dm), limit=300, cost=60))
    for what in ("hamiltonian", "time", "both"):
        for how in ("op", "circuit", "tensor", "jit"):
            for n, t, c in ((1, (0,), ()), (2, (1, 0), ()), (2, (1,), (0,))):
                out.append(Harness(f"again:{what}:{how}:{lab(t, c)}", again_body(n, t, c, what, how), cost=10))
    for t, c, f in (((0,), (), None), ((0, 1), (), None), ((1, 0), (), None), ((1, 0), (), (0, 1, 2)), ((2, 0), (), None), ((2, 0), (), (2, 1, 0)),
                    ((0,), (1,), None), ((1,), (0,), (0, 1, 2)), ((2, 0), (1,), None), ((0, 2), (1,), (3, 2, 1, 0)), ((2, 0, 1), (), None)):
        out.append(Harness(f"tensor:{lab(t, c)}{'/' + lab(f) if f else ''}", tensor_body(t, c, "any" if len(t) < 3 else "hermitian", f), cost=20))
    for t in ((0,), (1, 0)):
        out.append(Harness(f"vmap:{lab(t)}", vmap_body(2, t, "any", 2), cost=30))
    for d in NAMES:
        out.append(Harness(f"missing:{d}", missing_body(d), cost=1))
    return uniq(out)
