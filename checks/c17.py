"""C17: sampling draws bitstrings with the Born probabilities of the evolved state."""
import collections

from .obs_common import *
from engine import stubs
from engine.symint import SymInt
from engine.sym import pmul


def born(h, gates, n, dm, vs, psi=None, rho=None):
    """Probability of every bitstring (unnormalised), qubit 0 first."""
    if dm:
        r = dm_evolve(h, gates, rho, n, vs)
        return [r.take(k * 2**n + k).real() for k in range(2**n)]
    phi = act_all(h, gates, psi, vs).reshape((-1,))
    return [phi.take(k).conj().mul(phi.take(k)).real() for k in range(2**n)]


def total(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t.add(x)
    return t


def inputs(h, gates, n, dm):
    vc, vs = values(h, gates)
    if not dm:
        psi = h.cstate("psi", n)
        if any(x.noise for x in gates):
            return psi.code, vc, born(h, gates, n, True, vs, rho=ref.outer(psi.spec))
        return psi.code, vc, born(h, gates, n, False, vs, psi.spec)
    # a mixture of two pure states: a positive matrix
    a, b = h.cstate("psi", n), h.cstate("phi", n)
    rho = ref.outer(a.spec).add(ref.outer(b.spec))
    code = DensityMatrix(density_mat(a.code).array + density_mat(b.code).array)
    return code, vc, born(h, gates, n, True, vs, rho=rho)


def shape_ok(h, c, n, shots):
    h.true("counter", isinstance(c, collections.Counter))
    h.true("keys", all(isinstance(k, str) and len(k) == n and set(k) <= set("01") for k in c), str(dict(c)))
    h.true("counts", all(isinstance(v, int) and v > 0 for v in c.values()), str(dict(c)))
    h.true("number of shots", sum(c.values()) == shots, f"{sum(c.values())} outcomes for {shots} shots")


def sym_body(gates, n, shots, dm):
    def run(h):
        state, vc, q = inputs(h, gates, n, dm)
        c = hq.sample(state, circuit(gates, n), vc, shots)
        shape_ok(h, c, n, shots)
        ev = h.session.events
        h.true("draws", sum(len(e["draws"]) for e in ev) == shots, "one draw per shot")
        h.true("independent keys", len({e["key"] for e in ev}) == len(ev), "two draws use the same key")
        # the probability of this outcome of the draws is the Born probability of the counted bitstrings
        tq = total(q)
        left = right = h.const(1.0)
        for e in ev:
            ps = [e["p"].take(k) for k in range(e["p"].shape[0])]
            tp = total(ps)
            for ids in e["draws"]:
                k = next(i for i, v in enumerate(ids) if h.session.asg[v] > 0.5)
                left = left.mul(ps[k]).mul(tq)
                right = right.mul(tp)
        for b, m in c.items():
            for _ in range(m):
                right = right.mul(q[int(b, 2)])
        h.check("probability", left, right)

    return run


def conc_body(gates, n, shots, dm, many=20000):
    """Frequencies of the real sampler (replay of a counterexample)."""

    def run(h):
        state, vc, q = inputs(h, gates, n, dm)
        w = np.array([float(x.eval(h.asg, {}).real) for x in q])
        if w.sum() < 1e-3:
            return
        w = w / w.sum()
        shape_ok(h, hq.sample(state, circuit(gates, n), vc, shots), n, shots)
        c = hq.sample(state, circuit(gates, n), vc, many)
        shape_ok(h, c, n, many)
        for k in range(2**n):
            f = c.get(format(k, f"0{n}b"), 0) / many
            s = np.sqrt(max(w[k] * (1 - w[k]), 1e-6) / many)
            h.true("frequency " + format(k, f"0{n}b"), abs(f - w[k]) < 7 * s + 1e-3, f"{f:.4f} where {w[k]:.4f} is required")

    return run


def many_body(gates, n, shots, dm):
    """Many shots: one seeded outcome of all draws; every draw has the Born distribution and its own key, and
    is counted once."""

    def run(h):
        h.one_path = True
        h.session.rng = random.Random(shots)
        state, vc, q = inputs(h, gates, n, dm)
        c = hq.sample(state, circuit(gates, n), vc, shots)
        shape_ok(h, c, n, shots)
        ev = h.session.events
        h.true("draws", sum(len(e["draws"]) for e in ev) == shots, "one draw per shot")
        h.true("independent keys", len({e["key"] for e in ev}) == len(ev), "two draws use the same key")
        tq = total(q)
        drawn = collections.Counter()
        left, right = [], []
        for e in ev:
            ps = [e["p"].take(k) for k in range(e["p"].shape[0])]
            rows = [e["a"].take(k) for k in range(e["p"].shape[0])]
            tp = total(ps)
            for ids in e["draws"]:
                k = next(i for i, v in enumerate(ids) if h.session.asg[v] > 0.5)
                drawn[format(int(rows[k].polys()[0].get((), 0).real), f"0{n}b")] += 1
            if len(left) < 40 * len(ps):  # the distribution of the first draws and of all distinct ones
                left += [p.mul(tq) for p in ps]
                right += [q[int(rows[k].polys()[0].get((), 0).real)].mul(tp) for k in range(len(ps))]
            else:
                h.true("one distribution", e["p"].polys() == ev[0]["p"].polys(), "the draws differ in their distribution")
        h.true("counted", dict(c) == dict(drawn), f"{dict(c)} where {dict(drawn)} was drawn")
        h.check("distribution", ref.stack(left), ref.stack(right))

    return run


def many_concrete(gates, n, shots, dm):
    """Dispersion of the real sampler: repeated draws show as too large deviations from the uniform distribution."""

    def run(h):
        m = 6
        c = hq.sample(hq.uniform_state(m), QuantumCircuit(m, []), {}, shots)
        shape_ok(h, c, m, shots)
        e = shots / 2**m
        chi = sum((c.get(format(k, f"0{m}b"), 0) - e) ** 2 / e for k in range(2**m))
        h.true("dispersion", chi < 2**m + 8 * np.sqrt(2.0 * 2**m), f"chi-square {chi:.0f} for {2**m} outcomes and {shots} shots")
        conc_body(gates, n, shots, dm)(h)

    return run


def refuse_body(n, dm):
    def run(h):
        k = SymInt(h, "n_shots", -3, 2)
        want = h.cond("gt", h.const(1.0).add(k.spec(), -1.0))
        st = hq.zero_state(n)
        h.raises("ValueError", ValueError, lambda: hq.sample(density_mat(st) if dm else st, circuit([g("X", 0)], n), {}, k), want)

    return run


def default_body(h):
    c = hq.sample(hq.zero_state(2), QuantumCircuit(2, [P.X(1)]))
    h.true("a thousand shots", dict(c) == {"01": 1000}, str(dict(c)))
    c = hq.sample(hq.product_state("100"), QuantumCircuit(3, [P.SWAP((0, 2))]), n_shots=7)
    h.true("bit order", dict(c) == {"001": 7}, str(dict(c)))
    h.check("decided", h.const(0.0), h.const(0.0))


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(1717)
    out = []

    def add(name, gates, n, shots, dm, **k):
        out.append(Harness(name, sym_body(gates, n, shots, dm), concrete_body=conc_body(gates, n, shots, dm),
                           sampler=("sym", None), limit=400, **k))

    for n in (1, 2, 3):
        add(f"state:{n}q", [], n, 1, False, cost=10.0 * n)
        add(f"bits:{n}q", [g("X", n - 1)], n, 1, False, cost=10.0 * n)
    for gs, n in (([evo(0)], 1), ([evo((1, 0))], 2), ([g("H", 0), evo((0, 1))], 2), ([evo(1, 0)], 2)):
        add(f"analog:{label(gs)}:{n}q", gs, n, 1, False, cost=20.0 * n)
    add("state:4q", [g("SWAP", (0, 3))], 4, 1, False, cost=200)
    add("state:1q:dm", [], 1, 1, True, cost=10)
    add("state:2q:dm", [g("X", 0)], 2, 1, True, cost=60)
    for shots in (2, 3) + ((4,) if big else ()):
        add(f"shots:{shots}:1q", [g("H", 0)], 1, shots, False, cost=30.0 * shots)
        add(f"shots:{shots}:1q:dm", [g("RX", 0, p="a")], 1, shots if shots < 3 else 2, True, cost=40.0 * shots)
    add("shots:2:2q", [], 2, 2, False, cost=200)
    for k in range(8 if not big else 24):
        n = 1 + k % 3
        gs = random_circuit(rng, n, 2 if n == 3 else 3, pnames=("a", "b"))
        dm = k % 4 == 1 and n < 3
        add(f"circuit:{label(gs)}/{'dm' if dm else 'sv'}{n}q:{k}", gs, n, 1, dm, cost=40)
    for kd, pr in (("BitFlip", 0.2), ("AmplitudeDamping", 0.3)):
        add(f"noise:{kd}", [g("H", 0, noise=((kd, pr),)), g("X", 1, 0)], 2, 1, False, cost=60)
    for shots, n, dm in ((300, 1, False), (60, 3, False), (270, 1, True)) + (((520, 1, False), (260, 2, False), (130, 2, True), (40, 4, False)) if big else ()):
        gs = [g("RX", 0, p="a"), g("X", n - 1, c=()) ] if n == 1 else [g("H", 0), g("X", n - 1, 0)]
        out.append(Harness(f"many:{shots}:{'dm' if dm else 'sv'}{n}q", many_body(gs, n, shots, dm), concrete_body=many_concrete(gs, n, shots, dm),
                           sampler=("sym", None), limit=600, cost=500))
    for dm in (False, True):
        out.append(Harness(f"refuse:{'dm' if dm else 'sv'}", refuse_body(1, dm), sampler=(None, None), cost=3))
    out.append(Harness("defaults", default_body, sampler=(None, None), cost=3))
    return uniq(out)
