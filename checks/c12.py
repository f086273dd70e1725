"""C12: sparse states and operators give the same results as dense ones."""
from .obs_common import *
from jax.experimental.sparse import BCOO


def sparse_state(h, n, keep=None, name="psi"):
    """BCOO state with symbolic stored amplitudes and its specification (zero where not stored)."""
    idx = np.array(list(itertools.product((0, 1), repeat=n))).reshape(-1, n)
    pos = np.arange(2**n) if keep is None else np.array(keep)
    p = h.carray(name, (len(pos),))
    spec = SA.from_polys(h.V, [
        p.spec.polys()[list(pos).index(k)] if k in pos else {} for k in range(2**n)
    ], (2,) * n)
    return BCOO((p.code, jnp.asarray(idx[pos])), shape=(2,) * n), spec


def run_body(gates, n, keep, how):
    def run(h):
        s, psi = sparse_state(h, n, keep)
        vc, vs = values(h, gates)
        ops = [build(x, True) for x in gates]
        if how == "call":
            for op in ops:
                s = op(s, vc)
            got = s
        elif how == "list":
            got = apply_gates(s, ops, vc)
        elif how == "unmerged":
            got = apply_gates(s, ops, vc, merge_ops=False)
        elif how == "grouped":
            got = apply_gates(s, ops, vc, group_gates=True)
        else:
            got = hq.run(QuantumCircuit(n, ops), s, vc)
        h.true("sparse in, sparse out", isinstance(got, BCOO))
        h.check("state", got, act_all(h, gates, psi, vs))

    return run


def tensor_body(e, n, fs):
    def run(h):
        vc, vs = obs_values(h, [], [e])
        op = build_expr(e, True)
        M = expr_matrix(h, e, n, vs)
        got = op.tensor(vc, fs) if fs else op.tensor(vc)
        h.check("tensor", got, M)

    return run


def expect_body(gates, obs, n, mode, keep):
    def run(h):
        s, psi = sparse_state(h, n, keep)
        vc, vs = obs_values(h, gates, obs)
        circ = QuantumCircuit(n, [build(x, True) for x in gates])
        ob = [build_expr(o, True) for o in obs]
        kw = {} if mode is None else {"diff_mode": mode}
        want = exact(h, psi, gates, obs, n, vs)
        h.check("expectation", hq.expectation(s, circ, ob, vc, **kw), want)
        if mode is None:
            for k, (o, e) in enumerate(zip(ob, obs)):
                h.check(f"observable {k}", o(s, vc), ref.expval(act_all(h, [], psi, vs), expr_matrix(h, e, n, vs)))

    return run


def grad_body(gates, obs, n, mode):
    def run(h):
        vc, vs = obs_values(h, gates, obs)
        circ = QuantumCircuit(n, [build(x, True) for x in gates])
        ob = [build_expr(o, True) for o in obs]
        zero = hq.zero_state(n, sparse=True)
        e0 = h.const(np.eye(2**n)[0].reshape((2,) * n))
        want = exact(h, e0, gates, obs, n, vs)
        f = lambda v: hq.expectation(zero, circ, ob, v, diff_mode=mode).todense().sum()
        got = jax.jacfwd(f)(vc)  # reverse mode of sparse products does not exist in jax
        for k in vc:
            w = ref.grad(h, want, k)
            tot = w.take(0)
            for i in range(1, len(obs)):
                tot = tot.add(w.take(i))
            h.check(f"d/d{k}", got[k], tot)

    return run


def states_body(n):
    def run(h):
        for k in range(2**n):
            b = format(k, f"0{n}b")
            h.check(f"product {b}", hq.product_state(b, sparse=True), h.const(np.eye(2**n)[k].reshape((2,) * n)))
        h.check("zero", hq.zero_state(n, sparse=True), h.const(np.eye(2**n)[0].reshape((2,) * n)))
        h.check("uniform", hq.uniform_state(n, sparse=True), h.const(np.full((2,) * n, 2 ** (-n / 2))))
        h.check("random", hq.random_state(n, sparse=True), hq.random_state(n))

    return run


def base_body(x):
    """unitary (as a matrix), dagger and jacobian of a sparse gate, and their application."""

    def run(h):
        from horqrux.utils.operator_utils import OperationType

        n = max(x.qubits) + 1
        vc, vs = values(h, [x])
        s = build(x, True)
        sp, psi = sparse_state(h, n)
        md = ref.dag(matrix(h, x, vs))
        h.check("dagger", s.dagger(vc), md)
        h.check("applied dagger", apply_gates(sp, s, vc, OperationType.DAGGER), ref.apply(psi, md, x.t, x.c))
        if x.name in PAR:
            mj = ref.dgate(h, x.name, theta(h, x, vs))
            h.check("jacobian", s.jacobian(vc), mj)
            if not x.c:
                h.check("applied jacobian", apply_gates(sp, s, vc, OperationType.JACOBIAN), ref.apply(psi, mj, x.t))

    return run


def harnesses(tier):
    big = tier == "thorough"
    out = []
    rng = random.Random(1212)
    single = [g(k, 0, p="a" if k in PAR else None) for k in ONE + PAR] + [g(k, (0, 1)) for k in TWO]
    for x in single:
        n = 2
        out.append(Harness(f"gate:{x.label()}", run_body([x], n, None, "call"), cost=6))
        out.append(Harness(f"gate:{replace(x, t=tuple(reversed(range(1, 1 + len(x.t)))), c=(0,)).label()}",
                           run_body([replace(x, t=tuple(reversed(range(1, 1 + len(x.t)))), c=(0,))], 1 + len(x.t), None, "call"), cost=8))
    for x in (g("X", 0, (1, 2)), g("RY", 1, (2, 0), p="a"), g("SWAP", (2, 0), 1), g("PHASE", 2, (0, 1), p="a"), g("RZ", 2, p="a")):
        out.append(Harness(f"gate:{x.label()}:3q", run_body([x], 3, None, "call"), cost=12))
    for x in single:
        out.append(Harness(f"base:{x.label()}", base_body(x), cost=8))
        if len(x.t) == 1:
            out.append(Harness(f"base:{x.label()}c1", base_body(replace(x, c=(1,), shift=0.3 if x.name in PAR else 0.0)), cost=8))
    for x in (g("X", 3, (0, 1, 2)), g("RY", 1, (3, 0, 2), p="a"), g("S", 0, (2, 3))):
        out.append(Harness(f"gate:{x.label()}:4q", run_body([x], 4, None, "call"), cost=40))
    hows = ("circuit", "list", "unmerged", "grouped", "call")
    for k, (nm, gs, n) in enumerate(lookalike_circuits()):
        gs = gs[:6] if n == 3 else gs
        out.append(Harness(f"lookalikes:{nm}", run_body(gs, n, None, hows[k]), limit=300, cost=200))
    shapes = ((1, 3, 4), (2, 3, 8), (3, 3, 4)) if not big else ((1, 5, 10), (2, 5, 30), (3, 4, 20), (4, 3, 4))
    i = 0
    for n, m, cnt in shapes:
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            keep = None if i % 2 else sorted(rng.sample(range(2**n), max(1, 2**n - 2)))
            out.append(Harness(f"{hows[i % 5]}:{label(gs)}/{n}q{'' if keep is None else keep}",
                               run_body(gs, n, keep, hows[i % 5]), limit=300, cost=6.0 * 2**n * m))
            i += 1
    exprs = [(x, 1 if len(x.t) == 1 else 2) for x in single]
    exprs += [(g("X", 1, 0), 2), (g("RY", 0, 1, p="a"), 2), (g("PHASE", 0, 1, p="a"), 2), (g("SWAP", (2, 0), 1), 3), (g("X", 1, (2, 0)), 3)]
    exprs += [(("seq", [g("X", 0), g("RY", 1, p="a"), g("Z", 0)]), 2), (("add", [g("X", 0), g("Z", 1, 0)]), 2),
              (("scale", "w", g("Y", 0)), 1), (("scale", 2.5, ("seq", [g("X", 1), g("Z", 0)])), 2),
              (("add", [("scale", "w", g("X", 0)), ("scale", -1.5, ("seq", [g("Y", 0), g("Z", 1)]))]), 2),
              (("obs", [("scale", "w", g("X", 1)), g("Z", 0)]), 2)]
    for e, n in exprs:
        out.append(Harness(f"tensor:{expr_label(e)}", tensor_body(e, n, None), cost=8))
    for e, n, fs in ((g("X", 2), 3, (0, 1, 2)), (g("RX", 1, 2, p="a"), 3, (2, 0, 1)) if big else (g("H", 1, 2), 3, (2, 0, 1)), (g("SWAP", (2, 0)), 3, (0, 1, 2)),
                     (("add", [g("X", 2), g("Z", 0)]), 3, (1, 0, 2)), (("scale", "w", g("Y", 1)), 2, (0, 1))):
        out.append(Harness(f"tensor:{expr_label(e)}:{fs}", tensor_body(e, n, fs), limit=400, cost=10 if expr_names(e)[:1] != ["a"] else 1e4))
    modes = (None, "ad", "adjoint", "gpsr")
    for k, (nm, ts) in enumerate(lookalike_terms()):
        out.append(Harness(f"lookalikes:tensor:{nm}", tensor_body(("add", ts), 2, (0, 1)), limit=300, cost=60))
        out.append(Harness(f"lookalikes:{nm}", expect_body([g("H", 0), g("RY", 1, 0, p="a")], [("obs", [t]) for t in ts[:3]] + [("obs", ts)], 2, modes[k + 1], None), limit=300, cost=60))
    for k in range(8 if not big else 32):
        n = 2 if k % 4 else 3
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        obs = obs_list(rng, n, 1 + k % 2)
        keep = None if k % 2 else sorted(rng.sample(range(2**n), 2**n - 1))
        out.append(Harness(f"expectation:{modes[k % 4]}:{label(gs)}:{';'.join(map(expr_label, obs))}",
                           expect_body(gs, obs, n, modes[k % 4], keep), limit=300, cost=60))
    for k, mode in enumerate(("ad", "adjoint")):
        gs = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")]
        out.append(Harness(f"gradient:{mode}", grad_body(gs, [("obs", [g("Z", 1)]), ("obs", [g("X", 0)])], 2, mode), limit=300, cost=60, symspec=True))
    for n in (1, 2, 3):
        out.append(Harness(f"states:{n}", states_body(n), cost=2))
    # several gates in a row on one qubit, confusable names, many qubits with a few stored amplitudes
    for i in range(6 if not big else 30):
        n = 2 + i % 2
        gs = local_circuit(rng, n, 5 if not big else 8, pnames=("a", "b"))
        out.append(Harness(f"local:{hows[i % 5]}:{label(gs)}", run_body(gs, n, None if i % 3 else sorted(rng.sample(range(2**n), 2)), hows[i % 5]), limit=300, cost=40.0 * n))
    for i in range(4 if not big else len(NAMES)):
        gs = renamed([g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("PHASE", 0, p="c"), g("RZ", 1, p="a")], NAMES[i])
        out.append(Harness(f"names:{NAMES[i]}", run_body(gs, 2, None, hows[i % 5]), limit=300, cost=40))
    for n, m, cnt in ((5, 4, 4), (6, 4, 2)) if not big else ((5, 8, 12), (6, 8, 8), (7, 6, 6), (8, 5, 4)):
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            out.append(Harness(f"large:{hows[i % 5]}:{label(gs)}/{n}q", run_body(gs, n, sorted(rng.sample(range(2**n), 3)), hows[i % 5]), limit=600, cost=40.0 * m))
            i += 1
    for n, cnt in ((3, 3), (4, 2)) if not big else ((3, 12), (4, 8), (5, 4)):
        for _ in range(cnt):
            gs = random_circuit(rng, n, 3, pnames=("a", "b"))
            obs = obs_list(rng, n, 1 + i % 3)
            out.append(Harness(f"large expectation:{modes[i % 4]}:{label(gs)}:{';'.join(map(expr_label, obs))}",
                               expect_body(gs, obs, n, modes[i % 4], sorted(rng.sample(range(2**n), 2))), limit=600, cost=60.0 * n))
            i += 1
    return uniq(out)
