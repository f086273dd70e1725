"""C14: automatic differentiation gives the exact derivatives of expectation values."""
from .obs_common import *

MODE = "ad"


def jac(kind, f):
    """Jacobian of f (values -> (observables,)) by one of jax' ways."""
    if kind == "jacrev":
        return jax.jacrev(f)
    if kind == "jacfwd":
        return jax.jacfwd(f)
    if kind == "jit":
        return jax.jit(jax.jacrev(f))

    def grads(v):
        m = f(v).shape[0]
        rows = [jax.grad(lambda v, k=k: f(v)[k])(v) for k in range(m)]
        return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *rows)

    return grads


def wanted(h, gates, obs, n, vs, dm, psi=None, rho=None, vo=None):
    if dm or any(x.noise for x in gates):
        return exact_dm(h, rho if rho is not None else ref.outer(psi), gates, obs, n, vs, vo)
    return exact(h, psi, gates, obs, n, vs, vo)


def ones(h, v):
    """Each value as an array with one entry."""
    return {k: jnp.reshape(x, (1,)) for k, x in v.items()}


def entry(h, x, shape):
    """A derivative with respect to values of shape (1,)."""
    h.true("derivative has the shape of its value", tuple(x.shape) == tuple(shape) + (1,), str(x.shape))
    return jnp.reshape(x, tuple(shape))


def body(gates, obs, n, dm, kind, mode=MODE, extra=(), circ_kind="circuit", one=False):
    def run(h):
        vc, vs = obs_values(h, gates, obs)
        for k in extra:
            p = h.angle(k)
            vc[k], vs[k] = p.code, p.spec
        if one:
            vc = ones(h, vc)
        psi = rho = None
        if dm:
            state, rho = dm_code(h, "rho", n)
        else:
            p = h.cstate("psi", n)
            state, psi = p.code, p.spec
        ob = [build_expr(o) for o in obs]
        circ = circuit(gates, n, circ_kind)
        fixed = analog(gates)
        f = lambda v: hq.expectation(state, circ, ob, {**v, **fixed}, diff_mode=mode)
        want = wanted(h, gates, obs, n, vs, dm, psi, rho)
        h.check("values", f(vc), want)
        J = jac(kind, f)(vc)
        h.true("one derivative per value", sorted(J) == sorted(vc))
        for k in vc:
            h.check(f"d/d{k}", entry(h, J[k], (len(obs),)) if one else J[k], ref.grad(h, want, k))

    return run


def shift_rule(h, psi, gates, obs, n, vs, name):
    """Derivative with respect to a value of uncontrolled rotations and phases, one occurrence at a time (they have one frequency)."""
    tot = None
    for j, x in enumerate(gates):
        if x.p == name:
            for s, w in ((np.pi / 2, 0.5), (-np.pi / 2, -0.5)):
                e = exact(h, psi, gates[:j] + [replace(x, shift=x.shift + s)] + gates[j + 1 :], obs, n, vs).mul(h.const(w))
                tot = e if tot is None else tot.add(e)
    return tot


def many_values(h, gates, symbolic, order):
    """Many parameters: some symbolic, the others numbers; the dictionary in the given order."""
    vc, vs = {}, {}
    for j, k in enumerate(order):
        if k in symbolic:
            p = h.angle(k)
            vc[k], vs[k] = p.code, p.spec
        else:
            x = round(0.61 * j - 2.3, 2)
            vc[k], vs[k] = jnp.asarray(x), h.const(x)
    return vc, vs


def many_body(gates, obs, n, kind, mode, symbolic, order, bwd=None):
    def run(h):
        vc, vs = many_values(h, gates, symbolic, order)
        psi = h.cstate("psi", n)
        ob = [build_expr(o) for o in obs]
        ops = [build(x) for x in gates]
        f = lambda v: hq.expectation(psi.code, QuantumCircuit(n, ops), ob, v, diff_mode=mode)
        want = {k: shift_rule(h, psi.spec, gates, obs, n, vs, k) for k in vc}
        if bwd is not None:
            got = h.value(bwd(psi.code, ops, ob, vc))
            h.true("one entry per value", got.shape == (len(vc),), str(got.shape))
            for i, k in enumerate(vc):
                tot = want[k].take(0)
                for j in range(1, len(obs)):
                    tot = tot.add(want[k].take(j))
                h.check(f"d/d{k}", got.take(i), tot)
            return
        h.check("values", f(vc), exact(h, psi.spec, gates, obs, n, vs))
        J = jac(kind, f)(vc)
        h.true("one derivative per value", sorted(J) == sorted(vc))
        for k in vc:
            h.check(f"d/d{k}", J[k], want[k])

    return run


def many_circuit(rng, n, m):
    """A rotation or phase for each of m names, two of them twice, among fixed gates; names of one and two digits."""
    ps = [f"p{k}" for k in range(m)]
    use = ps + rng.sample(ps, 2)
    rng.shuffle(use)
    gs = []
    for k in use:
        if rng.random() < 0.4:
            gs.append(random_gate(rng, n, ONE + TWO if n > 1 else ONE, maxc=1))
        gs.append(G(rng.choice(PAR), (rng.randrange(n),), (), k))
    order = list(ps)
    rng.shuffle(order)
    return gs, order, rng.sample(ps, 2)


def nested_body(gates, obs, n, kind, mode=MODE):
    """Separate values: derivatives of circuit and observable parameters do not mix."""

    def run(h):
        psi = h.cstate("psi", n)
        v = {"circuit": {}, "observables": {}}
        vs, os_ = {}, {}
        for k in names(gates):
            p = h.angle("circuit_" + k)
            v["circuit"][k], vs[k] = p.code, p.spec
        for o in obs:
            for k in expr_names(o):
                if k not in os_:
                    p = h.angle("obs_" + k)
                    v["observables"][k], os_[k] = p.code, p.spec
        ob = [build_expr(o) for o in obs]
        f = lambda x: hq.expectation(psi.code, circuit(gates, n), ob, x, diff_mode=mode)
        want = exact(h, psi.spec, gates, obs, n, vs, os_)
        J = jac(kind, f)(v)
        for k in vs:
            h.check(f"circuit d/d{k}", J["circuit"][k], ref.grad(h, want, "circuit_" + k))
        for k in os_:
            h.check(f"observables d/d{k}", J["observables"][k], ref.grad(h, want, "obs_" + k))

    return run


ONE_ENTRY = {
    "single": [g("RX", 0, p="a"), g("X", 1, 0)],
    "two": [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")],
    "repeated": [g("RX", 0, p="a"), g("X", 1, 0), g("RZ", 1, p="b"), g("RY", 1, p="a")],
}


def hessian_body(gates, obs, n, mode=MODE, kind="hessian"):
    def run(h):
        vc, vs = obs_values(h, gates, obs)
        psi = h.cstate("psi", n)
        ob = [build_expr(o) for o in obs]
        f = lambda v: hq.expectation(psi.code, circuit(gates, n), ob, {**v, **analog(gates)}, diff_mode=mode)[0]
        H_ = jax.hessian(f)(vc) if kind == "hessian" else jax.jacfwd(jax.grad(f))(vc)
        want = exact(h, psi.spec, gates, obs, n, vs)
        for a in vc:
            ga = ref.grad(h, want, a)
            for b in vc:
                h.check(f"d2/d{a}d{b}", H_[a][b], ref.grad(h, ga, b).take(0))

    return run


def run_body(gates, n, dm):
    """Derivative of a probability of the evolved state."""

    def run(h):
        vc, vs = values(h, gates)
        psi = h.cstate("psi", n)
        k = (1,) * n
        phi = act_all(h, gates, psi.spec, vs)
        amp = phi.take(np.arange(2**n).reshape((2,) * n)[k])
        want = amp.conj().mul(amp).real()
        if dm:
            f = lambda v: hq.run(circuit(gates, n), density_mat(psi.code), v).array[k + k].real
        else:
            def f(v):
                x = hq.run(circuit(gates, n), psi.code, v)[k]
                return (x * x.conj()).real

        G_ = jax.grad(f)(vc)
        for a in vc:
            h.check(f"d/d{a}", G_[a], ref.grad(h, want, a))

    return run


def state_body(gates, obs, n, mode=MODE):
    """Linear response to the input state: derivative along a direction."""

    def run(h):
        vc, vs = obs_values(h, gates, obs)
        psi, d = h.cstate("psi", n), h.cstate("dir", n)
        t = h.real("t")
        ob = [build_expr(o) for o in obs]
        f = lambda x: hq.expectation(psi.code + x * d.code, circuit(gates, n), ob, vc, diff_mode=mode)[0]
        want = exact(h, psi.spec.add(t.spec.mul(d.spec)), gates, obs, n, vs)
        h.check("derivative", jax.grad(f)(t.code), ref.grad(h, want, "t").take(0))

    return run


def make(mode, tier, seed):
    big = tier == "thorough"
    rng = random.Random(seed)
    out = []
    kinds = ("grad", "jacrev", "jacfwd", "jit")
    add = lambda *a, **k: out.append(Harness(*a, symspec=True, **k))
    # every parametric gate, controlled or not
    for i, k in enumerate(PAR):
        for x, n in ((g(k, 0, p="a"), 1), (g(k, 1, 0, p="a"), 2), (g(k, 0, (2, 1), p="a"), 3)):
            obs = [("obs", [("seq", [g("X", q) for q in range(n)])]), ("obs", [g("Y", 0), ("scale", 0.5, g("Z", n - 1))])]
            add(f"gate:{x.label()}", body([x], obs, n, False, kinds[i], mode), cost=4.0**n, limit=200)
            if mode == "ad" and n < 3:
                add(f"gate:{x.label()}:dm", body([x], obs, n, True, kinds[(i + 1) % 4], mode), cost=6.0**n, limit=200)
    i = 0
    shapes = ((1, 4, 6), (2, 4, 14), (3, 4, 8)) if not big else ((1, 6, 12), (2, 6, 40), (3, 5, 30), (4, 4, 8))
    for n, m, cnt in shapes:
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            if not names(gs):
                gs[0] = g("RY", 0, p="a")
            obs = obs_list(rng, n, rng.choice([1, 2, 3]))
            dm = mode == "ad" and i % 4 == 3 and n < 3
            add(f"{kinds[i % 3]}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q",
                body(gs, obs, n, dm, kinds[i % 3], mode, circ_kind=("circuit", "sequence", "nested")[i % 3]), limit=400, cost=4.0**n * m)
            i += 1
    rep = [g("RX", 0, p="a"), g("RY", 1, 0, p="a"), g("H", 1), g("RZ", 0, p="a"), g("PHASE", 1, p="b"), g("RX", 1, p="b")]
    obs = [("obs", [("scale", "w", g("Z", 0)), g("X", 1)]), ("obs", [("scale", "a", ("seq", [g("Y", 0), g("Z", 1)]))])]
    for k in kinds:
        add(f"repeated:{k}", body(rep, obs, 2, False, k, mode), limit=300, cost=80)
    for nm, ls, nn in lookalike_circuits():
        ob = [("obs", [g("Z", nn - 1)]), ("obs", [g("Y", 0), ("scale", "w", g("X", nn - 1))])]
        add(f"lookalikes:{nm}", body(ls, ob, nn, False, "jacrev", mode), cost=120, limit=300)
    gs = [g("H", 0), g("RY", 1, 0, p="a"), g("RX", 0, p="b")]
    for k, (nm, ts) in enumerate(lookalike_terms()):
        add(f"lookalikes:{nm}", body(gs, [("obs", [t]) for t in ts] + [("obs", ts)], 2, False, kinds[k % 3], mode), cost=80, limit=300)
        if mode == "ad":
            add(f"lookalikes:{nm}:dm", body(gs, [("obs", [t]) for t in ts] + [("obs", ts)], 2, True, kinds[k % 3], mode), cost=80, limit=300)
    add("numeric angles", body([g("RX", 0, p=0.4), g("RY", 1, 0, p="a"), g("PHASE", 0, p=1.1), g("RX", 1, p="a")], obs[:1], 2, False, "grad", mode), cost=40)
    add("unused values", body([g("RX", 0, p="a")], [("obs", [g("Z", 0)])], 1, False, "grad", mode, extra=("z", "q")), cost=10)
    for k in ("grad", "jacfwd"):
        gs = [g("RX", 0, p="x"), g("RY", 1, 0, p="y"), g("RX", 1, p="x")]
        ob2 = [("obs", [("scale", "x", g("Z", 0)), g("X", 1)]), ("obs", [("scale", "y", ("seq", [g("Y", 0), g("X", 1)]))])]
        add(f"separate values:{k}", nested_body(gs, ob2, 2, k, mode), cost=60, limit=300)
    for k in range(3 if not big else 10):
        gs = random_circuit(rng, 2, 3, pnames=("a", "b"))
        gs[1] = g("RX", 1, 0, p="a")
        add(f"hessian:{label(gs)}", hessian_body(gs, obs_list(rng, 2, 1), 2, mode, ("hessian", "fwd")[k % 2]), cost=80, limit=400)
    if mode == "ad":
        for k, (x, nn) in enumerate(((g("RZ", 0, p="o"), 1), (g("RX", 1, 0, p="o"), 2), (g("PHASE", 0, p="a"), 1))):
            gs = [g("RX", 0, p="a"), g("RY", nn - 1, p="b")]
            o = [("obs", [("scale", "w", x), g("Z", 0)]), ("obs", [("seq", [x, g("X", nn - 1)])])]
            for dm in (False, True):
                add(f"parametric observable:{x.label()}:{'dm' if dm else 'sv'}", body(gs, o, nn, dm, kinds[k % 3], mode), cost=30)
            add(f"parametric observable, separate values:{x.label()}", nested_body(gs, o, nn, kinds[k % 3], mode), cost=30)
    for nm, gs in ONE_ENTRY.items():
        add(f"one-entry:{nm}", body(gs, [("obs", [g("Z", 1), g("X", 0)])], 2, False, "jacrev", mode, one=True), cost=30)
    gs = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")]
    add("state", state_body(gs, [("obs", [g("Z", 1), g("X", 0)])], 2, mode), cost=40)
    if mode == "ad":
        for k, (kd, pr) in enumerate((("BitFlip", 0.2), ("PhaseFlip", 0.3), ("Depolarizing", 0.25), ("AmplitudeDamping", 0.3), ("PhaseDamping", 0.4))):
            gs = [g("RX", 0, p="a", noise=((kd, pr),)), g("RY", 1, 0, p="b", noise=((kd, pr),)), g("PHASE", 0, p="a")]
            ob2 = [("obs", [g("Z", 1), g("X", 0)]), ("obs", [("scale", "w", ("seq", [g("Y", 0), g("Z", 1)]))])]
            add(f"noise:{kd}", body(gs, ob2, 2, k % 2 == 0, kinds[k % 3], mode), limit=400, cost=150)
        for k in range(2 if not big else 6):
            gs = random_circuit(rng, 2, 4, pnames=("a", "b"))
            if not names(gs):
                gs[0] = g("RY", 0, p="a")
            add(f"run:{label(gs)}", run_body(gs, 2, False), cost=30, limit=200)
            add(f"run:{label(gs)}:dm", run_body(gs, 2, True), cost=60, limit=200)
    i = 0
    for n, k, m, cnt in ((1, 1, 3, 2), (2, 1, 4, 4), (2, 2, 3, 4), (3, 2, 3, 2)) if not big else ((1, 1, 5, 6), (2, 1, 5, 16), (2, 2, 5, 16), (3, 2, 4, 12), (3, 1, 4, 8)):
        for _ in range(cnt):
            gs = analog_circuit(rng, n, m, k, pnames=("a", "b"))
            obs = obs_list(rng, n, 1 + i % 2)
            dm = mode == "ad" and i % 4 == 3 and n < 3
            add(f"analog:{kinds[i % 4]}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q",
                body(gs, obs, n, dm, kinds[i % 4], mode, circ_kind=("circuit", "sequence", "nested")[i % 3]), limit=400, cost=4.0**n * m, sampler=("expm", None))
            i += 1
    for k in range(8 if not big else 30):
        n = 1 + k % 2
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        gs[k % 3] = g(PAR[k % 4], k % n, p="a")
        obs, dm = obs_list(rng, n, 1 + k % 2), mode == "ad" and k % 4 == 3
        add(f"real:{kinds[k % 4]}:{label(gs)}:{';'.join(map(expr_label, obs))}/{'dm' if dm else 'sv'}{n}q", reals(body(gs, obs, n, dm, kinds[k % 4], mode), False), limit=400, cost=4.0**n * 3)
    many_parameters(add, rng, big, mode, kinds)
    add("analog:hessian", hessian_body([g("RX", 0, p="a"), evo((1, 0)), g("RY", 1, p="a")], [("obs", [g("Z", 1), g("X", 0)])], 2, mode), cost=80, limit=400, sampler=("expm", None))
    more(add, rng, big, mode, kinds, lambda n, m: local_circuit(rng, n, m), lambda n, m: random_circuit(rng, n, m, pnames=("a", "b")))
    return uniq(out)


def many_parameters(add, rng, big, mode, kinds, bwd=None):
    for k, (n, m) in enumerate(((2, 12), (3, 11), (2, 20)) if not big else ((1, 12), (2, 12), (3, 12), (2, 20), (3, 24), (2, 33), (4, 12))):
        gs, order, sym = many_circuit(rng, n, m)
        obs = [("obs", [g("Z", 0), ("scale", 0.5, g("X", n - 1))]), ("obs", [("seq", [g("Y", q) for q in range(n)])])][: 1 + k % 2]
        add(f"many parameters:{m}:{n}q:{kinds[k % 3]}", few(3, many_body(gs, obs, n, kinds[k % 3], mode, sym, order)), limit=400, cost=8.0 * m)
        if bwd:
            add(f"many parameters:bwd:{m}:{n}q", few(3, many_body(gs, obs, n, None, mode, sym, order, bwd)), limit=400, cost=8.0 * m)


def more(add, rng, big, mode, kinds, local, mixed, params=True, other=None):
    """Rows of rotations on one qubit, many observables, confusable names, large registers."""
    i = 0
    both = [("", body)] + ([("bwd:", other)] if other else [])
    call = lambda b, gs, ob, n, k, **kw: b(gs, ob, n, False, k, mode, **kw) if b is body else b(gs, ob, n, False)
    for n, m, cnt in ((1, 6, 4), (2, 6, 6), (3, 6, 3)) if not big else ((1, 8, 12), (2, 8, 24), (3, 7, 16)):
        for _ in range(cnt):
            gs = local(n, m)
            if not names(gs):
                gs[0] = g("RY", 0, p="a")
            ob = obs_list(rng, n, 1 + i % 3, params)
            for nm, b in both:
                add(f"local:{nm}{label(gs)}:{';'.join(map(expr_label, ob))}", call(b, gs, ob, n, kinds[i % 3]), limit=400, cost=4.0**n * m)
            i += 1
    for n, m, cnt in ((4, 3, 3), (5, 3, 2), (6, 2, 2)) if not big else ((4, 5, 10), (5, 4, 8), (6, 4, 6), (7, 3, 4)):
        for _ in range(cnt):
            gs = mixed(n, m)
            gs[i % m] = g(PAR[i % 4], i % n, p="b")
            ob = obs_list(rng, n, 1 + i % 2, params)
            for nm, b in both:
                add(f"large:{nm}{label(gs)}:{';'.join(map(expr_label, ob))}/{n}q", few(4, call(b, gs, ob, n, kinds[i % 3])), limit=400, cost=4.0**n)
            i += 1
    for k, ns in enumerate(NAMES):
        gs = renamed([g("RX", 0, p="a"), g("RY", 1, p="b"), g("X", 1, 0), g("PHASE", 0, p="c"), g("RX", 1, p="a")], ns)
        ob = [("obs", [("scale", ns[1], g("Z", 0)) if params else ("scale", 1.5, g("Z", 0)), g("X", 1)]), ("obs", [g("Y", 1)])]
        if {"circuit", "observables"} <= set(ns):
            gs, ob = gs[:1] + gs[3:], [("obs", [g("X", 1), g("Y", 0)])]
        for nm, b in both if big or k % 2 else both[-1:]:
            add(f"names:{nm}{','.join(ns)}", call(b, gs, ob, 2, kinds[k % 3]), limit=300, cost=60)
    obs = [("obs", [g("XYZ"[j % 3], j % 2), ("scale", 0.25 * j + 0.5, g("Z", 1 - j % 2))]) for j in range(5)]
    gs = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")]
    for nm, b in both:
        for k in (4, 5):
            add(f"many observables:{nm}{k}", call(b, gs, obs[:k], 2, kinds[k % 3]), limit=300, cost=60)


def harnesses(tier):
    return make("ad", tier, 1414)
