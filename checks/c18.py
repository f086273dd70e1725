"""C18: finite-shot estimates are unbiased and average the requested number of measurements."""
from .obs_common import *
from engine import stubs
from .c14 import ONE_ENTRY, entry, many_circuit, many_values, ones, shift_rule, wanted
from horqrux.differentiation.gpsr import finite_shots_gpsr_backward, jitted_finite_shots

KEY = jax.random.PRNGKey(11)


def unit_state(h, n, tag="s"):
    """A normalised symbolic state: rotations and controlled rotations of |0...0>."""
    psi = h.const(np.eye(2**n)[0].reshape((2,) * n))
    gs = [g("RY", 0, p=tag + "0"), g("RZ", 0, p=tag + "1")]
    if n > 1:
        gs += [g("RX", 1, 0, p=tag + "2"), g("RY", 1, p=tag + "3"), g("X", 0, 1)]
    if n > 2:
        gs += [g("RX", 2, 1, p=tag + "4"), g("H", 2)]
    vs = {x: h.angle(x).spec for x in names(gs)}
    return h.derived(act_all(h, gs, psi, vs))


def start(h, gates, n, kind):
    """(state, its density matrix or vector for the specification)."""
    p = unit_state(h, n)
    if kind == "sv":
        return p.code, p.spec, None
    if kind == "pure":
        return density_mat(p.code), None, ref.outer(p.spec)
    q = unit_state(h, n, "t")
    rho = ref.outer(p.spec).mul(h.const(0.5)).add(ref.outer(q.spec).mul(h.const(0.5)))
    return DensityMatrix(0.5 * density_mat(p.code).array + 0.5 * density_mat(q.code).array), None, rho


def vals(h, gates, w):
    vc, vs = values(h, gates)
    for k, x in (w or {}).items():
        vc[k], vs[k] = x, h.const(x)
    return vc, vs


def mean(h, x):
    v = h.value(x)
    return stubs.expect(h.session, v) if h.mode == "sym" else v


def value_body(gates, obs, n, kind, shots, mode, w=None, nested=False, direct=False):
    def run(h):
        state, psi, rho = start(h, gates, n, kind)
        vc, vs = vals(h, gates, None if nested else w)
        vo = vs
        v = vc
        if nested:
            vo = {k: h.const(x) for k, x in w.items()}
            v = {"circuit": vc, "observables": dict(w)}
        ob = [build_expr(o) for o in obs]
        if direct:
            got = jitted_finite_shots(state, [build(x) for x in gates], ob, v, shots, KEY)
        else:
            kw = {} if mode is None else {"diff_mode": mode}
            got = hq.expectation(state, circuit(gates, n), ob, v, n_shots=shots, key=KEY, **kw)
        h.check("mean", mean(h, got), wanted(h, gates, obs, n, vs, kind != "sv", psi, rho, vo))

    return run


def grad_body(gates, obs, n, kind, shots, how, order=None, extra=(), one=False):
    def run(h):
        state, psi, rho = start(h, gates, n, kind)
        vc, vs = values(h, gates, extra)
        if order:
            vc = {k: vc[k] for k in order}
        if one:
            vc = ones(h, vc)
        ob = [build_expr(o) for o in obs]
        want = wanted(h, gates, obs, n, vs, kind != "sv", psi, rho)
        if how == "bwd":
            got = mean(h, finite_shots_gpsr_backward(state, [build(x) for x in gates], ob, vc, shots, KEY))
            h.true("one entry per value", got.shape == (len(vc),), str(got.shape))
            got = {k: got.take(i) for i, k in enumerate(vc)}
        else:
            f = lambda v: hq.expectation(state, circuit(gates, n), ob, v, diff_mode="gpsr", n_shots=shots, key=KEY).sum()
            if how == "grad":
                J = jax.grad(f)(vc)
            else:
                J = jax.jacfwd(f)(vc)
            got = {k: mean(h, entry(h, J[k], ()) if one else J[k]) for k in vc}
        for k in vc:
            wk = ref.grad(h, want, k)
            tot = wk.take(0)
            for j in range(1, len(obs)):
                tot = tot.add(wk.take(j))
            h.check(f"mean d/d{k}", got[k], tot)

    return run


def many_grad_body(gates, obs, n, how, symbolic, order):
    """Many parameters, two of them symbolic: every entry of the gradient is unbiased."""

    def run(h):
        vc, vs = many_values(h, gates, symbolic, order)
        p = unit_state(h, n)
        ob, ops = [build_expr(o) for o in obs], [build(x) for x in gates]
        if how == "bwd":
            got = mean(h, finite_shots_gpsr_backward(p.code, ops, ob, vc, 1, KEY))
            h.true("one entry per value", got.shape == (len(vc),), str(got.shape))
            got = {k: got.take(i) for i, k in enumerate(vc)}
        else:
            J = jax.grad(lambda v: hq.expectation(p.code, QuantumCircuit(n, ops), ob, v, diff_mode="gpsr", n_shots=1, key=KEY).sum())(vc)
            got = {k: mean(h, J[k]) for k in vc}
        for k in vc:
            w = shift_rule(h, p.spec, gates, obs, n, vs, k)
            tot = w.take(0)
            for j in range(1, len(obs)):
                tot = tot.add(w.take(j))
            h.check(f"mean d/d{k}", got[k], tot)

    return run


def second(h, gates, obs, n, vs, kind, psi, rho):
    """Mean of the squared eigenvalue: expectation of the squared observable."""
    out = []
    r = dm_evolve(h, gates, rho if rho is not None else ref.outer(psi), n, vs)
    for o in obs:
        M = expr_matrix(h, o, n, vs)
        out.append(ref.expval_dm(r, ref.matmul(M, M)))
    return ref.stack(out)


def spread_body(gates, obs, n, kind, shots, concrete):
    """Second moment of an average of independent measurements."""

    def run(h):
        state, psi, rho = start(h, gates, n, kind)
        vc, vs = values(h, gates)
        ob = [build_expr(o) for o in obs]
        f = lambda key: hq.expectation(state, circuit(gates, n), ob, vc, n_shots=shots, key=key)
        m = exact_dm(h, rho if rho is not None else ref.outer(psi), gates, obs, n, vs)
        s = second(h, gates, obs, n, vs, kind, psi, rho)
        want = m.mul(m).mul(h.const((shots - 1) / shots)).add(s.mul(h.const(1 / shots)))
        if not concrete:
            got = h.value(f(KEY))
            ev = h.session.events
            h.true("independent draws", len({e["key"] for e in ev}) == len(ev), "two sets of draws use the same key")
            h.check("second moment", stubs.expect(h.session, got.mul(got)), want)
            return
        many = 400
        xs = np.array([np.asarray(f(k)) for k in jax.random.split(jax.random.PRNGKey(5), many)])
        w = want.eval(h.asg, {}).real
        mm = m.eval(h.asg, {}).real
        h.true("mean over keys", bool(np.all(np.abs(xs.mean(0) - mm) < 6 * xs.std(0) / np.sqrt(many) + 0.02)), f"{xs.mean(0)} where {mm} is required")
        sd = (xs**2).std(0) / np.sqrt(many)
        h.true("second moment over keys", bool(np.all(np.abs((xs**2).mean(0) - w) < 6 * sd + 0.02)), f"{(xs**2).mean(0)} where {w} is required")

    return run


def refuse_body(mode):
    def run(h):
        from engine.symint import SymInt

        k = SymInt(h, "n_shots", -3, 2)
        want = h.cond("gt", h.const(0.0).add(k.spec(), -1.0))
        c = QuantumCircuit(1, [P.RX("a", 0)])
        h.raises("ValueError", ValueError, lambda: hq.expectation(hq.zero_state(1), c, [Observable([P.Z(0)])], {"a": 0.3}, diff_mode=mode, n_shots=k), want)

    return run


def shared_obs(rng, n, k):
    """Observables with a common eigenbasis."""
    out = []
    for _ in range(k):
        qs = rng.sample(range(n), rng.choice([1, n]))
        t = [g("Z", q) for q in qs]
        out.append(("obs", [t[0] if len(t) == 1 else ("seq", t)]))
    return out


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(1818)
    out = []
    mk = lambda name, b, **k: out.append(Harness(name, b, sampler=("sym", "mean"), symspec=True, limit=400, **k))
    kinds = ("sv", "pure", "mixed")
    i = 0
    for n, m, cnt in ((1, 2, 6), (2, 2, 14), (3, 2, 3)) if not big else ((1, 4, 16), (2, 3, 40), (3, 2, 10)):
        for _ in range(cnt):
            gs = random_circuit(rng, n, m, pnames=("a",))
            obs = obs_list(rng, n, rng.choice([1, 2, 3]), params=False) if i % 3 else shared_obs(rng, n, 2)
            kind = kinds[i % 3] if n < 3 else "sv"
            mode = (None, "gpsr")[i % 2]
            mk(f"{mode}:{label(gs)}:{';'.join(map(expr_label, obs))}:{kind}{n}q:{i}", value_body(gs, obs, n, kind, rng.choice([1, 2, 3]), mode, direct=i % 5 == 4), cost=4.0**n * 4)
            i += 1
    two = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")]
    diff = [("obs", [g("X", 0)]), ("obs", [g("Z", 0)]), ("obs", [("scale", 0.5, g("Y", 1)), ("seq", [g("Z", 0), g("X", 1)])])]
    same = [("obs", [g("Z", 1)]), ("obs", [("scale", 1.5, g("Z", 0))]), ("obs", [("seq", [g("Z", 0), g("Z", 1)]), g("Z", 0)])]
    for nm, obs in (("different bases", diff), ("same basis", same), ("repeated", [diff[0], diff[0]]), ("reversed", diff[::-1])):
        for kind in kinds[: 3 if big else 2]:
            mk(f"{nm}:{kind}", value_body(two, obs, 2, kind, 2, None), cost=60)
        mk(f"{nm}:gpsr", value_body(two, obs, 2, "sv", 2, "gpsr"), cost=60)
    for nm, ts in lookalike_terms(False):
        mk(f"lookalikes:{nm}", value_body(two, [("obs", [t]) for t in ts[:3]] + [("obs", ts)], 2, "sv", 2, None), cost=60)
        mk(f"lookalikes:{nm}:gpsr", value_body(two, [("obs", [t]) for t in ts[-3:]], 2, "pure", 1, "gpsr"), cost=60)
    lk = [g("RX", 0, p="a"), g("RX", 0, p="b"), g("RX", 1, p="a", shift=0.4), g("RX", 1, p=0.4)]
    for how in ("bwd", "grad"):
        mk(f"gradient:lookalikes:{how}", grad_body(lk, diff[:2], 2, "sv", 1, how), cost=80)
    for n, m in ((1, 11), (2, 11)) if not big else ((1, 11), (2, 11), (2, 20)):
        gs, order, sym = many_circuit(rng, n, m)
        for how in ("bwd", "grad"):
            mk(f"many parameters:{how}:{m}:{n}q", many_grad_body(gs, [("obs", [g("Z", 0), ("scale", 0.5, g("X", n - 1))])], n, how, sym[:1 if n == 2 else 2], order), cost=60)
    for k in range(6 if not big else 24):
        n = 1 + k % 2
        gs = analog_circuit(rng, n, 2, 1 + k % n, pnames=("a",))
        mk(f"analog:{label(gs)}:{n}q:{k}", value_body(gs, obs_list(rng, n, 1 + k % 2, params=False), n, kinds[k % 3], 2, None), cost=40)
    for shots in (50,) if not big else (40, 100, 300):
        for nm, obs in (("different bases", diff), ("same basis", same), ("one", same[:1])):
            for kind in ("sv", "pure"):
                mk(f"many shots:{shots}:{nm}:{kind}", value_body(two, obs, 2, kind, shots, (None, "gpsr")[kind == "pure"]), cost=80)
    for shots in (20,) if not big else (20, 60):
        for how in ("bwd", "grad"):
            mk(f"many shots:{shots}:gradient:{how}", grad_body(two, diff[:2], 2, "sv", shots, how), cost=100)
    for ns in NAMES[:2] if not big else [x for x in NAMES if not {"circuit", "observables"} <= set(x)]:  # those two are separate values
        gs = renamed([g("RX", 0, p="a"), g("RY", 1, p="b"), g("PHASE", 0, p="c"), g("RZ", 1, p="a")], ns)
        mk(f"names:{ns}:value", value_body(gs, diff[:2], 2, "sv", 2, None), cost=40)
        for how in ("bwd", "grad"):
            mk(f"names:{ns}:{how}", grad_body(gs, diff[:1], 2, "sv", 1, how), cost=60)
    prm = [("obs", [("scale", "w", g("Z", 1)), g("X", 0)])]
    mk("observable value", value_body(two, prm, 2, "sv", 2, None, w={"w": 0.7}), cost=30)
    for mode in (None, "gpsr"):
        mk(f"separate values:{mode}", value_body(two, [("obs", [("scale", "a", g("Z", 1)), g("X", 0)])], 2, "sv", 2, mode, w={"a": 0.7}, nested=True), cost=30)
    for kd, pr in (("BitFlip", 0.2), ("AmplitudeDamping", 0.3), ("Depolarizing", 0.1)):
        gs = [g("RX", 0, p="a", noise=((kd, pr),)), g("X", 1, 0)]
        mk(f"noise:{kd}", value_body(gs, [diff[0], same[0]], 2, "sv", 2, None), cost=80)
    # gradients by parameter shift with shots
    rep = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="a"), g("PHASE", 0, p="b")]
    for nm, gs in (("single", two), ("repeated", rep), ("phase", [g("H", 0), g("PHASE", 0, 1, p="a"), g("RX", 1, p="b")])):
        for how in ("bwd", "grad", "jacfwd"):
            for on, obs in (("one", diff[2:]), ("two", diff[:2]), ("same", same[:2])):
                if on == "same" and how == "jacfwd" and not big:
                    continue
                mk(f"gradient:{nm}:{how}:{on}", grad_body(gs, obs, 2, "sv", 2, how), cost=80)
        mk(f"gradient:{nm}:pure", grad_body(gs, diff[:1], 2, "pure", 1, "grad"), cost=90)
        mk(f"gradient:{nm}:bwd:order", grad_body(gs, diff[:1], 2, "sv", 1, "bwd", order=("b", "a")), cost=60)
        for how in ("bwd", "grad"):
            mk(f"gradient:{nm}:{how}:unused", grad_body(gs, diff[:1], 2, "sv", 1, how, extra=("z",)), cost=60)
    for nm, gs in ONE_ENTRY.items():
        for how in ("bwd", "grad"):
            mk(f"gradient:one-entry:{nm}:{how}", grad_body(gs, diff[:2], 2, "sv", 1, how, one=True), cost=60)
    for k, (gs, obs, n, kind) in enumerate((([g("RX", 0, p="a")], [("obs", [g("Z", 0)])], 1, "sv"), ([g("H", 0)], [("obs", [g("X", 0), ("scale", 2.0, g("Z", 0))])], 1, "mixed"),
                                            (two[:2], diff[:2], 2, "sv"), (two[:2], same[:2], 2, "sv"), ([g("X", 1, 0)], same[2:], 2, "pure"))):
        for shots in (1, 2, 3):
            b = [spread_body(gs, obs, n, kind, shots, c) for c in (False, True)]
            out.append(Harness(f"spread:{k}:{shots}", b[0], concrete_body=b[1], sampler=("sym", None), symspec=True, limit=400, cost=100))
    for mode in ("ad", "gpsr"):
        out.append(Harness(f"refuse:{mode}", refuse_body(mode), cost=3))
    return uniq(out)
