"""C20: jit, vmap, scan and pytree passage change no results."""
from .obs_common import *
from .c13 import same_structure
from .c14 import wanted

from horqrux.analog import HamiltonianEvolution

tree = jax.tree_util


def state_of(h, kind, n, name="psi"):
    """(state for the code, reference action of a gate list on it)."""
    if kind == "dm":
        rho, spec = dm_code(h, name, n)
        return rho, lambda gs, vs: dm_evolve(h, gs, spec, n, vs)
    p = h.cstate(name, n)
    return p.code, lambda gs, vs: act_all(h, gs, p.spec, vs)


def result(h, kind, n, x):
    return as_matrix(h, x, n) if kind == "dm" else h.value(x)


# --------------------------------------------------------------------------------- jit
def jit_body(gates, n, kind, how):
    def body(h):
        st, act_ = state_of(h, kind, n)
        vc, vs = values(h, gates)
        qc = circuit(gates, n, "circuit" if how != "list" else "sequence")
        if how == "closed":
            out = jax.jit(lambda s, v: hq.run(qc, s, v))(st, vc)
        elif how == "args":
            out = jax.jit(lambda c, s, v: hq.run(c, s, v))(qc, st, vc)
        elif how == "list":
            out = jax.jit(apply_gates)(st, [build(x) for x in gates], vc)
        else:  # one compiled function, called for several arguments
            f = jax.jit(lambda c, s, v: c(s, v))
            f(circuit(gates[:1], n), st, vc)
            f(qc, st, {k: 0.25 for k in vc})
            out = f(qc, st, vc)
        h.check("state", result(h, kind, n, out), act_(gates, vs))

    return body


def jit_pair_body(a, b, n, kind):
    """One compiled function must tell two circuits apart."""

    def body(h):
        st, act_ = state_of(h, kind, n)
        vc, vs = values(h, a + b)
        f = jax.jit(lambda c, s, v: c(s, v))
        for k, gs in enumerate((a, b, a)):
            h.check(f"call {k}", result(h, kind, n, f(circuit(gs, n), st, vc)), act_(gs, vs))

    return body


def jit_expectation_body(gates, obs, n, kind, mode, how):
    def body(h):
        psi = rho = None
        if kind == "dm":
            st, rho = dm_code(h, "rho", n)
        else:
            p = h.cstate("psi", n)
            st, psi = p.code, p.spec
        vc, vs = obs_values(h, gates, obs)
        ob = [build_expr(o) for o in obs]
        qc = circuit(gates, n)
        want = wanted(h, gates, obs, n, vs, kind == "dm", psi, rho)
        if how == "closed":
            f = jax.jit(lambda v: hq.expectation(st, qc, ob, v, diff_mode=mode))
            h.check("values", f(vc), want)
        elif how == "args":
            f = jax.jit(lambda c, o, s, v: hq.expectation(s, c, o, v, diff_mode=mode))
            h.check("values", f(qc, ob, st, vc), want)
        else:
            f = jax.jit(lambda c, v: jax.jacrev(lambda w: hq.expectation(st, c, ob, w, diff_mode=mode))(v))
            J = f(qc, vc)
            for k in vc:
                h.check(f"d/d{k}", J[k], ref.grad(h, want, k))

    return body


# --------------------------------------------------------------------------------- vmap
def vmap_values_body(gates, n, kind, batch):
    def body(h):
        st, act_ = state_of(h, kind, n)
        qc = circuit(gates, n)
        ns = names(gates)
        ps = [{k: h.angle(f"{k}{i}") for k in ns} for i in range(batch)]
        vc = {k: jnp.stack([p[k].code for p in ps]) for k in ns}
        want = ref.stack([act_(gates, {k: p[k].spec for k in ns}) for p in ps])
        out = jax.vmap(lambda v: hq.run(qc, st, v))(vc)
        got = h.value(out)
        h.check("batch", got.reshape(want.shape), want)

    return body


def vmap_one_body(gates, n, name, batch):
    """Only one of the values is batched."""

    def body(h):
        st, act_ = state_of(h, "sv", n)
        vc, vs = values(h, gates)
        xs = [h.angle(f"x{i}") for i in range(batch)]
        out = jax.vmap(lambda x: hq.run(circuit(gates, n), st, {**vc, name: x}))(jnp.stack([x.code for x in xs]))
        h.check("batch", out, ref.stack([act_(gates, {**vs, name: x.spec}) for x in xs]))

    return body


def vmap_states_body(gates, n, kind, batch, axis=0):
    def body(h):
        sts = [state_of(h, kind, n, f"psi{i}") for i in range(batch)]
        vc, vs = values(h, gates)
        qc = circuit(gates, n)
        if kind == "dm":
            st = DensityMatrix(jnp.stack([s.array for s, _ in sts]))
        else:
            st = jnp.stack([s for s, _ in sts], axis=axis)
        out = jax.vmap(lambda s: qc(s, vc), in_axes=axis)(st)
        want = ref.stack([a(gates, vs) for _, a in sts])
        if kind == "dm":
            h.true("type", isinstance(out, DensityMatrix), type(out).__name__)
        h.check("batch", h.value(out).reshape(want.shape), want)

    return body


def vmap_expectation_body(gates, obs, n, mode, batch, grad, kind="sv"):
    def body(h):
        psi = rho = None
        if kind == "dm":
            st, rho = dm_code(h, "rho", n)
        else:
            p = h.cstate("psi", n)
            st, psi = p.code, p.spec
        ns = names(gates) + [x for o in obs for x in expr_names(o)]
        ns = list(dict.fromkeys(ns))
        ps = [{k: h.angle(f"{k}{i}") for k in ns} for i in range(batch)]
        vc = {k: jnp.stack([p[k].code for p in ps]) for k in ns}
        ob = [build_expr(o) for o in obs]
        f = lambda v: hq.expectation(st, circuit(gates, n), ob, v, diff_mode=mode)
        want = [wanted(h, gates, obs, n, {k: p[k].spec for k in ns}, kind == "dm", psi, rho) for p in ps]
        if not grad:
            h.check("batch", jax.vmap(f)(vc), ref.stack(want))
            return
        J = jax.vmap(jax.grad(lambda v: f(v)[0]))(vc)
        for k in ns:
            h.check(f"d/d{k}", J[k], ref.stack([ref.grad(h, w, f"{k}{i}").take(0) for i, w in enumerate(want)]))

    return body


# --------------------------------------------------------------------------------- scan
def scan_body(gates, n, kind, name, steps):
    def body(h):
        st, act_ = state_of(h, kind, n)
        vc, vs = values(h, gates)
        xs = [h.angle(f"x{i}") for i in range(steps)]
        qc = circuit(gates, n)
        out, _ = jax.lax.scan(lambda s, x: (qc(s, {**vc, name: x}), None), st, jnp.stack([x.code for x in xs]))
        gs = []
        vv = dict(vs)
        for i in range(steps):
            gs += [replace(x, p=f"{x.p}@{i}" if x.p == name else x.p) for x in gates]
            vv[f"{name}@{i}"] = xs[i].spec
        h.check("state", result(h, kind, n, out), act_(gs, vv))

    return body


def loop_body(gates, n, kind, steps):
    def body(h):
        st, act_ = state_of(h, kind, n)
        vc, vs = values(h, gates)
        qc = circuit(gates, n)
        out = jax.lax.fori_loop(0, steps, lambda i, s: qc(s, vc), st)
        h.check("state", result(h, kind, n, out), act_(gates * steps, vs))

    return body


def cond_body(gates, other, n, kind):
    def body(h):
        st, act_ = state_of(h, kind, n)
        vc, vs = values(h, gates + other)
        k = h.integer("k", 0, 1)
        out = jax.lax.cond(k.code > 0, lambda s: circuit(gates, n)(s, vc), lambda s: circuit(other, n)(s, vc), st)
        a, b = act_(gates, vs), act_(other, vs)
        h.check("state", result(h, kind, n, out), a.mul(k.spec).add(b.mul(h.const(1.0).add(k.spec, -1.0))))

    return body


# -------------------------------------------------------------------------------- pytree
def passages(obj):
    leaves, td = tree.tree_flatten(obj)
    yield "flatten", tree.tree_unflatten(td, leaves)
    yield "map", tree.tree_map(lambda x: x, obj)
    yield "inside a dict", tree.tree_map(lambda x: x, {"k": [obj]})["k"][0]
    again = tree.tree_unflatten(td, tree.tree_leaves(tree.tree_unflatten(td, leaves)))
    yield "twice", again


def pytree_body(make, e, n, noisy=False, fields=()):
    """make() builds the object; e its expression."""

    def body(h):
        obj = make()
        vc, vs = obs_values(h, [], [e])
        p = h.cstate("psi", n)
        sp = obj.sparse if hasattr(obj, "sparse") else False
        for nm, o in passages(obj):
            same_structure(h, nm + ":", obj, o, sp)
            for f in fields:
                h.true(f"{nm}:{f}", getattr(obj, f) == getattr(o, f), f"{f} is {getattr(o, f)!r} instead of {getattr(obj, f)!r}")
            h.true(nm + ":repr", repr(obj) == repr(o) or not isinstance(obj, P.Primitive), f"{o!r} instead of {obj!r}")
            if noisy:
                h.check(nm, as_matrix(h, o(p.code, vc), n), dm_evolve(h, e[1] if isinstance(e, tuple) else [e], ref.outer(p.spec), n, vs))
                continue
            M = expr_matrix(h, e, n, vs)
            if not isinstance(e, G) and e[0] == "obs":
                h.check(nm, o.forward(p.code, vc), matvec(M, p.spec))
                h.check(nm + " mean", o(p.code, vc), ref.expval(p.spec, M))
            else:
                h.check(nm, o(p.code, vc), matvec(M, p.spec))
            if n <= 2:
                h.check(nm + " tensor", o.tensor(vc, tuple(range(n))), M)
            if isinstance(e, G) and isinstance(e.p, str):
                h.check(nm + " jacobian", o.jacobian(vc), ref.dgate(h, e.name, vs[e.p]))

    return body


def dm_pytree_body(n):
    def body(h):
        rho, spec = dm_code(h, "rho", n)
        leaves = tree.tree_leaves(rho)
        h.true("one array leaf", len(leaves) == 1 and leaves[0].shape == rho.array.shape, str(len(leaves)))
        for nm, o in passages(rho):
            h.true(nm + ":type", isinstance(o, DensityMatrix))
            h.check(nm, as_matrix(h, o, n), spec)
        out = tree.tree_map(lambda x: 2.0 * x, rho)
        h.check("map", as_matrix(h, out, n), spec.mul(h.const(2.0)))
        f = jax.jit(lambda r: DensityMatrix(r.array * 3.0))
        h.check("through jit", as_matrix(h, f(rho), n), spec.mul(h.const(3.0)))

    return body


def noise_pytree_body(kind, probs):
    def body(h):
        x = DigitalNoiseInstance(DigitalNoiseType(kind), probs)
        for nm, o in passages(x):
            h.true(nm + ":type", o.type == x.type and type(o) is type(x))
            h.true(nm + ":probability", o.error_probability == x.error_probability)
            for i, (a, b) in enumerate(zip(x.kraus, o.kraus)):
                h.check(f"{nm}:kraus {i}", h.value(b), h.value(a))

    return body


def shifted_body(cls, mode):
    """A shifted gate keeps its shift through a passage."""

    def body(h):
        s = 0.81
        base = getattr(P, cls)("a", 0)
        x = type(base)(generator_name=base.generator_name, target=0, control=(None,), param="a", shift=s)
        psi, a = h.cstate("psi", 1), h.angle("a")
        want = ref.apply(psi.spec, ref.gate(h, cls, a.spec.add(h.const(s))), (0,))
        if mode == "jit":
            h.check("jit", jax.jit(lambda g_, st, v: g_(st, v))(x, psi.code, {"a": a.code}), want)
            return
        for nm, o in passages(x):
            h.true(nm + ":shift", o.shift == s, f"{o.shift}")
            h.check(nm, o(psi.code, {"a": a.code}), want)

    return body


probabilities = internal("horqrux.utils.operator_utils:probabilities")


def probabilities_body(n, dm):
    def body(h):
        if dm:
            rho, spec = dm_code(h, "rho", n)
            out = jax.jit(probabilities)(rho)
            h.check("jit", out, ref.stack([spec.take(k * 2**n + k).real() for k in range(2**n)]))
        else:
            ps = [h.cstate(f"psi{i}", n) for i in range(2)]
            out = jax.vmap(probabilities)(jnp.stack([p.code for p in ps]))
            want = [p.spec.reshape((-1,)) for p in ps]
            h.check("vmap", out, ref.stack([w.conj().mul(w).real() for w in want]))

    return body


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(2020)
    out = []
    add = lambda nm, b, **k: out.append(Harness(nm, b, **k))
    # jit
    hows = ("closed", "args", "list", "again")
    for i in range(16 if not big else 60):
        n = 1 + i % 3 if not big else 1 + i % 4
        gs = random_circuit(rng, n, 4, pnames=("a", "b"))
        dm = i % 5 == 2 and n < 3
        add(f"jit:{hows[i % 4]}:{label(gs)}/{'dm' if dm else 'sv'}{n}q", jit_body(gs, n, "dm" if dm else "sv", hows[i % 4]), cost=4.0**n)
    for i in range(6 if not big else 24):
        n = 2 + i % 2
        gs = local_circuit(rng, n, 8, pnames=("a", "b"))
        add(f"jit local:{hows[i % 4]}:{label(gs)}", jit_body(gs, n, "sv", hows[i % 4]), cost=4.0**n)
    for i, ns in enumerate(NAMES):
        gs = renamed([g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("PHASE", 0, p="c"), g("RZ", 1, p="a")], ns)
        add(f"jit names:{hows[i % 4]}:{ns}", jit_body(gs, 2, "sv", hows[i % 4]), cost=10)
        add(f"vmap names:{ns}", vmap_values_body(gs, 2, "sv", 2 + i % 3), cost=30)
        add(f"pytree names:{ns}", pytree_body(lambda gs=gs, ns=ns, i=i: QuantumCircuit(2, [build(x) for x in gs], list(ns[i % 3:])), ("seq", gs), 2,
                                              fields=("fparams", "vparams", "param_names")), cost=15)
        e = ("add", [("scale", ns[0], g("X", 0)), ("scale", ns[1], ("seq", [g("Z", 0), ("scale", ns[2], g("Y", 1))]))])
        add(f"pytree names:{expr_label(e)}", pytree_body(lambda e=e: build_expr(e), e, 2), cost=15)
    for i in range(6 if not big else 24):
        gs = random_circuit(rng, 2, 4, pnames=("a", "b"))
        how = ("closed", "args", "list")[i % 3]
        add(f"jit real:{how}:{label(gs)}", reals(jit_body(gs, 2, "dm" if i % 3 == 1 else "sv", how)), cost=15)
    for i in range(9 if not big else 36):
        gs = analog_circuit(rng, 2, 4, 1 + i % 2, pnames=("a", "b"))
        how = ("closed", "args", "list")[i % 3]
        add(f"jit analog:{how}:{label(gs)}", jit_body(gs, 2, "dm" if i % 3 == 1 else "sv", how), cost=15)
    for i, (n, m) in enumerate(((5, 10), (6, 10), (7, 8)) if not big else ((5, 30), (6, 30), (7, 30), (8, 20), (9, 16))):
        for how in hows[: 2 if not big else 4]:
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            add(f"jit large:{how}:{label(gs)}/{n}q", few(3, jit_body(gs, n, "sv", how)), cost=60, limit=300)
        gs = random_circuit(rng, n, m, pnames=("a", "b")) + [g("RX", 0, p="a")]
        add(f"vmap large:{label(gs)}/{n}q", few(2, vmap_values_body(gs, n, "sv", 3)), cost=60, limit=300)
        add(f"vmap states large:{label(gs)}/{n}q", few(2, vmap_states_body(gs, n, "sv", 3, i % (n + 1))), cost=60, limit=300)
    nz = lambda k, p: ((k, p),)
    noisy = [g("RX", 0, p="a", noise=nz("BitFlip", 0.2)), g("X", 1, 0, noise=nz("AmplitudeDamping", 0.4))]
    for how in hows:
        add(f"jit:{how}:{label(noisy)}/dm2q", jit_body(noisy, 2, "dm", how), cost=30)
    pairs = [
        ([g("RX", 0, p="a")], [g("RY", 0, p="a")]), ([g("RX", 0, p="a")], [g("RX", 0, p="b")]), ([g("RX", 0, p="a")], [g("RX", 1, p="a")]),
        ([g("RZ", 0, p=0.3)], [g("RZ", 0, p=0.4)]), ([g("X", 0, 1)], [g("X", 1, 0)]), ([g("X", 0)], [g("Y", 0)]),
        ([g("PHASE", 0, p="a")], [g("PHASE", 0, 1, p="a")]), ([g("SWAP", (0, 1))], [g("ISWAP", (0, 1))]), ([g("I", 0)], [g("PHASE", 0, p="a")]),
    ]
    for a, b in pairs:
        add(f"jit pair:{label(a)}|{label(b)}", jit_pair_body(a, b, 2, "sv"), cost=8)
    add("jit pair:noise", jit_pair_body([g("X", 0, noise=nz("BitFlip", 0.2))], [g("X", 0, noise=nz("BitFlip", 0.3))], 1, "dm"), cost=8)
    add("jit pair:noise kind", jit_pair_body([g("X", 0, noise=nz("BitFlip", 0.2))], [g("X", 0, noise=nz("PhaseFlip", 0.2))], 1, "dm"), cost=8)
    # expectation
    modes = ("ad", "adjoint", "gpsr")
    k = 0
    for mode in modes:
        for how in ("closed", "args", "grad"):
            for _ in range(2 if not big else 5):
                n = 1 + k % 2
                gs = random_circuit(rng, n, 3, pnames=("a", "b"), maxc=0 if mode == "gpsr" else 1)
                if not names(gs):
                    gs[0] = g("RY", 0, p="a")
                obs = obs_list(rng, n, 1 + k % 2, params=mode != "gpsr")
                add(f"jit expectation:{mode}:{how}:{label(gs)}:{';'.join(map(expr_label, obs))}",
                    jit_expectation_body(gs, obs, n, "sv", mode, how), symspec=True, cost=40, limit=300)
                k += 1
    add("jit expectation:ad:args:dm", jit_expectation_body([g("RX", 0, p="a"), g("X", 1, 0)], [("obs", [g("Z", 1), g("X", 0)])], 2, "dm", "ad", "args"), symspec=True, cost=40)
    add("jit expectation:gpsr:grad:dm", jit_expectation_body([g("RX", 0, p="a"), g("X", 1, 0)], [("obs", [g("Z", 1), g("X", 0)])], 2, "dm", "gpsr", "grad"), symspec=True, cost=60)
    # vmap
    for i in range(8 if not big else 24):
        n = 1 + i % 3
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        if not names(gs):
            gs[0] = g("RY", 0, p="a")
        dm = i % 3 == 1
        n = min(n, 2) if dm else n
        if dm:
            gs = [x for x in gs if max(x.qubits) < n] or [g("RY", 0, p="a")]
            if not names(gs):
                gs.append(g("RX", 0, p="b"))
        add(f"vmap values:{label(gs)}/{'dm' if dm else 'sv'}{n}q", vmap_values_body(gs, n, "dm" if dm else "sv", 2 + i % 2), cost=4.0**n * 3)
        add(f"vmap one:{label(gs)}/{n}q", vmap_one_body(gs, n, names(gs)[0], 2), cost=4.0**n * 2)
        add(f"vmap states:{label(gs)}/{'dm' if dm else 'sv'}{n}q", vmap_states_body(gs, n, "dm" if dm else "sv", 2 + i % 2, 0 if dm else i % (n + 1)), cost=4.0**n * 3)
    for lanes in (1, 4) + ((8,) if big else ()):
        gs = [g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("PHASE", 1, p="a")]
        for kd in ("sv", "dm"):
            add(f"vmap values:{lanes} lanes:{kd}", vmap_values_body(gs, 2, kd, lanes), cost=40)
            add(f"vmap states:{lanes} lanes:{kd}", vmap_states_body(gs, 2, kd, lanes), cost=40)
    add("vmap values:noisy", vmap_values_body(noisy[:1], 1, "sv", 2) if False else vmap_values_body([noisy[0]], 1, "dm", 2), cost=12)
    add("vmap states:noisy", vmap_states_body(noisy, 2, "dm", 2), cost=40)
    gs2 = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="b")]
    ob2 = [("obs", [g("Z", 1), g("X", 0)])]
    for mode in modes:
        for grad in (False, True):
            add(f"vmap expectation:{mode}:{'grad' if grad else 'value'}", vmap_expectation_body(gs2, ob2, 2, mode, 2, grad), symspec=True, cost=60, limit=300)
    add("vmap expectation:ad:value:dm", vmap_expectation_body(gs2, ob2, 2, "ad", 2, False, "dm"), symspec=True, cost=60, limit=300)
    # control flow
    for nm, gs, n, kind in (("sv", gs2, 2, "sv"), ("1q", [g("H", 0), g("RZ", 0, p="a")], 1, "sv"), ("dm", [g("RX", 0, p="a"), g("Z", 0)], 1, "dm"), ("noisy", [noisy[0]], 1, "dm"), ("dm2", gs2, 2, "dm")):
        add(f"scan:{nm}", scan_body(gs, n, kind, "a", 2 if kind == "dm" or n > 1 else 3), cost=40)
        add(f"loop:{nm}", loop_body(gs, n, kind, 2), cost=40)
    add("cond:sv", cond_body([g("RX", 0, p="a")], [g("X", 1, 0)], 2, "sv"), cost=10)
    add("cond:dm", cond_body([g("RX", 0, p="a")], [g("Y", 0)], 1, "dm"), cost=10)
    # pytrees
    for x in [g(q, 0, p="a" if q in PAR else None) for q in ONE + PAR] + [g(q, 1, (0,), "a" if q in PAR else None) for q in ("X", "Y", "Z", "H") + PAR] + \
            [g(q, (1, 0)) for q in TWO] + [g("RX", 1, (2, 0), "a"), g("SWAP", (2, 0), 1), g("RY", 0, p=0.7), g("PHASE", 1, 0, p=-0.4)]:
        n = max(x.qubits) + 1
        add(f"pytree:{x.label()}", pytree_body(lambda x=x: build(x), x, n, fields=("name", "qubit_support", "n_qubits", "is_parametric")), cost=4)
    for kd, pr in (("BitFlip", 0.2), ("PauliChannel", (0.1, 0.2, 0.3)), ("GeneralizedAmplitudeDamping", (0.3, 0.6))):
        add(f"pytree noise:{kd}", noise_pytree_body(kd, pr), cost=2)
        for x in (g("X", 0, noise=nz(kd, pr)), g("RY", 0, p="a", noise=nz(kd, pr))):
            add(f"pytree:{x.label()}", pytree_body(lambda x=x: build(x), x, 1, noisy=True), cost=6)
    exprs = [
        (("seq", [g("X", 0), g("RY", 1, p="a")]), 2), (("scale", "w", g("Y", 0)), 1), (("scale", 2.5, ("seq", [g("X", 1), g("Z", 0)])), 2),
        (("add", [g("X", 0), g("RZ", 1, 0, p="a")]), 2), (("add", [("scale", "w", g("X", 0)), ("scale", -1.5, ("seq", [g("Y", 0), g("Z", 1)]))]), 2),
        (("seq", [("seq", [g("H", 0), g("X", 1, 0)]), ("seq", [g("RX", 1, p="a")])]), 2), (("seq", [g("H", 0), ("scale", "w", g("Z", 0))]), 1),
        (("obs", [("scale", "w", g("X", 1)), g("Z", 0)]), 2), (("obs", [("seq", [g("X", 0), g("Y", 1)])]), 2), (("scale", "w", ("add", [g("X", 0), g("Z", 0)])), 1),
    ]
    for e, n in exprs:
        add(f"pytree:{expr_label(e)}", pytree_body(lambda e=e: build_expr(e), e, n), cost=15, limit=200)
    for i in range(6 if not big else 24):
        n = 1 + i % 2
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        mk = lambda gs=gs, n=n, i=i: QuantumCircuit(n + (i == 3), [build(x) for x in gs], ["a", "z"] if i % 2 else [])
        add(f"pytree:circuit:{label(gs)}:{i}", pytree_body(mk, ("seq", gs), n, fields=("n_qubits", "fparams", "vparams", "n_vparams", "param_names", "qubit_support")), cost=15)
    add("pytree:noisy circuit", pytree_body(lambda: QuantumCircuit(2, [build(x) for x in noisy], ["a"]), ("seq", noisy), 2, noisy=True, fields=("fparams", "n_qubits")), cost=30)
    for n in (1, 2):
        add(f"pytree:density matrix:{n}q", dm_pytree_body(n), cost=5)
        if probabilities is None:
            break
        add(f"probabilities:dm:{n}q", probabilities_body(n, True), cost=3)
        add(f"probabilities:sv:{n}q", probabilities_body(n, False), cost=3)
    for c in PAR:
        for m in ("jit", "pytree"):
            add(f"shift:{c}:{m}", shifted_body(c, m), cost=3)
    return uniq(out)
