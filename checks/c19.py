"""C19: parameters are bound by name and accounted for."""
from .obs_common import *
from engine.symint import SymInt

from horqrux.circuit import hea

EXTRA = ("unused", "A", "a ", "circuit", "aa", "")


# ------------------------------------------------------------------------------- binding
def bind_body(gates, n, order, extra=(), dm=False, how="run"):
    def body(h):
        vc, vs = values(h, gates, extra)
        vc = {k: vc[k] for k in order} if order else vc
        if dm:
            st, rho = dm_code(h, "rho", n)
            want = dm_evolve(h, gates, rho, n, vs)
        else:
            p = h.cstate("psi", n)
            st, want = p.code, act_all(h, gates, p.spec, vs)
        qc = circuit(gates, n)
        out = qc(st, vc) if how == "call" else apply_gates(st, [build(x) for x in gates], vc) if how == "apply" else hq.run(qc, st, vc)
        h.check("state", as_matrix(h, out, n) if dm else out, want)

    return body


def order_body(gates, n, obs=None):
    """Every insertion order of the dictionary, as a symbolic permutation."""

    def body(h):
        vc, vs = obs_values(h, gates, obs or [])
        left, d = list(vc), {}
        for i in range(len(vc)):
            k = left.pop(int(SymInt(h, f"pick{i}", 0, len(left) - 1))) if len(left) > 1 else left.pop()
            d[k] = vc[k]
        p = h.cstate("psi", n)
        if obs:
            ob = [build_expr(o) for o in obs]
            h.check("expectation", hq.expectation(p.code, circuit(gates, n), ob, d), exact(h, p.spec, gates, obs, n, vs))
        else:
            h.check("state", hq.run(circuit(gates, n), p.code, d), act_all(h, gates, p.spec, vs))

    return body


def numeric_body(name, t, c, n, kind):
    """The angle is the argument itself, whatever values are given."""

    def body(h):
        p = h.cstate("psi", n)
        a = h.angle("x")
        op = getattr(P, name)(a.code if kind == "array" else 0.731, t, c or (None,))
        th = a.spec if kind == "array" else h.const(0.731)
        want = ref.apply(p.spec, ref.gate(h, name, th), (t,), c)
        other = {"x": h.angle("y").code, "0.731": h.angle("z").code}
        h.check("with values", op(p.code, other), want)
        h.check("without", op(p.code), want)
        h.true("not parametric", not op.is_parametric)

    return body


def missing_body(gates, n, drop, how):
    def body(h):
        vc, vs = values(h, gates, EXTRA[:3])
        del vc[drop]
        p = h.cstate("psi", n)
        ob = [build_expr(("obs", [g("Z", 0)]))]
        calls = {
            "run": lambda: hq.run(circuit(gates, n), p.code, vc),
            "none": lambda: hq.run(circuit(gates, n), p.code),
            "ad": lambda: hq.expectation(p.code, circuit(gates, n), ob, vc),
            "adjoint": lambda: hq.expectation(p.code, circuit(gates, n), ob, vc, diff_mode="adjoint"),
            "gpsr": lambda: hq.expectation(p.code, circuit(gates, n), ob, vc, diff_mode="gpsr"),
            "tensor": lambda: circuit(gates, n).tensor(vc),
            "sample": lambda: hq.sample(hq.zero_state(n), circuit(gates, n), {k: 0.3 for k in vc}, 3),
        }
        h.raises("an error", Exception, calls[how], True)
        h.check("decided", h.const(0.0), h.const(0.0))

    return body


def missing_scale_body(how):
    def body(h):
        p = h.cstate("psi", 1)
        e = ("scale", "w", g("X", 0))
        f = {"call": lambda: build_expr(e)(p.code, {"v": h.angle("v").code}),
             "tensor": lambda: build_expr(e).tensor({"v": h.angle("v").code}),
             "expectation": lambda: hq.expectation(p.code, circuit([g("H", 0)], 1), [build_expr(("obs", [e]))], {"v": h.angle("v").code})}[how]
        h.raises("an error", Exception, f, True)
        h.check("decided", h.const(0.0), h.const(0.0))

    return body


def separate_body(gates, obs, n, mode):
    """The same names in both dictionaries have separate values."""

    def body(h):
        p = h.cstate("psi", n)
        cc, cs, oc, os_ = {}, {}, {}, {}
        ns = list(dict.fromkeys(names(gates) + [x for o in obs for x in expr_names(o)]))
        for k in ns:
            x, y = h.angle("circuit " + k), h.angle("observables " + k)
            cc[k], cs[k], oc[k], os_[k] = x.code, x.spec, y.code, y.spec
        for d in ({"circuit": cc, "observables": oc}, {"observables": oc, "circuit": cc}):
            out = hq.expectation(p.code, circuit(gates, n), [build_expr(o) for o in obs], d, diff_mode=mode)
            h.check(",".join(d), out, exact(h, p.spec, gates, obs, n, cs, os_))

    return body


def one_key_body(key):
    """A parameter may be called circuit or observables."""

    def body(h):
        p = h.cstate("psi", 1)
        a = h.angle("x")
        gs = [g("RX", 0, p=key)]
        out = hq.expectation(p.code, circuit(gs, 1), [build_expr(("obs", [g("Z", 0)]))], {key: a.code})
        h.check("value", out, exact(h, p.spec, gs, [("obs", [g("Z", 0)])], 1, {key: a.spec}))

    return body


# ----------------------------------------------------------------------------- bookkeeping
MENU = [g("X", 0), g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("PHASE", 0, p="a"), g("RZ", 1, p=0.4), ("seq", [g("RX", 0, p="c"), g("H", 1)]),
        ("add", [g("RX", 0, p="b"), g("Z", 1)]), ("scale", 2.0, g("RY", 0, p="c"))]


def used(e):
    if isinstance(e, G):
        return {e.p} if isinstance(e.p, str) else set()
    inner = e[2:] if e[0] == "scale" else e[1]
    return set().union(*(used(x) for x in inner))


def renamed_expr(e, m):
    if isinstance(e, G):
        return replace(e, p=m[e.p]) if isinstance(e.p, str) else e
    if e[0] == "scale":
        return ("scale", e[1], renamed_expr(e[2], m))
    return (e[0], [renamed_expr(x, m) for x in e[1]])


def account_body(slots, fnames, ns="abc", menu=None):
    """A symbolic program: every slot ranges over the menu, every name may be a feature parameter."""
    menu = [renamed_expr(e, dict(zip("abc", ns))) for e in (menu or MENU)]

    def body(h):
        ks = [SymInt(h, f"op{i}", 0, len(menu) - 1) for i in range(slots)]
        fs = [SymInt(h, f"feature {f}", 0, 1) for f in fnames]
        ops = [build_expr(menu[int(k)]) for k in ks]
        fp = [f for f, b in zip(fnames, fs) if int(b)]
        qc = QuantumCircuit(2, ops, fp)
        seq = OpSequence(ops)
        # 0/1 specification of "the name is used"
        uses = {}
        for nm in ns:
            no = h.const(1.0)
            for k in ks:
                for i, e in enumerate(menu):
                    if nm in used(e):
                        no = no.mul(h.const(1.0).add(h.cond("eq", k.spec().add(h.const(float(i)), -1.0)), -1.0))
            uses[nm] = h.const(1.0).add(no, -1.0)
        var = {nm: uses[nm].mul(h.const(1.0).add(fs[fnames.index(nm)].spec(), -1.0)) if nm in fnames else uses[nm] for nm in ns}
        for nm in ns:
            h.check(f"{nm} in param_names", h.const(float(nm in qc.param_names)), uses[nm], 0.25)
            h.check(f"{nm} in the sequence", h.const(float(nm in seq.param_names)), uses[nm], 0.25)
            h.check(f"{nm} in vparams", h.const(float(nm in qc.vparams)), var[nm], 0.25)
        n = lambda d: d[ns[0]].add(d[ns[1]]).add(d[ns[2]])
        h.check("number of parameters", h.const(float(len(qc.param_names))), n(uses), 0.25)
        h.check("number of variational parameters", h.const(float(qc.n_vparams)), n(var), 0.25)
        h.check("of the sequence", h.const(float(seq.n_vparams)), n(uses), 0.25)
        h.true("feature parameters", list(qc.fparams) == fp, str(qc.fparams))
        h.true("qubits", qc.n_qubits == 2)
        h.true("operations", len(qc.operations) == slots)

    return body


def defaults_body(h):
    qc = QuantumCircuit(3, [P.X(0)])
    h.true("no feature parameters", list(qc.fparams) == [])
    h.true("no parameters", not qc.param_names and not qc.vparams and qc.n_vparams == 0)
    h.true("n_qubits", qc.n_qubits == 3)
    other = QuantumCircuit(2, [P.RX("x", 0)], ["x"])
    h.true("not shared", list(QuantumCircuit(1, [P.X(0)]).fparams) == [] and list(other.fparams) == ["x"])
    h.check("decided", h.const(0.0), h.const(0.0))


# ------------------------------------------------------------------------------------ hea
def hea_body(n, layers, rots, prefix):
    """Layout of the ansatz, and its action with a symbolic value for every parameter."""

    def body(h):
        kw = {}
        if rots is not None:
            kw["rot_fns"] = [getattr(P, r) for r in rots]
        if prefix is not None:
            kw["variational_param_prefix"] = prefix
        ops = hea(n, layers, **kw)
        rs = rots if rots is not None else ("RX", "RY", "RX")
        want = []
        for _ in range(layers):
            for q in range(n):
                want += [(r, q, None) for r in rs]
                want += [("X", (k + 1) % n, k) for k in range(n)]
        h.true("number of gates", len(ops) == len(want), f"{len(ops)} instead of {len(want)}")
        h.true("a list", isinstance(ops, list))
        pn, gs = [], []
        for k, (o, (nm, t, c)) in enumerate(zip(ops, want)):
            kind = {"RX": "X", "RY": "Y", "RZ": "Z", "PHASE": "I", "X": "X"}[nm]
            h.true(f"gate {k}: target", tuple(o.target[0]) == (t,), f"{o} where {nm}({t}, {c}) is required")
            h.true(f"gate {k}: control", tuple(o.control[0]) == ((None,) if c is None else (c,)), f"{o} where {nm}({t}, {c}) is required")
            h.true(f"gate {k}: kind", o.generator_name == kind and o.is_parametric == (c is None), f"{o} where {nm}({t}, {c}) is required")
            if c is None:
                pn.append(o.param)
                gs.append(g(nm, t, p=o.param))
            else:
                gs.append(g("X", t, c))
        h.true("fresh names", len(set(pn)) == len(pn), "two rotations share a parameter")
        h.true("prefix", all(p.startswith("v_" if prefix is None else prefix) for p in pn), str(pn[:3]))
        qc = QuantumCircuit(n, ops)
        h.true("variational parameters", qc.vparams == set(pn) and qc.n_vparams == len(pn) == layers * n * len(rs))
        again = hea(n, layers, **kw)
        h.true("fresh names in another ansatz", not ({o.param for o in again if o.is_parametric} & set(pn)))
        if len(gs) <= 12 and n <= 3:
            p = h.cstate("psi", n)
            vs, vc = {}, {}
            for i, k in enumerate(pn):
                x = h.angle(f"v{i}")
                vc[k], vs[k] = x.code, x.spec
            h.check("action", qc(p.code, vc), act_all(h, gs, p.spec, vs))
        else:
            h.check("decided", h.const(0.0), h.const(0.0))

    return body


def hea_feature_body(h):
    """A feature map in front of the ansatz."""
    n = 2
    fm = [P.RX("x", i) for i in range(n)]
    ops = hea(n, 1)
    qc = QuantumCircuit(n, fm + ops, ["x"])
    h.true("variational", qc.n_vparams == 6 and "x" not in qc.vparams and "x" in qc.param_names)
    h.true("all", len(qc.param_names) == 7)
    h.check("decided", h.const(0.0), h.const(0.0))


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(1919)
    out = []
    add = lambda nm, b, **k: out.append(Harness(nm, b, **k))
    hows = ("run", "call", "apply")
    for i in range(9 if not big else 30):
        n = 1 + i % 3
        gs = random_circuit(rng, n, 4, pnames=("a", "b", "c"))
        gs[1] = g("RY", 0, p="b")
        ns = names(gs)
        rng.shuffle(ns)
        ex = EXTRA[: i % 4]
        ns = list(ex) + ns
        rng.shuffle(ns)
        add(f"bind:{label(gs)}:{i}", bind_body(gs, n, ns, ex, i % 3 == 2 and n < 3, hows[i % 3]), cost=4.0**n)
    gs = [g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("RZ", 1, p="c"), g("PHASE", 0, p="d"), g("RX", 1, p="a")]
    add("order:circuit", order_body(gs, 2), cost=60, limit=200)
    add("order:expectation", order_body(gs[:2], 2, [("obs", [("scale", "w", g("Z", 0)), ("scale", "v", g("X", 1))])]), cost=60, limit=200)
    for k in PAR:
        for t, c, n in ((0, (), 1), (1, (0,), 2)):
            for kind in ("array", "float"):
                add(f"numeric:{k}:{t}{'c0' if c else ''}:{kind}", numeric_body(k, t, c, n, kind), cost=3)
    for how in ("run", "none", "ad", "adjoint", "gpsr", "tensor", "sample"):
        for d in ("a", "b"):
            add(f"missing:{how}:{d}", missing_body([g("RX", 0, p="a"), g("PHASE", 1, 0, p="b")], 2, d, how), cost=3)
    for how in ("call", "tensor", "expectation"):
        add(f"missing factor:{how}", missing_scale_body(how), cost=2)
    g2 = [g("RX", 0, p="x"), g("RY", 1, 0, p="y")]
    ob = [("obs", [("scale", "x", g("Z", 0)), g("X", 1)]), ("obs", [("scale", "y", g("Y", 1))])]
    for m in ("ad", "adjoint", "gpsr"):
        add(f"separate:{m}", separate_body(g2, ob, 2, m), cost=10)
    for k in ("circuit", "observables"):
        add(f"named {k}", one_key_body(k), cost=2)
    add("account:1", account_body(1, ["a", "b", "c"]), cost=30, limit=200)
    add("account:2", account_body(2, ["a", "b"]), cost=200, limit=300)
    add("account:3", account_body(3, ["b"] if big else []), cost=900, limit=800 if big else 400)
    few_ops = [g("X", 0), g("RX", 0, p="a"), g("RY", 1, p="b"), ("seq", [g("RX", 0, p="c"), g("RY", 1, p="a")])]
    for k, ns in enumerate(NAMES):
        for fs in ((0, 1), (2,)) if not big else ((0, 1, 2), (0,), (1,), (2,)):
            add(f"account:names:{','.join(ns)}:{fs}", account_body(2, [ns[j] for j in fs], ns, few_ops), cost=100, limit=300)
        gs = renamed([g("RX", 0, p="a"), g("RY", 1, 0, p="b"), g("PHASE", 0, p="c"), g("RX", 1, p="a")], ns)
        for how in hows if big else hows[k % 3:][:1]:
            add(f"bind:names:{','.join(ns)}:{how}", bind_body(gs, 2, list(ns)[::-1], (), False, how), cost=16)
        add(f"order:names:{','.join(ns)}", order_body(gs[:3], 2), cost=40)
        ob = [("obs", [("scale", ns[1], g("Z", 0)), g("X", 1)]), ("obs", [("scale", ns[0], g("Y", 1)), ("scale", ns[2], g("X", 0))])]
        for m in ("ad", "adjoint", "gpsr"):
            add(f"separate:names:{','.join(ns)}:{m}", separate_body(gs[:1] + gs[2:], ob, 2, m), cost=20)
        for d in range(3):
            add(f"missing:names:{','.join(ns)}:{d}", missing_body(gs, 2, ns[d], ("run", "ad", "adjoint", "gpsr", "tensor")[(k + d) % 5]), cost=3)
    add("account:defaults", defaults_body, cost=1)
    for n, layers, rots, prefix in ((2, 1, None, None), (2, 1, ("RY",), "w"), (3, 1, ("RZ",), None), (2, 2, ("RX",), ""), (3, 2, None, "p_"), (4, 1, ("RZ", "RX"), None),
                                    (4, 3, None, None), (2, 0, None, None), (5, 2, ("PHASE", "RX", "RZ", "RY"), "q"), (2, 1, (), None), (6, 4, None, "v")):
        add(f"hea:{n}q:{layers}:{'default' if rots is None else '-'.join(rots)}:{prefix}", hea_body(n, layers, rots, prefix), cost=10, limit=200)
    add("hea:feature map", hea_feature_body, cost=1)
    return uniq(out)
