"""C23: computations leave their inputs alone and are repeatable."""
import collections

from .c14 import wanted
from .c18 import start
from .obs_common import *
from engine import stubs
from engine.symint import SymInt
from jax.experimental.sparse import BCOO

from horqrux.utils import operator_utils as ou

KEY = jax.random.PRNGKey(5)


# ------------------------------------------------------------------------------- snapshots
def snap(x, depth=0):
    """Publicly visible content of an argument; arrays by the value they hold."""
    if depth > 12:
        return "deep"
    if isinstance(x, (str, bytes, bool, int, float, complex, type(None), type)):
        return x if not isinstance(x, SymInt) else int(x)
    if isinstance(x, dict):
        return ("dict", [(snap(k, depth + 1), snap(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, BCOO):
        return ("BCOO", x.shape, snap(x.data, depth + 1), snap(x.indices, depth + 1))
    if hasattr(x, "val") and hasattr(x, "aval"):
        return Val(x)
    if hasattr(x, "shape") and hasattr(x, "dtype"):
        a = np.asarray(x)
        return ("array", a.shape, str(a.dtype), a.tobytes())
    if callable(x) and hasattr(x, "__name__"):
        return ("callable", x.__name__)
    d = getattr(x, "__dict__", None)
    if d is None:
        return ("object", type(x).__name__, repr(x))
    return ("object", type(x).__name__, {k: snap(v, depth + 1) for k, v in d.items() if not k.startswith("_")})


class Val:
    """A symbolic value: the tracer itself and its terms."""

    def __init__(self, x):
        self.x, self.polys = x, [dict(p) for p in x.val.polys()] if isinstance(x.val, SA) else np.array(x.val).tobytes()

    def __eq__(self, o):
        return isinstance(o, Val) and (self.x is o.x or self.polys == o.polys)

    def __repr__(self):
        return "symbolic"


def same(a, b):
    """Nothing that was visible before has changed (new attributes may have appeared)."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and a[0] == "object" and isinstance(a[2], dict):
        return b[:2] == a[:2] and all(k in b[2] and same(v, b[2][k]) for k, v in a[2].items())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------------------------- fixture
class World:
    """The shared arguments of a history."""

    def __init__(self, h, gates, obs, n, noisy=None):
        self.h, self.gates, self.obs, self.n = h, gates, obs, n
        st, psi, _ = start(h, gates, n, "sv")
        self.state, self.psi = st, psi
        self.vc, self.vs = values(h, gates)
        self.dm, self.rho = density_mat(st), ref.outer(psi)
        self.circuit = circuit(gates, n)
        self.ops = [build(x) for x in gates]
        self.obs_code = [build_expr(o) for o in obs]
        self.nested_values = {"circuit": dict(self.vc), "observables": {}}
        self.sparse = QuantumCircuit(n, [build(x, True) for x in gates])
        self.noisy_gates = noisy or gates
        self.noisy = circuit(self.noisy_gates, n)
        # a second circuit of the same shape, so that nothing kept from the first may leak
        self.other_gates = [replace(x, p={"a": "b", "b": "a"}[x.p]) if isinstance(x.p, str) else x for x in gates]
        self.other = circuit(self.other_gates, n)
        self.other_ops = [build(x) for x in self.other_gates]
        self.zero = hq.zero_state(n)
        self.ops_gates, self.epoch = list(gates), 0

    def update(self):
        """The caller changes his own dictionary and lists in place, as a training loop does."""
        self.epoch += 1
        for k in self.vc:
            p = self.h.angle(f"{k}, update {self.epoch}")
            self.vc[k] = self.nested_values["circuit"][k] = p.code
            self.vs = {**self.vs, k: p.spec}
        self.ops.reverse()
        self.ops_gates = self.ops_gates[::-1]
        self.obs_code.reverse()
        self.obs = self.obs[::-1]
        for k in [k for k in self.__dict__ if k.startswith("shotp") or k in ("shots", "samples")]:
            del self.__dict__[k]

    def args(self):
        return {k: getattr(self, k) for k in ("state", "vc", "dm", "circuit", "ops", "obs_code", "nested_values",
                                              "sparse", "noisy", "other", "other_ops", "zero")}


def memo(w, key, fn):
    c = w.h.V.__dict__.setdefault("specs23", {})
    key = (w.epoch, key)
    if w.h.mode == "conc" or key not in c:
        c[key] = fn()
    return c[key]


def want(w, gates=None, dm=False, obs=None):
    gs = gates or w.gates
    return memo(w, ("want", label(gs), dm), lambda: wanted(w.h, gs, w.obs, w.n, w.vs, dm, w.psi, w.rho))


def want_grad(w, k, gates=None):
    return memo(w, ("grad", k, label(gates or w.gates)), lambda: ref.grad(w.h, want(w, gates), k if not w.epoch else f"{k}, update {w.epoch}"))


def mean(w, x):
    v = w.h.value(x)
    return stubs.expect(w.h.session, v) if w.h.mode == "sym" else v


def op_run(w, t):
    w.h.check(t + "run", hq.run(w.circuit, w.state, w.vc), memo(w, "run", lambda: act_all(w.h, w.gates, w.psi, w.vs)))


def op_other(w, t):
    w.h.check(t + "run of another circuit", hq.run(w.other, w.state, w.vc), memo(w, "run2", lambda: act_all(w.h, w.other_gates, w.psi, w.vs)))


def op_run_dm(w, t):
    w.h.check(t + "run on a density matrix", as_matrix(w.h, hq.run(w.circuit, w.dm, w.vc), w.n),
              memo(w, "rundm", lambda: dm_evolve(w.h, w.gates, w.rho, w.n, w.vs)))


def op_noisy(w, t):
    w.h.check(t + "noisy run", as_matrix(w.h, hq.run(w.noisy, w.state, w.vc), w.n),
              memo(w, "noisy", lambda: dm_evolve(w.h, w.noisy_gates, w.rho, w.n, w.vs)))


def op_exp(mode):
    def op(w, t):
        w.h.check(t + f"expectation {mode}", hq.expectation(w.state, w.circuit, w.obs_code, w.vc, diff_mode=mode), want(w))

    return op


def op_exp_dm(w, t):
    w.h.check(t + "expectation of a density matrix", hq.expectation(w.dm, w.circuit, w.obs_code, w.vc), want(w))


def op_exp_nested(w, t):
    w.h.check(t + "expectation with separate values", hq.expectation(w.state, w.circuit, w.obs_code, w.nested_values), want(w))


def op_exp_other(w, t):
    w.h.check(t + "expectation of another circuit", hq.expectation(w.state, w.other, w.obs_code, w.vc, diff_mode="gpsr"), want(w, w.other_gates))


def op_grad(mode):
    def op(w, t):
        J = jax.jacrev(lambda v: hq.expectation(w.state, w.circuit, w.obs_code, v, diff_mode=mode))(w.vc)
        for k in w.vc:
            w.h.check(t + f"{mode} d/d{k}", J[k], want_grad(w, k))

    return op


def op_bwd(which):
    def op(w, t):
        from horqrux.differentiation.gpsr import analytical_gpsr_bwd

        gs = w.ops_gates if which == "ops" else w.other_gates
        got = w.h.value(analytical_gpsr_bwd(w.state, getattr(w, which), w.obs_code, w.vc))
        for i, k in enumerate(w.vc):
            d = want_grad(w, k, gs)
            tot = d.take(0)
            for j in range(1, len(w.obs)):
                tot = tot.add(d.take(j))
            w.h.check(t + f"shift rule d/d{k}", got.take(i), tot)

    return op


def op_shots(mode):
    def op(w, t):
        ev = w.h.session.events
        k0 = len(ev)
        got = hq.expectation(w.state, w.circuit, w.obs_code, w.vc, diff_mode=mode, n_shots=2, key=KEY)
        new = ev[k0:]
        w.h.check(t + f"{mode} shots, mean", mean(w, got), want(w))
        if w.h.mode == "sym":
            keys = tuple(e["key"] for e in new)
            c = w.__dict__.setdefault("shotkeys", keys)
            w.h.true(t + "the same key gives the same draws", c == keys, "the draws of two calls with one key differ")
            for i, e in enumerate(new):
                first = w.__dict__.setdefault(f"shotp{i}", e)
                if first is not e:
                    w.h.check(t + f"same distribution {i}", e["p"], first["p"])
                    w.h.check(t + f"same outcomes {i}", e["a"], first["a"])
        else:
            # concrete: the real sampler, twice
            old = stubs.MODE
            stubs.set_mode(None)
            try:
                a = np.asarray(hq.expectation(w.state, w.circuit, w.obs_code, w.vc, diff_mode=mode, n_shots=20, key=KEY))
            finally:
                stubs.set_mode(old)
            b = w.__dict__.setdefault("shots", a)
            w.h.true(t + "the same key gives the same draws", np.allclose(a, b), f"{a} and {b} with one key")

    return op


def op_sample(w, t):
    if w.h.mode == "sym":
        ev = w.h.session.events
        k0 = len(ev)
        hq.sample(hq.zero_state(1), w.plain, {}, 1)
        keys = tuple(e["key"] for e in ev[k0:])
        c = w.__dict__.setdefault("samplekeys", keys)
        w.h.true(t + "sampling is repeatable", c == keys, "the draws of two calls differ")
    else:
        old = stubs.MODE
        stubs.set_mode(None)
        try:
            a = hq.sample(w.state, w.circuit, w.vc, 50)
        finally:
            stubs.set_mode(old)
        b = w.__dict__.setdefault("samples", a)
        w.h.true(t + "sampling is repeatable", a == b, f"{a} and {b}")


def op_tensor(w, t):
    w.h.check(t + "tensor", w.circuit.tensor(w.vc, tuple(range(w.n))), memo(w, "tensor", lambda: full_all(w.h, w.gates, w.n, w.vs)))


def op_observable(w, t):
    for i, (o, e) in enumerate(zip(w.obs_code, w.obs)):
        w.h.check(t + f"observable {i}", o.tensor(w.vc, tuple(range(w.n))), memo(w, ("obs", i), lambda: expr_matrix(w.h, e, w.n, w.vs)))


def op_convert(w, t):
    from horqrux.utils.conversion import to_dense, to_sparse

    s = to_sparse(w.circuit)
    d = to_dense(s)
    w.h.true(t + "conversion", all(x.sparse for x in s.operations) and not any(x.sparse for x in d.operations))
    w.h.check(t + "converted", hq.run(d, w.state, w.vc), memo(w, "run", lambda: act_all(w.h, w.gates, w.psi, w.vs)))
    to_dense(w.sparse)
    to_sparse(w.obs_code[0])


def op_sparse(w, t):
    s = hq.zero_state(w.n, True)
    z = np.zeros(2**w.n)
    z[0] = 1
    w.h.check(t + "sparse run", hq.run(w.sparse, s, w.vc), memo(w, "sparse", lambda: act_all(w.h, w.gates, w.h.const(z.reshape((2,) * w.n)), w.vs)))


def op_lists(w, t):
    for i, kw in enumerate((dict(), dict(merge_ops=False), dict(group_gates=True))):
        w.h.check(t + f"gate list {i}", apply_gates(w.state, w.ops, w.vc, **kw), memo(w, "list", lambda: act_all(w.h, w.ops_gates, w.psi, w.vs)))


def op_jit(w, t):
    f = w.__dict__.setdefault("jitted", jax.jit(lambda c, s, v: hq.run(c, s, v)))
    w.h.check(t + "compiled run", f(w.circuit, w.state, w.vc), memo(w, "run", lambda: act_all(w.h, w.gates, w.psi, w.vs)))
    w.h.check(t + "compiled run of another circuit", f(w.other, w.state, w.vc), memo(w, "run2", lambda: act_all(w.h, w.other_gates, w.psi, w.vs)))


def op_missing(w, t):
    for f in (lambda: hq.run(w.circuit, w.state), lambda: hq.expectation(w.state, w.circuit, w.obs_code), lambda: w.circuit.tensor()):
        w.h.raises(t + "a missing value is an error", KeyError, f, True)


def op_account(w, t):
    ns = set(names(w.gates))
    c = w.circuit
    w.h.true(t + "names", set(c.param_names) == ns and set(c.vparams) == ns and c.n_vparams == len(ns), f"{c.param_names}")
    w.h.true(t + "operations", [type(x).__name__ for x in iter(c)] == [type(build(x)).__name__ for x in w.gates])
    w.h.true(t + "support", tuple(c.qubit_support) == tuple(sorted({q for x in w.gates for q in x.qubits})))


def op_tree(w, t):
    leaves, td = jax.tree_util.tree_flatten(w.circuit)
    w.h.check(t + "unflattened", hq.run(jax.tree_util.tree_unflatten(td, leaves), w.state, w.vc),
              memo(w, "run", lambda: act_all(w.h, w.gates, w.psi, w.vs)))
    jax.tree_util.tree_map(lambda x: x * 2.0, w.vc)
    jax.tree_util.tree_map(lambda x: x * 0.5, w.dm)


def op_states(w, t):
    i = memo(w, "norm", lambda: ref.inner(w.psi, w.psi))
    w.h.check(t + "overlap", hq.overlap(w.state, w.state), i.conj().mul(i).real())
    ps = memo(w, "probs", lambda: w.psi.reshape((-1,)).conj().mul(w.psi.reshape((-1,))).real())
    w.h.check(t + "probabilities", ou.probabilities(w.state), ps)
    w.h.check(t + "probabilities of the density matrix", ou.probabilities(w.dm), ps)
    density_mat(w.dm)
    ou.num_qubits(w.dm)


def op_gates(w, t):
    group_by_index = internal("horqrux.apply:group_by_index")
    for x, y in zip(w.ops, w.ops_gates):
        w.h.check(t + f"matrix {y.label()}", x.tensor(w.vc, tuple(range(w.n))), memo(w, ("m", y.label()), lambda: full(w.h, y, w.n, w.vs)))
    for x in w.ops:
        if hasattr(x, "jacobian"):
            x.jacobian(w.vc)
        x._unitary(w.vc) if hasattr(x, "_unitary") else None
    if group_by_index is not None:
        group_by_index(w.ops)


MENU = [op_run, op_exp("ad"), op_exp("adjoint"), op_exp("gpsr"), op_grad("gpsr"), op_grad("adjoint"), op_bwd("ops"), op_bwd("other_ops"),
        op_shots("ad"), op_sample, op_convert, op_lists, op_jit, op_missing, op_tree, op_states, op_gates, op_tensor, op_observable,
        op_run_dm, op_exp_dm, op_exp_nested, op_exp_other, op_noisy, op_other, op_sparse, op_account, op_grad("ad"), op_shots("gpsr")]
NAMES = ["run", "ad", "adjoint", "gpsr", "gpsr-grad", "adjoint-grad", "shift-rule", "shift-rule-other", "shots", "sample", "convert", "lists", "jit",
         "missing", "tree", "states", "gates", "tensor", "observable", "run-dm", "ad-dm", "separate", "gpsr-other", "noisy", "other", "sparse",
         "account", "ad-grad", "gpsr-shots"]


def history_body(gates, obs, n, noisy, first, menu, again, length=1):
    """first, then calls chosen by symbolic integers, then (again) the first call once more."""

    def body(h):
        w = World(h, gates, obs, n, noisy)
        w.plain = circuit([g("H", 0)], 1)
        before = {k: snap(v) for k, v in w.args().items()}

        def step(i, t):
            MENU[i](w, t)
            for k, v in w.args().items():
                h.true(f"{t}{NAMES[i]} leaves {k} alone", same(before[k], snap(v)), f"{k} has changed after {NAMES[i]}")

        step(first, "1st: ")
        for j in range(length):
            c = SymInt(h, f"call{j}", 0, len(menu) - 1)
            step(menu[int(c)], f"{('2nd', '3rd')[j]}: ")
        if again:
            step(first, "last: ")

    return body


def update_body(gates, obs, n, noisy, first, menu):
    """A call, then the caller changes his dictionary and lists in place, then the same or another call."""

    def body(h):
        w = World(h, gates, obs, n, noisy)
        w.plain = circuit([g("H", 0)], 1)
        MENU[first](w, "1st: ")
        w.update()
        before = {k: snap(v) for k, v in w.args().items()}
        i = first if len(menu) == 1 else menu[int(SymInt(h, "call", 0, len(menu) - 1))]
        MENU[i](w, "after the update: ")
        for k, v in w.args().items():
            h.true(f"{NAMES[i]} leaves {k} alone", same(before[k], snap(v)), f"{k} has changed after {NAMES[i]}")

    return body


GATES = [g("RX", 0, p="a"), g("X", 1, 0), g("RY", 1, p="a"), g("PHASE", 0, p="b")]
NOISY = [g("RX", 0, p="a", noise=(("AmplitudeDamping", 0.3),)), g("X", 1, 0), g("RY", 1, p="a", noise=(("BitFlip", 0.2),)), g("PHASE", 0, p="b")]
OBS = [("obs", [g("Z", 0), ("scale", 0.5, g("X", 1))]), ("obs", [("seq", [g("Y", 0), g("Z", 1)])])]


def harnesses(tier):
    big = tier == "thorough"
    out = []
    allops = list(range(len(MENU)))
    quick = [NAMES.index(x) for x in ("run", "gpsr", "gpsr-grad", "adjoint-grad", "shift-rule-other", "shots", "convert", "lists", "missing", "tree", "noisy", "states")]
    for i in allops:
        b = history_body(GATES, OBS, 2, NOISY, i, allops if big else quick, True)
        out.append(Harness(f"history:{NAMES[i]}", b, sampler=("sym", "mean"), symspec=True, limit=700 if big else 400, cost=30, validate=True))
        b = update_body(GATES, OBS, 2, NOISY, i, [i] if not big else [i] + [k for k in quick if k != i])
        out.append(Harness(f"update:{NAMES[i]}", b, sampler=("sym", "mean"), symspec=True, limit=700 if big else 300, cost=5 if not big else 20, validate=True))
    if big:
        for i in quick:
            b = history_body(GATES, OBS, 2, NOISY, i, quick, False, 2)
            out.append(Harness(f"history3:{NAMES[i]}", b, sampler=("sym", "mean"), symspec=True, limit=800, cost=300))
    return uniq(out)
