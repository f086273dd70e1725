"""Shared vocabulary of the checks: gate descriptions, their horqrux objects and their reference."""
from __future__ import annotations

import itertools
import random
from dataclasses import dataclass, field, replace

import numpy as np

from engine import expm, ref
from engine.harness import H, Harness
from engine.sym import SA

import jax
import jax.numpy as jnp

import horqrux as hq
from horqrux import primitives as P
from horqrux.analog import HamiltonianEvolution
from horqrux.apply import apply_gates, apply_operator
from horqrux.circuit import QuantumCircuit
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.utils.operator_utils import DensityMatrix, density_mat



def internal(path):
    """A function the public interface does not promise: None where a refactoring took it away
    (the harnesses that call it directly are then left out; those through the interface stay)."""
    import importlib

    mod, _, name = path.partition(":")
    try:
        return getattr(importlib.import_module(mod), name, None)
    except ImportError:
        return None


ONE = ("I", "X", "Y", "Z", "H", "S", "T")
TWO = ("SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP")
PAR = ("RX", "RY", "RZ", "PHASE")


PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def pauli_sum(terms):
    """terms: [(coefficient, 'XZ'), ...]"""
    out = 0
    for w, s in terms:
        m = np.eye(1)
        for x in s:
            m = np.kron(m, PAULI[x])
        out = out + w * m
    return np.asarray(out, complex)


# "EVO" gates: HamiltonianEvolution under this Hamiltonian (by the number of targets), for values["time_evolution"]
HAMILTONIAN = {1: pauli_sum([(1.0, "Y")]), 2: pauli_sum([(1.0, "YX")]), 3: pauli_sum([(1.0, "ZXY")])}


def evo(t, c=()):
    t, c = ((t,) if isinstance(t, int) else tuple(t)), ((c,) if isinstance(c, int) else tuple(c))
    return G("EVO", t, c, "time_evolution")


def analog(gates):
    """The Hamiltonian the evolutions among the gates need."""
    k = {len(x.t) for x in gates if x.name == "EVO"}
    if not k:
        return {}
    (k,) = k
    return {"hamiltonian": jnp.asarray(HAMILTONIAN[k])}


def analog_circuit(rng, n, m, k, **kw):
    """A seeded circuit with evolutions of k qubits, some of them next to each other on the same qubits in another order."""
    gs = random_circuit(rng, n, m, **kw)
    qs = None
    for i in range(m):
        if rng.random() < 0.5 or i == m // 2:
            if qs is None or rng.random() < 0.5:
                qs = rng.sample(range(n), k)
            else:
                rng.shuffle(qs)
            rest = [q for q in range(n) if q not in qs]
            gs[i] = evo(qs, rng.sample(rest, 1) if rest and rng.random() < 0.3 else ())
        else:
            qs = None
    return gs


@dataclass(frozen=True)
class G:
    """One gate: name, targets, controls, parameter (a name, a number, or None), noise, shift."""

    name: str
    t: tuple
    c: tuple = ()
    p: object = None
    noise: tuple = ()  # ((kind, probs), ...)
    shift: float = 0.0

    @property
    def qubits(self):
        return tuple(self.t) + tuple(self.c)

    def label(self):
        s = self.name + "".join(map(str, self.t))
        if self.c:
            s += "c" + "".join(map(str, self.c))
        if self.p is not None:
            s += f"({self.p})" if not self.shift else f"({self.p}+{self.shift})"
        for k, _ in self.noise:
            s += "~" + k
        return s


def g(name, t, c=(), p=None, noise=(), shift=0.0):
    t = (t,) if isinstance(t, int) else tuple(t)
    c = (c,) if isinstance(c, int) else tuple(c)
    return G(name, t, c, p, noise, shift)


def noise_of(gate, probs=None):
    """probs: function (kind, value) -> what is given to the code."""
    if not gate.noise:
        return None
    f = probs or (lambda k, v: v)
    return tuple(DigitalNoiseInstance(DigitalNoiseType(k), f(k, v)) for k, v in gate.noise)


def build(gate, sparse=False, probs=None):
    if gate.name == "EVO":
        return HamiltonianEvolution(gate.t, gate.c) if gate.c else HamiltonianEvolution(gate.t)
    fn = getattr(P, gate.name)
    t = gate.t[0] if len(gate.t) == 1 else gate.t
    c = (None,) if not gate.c else (gate.c[0] if len(gate.c) == 1 else gate.c)
    kw = dict(noise=noise_of(gate, probs), sparse=sparse)
    if gate.name in PAR:
        op = fn(gate.p, t, c, **kw)
        if gate.shift:  # the field the parameter-shift rule uses
            op = type(op)(op.generator_name, t, c, param=gate.p, shift=gate.shift, **kw)
        return op
    return fn(t, c, **kw)


def theta(h, gate, vals):
    if gate.p is None:
        return None
    if isinstance(gate.p, str):
        return vals[gate.p].add(h.const(gate.shift)) if gate.shift else vals[gate.p]
    return h.const(float(gate.p) + gate.shift)


def matrix(h, gate, vals):
    if gate.name == "EVO":
        P_, s_, t = HAMILTONIAN[len(gate.t)], h.session, ref.poly(vals[gate.p])
        put = lambda p: SA.from_polys(h.V, [p], ())
        return h.const(np.eye(len(P_))).mul(put(s_.cos(t))).add(h.const(-1j * P_).mul(put(s_.sin(t))))
    return ref.gate(h, gate.name, theta(h, gate, vals))


def act(h, gate, state, vals):
    """Reference action on a state (qubits are the leading axes)."""
    return ref.apply(state, matrix(h, gate, vals), gate.t, gate.c)


def act_all(h, gates, state, vals):
    for x in gates:
        state = act(h, x, state, vals)
    return state


def full(h, gate, n, vals):
    return ref.opmatrix(h, n, matrix(h, gate, vals), gate.t, gate.c)


def full_all(h, gates, n, vals):
    m = h.const(np.eye(2**n))
    for x in gates:
        m = ref.matmul(full(h, x, n, vals), m)
    return m


def names(gates):
    out = []
    for x in gates:
        if isinstance(x.p, str) and x.p not in out:
            out.append(x.p)
    return out


def values(h, gates, extra=()):
    """(values for the code, values for the specification)."""
    code, spec = analog(gates), {}
    for n in list(names(gates)) + list(extra):
        p = h.angle(n)
        code[n], spec[n] = p.code, p.spec
    return code, spec


def few(k, body):
    """The body on a large register: k seeded basis positions hold symbolic amplitudes, the others are
    zero (every map here is linear in the state)."""

    def run(h):
        h.few = k
        body(h)

    return run


def reals(body, ints=True):
    """The body on states and density matrices of a real dtype and integer values."""

    def run(h):
        h.reals, h.ints = True, ints
        body(h)

    return run


def label(gates):
    return ",".join(x.label() for x in gates) or "empty"


def placements(n, k):
    return list(itertools.permutations(range(n), k))


def random_gate(rng, n, kinds=None, maxc=3, pnames=("a", "b", "c")):
    kinds = kinds or (ONE + PAR + TWO)
    name = rng.choice(kinds)
    k = 2 if name in TWO else 1
    if k > n:
        return random_gate(rng, n, ONE + PAR, maxc, pnames)
    qs = list(range(n))
    rng.shuffle(qs)
    t, rest = tuple(qs[:k]), qs[k:]
    nc = rng.choice([0, 0, 1, 1, 2, 3])
    nc = min(nc, maxc, len(rest))
    p, shift = rng.choice(pnames), 0.0
    if name in PAR:
        r = rng.random()
        p, shift = (round(rng.uniform(-3, 3), 2), 0.0) if r < 0.1 else (p, round(rng.uniform(-1, 1), 2) if r < 0.25 else 0.0)
    return G(name, t, tuple(rest[:nc]), p if name in PAR else None, (), shift)


def random_circuit(rng, n, m, **kw):
    return [random_gate(rng, n, **kw) for _ in range(m)]


def local_circuit(rng, n, m, **kw):
    """Mostly rotations and fixed gates without controls, so that several in a row meet on one qubit."""
    return [random_gate(rng, n, **kw) if rng.random() < 0.15 else random_gate(rng, n, ONE + PAR, 0, kw.get("pnames", ("a", "b")))
            for _ in range(m)]


# names a careless treatment of strings would confuse
NAMES = [("a", "aa", "a_1"), ("x", "X", "x "), ("phi_1", "phi_10", "phi"), ("b", "a", ""), ("0", "00", "0.5"),
         ("circuit", "observables", "param"), ("theta", "theta'", "\u03b8"), ("v_a", "a", "a_v"), ("values", "None", "a")]


def renamed(gates, ns):
    m = dict(zip("abc", ns))
    return [replace(x, p=m[x.p]) if isinstance(x.p, str) else x for x in gates]


def dm_code(h, name, n):
    """Hermitian matrix input as a DensityMatrix in tensor form and its (d, d) specification."""
    d = 2**n
    p = h.hermitian(name, d)
    return DensityMatrix(p.code.reshape((2,) * (2 * n))), p.spec


def as_matrix(h, x, n):
    """What the code returned for a density matrix, as (d, d)."""
    v = h.value(x)
    return v.reshape((2**n, 2**n))


# ---------------------------------------------------------------------------- composed operators
# expressions: G | ("scale", w, e) | ("add", [e, ...]) | ("seq", [e, ...])
def build_expr(e, sparse=False, obs=False):
    if isinstance(e, G):
        return build(e, sparse)
    k = e[0]
    if k == "scale":
        inner = e[2]
        o = build_expr(inner, sparse)
        return Scale(o, e[1])
    if k == "add":
        return Add([build_expr(x, sparse) for x in e[1]])
    if k == "seq":
        return OpSequence([build_expr(x, sparse) for x in e[1]])
    if k == "obs":
        return Observable([build_expr(x, sparse) for x in e[1]])
    raise KeyError(k)


def expr_matrix(h, e, n, vals):
    if isinstance(e, G):
        return full(h, e, n, vals)
    k = e[0]
    if k == "scale":
        w = vals[e[1]] if isinstance(e[1], str) else h.const(complex(e[1]))
        return w.mul(expr_matrix(h, e[2], n, vals))
    ms = [expr_matrix(h, x, n, vals) for x in e[1]]
    if k in ("add", "obs"):
        out = ms[0]
        for m in ms[1:]:
            out = out.add(m)
        return out
    out = h.const(np.eye(2**n))
    for m in ms:
        out = ref.matmul(m, out)
    return out


def expr_names(e):
    if isinstance(e, G):
        return [e.p] if isinstance(e.p, str) else []
    if e[0] == "scale":
        return ([e[1]] if isinstance(e[1], str) else []) + expr_names(e[2])
    out = []
    for x in e[1]:
        out += [y for y in expr_names(x) if y not in out]
    return out


def expr_gates(e):
    if isinstance(e, G):
        return [e]
    return expr_gates(e[2]) if e[0] == "scale" else [x for y in e[1] for x in expr_gates(y)]


def analog_exprs(rng, cnt, n=2):
    """Seeded expressions with evolutions among the gates."""
    out = []
    for i in range(cnt):
        gs = analog_circuit(rng, n, 3, 1 + i % min(n, 2), pnames=("a", "b"))
        e = [lambda: ("scale", "w", ("seq", gs)), lambda: ("add", gs), lambda: ("add", [("scale", -1.5, gs[0]), ("seq", gs[1:])]),
             lambda: ("seq", [gs[0], ("scale", "w", ("add", gs[1:]))]), lambda: ("seq", gs), lambda: ("scale", 0.5, next(x for x in gs if x.name == "EVO"))][i % 6]()
        out.append(e)
    return out


def expr_label(e):
    if isinstance(e, G):
        return e.label()
    if e[0] == "scale":
        return f"{e[1]}*{expr_label(e[2])}"
    return e[0] + "[" + ";".join(expr_label(x) for x in e[1]) + "]"


def matvec(m, psi):
    return m.dot(psi.reshape((-1,)), "ab,b->a").reshape(psi.shape)


def dm_evolve(h, gates, rho, n, vals, probs=None):
    """Reference evolution of a (d, d) density matrix, with the channels of each gate."""
    f = probs or (lambda k, v: [h.const(float(x)) for x in (v if isinstance(v, tuple) else (v,))])
    for x in gates:
        rho = ref.conjugate_by(full(h, x, n, vals), rho)
        for k, v in x.noise:
            rho = ref.apply_channel(h, k, f(k, v), rho, n, x.t[0])
    return rho


def uniq(out):
    """Drop harnesses whose name repeats."""
    seen, res = set(), []
    for x in out:
        if x.name not in seen:
            seen.add(x.name)
            res.append(x)
    return res


# ---------------------------------------------------------------------------- lookalikes
def lookalike_circuits(single=False):
    """Circuits whose gates differ in one attribute only (name, gates, number of qubits).

    single: keep to gates the single-frequency shift rule covers."""
    ph = "PHASE" if single else "RY"
    a = [g("RX", 0, p="a"), g("RX", 0, p="b"), g("RX", 0, p=0.3), g("RX", 0, p=0.7), g("RX", 0, p="a", shift=0.4), g("RX", 0, p="a"), g("RY", 0, p="a")]
    b = [g("H", 0), g("H", 1), g("RX", 2, p="a"), g(ph, 2, 0, p="a"), g(ph, 2, 1, p="a"), g(ph, 2, (0, 1), p="a"), g(ph, 2, 1, p="b"), g(ph, 2, p="a")]
    c = [g("X", 1), g("X", 1, 0), g("X", 1, 2), g("X", 1, (0, 2)), g("H", 1), g("X", 1, (2, 0)), g("Y", 1, 0), g("Y", 1, 0)]
    d = [g("RY", 0, p="a"), g("ISWAP", (0, 1)), g("SQRTSWAP", (0, 1)), g("SQRTSWAP", (1, 2)), g("ISWAP", (0, 1), 2), g("RY", 1, p="a"), g("SQRTSWAP", (0, 1))]
    e = [g("X", 0, p=None), g("RX", 0, p=1.1), g("RX", 0, p=-1.1), g("RX", 1, p=1.1), g("PHASE", 1, p=1.1), g("RZ", 1, p=1.1), g("RZ", 1, p="a", shift=1.1), g("RZ", 1, p="a", shift=-0.2)]
    return [("angles", a, 1), ("controls", b, 3), ("fixed", c, 3), ("two-qubit", d, 3), ("numbers", e, 2)]


def lookalike_terms(params=True):
    """Terms which differ in one attribute only (every list is used as one sum and as several observables)."""
    w, v = ("w", "v") if params else (1.25, -0.75)
    xz = ("seq", [g("X", 0), g("Z", 1)])
    return [
        ("factors", [("scale", 2.0, g("Z", 0)), ("scale", -0.5, g("Z", 0)), ("scale", w, g("Z", 0)), ("scale", v, g("Z", 0)), g("Z", 0)]),
        ("scaled products", [("scale", w, xz), ("scale", 3.0, xz), xz, ("scale", w, ("seq", [g("Z", 0), g("X", 1)]))]),
        ("targets", [g("Z", 0), g("Z", 1), g("X", 0), g("X", 1, 0), g("X", 0, 1), g("Z", 0)]),
    ]
