"""C22: state constructors, overlaps, probabilities and comparisons mean what they say."""
from .obs_common import *
from .c12 import sparse_state
from .c18 import unit_state
from engine.symint import SymInt
from jax.experimental.sparse import BCOO

from horqrux.utils import operator_utils as ou


def bits_body(n, sparse):
    """Every bitstring, as symbolic bits."""

    def body(h):
        bs = [SymInt(h, f"b{i}", 0, 1) for i in range(n)]
        s = "".join(str(int(b)) for b in bs)
        out = ou.product_state(s, sparse)
        h.true("sparse", isinstance(out, BCOO) == sparse)
        amps = []
        for k in range(2**n):
            t = h.const(1.0)
            for i, b in enumerate(bs):
                one = (k >> (n - 1 - i)) & 1
                t = t.mul(b.spec() if one else h.const(1.0).add(b.spec(), -1.0))
            amps.append(t)
        h.check("amplitudes", out, ref.stack(amps).reshape((2,) * n))

    return body


def const_body(what, n, sparse):
    def body(h):
        d = 2**n
        if what == "zero":
            out, want = hq.zero_state(n, sparse), np.eye(d)[0]
        else:
            out, want = hq.uniform_state(n, sparse), np.full(d, d**-0.5)
        h.true("sparse", isinstance(out, BCOO) == sparse)
        h.true("complex", np.dtype(out.dtype).kind == "c", str(out.dtype))
        h.check("amplitudes", out, h.const(want.reshape((2,) * n).astype(complex)))

    return body


def random_body(n):
    def body(h):
        a, b = hq.random_state(n), hq.random_state(n)
        s = hq.random_state(n, True)
        v = h.value(a)
        h.check("norm", ref.inner(v, v), h.const(1.0))
        h.true("shape", tuple(a.shape) == (2,) * n, str(a.shape))
        h.check("repeatable", b, v)
        h.true("sparse", isinstance(s, BCOO))
        h.check("sparse form", s, v)
        h.true("normalised", ou.is_normalized(a))

    return body


def overlap_body(n, kind):
    def body(h):
        if kind == "sparse":
            a, sa_ = sparse_state(h, n)
            b, sb = sparse_state(h, n, None if n == 1 else [0, 2, 3], "phi")
        else:
            p, q = h.cstate("psi", n), h.cstate("phi", n)
            a, sa_, b, sb = p.code, p.spec, q.code, q.spec
            if kind == "same":
                b, sb = a, sa_
            if kind == "flat":
                b = b.reshape((2**n,))
        i = ref.inner(sa_, sb)
        h.check("inner", ou.inner(a, b), i)
        h.check("overlap", hq.overlap(a, b), i.conj().mul(i).real())
        h.check("overlap is symmetric", hq.overlap(b, a), i.conj().mul(i).real())

    return body


def overlap_circuit_body(gates, n):
    """Fidelity of an evolved state."""

    def body(h):
        psi, phi = h.cstate("psi", n), h.cstate("phi", n)
        vc, vs = values(h, gates)
        i = ref.inner(phi.spec, act_all(h, gates, psi.spec, vs))
        h.check("overlap", hq.overlap(phi.code, hq.run(circuit(gates, n), psi.code, vc)), i.conj().mul(i).real())

    return body


def probabilities_body(n, kind):
    def body(h):
        d = 2**n
        if kind == "sv":
            p = h.cstate("psi", n)
            w = p.spec.reshape((-1,))
            h.check("probabilities", ou.probabilities(p.code), w.conj().mul(w).real())
            return
        p = h.hermitian("rho", d) if kind != "any" else h.carray("rho", (d, d))
        arr = p.code if kind == "matrix" else p.code.reshape((2,) * (2 * n))
        h.check("probabilities", ou.probabilities(DensityMatrix(arr)), ref.stack([p.spec.take(k * d + k).real() for k in range(d)]))

    return body


def pure_probabilities_body(n):
    """The same probabilities from a state and from its density matrix."""

    def body(h):
        p = h.cstate("psi", n)
        h.check("agree", ou.probabilities(density_mat(p.code)), h.value(ou.probabilities(p.code)))

    return body


def density_body(n):
    def body(h):
        p = h.cstate("psi", n)
        r = density_mat(p.code)
        h.true("type", isinstance(r, DensityMatrix))
        h.true("shape", tuple(r.array.shape) == (2,) * (2 * n), str(r.array.shape))
        h.check("outer product", as_matrix(h, r, n), ref.outer(p.spec))
        h.true("of a density matrix", density_mat(r) is r or density_mat(r) == r)
        h.true("qubits", ou.num_qubits(p.code) == n and ou.num_qubits(r) == n, f"{ou.num_qubits(p.code)}, {ou.num_qubits(r)}")

    return body


def density_unit_body(n):
    def body(h):
        p = unit_state(h, n)
        m = as_matrix(h, density_mat(p.code), n)
        d = 2**n
        tr = m.take(0)
        for k in range(1, d):
            tr = tr.add(m.take(k * d + k))
        h.check("trace", tr, h.const(1.0))
        h.check("projector", ref.matmul(m, m), m)
        pr = h.value(ou.probabilities(p.code))
        tot = pr.take(0)
        for k in range(1, d):
            tot = tot.add(pr.take(k))
        h.check("probabilities add up", tot, h.const(1.0))

    return body


def normalized_body(n):
    def body(h):
        p = unit_state(h, n)
        h.true("normalised state", ou.is_normalized(p.code))
        h.check("decided", h.const(0.0), h.const(0.0))

    return body


def unnormalized_body(n, lo, hi):
    def body(h):
        p = unit_state(h, n)
        s = h.real("s", lo, hi)
        h.true("scaled state", not bool(ou.is_normalized(p.code * s.code)), "a state of another norm counts as normalised")
        h.check("decided", h.const(0.0), h.const(0.0))

    return body


def evolved_body(gates, n):
    """Evolution keeps the norm."""

    def body(h):
        p = unit_state(h, n)
        vc, vs = values(h, gates)
        out = hq.run(circuit(gates, n), p.code, vc)
        h.true("still normalised", ou.is_normalized(out))
        v = h.value(out)
        h.check("norm", ref.inner(v, v), h.const(1.0))

    return body


def phase_body(n):
    """Equality up to a global phase."""

    def body(h):
        p = unit_state(h, n)
        f = h.angle("phase")
        ph = h.derived(SA.from_polys(h.V, [h.session.eipoly(f.spec.polys()[0])], ()) if h.mode == "sym" else h.const(np.exp(1j * f.spec.eval(h.asg))))
        q = p.code * ph.code
        h.true("phase", ou.equivalent_state(p.code, q), "states that differ by a phase count as different")
        h.true("phase, other way", ou.equivalent_state(q, p.code))
        h.check("decided", h.const(0.0), h.const(0.0))

    return body


def different_body(n, gate):
    """States rotated away from each other are not equivalent."""

    def body(h):
        p = unit_state(h, n)
        t = h.real("t", -4, 4)
        # fidelity cos^2(t/2) at most 0.99
        c = h.session.cos(t.spec.polys()[0]) if h.mode == "sym" else {(): complex(np.cos(t.spec.eval(h.asg)))}
        h.assume("ge", h.const(0.98).add(SA.from_polys(h.V, [c], ()), -1.0))
        z = hq.zero_state(n)
        q = getattr(P, gate)(t.code, n - 1)(z)
        h.true("different states", not bool(ou.equivalent_state(z, q)), "states of fidelity below 0.99 count as equivalent")
        h.true("different states, other way", not bool(ou.equivalent_state(q, z)))
        o = hq.overlap(z, q)
        h.check("fidelity", o, h.const(0.5).add(SA.from_polys(h.V, [c], ()).mul(h.const(0.5))))

    return body


def orthogonal_body(n):
    """Basis states: equivalent exactly when equal."""

    def body(h):
        a, b = SymInt(h, "a", 0, 2**n - 1), SymInt(h, "b", 0, 2**n - 1)
        s = lambda k: hq.product_state(format(int(k), f"0{n}b"))
        got = bool(ou.equivalent_state(s(a), s(b)))
        h.check("equivalent", h.const(float(got)), h.cond("eq", a.spec().add(b.spec(), -1.0)), 0.25)

    return body


def helpers_body(h):
    h.true("is_controlled", ou.is_controlled((0,)) and ou.is_controlled(((0, 1),)) and ou.is_controlled(0)
           and not ou.is_controlled((None,)) and not ou.is_controlled(((None,),)) and not ou.is_controlled(None) and not ou.is_controlled(()))
    h.check("decided", h.const(0.0), h.const(0.0))


def harnesses(tier):
    big = tier == "thorough"
    rng = random.Random(2222)
    out = []
    add = lambda nm, b, **k: out.append(Harness(nm, b, **k))
    top = 6 if not big else 9
    for n in range(1, top + 1):
        for sp in (False, True):
            f = "sparse" if sp else "dense"
            if n < 9:
                add(f"product:{f}:{n}q", bits_body(n, sp), cost=2.0**n, limit=300)
            add(f"zero:{f}:{n}q", const_body("zero", n, sp), cost=1)
            add(f"uniform:{f}:{n}q", const_body("uniform", n, sp), cost=1)
        add(f"random:{n}q", random_body(n), cost=2)
    for n in range(1, 5 if not big else 6):
        for kind in ("two", "same", "flat"):
            add(f"overlap:{kind}:{n}q", overlap_body(n, kind), cost=4.0**n)
        add(f"probabilities:sv:{n}q", probabilities_body(n, "sv"), cost=2.0**n)
        for kind in ("tensor", "matrix", "any"):
            if n < 4 or big:
                add(f"probabilities:{kind}:{n}q", probabilities_body(n, kind), cost=4.0**n)
        if n < 4 or big:
            add(f"probabilities:agree:{n}q", pure_probabilities_body(n), cost=4.0**n)
            add(f"density:{n}q", density_body(n), cost=4.0**n)
    for n in (1, 2):
        add(f"overlap:sparse:{n}q", overlap_body(n, "sparse"), cost=6)
    for i in range(4 if not big else 12):
        n = 1 + i % 3
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        add(f"fidelity:{label(gs)}/{n}q", overlap_circuit_body(gs, n), cost=4.0**n * 2)
    for n in (1, 2, 3):
        add(f"normalised:{n}q", normalized_body(n), cost=10.0**n, limit=200)
        add(f"unit:{n}q", density_unit_body(n), cost=12.0**n, limit=300)
        add(f"phase:{n}q", phase_body(n), cost=10.0**n, limit=200)
        for gt in ("RX", "RY"):
            add(f"different:{gt}:{n}q", different_body(n, gt), cost=5)
    for n in (1, 2):
        add(f"not normalised:above:{n}q", unnormalized_body(n, 1.02, 2.0), cost=10.0**n, limit=200)
        add(f"not normalised:below:{n}q", unnormalized_body(n, 0.1, 0.98), cost=10.0**n, limit=200)
        add(f"basis:{n}q", orthogonal_body(n), cost=10.0**n)
    for i in range(3):
        n = 1 + i % 2
        gs = random_circuit(rng, n, 3, pnames=("a", "b"))
        add(f"evolved:{label(gs)}/{n}q", evolved_body(gs, n), cost=30, limit=300)
    add("helpers", helpers_body, cost=1)
    return uniq(out)
