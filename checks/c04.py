"""C04: every noise channel is its documented map and preserves the trace."""
from .noise_common import *


def kraus_body(kind):
    def body(h):
        code, spec = probs(h, kind)
        ks = [h.value(k) for k in instance(kind, code).kraus]
        d = 2
        tp = None
        for k in ks:
            t = ref.matmul(ref.dag(k), k)
            tp = t if tp is None else tp.add(t)
        h.check("sum of K^dagger K", tp, h.const(np.eye(d)))
        # documented action on each matrix unit, i.e. on every operator
        for i in range(2):
            for j in range(2):
                e = np.zeros((2, 2))
                e[i, j] = 1
                acc = None
                for k in ks:
                    t = ref.matmul(ref.matmul(k, h.const(e)), ref.dag(k))
                    acc = t if acc is None else acc.add(t)
                h.check(f"|{i}><{j}|", acc, ref.apply_channel(h, kind, spec, h.const(e), 1, 0))

    return body


def gate_body(kind, n, x):
    def body(h):
        rho, rs = dm_code(h, "rho", n)
        code, spec = probs(h, kind)
        vc, vs = values(h, [x])
        gate = build(x)
        gate = type(gate)(**{**{f: getattr(gate, f) for f in ("generator_name", "sparse")},
                             "target": x.t, "control": x.c or (None,), "noise": (instance(kind, code),),
                             **({"param": x.p} if x.p else {})})
        out = gate(rho, vc)
        want = ref.apply_channel(h, kind, spec, ref.conjugate_by(full(h, x, n, vs), rs), n, x.t[0])
        m = as_matrix(h, out, n)
        h.check("rho", m, want)
        tr = lambda a: a.dot(h.const(np.eye(2**n)), "ab,ba->")
        h.check("trace", tr(m), tr(rs))

    return body


def pure_body(kind, n, x):
    def body(h):
        psi = h.cstate("psi", n)
        code, spec = probs(h, kind)
        vc, vs = values(h, [x])
        fn = getattr(P, x.name)
        args = ([x.p] if x.p else []) + [x.t[0], x.c or (None,)]
        gate = fn(*args, noise=(instance(kind, code),))
        out = gate(psi.code, vc)
        h.true("promoted to a density matrix", isinstance(out, DensityMatrix))
        want = ref.apply_channel(h, kind, spec, ref.conjugate_by(full(h, x, n, vs), ref.outer(psi.spec)), n, x.t[0])
        h.check("rho", as_matrix(h, out, n), want)

    return body


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    rng = random.Random(404)
    for kind in KINDS:
        out.append(Harness(f"kraus:{kind}", kraus_body(kind)))
        xs = [g("I", 0), g("X", 0), g("H", 0)]
        for n in (1, 2, 3, 4):
            for t in range(n):
                x = rng.choice([g("I", t), g("X", t), g("Y", t), g("H", t), g("RX", t, p="a"), g("T", t)])
                if n <= 3:
                    out.append(Harness(f"{kind}:{x.label()}/{n}q", gate_body(kind, n, x), limit=300, cost=4.0**n))
                x = rng.choice([g("Y", t), g("S", t), g("RY", t, p="a"), g("PHASE", t, p="a")])
                if n < 3 or big or t == rng.randrange(3):
                    out.append(Harness(f"pure:{kind}:{x.label()}/{n}q", pure_body(kind, n, x), limit=300, cost=4.0**n * 2))
    for kind in KINDS:
        for n in (4, 5, 6):
            for _ in range(3 if deep else 1):
                x = random_gate(rng, n, ONE + PAR, maxc=2, pnames=("a",))
                x = replace(x, p="a" if x.name in PAR else None, shift=0.0)
                k = 4 if n < 6 else 2
                out.append(Harness(f"large:{kind}:{x.label()}/{n}q", few(k, gate_body(kind, n, x)), limit=300, cost=4.0**n))
                out.append(Harness(f"large pure:{kind}:{x.label()}/{n}q", few(k, pure_body(kind, n, x)), limit=300, cost=4.0**n))
    return uniq(out)
