"""C08: grouping gates by qubit and merging operators never change what a sequence does."""
from engine.symint import SymInt

from .common import *

group_by_index = internal("horqrux.apply:group_by_index")
merge_operators = internal("horqrux.apply:merge_operators")


def disjoint(h, a, b):
    """1 where two supports share no qubit."""
    one = h.const(1.0)
    out = one
    for x in a:
        for y in b:
            d = x.spec().add(y.spec(), -1.0)
            out = out.mul(one.add(h.cond("eq", d), -1.0))
    return out


KINDS = {
    "fixed": lambda i: dict(name="X"), "mixed": lambda i: dict(name=("RX", "H", "RZ", "T", "PHASE")[i % 5], p=("a", None, "b", None, 0.4)[i % 5]),
    "exchanged": lambda i: dict(name=("S", "RY", "Z", "RX", "H")[i % 5], p=(None, 0.3, None, "a", None)[i % 5]),
    "noisy": lambda i: dict(name=("RX", "X", "H", "RX", "Y")[i % 5], p=("a", None, None, "a", None)[i % 5], noise=i % 2 == 0),
    "sparse": lambda i: dict(name=("Z", "RY", "X", "RY", "H")[i % 5], p=(None, "b", None, "a", None)[i % 5], sparse=i % 3 == 1),
}


def group_gate(kind, i, nt, t, c):
    d = KINDS[kind](i)
    if nt != 1:
        return P.SWAP(t, c or (None,))
    kw = dict(sparse=d.get("sparse", False))
    if d.get("noise"):
        kw["noise"] = (DigitalNoiseInstance(DigitalNoiseType("BitFlip"), 0.1),)
    fn = getattr(P, d["name"])
    return fn(d["p"], t, c or (None,), **kw) if d["name"] in PAR else fn(t, c or (None,), **kw)


def group_body(shapes, n, kind="fixed"):
    """shapes: (number of targets, number of controls) of each gate; every placement at once."""

    def body(h):
        gates, supp = [], []
        for i, (nt, nc) in enumerate(shapes):
            qs = [SymInt(h, f"q{i}_{k}", 0, n - 1) for k in range(nt + nc)]
            for k in range(len(qs)):
                for j in range(k):
                    # the qubits of one gate are distinct
                    d = qs[k].spec().add(qs[j].spec(), -1.0)
                    h.assume("gt", d.mul(d))
            t, c = tuple(qs[:nt]), tuple(qs[nt:])
            gates.append(group_gate(kind, i, nt, t, c))
            supp.append(qs)
        out = list(group_by_index(list(gates)))
        h.true("the same gates", sorted(map(id, out)) == sorted(map(id, gates)))
        pos = {id(x): k for k, x in enumerate(out)}
        one = h.const(1.0)
        for i in range(len(gates)):
            for j in range(i + 1, len(gates)):
                if pos[id(gates[i])] > pos[id(gates[j])]:
                    h.check(f"gates {i} and {j} are exchanged only if they act on different qubits",
                            disjoint(h, supp[i], supp[j]), one, 0.5)

    return body


def merge_body(shapes, n):
    """Operators with symbolic entries on symbolic qubits."""

    def body(h):
        ops, ts, cs, specs = [], [], [], []
        for i, (nt, nc) in enumerate(shapes):
            U = h.carray(f"U{i}_", (2**nt, 2**nt))
            qs = [SymInt(h, f"q{i}_{k}", 0, n - 1) for k in range(nt + nc)]
            ops.append(U.code)
            specs.append(U.spec)
            ts.append(tuple(qs[:nt]))
            cs.append(tuple(qs[nt:]) or (None,))
        mo, mt, mc = merge_operators(tuple(ops), tuple(ts), tuple(cs))
        h.true("as many targets and controls as operators", len(mo) == len(mt) == len(mc))
        # the merged operators cut the list into runs
        one = h.const(1.0)
        i = 0
        for k in range(len(mo)):
            nt = len(mt[k])
            want, start = None, i
            M = h.value(mo[k])
            best = None
            # runs are recognised by their product: extend until the product matches
            for j in range(start, len(ops) - (len(mo) - k - 1)):
                if len(ts[j]) != nt or len(cs[j]) != len(mc[k]):
                    break
                want = specs[j] if want is None else ref.matmul(specs[j], want)
                best = j
                if M.shape == want.shape and same(h, M, want):
                    break
            h.true(f"operator {k} stands for operators of its shape", best is not None)
            if best is None:
                return
            h.check(f"operator {k} is the product of a run", M, want)
            for j in range(start, best + 1):
                for a, b in zip(ts[j] + cs[j], mt[k] + mc[k]):
                    if a is None or b is None:
                        h.true("controls agree", a is None and b is None)
                    else:
                        d = a.spec().add(b.spec(), -1.0)
                        h.check(f"operator {j} is merged on its own qubits", h.cond("eq", d), one, 0.5)
            i = best + 1
        h.true("every operator is used", i == len(ops))

    def same(h, a, b):
        d = a.add(b, -1.0)
        if h.mode == "sym":
            return all(not p for p in d.polys())
        return bool(np.max(np.abs(d.eval(h.asg, {}))) < 1e-9)

    return body


def semantic_body(gates, n):
    """All four ways of applying a sequence agree with the gates in order."""

    def body(h):
        psi = h.cstate("psi", n)
        vc, vs = values(h, gates)
        want = act_all(h, gates, psi.spec, vs)
        ops = [build(x) for x in gates]
        for grp in (True, False):
            for mrg in (True, False):
                h.check(f"group={grp} merge={mrg}", apply_gates(psi.code, ops, vc, group_gates=grp, merge_ops=mrg), want)

    return body


def harnesses(tier):
    out = []
    big, deep = True, tier == "thorough"
    A, B, C, D = (1, 0), (1, 1), (2, 0), (1, 2)
    E = (2, 1)
    shapes = [(A, A), (A, A, A), (A, B), (B, A), (A, C), (C, A), (A, C, A), (A, B, A), (C, C), (B, B), (A, A, C, A), (A, D, A),
              (E, A), (A, C, A, A), (B, A, A, B), (A, C, B, A)]
    if big:
        shapes += [(A,) * 4, (A, A, B, A, A), (C, A, C, A), (A, C, A, B, A), (A, D, A, A), (A, E, A), (A,) * 5]
    for s in shapes:
        lab = "".join({A: "1", B: "c", C: "2", D: "d", E: "e"}[x] for x in s)
        ind = sum(a + b for a, b in s)
        n = 3 if ind <= 6 else 3
        if group_by_index is None:
            break
        out.append(Harness(f"group:{lab}/{n}", group_body(s, n), limit=400, cost=4.0**ind, validate=True))
    for s in [(A, A, A), (A, A, A, A), (A, B, A), (A, C, A), (A, A, C, A), (B, A, A)]:
        for kind in list(KINDS)[1:]:
            lab = "".join({A: "1", B: "c", C: "2", D: "d", E: "e"}[x] for x in s)
            if group_by_index is not None:
                out.append(Harness(f"group:{kind}:{lab}/3", group_body(s, 3, kind), limit=400, cost=300))
    for s in [(A, A), (A, A, A), (B, B), (A, B, A), (C, C), (A, C), (C, A, A), (A, A, A, A), (B, B, B), (B, D), (C, C, A)]:
        lab = "".join({A: "1", B: "c", C: "2", D: "d"}[x] for x in s)
        if merge_operators is None:
            break
        out.append(Harness(f"merge:{lab}/3", merge_body(s, 3), limit=400, cost=4.0**len(s) * 4))
    rng = random.Random(808)
    for n, m, k in ((2, 5, 12), (3, 6, 16), (4, 7, 6)) if not big else ((2, 8, 40), (3, 8, 60), (4, 9, 30), (5, 8, 10), (3, 14, 10), (5, 16, 6)) + (((2, 14, 60), (3, 14, 80), (4, 14, 60), (5, 14, 40), (6, 12, 30), (7, 10, 12)) if deep else ()):
        for _ in range(k):
            gs = random_circuit(rng, n, m, pnames=("a", "b"))
            out.append(Harness(f"semantics:{label(gs)}/{n}q", semantic_body(gs, n), limit=300, cost=2.0**n * m * 3))
    for n, m, k in ((1, 8, 10), (2, 10, 20), (3, 10, 20), (4, 12, 10)) if not deep else ((1, 12, 30), (2, 12, 60), (3, 14, 60), (4, 14, 30), (5, 14, 12)):
        for _ in range(k):
            gs = local_circuit(rng, n, m, pnames=("a", "b"))
            out.append(Harness(f"local:{label(gs)}/{n}q", semantic_body(gs, n), limit=300, cost=2.0**n * m * 3))
    for k in range(20 if not deep else 100):
        n = 2 + k % 3
        gs = analog_circuit(rng, n, 6, 1 + (k // 3) % 2, pnames=("a", "b"))
        out.append(Harness(f"analog:{label(gs)}/{n}q", semantic_body(gs, n), limit=300, cost=2.0**n * 20))
    for n, m, k in ((6, 12, 10), (8, 10, 8), (11, 6, 4), (3, 30, 8), (2, 30, 8)) if not deep else ((6, 16, 30), (8, 14, 20), (10, 10, 12), (12, 6, 8), (3, 50, 20), (2, 50, 20)):
        for _ in range(k):
            gs = [x if x.name not in PAR or i % 5 == 0 else replace(x, p=round(0.1 * i - 1.3, 2), shift=0.0)
                  for i, x in enumerate(random_circuit(rng, n, m, pnames=("a", "b")))]
            out.append(Harness(f"large:{n}q:{m}:{_}", few(8, semantic_body(gs, n)), limit=300, cost=2.0**n * m * 2))
    return uniq(out)
