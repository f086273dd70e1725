"""C05: an error probability outside [0, 1] is rejected, every valid one is accepted."""
from .noise_common import *


def want(h, kind, spec):
    """1 where the probabilities are invalid."""
    one = h.const(1.0)

    def outside(p):
        return h.cond("gt", p.add(one, -1.0)).add(h.cond("gt", -p))

    if kind == "PauliChannel":
        s = spec[0].add(spec[1]).add(spec[2])
        conds = [outside(p) for p in spec] + [h.cond("gt", s.add(one, -1.0))]
    else:
        conds = [outside(p) for p in spec]
    ok = one
    for c in conds:
        ok = ok.mul(one.add(c, -1.0))
    return one.add(ok, -1.0)


def kraus_body(kind):
    def body(h):
        code, spec = probs(h, kind, valid=False)
        h.raises("ValueError", ValueError, lambda: instance(kind, code).kraus, want(h, kind, spec))

    return body


def gate_body(kind, how):
    def body(h):
        code, spec = probs(h, kind, valid=False)
        noise = (instance(kind, code),)
        if how == "gate":
            f = lambda: P.X(0, noise=noise)(h.cstate("psi", 1).code)
        elif how == "circuit":
            f = lambda: hq.run(QuantumCircuit(2, [P.H(0), P.X(1, 0, noise=noise)]), hq.zero_state(2))
        elif how == "second":
            ok = DigitalNoiseInstance(DigitalNoiseType("BitFlip"), 0.2)
            f = lambda: apply_gates(hq.zero_state(2), [P.RX(0.3, 1, noise=(ok, noise[0])), P.H(0)])
        else:
            f = lambda: hq.expectation(hq.zero_state(2), QuantumCircuit(2, [P.RY("a", 1, noise=noise)]),
                                       [Observable([P.Z(1)])], {"a": 0.4})
        h.raises("ValueError", ValueError, f, want(h, kind, spec))

    return body


def harnesses(tier):
    out = []
    for kind in KINDS:
        out.append(Harness(f"kraus:{kind}", kraus_body(kind)))
        for how in ("gate", "circuit", "second", "expectation"):
            out.append(Harness(f"{how}:{kind}", gate_body(kind, how), limit=200))
    return out
