from .common import *

SINGLE = ("BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping")
ARITY = {**{k: 1 for k in SINGLE}, "PauliChannel": 3, "GeneralizedAmplitudeDamping": 2}
KINDS = tuple(ARITY)


def probs(h, kind, tag="p", valid=True):
    """Symbolic error probabilities: (for the code, for the specification)."""
    n = ARITY[kind]
    ps = [h.real(f"{tag}{i}", -1.5 if not valid else 0.0, 2.5 if not valid else 1.0) for i in range(n)]
    if valid and kind == "PauliChannel":
        s = ps[0].spec.add(ps[1].spec).add(ps[2].spec)
        h.assume("ge", h.const(1.0).add(s, -1.0))
    code = ps[0].code if n == 1 else tuple(p.code for p in ps)
    return code, [p.spec for p in ps]


def instance(kind, code):
    return DigitalNoiseInstance(DigitalNoiseType(kind), code)
