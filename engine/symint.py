"""Symbolic qubit indices for code that only compares, sorts and hashes them."""
from __future__ import annotations

from .sym import SA, padd


class SymInt(int):
    """An int whose comparisons are decided by the path and recorded as path conditions."""

    def __new__(cls, h, name, lo, hi):
        v = h._var(name, lo, hi, "int")
        self = super().__new__(cls, int(round(h.asg[v.id])))
        self.h, self.poly = h, {((v.id, 1),): 1 + 0j}
        return self

    def _cmp(self, op, p, negate=False):
        s = self.h.session
        sa = SA.from_polys(self.h.V, [s.atom(op, p)], ())
        r = bool(s.concretize(sa, bool).reshape(()))
        return (not r) if negate else r

    def _diff(self, o, swap=False):
        q = o.poly if isinstance(o, SymInt) else {(): complex(int(o))}
        return padd(q, self.poly, -1.0) if swap else padd(self.poly, q, -1.0)

    def _ok(self, o):
        return isinstance(o, int) and not isinstance(o, bool) and self.h.mode == "sym"

    def __eq__(self, o):
        if not self._ok(o):
            return int.__eq__(self, o)
        return self is o or self._cmp("eq", self._diff(o))

    def __ne__(self, o):
        if not self._ok(o):
            return int.__ne__(self, o)
        return self is not o and not self._cmp("eq", self._diff(o))

    def __lt__(self, o):
        return int.__lt__(self, o) if not self._ok(o) else self._cmp("gt", self._diff(o, True))

    def __gt__(self, o):
        return int.__gt__(self, o) if not self._ok(o) else self._cmp("gt", self._diff(o))

    def __le__(self, o):
        return int.__le__(self, o) if not self._ok(o) else self._cmp("ge", self._diff(o, True))

    def __ge__(self, o):
        return int.__ge__(self, o) if not self._ok(o) else self._cmp("ge", self._diff(o))

    def _pin(self):
        if self.h.mode == "sym":
            sa = SA.from_polys(self.h.V, [self.poly], ())
            self.h.session.concretize(sa, int)
        return int.__int__(self)

    def __hash__(self):
        return hash(self._pin())

    def __int__(self):
        return self._pin()

    def __index__(self):
        return self._pin()

    def __sub__(self, o):
        return self._pin() - int(o)

    def __rsub__(self, o):
        return int(o) - self._pin()

    def __add__(self, o):
        return self._pin() + int(o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._pin() * int(o)

    __rmul__ = __mul__

    def __repr__(self):
        return repr(self._pin())

    def __str__(self):
        return str(self._pin())

    def __format__(self, spec):
        return format(self._pin(), spec)

    def __float__(self):
        return float(self._pin())

    def __bool__(self):
        return bool(self._pin())

    def __reduce__(self):
        return int, (self._pin(),)

    def spec(self):
        return SA.from_polys(self.h.V, [self.poly], ())


def _pinned(name):
    f = getattr(int, name)
    return lambda self, *o: f(self._pin(), *[int(x) if isinstance(x, SymInt) else x for x in o])


# every other operator computes with the value of this path
for _n in ("neg", "pos", "abs", "invert", "floordiv", "rfloordiv", "mod", "rmod", "truediv", "rtruediv", "pow", "rpow", "lshift", "rlshift", "rshift", "rrshift",
           "and", "rand", "or", "ror", "xor", "rxor", "divmod", "rdivmod", "round"):
    setattr(SymInt, f"__{_n}__", _pinned(f"__{_n}__"))
