"""Symbolic execution of JAX programs.

A `SymTrace` is installed as JAX's current trace; every primitive the real (Python) code under
analysis binds - directly, inside jit/scan/cond sub-programs, or while JAX differentiates or
vectorises it - arrives at `process_primitive` and is executed on symbolic arrays.  Python
control flow on symbolic values is concolic: the branch is taken according to the current
assignment and the condition is recorded as a path condition.
"""
from __future__ import annotations

import math
import os
import sys
from collections import Counter

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

import jax  # noqa: E402
import numpy as np  # noqa: E402
from jax._src import core, dtypes  # noqa: E402
from jax._src import api as _api  # noqa: E402

from .sym import EPS, SA, Unsupported, Vars, is_const, padd, pconst, pmul, poly_key  # noqa: E402

Literal = core.Literal


class SymTracer(core.Tracer):
    __slots__ = ("_aval", "val")

    def __init__(self, trace, aval, val):
        super().__init__(trace)
        self._aval = aval
        self.val = val

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        return self

    # -- concretisation ------------------------------------------------------------
    def to_concrete_value(self):
        v = self.val
        if isinstance(v, SA):
            if not (
                np.issubdtype(self._aval.dtype, np.integer) or self._aval.dtype == np.bool_
            ):
                return None
            return self._trace.session.concretize(v, self._aval.dtype)
        return v

    def _conc(self):
        v = self.to_concrete_value()
        if v is None:
            raise Unsupported("a real symbolic value was forced to a concrete one")
        return v

    def __bool__(self):
        if self._aval.size != 1:
            core.check_bool_conversion(self)
        v = self.val
        if isinstance(v, SA):
            if self._aval.dtype != np.bool_:
                v = (self != 0).val
            if isinstance(v, SA):
                return bool(self._trace.session.concretize(v, np.dtype(bool)).reshape(()))
        return bool(np.asarray(v).reshape(()))

    def __int__(self):
        return int(np.asarray(self._conc()).reshape(()))

    def __index__(self):
        return int(np.asarray(self._conc()).reshape(()))

    def __float__(self):
        v = self.val
        if isinstance(v, SA):
            raise Unsupported("float() of a symbolic value")
        return float(np.asarray(v).reshape(()))

    def __complex__(self):
        if isinstance(self.val, SA):
            raise Unsupported("complex() of a symbolic value")
        return complex(np.asarray(self.val).reshape(()))

    def __array__(self, *a, **k):
        v = np.asarray(self._conc())
        return v.astype(a[0]) if a and a[0] is not None else v

    def item(self, *a):
        return self._conc().item(*a)

    def tolist(self):
        return self._conc().tolist()

    def block_until_ready(self):
        return self

    def __format__(self, spec):
        if isinstance(self.val, SA):
            return repr(self)
        return format(np.asarray(self.val).item(), spec) if spec else str(self.val)


class Session:
    """One concolic execution: variables, assignment, path and statistics."""

    def __init__(self, V=None, asg=None):
        self.V = V or Vars()
        self.asg = dict(asg or {})
        self.path = []  # (poly, value): poly == value on this path
        self.assume = []  # polys constrained >= 0 / == 0: ("ge"|"eq", poly)
        self.ops = Counter()
        self.events = []
        self.squares = {}
        self.functions = set()

    # -- values -----------------------------------------------------------------------
    def concretize(self, sa, dtype):
        """Concrete value of an integer/boolean symbolic array at the current assignment."""
        out = []
        cache = {}
        for p in sa.polys():
            x = self.V.eval_poly(p, self.asg, cache)
            x = int(round(x.real))
            if not is_const(p):
                self.path.append((p, x))
            out.append(x)
        return np.array(out).reshape(sa.shape).astype(dtype)

    def never_zero(self, q):
        """The solver shows that a short polynomial in angles (such as exp(i t)) has no zero."""
        kinds = {self.V.vars[v].kind for m in q for v, _ in m}
        if len(q) > 4 or not kinds <= {"cos", "sin"}:
            return False
        k = ("nonzero", poly_key(q))
        if k not in self.V.by_key:
            from . import smt

            self.V.by_key[k] = smt.feasible(self.V, [("eq", q)], timeout=2.0)[0] == "unsat"
        return self.V.by_key[k]

    def atom(self, op, p):
        """0/1 polynomial of the condition p > 0 (gt), p >= 0 (ge) or p == 0 (eq)."""
        if is_const(p):
            x = p.get((), 0j)
            if op == "eq":
                t = x == 0
            else:
                t = x.real > 0 if op == "gt" else x.real >= 0
            return pconst(1.0 if t else 0.0)
        if op != "eq":
            p = {m: complex(k.real) for m, k in p.items() if abs(k.real) > EPS}
            if is_const(p):
                return self.atom(op, p)
        lead = p[max(p)]
        if op == "eq":
            q = {m: k / lead for m, k in p.items()}
            neg = False
            if self.never_zero(q):
                return pconst(0.0)
        else:
            s = abs(lead.real)
            neg = lead.real < 0
            q = {m: (-k if neg else k) / s for m, k in p.items()}
            if neg:  # p >= 0  <=>  not (q > 0)
                op = "gt" if op == "ge" else "ge"
        g = self.V.new(
            f"[{op}:{len(self.V.vars)}]", "bool", 0.0, 1.0, {"atom": (op, q)}, ("atom", op, poly_key(q))
        )
        gp = {((g.id, 1),): 1 + 0j}
        return padd(pconst(1.0), gp, -1.0) if neg else gp

    # -- elementary functions ------------------------------------------------------------
    def eipoly(self, p, scale=1.0):
        """exp(i * p) for a real polynomial p."""
        V = self.V
        out = pconst(1.0)
        c0 = 0.0
        for m, k in p.items():
            if abs(k.imag) > EPS:
                raise Unsupported("exponential of a non-imaginary symbolic value")
            k = k.real
            if m == ():
                c0 += k
                continue
            if len(m) == 1 and m[0][1] == 1 and V.vars[m[0][0]].kind == "bool":
                g = {m: 1 + 0j}
                # exp(i k g) = 1 + g (e^{ik} - 1)
                out = pmul(V, out, padd(pconst(1.0), g, complex(np.exp(1j * k) - 1)))
                continue
            if m and any(V.vars[v].kind == "bool" for v, _ in m):
                raise Unsupported("angle with a guarded term")
            n = round(2 * k)
            if abs(n - 2 * k) < 1e-12 and abs(n) <= 64:
                base, mult = 1.0, n
            else:
                base, mult = 2 * k, 1
            mm = m
            key = (mm, round(base, 12))

            def angle(asg, cache, mm=mm, base=base):
                return base * V.eval_mono(mm, asg, cache)

            name = "*".join(f"{V.vars[v].name}" + (f"^{q}" if q > 1 else "") for v, q in mm)
            if base != 1.0:
                name = f"{base:g}*{name}"
            c, s = V.trig(key, name, angle)
            u = {((c.id, 1),): 1 + 0j, ((s.id, 1),): (1j if mult > 0 else -1j)}
            acc = pconst(1.0)
            for _ in range(abs(mult)):
                acc = pmul(V, acc, u)
            out = pmul(V, out, acc)
        if abs(c0) > 0:
            out = {m: k * complex(math.cos(c0), math.sin(c0)) for m, k in out.items()}
        return out

    def cos(self, p):
        a, b = self.eipoly(p), self.eipoly({m: -k for m, k in p.items()})
        return {m: k / 2 for m, k in padd(a, b).items()}

    def sin(self, p):
        a, b = self.eipoly(p), self.eipoly({m: -k for m, k in p.items()})
        return {m: k / 2j for m, k in padd(a, b, -1.0).items()}

    def exp(self, p):
        if is_const(p):
            return pconst(np.exp(p.get((), 0)))
        c = p.get((), 0j)
        q = {m: k / 1j for m, k in p.items() if m != ()}
        r = self.eipoly(q)
        f = np.exp(c)
        return {m: k * f for m, k in r.items()}

    def sqrt(self, p):
        V = self.V
        if is_const(p):
            x = p.get((), 0j)
            return pconst(np.sqrt(x) if x.imag or x.real < 0 else math.sqrt(x.real))
        if any(abs(k.imag) > 1e-12 for k in p.values()):
            raise Unsupported("square root of a complex symbolic value")
        key = poly_key(p)
        if key in self.squares:
            return self.squares[key]
        if len(p) == 1:
            (m, k), = p.items()
            if k.real > 0 and all(q % 2 == 0 and V.vars[v].lo >= 0 for v, q in m):
                return {tuple((v, q // 2) for v, q in m): complex(math.sqrt(k.real))}
        # guards: sqrt(g a + (1-g) b) = g sqrt(a) + (1-g) sqrt(b)
        gs = sorted({v for m in p for v, _ in m if V.vars[v].kind == "bool"})
        if gs:
            g = gs[0]
            a, b = self._subst(p, g, 1), self._subst(p, g, 0)
            gp = {((g, 1),): 1 + 0j}
            return padd(
                pmul(V, gp, self.sqrt(a)), pmul(V, padd(pconst(1.0), gp, -1.0), self.sqrt(b))
            )
        lead = p[max(p)]
        s = abs(lead.real)
        q = {m: complex(k.real / s) for m, k in p.items()}
        lo, hi = self.poly_bounds(q)
        v = V.new(
            f"sqrt#{len(V.vars)}",
            "sqrt",
            0.0,
            math.sqrt(max(hi, 0.0)),
            {"arg": q},
            ("sqrt", poly_key(q)),
        )
        return {((v.id, 1),): complex(math.sqrt(s))}

    def _subst(self, p, g, val):
        out = {}
        for m, k in p.items():
            if any(v == g for v, _ in m):
                if val == 0:
                    continue
                m = tuple((v, q) for v, q in m if v != g)
            out[m] = out.get(m, 0) + k
        return {m: k for m, k in out.items() if abs(k) > EPS}

    def poly_bounds(self, p):
        lo = hi = 0.0
        for m, k in p.items():
            a, b = self.V.bounds(m)
            x, y = k.real * a, k.real * b
            lo += min(x, y)
            hi += max(x, y)
        return lo, hi

    def abs2(self, z):
        """|z|^2 of a complex polynomial."""
        zc = {m: k.conjugate() for m, k in z.items()}
        r = pmul(self.V, z, zc)
        return {m: complex(k.real) for m, k in r.items() if abs(k.real) > EPS}

    def abs(self, z):
        if is_const(z):
            return pconst(abs(z.get((), 0j)))
        w = self.squares.get(("c", poly_key(z)))
        if w is not None:
            return self.abs2(w)
        if all(abs(k.imag) < 1e-13 for k in z.values()):
            if len(z) == 1:
                (m, k), = z.items()
                if all(q % 2 == 0 or self.V.vars[v].lo >= 0 for v, q in m):
                    return {m: complex(abs(k))}
            lo, hi = self.poly_bounds(z)
            if lo >= 0:
                return z
            if hi <= 0:
                return {m: -k for m, k in z.items()}
            p = self.abs2(z)
            return self.sqrt(p)
        return self.sqrt(self.abs2(z))

    def note_square(self, w, z):
        """Remember z == w**2 (for |w**2| and sqrt)."""
        if not is_const(w):
            self.squares[("c", poly_key(z))] = w

    def inv(self, p):
        V = self.V
        if is_const(p):
            return pconst(1.0 / p.get((), 0j))
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                w = V.new(
                    f"1/{V.vars[v].name}", "inv", -math.inf, math.inf, {"of": v}, ("inv", v)
                )
                V.special.add(w.id)
                return {((w.id, 1),): 1 / k}
            if len(m) >= 1:
                out = pconst(1 / k)
                for v, q in m:
                    for _ in range(q):
                        out = pmul(V, out, self.inv({((v, 1),): 1 + 0j}))
                return out
        lead = p[max(p)]
        q = {m: k / lead for m, k in p.items()}
        if any(abs(k.imag) > 1e-12 for k in q.values()):
            # 1/z = conj(z)/|z|^2
            zc = {m: k.conjugate() for m, k in p.items()}
            return pmul(V, zc, self.inv(self.abs2(p)))
        w = V.new(
            f"1/poly#{len(V.vars)}", "inv", -math.inf, math.inf, {"arg": q}, ("invp", poly_key(q))
        )
        return {((w.id, 1),): 1 / lead}


class SymTrace(core.Trace):
    def __init__(self, session):
        super().__init__()
        self.session = session
        self.requires_low = False

    # -- lifting ------------------------------------------------------------------------
    def val_of(self, x):
        if isinstance(x, SymTracer):
            return x.val
        if isinstance(x, core.Tracer):
            raise Unsupported(f"foreign tracer {type(x)}")
        if isinstance(x, SA):
            return x
        return to_np(x)

    def aval_of(self, x):
        return x.aval if isinstance(x, SymTracer) else core.get_aval(x)

    def wrap(self, aval, val):
        if is_key(val):
            return val
        if isinstance(val, SA):
            c = val.as_const()
            if c is not None:
                val = c
        if not isinstance(val, SA):
            val = cast(val, aval.dtype)
        return SymTracer(self, aval, val)

    # -- primitives -----------------------------------------------------------------------
    def process_primitive(self, primitive, tracers, params):
        name = primitive.name
        if name.startswith(("bcoo_", "bcsr_")):
            self.session.ops[name] += 1
            with core.set_current_trace(self):
                return primitive.impl(*tracers, **params)
        vals = [self.val_of(t) for t in tracers]
        if name in CALLS:
            avals = [v.aval for v in CALLS[name](params).jaxpr.outvars]
        elif name in ("while", "scan", "cond"):
            j = (
                params["branches"][0]
                if name == "cond"
                else params["body_jaxpr"]
                if name == "while"
                else params["jaxpr"]
            )
            avals = None
            if name == "scan":
                nc = params["num_carry"]
                outs = j.jaxpr.outvars
                avals = [o.aval for o in outs[:nc]] + [
                    core.ShapedArray((params["length"],) + o.aval.shape, o.aval.dtype)
                    for o in outs[nc:]
                ]
            else:
                avals = [o.aval for o in j.jaxpr.outvars]
        else:
            with core.set_current_trace(core.eval_trace):
                r = primitive.abstract_eval(*[self.aval_of(t) for t in tracers], **params)
            avals = r[0]
        outs = self.run(primitive, vals, params, [self.aval_of(t) for t in tracers], avals)
        if primitive.multiple_results:
            return [self.wrap(a, o) for a, o in zip(avals, outs)]
        return self.wrap(avals, outs[0])

    def run(self, primitive, vals, params, in_avals, out_avals):
        """Execute a primitive on values; returns a list of values."""
        name = primitive.name
        s = self.session
        s.ops[name] += 1
        if name in SPECIAL:
            return SPECIAL[name](self, vals, params, in_avals, out_avals)
        if name in ("pjit", "jit") and not params["jaxpr"].jaxpr.eqns:
            return self.interpret(params["jaxpr"], vals)
        sym = any(isinstance(v, SA) for v in vals)
        if name in CALLS:
            closed = CALLS[name](params)
            if name in ("pjit", "jit") and params.get("name") in OPAQUE and sym:
                return OPAQUE[params["name"]](self, vals, params, in_avals, out_avals)
            if not sym and not has_special(closed.jaxpr):
                return real_eval(primitive, vals, params)
            return self.interpret(closed, vals)
        if not sym:
            f = NUMPY.get(name)
            if f is not None and not any(is_key(v) for v in vals):
                try:
                    r = f(vals, params, in_avals)
                    if r is not NotImplemented:
                        return [r]
                except Unsupported:
                    raise
                except Exception:  # noqa: BLE001 - any oddity goes to the real evaluation
                    pass
            return real_eval(primitive, vals, params)
        rule = RULES.get(name)
        if rule is None:
            if all(not isinstance(v, SA) or np.dtype(a.dtype).kind in "iub" for v, a in zip(vals, in_avals)):
                # integer arithmetic without a rule: pinned by the path
                vals = [s.concretize(v, np.dtype(a.dtype)) if isinstance(v, SA) else v for v, a in zip(vals, in_avals)]
                return real_eval(primitive, vals, params)
            raise Unsupported(f"primitive {name} on symbolic values")
        oa = out_avals if isinstance(out_avals, (list, tuple)) else [out_avals]
        out = rule(self, vals, params, in_avals, oa)
        return out if isinstance(out, list) else [out]

    def interpret(self, closed, args):
        env = {}

        def read(v):
            if isinstance(v, Literal):
                return to_np(v.val)
            return env[v]

        jaxpr = closed.jaxpr
        for v, c in zip(jaxpr.constvars, closed.consts):
            env[v] = self.val_of(c)
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            in_avals = [v.aval for v in eqn.invars]
            out_avals = [v.aval for v in eqn.outvars]
            nm = eqn.primitive.name
            if nm.startswith(("bcoo_", "bcsr_")):
                with core.set_current_trace(self):
                    o = eqn.primitive.impl(
                        *[self.wrap(a, x) for a, x in zip(in_avals, ins)], **eqn.params
                    )
                o = list(o) if eqn.primitive.multiple_results else [o]
                outs = [self.val_of(x) for x in o]
            else:
                outs = self.run(
                    eqn.primitive,
                    ins,
                    eqn.params,
                    in_avals,
                    out_avals if eqn.primitive.multiple_results else out_avals[0],
                )
            for v, a, o in zip(eqn.outvars, out_avals, outs):
                if isinstance(o, SA):
                    c = o.as_const()
                    if c is not None:
                        o = c
                if not isinstance(o, SA) and not is_key(o):
                    o = cast(o, a.dtype)
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **_):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, **_):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_transpose(self, prim, call, tracers, **params):
        with core.set_current_trace(self):
            return call.call_wrapped(*tracers)

    def process_call(self, primitive, f, tracers, params):
        with core.set_current_trace(self):
            return f.call_wrapped(*tracers)


# ------------------------------------------------------------------------------ helpers
def is_key(x):
    return isinstance(x, jax.Array) and not isinstance(x, core.Tracer) and dtypes.issubdtype(
        x.dtype, dtypes.extended
    )


def to_np(x):
    if is_key(x):
        return x
    return np.asarray(x)


def cast(val, dtype):
    val = np.asarray(val)
    if val.dtype == dtype:
        return val
    if np.iscomplexobj(val) and not np.issubdtype(dtype, np.complexfloating):
        val = val.real
        if np.issubdtype(dtype, np.integer):
            val = np.round(val)
        if dtype == np.bool_:
            val = val > 0.5
    return val.astype(dtype)


def real_eval(primitive, vals, params):
    with core.eval_context():
        xs = [v if is_key(v) else jax.numpy.asarray(v) for v in vals]
        out = primitive.bind(*xs, **params)
    outs = out if primitive.multiple_results else [out]
    return [to_np(o) for o in outs]


_special_cache = {}


def has_special(jaxpr):
    k = id(jaxpr)
    if k in _special_cache and _special_cache[k][0] is jaxpr:
        return _special_cache[k][1]
    r = False
    for e in jaxpr.eqns:
        if e.primitive.name in SPECIAL:
            r = True
            break
        for p in e.params.values():
            for q in p if isinstance(p, (tuple, list)) else (p,):
                if isinstance(q, core.ClosedJaxpr):
                    q = q.jaxpr
                if isinstance(q, core.Jaxpr) and has_special(q):
                    r = True
    _special_cache[k] = (jaxpr, r)
    return r


CALLS = {
    "pjit": lambda p: p["jaxpr"],
    "jit": lambda p: p["jaxpr"],
    "closed_call": lambda p: p["call_jaxpr"],
    "core_call": lambda p: core.ClosedJaxpr(p["call_jaxpr"], ()),
    "remat2": lambda p: core.ClosedJaxpr(p["jaxpr"], ()),
    "checkpoint": lambda p: core.ClosedJaxpr(p["jaxpr"], ()),
    "custom_jvp_call": lambda p: p["call_jaxpr"],
    "custom_vjp_call": lambda p: p["call_jaxpr"],
    "custom_vjp_call_jaxpr": lambda p: p["fun_jaxpr"],
    "custom_lin": None,
}
CALLS.pop("custom_lin")
SPECIAL = {}
OPAQUE = {}
RULES = {}
NUMPY = {}

from . import rules  # noqa: E402,F401
