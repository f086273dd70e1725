"""SMT queries.

Level A (proof): monomials over the inputs are abstracted by bounded reals, guards and indicator
variables are Booleans with their defining conditions; the query asks for an element in
which code and specification differ by more than the tolerance.  `unsat` is a proof for every
value of the inputs, because every concrete input yields values for the monomials.

Level B (counterexample): the same query with the non-linear definitions.  Its models, and
pinned points, are candidates that the caller replays on the real code.
"""
from __future__ import annotations

import math
import os
import random
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from .sym import EPS, Unsupported, is_const  # noqa: E402

stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "cvc5_agree": 0}


def num(x):
    if x == int(x) and abs(x) < 1e15:
        n = int(x)
        return str(n) if n >= 0 else f"(- {-n})"
    f = Fraction(x)
    if f.denominator > 10**15:
        f = Fraction(round(x * 10**15), 10**15)
    s = f"(/ {abs(f.numerator)} {f.denominator})"
    return s if f >= 0 else f"(- {s})"


class Enc:
    """SMT-LIB text of polynomials; `exact` keeps products, otherwise monomials are abstracted."""

    def __init__(self, V, exact=False):
        self.V, self.exact = V, exact
        self.decl, self.defs = [], []
        self.seen = {}
        self.done = set()

    def var(self, v):
        if v in self.done:
            return self._name(v)
        self.done.add(v)
        x = self.V.vars[v]
        n = self._name(v)
        if x.kind == "bool":
            self.decl.append(f"(declare-const {n} Bool)")
            if isinstance(x.info, dict):
                if "atom" in x.info:
                    op, p = x.info["atom"]
                    self.defs.append(f"(= {n} {self.cond(op, p)})")
                for w in x.info.get("excl", ()):
                    if w < v:
                        self.defs.append(f"(not (and {n} {self.var(w)}))")
                if "group" in x.info and v == x.info["group"][-1]:
                    pass
                if "group" in x.info:
                    k = ("grp", x.info["group"])
                    if k not in self.seen:
                        self.seen[k] = 1
                        self.defs.append("(or " + " ".join(self.var(w) for w in x.info["group"]) + ")")
            return n
        self.decl.append(f"(declare-const {n} Real)")
        if not math.isinf(x.lo):
            self.defs.append(f"(<= {num(x.lo)} {n})")
        if not math.isinf(x.hi):
            self.defs.append(f"(<= {n} {num(x.hi)})")
        if x.kind == "int":
            k = f"{n}i"
            self.decl.append(f"(declare-const {k} Int)")
            self.defs.append(f"(= {n} (to_real {k}))")
        if self.exact:
            if x.kind == "sin":
                self.defs.append(f"(= (+ (* {n} {n}) (* {self.var(x.info[1])} {self.var(x.info[1])})) 1)")
            if x.kind == "cos":
                self.var(x.info[1])
            if x.kind == "sqrt":
                self.defs.append(f"(= (* {n} {n}) {self.re(x.info['arg'])})")
            if x.kind == "inv":
                d = self.var(x.info["of"]) if "of" in x.info else self.re(x.info["arg"])
                self.defs.append(f"(= (* {n} {d}) 1)")
        elif x.kind == "sqrt" and not any(
            self.V.vars[v2].kind == "sqrt" for m in x.info["arg"] for v2, _ in m
        ):
            # r**2 = P is used by the normal form already; keep r >= 0 and r <= sqrt(sup P)
            pass
        return n

    def _name(self, v):
        return f"v{v}"

    def mono(self, m):
        """(guards, real term) of a monomial."""
        gs = [self.var(v) for v, _ in m if self.V.vars[v].kind == "bool"]
        rest = tuple((v, p) for v, p in m if self.V.vars[v].kind != "bool")
        if not rest:
            return gs, "1"
        if len(rest) == 1 and rest[0][1] == 1:
            return gs, self.var(rest[0][0])
        if self.exact:
            fs = [self.var(v) for v, p in rest for _ in range(p)]
            return gs, "(* " + " ".join(fs) + ")"
        if rest not in self.seen:
            n = f"m{len(self.seen)}"
            self.seen[rest] = n
            self.decl.append(f"(declare-const {n} Real)")
            lo, hi = self.V.bounds(rest)
            if not (math.isinf(lo) or math.isnan(lo)):
                self.defs.append(f"(<= {num(lo)} {n})")
            if not (math.isinf(hi) or math.isnan(hi)):
                self.defs.append(f"(<= {n} {num(hi)})")
        return gs, self.seen[rest]

    def lin(self, items):
        ts = []
        for m, k in items:
            gs, t = self.mono(m)
            c = num(k)
            t = c if t == "1" else (t if k == 1 else f"(* {c} {t})")
            if gs:
                g = gs[0] if len(gs) == 1 else "(and " + " ".join(gs) + ")"
                t = f"(ite {g} {t} 0)"
            ts.append(t)
        if not ts:
            return "0"
        return ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"

    def re(self, p):
        return self.lin([(m, k.real) for m, k in sorted(p.items()) if abs(k.real) > EPS])

    def im(self, p):
        return self.lin([(m, k.imag) for m, k in sorted(p.items()) if abs(k.imag) > EPS])

    def cond(self, op, p):
        p = {m: complex(k) for m, k in p.items()}
        if op == "eq":
            return f"(and (= {self.re(p)} 0) (= {self.im(p)} 0))"
        return f"({'>' if op == 'gt' else '>='} {self.re(p)} 0)"

    def path(self, p, val):
        return f"(= {self.re(p)} {num(val)})"

    def text(self, asserts):
        return "\n".join(
            self.decl
            + [f"(assert {d})" for d in self.defs]
            + [f"(assert {a})" for a in asserts]
        )


def run(text, timeout=20.0, model=False, seed=1):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", seed)
    stats["queries"] += 1
    try:
        s.from_string(text)
        r = str(s.check())
    except z3.Z3Exception as e:
        raise Unsupported(f"solver error: {e}")
    stats["solver_s"] += time.time() - t0
    stats[r] += 1
    if model and r == "sat":
        m = s.model()
        vals = {}
        for d in m.decls():
            x = m[d]
            if z3.is_true(x) or z3.is_false(x):
                vals[d.name()] = 1.0 if z3.is_true(x) else 0.0
            elif z3.is_rational_value(x):
                vals[d.name()] = float(x.as_fraction())
            elif z3.is_algebraic_value(x):
                vals[d.name()] = float(x.approx(12).as_fraction())
        return r, vals
    return (r, None) if model else r


def cvc5_check(text, timeout=20):
    """Second opinion on a query (thorough tier)."""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text + "\n(check-sat)\n")
    try:
        p = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout*1000)}", f.name], capture_output=True, text=True, timeout=timeout + 10
        )
        return p.stdout.strip().split("\n")[0] if "(error" not in p.stdout else "error"
    finally:
        os.unlink(f.name)


def _common(enc, assume, path):
    out = [enc.cond(op, p) for op, p in assume]
    out += [enc.path(p, v) for p, v in path]
    return out


def aligned(V, a, b, tol):
    """Take the rounding noise of floating-point coefficients out of a pair.

    Where the coefficients of a monomial differ by next to nothing the specification takes the
    code's; what that can amount to over the bounds of the monomial is returned, and comes off
    the tolerance of the query (never more than half of it).
    """
    b = dict(b)
    noise, small = 0.0, tol * 1e-3
    for m in set(a) | set(b):
        ka = a.get(m, 0.0)
        d = abs(ka - b.get(m, 0.0))
        if not d:
            continue
        lo, hi = V.bounds(m)
        w = d * max(abs(lo), abs(hi))
        if w <= small and noise + w <= tol / 2:
            noise += w
            if ka:
                b[m] = ka
            else:
                del b[m]
    return a, b, noise


def differs(enc, pairs, tol):
    """Formula: some pair (code, spec) differs by more than tol in real or imaginary part."""
    ds = []
    for a, b in pairs:
        t = num(tol)
        if not enc.exact:
            a, b, noise = aligned(enc.V, a, b, tol)
            t = num(tol - noise)
        for part in (enc.re, enc.im):
            x, y = part(a), part(b)
            if x == y:
                # the same term: still sent, as an equality the solver sees through
                ds.append(f"(not (= {x} {y}))")
                continue
            ds.append(f"(> (- {x} {y}) {t})")
            ds.append(f"(> (- {y} {x}) {t})")
    return "(or false " + " ".join(ds) + ")"


def prove(V, pairs, tol, assume=(), path=(), timeout=30.0, cross=False):
    """Level A. Returns 'unsat' (proved), 'sat' or 'unknown'."""
    enc = Enc(V)
    d = differs(enc, pairs, tol)
    text = enc.text(_common(enc, assume, path) + [d])
    r = run(text, timeout)
    if cross and r in ("sat", "unsat"):
        c = cvc5_check(text)
        if c == r:
            stats["cvc5_agree"] += 1
        elif c in ("sat", "unsat"):
            raise Unsupported(f"solvers disagree: z3 {r}, cvc5 {c}")
    return r


def feasible(V, assume=(), path=(), negate=(), timeout=10.0, exact=True):
    """Satisfiability of path conditions; returns (result, assignment of base variables)."""
    enc = Enc(V, exact=exact)
    extra = [f"(not {enc.path(p, v)})" for p, v in negate]
    r, m = run(enc.text(_common(enc, assume, path) + extra), timeout, model=True)
    return r, (assignment(V, m) if r == "sat" else None)


def counterexample(V, pairs, tol, assume=(), path=(), timeout=20.0):
    """Level B by the solver."""
    enc = Enc(V, exact=True)
    d = differs(enc, pairs, tol)
    r, m = run(enc.text(_common(enc, assume, path) + [d]), timeout, model=True)
    return r, (assignment(V, m) if r == "sat" else None)


def assignment(V, m):
    """Values of base variables from a model (angles from their cos/sin pair)."""
    asg = {}
    for v in V.vars:
        n = f"v{v.id}"
        if v.kind in ("real", "int") and n in m:
            asg[v.id] = m[n]
        if v.kind == "bool" and n in m and not (isinstance(v.info, dict) and "atom" in v.info):
            asg[v.id] = m[n]
    for key, pair in V.by_key.items():
        if not (isinstance(key, tuple) and key and key[0] == "trig"):
            continue
        (mm, base) = key[1]
        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0] not in asg:
            c, s = pair
            if f"v{c.id}" in m or f"v{s.id}" in m:
                t = 2 * math.atan2(m.get(f"v{s.id}", 0.0), m.get(f"v{c.id}", 1.0))
                asg[mm[0][0]] = t / base
    return asg
