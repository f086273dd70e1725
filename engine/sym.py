"""Symbolic arrays: arrays whose elements are polynomials over real variables.

An array is stored as a list of monomials and a complex coefficient array with one
leading row per monomial.  Monomials are sorted tuples ``((var, power), ...)`` and are kept
in a normal form by rewriting rules attached to the variables:

* ``sin(t/2)**2 -> 1 - cos(t/2)**2``     (every angle contributes a cos/sin pair)
* ``r**2 -> P``                          (r = sqrt(P), r >= 0)
* ``b**2 -> b``                          (b a 0/1 guard or indicator)
* ``v*w -> 1``                           (w = 1/v)

All rules are identities of real arithmetic, so two arrays with the same normal form are
equal for every value of their variables; whatever normalisation leaves is what the SMT
solver gets.
"""
from __future__ import annotations

import math

import numpy as np

EPS = 1e-14


class Unsupported(Exception):
    """The encoding does not cover something the code under analysis did."""


class Var:
    __slots__ = ("id", "name", "kind", "lo", "hi", "info")

    def __init__(self, id, name, kind, lo, hi, info=None):
        self.id, self.name, self.kind, self.lo, self.hi, self.info = id, name, kind, lo, hi, info

    def __repr__(self):
        return f"{self.name}"


class Vars:
    """Variable table of one symbolic execution."""

    def __init__(self):
        self.vars: list[Var] = []
        self.by_key: dict = {}
        self.special: set[int] = set()
        self._mulcache: dict = {}

    # -- creation ---------------------------------------------------------------------
    def new(self, name, kind="real", lo=-1.0, hi=1.0, info=None, key=None):
        if key is not None and key in self.by_key:
            return self.by_key[key]
        v = Var(len(self.vars), name, kind, lo, hi, info)
        self.vars.append(v)
        if kind in ("sin", "sqrt", "bool", "inv"):
            self.special.add(v.id)
        if key is not None:
            self.by_key[key] = v
        return v

    def trig(self, key, name, angle):
        """cos/sin pair of half of an angle; `angle` evaluates it from an assignment."""
        k = ("trig", key)
        if k not in self.by_key:
            c = self.new(f"cos({name}/2)", "cos", -1.0, 1.0, angle)
            s = self.new(f"sin({name}/2)", "sin", -1.0, 1.0, angle)
            c.info = (angle, s.id)
            s.info = (angle, c.id)
            self.by_key[k] = (c, s)
        return self.by_key[k]

    # -- monomials --------------------------------------------------------------------
    def mono_mul(self, a, b):
        """Product of two monomials as a list of (monomial, coefficient)."""
        if not a:
            return [(b, 1.0)]
        if not b:
            return [(a, 1.0)]
        key = (a, b) if a <= b else (b, a)
        r = self._mulcache.get(key)
        if r is None:
            d = dict(a)
            for v, p in b:
                d[v] = d.get(v, 0) + p
            r = self._mulcache[key] = list(self._normal(d).items())
        return r

    def _normal(self, d):
        """Normal form of a raw monomial {var: power} as {monomial: coefficient}."""
        for v in d:
            if v not in self.special:
                continue
            p = d[v]
            var = self.vars[v]
            if var.kind == "bool":
                if p > 1:
                    d = dict(d)
                    d[v] = 1
                    return self._normal(d)
                for w in var.info.get("excl", ()) if isinstance(var.info, dict) else ():
                    if w in d:
                        return {}
            elif var.kind == "sin" and p > 1:
                rest = dict(d)
                rest[v] = p - 2
                if rest[v] == 0:
                    del rest[v]
                c = var.info[1]
                rest2 = dict(rest)
                rest2[c] = rest2.get(c, 0) + 2
                out = {}
                for m, k in self._normal(rest).items():
                    out[m] = out.get(m, 0) + k
                for m, k in self._normal(rest2).items():
                    out[m] = out.get(m, 0) - k
                return {m: k for m, k in out.items() if abs(k) > EPS}
            elif var.kind == "sqrt" and p > 1:
                rest = dict(d)
                rest[v] = p - 2
                if rest[v] == 0:
                    del rest[v]
                return self._expand(rest, var.info["arg"])
            elif var.kind == "inv" and isinstance(var.info, dict) and var.info.get("of") in d:
                w = var.info["of"]
                rest = dict(d)
                k = min(rest[v], rest[w])
                for x in (v, w):
                    rest[x] -= k
                    if rest[x] == 0:
                        del rest[x]
                return self._normal(rest)
        return {tuple(sorted(d.items())): 1.0}

    def _expand(self, rest, poly):
        out = {}
        base = self._normal(rest)
        for m, k in poly.items():
            for b, kb in base.items():
                for m2, k2 in self.mono_mul(m, b):
                    out[m2] = out.get(m2, 0) + k * kb * k2
        return {m: k for m, k in out.items() if abs(k) > EPS}

    # -- evaluation ---------------------------------------------------------------------
    def value(self, v, asg, cache):
        if v in cache:
            return cache[v]
        var = self.vars[v]
        k = var.kind
        if k in ("real", "int") and v in asg:
            r = asg[v]
        elif k == "cos":
            r = math.cos(var.info[0](asg, cache) / 2)
        elif k == "sin":
            r = math.sin(var.info[0](asg, cache) / 2)
        elif k == "sqrt":
            x = self.eval_poly(var.info["arg"], asg, cache).real
            r = math.sqrt(max(x, 0.0))
        elif k == "inv":
            x = (
                self.value(var.info["of"], asg, cache)
                if "of" in var.info
                else self.eval_poly(var.info["arg"], asg, cache)
            )
            x = x.real if isinstance(x, complex) else x
            r = 1.0 / x if x != 0 else float("inf")
        elif k == "bool" and var.info and "atom" in var.info:
            r = 1.0 if self.eval_atom(var.info["atom"], asg, cache) else 0.0
        elif k == "opaque":
            r = var.info(asg, cache)
        elif v in asg:
            r = asg[v]
        else:
            raise Unsupported(f"no value for {var.name}")
        cache[v] = r
        return r

    def eval_mono(self, m, asg, cache):
        r = 1.0
        for v, p in m:
            r = r * self.value(v, asg, cache) ** p
        return r

    def eval_poly(self, poly, asg, cache):
        t = 0j
        for m, k in poly.items():
            t += k * self.eval_mono(m, asg, cache)
        return t

    def eval_atom(self, atom, asg, cache):
        op, poly = atom
        x = self.eval_poly(poly, asg, cache)
        if op == "eq":
            return abs(x) < 1e-9
        x = x.real
        return {"gt": x > 0, "ge": x >= 0}[op]

    def bounds(self, m):
        """Interval of a monomial from the intervals of its variables."""
        lo, hi = 1.0, 1.0
        for v, p in m:
            a, b = self.vars[v].lo, self.vars[v].hi
            if p % 2 == 0:
                x, y = (0.0 if a <= 0 <= b else min(abs(a), abs(b)) ** p), max(abs(a), abs(b)) ** p
            else:
                x, y = a**p, b**p
            c = [_m(lo, x), _m(lo, y), _m(hi, x), _m(hi, y)]
            lo, hi = min(c), max(c)
        return lo, hi


def _m(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


# ------------------------------------------------------------------ polynomial helpers
def poly_key(p, digits=10):
    return tuple(sorted((m, complex(round(k.real, digits) + 0.0, round(k.imag, digits) + 0.0).__repr__())
                        for m, k in ((m, complex(k)) for m, k in p.items())))


def padd(a, b, s=1.0):
    r = dict(a)
    for m, k in b.items():
        x = r.get(m, 0) + s * k
        if abs(x) < EPS:
            r.pop(m, None)
        else:
            r[m] = x
    return r


def pmul(V, a, b):
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            for q, c in V.mono_mul(m, n):
                r[q] = r.get(q, 0) + k * l * c
    return {m: k for m, k in r.items() if abs(k) > EPS}


def pconst(x):
    return {(): complex(x)} if abs(x) > EPS else {}


def is_const(p):
    return all(m == () for m in p)


class SA:
    """Symbolic array (see module docstring)."""

    __slots__ = ("V", "monos", "coefs")

    def __init__(self, V, monos, coefs):
        self.V, self.monos, self.coefs = V, monos, coefs

    @property
    def shape(self):
        return self.coefs.shape[1:]

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    @staticmethod
    def const(V, arr):
        arr = np.asarray(arr)
        return SA(V, [()], arr.astype(complex)[None])

    @staticmethod
    def from_polys(V, polys, shape):
        """polys: flat list of {mono: coef}."""
        index = {}
        for p in polys:
            for m in p:
                index.setdefault(m, len(index))
        if not index:
            index[()] = 0
        co = np.zeros((len(index), len(polys)), dtype=complex)
        for j, p in enumerate(polys):
            for m, k in p.items():
                co[index[m], j] = k
        return SA(V, list(index), co.reshape((len(index),) + tuple(shape)))

    def polys(self):
        flat = self.coefs.reshape(len(self.monos), -1)
        out = []
        for j in range(flat.shape[1]):
            col = flat[:, j]
            out.append({self.monos[i]: complex(col[i]) for i in np.nonzero(np.abs(col) > EPS)[0]})
        return out

    def prune(self):
        if len(self.monos) == 0:
            return SA.const(self.V, np.zeros(self.shape))
        nz = np.abs(self.coefs.reshape(len(self.monos), -1)).max(axis=1, initial=0) > EPS
        if nz.all():
            return self
        if not nz.any():
            return SA.const(self.V, np.zeros(self.shape))
        return SA(self.V, [m for m, k in zip(self.monos, nz) if k], self.coefs[nz])

    def as_const(self):
        """The numeric array if no variable occurs, else None."""
        p = self.prune()
        if len(p.monos) == 1 and p.monos[0] == ():
            return p.coefs[0]
        return None

    # -- operations ---------------------------------------------------------------------
    def take(self, idx):
        """Elements by flat index (-1 gives 0)."""
        idx = np.asarray(idx)
        flat = self.coefs.reshape(len(self.monos), -1)
        if flat.shape[1] == 0:
            out = np.zeros((len(self.monos),) + idx.shape, dtype=complex)
            return SA(self.V, self.monos, out)
        out = flat[:, np.maximum(idx, 0)]
        if (idx < 0).any():
            out = np.where(idx < 0, 0, out)
        return SA(self.V, self.monos, out)

    def reshape(self, shape):
        return SA(self.V, self.monos, self.coefs.reshape((len(self.monos),) + tuple(shape)))

    def map(self, f):
        return SA(self.V, self.monos, f(self.coefs))

    def conj(self):
        return SA(self.V, self.monos, self.coefs.conj())

    def real(self):
        return SA(self.V, self.monos, self.coefs.real.astype(complex)).prune()

    def imag(self):
        return SA(self.V, self.monos, self.coefs.imag.astype(complex)).prune()

    def __neg__(self):
        return SA(self.V, self.monos, -self.coefs)

    def add(self, o, s=1.0):
        idx = {m: i for i, m in enumerate(self.monos)}
        extra = [m for m in o.monos if m not in idx]
        for m in extra:
            idx[m] = len(idx)
        shape = np.broadcast_shapes(self.shape, o.shape)
        co = np.zeros((len(idx),) + shape, dtype=complex)
        co[: len(self.monos)] = _bc(self.coefs, shape)
        oc = _bc(o.coefs, shape)
        for i, m in enumerate(o.monos):
            co[idx[m]] += s * oc[i]
        return SA(self.V, list(idx), co).prune()

    def mul(self, o):
        shape = np.broadcast_shapes(self.shape, o.shape)
        a, b = _bc(self.coefs, shape), _bc(o.coefs, shape)
        prod = a[:, None] * b[None, :]
        return _combine(self.V, self.monos, o.monos, prod.reshape((-1,) + shape))

    def dot(self, o, spec):
        """einsum with spec 'ab,bc->ac' style (without the monomial axes)."""
        ins, out = spec.split("->")
        x, y = ins.split(",")
        r = np.einsum(f"Y{x},Z{y}->YZ{out}", self.coefs, o.coefs, optimize=True)
        return _combine(self.V, self.monos, o.monos, r.reshape((-1,) + r.shape[2:]))

    def eval(self, asg, cache=None):
        cache = {} if cache is None else cache
        v = np.array([self.V.eval_mono(m, asg, cache) for m in self.monos])
        return np.tensordot(v, self.coefs, axes=(0, 0))


def _bc(c, shape):
    pad = len(shape) - (c.ndim - 1)
    c = c.reshape((c.shape[0],) + (1,) * pad + c.shape[1:])
    return np.broadcast_to(c, (c.shape[0],) + tuple(shape))


def _combine(V, ma, mb, rows):
    idx, at, wt = {}, [], []
    src = []
    k = 0
    for a in ma:
        for b in mb:
            for m, c in V.mono_mul(a, b):
                at.append(idx.setdefault(m, len(idx)))
                wt.append(c)
                src.append(k)
            k += 1
    if not idx:
        return SA.const(V, np.zeros(rows.shape[1:]))
    out = np.zeros((len(idx),) + rows.shape[1:], dtype=complex)
    w = np.array(wt).reshape((-1,) + (1,) * (rows.ndim - 1))
    r = rows[np.array(src)] if len(src) != rows.shape[0] or src != list(range(len(src))) else rows
    np.add.at(out, np.array(at), r * w)
    return SA(V, list(idx), out).prune()
