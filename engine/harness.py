"""Harnesses: bodies that drive the real code with symbolic inputs and state what it must return.

A body is run symbolically (once per path, until the paths within its bounds are exhausted), every
pair (returned value, specified value) is discharged by the solver, and any counterexample is
replayed by running the same body on concrete inputs against the untouched code.
"""
from __future__ import annotations

import json
import math
import os
import random
import signal
import sys
import time
import traceback
from dataclasses import dataclass

import numpy as np

from . import smt
from .sym import SA, Unsupported, Vars, is_const, padd, poly_key
from .trace import Session, SymTrace, SymTracer, core, jax

TOL = 1e-6
jnp = jax.numpy


class Abort(Exception):
    """The concrete point does not satisfy the harness' assumptions."""


class Timeout(BaseException):
    pass


class Pair:
    """An input: what the code gets and what the specification uses."""

    def __init__(self, code, spec):
        self.code, self.spec = code, spec


def lift(x):
    """Array content of what horqrux returns."""
    from jax.experimental.sparse import BCOO

    if isinstance(x, BCOO):
        return x.todense()
    if hasattr(x, "array") and type(x).__name__ == "DensityMatrix":
        return lift(x.array)
    return x


class H:
    """What a body sees. mode is 'sym' or 'conc'."""

    def __init__(self, mode, V, asg, rng):
        self.mode, self.V, self.asg, self.rng = mode, V, asg, rng
        self.session = Session(V, asg)
        self.session.rng = rng
        self.trace = SymTrace(self.session) if mode == "sym" else None
        self.pairs = []  # (label, code SA/ndarray, spec SA, tol)
        self.failed = []  # structural failures (label, text)
        self.names = {}
        self.checks = 0
        self.one_path = False  # many draws: only the path of one seeded outcome of the draws is followed
        self.reals = self.ints = False  # states of a real dtype, integer angles
        self.few = None  # large registers: how many seeded basis positions hold a symbolic amplitude

    # -- inputs -----------------------------------------------------------------------
    def _var(self, name, lo, hi, kind="real"):
        v = self.V.new(name, kind, lo, hi, None, ("in", name))
        self.names[name] = v.id
        if v.id not in self.asg:
            if kind == "int":
                self.asg[v.id] = self.rng.randint(int(lo), int(hi))
            else:
                a = max(lo, -3.0)
                b = min(hi, 3.0)
                self.asg[v.id] = self.rng.uniform(a, b)
            self.session.asg[v.id] = self.asg[v.id]
        return v

    def _mk(self, polys, shape, dtype):
        arr = SA.from_polys(self.V, polys, shape)
        if self.mode == "sym":
            code = SymTracer(self.trace, core.ShapedArray(tuple(shape), np.dtype(dtype)), arr)
            return Pair(code, arr)
        num = arr.eval(self.asg)
        num = num if np.dtype(dtype).kind == "c" else num.real
        num = num.astype(dtype)
        return Pair(jnp.asarray(num), arr if SYMSPEC else SA.const(self.V, num))

    def carray(self, name, shape, bound=1.0):
        polys = []
        n = int(np.prod(shape)) if shape else 1
        for k in range(n):
            a = self._var(f"{name}.re[{k}]", -bound, bound)
            b = self._var(f"{name}.im[{k}]", -bound, bound)
            polys.append({((a.id, 1),): 1 + 0j, ((b.id, 1),): 1j})
        return self._mk(polys, shape, np.complex128)

    def rarray(self, name, shape, lo=-1.0, hi=1.0, dtype=np.float64):
        n = int(np.prod(shape)) if shape else 1
        vs = [self._var(f"{name}[{k}]" if shape else name, lo, hi) for k in range(n)]
        return self._mk([{((v.id, 1),): 1 + 0j} for v in vs], shape, dtype)

    def positions(self, name, d):
        """Basis positions with symbolic entries (the others are zero)."""
        if self.few is None or self.few >= d:
            return list(range(d))
        r = random.Random(f"{name}:{d}:{self.few}")
        return sorted(r.sample(range(d), self.few))

    def cstate(self, name, n):
        d = 2**n
        pos = self.positions(name, d)
        if self.reals:
            polys = [{} for _ in range(d)]
            for k in pos:
                polys[k] = {((self._var(f"{name}[{k}]", -1, 1).id, 1),): 1 + 0j}
            return self._mk(polys, (2,) * n, np.float64)
        if len(pos) == d:
            return self.carray(name, (2,) * n)
        polys = [{} for _ in range(d)]
        for k in pos:
            a, b = self._var(f"{name}.re[{k}]", -1, 1), self._var(f"{name}.im[{k}]", -1, 1)
            polys[k] = {((a.id, 1),): 1 + 0j, ((b.id, 1),): 1j}
        return self._mk(polys, (2,) * n, np.complex128)

    def hermitian(self, name, d):
        """Hermitian matrix (d, d)."""
        polys = [{} for _ in range(d * d)]
        pos = self.positions(name, d)
        for x, i in enumerate(pos):
            for j in pos[x:]:
                a = self._var(f"{name}.re[{i},{j}]", -1, 1)
                p = {((a.id, 1),): 1 + 0j}
                q = dict(p)
                if i != j and not self.reals:
                    b = self._var(f"{name}.im[{i},{j}]", -1, 1)
                    p[((b.id, 1),)] = 1j
                    q[((b.id, 1),)] = -1j
                polys[i * d + j] = p
                polys[j * d + i] = q
        return self._mk(polys, (d, d), np.float64 if self.reals else np.complex128)

    def real(self, name, lo=-1.0, hi=1.0, shape=()):
        return self.rarray(name, shape, lo, hi)

    def angle(self, name, shape=()):
        if self.ints and not shape:
            return self.integer(name, -13, 13)
        return self.rarray(name, shape, -13.0, 13.0)

    def integer(self, name, lo, hi):
        v = self._var(name, lo, hi, "int")
        return self._mk([{((v.id, 1),): 1 + 0j}], (), np.int64)

    def derived(self, sa, dtype=np.complex128):
        """An input computed from other inputs."""
        if self.mode == "sym":
            return Pair(SymTracer(self.trace, core.ShapedArray(tuple(sa.shape), np.dtype(dtype)), sa), sa)
        num = sa.eval(self.asg)
        num = (num if np.dtype(dtype).kind == "c" else num.real).astype(dtype)
        return Pair(jnp.asarray(num), sa if SYMSPEC else SA.const(self.V, num))

    def const(self, x):
        return SA.const(self.V, np.asarray(x))

    def assume(self, op, sa):
        """op in gt/ge/eq, sa scalar SA: constrain the inputs."""
        (p,) = sa.polys()
        if self.mode == "sym":
            self.session.assume.append((op, p))
        else:
            if not self.V.eval_atom((op, p), self.asg, {}):
                raise Abort()

    # -- obligations --------------------------------------------------------------------
    def value(self, x):
        """Symbolic (or numeric) array of something the code returned."""
        x = lift(x)
        if isinstance(x, SymTracer):
            v = x.val
            return v if isinstance(v, SA) else SA.const(self.V, v)
        if isinstance(x, core.Tracer):
            raise Unsupported("a foreign tracer was returned")
        return SA.const(self.V, np.asarray(x))

    def check(self, label, code, spec, tol=TOL):
        c = code if isinstance(code, SA) else self.value(code)
        if not isinstance(spec, SA):
            spec = SA.const(self.V, spec)
        self.checks += 1
        if tuple(c.shape) != tuple(spec.shape):
            self.failed.append((label, f"shape {tuple(c.shape)} where {tuple(spec.shape)} is required"))
            return
        self.pairs.append((label, c, spec, tol))

    def true(self, label, cond, text=""):
        """A structural obligation decided on this path."""
        self.checks += 1
        if isinstance(cond, (core.Tracer,)) or not isinstance(cond, (bool, np.bool_)):
            with core.set_current_trace(self.trace) if self.trace else _null():
                cond = bool(cond)
        if not cond:
            self.failed.append((label, text or "does not hold"))

    def raises(self, label, exc, fn, when):
        """fn() raises exc exactly when `when` (a 0/1 SA or bool) holds on this path."""
        self.checks += 1
        try:
            fn()
            got = 0.0
        except exc:
            got = 1.0
        if isinstance(when, bool):
            when = SA.const(self.V, float(when))
        self.pairs.append((label, SA.const(self.V, got), when, 0.5))
        return bool(got)

    def cond(self, op, sa):
        """0/1 SA of a scalar condition on the inputs."""
        (p,) = sa.polys()
        return SA.from_polys(self.V, [self.session.atom(op, p)], ())


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def run_body(body, mode, V, asg, rng):
    h = H(mode, V, asg, rng)
    sampler(mode)
    if mode == "sym":
        with core.set_current_trace(h.trace):
            body(h)
    else:
        body(h)
    return h


def diffs(pairs, V, asg):
    """Largest numeric difference per label at an assignment."""
    out = []
    cache = {}
    for label, c, s, tol in pairs:
        d = np.abs(c.eval(asg, cache) - s.eval(asg, cache))
        d = float(np.max(d)) if d.size else 0.0
        if not np.isfinite(d):
            d = 1e300
        out.append((label, d, tol))
    return out


def ok_point(h, asg):
    cache = {}
    V = h.V
    try:
        for op, p in h.session.assume:
            if not V.eval_atom((op, p), asg, cache):
                return False
        for p, v in h.session.path:
            if abs(V.eval_poly(p, asg, cache) - v) > 1e-9:
                return False
    except Unsupported:
        return False
    return True


@dataclass
class Harness:
    name: str
    body: object
    limit: int = 120
    cost: float = 1.0
    validate: bool = True
    concrete_body: object = None
    replay_fn: object = None
    symspec: bool = False  # keep the specification symbolic on concrete runs (it is differentiated)
    sampler: object = None  # (mode while symbolic, mode while concrete) of engine.stubs


SAMPLER = (None, None)
SYMSPEC = False


def sampler(mode):
    if SAMPLER == (None, None) and "engine.stubs" not in sys.modules:
        return
    from . import stubs

    stubs.set_mode(SAMPLER[0] if mode == "sym" else SAMPLER[1])


def replay_record(h, rec):
    """Run a recorded counterexample on the real code."""
    global SAMPLER, SYMSPEC
    SAMPLER, SYMSPEC = h.sampler or (None, None), h.symspec
    V = Vars()
    byname = rec["inputs"]
    a = {}
    rng = random.Random(0)
    return concrete_failure(h.concrete_body or h.body, named(byname, a), a, rng, h.replay_fn)


def named(byname, a):
    """A variable table whose inputs take the given values."""

    class HV(Vars):
        def new(self, name, kind="real", lo=-1.0, hi=1.0, info=None, key=None):
            v = super().new(name, kind, lo, hi, info, key)
            if isinstance(key, tuple) and key[0] == "in" and v.id not in a and name in byname:
                a[v.id] = byname[name]
            return v

    return HV()


def run_harness(hs, seed, tier):
    """Decide one harness. Returns a result record."""
    global SAMPLER, SYMSPEC
    SAMPLER, SYMSPEC = hs.sampler or (None, None), hs.symspec
    name, body, limit, validate = hs.name, hs.body, hs.limit, hs.validate
    concrete_body, replay_fn = hs.concrete_body, hs.replay_fn
    t0 = time.time()
    q0 = dict(smt.stats)
    rng = random.Random(f"{seed}:{name}")
    V = Vars()
    res = {
        "name": name, "status": "proved", "paths": 0, "ops": 0, "pairs": 0, "elements": 0,
        "validated": 0, "detail": "", "violations": [], "vars": 0, "monomials": 0, "vacuity": 0,
    }
    cbody = concrete_body or body

    def alarm(*_):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    try:
        _explore(name, body, cbody, rng, V, res, tier, validate, replay_fn)
    except Timeout:
        res["status"] = "undecided" if not res["violations"] else "violation"
        res["detail"] = f"time limit {limit} s"
    except Unsupported as e:
        res["status"] = "undecided"
        res["detail"] = f"not encodable: {e}"
    except MemoryError:
        res["status"] = "undecided"
        res["detail"] = "memory"
    except Exception as e:  # noqa: BLE001
        res["status"] = "undecided"
        res["detail"] = "".join(traceback.format_exception(e))[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if res["status"] == "undecided":
        # the solver could not decide; look for a concrete disagreement all the same
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(60)
        try:
            for k in range(4):
                asg = {}
                Vc = Vars()
                try:
                    v = concrete_failure(cbody, Vc, asg, random.Random(f"{seed}:{name}:{k}"), replay_fn)
                except Abort:
                    continue
                if v:
                    res["violations"].append(v)
                    res["status"] = "violation"
                    break
        except Timeout:
            pass
        except Exception as e:  # noqa: BLE001
            res["detail"] += " | concrete run: " + repr(e)[:300]
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    res["vars"] = len(V.vars)
    res["wall"] = time.time() - t0
    for k in ("queries", "unsat", "sat", "unknown", "solver_s", "cvc5_agree"):
        res[k] = smt.stats[k] - q0[k]
    return res


def concrete_failure(body, V, asg, rng, replay_fn=None, only=None):
    """Run on concrete inputs; a violation record if the code disagrees with the specification."""
    if replay_fn is not None:
        return replay_fn(V, asg, rng)
    try:
        h = run_body(body, "conc", V, asg, rng)
    except Abort:
        raise
    except Unsupported:
        raise
    except Exception as e:  # noqa: BLE001
        return _violation("exception", repr(e)[:300], V, asg, 1.0,
                          "".join(traceback.format_exception(e))[-1500:])
    if h.failed:
        return _violation(h.failed[0][0], h.failed[0][1], V, asg, 1.0)
    worst = None
    for label, d, tol in diffs(h.pairs, V, asg):
        if d > tol / 2 and (worst is None or d > worst[1]):
            worst = (label, d)
    if worst:
        return _violation(worst[0], f"differs from the specification by {worst[1]:.3g}", V, asg, worst[1])
    return None


def _violation(label, text, V, asg, size, trace=""):
    return {
        "label": label, "text": text, "size": size, "trace": trace,
        "inputs": {V.vars[k].name: v for k, v in asg.items() if V.vars[k].kind in ("real", "int")},
    }


def replay_point(cbody, V, asg, rng, replay_fn):
    """Replay an assignment of the symbolic run concretely (fresh variable table, by name)."""
    byname = {V.vars[k].name: v for k, v in asg.items() if k < len(V.vars)}
    a = {}
    Vc = named(byname, a)
    try:
        return concrete_failure(cbody, Vc, a, rng, replay_fn)
    except Abort:
        return None


def _explore(name, body, cbody, rng, V, res, tier, validate, replay_fn):
    maxpaths = 4096
    todo = [{}]  # assignments to run
    seen = {}  # prefix of path conditions + polynomial -> values taken there
    open_ = []  # prefixes which may have another value: (key, path up to and including the node, assignment, assume)
    first = True
    while True:
        if not todo:
            if not open_:
                return
            key, prev, p, asg0, assume = open_.pop()
            r, m = smt.feasible(V, assume, prev, [(p, v) for v in sorted(seen[key])])
            if r == "unsat":
                continue
            if r == "unknown":
                raise Unsupported("path condition undecided")
            na = {**asg0, **m}
            cache = {}
            got = V.eval_poly(p, na, cache).real
            if any(abs(got - v) < 1e-9 for v in seen[key]) or any(
                abs(V.eval_poly(q, na, cache) - w) > 1e-9 for q, w in prev
            ):
                raise Unsupported("a model of a path condition is lost to rounding")
            todo.append(na)
        asg = dict(todo.pop())
        if res["paths"] >= maxpaths:
            raise Unsupported(f"more than {maxpaths} paths")
        err = None
        h = H("sym", V, asg, rng)
        sampler("sym")
        try:
            with core.set_current_trace(h.trace):
                body(h)
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            err = e
        res["paths"] += 1
        res["ops"] += sum(h.session.ops.values())
        if first and not ok_point(h, asg):
            # the seed assignment breaks an assumption: start from a solver model
            r, m = smt.feasible(V, h.session.assume)
            if r != "sat":
                raise Unsupported(f"assumptions are {r}")
            todo.append({**asg, **m})
            first = False
            res["paths"] -= 1
            continue
        if err is not None:
            v = replay_point(cbody, V, asg, rng, replay_fn)
            if v:
                res["violations"].append(v)
                res["status"] = "violation"
                return
            raise Unsupported("symbolic run failed: " + "".join(traceback.format_exception(err))[-900:])
        if "samples" not in res:
            res["samples"] = [describe(h)]
        first = False
        if h.failed:
            v = replay_point(cbody, V, asg, rng, replay_fn)
            if v:
                res["violations"].append(v)
                res["status"] = "violation"
                return
            raise Unsupported(f"structural failure {h.failed[0]} does not reproduce")
        st = decide(h, asg, cbody, rng, res, tier, replay_fn)
        if st == "violation":
            return
        if validate and res["validated"] == 0 and h.mode == "sym":
            _validate(h, V, asg, cbody, rng, res, replay_fn)
            if res["status"] == "violation":
                return
        if h.one_path:
            return
        # every path condition may take another value
        path = h.session.path
        prefix = ()
        for i, (p, val) in enumerate(path):
            key = (prefix, poly_key(p))
            prefix = hash((prefix, poly_key(p), val))
            if is_const(p):
                continue
            vals = seen.setdefault(key, set())
            if val not in vals:
                vals.add(val)
                open_.append((key, path[:i], p, asg, list(h.session.assume)))


def decide(h, asg, cbody, rng, res, tier, replay_fn):
    V = h.V
    pairs = []
    tols = {}
    for label, c, s, tol in h.pairs:
        cp, sp = c.polys(), s.polys()
        tols.setdefault(tol, []).extend(zip(cp, sp))
        res["monomials"] = max(res["monomials"], len(c.monos))
    res["pairs"] += len(h.pairs)
    for tol, prs in tols.items():
        res["elements"] += len(prs)
        for part in chunks(prs):
            r = smt.prove(V, part, tol, h.session.assume, h.session.path, cross=tier == "thorough" and rng.random() < 0.2)
            if r == "unsat":
                continue
            v = hunt(h, asg, cbody, rng, part, tol, replay_fn)
            if v == "proved":
                continue
            if v is None:
                raise Unsupported(
                    "the query is satisfiable but no counterexample reproduces"
                    if r == "sat"
                    else f"the solver gave no answer ({r})"
                )
            res["violations"].append(v)
            res["status"] = "violation"
            return "violation"
    if res["vacuity"] == 0:
        # reachability twin: the same obligation, shifted, must be refuted
        for tol, prs in tols.items():
            live = [(a, b) for a, b in prs]
            if not live:
                continue
            a, b = live[rng.randrange(len(live))]
            r = smt.prove(V, [(a, padd(b, {(): 10 * tol + 0.001 + 0j}))], tol, h.session.assume, h.session.path)
            if r != "sat":
                raise Unsupported(f"vacuous: the shifted obligation is {r}")
            res["vacuity"] += 1
            break
    return "proved"


def chunks(prs, maxterms=6000):
    out, n = [], 0
    for a, b in prs:
        out.append((a, b))
        n += len(a) + len(b)
        if n > maxterms:
            yield out
            out, n = [], 0
    if out:
        yield out


def hunt(h, asg, cbody, rng, prs, tol, replay_fn):
    """Concrete counterexample for a satisfiable query, replayed on the real code."""
    V = h.V
    base = [v for v in V.vars if v.id in asg]
    best = None
    for k in range(200):
        a = dict(asg)
        if k:
            for v in base:
                if v.kind == "real":
                    a[v.id] = rng.uniform(max(v.lo, -3), min(v.hi, 3))
                elif v.kind == "int":
                    a[v.id] = rng.randint(int(v.lo), int(v.hi))
        if not ok_point(h, a):
            continue
        cache = {}
        d = 0.0
        for x, y in prs:
            try:
                d = max(d, abs(V.eval_poly(padd(x, y, -1.0), a, cache)))
            except OverflowError:
                d = 1e300
        if d > tol and (best is None or d > best[0]):
            best = (d, a)
        if best and k >= 20:
            break
    cands = [best[1]] if best else []
    if not cands:
        r, m = smt.counterexample(V, prs, tol, h.session.assume, h.session.path)
        if r == "unsat":
            return "proved"
        if r == "sat":
            cands.append({**asg, **m})
    for a in cands:
        v = replay_point(cbody, V, a, rng, replay_fn)
        if v:
            return v
    return None


def _validate(h, V, asg, cbody, rng, res, replay_fn):
    """Encoder validation: the encoding evaluated at the assignment is what the code returns."""
    if replay_fn is not None:
        v = replay_point(cbody, V, asg, rng, replay_fn)
        if v:
            res["violations"].append(v)
            res["status"] = "violation"
        res["validated"] += 1
        return
    a = {}
    byname = {V.vars[k].name: v for k, v in asg.items()}

    Vc = named(byname, a)
    try:
        hc = run_body(cbody, "conc", Vc, a, rng)
    except Abort:
        return
    except Exception as e:  # noqa: BLE001
        res["violations"].append(
            _violation("exception", repr(e)[:300], Vc, a, 1.0, "".join(traceback.format_exception(e))[-1500:])
        )
        res["status"] = "violation"
        return
    bad = [f for f in hc.failed]
    ds = diffs(hc.pairs, Vc, a)
    for label, d, tol in ds:
        if d > tol:
            bad.append((label, f"differs from the specification by {d:.3g} at the validation point"))
    if bad:
        res["violations"].append(_violation(bad[0][0], bad[0][1], Vc, a, 1.0))
        res["status"] = "violation"
        return
    if len(hc.pairs) == len(h.pairs):
        for (l, c, _, tol), (_, c2, _, _) in zip(h.pairs, hc.pairs):
            e = np.abs(c.eval(asg, {}) - c2.eval(a, {}))
            if e.size and float(np.max(e)) > max(tol, 1e-9):
                raise Unsupported(f"encoding and code disagree on {l} by {np.max(e)}")
    res["validated"] += 1


def describe(h):
    s = {"inputs": len(h.names), "obligations": [p[0] for p in h.pairs][:6]}
    for label, c, sp, tol in h.pairs[:1]:
        ps = c.polys()
        if ps:
            p = max(ps, key=len)
            s["largest_element"] = {
                "label": label,
                "monomials": len(p),
                "head": " + ".join(
                    f"({k:.4g})" + "".join(f"*{h.V.vars[v].name}" + (f"^{q}" if q > 1 else "") for v, q in m)
                    for m, k in list(sorted(p.items()))[:3]
                ),
            }
    return s
