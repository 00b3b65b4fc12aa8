"""Discharging obligations: slicing, solver portfolio, counterexamples."""

from __future__ import annotations

import json
import os
import random
import select
import signal
import sys
import time
from fractions import Fraction

import z3

from . import core as C

_vars_cache: dict = {}
_keep: list = []


def vars_of(e):
    """free constants and uninterpreted functions of a term (cached, iterative)"""
    k = e.get_id()
    r = _vars_cache.get(k)
    if r is not None:
        return r
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        tk = t.get_id()
        if tk in _vars_cache:
            continue
        if not z3.is_app(t):
            _vars_cache[tk] = frozenset()
            _keep.append(t)
            continue
        if done:
            s = set()
            for c in t.children():
                s |= _vars_cache[c.get_id()]
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(d.name() if t.num_args() == 0 else d.name() + "()")
            _vars_cache[tk] = frozenset(s)
            _keep.append(t)
        else:
            stack.append((t, True))
            for c in t.children():
                if c.get_id() not in _vars_cache:
                    stack.append((c, False))
    return _vars_cache[k]


def slice_for(goal, constraints):
    """constraints that (transitively) share variables with the goal"""
    need = set(vars_of(goal))
    rest = [(c, vars_of(c)) for c in constraints]
    used = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for c, vs in rest:
            if vs & need or not vs:
                used.append(c)
                if not vs <= need:
                    need |= vs
                    changed = True
            else:
                nxt.append((c, vs))
        rest = nxt
    return used, [c for c, _ in rest]


class Result:
    def __init__(self, status, model=None, how=""):
        self.status, self.model, self.how = status, model, how


def _check(solver, fs, tmo, st):
    solver.set("timeout", int(tmo * 1000))
    solver.add(*fs)
    st.queries += 1
    t = time.time()
    r = solver.check()
    st.solver_s += time.time() - t
    return r


_NL: dict = {}


def nonlinear(e):
    """does the term multiply or divide unknowns?"""
    stack, path = [(e, False)], None
    while stack:
        t, done = stack.pop()
        k = t.get_id()
        if k in _NL:
            continue
        if not z3.is_app(t) or t.num_args() == 0:
            _NL[k] = False
            _keep.append(t)
            continue
        ch = t.children()
        if not done:
            stack.append((t, True))
            stack.extend((c, False) for c in ch)
            continue
        d = t.decl().kind()
        r = any(_NL.get(c.get_id()) for c in ch)
        if not r and d == z3.Z3_OP_MUL:
            r = sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) > 1
        elif not r and d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            r = not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1]))
        elif d == z3.Z3_OP_POWER:
            r = True
        _NL[k] = r
        _keep.append(t)
    return _NL[e.get_id()]


def apart(fs, seconds, make=None, model=False):
    """(verdict, values) from a solver in a process of its own, ended when the time is up:
    on nonlinear problems the solver does not always mind its time limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sys.setprofile(None)
            s = make() if make else z3.Solver()  # no time limit: its timer does not survive the fork
            s.add(*fs)
            a = s.check()
            out = {"r": str(a), "v": {}}
            if model and a == z3.sat:
                m = s.model()
                for d in m.decls():
                    v = m[d]
                    if d.arity() == 0 and (z3.is_rational_value(v) or z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v)):
                        out["v"][d.name()] = str(v)
            b = json.dumps(out).encode()
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    got, end = b"", time.time() + seconds
    try:
        while True:
            if not select.select([r], [], [], max(0, end - time.time()))[0]:
                return z3.unknown, {}
            x = os.read(r, 1 << 16)
            if not x:
                break
            got += x
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not got:
        return z3.unknown, {}
    got = json.loads(got)
    return {"unsat": z3.unsat, "sat": z3.sat}.get(got["r"], z3.unknown), got["v"]


def constants(e):
    seen, out, stack = set(), [], [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        stack.extend(t.children())
    return out


def pins(e, values):
    out = []
    for t in constants(e):
        v = values.get(t.decl().name())
        if v is None:
            continue
        out.append((t if v == "True" else z3.Not(t)) if z3.is_bool(t) else t == (z3.IntVal(v) if z3.is_int(t) else z3.RealVal(v)))
    return out


def check_sat(fs, st, budget=(3, 8, 25), want_model=True):
    """sat / unsat / unknown with a small portfolio."""
    g = z3.simplify(z3.And(*fs)) if fs else z3.BoolVal(True)
    if z3.is_false(g):
        return Result("unsat", how="simplify")
    unk = None
    plans = [("default", lambda: z3.Solver()), ("qfnra", lambda: z3.Tactic("qfnra").solver()),
             ("smt", lambda: z3.SimpleSolver()), ("default", lambda: z3.Solver())]
    tmos = [budget[0], budget[1], budget[1], budget[2]] if len(budget) > 1 else list(budget)
    for (name, mk), tmo in zip(plans, tmos):
        try:
            if nonlinear(g):
                st.queries += 1
                t = time.time()
                r, values = apart([g], tmo, mk, True)
                st.solver_s += time.time() - t
                if r == z3.sat:  # the model, made here
                    s = z3.Solver()
                    r = _check(s, [g] + pins(g, values), 3, st)
                    if r != z3.sat:
                        continue
            else:
                s = mk()
                r = _check(s, [g], tmo, st)
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return Result("unsat", how=name)
        if r == z3.sat:
            try:
                m = s.model()
                return Result("sat", m, name)
            except z3.Z3Exception:
                continue
    st.unknown += 1
    return Result("unknown")


def conditions(e):
    """the case distinctions of a term, linear ones first, then by size"""
    seen, out, stack = set(), {}, [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            out[t.arg(0).get_id()] = t.arg(0)
        stack.extend(t.children())
    return sorted(out.values(), key=lambda c: (nonlinear(c), len(vars_of(c)), len(str(c))))


def by_cases(used, neg, st, each=0.4, seconds=40, depth=10):
    """unsat if the solver refutes every case, splitting on the case distinctions of the term"""
    end = time.time() + seconds
    work = [([], neg)]
    while work:
        conds, e = work.pop()
        if time.time() > end:
            return False
        e = z3.simplify(e)
        if z3.is_false(e):
            continue
        r = check_sat(used + conds + [e], st, (each,))
        if r.status == "unsat":
            continue
        if r.status == "sat" or len(conds) >= depth:
            return False
        cs = conditions(e)
        if not cs:
            return False
        c = cs[0]
        for b in (True, False):
            work.append((conds + [c if b else z3.Not(c)], z3.substitute(e, (c, z3.BoolVal(b)))))
    return True


def val(m, e):
    """model value of a term as python number (or None)"""
    v = m.eval(e, model_completion=True)
    return num(v)


def num(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
