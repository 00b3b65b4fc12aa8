"""Run the scenarios of one property, decide every obligation, write evidence."""

from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction
from pathlib import Path

import numpy as np
import z3

from . import core as C
from . import normal, solve
from .core import Ctx, EngineError, Inconclusive, PathAbort
from .harness import Assumption, ConcH, SymH
from .solve import Result

ROOT = Path(__file__).resolve().parent.parent
REPO_SRC = os.path.realpath("/repo/src")
PY = sys.executable


class Scenario:
    def __init__(self, name, fn, bounds="", thorough_only=False, budget=(3, 8, 25), max_paths=3000,
                 branch_ms=4000, deadline=600, raises=(), validate=2):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.thorough_only = thorough_only
        self.budget, self.max_paths, self.branch_ms = budget, max_paths, branch_ms
        self.deadline = deadline
        self.raises = raises
        self.validate = validate


class Profiler:
    """names of the repository functions one symbolic path executed"""

    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO_SRC):
                self.seen.add(f"{os.path.relpath(co.co_filename, '/repo')}:{co.co_qualname}")


def rnd_value(rng, rng_nice, is_int):
    lo, hi = rng_nice
    lo, hi = float(lo), float(hi)
    if is_int:
        return Fraction(rng.randint(int(lo), int(hi)))
    x = lo + (hi - lo) * rng.uniform(0.05, 0.95)
    mag = max(abs(lo), abs(hi), 1e-12)
    import math

    digs = max(0, 3 - int(math.floor(math.log10(mag))))
    return Fraction(str(round(x, digs)))


class PathRun:
    def __init__(self, scen, h, c, res, deadline):
        self.scen, self.h, self.c, self.res, self.deadline = scen, h, c, res, deadline
        self.constraints = list(c.path) + list(c.axioms)
        self._pruner = None

    def pruner(self):
        if self._pruner is None:
            self._pruner = normal.Pruner(self.constraints, self.c.stats, deadline=self.deadline)
        return self._pruner

    def identity(self, obl):
        a, b = obl.val
        p = self.pruner()
        for v in (a, b):
            for t in (v.nan, v.pinf, v.ninf):
                if t is False:
                    continue
                t = z3.simplify(p.prune(C._zb(t)))
                if not z3.is_false(t) and p.decided(t) is not False:
                    return False
        x, y = C._pair(a.e, b.e)
        return normal.identical(z3.simplify(p.prune(C.to_real(x))), z3.simplify(p.prune(C.to_real(y))), p,
                                self.h.box, Fraction(1, 10**6))

    # -- models
    def nice_cons(self, names):
        out = []
        for n in names:
            if n in self.h.nice and n in self.h.inputs:
                v = self.h.inputs[n]
                if z3.is_bool(v):
                    continue
                lo, hi = self.h.nice[n]
                out += [v >= C.rv(lo), v <= C.rv(hi)]
        return out

    def assignment(self, m, used_names, rest):
        """complete a model of the relevant part to a full assignment"""
        asg, ufs = {}, {}
        m2 = None
        if rest:
            names = set()
            for r in rest:
                names |= solve.vars_of(r)
            r2 = solve.check_sat(rest + self.nice_cons(names), self.c.stats, (3, 5, 5))
            if r2.status != "sat":
                r2 = solve.check_sat(rest, self.c.stats, (3, 5, 10))
            if r2.status == "sat":
                m2 = r2.model
        for n, v in self.h.inputs.items():
            mm = m2 if (m2 is not None and n not in used_names) else m
            x = solve.val(mm, v)
            if x is None:
                return None
            asg[n] = x
        for fname, es, e in self.h.ufapps:
            mm = m2 if (m2 is not None and fname + "()" not in used_names) else m
            xs = [solve.val(mm, a) for a in es]
            y = solve.val(mm, e)
            if y is None or any(x is None for x in xs):
                return None
            ufs.setdefault(fname, []).append([xs, y])
        return asg, ufs

    def solve_goal(self, goal, budget=None, extra=()):
        used, rest = solve.slice_for(goal, self.constraints + list(extra))
        r = solve.check_sat(used + [goal], self.c.stats, budget or self.scen.budget)
        names = set(solve.vars_of(goal))
        for u in used:
            names |= solve.vars_of(u)
        return r, names, rest, used


def jsonable(asg, ufs):
    f = lambda x: x if isinstance(x, (bool, int)) else (float(x) if x.denominator & (x.denominator - 1) and x.denominator > 10**17 else str(x))
    g = lambda x: x if isinstance(x, (bool, int)) else str(x)
    return ({k: g(v) for k, v in asg.items()},
            {k: [[[g(a) for a in xs], g(y)] for xs, y in rows] for k, rows in ufs.items()})


def unjson(d):
    f = lambda x: x if isinstance(x, (bool, int)) else float(Fraction(x))
    return ({k: f(v) for k, v in d["inputs"].items()},
            {k: [[[f(a) for a in xs], f(y)] for xs, y in rows] for k, rows in d["ufs"].items()})


def run_concrete(scen, asg, ufs, tier):
    """run the scenario on plain floats; returns (failed labels, values, exception)"""
    h = ConcH(asg, tier, ufs)
    exc = None
    saved = Ctx.cur
    Ctx.cur = None
    try:
        with np.errstate(all="ignore"):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                scen.fn(h)
    except Assumption:
        exc = ("Assumption", "")
    except PathAbort:
        exc = ("Assumption", "")
    except Exception as e:  # noqa
        exc = (type(e).__name__, "".join(traceback.format_exception(e))[-3000:])
    finally:
        Ctx.cur = saved
    return h, exc


def replay_subprocess(prop, scen, asg, ufs, tier, label, idx):
    d = ROOT / "evidence" / "replays"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{prop}-{scen.name}-{idx}.json"
    ins, uu = jsonable(asg, ufs)
    p.write_text(json.dumps({"property": prop, "scenario": scen.name, "label": label,
                             "tier": tier, "inputs": ins, "ufs": uu,
                             "how": f"cd {ROOT} && {PY} -m engine.replay {p}"}, indent=1))
    try:
        r = subprocess.run([PY, "-m", "engine.replay", str(p)], cwd=ROOT, capture_output=True,
                           text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return str(p), None, "timeout"
    fails = None
    for line in r.stdout.splitlines():
        if line.startswith("REPLAY "):
            fails = json.loads(line[7:])
    return str(p), fails, r.stdout[-2000:] + r.stderr[-2000:]


def base_label(l):
    return l


def discharge(prop, pr: PathRun, obl, cache, viol_state):
    h, c, scen, res = pr.h, pr.c, pr.scen, pr.res
    if obl.label in res["listed"] and any(v["label"] == obl.label for v in res["violations"]):
        return  # a known finding, shown already
    neg = z3.simplify(obl.neg)
    if z3.is_false(neg):
        res["discharged"] += 1
        res["trivial"] += 1
        return
    used, rest = solve.slice_for(neg, pr.constraints)
    key = (neg.get_id(), frozenset(u.get_id() for u in used))
    if key in cache:
        res["dup"] += 1
        return
    cache[key] = True
    solve._keep.append(neg)
    solve._keep.extend(used)
    r = solve.check_sat(used + [neg], c.stats, (0.5,))
    if r.status != "unsat":
        pn = pr.pruner()
        same = obl.kind == "eq" and pr.identity(obl)
        if same:
            res["discharged"] += 1
            res["tolerance" if same == "rounding" else "identity"] += 1
            return
        neg = z3.simplify(pn.prune(neg))
        if z3.is_false(neg):
            res["discharged"] += 1
            return
        used, rest = solve.slice_for(z3.And(neg, z3.simplify(pn.prune(obl.margin(1e-4)))), pr.constraints)
        if r.status == "unknown" and solve.by_cases(used, neg, c.stats):
            res["discharged"] += 1
            return
        r = solve.check_sat(used + [neg], c.stats, scen.budget)
    if r.status == "unsat":
        res["discharged"] += 1
        return
    # a candidate (or unknown): look for a robust counterexample
    names = set(solve.vars_of(neg)) | set(solve.vars_of(z3.simplify(pn.prune(obl.margin(1e-4)))))
    for u in used:
        names |= solve.vars_of(u)
    nice = pr.nice_cons(names)
    tried, margin_unsat = 0, False
    rng = random.Random(hash((h.seed, obl.label)) & 0xFFFF)
    cands = []

    # replays that confirm nothing are costly: the more of them, the fewer per obligation
    most = 12 if len(res["inconclusive"]) < 4 else 2 if len(res["inconclusive"]) < 24 else 0

    def attempt(model, tag):
        nonlocal tried
        if tried >= most:
            return False
        full = pr.assignment(model, names, rest)
        if full is None:
            return False
        tried += 1
        asg, ufs = full
        # cheap pre-check in this process, then the deciding replay in a clean one
        viol_state["n"] += 1
        path, fails, log = replay_subprocess(prop, scen, asg, ufs, h.tier, obl.label,
                                             viol_state["n"])
        if fails and any(f[0] == obl.label for f in fails):
            det = [f for f in fails if f[0] == obl.label][0]
            res["violations"].append({"label": obl.label, "scenario": scen.name, "replay": path,
                                      "detail": det[1], "how": tag})
            return True
        fails = [f for f in fails or [] if f[0] not in res["listed"]]
        if fails:
            res["violations"].append({"label": fails[0][0], "scenario": scen.name,
                                      "replay": path, "detail": fails[0][1], "how": tag})
            return True
        res["logs"].append((obl.label, tag, log[-800:]))
        return False

    statuses = []
    for eps in (1e-2, 1e-4):
        goal = z3.simplify(pn.prune(obl.margin(eps)))
        for extra, tag in ((nice, "nice"), ([], "any")):
            if not extra and tag == "nice":
                continue
            rr = solve.check_sat(used + [goal] + list(extra), c.stats, (3, 6, 15))
            statuses.append((eps, tag, rr.status))
            if rr.status == "sat":
                if attempt(rr.model, f"margin {eps} {tag}"):
                    return
                if tried >= 4:
                    break
        if tried >= 4:
            break
    goal = z3.simplify(pn.prune(obl.margin(1e-6)))
    rr = solve.check_sat(used + [goal], c.stats, scen.budget)
    if rr.status == "unsat":
        res["discharged"] += 1
        res["tolerance"] += 1
        return
    if rr.status == "sat" and tried < 6 and attempt(rr.model, "margin 1e-6"):
        return
    if r.status == "sat" and tried < 7 and obl.kind in ("true", "finite") and attempt(r.model, "exact"):
        return
    # partial concretisation: pin inputs at random values, let the solver do the rest
    ins = [n for n in names if n in h.inputs]
    for k in range(14):
        if time.time() > pr.deadline or tried >= 12:
            break
        frac_pinned = 1.0 if k < 6 else (0.7 if k < 10 else 0.4)
        pins = []
        for n in ins:
            v = h.inputs[n]
            if z3.is_bool(v):
                if rng.random() < frac_pinned:
                    pins.append(v if rng.random() < 0.5 else z3.Not(v))
            elif rng.random() < frac_pinned:
                pins.append(v == C.rv(rnd_value(rng, h.nice[n], z3.is_int(v))))
        rr = solve.check_sat(used + [z3.simplify(pn.prune(obl.margin(1e-4)))] + pins, c.stats, (2, 3, 3))
        if rr.status == "sat" and attempt(rr.model, "pinned"):
            return
    res["inconclusive"].append((obl.label, r.status, statuses, tried))


def validate_path(pr: PathRun, rng):
    """reachability witness, replayed on the plain code; compares values"""
    h, c, scen, res = pr.h, pr.c, pr.scen, pr.res
    for attempt in range(4):
        pins = []
        if attempt < 3:
            for n, v in h.inputs.items():
                if z3.is_bool(v):
                    continue
                if rng.random() < (0.9, 0.6, 0.3)[attempt]:
                    pins.append(v == C.rv(rnd_value(rng, h.nice[n], z3.is_int(v))))
        cons = pr.constraints
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*cons)
        s.add(*pr.nice_cons(h.inputs))
        r = z3.unknown
        # drop pins that do not fit
        for _ in range(6):
            c.stats.queries += 1
            t = time.time()
            r = s.check(*pins)
            c.stats.solver_s += time.time() - t
            if r == z3.sat or not pins:
                break
            if r == z3.unsat:
                core = s.unsat_core()
                ids = {x.get_id() for x in core}
                newp = [p for p in pins if p.get_id() not in ids]
                pins = newp if len(newp) < len(pins) else []
            else:
                pins = []
        if r != z3.sat:
            continue
        full = pr.assignment(s.model(), set(h.inputs) | {f + "()" for f, _, _ in h.ufapps}, [])
        if full is None:
            continue
        asg, ufs = full
        m = s.model()
        f = lambda x: x if isinstance(x, (bool, int)) else float(x)
        ch, exc = run_concrete(scen, {k: f(v) for k, v in asg.items()},
                               {k: [[[f(a) for a in xs], f(y)] for xs, y in rows] for k, rows in ufs.items()},
                               h.tier)
        if exc is not None:
            res["witness_problems"].append(f"{scen.name}: witness: {exc[0]} {exc[1][-300:]}")
            continue
        bad = []
        ncmp = 0
        seen: dict = {}
        for o in h.obls:
            i = seen.get(o.label, 0)
            seen[o.label] = i + 1
            got = ch.checked.get(o.label, [])
            if i >= len(got):
                bad.append((o.label, "not evaluated by the real code"))
                continue
            if o.kind in ("eq", "le", "finite"):
                v = o.val[0]
                if any(n.startswith("uf_") for n in solve.vars_of(v.e)):
                    continue
                if v.nan is not False and solve.num(m.eval(C._zb(v.nan), True)) is True:
                    ok = got[i] != got[i]
                    want = "nan"
                elif (v.pinf is not False or v.ninf is not False) and solve.num(
                        m.eval(C._zb(C.b_or(v.pinf, v.ninf)), True)) is True:
                    ok, want = abs(got[i]) == float("inf"), "inf"
                else:
                    want = solve.val(m, v.e)
                    if want is None:
                        continue
                    want = float(want)
                    ok = abs(want - got[i]) <= 1e-4 * (1 + abs(want))
                ncmp += 1
                if not ok:
                    bad.append((o.label, want, got[i]))
        if bad:
            res["witness_problems"].append(f"{scen.name}: {len(bad)} differ, e.g. {bad[0]}")
            continue
        res["validated"] += 1
        res["compared"] += ncmp
        if len(res["samples"]) < 2:
            res["samples"].append({"scenario": scen.name,
                                   "witness": {k: f(v) for k, v in list(asg.items())[:12]},
                                   "values_compared": ncmp})
        return True
    return False


class Enough(Exception):
    """violations (or errors) enough to report"""


def run_scenario(prop, scen, tier, seed):
    from . import patches

    patches.install()
    t0 = time.time()
    c = Ctx(branch_timeout_ms=scen.branch_ms, max_paths=scen.max_paths)
    h = SymH(tier, seed)
    res = dict(scenario=scen.name, bounds=scen.bounds, discharged=0, trivial=0, dup=0, tolerance=0, identity=0,
               obligations=0, violations=[], inconclusive=[], errors=[], logs=[], validated=0,
               compared=0, samples=[], witness_problems=[], functions=[], reached=0, paths_exc=0)
    res["listed"] = sorted({k["label"] for k in known_findings() if (k["property"], k["scenario"]) == (prop, scen.name)})
    cache: dict = {}
    vs = {"n": 0}

    def new():
        return [v for v in res["violations"] if v["label"] not in res["listed"]]
    prof = Profiler()
    deadline = c.deadline = t0 + scen.deadline
    rng = random.Random(seed * 7919 + len(scen.name))
    want_valid = scen.validate
    val_state = {"tries": 0}

    def one():
        if len(new()) >= 3 or len(res["errors"]) >= 6 or len(res["inconclusive"]) >= 40:
            raise Enough
        h.begin()
        exc = None
        aborted = False
        sys.setprofile(prof)
        try:
            scen.fn(h)
        except PathAbort:
            aborted = True
        except EngineError:
            sys.setprofile(None)
            raise
        except Exception as e:  # noqa
            exc = e
        finally:
            sys.setprofile(None)
        pr = PathRun(scen, h, c, res, deadline)
        if exc is not None:
            tb = "".join(traceback.format_exception(exc))
            res["paths_exc"] += 1
            r = solve.check_sat(pr.constraints + pr.nice_cons(h.inputs), c.stats, (3, 8, 15))
            if r.status != "sat":
                r = solve.check_sat(pr.constraints, c.stats, (3, 8, 25))
            if r.status == "unsat":
                return
            ok = False
            if r.status == "sat":
                full = pr.assignment(r.model, set(h.inputs) | {f + "()" for f, _, _ in h.ufapps}, [])
                if full is not None:
                    vs["n"] += 1
                    path, fails, log = replay_subprocess(prop, scen, full[0], full[1], tier,
                                                         "exception", vs["n"])
                    fails = [f for f in fails or [] if f[0] not in res["listed"]]
                    if fails:
                        res["violations"].append(
                            {"label": fails[0][0], "scenario": scen.name, "replay": path,
                             "detail": fails[0][1], "how": "exception"})
                        ok = True
                    res["logs"].append(("exception", "", log[-1500:]))
            if not ok:
                res["errors"].append(f"exception on a symbolic path that the real code does not show: {tb[-1800:]}")
            return
        res["obligations"] += len(h.obls)
        if h.path_reached:
            res["reached"] += 1
        nviol0 = len(res["violations"])
        for o in h.obls:
            if time.time() > deadline:
                res["inconclusive"].append(("deadline", scen.name))
                return
            if len(new()) >= 3 or len(res["inconclusive"]) >= 40:
                break
            discharge(prop, pr, o, cache, vs)
        if h.path_reached and not aborted and res["validated"] < want_valid and val_state["tries"] < want_valid + 4 \
                and not new():
            val_state["tries"] += 1
            validate_path(pr, rng)

    try:
        c.explore(one)
        if time.time() > deadline:
            res["inconclusive"].append(("deadline", scen.name))
    except Enough:
        pass
    except EngineError as e:
        res["errors"].append("".join(traceback.format_exception(e))[-2500:])
    except z3.Z3Exception as e:
        res["errors"].append("z3: " + "".join(traceback.format_exception(e))[-2500:])
    except RecursionError as e:
        res["errors"].append("recursion: " + "".join(traceback.format_exception(e))[-500:])
    res.update(paths=c.stats.paths, branches=c.stats.branches, queries=c.stats.queries,
               solver_s=c.stats.solver_s, unknown=c.stats.unknown, functions=sorted(prof.seen),
               wall=time.time() - t0)
    if not res["reached"] and not res["violations"]:
        res["errors"].append("vacuous: the end of the harness was never reached")
    elif not res["validated"] and not res["violations"] and want_valid:
        res["errors"].append("no reachability witness could be replayed on the real code: "
                             + "; ".join(res["witness_problems"][:2])[:1500])
    return res


def _worker(a):
    prop, name, tier, seed = a
    sys.setrecursionlimit(20000)
    try:
        from . import patches

        patches.install()
        mod = load_check(prop)
        scen = [s for s in mod.SCENARIOS if s.name == name][0]
        return run_scenario(prop, scen, tier, seed)
    except Exception as e:  # noqa
        return dict(scenario=name, errors=["".join(traceback.format_exception(e))[-2500:]])


def load_check(prop):
    return importlib.import_module(f"checks.{prop}")


def known_findings():
    p = ROOT / "known_findings.json"
    return json.loads(p.read_text())["findings"] if p.exists() else []


def main(prop, tier, seed, only=None, jobs=8, verbose=False):
    t0 = time.time()
    from . import patches

    patches.install()
    mod = load_check(prop)
    scens = [s for s in mod.SCENARIOS if (tier == "thorough" or not s.thorough_only)]
    if only:
        scens = [s for s in scens if only in s.name]
    args = [(prop, s.name, tier, seed) for s in scens]
    # longest first
    if jobs > 1 and len(args) > 1:
        with mp.get_context("fork").Pool(min(jobs, len(args)), maxtasksperchild=1) as pool:
            results = list(pool.imap_unordered(_worker, args, chunksize=1))
    else:
        results = [_worker(a) for a in args]
    results.sort(key=lambda r: r["scenario"])
    kf = [k for k in known_findings() if k["property"] == prop]
    viol, known, errors, inconc = [], [], [], []
    for r in results:
        for v in r.get("violations", []):
            k = [k for k in kf if k["scenario"] == v["scenario"] and k["label"] == v["label"]]
            (known if k else viol).append((v, k[0] if k else None))
        errors += [(r["scenario"], e) for e in r.get("errors", [])]
        inconc += [(r["scenario"], e) for e in r.get("inconclusive", [])]
    S = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    cov = {
        "states": S("paths"), "transitions": S("branches"),
        "traces_validated_against_impl": S("validated"),
        "values_compared_in_validation": S("compared"),
        "obligations": S("obligations"), "discharged": S("discharged") + S("dup"),
        "discharged_by_rewriting": S("trivial"), "same_formula_already_decided": S("dup"),
        "discharged_as_rational_identity": S("identity"),
        "discharged_up_to_rounding_of_constants": S("tolerance"),
        "queries": S("queries"), "solver_seconds": round(S("solver_s"), 2),
        "functions_encoded": funcs,
        "bounds": [{"scenario": r["scenario"], "bound": r.get("bounds", ""), "paths": r.get("paths"),
                    "obligations": r.get("obligations"), "wall_s": round(r.get("wall", 0), 1)} for r in results],
        "samples": [s for r in results for s in r.get("samples", [])][:6],
        "outside": getattr(mod, "OUTSIDE", ""),
        "explanation": "states = symbolic paths explored; transitions = branch decisions with both outcomes "
                       "possible (solver-decided); obligations = assertions (negation handed to the solver per path)",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    seenk = set()
    for v, k in known:
        key = (k["scenario"], k["label"])
        if key not in seenk:
            seenk.add(key)
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for r in results:
        if verbose or r.get("errors") or r.get("inconclusive"):
            print(f"# {r['scenario']}: paths={r.get('paths')} obl={r.get('obligations')} "
                  f"disch={r.get('discharged')} dup={r.get('dup')} triv={r.get('trivial')} tol={r.get('tolerance')} "
                  f"q={r.get('queries')} solver={r.get('solver_s', 0):.1f}s wall={r.get('wall', 0):.1f}s "
                  f"valid={r.get('validated')} unk={r.get('unknown')} viol={len(r.get('violations', []))}")
            if verbose:
                for p in r.get("witness_problems", [])[:3]:
                    print("   witness:", p[:600])
    if viol:
        for v, _ in viol[:5]:
            print(f"# {v['scenario']}: {v['label']}: {v['detail']} ({v['how']})")
        print(f"VIOLATION property={prop} replay={viol[0][0]['replay']}")
        return 1
    if errors or inconc:
        for s, e in errors[:4]:
            print(f"ERROR {s}: {e}")
        for s, e in inconc[:8]:
            print(f"INCONCLUSIVE {s}: {e}")
        if verbose:
            for r in results:
                for l in r.get("logs", [])[:4]:
                    print("log", l)
        return 2
    print(f"OK property={prop} scenarios={len(results)} paths={cov['states']} obligations={cov['obligations']} "
          f"solver={cov['solver_seconds']}s wall={ev['wall_s']}s")
    return 0
