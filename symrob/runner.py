"""Explores the scenarios of one property, confirms counterexamples natively, writes evidence."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback
import warnings
import zlib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Scenario:
    """One harness instance: body(ctx, **params) under stated bounds."""

    def __init__(self, name, body, params=None, allow=(), feas_ms=300, check_ms=3000, max_paths=20000,
                 floor_range=(-2, 12), native_timeout=10, path_timeout=12, exact_const_sqrt=False, tier="quick",
                 setup=None, hang_is_violation=False, bound="", prec=0):
        self.name = name
        self.body = body
        self.params = params or {}
        self.allow = tuple(allow)
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.max_paths = max_paths
        self.floor_range = floor_range
        self.native_timeout = native_timeout
        self.path_timeout = path_timeout
        self.exact_const_sqrt = exact_const_sqrt
        self.tier = tier
        self.hang_is_violation = hang_is_violation
        self.bound = bound
        self.prec = prec  # significant bits of constants (0: exact)


class _Alarm(BaseException):
    pass


FIRED = [False]


def _alarm(sig, frm):
    FIRED[0] = True
    raise _Alarm()


# ------------------------------------------------------------------------------------------ native
def native_run(sc, model, choices):
    """run the body on the real, unpatched code; returns dict"""
    from .ctx import NatCtx, Skip
    import numpy as np

    ctx = NatCtx(model, choices)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sc.native_timeout, 1.0)
    out = {"failed": [], "exc": None, "skip": False, "hang": False}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                sc.body(ctx, **sc.params)
    except Skip:
        out["skip"] = True
    except _Alarm:
        out["hang"] = True
    except sc.allow:
        pass
    except Exception as e:
        out["exc"] = f"{type(e).__name__}: {e}"[:300]
        out["exc_type"] = type(e).__name__
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for f in ctx.cleanup:
            f()
    out["failed"] = list(ctx.failed)
    obs = []
    for n, v in ctx.observed:
        try:
            obs.append((n, [float(x) for x in np.asarray(v, dtype=float).reshape(-1)]))
        except Exception:
            obs.append((n, None))
    out["observed"] = obs
    out["choices"] = ctx.choices
    return out


GENERIC = "generic"  # model entry: inputs without a value get one in general position


def native_worker(scs, inq, outq):
    while True:
        t = inq.get()
        if t is None:
            return
        tag, sidx, model, choices = t
        try:
            r = native_run(scs[sidx], {k: float(Fraction(v)) for k, v in model.items()}, choices)
        except BaseException as e:  # noqa
            r = {"failed": [], "exc": None, "skip": True, "hang": False, "observed": [], "error": repr(e)}
        outq.put((tag, r))


# ------------------------------------------------------------------------------------------ symbolic
class Report:
    def __init__(self, sidx, sc, eng):
        self.sidx = sidx
        self.sc = sc
        self.eng = eng
        self.candidates = []
        self.label_hits = {}
        self.unknowns = {}

    def skip(self, label):
        return self.label_hits.get(label, 0) >= 3

    def violation(self, ctx, cond, label, mdl):
        self.label_hits[label] = self.label_hits.get(label, 0) + 1
        import z3

        models = list(self.eng.last_models) or [mdl]
        try:
            if len(models) > 1 or self.eng.last_models:
                raise z3.Z3Exception("have models")
            eng = self.eng
            eng._last_gids = set()
            z = z3.Not(eng.z_cond(cond))
            for m in eng.robust_model(eng.atoms, [z], eng._last_gids, ms=1500):
                models.append(m)
                if len(models) >= 4:
                    break
        except z3.Z3Exception:
            pass
        self.candidates.append({"sidx": self.sidx, "label": label, "models": [_ser(m) for m in models],
                                "choices": list(ctx.choices), "kind": "check"})

    def unknown(self, ctx, label):
        self.unknowns[label] = self.unknowns.get(label, 0) + 1


def _ser(m):
    from .engine import complete_model

    return {k: str(v) for k, v in complete_model(m).items()}


def explore_chunk(scs, sidx, prefixes, budget, deadline, seed, state):
    """explore from the given prefixes for `budget` seconds; returns result dict"""
    from . import core
    from .ctx import SymCtx
    from .engine import Engine, Stats
    from .core import Infeasible, PathLimit, Unsupported
    import numpy as np
    import z3

    sc = scs[sidx]
    if state.get("sidx") != sidx:
        core.reset_world()
        state.clear()
        state["sidx"] = sidx
        eng = Engine(feas_ms=sc.feas_ms, check_ms=sc.check_ms)
        state["eng"] = eng
        state["hits"] = {}
    eng = state["eng"]
    eng.stats = Stats()
    eng.floor_range = sc.floor_range
    eng.exact_const_sqrt = sc.exact_const_sqrt
    core.set_engine(eng)
    core.PREC = sc.prec
    rep = Report(sidx, sc, eng)
    rep.label_hits = state["hits"]
    stack = list(prefixes)
    res = {"sidx": sidx, "samples": [], "undecided": [], "reached": 0, "aborted": {}, "raised": {}}
    t_end = time.time() + budget
    st = eng.stats
    signal.signal(signal.SIGALRM, _alarm)
    while stack and time.time() < t_end:
        dec, mdl = stack.pop()
        model = {k: Fraction(v) for k, v in mdl.items()} if mdl is not None else ({} if not dec else None)
        core.reset_world()
        eng.start(dec, model)
        ctx = SymCtx(eng, rep)
        status = "ok"
        FIRED[0] = False
        signal.setitimer(signal.ITIMER_REAL, min(sc.path_timeout, max(1.0, deadline - time.time())), 1.0)
        try:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    with np.errstate(all="ignore"):
                        sc.body(ctx, **sc.params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if FIRED[0]:  # swallowed somewhere (a bare except): nothing this path computed counts
                raise PathLimit()
        except Infeasible:
            status = "infeasible"
        except Unsupported as e:
            status = "unsupported"
            k = str(e)[:160]
            st.unsupported[k] = st.unsupported.get(k, 0) + 1
        except (_Alarm, PathLimit, RecursionError):
            status = "limit"
        except sc.allow:
            status = "allowed-exception"
        except z3.Z3Exception as e:
            status = "limit" if FIRED[0] else "unsupported"
            st.unsupported["z3: " + str(e)[:80]] = st.unsupported.get("z3: " + str(e)[:80], 0) + 1
        except Exception as e:
            if FIRED[0]:
                status = "limit"
            else:
                status = "raised"
            k = f"{type(e).__name__}: {e}"[:200]
            if os.environ.get("SYMROB_DEBUG"):
                traceback.print_exc()
            if status == "raised":
                res["raised"][k] = res["raised"].get(k, 0) + 1
            lab = "raises " + type(e).__name__
            if status == "raised" and rep.label_hits.get(lab, 0) < 3:
                rep.label_hits[lab] = rep.label_hits.get(lab, 0) + 1
                models = []
                try:
                    for m in eng.robust_model(eng.atoms, [], set(), ms=1500):
                        models.append(m)
                        if len(models) >= 3:
                            break
                except z3.Z3Exception:
                    pass
                rep.candidates.append({"sidx": sidx, "label": lab, "models": [_ser(m) for m in models],
                                       "choices": list(ctx.choices), "kind": "exception",
                                       "exc": type(e).__name__, "msg": k})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            for f in ctx.cleanup:
                f()
        if status == "limit":
            st.unsupported["path limit"] = st.unsupported.get("path limit", 0) + 1
            lab = "does not terminate"
            if sc.hang_is_violation and rep.label_hits.get(lab, 0) < 2:
                rep.label_hits[lab] = rep.label_hits.get(lab, 0) + 1
                models = []
                for m in eng.robust_model(eng.atoms, [], set(), ms=1500):
                    models.append(m)
                rep.candidates.append({"sidx": sidx, "label": lab, "models": [_ser(m) for m in models],
                                       "choices": list(ctx.choices), "kind": "hang"})
        if status == "infeasible":
            st.infeasible += 1
        else:
            st.paths += 1
        res["reached"] += ctx.reached
        stack.extend((d, None if m is None else {k: str(v) for k, v in m.items()}) for d, m in eng.pending)
        if status in ("ok",) and eng.model is not None and len(res["samples"]) < 2 and ctx.reached:
            obs = []
            ok = True
            for n, v in ctx.observed:
                try:
                    vals = []
                    for x in np.asarray(v, dtype=object).reshape(-1):
                        x = core.Sym.of(x)
                        vals.append(float(eng.eval_sym(x)[0]))
                    obs.append((n, vals))
                except (Exception, core.Unsupported):
                    ok = False
            tie = core.W.order_tie
            for p, m in eng.atoms:
                v = eng.eval_poly(p)[0]
                sc_ = sum(abs(c) * _absprod(eng, mono) for mono, c in p.t.items())
                if m & 2 and abs(v) <= sc_ / 10**9:
                    tie = True
                elif not ((4 if v > 0 else 1 if v < 0 else 2) & m) and abs(v) > sc_ / 10**12:
                    ok = False  # the model relies on a value an axiomatised function does not take
            if ok:
                res["samples"].append({"sidx": sidx, "model": _ser(eng.model), "choices": list(ctx.choices),
                                       "observed": obs, "tie": tie,
                                       "uf": any(g.kind == "uf" for g in core.W.gens)})
        if status in ("limit", "unsupported") and state.setdefault("und", 0) < 3 and not core.W.order_tie:
            signal.setitimer(signal.ITIMER_REAL, 5.0, 1.0)
            try:
                m = _generic_point(eng)
                if m is not None:
                    state["und"] += 1
                    res["undecided"].append({"sidx": sidx, "model": dict({k: str(v) for k, v in m.items()}, **{GENERIC: "1"}), "choices": list(ctx.choices)})
            except (Exception, _Alarm, core.Unsupported, PathLimit, Infeasible, RecursionError):
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    s = eng.stats
    res.update(left=stack, candidates=rep.candidates, unknowns=rep.unknowns,
               stats={k: getattr(s, k) for k in ("queries", "solver_s", "unknown_feas", "unknown_check", "paths",
                                                 "infeasible", "checks", "check_trivial", "check_unsat", "forks",
                                                 "max_query")},
               unsupported=s.unsupported)
    return res


def _generic_point(eng):
    """an input satisfying the conditions of the path so far, off every boundary and at no special position; None if there is none"""
    m0 = eng.model
    if m0 is None:
        for m0 in eng.robust_model(eng.atoms, [], set(), ms=1500):
            break
        else:
            return None
    m0 = {k: v for k, v in m0.items()}
    names = [g.name for g in _inputs()]
    for k in range(4):
        m = {}
        for n in names:
            v = m0.get(n)
            h = zlib.crc32((n + "#").encode())
            d1, d2 = (Fraction(h % 1999 - 999) / 999, Fraction((h >> 11) % 1999 - 999) / 999)
            if v is not None:
                m[n] = v + (v * d1 / 101 + (d2 + Fraction(1, 7919)) / 103) / 10 ** (k + (k > 0))
        eng.model, eng._val = m, {}
        if all((4 if v > 0 else 1 if v < 0 else 2) & a for p, a in eng.atoms for v in (eng.eval_poly(p)[0],)):
            return m
    return None


def _inputs():
    from . import core

    return [g for g in core.W.gens if g.kind == "input"]


def _absprod(eng, mono):
    r = Fraction(1)
    for g in mono:
        r *= abs(eng.gen_val(g)[0])
    return r


def sym_worker(scs, inq, outq, seed):
    import z3

    z3.set_param("smt.random_seed", seed % 1000)
    sys.setrecursionlimit(5000)
    state = {}
    while True:
        t = inq.get()
        if t is None:
            return
        sidx, prefixes, budget, deadline = t
        try:
            outq.put(explore_chunk(scs, sidx, prefixes, budget, deadline, seed, state))
        except BaseException as e:  # noqa
            outq.put({"sidx": sidx, "fatal": traceback.format_exc(), "left": []})
            state.clear()


# ------------------------------------------------------------------------------------------ main
def load_repo():
    sys.path.insert(0, REPO)
    import importlib
    import pkgutil
    import robpy

    errs = []
    for m in pkgutil.walk_packages(robpy.__path__, "robpy."):
        try:
            importlib.import_module(m.name)
        except Exception as e:  # a module that does not import is visible to users
            errs.append(f"{m.name}: {e!r}")
    if os.path.realpath(robpy.__path__[0]) != os.path.realpath(os.path.join(REPO, "robpy")):
        raise RuntimeError(f"robpy imported from {robpy.__path__}")
    return errs


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("property") == pid and k.get("status") == "finding"]


def run_property(pid, tier, seed, mod, nproc=8, total_budget=None, verbose=False, only=None):
    t0 = time.time()
    from . import patch

    scs = [s for s in mod.scenarios(tier)]
    if only:
        scs = [s for s in scs if only in s.name]
    total_budget = total_budget or (getattr(mod, "BUDGET", 60) if tier == "quick"
                                    else getattr(mod, "BUDGET_THOROUGH", 400))
    ctxm = mp.get_context("fork")
    nin, nout = ctxm.SimpleQueue(), ctxm.SimpleQueue()
    nats = [ctxm.Process(target=native_worker, args=(scs, nin, nout), daemon=True) for _ in range(2)]
    for p in nats:
        p.start()
    patch.install()
    sin, sout = ctxm.Queue(), ctxm.Queue()
    nproc = min(nproc, max(1, int(os.environ.get("SYMROB_PROCS", nproc))))
    workers = [ctxm.Process(target=sym_worker, args=(scs, sin, sout, seed), daemon=True) for _ in range(nproc)]
    for p in workers:
        p.start()

    from collections import deque

    todo = deque((i, [([], None)]) for i in range(len(scs)))
    inflight = 0
    per = [dict(paths=0, reached=0, left=0, queries=0, unsupported={}, unknown=0, complete=True, raised={})
           for _ in scs]
    tot = {}
    cands, samples, undecided, unknowns, unsup = [], [], [], {}, {}
    fatal = []
    deadline = t0 + total_budget
    while todo or inflight:
        now = time.time()
        while todo and inflight < nproc + 2 and now < deadline:
            i, pf = todo.popleft()
            # cheap first chunk, then longer ones
            sin.put((i, pf, min(1.0 if len(pf) == 1 else 2.0, max(0.2, deadline - now)), deadline))
            inflight += 1
        if now >= deadline and not inflight:
            break
        try:
            r = sout.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in workers):
                fatal.append("all workers died")
                break
            if time.time() > deadline + 90:
                fatal.append("worker stuck")
                break
            continue
        inflight -= 1
        i = r["sidx"]
        if "fatal" in r:
            fatal.append(r["fatal"])
            continue
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_query" else tot.get(k, 0) + v
        per[i]["paths"] += r["stats"]["paths"]
        per[i]["queries"] += r["stats"]["queries"]
        per[i]["reached"] += r["reached"]
        for k, v in r["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + v
            per[i]["unsupported"][k] = per[i]["unsupported"].get(k, 0) + v
        for k, v in r["raised"].items():
            per[i]["raised"][k] = per[i]["raised"].get(k, 0) + v
        for k, v in r["unknowns"].items():
            kk = f"{scs[i].name}: {k}"
            unknowns[kk] = unknowns.get(kk, 0) + v
            per[i]["unknown"] += v
        cands.extend(r["candidates"])
        if sum(1 for s in samples if s["sidx"] == i) < 4:
            samples.extend(r["samples"])
        if sum(1 for s in undecided if s["sidx"] == i) < 3:
            undecided.extend(r["undecided"])
        left = r["left"]
        if left:
            if per[i]["paths"] >= scs[i].max_paths:
                per[i]["left"] += len(left)
                per[i]["complete"] = False
                continue
            # split for parallelism: deepest part stays together
            k = max(1, len(left) // 4)
            parts = [left[j:j + k] for j in range(0, len(left), k)] if len(left) > 1 else [left]
            for q in parts:
                todo.append((i, q))
        if len([c for c in cands if c["kind"] == "check"]) >= 60:
            break
    for i, pf in todo:
        per[i]["left"] += len(pf)
        per[i]["complete"] = False
    for _ in workers:
        sin.put(None)

    # ---- native confirmation of candidates, and validation of the encoding on sampled paths
    jobs = {}
    tag = 0
    for c in cands:
        for m in c["models"]:
            jobs[tag] = ("cand", c, m)
            nin.put((tag, c["sidx"], m, c["choices"]))
            tag += 1
    samples.sort(key=lambda s: not scs[s["sidx"]].hang_is_violation)
    for s in samples[:60]:
        jobs[tag] = ("sample", s, s["model"])
        nin.put((tag, s["sidx"], s["model"], s["choices"]))
        tag += 1
    # a path the engine could not follow to its end decides nothing; its input is at least run on the real code
    for s in undecided[:40]:
        jobs[tag] = ("undecided", s, s["model"])
        nin.put((tag, s["sidx"], s["model"], s["choices"]))
        tag += 1
    confirmed, validated, mismatches = [], 0, []
    for _ in range(len(jobs)):
        t, r = nout.get()
        kind, o, m = jobs[t]
        if kind == "cand":
            o.setdefault("native", []).append((m, r))
        elif kind == "undecided":
            if r.get("hang") and scs[o["sidx"]].hang_is_violation:
                lab = "does not terminate"
            elif r.get("skip") or r.get("hang") or not (r["failed"] or r.get("exc")):
                continue
            else:
                lab = r["failed"][0] if r["failed"] else "raises " + r["exc_type"]
            confirmed.append({"sidx": o["sidx"], "label": lab, "model": m, "choices": o["choices"],
                              "native": r, "via": "run of an undecided path"})
        else:
            if r.get("hang") and scs[o["sidx"]].hang_is_violation:
                confirmed.append({"sidx": o["sidx"], "label": "does not terminate", "model": m, "choices": o["choices"],
                                  "native": r, "via": "validation run"})
                continue
            if r.get("skip") or r.get("hang"):
                continue
            bad = None
            if r.get("exc"):
                if o["tie"]:
                    continue
                bad = "native raises " + r["exc"]
            elif r["failed"]:
                if o["tie"]:
                    continue
                # a sampled input on which the real code breaks the property
                confirmed.append({"sidx": o["sidx"], "label": r["failed"][0], "model": m, "choices": o["choices"],
                                  "native": r, "via": "validation run"})
                continue
            else:
                bad = _compare_obs(o["observed"], r["observed"])
                if bad and o["tie"]:
                    continue  # exact ties may be broken differently by rounding
            if bad:
                mismatches.append({"scenario": scs[o["sidx"]].name, "what": bad, "model": m})
            else:
                validated += 1
    for _ in nats:
        nin.put(None)
    unreproduced = []
    for c in cands:
        ok = None
        for m, r in c.get("native", []):
            if c["kind"] == "check" and r["failed"]:
                ok = (m, r)
            elif c["kind"] == "exception" and r.get("exc_type") == c["exc"]:
                ok = (m, r)
            elif r["failed"] or (c["kind"] == "check" and r.get("exc")):
                ok = (m, r)
            elif c["kind"] == "hang" and r.get("hang"):
                ok = (m, r)
            if ok:
                break
        if ok:
            lab = c["label"] if (c["kind"] != "check" or c["label"] in ok[1]["failed"]) else (
                ok[1]["failed"][0] if ok[1]["failed"] else "raises " + ok[1].get("exc_type", "?"))
            confirmed.append({"sidx": c["sidx"], "label": lab, "model": ok[0], "choices": c["choices"],
                              "native": ok[1], "via": "solver counterexample"})
        elif c["kind"] == "check":
            unreproduced.append(c)
        else:
            k = f"{c['kind']} not reproduced natively: {c.get('msg', c['label'])}"
            unsup[k] = unsup.get(k, 0) + 1
            per[c["sidx"]]["unsupported"][k] = 1
    for p in workers + nats:
        p.join(timeout=0.5)
        if p.is_alive():
            p.terminate()

    # ---- known findings
    known = load_known(pid)
    new, seen_known = [], {}
    for v in confirmed:
        v["scenario"] = scs[v["sidx"]].name
        hit = next((k for k in known if k["scenario"] in v["scenario"] and k["label"] == v["label"]), None)
        if hit:
            seen_known[hit["id"]] = hit
        else:
            new.append(v)
    vac = [scs[i].name for i in range(len(scs)) if per[i]["reached"] == 0]
    wall = time.time() - t0

    # ---- evidence
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)), "transitions": int(tot.get("forks", 0)),
            "traces_validated_against_impl": validated,
            "samples": [{"scenario": scs[s["sidx"]].name, "path_input": s["model"], "choices": s["choices"],
                         "outputs": [(n, v[:6]) for n, v in s["observed"]]} for s in samples[:4]],
            "explanation": "states = execution paths of the real functions explored symbolically (each stands for all "
                           "real inputs satisfying its path condition); transitions = branch points forked on; "
                           "each assertion on each path is decided by the solver",
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "bounds": getattr(mod, "BOUNDS", ""),
            "stubs": getattr(mod, "STUBS", []),
            "queries": int(tot.get("queries", 0)), "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "max_query_seconds": round(tot.get("max_query", 0.0), 2),
            "assertions": int(tot.get("checks", 0)), "assertions_discharged_unsat": int(tot.get("check_unsat", 0)),
            "assertions_discharged_by_normal_form": int(tot.get("check_trivial", 0)),
            "assertions_unknown": int(tot.get("unknown_check", 0)), "unknown": unknowns,
            "feasibility_unknown": int(tot.get("unknown_feas", 0)),
            "inconclusive_paths": unsup,
            "scenarios": [{"name": scs[i].name, "bound": scs[i].bound, "paths": per[i]["paths"],
                           "assertions_reached": per[i]["reached"], "complete": per[i]["complete"],
                           "unexplored_prefixes": per[i]["left"], "unknown": per[i]["unknown"],
                           "raised": per[i]["raised"]} for i in range(len(scs))],
            "vacuous_scenarios": vac,
            "encoding_mismatches": mismatches[:5],
            "unreproduced_counterexamples": [{"scenario": scs[c["sidx"]].name, "label": c["label"],
                                              "models": c["models"][:2]} for c in unreproduced[:5]],
            "known_findings_reproduced": sorted(seen_known),
            "exhaustive": all(p["complete"] for p in per) and not unknowns and not unsup,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "floating point arithmetic is treated as exact real arithmetic; equalities are checked up to 1e-6",
        ],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, default=str)

    # ---- verdict
    # a counterexample the real code does not reproduce decides nothing: it is reported as inconclusive (evidence and
    # output), never as a violation; during development (-v) it is an error
    strict = verbose
    for k in known:
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif verbose:
            print(f"# known finding {k['id']} not reproduced on this run")
    print(f"{pid} [{tier}] {tot.get('paths', 0)} paths, {tot.get('checks', 0)} assertions "
          f"({tot.get('check_unsat', 0)} unsat, {tot.get('check_trivial', 0)} by normal form, "
          f"{tot.get('unknown_check', 0)} unknown), {tot.get('queries', 0)} queries {tot.get('solver_s', 0):.1f}s solver, "
          f"{validated} paths replayed natively, {wall:.1f}s")
    if verbose:
        for i, s in enumerate(scs):
            print("   ", s.name, {k: v for k, v in per[i].items() if v not in ({}, 0)})
        for k, v in list(unsup.items())[:10]:
            print("    inconclusive:", k, v)
        for k, v in list(unknowns.items())[:10]:
            print("    unknown:", k, v)
    if new:
        seen = set()
        for n, v in enumerate(new):
            if (v["scenario"], v["label"]) in seen:
                continue
            seen.add((v["scenario"], v["label"]))
            path = os.path.join(VERIF, "evidence", f"{pid}-replay-{len(seen)}.json")
            json.dump({"property": pid, "tier": tier, "scenario": v["scenario"], "label": v["label"],
                       "model": v["model"], "choices": v["choices"], "native": v["native"], "via": v["via"]},
                      open(path, "w"), indent=1, default=str)
            print(f"  {v['scenario']}: {v['label']}  input={_short(v['model'])} "
                  f"{('exc=' + str(v['native'].get('exc'))) if v['native'].get('exc') else ''}")
            print(f"VIOLATION property={pid} replay={path}")
            if len(seen) >= 5:
                break
        return 1
    if fatal:
        print("ERROR internal failure:\n" + "\n".join(fatal[:2]))
        return 2
    if unreproduced:
        for c in unreproduced[:4]:
            print(f"INCONCLUSIVE counterexample did not reproduce natively: {scs[c['sidx']].name}: {c['label']} "
                  f"{_short(c['models'][0])}")
        if strict:
            return 2
    if mismatches:
        for mm in mismatches[:4]:
            print(f"INCONCLUSIVE encoding mismatch: {mm}"[:600])
        if strict:
            return 2
    if vac and len(vac) == len(scs):
        print(f"ERROR nothing explored: no scenario reached an assertion; {list(unsup.items())[:4]}")
        return 2
    return 0


def _short(m):
    return {k: (v if len(v) < 14 else f"{float(Fraction(v)):.6g}") for k, v in list(m.items())[:12]}


def _compare_obs(a, b):
    if len(a) != len(b):
        return f"observed {len(a)} vs {len(b)} outputs"
    for (n, x), (n2, y) in zip(a, b):
        if y is None:
            continue
        if n != n2 or len(x) != len(y):
            return f"output {n}: shape {len(x)} vs {len(y)}"
        for u, v in zip(x, y):
            if u != u and v != v:
                continue
            if u in (float("inf"), float("-inf")) or v in (float("inf"), float("-inf")):
                if u == v:
                    continue
                return f"output {n}: encoding {u} native {v}"
            if not abs(u - v) <= 1e-5 * (1 + abs(u) + abs(v)):
                return f"output {n}: encoding {u} native {v}"
    return None


def replay_file(path):
    d = json.load(open(path))
    sys.path.insert(0, VERIF)
    load_repo()
    mod = importlib.import_module(f"harness.{d['property'].lower()}")
    sc = next(s for s in mod.scenarios(d["tier"]) if s.name == d["scenario"])
    r = native_run(sc, {k: float(Fraction(v)) for k, v in d["model"].items()}, d["choices"])
    print(json.dumps({k: r[k] for k in ("failed", "exc", "hang", "skip")}, indent=1))
    if r.get("tb"):
        print(r["tb"])
    return 1 if r["failed"] or r["exc"] or r["hang"] else 0
