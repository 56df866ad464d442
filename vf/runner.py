"""Decides one property: symbolic phase (all inputs), concrete phase (replay
of counter-models + seeded evaluation of the same contracts on real torch)."""
import argparse
import contextlib
import hashlib
import importlib
import itertools
import io
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = []
TIER = ["quick"]


class Contract:
    def __init__(self, fn, prop, name, under, opts):
        self.fn, self.prop, self.name, self.under, self.opts = fn, prop, name, under, opts


def contract(prop, name, under=(), **opts):
    """under: repository functions this contract specifies.
    opts: bounded=True (concrete only), bound="...", quick=N, thorough=N (samples),
    timeout_ms, max_paths, assumptions=[...]"""

    def deco(fn):
        for p in prop if isinstance(prop, (list, tuple)) else [prop]:
            split = opts.get("split", [])
            for pins in itertools.product(*[range(n) for _, n in split]):
                fixed = {k: i for (k, _), i in zip(split, pins)}
                tag = " [" + ",".join(f"{k}={i}" for k, i in fixed.items()) + "]" if fixed else ""
                REGISTRY.append(Contract(fn, p, name + tag, list(under), dict(opts, fixed=fixed)))
        return fn

    return deco


MODULES = {}


def load(prop):
    d = os.path.join(ROOT, "vf", "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            src = open(os.path.join(d, f)).read()
            if prop is None or f'"{prop}"' in src:
                importlib.import_module("vf.contracts." + f[:-3])
    return [c for c in REGISTRY if prop is None or c.prop == prop]


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def alarm(sec):
    def h(*a):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, h)
    t0 = time.time()
    outer = signal.setitimer(signal.ITIMER_REAL, sec)[0]
    try:
        yield
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, outer - (time.time() - t0)) if outer else 0)


class Report:
    """collects obligations of one contract's symbolic phase"""

    def __init__(self, eng, deadline):
        self.eng = eng
        self.deadline = deadline
        self.obs = {}  # name -> dict(count, proved, failed:[...])
        self.total = 0
        self.discharged = 0
        self.backends = {}
        self.failed = []  # (name, status, note, ctx snapshot)
        self.failed_names = {}
        self.path_sat = 0
        self.retried = {}
        self.t0 = time.time()

    def confirm(self, models, choices):
        """replay counter-models on the real code -> (source, fails) or None"""
        from . import ctx

        for m in models:
            for attempt in range(2):
                src = ctx.Source(self.seed * 7919 + attempt)
                try:
                    with alarm(30):
                        st, fails, c = one_concrete(self.con, src, m, choices)
                except Timeout:
                    continue
                except Exception:
                    if os.environ.get("VF_TB"):
                        traceback.print_exc()
                    continue
                if st == "fail":
                    return src, fails
        return None

    def obligation(self, ctx, name, goal, skolem=(), note="", hyp=True):
        from . import smt

        self.total += 1
        o = self.obs.setdefault(name, {"n": 0, "proved": 0})
        o["n"] += 1
        if self.failed_names.get(name, 0) >= 2:
            # already failed twice: do not spend solver time again
            self.failed_names[name] += 1
            return
        st, model, be = self.eng.prove(goal, skolem)
        if st == "proved":
            o["proved"] += 1
            self.discharged += 1
            self.backends[be] = self.backends.get(be, 0) + 1
            return
        small = self.small_model(ctx, goal, skolem)
        models = [m for m in (small, model) if m is not None]
        hit = self.confirm(models, list(ctx.choices))
        if hit is None and not self.retried.get(name) and time.time() - self.t0 < 200:
            # not refuted on the real code: give the solver more time before giving up
            self.retried[name] = 1
            self.eng.scale = 6
            try:
                st2, model2, be2 = self.eng.prove(goal, skolem, timeout=6 * self.eng.timeout_ms)
            finally:
                self.eng.scale = 1
            if st2 == "proved":
                o["proved"] += 1
                self.discharged += 1
                self.backends[be2] = self.backends.get(be2, 0) + 1
                return
        self.failed_names[name] = self.failed_names.get(name, 0) + 1
        self.failed.append(
            {
                "name": name,
                "status": st,
                "note": note,
                "choices": list(ctx.choices),
                "hit": hit,
                "solver": str(model)[:4000] if model is not None else "unknown",
                "path": [str(p)[:200] for p in self.eng.pc][:40],
            }
        )

    def small_model(self, ctx, goal, skolem):
        from . import smt
        from .smt import z3, _t

        try:
            g = smt.tobool(goal)
            neg = [z3.Not(g.t)] if not smt.is_num(g) else []
            for bound in (2, 3, 5):
                extra = list(neg)
                for kind, nm in ctx.decl:
                    if kind == "dim":
                        extra.append(z3.Int(nm) <= bound)
                    if kind == "real":
                        extra.append(z3.And(z3.Real(nm) <= 50, z3.Real(nm) >= -50))
                r, m = self.eng._check(extra, rounds=4, timeout=4000, want_model=True, goal_skolem=skolem)
                if m is not None:
                    return m
        except Exception:
            pass
        return None


def run_symbolic(con, tier, seed=1):
    from . import engine, ctx
    from .smt import Unsupported

    eng = engine.Engine(timeout_ms=con.opts.get("timeout_ms", 10000 if tier == "quick" else 60000))
    rep = Report(eng, None)
    rep.con, rep.seed = con, seed
    paths = 0
    res = {"unsupported": None}
    t0 = time.time()

    def body():
        c = ctx.Sym(eng, rep)
        c.fixed = con.opts.get("fixed", {})
        c.thorough = tier == "thorough"
        con.fn(c)
        c.finish()
        # vacuity guard: the path's own assumptions must be satisfiable
        from .smt import z3

        if rep.path_sat < 3 or len(eng.pc) == 0:
            r = eng._check([], rounds=3, timeout=5000)
            if r != z3.unsat:
                rep.path_sat += 1
        return None

    try:
        budget = con.opts.get("sym_budget", 240 if tier == "quick" else 1500)
        eng.deadline = time.time() + budget
        with alarm(budget + 60):
            for st, _ in eng.explore(body, max_paths=con.opts.get("max_paths", 600)):
                paths += 1
    except Unsupported as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if "/reagent/" in f.filename]
        w = f" at {os.path.basename(where[-1].filename)}:{where[-1].lineno}" if where else ""
        res["unsupported"] = f"{ex}{w}"
        if os.environ.get("VF_TB"):
            traceback.print_exc()
    except Timeout:
        res["unsupported"] = "symbolic phase ran out of time"
    except (RecursionError, __import__("ctypes").ArgumentError):
        res["unsupported"] = "recursion"
    res.update(
        paths=paths,
        total=rep.total,
        discharged=rep.discharged,
        obs=rep.obs,
        backends=rep.backends,
        solver_s=round(eng.solver_time, 2),
        queries=eng.queries,
        sat_paths=rep.path_sat,
        wall=round(time.time() - t0, 2),
    )
    return res, rep


def one_concrete(con, src, model=None, choices=None):
    """-> (status, fails) status in ok/skip/fail/error"""
    from . import ctx
    import torch, numpy as np

    c = ctx.Conc(src, model, list(con.opts.get("fixed", {}).items()) + list(choices or []))
    c.thorough = TIER[0] == "thorough"
    s = src.get("torch_seed", lambda r: r.randrange(1 << 30))
    torch.manual_seed(s)
    np.random.seed(s % (1 << 31))
    random.seed(s)
    try:
        con.fn(c)
        c.finish()
    except ctx.Skip:
        return "skip", [], c
    except ctx.Violation:
        pass
    if c.fails:
        return "fail", c.fails, c
    return ("ok" if c.nobl else "empty"), [], c


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def run_contract(con, tier, seed, known):
    """-> plain dict"""
    from . import ctx

    out = {"name": con.name, "under": con.under, "bounded": bool(con.opts.get("bounded"))}
    t0 = time.time()
    viol = []
    knownhits = []

    def is_known(fails):
        rest = []
        for f in fails:
            k = next(
                (
                    k
                    for k in known
                    if k.get("property") == con.prop
                    and k.get("contract") == con.name
                    and k.get("obligation") == f[0]
                ),
                None,
            )
            if k is not None:
                if k["what"] not in knownhits:
                    knownhits.append(k["what"])
            else:
                rest.append(f)
        return rest

    # seeded evaluation of the same contract on the real code
    n = con.opts.get(tier, con.opts.get("quick", 120) if tier == "quick" else max(1000, 10 * con.opts.get("quick", 120)))
    if os.environ.get("VF_N"):
        n = int(os.environ["VF_N"])
    done = tries = 0
    samples = []
    distinct = set()
    budget = con.opts.get("budget", 15 if tier == "quick" else 120)
    t1 = time.time()
    err = None
    while done < n and tries < n * 30 and time.time() - t1 < budget:
        src = ctx.Source(seed * 1000003 + tries * 7 + 1)
        tries += 1
        try:
            with alarm(60):
                st, fails, c = one_concrete(con, src)
        except Timeout:
            continue
        except Exception as ex:
            if os.environ.get("VF_TB"):
                traceback.print_exc()
            err = f"{type(ex).__name__}: {ex} " + " <- ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(ex.__traceback__)[-3:]
            )
            # the contract itself could not be evaluated: the code no longer has the
            # shape the contract is written against
            st, fails = "error", [("contract is evaluable", err)]
            viol.append({"obligation": "contract is evaluable", "detail": err, "input": jsonable(src.rec), "confirmed": True})
            break
        if st == "skip":
            continue
        done += 1
        key = hashlib.md5(json.dumps(jsonable(src.rec), sort_keys=True).encode()).hexdigest()
        distinct.add(key)
        if len(samples) < 2:
            samples.append(json.dumps(jsonable(src.rec))[:600])
        if st == "fail":
            fails = is_known(fails)
            if fails:
                viol.append(
                    {"obligation": fails[0][0], "detail": fails[0][1], "input": jsonable(src.rec), "confirmed": True}
                )
                break
    if viol and not con.opts.get("bounded"):
        out["undecided"] = "a concrete evaluation already refutes this contract; no proof attempted"
    elif not con.opts.get("bounded"):
        res, rep = run_symbolic(con, tier, seed)
        out["sym"] = res
        if res["unsupported"]:
            out["undecided"] = res["unsupported"]
        for f in rep.failed:
            hit = f["hit"]
            if hit:
                src, fails = hit
                fails = is_known(fails)
                if fails:
                    viol.append(
                        {"obligation": fails[0][0], "detail": fails[0][1], "input": jsonable(src.rec),
                         "failed_obligation": f["name"], "solver": f["solver"], "confirmed": True}
                    )
            else:
                if is_known([(f["name"], "")]):
                    viol.append(
                        {"obligation": f["name"], "detail": f["note"] or f["status"], "input": None,
                         "solver": f["solver"], "path": f["path"], "choices": f["choices"],
                         "confirmed": False}
                    )
    out.update(
        evals=done, tries=tries, distinct=len(distinct), samples=samples, viol=viol, known=knownhits,
        wall=round(time.time() - t0, 2), assumptions=con.opts.get("assumptions", []),
        bound=con.opts.get("bound"),
    )
    return out


def _worker(args):
    con_i, tier, seed, known = args
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    con = ACTIVE[con_i]
    sys.setrecursionlimit(20000)
    try:
        return run_contract(con, tier, seed, known)
    except BaseException as ex:
        return {
            "name": con.name, "under": con.under, "crash": f"{type(ex).__name__}: {ex}\n{traceback.format_exc()}",
            "viol": [], "known": [], "evals": 0, "distinct": 0, "samples": [], "wall": 0, "assumptions": [],
            "tries": 0, "bound": None, "bounded": False,
        }


ACTIVE = []


def blank(con, why):
    return {
        "name": con.name, "under": con.under, "crash": why, "viol": [], "known": [], "evals": 0,
        "distinct": 0, "samples": [], "wall": 0, "assumptions": [], "tries": 0, "bound": None, "bounded": False,
    }


def pool_map(jobs, nproc):
    """run jobs in forked children; a child that dies counts as undecided"""
    ctxm = mp.get_context("fork")
    pend = list(range(len(jobs)))
    running = {}
    results = [None] * len(jobs)
    tries = [0] * len(jobs)
    start = time.time()
    stop = None

    def child(i, conn):
        r = _worker(jobs[i])
        conn.send(json.dumps(r))
        conn.close()

    while pend or running:
        quick = jobs[0][1] == "quick"
        if stop is None and any(r and any(v["confirmed"] for v in r["viol"]) for r in results):
            stop = time.time() + 30  # the property is refuted: do not spend minutes on the rest
        if (stop is not None and time.time() > stop) or (quick and time.time() - start > 780):
            for i, (p, a, t) in list(running.items()):
                p.kill()
                p.join()
            for i in [*pend, *running]:
                results[i] = blank(ACTIVE[i], "stopped: the property was already refuted" if stop else "stopped: out of time")
            break
        while pend and len(running) < nproc:
            i = pend.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(i, b), daemon=True)
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        time.sleep(0.02)
        for i, (p, a, t) in list(running.items()):
            if a.poll():
                try:
                    results[i] = json.loads(a.recv())
                except EOFError:
                    pass
                p.join()
                del running[i]
            elif not p.is_alive():
                p.join()
                del running[i]
                if not a.poll() and tries[i] < 2:  # solver crash: run it again
                    tries[i] += 1
                    pend.insert(0, i)
            elif time.time() - t > 700 and os.environ.get("VERIF_TIER", "quick") == "quick":
                p.kill()
                p.join()
                del running[i]
    for i, r in enumerate(results):
        if r is None:
            results[i] = blank(ACTIVE[i], "worker died")
    return results


TRUSTED = [
    "vf engine: path exploration of the real CPython bytecode on symbolic tensors, fold lemmas (sum/product extensionality, arg-max first-ness, order-preserving mask enumeration)",
    "z3 5.3.2 / cvc5 as decision procedures",
    "models of torch/numpy operations in vf/ops.py (compared with real torch by vf/selftest.py and by the concrete evaluations of every run)",
    "floating point treated as real arithmetic, integers unbounded",
    "CPython, torch.nn.Module and pytorch-lightning plumbing outside reagent/",
]


def main(argv=None):
    if "--selftest" in (argv or sys.argv):
        from . import selftest

        try:
            return selftest.main()
        except Exception:
            traceback.print_exc()
            return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    TIER[0] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    import_error = None
    try:
        import reagent_compat  # noqa: F401

        cons = load(a.prop)
    except Exception as ex:
        import_error = f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}"
        cons = []
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if a.replay:
        return replay(a, cons)
    if import_error or not cons:
        p = os.path.join(rdir, f"{a.prop}-import.json")
        json.dump({"property": a.prop, "obligation": "modules under contract can be loaded", "detail": import_error}, open(p, "w"))
        print(import_error)
        print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if a.only:
        cons = [c for c in cons if a.only in c.name]
    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k.get("status") == "known"]
    ACTIVE[:] = cons
    # longest first
    jobs = [(i, tier, seed, known) for i in range(len(cons))]
    results = pool_map(jobs, int(os.environ.get("VF_PROCS", "8")))
    rc = 0
    nviol = 0
    und = []
    for r in results:
        s = r.get("sym")
        msg = f"  {r['name']}: "
        if s:
            msg += f"{s['discharged']}/{s['total']} obligations on {s['paths']} paths ({s['wall']}s, solver {s['solver_s']}s); "
            if s["unsupported"]:
                msg += f"UNDECIDED ({s['unsupported']}); "
        if r.get("bounded"):
            msg += "bounded; "
        msg += f"{r['evals']} concrete evaluations ({r['distinct']} distinct); {r['wall']}s"
        print(msg)
        if a.v and s:
            for k, o in s["obs"].items():
                print(f"      [{o['proved']}/{o['n']}] {k}")
        if r.get("crash"):
            print("  CRASH " + r["crash"])
            und.append(r["name"] + ": " + r["crash"][:300])
        if r.get("undecided"):
            und.append(r["name"] + ": " + r["undecided"])
        for k in r["known"]:
            print(f"KNOWN-FINDING: property={a.prop} {k}")
        # confirmed first
        vs = sorted(r["viol"], key=lambda v: not v["confirmed"])
        if vs:
            rc = 1
            nviol += len(vs)
            v = vs[0]
            h = hashlib.md5(json.dumps([r["name"], v["obligation"], str(v.get("input"))]).encode()).hexdigest()[:10]
            p = os.path.join(rdir, f"{a.prop}-{h}.json")
            v2 = dict(v, property=a.prop, contract=r["name"])
            json.dump(v2, open(p, "w"), indent=1)
            print(f"    failed obligation: {v['obligation']}: {v['detail']}")
            print(f"VIOLATION property={a.prop} replay={p}" + ("" if v["confirmed"] else " no-failing-input-found"))
    # a check that decided nothing is an error of the machinery, not a pass
    if rc == 0:
        for r in results:
            dec = r.get("sym") and r["sym"]["total"] > 0 and not r["sym"]["unsupported"]
            if not dec and r["evals"] == 0 and not (r.get("crash") or "").startswith("stopped"):
                print(f"  {r['name']}: nothing decided and nothing evaluated")
                p = os.path.join(rdir, f"{a.prop}-vacuous.json")
                json.dump({"property": a.prop, "contract": r["name"], "obligation": "contract evaluated", "detail": r.get("crash") or r.get("undecided")}, open(p, "w"))
                print(f"VIOLATION property={a.prop} replay={p} no-failing-input-found")
                rc = 1
                break
            if dec and r["sym"]["sat_paths"] == 0:
                print(f"  {r['name']}: precondition unreachable (vacuous)")
                p = os.path.join(rdir, f"{a.prop}-vacuous.json")
                json.dump({"property": a.prop, "contract": r["name"], "obligation": "precondition satisfiable"}, open(p, "w"))
                print(f"VIOLATION property={a.prop} replay={p} no-failing-input-found")
                rc = 1
                break
    if not a.only and not a.no_evidence:
        evidence(a, tier, seed, results, und, nviol, time.time() - t0)
    print(f"{a.prop}: {'held' if rc == 0 else 'VIOLATED'} in {time.time()-t0:.1f}s")
    return rc


def evidence(a, tier, seed, results, und, nviol, wall):
    syms = [r["sym"] for r in results if r.get("sym")]
    level = manifest_level(a.prop)
    be = {}
    for s in syms:
        for k, v in s["backends"].items():
            be[k] = be.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["under"]})
    cov = {
        "obligations": sum(s["total"] for s in syms),
        "discharged": sum(s["discharged"] for s in syms),
        "checker_cmd": f"./check {a.prop} --tier {tier}",
        "trusted_base": TRUSTED,
        "discharged_by": be,
        "solver_s": round(sum(s["solver_s"] for s in syms), 2),
        "paths": sum(s["paths"] for s in syms),
        "functions_under_contract": funcs,
        "contracts": {
            r["name"]: {
                "decided": "bounded" if r.get("bounded") else ("undecided, bounded stand-in: " + r["undecided"] if r.get("undecided") else "proved" if r.get("sym") and r["sym"]["total"] == r["sym"]["discharged"] else "not proved"),
                "obligations": {k: f"{o['proved']}/{o['n']}" for k, o in (r["sym"]["obs"] if r.get("sym") else {}).items()},
                "concrete_evaluations": r["evals"],
                **({"bound": r["bound"]} if r.get("bound") else {}),
            }
            for r in results
        },
        "evaluations": sum(r["evals"] for r in results),
        "distinct_nontrivial": sum(r["distinct"] for r in results),
        "rule": "seeded draws of every contract input (sizes, values, configuration choices) that satisfy the contract's precondition; a case counts when it reaches at least one obligation",
        "samples": [s for r in results for s in r["samples"]][:6] or ["none"],
        "undecided": und,
    }
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": sorted({x for r in results for x in r["assumptions"]}) + TRUSTED[1:],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        return next(c["level"] for c in m["checks"] if c["property"] == prop)
    except Exception:
        return "proof"


def replay(a, cons):
    from . import ctx

    d = json.load(open(a.replay))
    print(json.dumps({k: v for k, v in d.items() if k not in ("input",)}, indent=1)[:3000])
    con = next((c for c in cons if c.name == d.get("contract")), None)
    if con is None or not d.get("input"):
        print("no concrete input in this replay file: it records the failed obligation and the solver's output")
        return 1
    st, fails, _ = one_concrete(con, ctx.Source(1, d["input"]))
    print("replayed on the real code:", st, fails)
    if st == "fail":
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
