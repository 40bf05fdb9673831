"""Runs the contracts of one property: prove symbolically, replay, cross-check, report."""
import functools
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def repo_dir():
    return os.environ.get("VERIF_REPO", "/repo")


def setup_paths():
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    r = repo_dir()
    if r in sys.path:
        sys.path.remove(r)
    sys.path.insert(0, r)
    import warnings

    warnings.simplefilter("ignore")


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def _address_space():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def fresh_package():
    """forget the package, so that the next import re-executes its current source"""
    for k in [k for k in sys.modules if k == "fv3gfs" or k.startswith("fv3gfs.")]:
        del sys.modules[k]


def contract(ref):
    mod, fn = ref.split(":")
    return getattr(importlib.import_module("contracts." + mod), fn)


def _fill_empty():
    """uninitialised memory holds anything: here always a pattern of bits that shows (nan in
    floats, a large number in integers), so that runs do not depend on what memory held"""
    import numpy

    real = {name: getattr(numpy, name) for name in ("empty", "empty_like")}

    def filled(make):
        def f(*args, **kwargs):
            a = make(*args, **kwargs)
            if type(a) is numpy.ndarray and not a.dtype.hasobject and 0 < a.nbytes <= 1 << 23:
                if a.dtype.kind in "fc":
                    a.fill(numpy.nan)
                elif a.dtype.kind in "iu":
                    a.fill(0x5A)
            return a

        return functools.wraps(make)(f)

    for name, make in real.items():
        setattr(numpy, name, filled(make))

    def restore():
        for name, make in real.items():
            setattr(numpy, name, make)

    return restore


def run_concrete(ref, config, values=None, rng=None, span=6, stretch=None):
    """-> ('ok'|'reject'|'fail', message, log)"""
    large = span >= 200 or stretch is not None
    out = None
    # a run that takes long may only be short of CPU time: it is repeated with more time, and
    # a run on large sizes says nothing by taking long
    for limit_s in [10] if large else [20, 100]:
        state = rng.getstate() if rng is not None else None
        out = _run_concrete(ref, config, values, rng, span, limit_s, (1 << 30) if large else None, stretch)
        if out[0] != "timeout":
            return out
        if state is not None:
            rng.setstate(state)
    if large:
        return "reject", None, out[2]
    return ("fail",) + out[1:]


def _run_concrete(ref, config, values, rng, span, limit_s, memory, stretch=None):
    from .api import ConcVC, PropertyFailure, Reject

    fresh_package()
    vc = ConcVC(values=values, rng=rng, span=span, stretch=stretch)
    restore_empty = _fill_empty()
    old = signal.signal(signal.SIGALRM, _alarm)
    prev = signal.alarm(limit_s)
    t0 = time.time()
    if memory is not None:
        limits = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (_address_space() + memory, limits[1]))
    try:
        contract(ref)(vc, **config)
        return ("ok" if vc.nproved else "reject"), vc.nproved, vc.log
    except Reject:
        return "reject", None, vc.log
    except PropertyFailure as err:
        return "fail", str(err), vc.log
    except Timeout:
        return "timeout", "no result after %d s on a small input" % limit_s, vc.log
    except MemoryError:
        return "reject", None, vc.log
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        # an exception whose origin is the contract text itself is a contract bug,
        # unless the real code produced it
        where = " <- ".join(
            "%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:][::-1]
        )
        return "fail", "unexpected %s: %s (%s)" % (type(err).__name__, err, where), vc.log
    finally:
        if memory is not None:
            resource.setrlimit(resource.RLIMIT_AS, limits)
        vc.unstub()
        restore_empty()
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if prev:
            signal.alarm(max(1, int(prev - (time.time() - t0))))


def run_unit(job):
    """executed in a worker process"""
    setup_paths()
    ref, config, opts = job
    res = dict(ref=ref, config=config, issues=[], cross=0, bounded=0, bounded_ok=0, status=None)
    t0 = time.time()
    try:
        _run_unit(ref, config, opts, res)
    except BaseException as err:  # engine crash: undecided, never a verdict
        if isinstance(err, KeyboardInterrupt):
            raise
        res["issues"].append(
            dict(kind="undecided", why="engine: %s: %s" % (type(err).__name__, err),
                 detail=traceback.format_exc()[-800:])
        )
        res["status"] = "undecided"
        try:
            _bounded(ref, config, opts, res)
        except Exception as err2:
            res["issues"].append(dict(kind="undecided", why="bounded stand-in: %s" % err2))
    res["wall"] = time.time() - t0
    return res


def _run_unit(ref, config, opts, res):
    from . import sym
    from .api import SymVC

    fn = contract(ref)
    mode = getattr(fn, "mode", "proof")
    res["mode"] = mode
    rng = random.Random("%s|%s|%s" % (opts["seed"], ref, sorted(map(str, config.items()))))
    if mode == "bounded":
        res["status"] = "bounded"
        _bounded(ref, config, opts, res, n=getattr(fn, "runs", None) or opts["bounded_n"])
        return
    left = opts["deadline"] - time.time()
    if left < 5:
        res["issues"].append(dict(kind="undecided", why="time budget of the check used up"))
        res["status"] = "undecided"
        _bounded(ref, config, opts, res, n=max(10, opts["bounded_n"] // 10))
        return
    opts = dict(opts, unit_s=min(opts["unit_s"], left))
    make = lambda: sym.Explorer(
        feas_timeout_ms=opts["feas_ms"],
        prove_timeout_ms=opts["prove_ms"],
        max_paths=opts["max_paths"],
        cross_cvc5=opts["cross_cvc5"],
        deadline=time.time() + opts["unit_s"],
    )
    ex = make()
    models = []
    funcs = {}
    first = [True]

    def body(path):
        vc = SymVC(path, fixed=config)
        if len(funcs) == 0 or ex.stats.paths <= 3:
            import sys as _s

            from . import loader

            pkg = os.path.join(repo_dir(), "fv3gfs") + os.sep

            def prof(frame, event, arg):
                if (event == "call" and frame.f_code.co_filename.startswith(pkg)
                        and frame.f_code.co_flags & 1 and not loader.LOADING):
                    # (not class bodies, and not what an import runs)
                    n = frame.f_code.co_name
                    if not n.startswith("<"):
                        q = os.path.relpath(frame.f_code.co_filename, repo_dir())
                        funcs["%s:%s" % (q, frame.f_code.co_qualname)] = 1

            _s.setprofile(prof)
            try:
                fn(vc, **config)
            finally:
                _s.setprofile(None)
        else:
            fn(vc, **config)

    def done(path):
        if len(models) < opts["cross_n"]:
            m = path.path_model()
            if m is not None:
                models.append(m)

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(opts["unit_s"]) + 60)
    try:
        issues = ex.run(body, done)
        for _ in range(6):
            if not ex.diverged:
                break
            ex = make()
            del models[:]
            issues = ex.run(body, done)
    except Timeout:
        issues = [dict(kind="undecided", why="unit time limit")]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    st = ex.stats
    res.update(
        paths=st.paths, pruned=st.pruned, obligations=st.obligations, by=st.by,
        solver_s=st.solver_s, checks=st.checks, labels=ex.labels,
        functions=sorted(funcs), cvc5=ex.cross, unknown_feas=st.unknown_feas,
    )
    for i in issues:
        if i["kind"] == "failed":
            i["replay"] = None
            if i.get("model") is not None:
                s, msg, log = run_concrete(ref, config, values=i["model"], rng=random.Random(1))
                i["replay_status"] = s
                if s == "fail":
                    i["replay"] = dict(values=log, message=msg)
    res["issues"] = issues
    # CPython cross-check: a model of each explored path, on the unmodified code
    for m in models:
        s, msg, log = run_concrete(ref, config, values=m, rng=random.Random(2))
        if s == "ok":
            res["cross"] += 1
        elif s == "fail":
            res["issues"].append(
                dict(kind="failed", why="cross-check on the real code: %s" % msg, label=str(msg),
                     status="concrete", model=m, replay=dict(values=log, message=msg))
            )
            break
    if st.obligations == 0 and not res["issues"]:
        res["issues"].append(dict(kind="undecided", why="no obligations were generated"))
    if st.obligations and not models and not res["issues"] and opts["cross_n"]:
        res["issues"].append(dict(kind="undecided", why="no reachable path (vacuous contract)"))
    if any(i["kind"] == "failed" and i.get("replay") for i in res["issues"]):
        res["status"] = "violated"
    elif res["issues"]:
        res["status"] = "undecided"
        _bounded(ref, config, opts, res)
    else:
        res["status"] = "proved"
        if opts["spot_n"]:
            _bounded(ref, config, opts, res, n=opts["spot_n"])


def _bounded(ref, config, opts, res, n=None):
    """labelled bounded stand-in: seeded random inputs on the real code"""
    fn = contract(ref)
    # when standing in for a proof, some runs have one long extent (or halo, or layout ...)
    stretched = n is None
    n = n or opts["bounded_n"]
    rng = random.Random("%s|b|%s|%s" % (opts["seed"], ref, sorted(map(str, config.items()))))
    end = time.time() + opts["bounded_s"]
    special = list(getattr(fn, "samples", []))
    # contracts without arrays are also run on sizes near the limits of machine integers
    spans = [2, 3, 5, 9] + ([200, 1 << 17, 1 << 33] if opts.get("large") else [])
    rejected = 0
    for k in range(n + len(special)):
        if time.time() > end:
            break
        vals = special[k] if k < len(special) else None
        s, msg, log = run_concrete(
            ref, config, values=vals, rng=random.Random(rng.random()), span=rng.choice(spans),
            stretch=rng.randrange(10) if stretched and vals is None and k % 5 == 4 else None,
        )
        if s == "ok":
            res["bounded"] += 1
            res.setdefault("sample", log)
            res.setdefault("distinct", set()).add(json.dumps(log, sort_keys=True, default=str))
        elif s == "fail":
            res["bounded"] += 1
            res["status"] = "violated"
            res["issues"].append(
                dict(kind="failed", why="bounded run on the real code: %s" % msg, label=str(msg),
                     status="concrete", model=log, replay=dict(values=log, message=msg))
            )
            break
        else:
            rejected += 1
    if "distinct" in res:
        res["distinct"] = len(res["distinct"])


# ------------------------------------------------------------------------------ check

TIERS = {
    "quick": dict(
        feas_ms=2000, prove_ms=6000, max_paths=6000, cross_cvc5=False, unit_s=240,
        cross_n=6, spot_n=4, bounded_n=150, bounded_s=20, budget_s=420,
    ),
    "thorough": dict(
        feas_ms=5000, prove_ms=30000, max_paths=60000, cross_cvc5=True, unit_s=3000,
        cross_n=60, spot_n=60, bounded_n=2000, bounded_s=120, budget_s=36000,
    ),
}


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(line)
    return out


def check(prop, tier=None, seed=None, only=None, verbose=False):
    setup_paths()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    opts = dict(TIERS["thorough" if tier == "thorough" else "quick"], seed=seed)
    t0 = time.time()
    opts["deadline"] = t0 + opts["budget_s"]
    spec = importlib.import_module("contracts." + _module_of(prop))
    units = spec.units(tier)
    if only:
        units = [u for u in units if only in str(u)]
    jobs = [(r if ":" in r else _module_of(prop) + ":" + r, c, dict(opts, **getattr(spec, "OPTS", {}))) for r, c in units]
    results = []
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(jobs)))
    if nproc == 1 or os.environ.get("VERIF_SERIAL"):
        for j in jobs:
            results.append(run_unit(j))
            if verbose:
                _show(results[-1])
    else:
        ctx = multiprocessing.get_context("fork")
        pending = list(jobs)
        tries = 0
        while pending and tries < 3:
            tries += 1
            left = []
            with ProcessPoolExecutor(nproc, mp_context=ctx) as pool:
                futs = {pool.submit(run_unit, j): j for j in pending}
                for f in as_completed(futs):
                    try:
                        results.append(f.result())
                        if verbose:
                            _show(results[-1])
                    except Exception as err:
                        left.append(futs[f])
            pending = left
        for j in pending:
            results.append(
                dict(ref=j[0], config=j[1], status="undecided", wall=0,
                     issues=[dict(kind="undecided", why="worker process died")],
                     cross=0, bounded=0, bounded_ok=0)
            )
    return report(prop, spec, tier, seed, results, time.time() - t0)


def _show(r):
    print("  [%s] %s %s paths=%s obl=%s solver=%.1fs wall=%.1fs cross=%s bounded=%s" % (
        r["status"], r["ref"], r["config"], r.get("paths"), r.get("obligations"),
        r.get("solver_s", 0), r.get("wall", 0), r.get("cross"), r.get("bounded")), flush=True)
    for i in r["issues"][:4]:
        print("      -", i["kind"], i["why"][:300], "|", str(i.get("where") or i.get("detail") or "")[:600], "| model", i.get("model"), "| replay", i.get("replay_status"), i.get("replay"))


def _module_of(prop):
    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return f[:-3]
    raise SystemExit("no contract module for %s" % prop)


def report(prop, spec, tier, seed, results, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    results.sort(key=lambda r: (r["ref"], str(r["config"])))
    proofs = [r for r in results if r.get("mode", "proof") == "proof"]
    bounded_units = [r for r in results if r.get("mode") == "bounded"]
    known = [k for k in load_known() if ("property=%s " % prop) in k]
    violations, soft, undecided = [], [], []
    seen_known = set()
    for r in results:
        for i in r["issues"]:
            if i["kind"] == "failed" and i.get("replay"):
                violations.append((r, i))
            elif (
                i["kind"] == "failed" and i.get("status") == "sat" and not i.get("abstracted")
                and i.get("replay_status") != "ok" and i.get("label") != "no unexpected exception"
            ):
                soft.append((r, i))
            else:
                undecided.append((r, i))
    obligations = sum(r.get("obligations", 0) or 0 for r in proofs)
    by = {}
    for r in proofs:
        for k, v in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
    discharged = sum(by.values())
    funcs = sorted(set(f for r in proofs for f in r.get("functions", [])))
    labels = {}
    for r in proofs:
        for k, v in (r.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
    n_bounded = sum(r["bounded"] for r in results)
    all_proved = bool(proofs) and all(r["status"] == "proved" for r in proofs)
    level = getattr(spec, "LEVEL", "proof") if all_proved else "exploration"
    cov = dict(
        obligations=obligations,
        discharged=discharged,
        checker_cmd="VERIF_TIER=%s VERIF_SEED=%d ./check.sh %s" % (tier, seed, prop),
        trusted_base=TRUSTED + list(getattr(spec, "TRUSTED", [])),
        discharged_by=by,
        obligation_kinds=labels,
        functions_under_contract=funcs,
        contracts=len(proofs),
        paths=sum(r.get("paths", 0) or 0 for r in proofs),
        solver_queries=sum(r.get("checks", 0) or 0 for r in proofs),
        solver_seconds=round(sum(r.get("solver_s", 0) or 0 for r in proofs), 2),
        unknown_feasibility_answers=sum(r.get("unknown_feas", 0) or 0 for r in proofs),
        path_models_replayed_on_cpython=sum(r["cross"] for r in results),
        bounded_runs_on_the_real_code=n_bounded,
        bounded_stand_ins=[
            dict(contract=r["ref"], config=str(r["config"]), runs=r["bounded"]) for r in bounded_units
        ],
        undecided=[
            dict(contract=r["ref"], config=str(r["config"]), why=i["why"][:300]) for r, i in undecided[:20]
        ],
        cvc5_second_opinion={
            k: sum((r.get("cvc5") or {}).get(k, 0) for r in proofs)
            for k in sorted(set(x for r in proofs for x in (r.get("cvc5") or {})))
        },
        evaluations=n_bounded + sum(r["cross"] for r in results),
        distinct_nontrivial=sum(r.get("distinct", 0) if isinstance(r.get("distinct", 0), int) else 0 for r in results),
        rule="bounded part only: seeded random contract inputs executed on the unmodified code; "
        "non-trivial = accepted by the preconditions and at least one postcondition evaluated",
        samples=[r["sample"] for r in results if r.get("sample")][:3]
        or [dict(contract=r["ref"], config=str(r["config"]), paths=r.get("paths")) for r in results[:3]],
        units=[
            dict(contract=r["ref"], config=str(r["config"]), status=r["status"],
                 obligations=r.get("obligations"), paths=r.get("paths"), wall_s=round(r.get("wall", 0), 2))
            for r in results
        ],
    )
    ev = dict(
        property=prop, tier="thorough" if tier == "thorough" else "quick", seed=seed, level=level,
        coverage=cov,
        assumptions=ASSUMPTIONS + list(getattr(spec, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(violations) + len(soft),
    )
    rc = 0
    lines = []
    emitted = 0
    for r, i in (violations or soft):
        found = bool(i.get("replay"))
        name = "%s-%d.json" % (prop, emitted)
        path = os.path.join(rdir, name)
        sig = "%s|%s|%s" % (r["ref"], json.dumps(r["config"], sort_keys=True, default=str), i.get("label"))
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, contract=r["ref"], config=r["config"],
                     obligation=i.get("label"), why=i["why"], solver_status=i.get("status"),
                     model=i.get("model"), replay=i.get("replay"), verifier_output=i.get("detail"),
                     how="cd %s && ./check.sh --replay %s" % (VERIF, path), signature=sig),
                f, indent=1, default=str,
            )
        lines.append(
            "VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found")
        )
        print("  contract %s %s: obligation failed: %s" % (r["ref"], r["config"], i["why"][:400]))
        rc = 1
        emitted += 1
        if emitted >= 3:
            break
    for k in known:
        fn = getattr(spec, "known_finding_present", None)
        if fn is None or fn(k):
            print("KNOWN-FINDING: property=%s %s" % (prop, k.split("property=%s " % prop, 1)[1]))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s: %s, %d contracts, %d obligations, %d discharged (%s), %d paths, %.1fs solver, %.1fs wall; "
        "%d undecided, %d CPython cross-checks, %d bounded runs"
        % (prop, "PROVED" if all_proved else level, len(proofs), obligations, discharged,
           ", ".join("%s %d" % kv for kv in sorted(by.items())), cov["paths"], cov["solver_seconds"], wall,
           len(undecided), cov["path_models_replayed_on_cpython"], n_bounded)
    )
    for r, i in undecided[:6]:
        print("  undecided (bounded stand-in used): %s %s: %s" % (r["ref"], r["config"], i["why"][:200]))
    for l in lines:
        print(l)
    return rc


TRUSTED = [
    "CPython 3.12 executing the repository's functions on symbolic proxies (pyvc/sym.py, pyvc/loader.py)",
    "pyvc/symnp.py: model of numpy basic indexing/assignment/rot90/flip/transpose/arange/where "
    "(cross-checked against the installed numpy, not proved)",
    "z3 5.3.2 (and cvc5 1.4.2 where counted)",
]
ASSUMPTIONS = [
    "integers are mathematical (Python ints are; numpy int64 rank arithmetic is assumed not to overflow)",
    "array elements are mathematical reals: copies and negations are exact, other arithmetic ignores rounding",
    "gt4py and cupy are not installed: only the numpy code paths are under contract",
]


def replay(path):
    setup_paths()
    d = json.load(open(path))
    vals = (d.get("replay") or {}).get("values") or d.get("model")
    s, msg, log = run_concrete(d["contract"], d["config"], values=vals, rng=random.Random(1))
    print(s, msg, log)
    return 1 if s == "fail" else 0
