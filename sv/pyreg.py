"""The checks of the Python-level contracts (C18, C19)."""
import multiprocessing as mp
import os
import resource
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

import env
import check

TRUSTED = [
    "pyvc.py: the executor's reading of Python (assignment, calls, "
    "exceptions, with, comprehensions, generators used as context managers) "
    "and z3",
    "the assumed library contracts listed under assumptions",
]
ASSUME = {
    "C18": [
        "m5meta/m5pre: after both passes each space has an ordered field "
        "dictionary keyed by field name with non-negative origin and width, "
        "an enumeration or None per field, and assembled words at "
        "non-negative addresses; generate_object() completes the words; "
        "write_hex_file and write_fdef write what they are given",
        "amaranth StructLayout places members consecutively in dictionary "
        "order; Shape.cast gives a width; unsigned(n) has width n and "
        "refuses n < 0",
        "amaranth Memory(shape, depth, init) holds init[a] at address a; "
        "read_port() is synchronous, transparent_for=() and enabled",
        "enum classes: __members__, iteration without aliases, .value",
        "str.upper/lower are functions of the name; distinct padding "
        "counters give distinct padding names, none of which is a field's",
        "open() and with close files; path objects have .stem",
        "fields of the source lie inside the declared word",
        "integers are mathematical",
    ],
    "C19": [
        "argparse: -o/-n store their text, -f is a flag, defaults None/False",
        "verilog.convert(m, name=n) gives the text for m under that name "
        "(Amaranth's back end; yosys is not installed) or raises",
        "open(fn, 'w'), print and write write the text they are given",
        "Top() and FormalTop() build the core and the core with the trace "
        "port (their behaviour is C01-C17)",
    ],
}
STOP = mp.get_context("fork").Event()


def _prove(prop, q):
    """In a process of its own: nothing the engine does can hang a check."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        import pyproofs
        c = getattr(pyproofs, prop)()
        out = {"unsupported": None}
        try:
            c.run()
        except pyproofs.Unsupported as e:
            out["unsupported"] = str(e) or "not modelled"
        except Exception:
            out["unsupported"] = "engine failure: " + \
                traceback.format_exc()[-1200:]
        out["obl"] = {n: {"paths": o["paths"],
                          "bad": [(r, str(d)) for r, d in o["bad"][:3]]}
                      for n, o in c.rep.obl.items()}
        out["failed_alone"] = {
            n: [(r, str(d)) for r, d in o["bad"][:3]]
            for n, o in c.failed_alone.items()}
        out["funcs"], out["alone"] = c.rep.funcs, c.alone
        out["proved"] = c.proved
    except BaseException:
        out = {"unsupported": "engine failure: "
               + traceback.format_exc()[-1200:], "obl": {}, "funcs": {},
               "alone": {}, "proved": [], "failed_alone": {}}
    q.put(out)


def concrete(a):
    import pyconc
    try:
        if a[0] == "C18":
            return pyconc.c18_random(a[1], a[2], STOP)
        return pyconc.c19_all(a[1], a[2], STOP)
    except Exception:
        return {"kind": "error", "message": traceback.format_exc()[-1200:]}, 0


def loopfree(name, funcs):
    f = funcs.get(name.split(": ")[0])
    return f is not None and not f["loops"] and \
        "elaborate" not in name.split(": ")[0]


def run_py(prop, tier):
    import registry
    t0 = time.time()
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pr = ctx.Process(target=_prove, args=(prop, q), daemon=True)
    pr.start()
    n = check.NPROC
    quick = tier == "quick"
    with ProcessPoolExecutor(n, mp_context=ctx) as pool:
        if prop == "C18":
            tasks = [("C18", check.SEED * 1000 + k, 150 if quick else 2500)
                     for k in range(n)]
        else:
            # option combinations; half of them if the proof goes through
            tasks = [("C19", k, 2 * n) for k in range(n)]
        hit, cases, errs = _go(pool, tasks)
        try:
            out = q.get(timeout=90 if hit else 400 if quick else 600)
        except Exception:
            out = {"unsupported": "the proof does not finish in time",
                   "obl": {}, "funcs": {}, "alone": {}, "proved": [],
                   "failed_alone": {}}
        pr.kill()
        bad = {k: o for k, o in out["obl"].items() if o["bad"]}
        bad.update({k: {"bad": v, "paths": 0}
                    for k, v in out["failed_alone"].items()})
        proved = not bad and not out["unsupported"] and out["obl"]
        if not hit and prop == "C19" and not (proved and quick):
            hit, c, e = _go(pool, [("C19", n + k, 2 * n) for k in range(n)])
            cases += c
            errs += e
        if not hit and not proved and prop == "C18":
            t1 = time.time()
            k = 100
            while not hit and time.time() - t1 < (60 if quick else 300):
                h, c, e = _go(pool, [("C18", check.SEED * 1000 + k + i, 100)
                                     for i in range(n)])
                hit, cases, k = hit or h, cases + c, k + n
                errs += e
    known = check.known_findings(prop)
    left = [k for k in bad if k not in known]
    for k in known:
        if k in bad:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    F = out["funcs"]
    nobl, nbad = len(out["obl"]), len(bad)
    cov = {
        "obligations": nobl,
        "discharged": nobl - len([k for k in out["obl"] if k in bad]),
        "checker_cmd": "/opt/venv/bin/python sv/check.py %s %s"
                       % (prop, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted(F),
        "functions_used_by_contract": out["proved"],
        "functions_verified_with_their_caller": out["alone"],
        "discharged_by": {"z3 or structurally, per path": sum(
            o["paths"] for o in out["obl"].values())},
        "paths": sum(f["paths"] for f in F.values()),
        "solver_queries": sum(f["queries"] for f in F.values()),
        "solver_time_s": round(sum(f["solver_s"] for f in F.values()), 3),
        "slowest_query_s": max([f["slowest_s"] for f in F.values()] or [0]),
        "loop_invariants_proved": sum(f["invariants_proved"]
                                      for f in F.values()),
        "per_function": F,
        "concrete_crosscheck_cases": cases,
        "sample_obligations": sorted(out["obl"])[:12],
        "refuted": sorted(bad)[:40],
        "outside_reach": out["unsupported"],
    }
    rc, viol, level = 0, 0, "proof"
    fails = [{"name": k, "detail": bad[k]["bad"]} for k in left] or \
        [{"name": "concrete run against the contract"}]
    comp = {"verified_with_their_caller": out["alone"]}
    hard = [k for k in left if k in out["obl"] and loopfree(k, F)
            and any(r == "refuted" for r, _ in bad[k]["bad"])]
    if hit or hard:
        rc, viol = 1, max(1, len(left))
        rp = registry.write_replay(prop, fails, hit, comp)
        for k in left[:10]:
            print("failed obligation: %s" % k)
        if hit:
            print("failing run: %s" % hit["message"])
        print("VIOLATION property=%s replay=%s%s" % (
            prop, rp, "" if hit else " no-failing-input-found"))
    elif not proved and not (left == [] and bad and not out["unsupported"]):
        level = "exploration"
        cov.update(bounded_stand_in="concrete runs, not a proof",
                   evaluations=cases, distinct_nontrivial=cases,
                   rule="seeded random microcode sources and field maps"
                   if prop == "C18" else "all option combinations",
                   samples=[])
        if out["unsupported"]:
            print("outside the verifier's reach: %s" % out["unsupported"])
        for k in left[:5]:
            print("not discharged: %s" % k)
        if errs and not cases:
            print("MACHINERY ERROR", errs[0], sep="\n")
            return 4
        print("BOUNDED: no disagreement in %d concrete runs; the property "
              "is not proved on this tree" % cases)
    registry.write_evidence(prop, tier, level, cov, time.time() - t0, viol,
                            ASSUME[prop])
    if rc == 0 and level == "proof":
        print("property %s holds: %d obligations of %d functions discharged, "
              "%d loop invariants, in %.1f s" % (
                  prop, cov["discharged"], len(F),
                  cov["loop_invariants_proved"], time.time() - t0))
    return rc


def _go(pool, tasks):
    hit, cases, errs = None, 0, []
    for f in as_completed([pool.submit(concrete, t) for t in tasks]):
        try:
            h, c = f.result()
        except Exception as e:
            errs.append(repr(e))
            continue
        cases += c
        if h and h["kind"] == "error":
            errs.append(h["message"])
        elif h and not hit:
            hit = h
            STOP.set()
    return hit, cases, errs


def rerun(run):
    import pyconc
    return pyconc.rerun(run)
