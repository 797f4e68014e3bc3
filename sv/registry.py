"""What each property's check runs, and how its evidence is written."""
import json
import os
import time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

import env
import check

TRUSTED = [
    "Amaranth's elaboration of the source to its netlist (NIR) - the code "
    "that also feeds Verilog generation and simulation",
    "netlist.py: the cell semantics of that netlist (cross-checked every run "
    "against Amaranth's simulator)",
    "m5meta assembling microcode.asm to the ROM image",
    "term.py simplifier (self-tested; in the thorough tier each rewrite is "
    "an obligation of its own, see simplifier_rewrites) and z3 / cvc5",
    "spec.py: the reading of the RISC-V ISA manuals and Sentinel's documents",
    "stubs/amaranth_soc: port list of wishbone.Interface (the package is not "
    "installed)",
]
ASSUME = [
    "bus environment: ack only in the second or a later cycle of a request "
    "and never in the cycle after an ack (the documented bus discipline)",
    "single clock domain, no metastability, two-valued signals",
    "power-on values or at least one clock cycle of reset",
    "unknown contents of non-architectural registers are havoced at each "
    "instruction boundary (over-approximation)",
]


def _chunks(classes):
    """Expensive classes first for load balance."""
    heavy = [c for c in classes if c in (
        "slli", "srli", "srai", "sll", "srl", "sra")]
    return heavy + [c for c in classes if c not in heavy]


def run_core(prop, tier):
    import props
    t0 = time.time()
    what = ["coverage"] + _chunks(props.uses(prop))
    if prop in ("C13", "C14", "C15", "C17"):
        what.append("reset")
    if prop == "C13":
        what = ["reset", "coverage"]
    seed = check.SEED
    out = []
    ctx = mp.get_context("fork")
    # component contracts first, once, in this process
    check.DEADLINE[0] = time.time() + check.LIMIT * (
        1 if tier == "quick" else 2)
    try:
        with check.limited(240):
            check.core(prop)
    except Exception:
        pass                    # each class reports it
    with ProcessPoolExecutor(check.NPROC, mp_context=ctx) as pool:
        fut = [pool.submit(check.job, (prop, w)) for w in what]
        cos = pool.submit(cosim_job, (seed, 400 if tier == "quick" else 6000,
                                      prop))
        out = [f.result() for f in fut]
        cosr = cos.result()
        return finish(prop, tier, t0, out, cosr, pool)


def cosim_job(a):
    import traceback
    import validate
    validate.OFF.append(1)            # concrete values only from here on
    try:
        import cosim
        import core as cm
        import netlist
        try:
            c = check.core(a[2])
        except (cm.Stuck, netlist.Unsupported) as e:
            return {"skipped": str(e)}
        try:
            with check.limited(60 if a[1] <= 400 else 600):
                bad = cosim.run(c, a[0], a[1])
        except check.TooLong as e:
            return {"skipped": str(e)}
        return {"cycles": a[1], "bad": bad}
    except Exception:
        return {"error": traceback.format_exc()}
    finally:
        validate.OFF.clear()


def finish(prop, tier, t0, out, cosr, pool):
    seed = check.SEED
    bad = cosr.get("error") or cosr.get("bad")
    if bad:
        # the translation is not to be believed: no proof, no refutation
        for o in out:
            o["stuck"] = "translation cross-check: %s" % (bad,)
            o["fail"], o["unknown"], o["ok"] = [], [], 0
    fails, unknown, stuck = [], [], []
    for o in out:
        for f in o["fail"]:
            fails.append(dict(f, what=o["what"]))
        unknown += [dict(u, what=o["what"]) for u in o["unknown"]]
        if o["stuck"]:
            stuck.append((o["what"], o["stuck"]))
    nobl = sum(o["obl"] for o in out)
    nok = sum(o["ok"] for o in out)
    S = [o["stats"] for o in out if "stats" in o]
    comp, comp_cov = components(prop)
    nobl += comp
    nok += comp
    if comp_cov["stats"]:
        S.append(comp_cov.pop("stats"))
    tot = lambda k: sum(s[k] for s in S)  # noqa: E731
    import registry_text
    cov = {
        "obligations": nobl, "discharged": nok,
        "checker_cmd": "/opt/venv/bin/python sv/check.py %s %s"
                       % (prop, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": registry_text.under_contract(
            [o["what"] for o in out if not o["stuck"]], prop == "C17",
            comp_cov["proved_alone"]),
        "component_contracts": comp_cov,
        "verified_with_component_bodies": [o["what"] for o in out
                                           if o.get("inlined")],
        "instruction_contracts": len([o for o in out if o["what"] not in (
            "reset", "coverage")]),
        "paths_per_contract": {o["what"]: o["paths"] for o in out},
        "infeasible_paths": sum(o["infeasible"] for o in out),
        "discharged_by": {"simplifier": tot("simplifier"), "z3": tot("z3")},
        "solver_queries": tot("queries"),
        "solver_time_s": round(tot("time"), 3),
        "slowest_query_s": round(max([s["maxq"] for s in S] or [0]), 3),
        "cvc5_agreed": tot("cvc5_agree"), "cvc5_undecided":
            tot("cvc5_unknown"),
        "simplifier_rewrites": validated(out),
        "translation_crosscheck_cycles": cosr.get("cycles", 0),
        "sample_obligations": [n for o in out for n in o["names"][:1]][:12],
        "refuted": [f["name"] for f in fails][:40],
        "undecided": unknown[:20],
        "outside_reach": stuck[:20],
    }
    if nobl == 0 and not stuck:
        print("MACHINERY ERROR: no obligations")
        return 4
    rc = 0
    viol = 0
    level = "proof"
    notes = []
    if fails:
        known = check.known_findings(prop)
        left = [f for f in fails if f["name"] not in known]
        for k in known:
            if any(f["name"] == k for f in fails):
                print("KNOWN-FINDING: property=%s %s" % (prop, k))
        if left:
            viol = len(left)
            r, err = check.search(pool, prop, left, seed,
                                  60 if tier == "quick" else 240,
                                  resets=(prop == "C13"))
            # an inferred invariant that is not one says nothing about the
            # property: what was proved from it is not
            only_inferred = all("boundary." in f["name"] for f in left)
            for n, why in comp_cov["verified_with_their_caller"].items():
                print("component contract not used: %s: %s" % (n, why))
            for f in left[:10]:
                print("failed obligation: %s (path %s)"
                      % (f["name"], f["path"]))
            if r or not only_inferred:
                rp = write_replay(prop, left, r, comp_cov)
                rc = 1
            if r:
                print("failing run: %s" % r["message"])
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            elif rc:
                print("VIOLATION property=%s replay=%s "
                      "no-failing-input-found" % (prop, rp))
            else:
                viol = 0
                stuck += sorted({(f["what"], "inferred invariant does not "
                                  "hold") for f in left})
    if rc == 0 and (stuck or unknown):
        # bounded stand-in: the real core against the specification
        focus = [{"what": w} for w, _ in stuck] + unknown
        r, err = check.search(pool, prop, focus, seed,
                              150 if tier == "quick" else 600,
                              resets=(prop == "C13"))
        cov["bounded_stand_in"] = "random lockstep runs, not a proof"
        level = "exploration"
        for w, s in stuck[:5]:
            print("outside the verifier's reach: %s: %s" % (w, s))
        for u in unknown[:5]:
            print("undecided: %s" % u["name"])
        if err and not r:
            print("MACHINERY ERROR", err, sep="\n")
            return 4
        if r:
            viol = 1
            rp = write_replay(prop, [{"name": "bounded lockstep run",
                                      "what": "bounded", "path": None}], r,
                              comp_cov)
            print("failing run: %s" % r["message"])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        else:
            print("BOUNDED: no disagreement in the bounded stand-in; the "
                  "property is not proved on this tree")
    write_evidence(prop, tier, level, cov, time.time() - t0, viol)
    if rc == 0 and level == "proof":
        print("property %s holds: %d obligations discharged (%d simplifier, "
              "%d z3) in %.1f s" % (prop, nok, tot("simplifier"), tot("z3"),
                                    time.time() - t0))
    return rc


def validated(out):
    """Thorough tier: rewrites of the simplifier discharged by z3."""
    last = {}
    for o in out:
        r = o.get("rewrites")
        if r and r["calls"] >= last.get(r["pid"], {"calls": 0})["calls"]:
            last[r["pid"]] = r
    if not last:
        return "trusted in the quick tier; validated in the thorough tier"
    import validate
    base = validate.ST          # done before the workers were forked
    tot = lambda k: base[k] + sum(  # noqa: E731
        r[k] - base[k] for r in last.values())
    return {"calls_covered": tot("calls"),
            "shapes_proved_by_z3": tot("shapes"), "invalid": 0}


def components(prop):
    """Obligations of the component contracts used by this check."""
    cov = {"proved_alone": {}, "verified_with_their_caller": {},
           "stats": None}
    c = check._cores.get((prop == "C17", True))
    if c is None or c.modular is None:
        return 0, cov
    m = c.modular
    for name, obl in m.proved.items():
        if name not in m.skip and not m.failed:
            cov["proved_alone"][name] = len(obl)
    cov["verified_with_their_caller"] = dict(m.skip)
    if m.failed:
        cov["verified_with_their_caller"]["all"] = m.failed
    cov["stats"] = c.component_stats
    return sum(cov["proved_alone"].values()), cov


def write_replay(prop, fails, run, comp):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    with open(p, "w") as f:
        json.dump({"property": prop, "failed_obligations": [
            {k: v for k, v in x.items()} for x in fails[:20]],
            "component_contracts_not_met":
                comp["verified_with_their_caller"],
            "failing_run": run,
            "how_to_rerun": "/opt/venv/bin/python sv/rerun.py " + p},
            f, indent=1, default=str)
    return p


def write_evidence(prop, tier, level, cov, wall, viol, assumptions=None):
    if level == "exploration":
        cov.setdefault("evaluations", cov.get("discharged", 0))
        cov.setdefault("distinct_nontrivial", cov.get("discharged", 0))
        cov.setdefault("rule", "bounded stand-in")
        cov.setdefault("samples", [])
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": check.SEED,
                   "level": level, "coverage": cov,
                   "assumptions": ASSUME if assumptions is None
                   else assumptions,
                   "wall_s": round(wall, 2), "violations": viol}, f, indent=1)


PROPS = {"C%02d" % k: {"run": run_core} for k in range(1, 18)}


def run_py(prop, tier):
    import pyreg
    return pyreg.run_py(prop, tier)


PROPS.update({"C18": {"run": run_py}, "C19": {"run": run_py}})


def run_isa(prop, tier):
    import isa
    return isa.run(prop, tier)


PROPS["C20"] = {"run": run_isa}
