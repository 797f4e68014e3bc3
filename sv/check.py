"""check.py PROPERTY [quick|thorough] -- decide one property.

exit 0: every obligation discharged (or only listed known findings fail)
exit 1: VIOLATION line(s)
exit 3: undecided (solver gave up / engine limit and no failing run found)
exit 4: machinery error
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402
import warnings  # noqa: E402
warnings.filterwarnings("ignore")
import json  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
from concurrent.futures import (ProcessPoolExecutor, wait,
                                FIRST_COMPLETED)  # noqa: E402
import multiprocessing as mp  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 1)

# no check runs for ever: past the deadline what is left counts as out of
# reach, and the bounded stand-in takes over
LIMIT = 420
DEADLINE = [time.time() + LIMIT]


class TooLong(Exception):
    pass


class limited:
    """At most so many seconds, never past the deadline."""

    def __init__(self, seconds, deadline=True):
        self.s, self.d = seconds, deadline

    def __enter__(self):
        s = self.s
        if self.d:
            s = min(s, DEADLINE[0] - time.time())
            if s <= 0:
                raise TooLong("no time left")
        import signal

        def stop(*a):
            signal.setitimer(signal.ITIMER_REAL, 1)
            raise TooLong("takes too long")
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, s)

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


_cores = {}


def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"


def rewrites():
    """Thorough tier: the simplifier's own obligations in this process; a
    rewrite that is not valid leaves nothing to believe."""
    if not thorough():
        return None
    import validate
    if validate.ST["failed"]:
        raise RuntimeError("simplifier rewrite not valid: "
                           + validate.ST["failed"][0][:300])
    return dict(validate.ST, pid=os.getpid())


def core(prop=None, modular=True):
    """The verified machine; the trace property speaks about the build with
    the trace port.  modular: components stand for their contracts."""
    key = prop == "C17", modular
    if key not in _cores:
        import core as cm
        from solver import Solver
        sol = Solver(cross=thorough())
        c = cm.Core(solver=sol, formal=key[0], modular=modular)
        _cores[key] = c
        c.component_stats = _stats(sol, _base0())
        try:
            c.setup()
            c.broken = None
        except Exception as e:
            c.broken = e
    if _cores[key].broken is not None:
        raise _cores[key].broken
    return _cores[key]


def _base0():
    return {"queries": 0, "time": 0, "simplifier": 0, "z3": 0,
            "cvc5_agree": 0, "cvc5_unknown": 0}


def _stats(sol, base):
    st = sol.st
    return {"queries": st.queries - base["queries"],
            "time": st.time - base["time"], "maxq": st.maxq,
            "simplifier": st.by["simplifier"] - base["simplifier"],
            "z3": st.by["z3"] - base["z3"],
            "cvc5_agree": st.cvc5_agree - base["cvc5_agree"],
            "cvc5_unknown": st.cvc5_unknown - base["cvc5_unknown"]}


def _base(sol):
    st = sol.st
    return {"queries": st.queries, "time": st.time, "maxq": 0,
            "simplifier": st.by["simplifier"], "z3": st.by["z3"],
            "cvc5_agree": st.cvc5_agree, "cvc5_unknown": st.cvc5_unknown}


def job(a):
    """One instruction class (or 'reset'/'coverage') for one property; with
    the components' bodies if their contracts do not carry it."""
    out = _job(a, True)
    if out["stuck"] or out["unknown"]:
        o2 = _job(a, False)
        if not o2["stuck"] and len(o2["unknown"]) < max(
                len(out["unknown"]), bool(out["stuck"])):
            o2["inlined"] = True
            return o2
    return out


def _job(a, modular):
    prop, what = a
    t0 = time.time()
    out = {"what": what, "obl": 0, "ok": 0, "fail": [], "unknown": [],
           "paths": 0, "names": [], "stuck": None, "infeasible": 0}
    clock = limited(400 if thorough() else 150)
    try:
        import core as cm
        import netlist
        import props
        try:
            clock.__enter__()
            c = core(prop, modular)
            base = _base(c.sol)
            run = None
            if what == "reset":
                obls = [o for o in props.reset_obligations(c)
                        if prop in o.props]
                out["paths"] = len(c.reset_paths)
            elif what == "coverage":
                obls = props.coverage_obligations()
            else:
                run = props.ClassRun(c, what)
                out["paths"] = len(run.paths)
                out["lat"] = sorted({p.lat - p.waits for p in run.paths})
                obls = [o for o in run.obligations() if prop in o.props]
                # vacuity: a contract whose precondition (or every path) is
                # unsatisfiable would prove nothing
                feas = 0
                for p in run.paths:
                    r, m = c.sol.check(list(p.conds))
                    feas += r == "sat"
                out["infeasible"] = len(run.paths) - feas
                if not feas:
                    out["stuck"] = "no feasible path from the precondition"
            out["trap_reach"] = 0
            for o in obls:
                out["obl"] += 1
                r, m = c.sol.prove(o.hyps, o.goal)
                if r == "unknown":
                    r, m = c.sol.retry(o.hyps, o.goal)
                if r == "proved":
                    out["ok"] += 1
                    if len(out["names"]) < 3:
                        out["names"].append(o.name)
                elif r == "refuted":
                    f = {"name": o.name, "path": o.path}
                    if run is not None and len(out["fail"]) < 4:
                        import replay
                        p = run.paths[o.path]
                        try:
                            f["model"] = replay.concretise(run, p, m)
                            f["trace"] = p.trace[-80:]
                        except Exception as e:      # pragma: no cover
                            f["model_error"] = repr(e)
                    out["fail"].append(f)
                else:
                    out["unknown"].append({"name": o.name, "why": str(m)})
            out["stats"] = _stats(c.sol, base)
            out["rewrites"] = rewrites()
        except (cm.Stuck, netlist.Unsupported, TooLong) as e:
            out["stuck"] = "%s: %s" % (type(e).__name__, e)
    except Exception:
        # an engine failure is never a verdict: the class is left undecided
        out["stuck"] = "engine failure: " + traceback.format_exc()[-1500:]
    finally:
        if hasattr(clock, "old"):
            try:
                clock.__exit__()
            except TooLong:
                pass
    out["wall"] = time.time() - t0
    return out


STOP = mp.get_context("fork").Event()      # a failing run has been found


def rjob(a):
    import lockstep
    import replay
    kind = a[0]
    lockstep.FORMAL = a[-2] == "C17"
    try:
        with limited(a[-1], False):
            if kind == "directed":
                return replay.directed(a[1], stop=STOP)
            if kind == "random":
                return replay.random_run(a[1], focus=a[2], resets=a[3])
    except TooLong:
        return None
    except Exception:
        return {"kind": "error", "error": traceback.format_exc()}
    return None


def search(*a, **k):
    """A failing search never hides a verdict."""
    try:
        return _search(*a, **k)
    except Exception:
        return None, traceback.format_exc()


def _search(pool, prop, fails, seed, budget, resets=False):
    """Find a pin-level failing run for failed obligations."""
    t0 = time.time()
    tasks = []
    seen = set()
    for f in fails:
        if "model" in f and len(tasks) < 8:
            k = (f["what"], f["path"])
            if k in seen:
                continue
            seen.add(k)
            tasks.append(("directed", f["model"], prop))
    focus = sorted({f["what"] for f in fails
                    if f["what"] not in ("reset", "coverage")})[:12] or None
    # models first, random streams in what the pool has left, until a run
    # fails or the budget is spent
    err, k = None, 0
    fut = {pool.submit(rjob, x + (budget * .4,)) for x in tasks}
    while fut or time.time() - t0 < budget:
        while time.time() - t0 < budget and len(fut) < NPROC + 2:
            fut.add(pool.submit(rjob, (
                "random", seed * 100003 + k, focus, resets or k % 5 == 4,
                prop, 60)))
            k += 1
        done, fut = wait(fut, return_when=FIRST_COMPLETED)
        for f in done:
            r = f.result()
            if r and r.get("kind") == "error":
                err = r["error"]
            elif r:
                STOP.set()
                for g in fut:
                    g.cancel()
                return r, err
    return None, err


def known_findings(prop):
    p = os.path.join(env.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    if thorough():
        import validate
        validate.install()
    import registry
    sys.exit(registry.PROPS[prop]["run"](prop, tier))


if __name__ == "__main__":
    main()
