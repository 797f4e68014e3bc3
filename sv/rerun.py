"""rerun.py REPLAY.json -- drive the recorded failing run through the current
/repo on Amaranth's simulator and report whether it still disagrees with the
specification (exit 1) or not (exit 0)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402,F401
import json  # noqa: E402
import lockstep  # noqa: E402
import replay  # noqa: E402


def main():
    r = json.load(open(sys.argv[1]))
    lockstep.FORMAL = r.get("property") == "C17"
    run = r.get("failing_run")
    if not run:
        print("no failing run recorded; failed obligations:")
        for f in r["failed_obligations"]:
            print("  ", f["name"])
        sys.exit(0)
    if run["kind"].startswith(("c18", "c19")):
        import pyconc
        m = pyconc.rerun(run)
        x = {"message": m} if m else None
    elif run["kind"] == "isa":
        import isa
        m = isa.rerun(run)
        x = {"message": m} if m else None
    else:
        x = replay.rerun(run)
    if x:
        print(x["message"])
        sys.exit(1)
    print("no disagreement on the current tree")


main()
