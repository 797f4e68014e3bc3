"""Nothing is built ahead of time: check that the machinery loads and that the
term simplifier agrees with z3 on its self-test."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402,F401
import registry  # noqa: E402,F401
import term  # noqa: E402
if hasattr(term, "selftest"):
    term.selftest(3000)
os.makedirs(os.path.join(env.VERIF, "evidence", "replay"), exist_ok=True)
print("ready")
