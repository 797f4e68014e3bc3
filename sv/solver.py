"""Discharge obligations: terms -> z3 (primary) / cvc5 (cross-check)."""
import time

import env  # noqa: F401
import term as t
import z3


class Z:
    """Converter with a memo shared by all queries of the process."""

    def __init__(self):
        self.ctx = z3.main_ctx()
        self.bv = {}
        self.bl = {}
        self.arr = {}

    def mem(self, name, aw, dw):
        k = (name, aw, dw)
        if k not in self.arr:
            self.arr[k] = z3.Function("mem!" + name, z3.BitVecSort(aw),
                                      z3.BitVecSort(dw))
        return self.arr[k]

    def b(self, x):
        """1-bit term as Bool."""
        r = self.bl.get(x.id)
        if r is not None:
            return r
        assert x.w == 1
        op = x.op
        if op == "c":
            r = z3.BoolVal(bool(x.v))
        elif op == "x":
            r = z3.Bool(x.v)
        elif op == "not":
            r = z3.Not(self.b(x.a[0]))
        elif op == "and":
            r = z3.And(self.b(x.a[0]), self.b(x.a[1]))
        elif op == "or":
            r = z3.Or(self.b(x.a[0]), self.b(x.a[1]))
        elif op == "xor":
            r = z3.Xor(self.b(x.a[0]), self.b(x.a[1]))
        elif op == "ite":
            r = z3.If(self.b(x.a[0]), self.b(x.a[1]), self.b(x.a[2]))
        elif op == "eq":
            r = self.v(x.a[0]) == self.v(x.a[1])
        elif op == "ult":
            r = z3.ULT(self.v(x.a[0]), self.v(x.a[1]))
        elif op == "slt":
            r = self.v(x.a[0]) < self.v(x.a[1])
        else:
            r = self._v(x) == z3.BitVecVal(1, 1)
        self.bl[x.id] = r
        return r

    def v(self, x):
        r = self.bv.get(x.id)
        if r is not None:
            return r
        if x.w == 1 and x.op in ("x", "not", "and", "or", "xor", "ite", "eq",
                                 "ult", "slt"):
            r = z3.If(self.b(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            r = self._v(x)
        self.bv[x.id] = r
        return r

    def _v(self, x):
        op = x.op
        a = x.a
        if op == "c":
            return z3.BitVecVal(x.v, x.w)
        if op == "x":
            return z3.BitVec(x.v, x.w)
        if op == "rd":
            return self.mem(x.v, a[0].w, x.w)(self.v(a[0]))
        if op == "ite":
            return z3.If(self.b(a[0]), self.v(a[1]), self.v(a[2]))
        if op == "cat":
            ps = [self.v(y) for y in reversed(a)]
            return z3.Concat(*ps)
        if op == "ext":
            return z3.Extract(x.v[0], x.v[1], self.v(a[0]))
        p = [self.v(y) for y in a]
        if op == "not":
            return ~p[0]
        if op == "and":
            return p[0] & p[1]
        if op == "or":
            return p[0] | p[1]
        if op == "xor":
            return p[0] ^ p[1]
        if op == "add":
            return p[0] + p[1]
        if op == "sub":
            return p[0] - p[1]
        if op == "mul":
            return p[0] * p[1]
        if op == "neg":
            return -p[0]
        if op in ("shl", "lshr", "ashr"):
            s = p[1]
            w = x.w
            if s.size() < w:
                s = z3.ZeroExt(w - s.size(), s)
            elif s.size() > w:
                big = z3.UGE(s, z3.BitVecVal(w, s.size()))
                lo = z3.Extract(w - 1, 0, s)
                s = z3.If(big, z3.BitVecVal(w, w), lo) if w > 6 else None
                if s is None:
                    raise NotImplementedError("narrow shift")
            f = {"shl": lambda u, v: u << v, "lshr": z3.LShR,
                 "ashr": lambda u, v: u >> v}[op]
            return f(p[0], s)
        raise AssertionError(op)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.maxq = 0.0
        self.by = {"simplifier": 0, "z3": 0}
        self.cvc5_agree = 0
        self.cvc5_unknown = 0


class Solver:
    def __init__(self, timeout_ms=60000, cross=False):
        self.z = Z()
        self.st = Stats()
        self.timeout = timeout_ms
        self.cross = cross
        self._cache = {}

    def check(self, cs, want_model=False):
        """cs: list of 1-bit terms.  -> ('sat', model) | ('unsat', None)
        | ('unknown', reason)"""
        c = t.conj(cs)
        if c is t.FALSE:
            return "unsat", None
        if c is t.TRUE and not want_model:
            return "sat", None
        key = c.id
        if not want_model and key in self._cache:
            return self._cache[key], None
        s = z3.SolverFor("QF_UFBV")
        s.set("timeout", self.timeout)
        for x in cs:
            if x is not t.TRUE:
                s.add(self.z.b(x))
        t0 = time.time()
        r = str(s.check())
        dt = time.time() - t0
        self.st.queries += 1
        self.st.time += dt
        self.st.maxq = max(self.st.maxq, dt)
        if r == "unknown":
            return "unknown", s.reason_unknown()
        if self.cross and r == "unsat":
            self._cross(s)
        if r == "sat" and want_model:
            return r, Model(self.z, s.model())
        self._cache[key] = r
        return r, None

    def _cross(self, s):
        import subprocess
        txt = "(set-logic QF_UFBV)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--tlimit=60000", "-"], input=txt,
                               capture_output=True, text=True, timeout=90)
            out = p.stdout.strip().splitlines()
            out = out[-1] if out else "unknown"
        except Exception:
            out = "unknown"
        if out == "sat":
            raise RuntimeError("solver disagreement: z3 unsat, cvc5 sat")
        if out == "unsat":
            self.st.cvc5_agree += 1
        else:
            self.st.cvc5_unknown += 1

    def retry(self, hyps, goal):
        """Second attempt after 'unknown': other tactic, longer limit, cvc5."""
        cs = list(hyps) + [t.not_(goal)]
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv",
                    "bit-blast", "sat").solver()
        s.set("timeout", 4 * self.timeout)
        for x in cs:
            s.add(self.z.b(x))
        r = str(s.check())
        if r == "unsat":
            self.st.by["z3"] += 1
            return "proved", "z3"
        if r == "sat":
            return "refuted", Model(self.z, s.model())
        return "unknown", s.reason_unknown()

    def prove(self, hyps, goal):
        """-> ('proved', backend) | ('refuted', model) | ('unknown', why)"""
        if goal is t.TRUE:
            self.st.by["simplifier"] += 1
            return "proved", "simplifier"
        r, m = self.check(list(hyps) + [t.not_(goal)], want_model=True)
        if r == "unsat":
            be = "simplifier" if t.conj(list(hyps) + [t.not_(goal)]) \
                is t.FALSE else "z3"
            self.st.by[be] += 1
            return "proved", be
        if r == "sat":
            return "refuted", m
        return "unknown", m


class Model:
    """Concrete valuation of terms under a z3 model."""

    def __init__(self, z, m):
        self.z = z
        self.m = m

    def __call__(self, x):
        if x.op == "c":
            return x.v
        if x.w == 1:
            v = self.m.eval(self.z.b(x), model_completion=True)
            return 1 if z3.is_true(v) else 0
        v = self.m.eval(self.z.v(x), model_completion=True)
        return v.as_long()
