"""Translation validation of the term simplifier (thorough tier).

Every constructor of term.py carries the contract "the result denotes the
operator applied to the arguments".  ``install`` wraps the constructors; each
call is then an obligation, discharged by z3 once per distinct shape, in which
the calls it makes itself stand for their contracts and everything below a
small depth is an opaque variable (so one shape covers every call of the form).
What is left to trust in term.py is then the reading of single operators, here
and in solver.py, and the memory model's read-over-write.
"""
import env  # noqa: F401
import term as t
import z3

OPS = {"not_": "not", "and_": "and", "or_": "or", "xor_": "xor",
       "add": "add", "neg": "neg", "sub": "sub", "mul": "mul", "cat": "cat",
       "ext": "ext", "ite": "ite", "eq": "eq", "ult": "ult", "slt": "slt",
       "shl": "shl", "lshr": "lshr", "ashr": "ashr", "zext": "zext",
       "sext": "sext"}
DEPTHS = (1, 2, 3, 5, 9)
ST = {"calls": 0, "trivial": 0, "constant": 0, "shapes": 0, "failed": [], "maxdepth": 0}
_seen = set()
_keys = set()
_stack = []
OFF = []


def raw(op, w, a, x):
    """operator `op` on z3 bit vectors; x: integer parameters"""
    if op == "not":
        return ~a[0]
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "add":
        return a[0] + a[1]
    if op == "sub":
        return a[0] - a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "neg":
        return -a[0]
    if op == "cat":
        return z3.Concat(*reversed(a)) if len(a) > 1 else a[0]
    if op == "ext":
        return z3.Extract(x[0], x[1], a[0])
    if op == "ite":
        return z3.If(a[0] == 1, a[1], a[2])
    if op in ("eq", "ult", "slt"):
        c = a[0] == a[1] if op == "eq" else z3.ULT(*a) if op == "ult" \
            else a[0] < a[1]
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if op == "zext":
        return z3.ZeroExt(x[0] - a[0].size(), a[0])
    if op == "sext":
        return z3.SignExt(x[0] - a[0].size(), a[0])
    if op in ("shl", "lshr", "ashr"):
        n = max(w, a[1].size()) + 1          # amounts are unsigned
        p = z3.SignExt(n - w, a[0]) if op == "ashr" else \
            z3.ZeroExt(n - w, a[0])
        s = z3.ZeroExt(n - a[1].size(), a[1])
        r = {"shl": lambda: p << s, "lshr": lambda: z3.LShR(p, s),
             "ashr": lambda: p >> s}[op]()
        return z3.Extract(w - 1, 0, r)
    raise AssertionError(op)


def split(op, args):
    """terms and integer parameters of a call"""
    a = [y for y in args if isinstance(y, t.T)]
    x = [y for y in args if not isinstance(y, t.T) and y is not None]
    return a, x


class Shape:
    """The obligation of one call, opaque below `depth`."""

    def __init__(self, op, args, res, kids, depth):
        self.exp = set()
        todo = []
        for o, ar, r in [(op, args, res)] + kids:
            todo += [(y, depth) for y in split(o, ar)[0] + [r]]
        best = {}
        while todo:
            y, d = todo.pop()
            if best.get(y.id, -1) >= d or d == 0:
                continue
            best[y.id] = d
            self.exp.add(y.id)
            todo += [(k, d - 1) for k in y.a]
        self.num = {}
        self.key = (self.eqn(op, args, res),) + tuple(
            dict.fromkeys(self.eqn(*k) for k in kids))
        self.call = op, args, res
        self.kids = kids

    def node(self, y):
        if y.op == "c":
            return "c", y.w, y.v
        n = self.num.get(y.id)
        if n is not None:
            return n
        n = self.num[y.id] = len(self.num)
        if y.id in self.exp and y.op not in ("x", "rd"):
            return n, y.op, y.w, y.v, tuple(self.node(k) for k in y.a)
        return n, y.w

    def eqn(self, op, args, res):
        a, x = split(op, args)
        return op, tuple(x), tuple(self.node(y) for y in a), self.node(res)

    def z(self, y, memo):
        r = memo.get(y.id)
        if r is None:
            if y.op == "c":
                r = z3.BitVecVal(y.v, y.w)
            elif y.id in self.exp and y.op not in ("x", "rd"):
                r = raw(y.op, y.w, [self.z(k, memo) for k in y.a], y.v)
            else:
                r = z3.BitVec("t%d" % y.id, y.w)
            memo[y.id] = r
        return r

    def holds(self):
        s = z3.SolverFor("QF_BV")
        s.set("timeout", 20000)
        memo = {}

        def e(op, args, res):
            a, x = split(op, args)
            return raw(op, res.w, [self.z(y, memo) for y in a], x) == \
                self.z(res, memo)
        s.add(*[e(*k) for k in self.kids])
        s.add(z3.Not(e(*self.call)))
        return s.check() == z3.unsat


def record(op, args, res, kids):
    ST["calls"] += 1
    a, x = split(op, args)
    if res.op == op and (tuple(a) == res.a or op in (
            "and", "or", "xor", "add", "mul", "eq")
            and tuple(reversed(a)) == res.a) and \
            (op != "ext" or tuple(x) == res.v):
        ST["trivial"] += 1
        return
    if op == "cat" and len(a) == 1 and res is a[0]:
        ST["trivial"] += 1
        return
    if all(y.op == "c" for y in a) and op in t._BUILD:
        y = t.T(op, res.w, tuple(a), None, -1)
        if res.op == "c" and t.evalc(y, {}) == res.v:
            ST["constant"] += 1
            return
    for d in DEPTHS:
        sh = Shape(op, args, res, kids, d)
        if sh.key in _keys:
            return
        if sh.holds():
            _keys.add(sh.key)
            ST["shapes"] += 1
            ST["maxdepth"] = max(d, ST["maxdepth"])
            return
    if len(ST["failed"]) < 20:
        ST["failed"].append("%s(%s) = %s" % (
            op, ", ".join(map(repr, args)), res))


def wrap(name, op):
    f = getattr(t, name)

    def g(*args):
        if OFF:
            return f(*args)
        _stack.append([])
        try:
            r = f(*args)
        finally:
            kids = _stack.pop()
        if _stack:
            _stack[-1].append((op, args, r))
        k = (op,) + tuple(y.id if isinstance(y, t.T) else ("i", y)
                          for y in args)
        if k not in _seen:
            _seen.add(k)
            record(op, args, r, kids)
        return r
    g.__name__ = name
    return g


def install():
    if _BUILT:
        return
    new = {n: wrap(n, op) for n, op in OPS.items()}
    for n, g in new.items():
        setattr(t, n, g)
    for k in list(t._BUILD):
        t._BUILD[k] = new.get(k, new.get(k + "_"))
    _BUILT.append(1)


_BUILT = []
