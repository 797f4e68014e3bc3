"""Verification conditions for ordinary Python functions of /repo.

The hardware of Sentinel is verified on its netlist (core.py); the functions
that run in Python itself - the microcode loader (ucoderom.py) and the Verilog
generator script (gen.py) - are verified here, on the abstract syntax tree of
the module that is actually imported.  Nothing is transcribed: names resolve
to the real objects of the imported module; a function of the same module is
either replaced by its contract or executed; a library object has a contract
(a Python model class below or in pycontracts.py).

A function is executed forwards on symbolic arguments along every path.  A
branch asks z3 which sides are possible.  A loop over a sequence of unknown
length is cut: everything its body modifies is forgotten, the invariant is
assumed at an arbitrary iteration, and has to hold again after it.  The
invariant is the largest inductive subset of the candidate formulas offered by
the contract (found by elimination; what survives has been proved on entry and
preserved).

Anything the executor has no meaning for raises Unsupported: no verdict.
"""
import ast
import inspect
import itertools
import re
import string

import env  # noqa: F401
import z3

Name = z3.DeclareSort("Name")
upper_f = z3.Function("upper", Name, Name)
lower_f = z3.Function("lower", Name, Name)

RLIMIT = 8000000


class Unsupported(Exception):
    pass


class Stop(Exception):
    """The path ends here (infeasible, or the end of a loop body)."""


class Restart(Exception):
    """An invariant candidate or a frame was changed: start again."""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ---------------------------------------------------------------- values
class Obj:
    """A value with a contract.  Subclasses override what they allow."""

    def getattr(self, ex, n):
        raise Unsupported("attribute %s of %s" % (n, type(self).__name__))

    def setattr(self, ex, n, v):
        raise Unsupported("assignment to attribute %s of %s"
                          % (n, type(self).__name__))

    def getitem(self, ex, k):
        raise Unsupported("subscript of %s" % type(self).__name__)

    def setitem(self, ex, k, v):
        raise Unsupported("item assignment to %s" % type(self).__name__)

    def call(self, ex, args, kw):
        raise Unsupported("call of %s" % type(self).__name__)

    def truth(self, ex):
        return True

    def contains(self, ex, k):
        raise Unsupported("'in' on %s" % type(self).__name__)

    def eq(self, ex, o):
        return self is o

    def seq(self, ex):
        raise Unsupported("iteration over %s" % type(self).__name__)

    def len(self, ex):
        return self.seq(ex).n

    def enter(self, ex):
        raise Unsupported("with on %s" % type(self).__name__)

    def exit(self, ex):
        pass


class Fn(Obj):
    """A library function with a contract written as a Python callable."""

    def __init__(self, f, name="", real=None):
        self.f = f
        self.name = name
        self.real = real

    def call(self, ex, args, kw):
        return self.f(ex, *args, **kw)


class Seq(Obj):
    """A sequence: length n (int or z3 Int), element at(i)."""

    def __init__(self, n, at):
        self.n = n
        self.at = at

    def seq(self, ex):
        return self

    def truth(self, ex):
        return ex.branch(ex.z(self.n) > 0)

    def getitem(self, ex, k):
        if isinstance(k, slice):
            n = ex.z(self.n)

            def clamp(x, d):
                """Python's reading of a slice bound"""
                if x is None:
                    return d
                if not ex.isint(x):
                    raise Unsupported("slice")
                x = ex.z(x)
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
            if k.step is not None and not (isinstance(k.step, int)
                                           and k.step in (1, -1)):
                raise Unsupported("slice step")
            if k.step == -1:
                if k.start is not None or k.stop is not None:
                    raise Unsupported("slice step")
                return Seq(self.n, lambda i: self.at(
                    z3.simplify(n - 1 - ex.z(i))))
            lo, hi = clamp(k.start, z3.IntVal(0)), clamp(k.stop, n)
            m = z3.simplify(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
            if z3.is_int_value(m):
                m = m.as_long()
            return Seq(m, lambda i: self.at(z3.simplify(ex.z(i) + lo)))
        k = ex.index(k, self.n)
        return self.at(k)


def seq_of(vals):
    vals = list(vals)

    def at(i):
        if isinstance(i, int):
            return vals[i]
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return vals[i.as_long()]
        raise Unsupported("symbolic index into a literal sequence")
    s = Seq(len(vals), at)
    s.vals = vals
    return s


class Iter(Obj):
    def __init__(self, ex, s):
        self.s = s
        self.pos = 0
        ex.alloc(self)

    def seq(self, ex):
        p = self.pos
        if isinstance(p, int) and p == 0:
            return self.s
        n = ex.z(self.s.n) - p
        n = z3.If(n >= 0, n, z3.IntVal(0))
        return Seq(n, lambda i: self.s.at(i + p))

    def havoc(self, ex):
        self.pos = ex.fresh(z3.IntSort(), "pos")
        ex.assume(self.pos >= 0)

    def next(self, ex, *default):
        n = ex.z(self.s.n)
        if ex.branch(ex.z(self.pos) < n):
            v = self.s.at(self.pos)
            self.pos = self.pos + 1
            ex.touch(self)
            return v
        if default:
            return default[0]
        raise PyRaise(Exc(StopIteration, []))


class Exc(Obj):
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args

    def getattr(self, ex, n):
        if n == "args":
            return Opaque("exception arguments")
        if n in ("__cause__", "__context__"):
            return Opaque(n)
        return super().getattr(ex, n)


class Opaque(Obj):
    """Something only ever passed on (messages)."""

    def __init__(self, what):
        self.what = what

    def getattr(self, ex, n):
        return Opaque("%s.%s" % (self.what, n))

    def getitem(self, ex, k):
        return Opaque("%s[...]" % self.what)


class ModObj(Obj):
    """An imported module: its members resolve like names do."""

    def __init__(self, real, module):
        self.real, self.module = real, module

    def getattr(self, ex, n):
        if not hasattr(self.real, n):
            raise PyRaise(Exc(AttributeError, []))
        return ex.lift(getattr(self.real, n), self.module)


class ExcClass(Obj):
    def __init__(self, cls):
        self.cls = cls

    def call(self, ex, args, kw):
        return Exc(self.cls, args)


class UserFunc(Obj):
    def __init__(self, node, frame, module, owner=None, bound=None):
        self.node = node
        self.frame = frame          # enclosing locals (closure), or None
        self.module = module
        self.owner = owner
        self.bound = bound

    def call(self, ex, args, kw):
        if self.bound is not None:
            args = [self.bound] + list(args)
        decos = [ex.deco(self, d) for d in self.node.decorator_list] \
            if isinstance(self.node, ast.FunctionDef) else []
        if "contextmanager" in decos:
            return GenCM(self, args, kw)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in walk_own(self.node)):
            raise Unsupported("generator function")
        return ex.apply(self, args, kw)


class NullCM(Obj):
    """contextlib.nullcontext"""

    def __init__(self, v):
        self.v = v

    def enter(self, ex):
        return self.v

    def exit(self, ex):
        pass


class StackCM(Obj):
    """contextlib.ExitStack"""

    def __init__(self, ex):
        self.cms = []
        ex.alloc(self)

    def enter(self, ex):
        return self

    def exit(self, ex):
        for cm in reversed(self.cms):
            cm.exit(ex)
        self.cms = []

    def getattr(self, ex, n):
        if n == "enter_context":
            def enter(ex, cm):
                ex.touch(self)
                v = cm.enter(ex)
                self.cms.append(cm)
                return v
            return Fn(enter)
        return super().getattr(ex, n)


class GenCM(Obj):
    """with on a @contextmanager function: its body runs around the yield."""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class ListObj(Obj):
    """A mutable list of integers: length and an array, or literal."""

    def __init__(self, ex, vals=None, n=None, arr=None):
        self.vals = vals
        self.n = n
        self.arr = arr
        ex.alloc(self)

    def seq(self, ex):
        if self.vals is not None:
            return seq_of(self.vals)
        a = self.arr
        return Seq(self.n, lambda i: z3.Select(a, i))

    def symbolic(self, ex):
        if self.vals is not None:
            a = z3.K(z3.IntSort(), z3.IntVal(0))
            for i, v in enumerate(self.vals):
                a = z3.Store(a, i, ex.z(v))
            self.n, self.arr, self.vals = len(self.vals), a, None

    def havoc(self, ex):
        self.symbolic(ex)
        self.arr = ex.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), "list")
        self.n = ex.fresh(z3.IntSort(), "len")
        ex.assume(self.n >= 0)

    def truth(self, ex):
        if self.vals is not None:
            return bool(self.vals)
        return ex.branch(ex.z(self.n) > 0)

    def getitem(self, ex, k):
        if self.vals is not None and isinstance(k, (int, slice)):
            try:
                r = self.vals[k]
            except IndexError:
                raise PyRaise(Exc(IndexError, []))
            return ListObj(ex, r) if isinstance(k, slice) else r
        if isinstance(k, slice):
            return self.seq(ex).getitem(ex, k)
        k = ex.index(k, len(self.vals) if self.vals is not None else self.n)
        return self.seq(ex).at(k)

    def setitem(self, ex, k, v):
        ex.touch(self)
        if self.vals is not None and isinstance(k, int):
            try:
                self.vals[k] = v
            except IndexError:
                raise PyRaise(Exc(IndexError, []))
            return
        if isinstance(k, slice):
            raise Unsupported("slice assignment")
        self.symbolic(ex)
        k = ex.index(k, self.n)
        self.arr = z3.Store(self.arr, k, ex.z(v))

    def getattr(self, ex, n):
        if n == "append":
            def app(ex, v):
                ex.touch(self)
                if self.vals is not None:
                    self.vals.append(v)
                else:
                    self.arr = z3.Store(self.arr, ex.z(self.n), ex.z(v))
                    self.n = self.n + 1
            return Fn(app)
        return super().getattr(ex, n)

    def binop(self, ex, op, o):
        if isinstance(op, ast.Mult):
            if self.vals is not None and isinstance(o, int):
                return ListObj(ex, self.vals * o)
            if self.vals is not None and len(self.vals) == 1 \
                    and ex.isint(o):
                n = z3.If(o >= 0, o, z3.IntVal(0))
                return ListObj(ex, n=n, arr=z3.K(z3.IntSort(),
                                                 ex.z(self.vals[0])))
        if isinstance(op, ast.Add):
            a, b = self.seq(ex), ex.seq(o)
            return concat(ex, a, b)
        raise Unsupported("list arithmetic")


def concat(ex, a, b):
    if hasattr(a, "vals") and hasattr(b, "vals"):
        return ListObj(ex, list(a.vals) + list(b.vals))

    def at(i):
        if ex.branch(ex.z(i) < ex.z(a.n)):
            return a.at(i)
        if not isinstance(i, int):
            i = i - a.n
            if hasattr(b, "vals") and len(b.vals) == 1:
                i = 0
        else:
            i = i - a.n
        return b.at(i)
    return Seq(ex.z(a.n) + ex.z(b.n), at)


class PyDict(Obj):
    """A dictionary with literal keys."""

    def __init__(self, ex, d=None):
        self.d = dict(d or {})
        ex.alloc(self)

    def _k(self, k):
        if isinstance(k, (str, int, type(None))):
            return k
        raise Unsupported("symbolic key")

    def getitem(self, ex, k):
        try:
            return self.d[self._k(k)]
        except KeyError:
            raise PyRaise(Exc(KeyError, [k]))

    def setitem(self, ex, k, v):
        ex.touch(self)
        self.d[self._k(k)] = v

    def havoc(self, ex):
        raise Unsupported("loop over a literal dictionary")

    def truth(self, ex):
        return bool(self.d)

    def contains(self, ex, k):
        return self._k(k) in self.d

    def seq(self, ex):
        return seq_of(self.d)

    def getattr(self, ex, n):
        if n == "items":
            return Fn(lambda ex: seq_of(list(self.d.items())))
        if n == "keys":
            return Fn(lambda ex: seq_of(list(self.d)))
        if n == "values":
            return Fn(lambda ex: seq_of(list(self.d.values())))
        if n == "get":
            return Fn(lambda ex, k, *d: self.d.get(
                self._k(k), d[0] if d else None))
        return super().getattr(ex, n)


def walk_own(node):
    """Nodes of a function without those of functions inside it."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


# ---------------------------------------------------------------- modules
class Module:
    """Source of an imported module, its functions by qualified name."""

    def __init__(self, mod):
        self.mod = mod
        self.tree = ast.parse(inspect.getsource(mod))
        self.funcs = {}

        def rec(body, pre):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs[pre + n.name] = n
                elif isinstance(n, ast.ClassDef):
                    rec(n.body, pre + n.name + ".")
        rec(self.tree.body, "")


# ---------------------------------------------------------------- executor
class Exec:
    def __init__(self, module, models=None, contracts=None, axioms=()):
        self.m = module
        self.models = models or {}
        self.contracts = contracts or {}
        self.axioms = list(axioms)
        self.dead = {}          # (loop, candidate) eliminated
        self.frames = {}        # loop -> allocation numbers it modifies
        self.obls = {}          # name -> "proved" / refuted text / unknown
        self.queries = 0
        self.time = 0.0
        self.maxq = 0.0
        self.paths = 0
        self.strings = {}
        self.str_ax = []
        self.loop_cands = None

    # -- solver
    def solve(self, extra, limit, model=False, fast=False):
        """limit: z3's own resource count, not time - the same answer on a
        busy machine.  Without model-based instantiation a query that has a
        model comes back quickly as unknown."""
        import time
        s = z3.Solver()
        s.set("rlimit", limit)
        s.set("mbqi", model)
        if fast:
            s.set("auto_config", False)
        for a in self.axioms + self.str_ax + self.pc:
            s.add(a)
        for a in extra:
            s.add(a)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.queries += 1
        self.time += dt
        self.maxq = max(self.maxq, dt)
        return str(r), (s.model() if r == z3.sat else None)

    def valid(self, f, limit=RLIMIT):
        """(verdict, model)"""
        r, m = self.solve([z3.Not(f)], limit, fast=True)
        if r == "unknown":
            r, m = self.solve([z3.Not(f)], limit)
        if r == "unknown" and limit == RLIMIT:
            r, m = self.solve([z3.Not(f)], limit, model=True)
        return {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), m

    def feasible(self, f):
        r, _ = self.solve([f], RLIMIT // 10, fast=True)
        return r != "unsat"

    # -- paths
    def explore(self, thunk, limit=4000):
        stack = [[]]
        while stack:
            self.pre = stack.pop()
            self.k = 0
            self.trail = []
            self.pc = []
            self.heap = []
            self.events = []
            self.havocs = []
            self.cuts = []
            self.nfresh = itertools.count()
            self.paths += 1
            if self.paths > limit:
                raise Unsupported("too many paths")
            try:
                thunk()
            except Stop:
                pass
            for i in range(len(self.pre), len(self.trail)):
                c, n = self.trail[i]
                for alt in range(c + 1, n):
                    stack.append([x for x, _ in self.trail[:i]] + [alt])

    def sub(self, thunk):
        """All paths of an expression: [(conditions, value | PyRaise)]."""
        saved = (self.pre, self.k, self.trail, self.pc, self.in_sub)
        base = len(self.pc)
        out = []
        stack = [[]]
        nh = len(self.heap)
        while stack:
            self.pre = stack.pop()
            self.k, self.trail = 0, []
            self.pc = list(saved[3])
            self.in_sub = nh
            try:
                try:
                    v = thunk()
                except PyRaise as e:
                    v = e
                out.append((self.pc[base:], v))
            except Stop:
                pass
            for i in range(len(self.pre), len(self.trail)):
                c, n = self.trail[i]
                for alt in range(c + 1, n):
                    stack.append([x for x, _ in self.trail[:i]] + [alt])
            if len(out) > 200:
                raise Unsupported("too many paths in an expression")
        self.pre, self.k, self.trail, self.pc, self.in_sub = saved
        return out

    in_sub = None

    def choose(self, n):
        if self.k < len(self.pre):
            c = self.pre[self.k]
        else:
            c = 0
        self.k += 1
        self.trail.append((c, n))
        return c

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.pc.append(f)

    def branch(self, c):
        """Truth of a condition on this path."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.k < len(self.pre):
            b = self.choose(2) == 0
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f:
                raise Stop()
            if not f:
                # only one side: no fork, but keep the count stable
                self.trail.append((0, 1))
                self.k += 1
                b = True
            elif not t:
                self.trail.append((1, 2))
                self.k += 1
                b = False
            else:
                b = self.choose(2) == 0
        self.pc.append(c if b else z3.Not(c))
        return b

    def fresh(self, sort, hint):
        # numbered along the path: the same decision prefix gives the same
        return z3.Const("%s!%d" % (hint, next(self.nfresh)), sort)

    def alloc(self, o):
        o.no = len(self.heap)
        self.heap.append(o)

    def touch(self, o):
        """A heap object is modified."""
        if self.in_sub is not None and o.no < self.in_sub:
            raise Unsupported("side effect inside a comprehension")
        for loop, objs, nheap in self.havocs:
            if o.no < nheap and o.no not in objs:
                self.frames.setdefault(loop, set()).add(o.no)
                self.dead.clear()
                raise Restart()

    def event(self, *e):
        if self.in_sub is not None:
            raise Unsupported("effect inside a comprehension")
        if any(True for _ in self.havocs):
            raise Unsupported("effect inside a loop of unknown length")
        self.events.append(e)

    # -- values
    def s(self, text):
        """A literal as a Name."""
        if text not in self.strings:
            self.strings[text] = z3.Const("str:" + text, Name)
            self.str_ax = [z3.Distinct(*self.strings.values())] \
                if len(self.strings) > 1 else []
        return self.strings[text]

    def z(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, str):
            return self.s(v)
        if z3.is_expr(v):
            return v
        if hasattr(v, "term"):
            return v.term
        raise Unsupported("no term for %r" % (v,))

    def isint(self, v):
        return (isinstance(v, int) and not isinstance(v, bool)) or (
            z3.is_expr(v) and v.sort() == z3.IntSort())

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, str, tuple, list)):
            return bool(v)
        if z3.is_expr(v):
            if z3.is_bool(v):
                return self.branch(v)
            if v.sort() == z3.IntSort():
                return self.branch(v != 0)
            raise Unsupported("truth of a name")
        if isinstance(v, Obj):
            return v.truth(self)
        raise Unsupported("truth of %r" % (v,))

    def index(self, k, n):
        """Normalised index, IndexError path included."""
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise PyRaise(Exc(IndexError, []))
            return k % n if n else k
        if not self.isint(k):
            raise Unsupported("index %r" % (k,))
        k, n = self.z(k), self.z(n)
        if not self.branch(z3.And(k >= -n, k < n)):
            raise PyRaise(Exc(IndexError, []))
        if self.branch(k < 0):
            return k + n
        return k

    def seq(self, v):
        if isinstance(v, (list, tuple)):
            return seq_of(v)
        if isinstance(v, range):
            return seq_of(list(v))
        if isinstance(v, Obj):
            return v.seq(self)
        raise Unsupported("iteration over %r" % (v,))

    def eq(self, a, b):
        """Python ==, as a bool or a z3 Bool."""
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Obj):
                return o.eq(self, None)
            return a is None and b is None
        if isinstance(a, Obj):
            return a.eq(self, b)
        if isinstance(b, Obj):
            return b.eq(self, a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = [self.eq(x, y) for x, y in zip(a, b)]
            if all(isinstance(x, bool) for x in r):
                return all(r)
            return z3.And(*[self.z(x) for x in r])
        if z3.is_expr(a) or z3.is_expr(b):
            x, y = self.z(a), self.z(b)
            if x.sort() != y.sort():
                raise Unsupported("== between %s and %s"
                                  % (x.sort(), y.sort()))
            return x == y
        return a == b

    # -- calls
    def deco(self, fn, d):
        v = self.eval(d, dict(), fn.module, None)
        real = getattr(v, "real", None)
        if real is not None and getattr(real, "__name__", "") == \
                "contextmanager":
            return "contextmanager"
        if real in (staticmethod, classmethod, property):
            return real.__name__
        raise Unsupported("decorator")

    def bind(self, node, args, kw, frame, module):
        a = node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for p in pos:
            if args:
                loc[p] = args.pop(0)
        if args:
            if not a.vararg:
                raise PyRaise(Exc(TypeError, []))
            loc[a.vararg.arg] = tuple(args)
        elif a.vararg:
            loc[a.vararg.arg] = ()
        kw = dict(kw)
        for p in [x.arg for x in a.args + a.kwonlyargs]:
            if p in kw:
                if p in loc:
                    raise PyRaise(Exc(TypeError, []))
                loc[p] = kw.pop(p)
        if a.kwarg:
            loc[a.kwarg.arg] = PyDict(self, kw)
        elif kw:
            raise PyRaise(Exc(TypeError, []))
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p not in loc:
                loc[p] = self.eval(d, {}, module, None)
        for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if p not in loc and d is not None:
                loc[p] = self.eval(d, {}, module, None)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in loc:
                raise PyRaise(Exc(TypeError, []))
        return loc

    depth = 0

    def apply(self, fn, args, kw, yielder=None):
        if self.depth > 12:
            raise Unsupported("recursion")
        loc = self.bind(fn.node, args, kw, fn.frame, fn.module)
        loc["$outer"] = fn.frame
        loc["$owner"] = fn.owner
        loc["$self"] = args[0] if args else None
        if yielder:
            loc["$yield"] = yielder
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, loc, fn.module, fn)
            self.block(fn.node.body, loc, fn.module)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def lift(self, real, module):
        """The value standing for a real Python object."""
        try:
            if real in self.models:
                return self.models[real]
        except TypeError:
            pass
        if real is None or isinstance(real, (bool, int, str)):
            return real
        if isinstance(real, tuple) and all(
                isinstance(x, (bool, int, str)) for x in real):
            return real
        if isinstance(real, type) and issubclass(real, BaseException):
            return ExcClass(real)
        if inspect.isfunction(real) and \
                real.__module__ == module.mod.__name__:
            inner = inspect.unwrap(real)
            node = module.funcs.get(inner.__qualname__)
            if node is not None:
                return UserFunc(node, None, module)
        try:
            b = BUILTINS.get(real)
        except TypeError:
            b = None
        if b is not None:
            return b
        if inspect.ismodule(real):
            return ModObj(real, module)
        raise Unsupported("no contract for %r" % (real,))

    # -- expressions
    def lookup(self, n, loc, module):
        f = loc
        while f is not None:
            if n in f:
                if isinstance(f[n], Poison):
                    raise Unsupported("value carried round a loop")
                return f[n]
            f = f.get("$outer")
        if hasattr(module.mod, n):
            return self.lift(getattr(module.mod, n), module)
        import builtins
        if hasattr(builtins, n):
            return self.lift(getattr(builtins, n), module)
        raise PyRaise(Exc(NameError, [n]))

    def eval(self, e, loc, M, fn=None):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression " + type(e).__name__)
        return f(e, loc, M)

    def e_Constant(self, e, loc, M):
        if e.value is Ellipsis or isinstance(e.value, (float, bytes)):
            raise Unsupported("constant")
        return e.value

    def e_Name(self, e, loc, M):
        return self.lookup(e.id, loc, M)

    def e_NamedExpr(self, e, loc, M):
        v = self.eval(e.value, loc, M)
        loc[e.target.id] = v
        return v

    def e_Attribute(self, e, loc, M):
        return self.getattr(self.eval(e.value, loc, M), e.attr)

    def getattr(self, o, n):
        if isinstance(o, Obj):
            return o.getattr(self, n)
        if z3.is_expr(o) and o.sort() == Name or isinstance(o, str):
            if n in ("upper", "lower"):
                f = upper_f if n == "upper" else lower_f
                if isinstance(o, str):
                    return Fn(lambda ex: getattr(o, n)())
                return Fn(lambda ex: f(o))
            if n == "format" and isinstance(o, str):
                return Fn(lambda ex, *a, **kw: ex.format(o, a, kw))
        raise Unsupported("attribute %s of %r" % (n, o))

    def e_Subscript(self, e, loc, M):
        o = self.eval(e.value, loc, M)
        k = self.eval(e.slice, loc, M)
        return self.getitem(o, k)

    def e_Slice(self, e, loc, M):
        g = lambda x: None if x is None else self.eval(x, loc, M)  # noqa
        return slice(g(e.lower), g(e.upper), g(e.step))

    def getitem(self, o, k):
        if isinstance(o, Obj):
            return o.getitem(self, k)
        if isinstance(o, (tuple, list)):
            return ListObj(self, list(o)).getitem(self, k)
        raise Unsupported("subscript of %r" % (o,))

    def e_Tuple(self, e, loc, M):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.eval(x.value, loc, M))
                if not hasattr(s, "vals"):
                    raise Unsupported("star")
                out += s.vals
            else:
                out.append(self.eval(x, loc, M))
        return tuple(out)

    def e_List(self, e, loc, M):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(self.seq(self.eval(x.value, loc, M)))
            else:
                parts.append(seq_of([self.eval(x, loc, M)]))
        if all(hasattr(p, "vals") for p in parts):
            return ListObj(self, [v for p in parts for v in p.vals])
        r = parts[0]
        for p in parts[1:]:
            r = concat(self, r if isinstance(r, Seq) else r.seq(self), p)
        return r

    def e_Dict(self, e, loc, M):
        d = PyDict(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, loc, M)
                if not isinstance(o, PyDict):
                    raise Unsupported("**")
                d.d.update(o.d)
            else:
                kk = self.eval(k, loc, M)
                d.setitem(self, kk, self.eval(v, loc, M))
        if not e.keys:
            return self.new_dict()
        return d

    def new_dict(self):
        return PyDict(self)

    def e_JoinedStr(self, e, loc, M):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            elif p.conversion != -1 or p.format_spec is not None:
                parts.append((Opaque("formatted"),))
            else:
                parts.append((self.eval(p.value, loc, M),))
        return self.fstring(parts)

    def fstring(self, parts):
        """Text made of literals and (value,) placeholders."""
        tmpl = ""
        args = []
        for p in parts:
            if isinstance(p, str):
                tmpl += p.replace("{", "{{")
                continue
            v = p[0]
            if isinstance(v, str) and "{" not in v:
                tmpl += v
                continue
            if isinstance(v, int) and not isinstance(v, bool):
                tmpl += str(v)
                continue
            tmpl += "{}"
            args.append(v)
        if not args:
            return tmpl.replace("{{", "{")
        if all(z3.is_expr(a) and a.sort() in (Name, z3.IntSort())
               for a in args):
            return self.template(tmpl, args)
        return Opaque("message")

    def text_parts(self, v):
        """The parts fstring() made v of; None for anything else."""
        if isinstance(v, str):
            return [v]
        if not z3.is_expr(v) or v.sort() != Name:
            return None
        n = v.decl().name()
        if not n.startswith("fmt:"):
            return [(v,)]
        out, args = [], list(v.children())
        for i, t in enumerate(n[4:].replace("{{", "\0").split("{}")):
            if i:
                out.append((args[i - 1],))
            out.append(t.replace("\0", "{"))
        return out

    def format(self, text, args, kw):
        """str.format with plain fields."""
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(text):
            parts.append(lit)
            if field is None:
                continue
            if spec or conv:
                return Opaque("message")
            if field == "":
                field, auto = str(auto), auto + 1
            try:
                parts.append((args[int(field)] if field.isdigit()
                              else kw[field],))
            except (IndexError, KeyError):
                raise Unsupported("format field")
        return self.fstring(parts)

    def percent(self, text, arg):
        """text % arg with %s and %d only."""
        args = list(arg.vals) if hasattr(arg, "vals") else [arg]
        if isinstance(arg, tuple):
            args = list(arg)
        bits = re.split(r"%([sd%])", text)
        if any("%" in b for b in bits[::2]) or \
                sum(b != "%" for b in bits[1::2]) != len(args):
            return Opaque("message")
        parts = []
        for i, b in enumerate(bits):
            if i % 2 == 0:
                parts.append(b)
            elif b == "%":
                parts.append("%")
            else:
                v = args.pop(0)
                if b == "d" and not self.isint(v):
                    return Opaque("message")
                parts.append((v,))
        return self.fstring(parts)

    def template(self, tmpl, args):
        f = z3.Function("fmt:" + tmpl, *[a.sort() for a in args], Name)
        return f(*args)

    def e_IfExp(self, e, loc, M):
        if self.truth(self.eval(e.test, loc, M)):
            return self.eval(e.body, loc, M)
        return self.eval(e.orelse, loc, M)

    def e_BoolOp(self, e, loc, M):
        for x in e.values[:-1]:
            v = self.eval(x, loc, M)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v if not (z3.is_expr(v) and z3.is_bool(v)) else t
        return self.eval(e.values[-1], loc, M)

    def e_UnaryOp(self, e, loc, M):
        v = self.eval(e.operand, loc, M)
        if isinstance(e.op, ast.Not):
            if z3.is_expr(v) and z3.is_bool(v):
                return z3.Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and self.isint(v):
            return -v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, loc, M):
        return self.binop(e.op, self.eval(e.left, loc, M),
                          self.eval(e.right, loc, M))

    def binop(self, op, a, b):
        if hasattr(a, "binop"):
            return a.binop(self, op, b)
        if isinstance(op, ast.Mult) and hasattr(b, "binop"):
            return b.binop(self, op, a)
        if isinstance(op, ast.Add) and isinstance(a, Seq):
            return concat(self, a, self.seq(b))
        if isinstance(op, ast.Add):
            pa, pb = self.text_parts(a), self.text_parts(b)
            if pa is not None and pb is not None and not (
                    isinstance(a, str) and isinstance(b, str)):
                return self.fstring(pa + pb)
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            if isinstance(a, str) and isinstance(b, str) and \
                    isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return self.percent(a, b)
            if isinstance(op, ast.Mod) or (
                    isinstance(a, Opaque) or isinstance(b, Opaque)):
                return Opaque("message")
        if self.isint(a) and self.isint(b):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(a, int) and isinstance(b, int):
                import operator
                f = {ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
                     ast.LShift: operator.lshift, ast.RShift:
                     operator.rshift, ast.BitAnd: operator.and_, ast.BitOr:
                     operator.or_, ast.BitXor: operator.xor,
                     ast.Pow: operator.pow}.get(type(op))
                if f:
                    return f(a, b)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and \
                    isinstance(b, int) and b > 0:
                # z3's div and mod are Euclidean: the same for a divisor > 0
                return a / b if isinstance(op, ast.FloorDiv) else a % b
        raise Unsupported("operator %s" % type(op).__name__)

    def e_Compare(self, e, loc, M):
        left = self.eval(e.left, loc, M)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, loc, M)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True if out == [] else out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.eq(a, b)
            if isinstance(op, ast.Eq):
                return c
            return not c if isinstance(c, bool) else z3.Not(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                c = a is None and b is None
            elif isinstance(a, Obj) and isinstance(b, Obj):
                c = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                c = a is b
            else:
                raise Unsupported("is")
            return c if isinstance(op, ast.Is) else not c
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Obj) and not isinstance(b, (Seq, ListObj)):
                c = b.contains(self, a)
            elif isinstance(b, (tuple, list)) or hasattr(
                    self.seq(b), "vals"):
                vals = list(b) if isinstance(b, (tuple, list)) \
                    else self.seq(b).vals
                r = [self.eq(a, x) for x in vals]
                c = any(r) if all(isinstance(x, bool) for x in r) else \
                    z3.Or(*[self.z(x) for x in r])
            else:
                s = self.seq(b)
                if isinstance(a, Obj):
                    raise Unsupported("in")
                j = z3.Int("j!in")
                c = z3.Exists([j], z3.And(j >= 0, j < self.z(s.n),
                                          self.z(s.at(j)) == self.z(a)))
            if isinstance(op, ast.In):
                return c
            return not c if isinstance(c, bool) else z3.Not(c)
        if self.isint(a) and self.isint(b):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[
                        type(op)]()
        raise Unsupported("comparison")

    def e_Lambda(self, e, loc, M):
        return UserFunc(e, loc, M)

    def e_GeneratorExp(self, e, loc, M):
        return GenExp(self, e, loc, M)

    def e_ListComp(self, e, loc, M):
        g = GenExp(self, e, loc, M)
        r = g.tolist(self)
        if isinstance(r, Seq) and isinstance(e.elt, ast.Constant) \
                and type(e.elt.value) is int:
            n = self.z(r.n)
            return ListObj(self, n=z3.If(n >= 0, n, z3.IntVal(0)),
                           arr=z3.K(z3.IntSort(), z3.IntVal(e.elt.value)))
        return r

    def e_Call(self, e, loc, M):
        # super().__init__(...)
        f = self.eval_callee(e.func, loc, M)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.seq(self.eval(a.value, loc, M))
                if not hasattr(s, "vals"):
                    raise Unsupported("*args")
                args += s.vals
            else:
                args.append(self.eval(a, loc, M))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, loc, M)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported("**kwargs")
                for kk, vv in v.d.items():
                    if kk in kw:
                        raise PyRaise(Exc(TypeError, []))
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def eval_callee(self, e, loc, M):
        if isinstance(e, ast.Name) and e.id == "super" and "super" not in loc:
            f = loc
            while f is not None and f.get("$self") is None:
                f = f.get("$outer")
            if f is None:
                raise Unsupported("super")
            return Fn(lambda ex, *a: f["$self"].super(ex))
        return self.eval(e, loc, M)

    def call(self, f, args, kw):
        if not isinstance(f, Obj):
            raise Unsupported("call of %r" % (f,))
        if isinstance(f, Fn):
            try:
                inspect.signature(f.f).bind(self, *args, **kw)
            except TypeError as e:
                raise Unsupported("call outside the contract of %s: %s"
                                  % (f.name, e))
        return f.call(self, args, kw)

    # -- statements
    def block(self, body, loc, M):
        for s in body:
            self.stmt(s, loc, M)

    def stmt(self, s, loc, M):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None:
            raise Unsupported("statement " + type(s).__name__)
        f(s, loc, M)

    def s_Pass(self, s, loc, M):
        pass

    def s_Expr(self, s, loc, M):
        if isinstance(s.value, ast.Yield):
            f = loc
            while f is not None and "$yield" not in f:
                f = f.get("$outer")
            if f is None:
                raise Unsupported("yield")
            v = None if s.value.value is None else \
                self.eval(s.value.value, loc, M)
            f["$yield"](v)
            return
        self.eval(s.value, loc, M)

    def s_Assert(self, s, loc, M):
        if not self.truth(self.eval(s.test, loc, M)):
            raise PyRaise(Exc(AssertionError, []))

    def s_Return(self, s, loc, M):
        raise Ret(None if s.value is None else self.eval(s.value, loc, M))

    def s_Break(self, s, loc, M):
        raise Brk()

    def s_Continue(self, s, loc, M):
        raise Cont()

    def s_Raise(self, s, loc, M):
        if s.exc is None:
            cur = loc.get("$exc")
            if cur is None:
                raise Unsupported("raise without an exception")
            raise PyRaise(cur)
        v = self.eval(s.exc, loc, M)
        if isinstance(v, ExcClass):
            v = Exc(v.cls, [])
        if not isinstance(v, Exc):
            raise Unsupported("raise")
        raise PyRaise(v)

    def s_If(self, s, loc, M):
        if self.truth(self.eval(s.test, loc, M)):
            self.block(s.body, loc, M)
        else:
            self.block(s.orelse, loc, M)

    def s_FunctionDef(self, s, loc, M):
        loc[s.name] = UserFunc(s, loc, M)

    def s_Assign(self, s, loc, M):
        v = self.eval(s.value, loc, M)
        for t in s.targets:
            self.assign(t, v, loc, M)

    def s_AnnAssign(self, s, loc, M):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, loc, M), loc, M)

    def s_AugAssign(self, s, loc, M):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, loc, M)
            new = self.iop(s.op, old, self.eval(s.value, loc, M))
            self.store(t.id, new, loc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, loc, M)
            old = self.getattr(o, t.attr)
            new = self.iop(s.op, old, self.eval(s.value, loc, M))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, loc, M)
            k = self.eval(t.slice, loc, M)
            new = self.iop(s.op, self.getitem(o, k),
                           self.eval(s.value, loc, M))
            o.setitem(self, k, new)
        else:
            raise Unsupported("augmented assignment")

    def iop(self, op, a, b):
        if isinstance(a, Obj) and hasattr(a, "iop"):
            return a.iop(self, op, b)
        if isinstance(a, (ListObj, PyDict)):
            raise Unsupported("in-place operator on a container")
        return self.binop(op, a, b)

    def setattr(self, o, n, v):
        if not isinstance(o, Obj):
            raise Unsupported("attribute assignment")
        o.setattr(self, n, v)

    def store(self, n, v, loc):
        if n in loc.get("$nonlocal", ()):
            while n not in loc or n in loc.get("$nonlocal", ()):
                loc = loc["$outer"]
            for f, names in self.cuts:
                if f is not loc or n not in names:
                    raise Unsupported("nonlocal in a loop")
            if self.in_sub is not None:
                raise Unsupported("side effect inside a comprehension")
        loc[n] = v

    def s_Nonlocal(self, s, loc, M):
        loc["$nonlocal"] = loc.get("$nonlocal", frozenset()) | set(s.names)

    def assign(self, t, v, loc, M):
        if isinstance(t, ast.Name):
            self.store(t.id, v, loc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred target")
            if isinstance(v, (tuple, list)):
                vals = list(v)
            else:
                sq = self.seq(v)
                if hasattr(sq, "vals"):
                    vals = sq.vals
                else:
                    k = len(t.elts)
                    if not self.branch(self.z(sq.n) == k):
                        raise PyRaise(Exc(ValueError, []))
                    vals = [sq.at(i) for i in range(k)]
            if len(vals) != len(t.elts):
                raise PyRaise(Exc(ValueError, []))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, loc, M)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, loc, M), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, loc, M)
            k = self.eval(t.slice, loc, M)
            if not isinstance(o, Obj):
                raise Unsupported("item assignment")
            o.setitem(self, k, v)
        else:
            raise Unsupported("assignment target")

    def s_Try(self, s, loc, M):
        def inner():
            try:
                self.block(s.body, loc, M)
            except PyRaise as e:
                for h in s.handlers:
                    if self.matches(h, e.exc, loc, M):
                        old = loc.get("$exc")
                        if h.name:
                            loc[h.name] = e.exc
                        loc["$exc"] = e.exc
                        try:
                            self.block(h.body, loc, M)
                        finally:
                            loc["$exc"] = old
                        return
                raise
            self.block(s.orelse, loc, M)
        if not s.finalbody:
            return inner()
        try:
            inner()
        except (PyRaise, Ret, Brk, Cont):
            self.block(s.finalbody, loc, M)
            raise
        self.block(s.finalbody, loc, M)

    def matches(self, h, exc, loc, M):
        if h.type is None:
            return True
        v = self.eval(h.type, loc, M)
        vs = v if isinstance(v, tuple) else (v,)
        if not all(isinstance(x, ExcClass) for x in vs):
            raise Unsupported("except clause")
        return any(issubclass(exc.cls, x.cls) for x in vs)

    def s_With(self, s, loc, M):
        self.with_items(s, 0, loc, M)

    def with_items(self, s, i, loc, M):
        if i == len(s.items):
            return self.block(s.body, loc, M)
        it = s.items[i]
        cm = self.eval(it.context_expr, loc, M)
        if isinstance(cm, GenCM):
            ran = []

            def body(v):
                if ran:
                    raise Unsupported("second yield")
                ran.append(1)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, loc, M)
                try:
                    self.with_items(s, i + 1, loc, M)
                except (Ret, Brk, Cont):
                    raise Unsupported("jump out of with")
            self.apply(cm.fn, cm.args, cm.kw, yielder=body)
            if not ran:
                raise PyRaise(Exc(RuntimeError, []))
            return
        v = cm.enter(self)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, loc, M)
        try:
            self.with_items(s, i + 1, loc, M)
        except (PyRaise, Ret, Brk, Cont):
            cm.exit(self)
            raise
        cm.exit(self)

    # -- loops
    def s_While(self, s, loc, M):
        for _ in range(64):
            c = self.eval(s.test, loc, M)
            if z3.is_expr(c) and not z3.is_true(z3.simplify(c)) and \
                    not z3.is_false(z3.simplify(c)):
                raise Unsupported("while with a symbolic condition")
            if not self.truth(c):
                self.block(s.orelse, loc, M)
                return
            try:
                self.block(s.body, loc, M)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported("while: too many iterations")

    def s_For(self, s, loc, M):
        it = self.eval(s.iter, loc, M)
        seq = self.seq(it)
        if isinstance(it, Iter):
            it.pos = it.pos + self.z(seq.n) if not isinstance(
                seq.n, int) else it.pos + seq.n
            self.touch(it)
        if hasattr(seq, "vals"):
            for v in list(seq.vals):
                self.assign(s.target, v, loc, M)
                try:
                    self.block(s.body, loc, M)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, loc, M)
            return
        kind = self.searches(s, loc)
        if kind:
            return self.search(s, kind, seq, loc, M)
        self.cut(s, seq, loc, M)

    def searches(self, s, loc):
        """Is this a search: a loop that in each iteration either changes
        nothing, or leaves ("final") or sets one flag ("flag")?"""
        own = self.assigned([s.target])
        flags, jumps, kinds = {}, [], set()

        def ok(body):
            for x in body:
                if isinstance(x, ast.If):
                    if not ok(x.body) or not ok(x.orelse):
                        return False
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        names = t.elts if isinstance(t, ast.Tuple) else [t]
                        if not all(isinstance(n, ast.Name) for n in names):
                            return False
                        for n in names:
                            if n.id in own:
                                return False
                            if n.id in loc and not isinstance(
                                    loc[n.id], Poison):
                                if not isinstance(x.value, ast.Constant) \
                                        or n is not t:
                                    return False
                                flags.setdefault(n.id, set()).add(
                                    repr(x.value.value))
                elif isinstance(x, (ast.Break, ast.Return, ast.Raise)):
                    jumps.append(x)
                elif isinstance(x, ast.Expr):
                    if not isinstance(x.value, ast.Constant):
                        return False
                elif not isinstance(x, (ast.Pass, ast.Continue)):
                    return False
            return True
        if not ok(s.body):
            return None
        for x in ast.walk(ast.Module(s.body, [])):
            if isinstance(x, (ast.NamedExpr, ast.Lambda, ast.Await,
                              ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) \
                    and x.id in flags:
                return None
        if len(flags) > 1 or any(len(v) > 1 for v in flags.values()):
            return None
        if not flags:
            kinds = {"final"} if jumps else set()
        else:
            # a flag is set and the loop left, everywhere or nowhere
            kinds = {"flag"} if not jumps else {"final"}
            if jumps and not self.leaves(s.body, set(flags)):
                return None
        return kinds.pop() if kinds else None

    def leaves(self, body, flags):
        """Every assignment of a flag is followed by a jump at once."""
        for i, x in enumerate(body):
            if isinstance(x, ast.If):
                if not self.leaves(x.body, flags) or \
                        not self.leaves(x.orelse, flags):
                    return False
            elif isinstance(x, ast.Assign) and self.assigned([x]) & flags:
                rest = body[i + 1:]
                if not rest or not isinstance(
                        rest[0], (ast.Break, ast.Return, ast.Raise)):
                    return False
        return True

    def search(self, s, kind, seq, loc, M):
        g = Search(self, s, kind, seq, loc, M)
        hit = g.quant(self, False)
        mine = self.assigned(s.body) | self.assigned([s.target])
        had = {v for v in self.assigned(s.body)
               if v in loc and not isinstance(loc[v], Poison)}
        if hit:
            try:
                self.assign(s.target, seq.at(g.j), loc, M)
                self.block(s.body, loc, M)
                left = False
            except Cont:
                left = False
            except Brk:
                left = True
            if left != (kind == "final"):
                raise Stop()        # not what was found at this element
            if left:
                return
        for v in mine - had:
            loc[v] = Poison()
        self.block(s.orelse, loc, M)

    def assigned(self, nodes):
        out = set()
        for n in nodes:
            for x in [n] + list(ast.walk(n)):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    raise Unsupported("nonlocal")
        return out

    def shared(self, loc):
        """Locals that functions defined here may assign."""
        out = set()
        for f in loc.values():
            if isinstance(f, UserFunc):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Nonlocal):
                        out |= set(x.names) & set(loc)
        return out

    def cut(self, s, seq, loc, M):
        """A loop over a sequence of unknown length."""
        n = self.z(seq.n)
        key = (s.lineno, s.col_offset)
        mods = self.assigned(s.body) | self.assigned([s.target]) \
            | self.shared(loc)
        entry = {v: loc.get(v) for v in mods if v in loc}
        frame = self.frames.setdefault(key, set())
        objs = [o for o in self.heap if o.no in frame]
        ent_objs = {o.no: snap(o) for o in objs}
        ctx = LoopCtx(self, key, seq, n, loc, entry, objs, ent_objs)
        cands = self.loop_cands(ctx) if self.loop_cands else []
        # entry
        ctx.i = z3.IntVal(0)
        ctx.at_entry = True
        for c in cands:
            self.cand_check(key, c, ctx)
        ctx.at_entry = False
        i = self.fresh(z3.IntSort(), "i")
        for o in objs:
            o.havoc(self)
        for v in mods:
            loc[v] = self.havoc_local(entry[v], ctx, i) if v in entry \
                else Poison()
        ctx.i = i
        branch = self.choose(2)
        self.assume(i >= 0)
        if branch == 0:         # arbitrary iteration
            self.assume(i < n)
            self.inv(key, cands, ctx)
            nh = len(self.heap)
            self.havocs.append((key, frame, nh))
            self.cuts.append((loc, mods))
            self.assign(s.target, seq.at(i), loc, M)
            try:
                self.block(s.body, loc, M)
            except Cont:
                pass
            except Brk:
                self.havocs.pop()
                self.cuts.pop()
                return
            self.havocs.pop()
            self.cuts.pop()
            ctx.i = i + 1
            for c in cands:
                self.cand_check(key, c, ctx)
            raise Stop()
        self.assume(i == n)
        self.inv(key, cands, ctx)
        self.block(s.orelse, loc, M)

    def inv(self, key, cands, ctx):
        for c in cands:
            if (key, c[0]) not in self.dead:
                f = c[1](ctx)
                if f is None:
                    continue
                self.assume(f)

    def cand_check(self, key, c, ctx):
        if (key, c[0]) in self.dead:
            return
        try:
            f = c[1](ctx)
        except Unsupported:
            f = False
        if f is None:
            return
        if f is True:
            return
        if f is not False:
            r, _ = self.valid(f, RLIMIT // 4)
            if r == "proved":
                self.cand_proved = getattr(self, "cand_proved", 0) + 1
                return
        self.dead[(key, c[0])] = True
        raise Restart()

    def havoc_local(self, v, ctx, i):
        if isinstance(v, bool):
            return self.fresh(z3.BoolSort(), "b")
        if self.isint(v):
            return self.fresh(z3.IntSort(), "n")
        if z3.is_expr(v):
            return self.fresh(v.sort(), "v")
        if isinstance(v, Obj) and hasattr(v, "havoc_value"):
            return v.havoc_value(self, ctx, i)
        if isinstance(v, Obj) and hasattr(v, "no"):
            raise Unsupported("loop rebinds a container")
        return Poison()


class Poison(Obj):
    """A forgotten value: using it is unsupported."""

    def truth(self, ex):
        raise Unsupported("value carried round a loop")

    def eq(self, ex, o):
        raise Unsupported("value carried round a loop")


def snap(o):
    return dict(o.__dict__)


class LoopCtx:
    def __init__(self, ex, key, seq, n, loc, entry, objs, ent_objs):
        self.ex, self.key, self.seq, self.n = ex, key, seq, n
        self.loc, self.entry = loc, entry
        self.objs, self.ent_objs = objs, ent_objs
        self.i = None


class GenExp(Obj):
    def __init__(self, ex, e, loc, M):
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise Unsupported("nested comprehension")
        self.e, self.loc, self.M = e, loc, M
        self.s = ex.seq(ex.eval(e.generators[0].iter, loc, M))

    def cases(self, ex, j):
        """[(conditions, included, value | PyRaise)] for element j."""
        g = self.e.generators[0]

        def thunk():
            loc = {"$outer": self.loc}
            for k in ("$owner", "$self"):
                loc[k] = self.loc.get(k)
            ex.assign(g.target, self.s.at(j), loc, self.M)
            for c in g.ifs:
                if not ex.truth(ex.eval(c, loc, self.M)):
                    return None
            return (ex.eval(self.e.elt, loc, self.M),)
        return ex.sub(thunk)

    def quant(self, ex, want):
        """all (want=True) / any (want=False)."""
        if hasattr(self.s, "vals"):
            for k in range(len(self.s.vals)):
                g = self.e.generators[0]
                loc = {"$outer": self.loc}
                ex.assign(g.target, self.s.vals[k], loc, self.M)
                if all(ex.truth(ex.eval(c, loc, self.M)) for c in g.ifs):
                    if ex.truth(ex.eval(self.e.elt, loc, self.M)) != want:
                        return not want
            return want
        n = ex.z(self.s.n)

        def split(j):
            good, bad, exc = [], [], []
            for conds, v in self.cases(ex, j):
                c = z3.And(*conds) if conds else z3.BoolVal(True)
                if isinstance(v, PyRaise):
                    exc.append((c, v))
                elif v is None:
                    good.append(c)
                else:
                    for cc, b in ex.sub(lambda: ex.truth(v[0])):
                        k = z3.And(c, *cc)
                        if isinstance(b, PyRaise):
                            exc.append((k, b))
                        elif b == want:
                            good.append(k)
                        else:
                            bad.append(k)
            return good, bad, exc
        j = self.j = ex.fresh(z3.IntSort(), "j")
        rng = z3.And(j >= 0, j < n)
        ex.pc.append(rng)
        good, bad, exc = split(j)
        ex.pc.pop()
        r = ex.choose(2 + len(exc))
        if r == 0:
            # fresh constants made while looking at element j cannot be
            # generalised over j
            f = z3.Or(*good) if good else z3.BoolVal(False)
            if len(split_consts(f, j, ex)):
                raise Unsupported("comprehension body with fresh values")
            q = z3.Int("q!%s" % j)
            ex.assume(z3.ForAll([q], z3.Implies(
                z3.substitute(rng, (j, q)), z3.substitute(f, (j, q)))))
            return want
        ex.assume(rng)
        if r == 1:
            ex.assume(z3.Or(*bad) if bad else z3.BoolVal(False))
            out = not want
        else:
            c, out = exc[r - 2]
            ex.assume(c)
        if not ex.feasible(z3.BoolVal(True)):
            raise Stop()
        if isinstance(out, PyRaise):
            raise PyRaise(out.exc)
        return out

    def tolist(self, ex):
        g = self.e.generators[0]
        if hasattr(self.s, "vals"):
            out = []
            for v in self.s.vals:
                loc = {"$outer": self.loc}
                ex.assign(g.target, v, loc, self.M)
                if all(ex.truth(ex.eval(c, loc, self.M)) for c in g.ifs):
                    out.append(ex.eval(self.e.elt, loc, self.M))
            return ListObj(ex, out)
        if g.ifs:
            raise Unsupported("filtered comprehension")
        j = ex.fresh(z3.IntSort(), "j")
        rng = z3.And(j >= 0, j < ex.z(self.s.n))
        ex.pc.append(rng)
        exc = [(c, v) for c, v in self.cases(ex, j)
               if isinstance(v, PyRaise)]
        ex.pc.pop()
        r = ex.choose(1 + len(exc))
        if r:
            ex.assume(rng)
            ex.assume(z3.And(*exc[r - 1][0]))
            if not ex.feasible(z3.BoolVal(True)):
                raise Stop()
            raise PyRaise(exc[r - 1][1].exc)

        def at(i):
            loc = {"$outer": self.loc}
            ex.assign(g.target, self.s.at(i), loc, self.M)
            return ex.eval(self.e.elt, loc, self.M)
        return Seq(self.s.n, at)

    def seq(self, ex):
        r = self.tolist(ex)
        return r.seq(ex)


class Search(GenExp):
    """any(the iteration does something for x in the sequence)."""

    def __init__(self, ex, s, kind, seq, loc, M):
        self.st, self.kind = s, kind
        self.s, self.loc, self.M = seq, loc, M

    def cases(self, ex, j):
        def thunk():
            loc = {"$outer": self.loc}
            for k in ("$owner", "$self"):
                loc[k] = self.loc.get(k)
            ex.assign(self.st.target, self.s.at(j), loc, self.M)
            before = dict(loc)
            try:
                ex.block(self.st.body, loc, self.M)
            except Cont:
                pass
            except (Brk, Ret):
                return (True,)
            if self.kind == "final":
                return (False,)
            return (any(k in self.loc and not isinstance(
                self.loc[k], Poison) for k in loc if k not in before),)
        return ex.sub(thunk)


def split_consts(f, j, ex):
    """Constants fresher than j in f."""
    out = set()
    lim = int(str(j).rsplit("!", 1)[1])

    def rec(x, seen):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n and n.rsplit("!", 1)[1].isdigit() and \
                    int(n.rsplit("!", 1)[1]) > lim:
                out.add(n)
        for c in x.children():
            rec(c, seen)
        if z3.is_quantifier(x):
            rec(x.body(), seen)
    rec(f, set())
    return out


# ---------------------------------------------------------------- builtins
def _len(ex, v):
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Obj):
        return v.len(ex)
    raise Unsupported("len")


def _range(ex, *a):
    if all(isinstance(x, int) for x in a):
        return seq_of(list(range(*a)))
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with a step")
    n = ex.z(hi) - lo
    return Seq(z3.If(n >= 0, n, z3.IntVal(0)), lambda i: i + lo)


def _int(ex, v):
    if ex.isint(v):
        return v
    raise Unsupported("int()")


def _enumerate(ex, v, start=0):
    s = ex.seq(v)
    if hasattr(s, "vals"):
        return seq_of([(k + start, x) for k, x in enumerate(s.vals)])
    return Seq(s.n, lambda i: (i + start, s.at(i)))


def _zip(ex, *vs, strict=False):
    ss = [ex.seq(v) for v in vs]
    if all(hasattr(s, "vals") for s in ss):
        return seq_of(list(zip(*[s.vals for s in ss])))
    n = ex.z(ss[0].n)
    for s in ss[1:]:
        m = ex.z(s.n)
        n = z3.If(n <= m, n, m)
    if strict:
        raise Unsupported("strict zip")
    return Seq(n, lambda i: tuple(s.at(i) for s in ss))


def _zip_longest(ex, *vs, fillvalue=None):
    ss = [ex.seq(v) for v in vs]
    if all(hasattr(s, "vals") for s in ss):
        return seq_of(list(itertools.zip_longest(
            *[s.vals for s in ss], fillvalue=fillvalue)))
    n = ex.z(ss[0].n)
    for s in ss[1:]:
        m = ex.z(s.n)
        n = z3.If(n >= m, n, m)

    def at(i):
        out = []
        for s in ss:
            if ex.branch(ex.z(i) < ex.z(s.n)):
                out.append(s.at(i))
            else:
                out.append(fillvalue)
        return tuple(out)
    return Seq(n, at)


def _pairwise(ex, v):
    s = ex.seq(v)
    n = ex.z(s.n) - 1
    return Seq(z3.If(n >= 0, n, z3.IntVal(0)),
               lambda i: (s.at(i), s.at(i + 1)))


def _tee(ex, v, n=2):
    s = ex.seq(v)
    return tuple(Iter(ex, s) for _ in range(n))


def _iter(ex, v):
    return v if isinstance(v, Iter) else Iter(ex, ex.seq(v))


def _next(ex, it, *d):
    if not isinstance(it, Iter):
        raise Unsupported("next")
    return it.next(ex, *d)


def _list(ex, v=()):
    s = ex.seq(v)
    if hasattr(s, "vals"):
        return ListObj(ex, list(s.vals))
    return s


def _dict(ex, *a, **kw):
    if a:
        raise Unsupported("dict() of something")
    if kw:
        return PyDict(ex, kw)
    return ex.new_dict()


def _all(ex, v):
    if isinstance(v, GenExp):
        return v.quant(ex, True)
    s = ex.seq(v)
    if hasattr(s, "vals"):
        for x in s.vals:
            if not ex.truth(x):
                return False
        return True
    raise Unsupported("all")


def _any(ex, v):
    if isinstance(v, GenExp):
        return v.quant(ex, False)
    s = ex.seq(v)
    if hasattr(s, "vals"):
        return any(ex.truth(x) for x in s.vals)
    raise Unsupported("any")


def _sorted(ex, v, key=None, reverse=False):
    if key is not None or reverse:
        raise Unsupported("sorted with a key")
    if hasattr(v, "sorted"):
        return v.sorted(ex)
    s = ex.seq(v)
    if hasattr(s, "vals") and all(isinstance(x, int) for x in s.vals):
        return ListObj(ex, sorted(s.vals))
    if hasattr(s, "sorted"):
        return s.sorted(ex)
    raise Unsupported("sorted")


def _isinstance(ex, v, c):
    if isinstance(v, Obj) and hasattr(v, "isinstance"):
        return v.isinstance(ex, c)
    if v is None and hasattr(c, "real") and isinstance(c.real, type):
        return isinstance(None, c.real)
    raise Unsupported("isinstance")


def _getattr(ex, o, n, *d):
    if not isinstance(n, str):
        raise Unsupported("getattr")
    return ex.getattr(o, n)


def _setattr(ex, o, n, v):
    if not isinstance(n, str):
        raise Unsupported("setattr")
    ex.setattr(o, n, v)


def _minmax(which):
    def f(ex, a, b):
        a, b = ex.z(a), ex.z(b)
        if which == "max":
            return z3.If(a >= b, a, b)
        return z3.If(a <= b, a, b)
    return f


def _bool(ex, v=False):
    return ex.truth(v)


def _str(ex, v=""):
    if isinstance(v, str) or z3.is_expr(v) and v.sort() == Name:
        return v
    if ex.isint(v):
        return ex.fstring([(v,)])
    return Opaque("text")


BUILTINS = {}
for _n, _f in [(len, _len), (range, _range), (int, _int), (all, _all),
               (enumerate, _enumerate), (zip, _zip), (iter, _iter),
               (next, _next), (list, _list), (tuple, _list), (dict, _dict),
               (any, _any), (sorted, _sorted), (isinstance, _isinstance),
               (getattr, _getattr), (max, _minmax("max")), (bool, _bool),
               (min, _minmax("min")), (str, _str),
               (repr, lambda ex, v: Opaque("text")), (setattr, _setattr),
               (itertools.zip_longest, _zip_longest),
               (itertools.tee, _tee), (itertools.pairwise, _pairwise)]:
    BUILTINS[_n] = Fn(_f, getattr(_n, "__name__", ""), _n)
import contextlib  # noqa: E402
BUILTINS[contextlib.contextmanager] = Fn(None, "contextmanager",
                                         contextlib.contextmanager)
BUILTINS[contextlib.ExitStack] = Fn(lambda ex: StackCM(ex), "ExitStack",
                                    contextlib.ExitStack)
BUILTINS[contextlib.nullcontext] = Fn(lambda ex, enter_result=None: NullCM(
    enter_result), "nullcontext", contextlib.nullcontext)
for _n in (staticmethod, classmethod, property):
    BUILTINS[_n] = Fn(None, _n.__name__, _n)
