"""Contracts of the functions of /repo that run in Python itself.

C18  ucoderom.py: UCodeROM.__init__, assemble, _create_mem_init,
     _create_field_layout, _check_and_convert_dynamic_shape,
     _check_and_convert_dynamic_enum, elaborate
C19  gen.py: _main, generate (do_gen), _generate_args, _file_or_stdout

The microcode source is arbitrary: any number of fields, any names, origins,
widths and enumerations, any number of enumerators, any set of assembled
addresses, any field map.  Contracts assumed on libraries are the classes
below whose docstring starts with "assumed".
"""
import ast
import enum
import io
import re
import sys

import env  # noqa: F401
import z3
import pyvc
from pyvc import (Exec, Exc, ExcClass, Fn, ListObj, Module, Name, Obj,
                  Opaque, PyDict, PyRaise, Restart, Ret, Seq, Unsupported,
                  UserFunc, lower_f, upper_f)

Int, Bool = z3.IntSort(), z3.BoolSort()
ShapeS = z3.DeclareSort("Shape")


def F(n, *s):
    return z3.Function(n, *s)


nF = z3.Int("nF")
fname, forigin, fwidth = F("fname", Int, Name), F("forigin", Int, Int), \
    F("fwidth", Int, Int)
fidx, fdom = F("fidx", Name, Int), F("fdom", Name, Bool)
enone, en = F("enum_none", Int, Bool), F("enum_len", Int, Int)
ekey, ev = F("enum_key", Int, Int, Name), F("enum_val", Int, Name, Int)
eidx, edom = F("enum_idx", Int, Name, Int), F("enum_has", Int, Name, Bool)
width, uns, isenum = F("width", ShapeS, Int), F("unsigned", Int, ShapeS), \
    F("isenum", ShapeS, Bool)
mdom, mv = F("member", ShapeS, Name, Bool), F("member_val", ShapeS, Name, Int)
cn, ckey, cidx = F("canon_n", ShapeS, Int), F("canon_key", ShapeS, Int,
                                              Name), \
    F("canon_idx", ShapeS, Name, Int)
fmdom, fmval = F("map_has", Name, Bool), F("map_val", Name, ShapeS)
# assembled words
dn, dkey, dv = z3.Int("dn"), F("data_key", Int, Int), F("data_val", Int, Int)
didx, ddom = F("data_idx", Int, Int), F("data_has", Int, Bool)
skey, sidx = F("sorted_key", Int, Int), F("sorted_idx", Int, Int)
sp_width, sp_size = z3.Int("space_width"), z3.Int("space_size")
nsp = z3.Int("n_spaces")
compat = F("compatible", Int, Bool)     # opened in the callee's proof only

i_, j_, k_ = z3.Int("i"), z3.Int("j"), z3.Int("k")
N_ = z3.Const("N", Name)
S_ = z3.Const("S", ShapeS)


def FA(vs, body, pats=None):
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


def rng(j, n):
    return z3.And(j >= 0, j < n)


AX = [
    nF >= 0, sp_width >= 0, sp_size >= 0, nsp >= 0, dn >= 0,
    # fields: an ordered dictionary (assumed m5meta: key = field.name,
    # non-negative origins and widths)
    FA([i_], z3.Implies(rng(i_, nF), z3.And(
        forigin(i_) >= 0, fwidth(i_) >= 0, fidx(fname(i_)) == i_,
        fdom(fname(i_)))), [fname(i_)]),
    FA([i_], z3.Implies(rng(i_, nF), z3.And(
        forigin(i_) >= 0, fwidth(i_) >= 0)), [forigin(i_)]),
    FA([N_], z3.Implies(fdom(N_), z3.And(
        rng(fidx(N_), nF), fname(fidx(N_)) == N_)), [fdom(N_)]),
    # the enumeration of field i
    FA([i_], en(i_) >= 0, [en(i_)]),
    FA([i_, j_], z3.Implies(rng(j_, en(i_)), z3.And(
        eidx(i_, ekey(i_, j_)) == j_, edom(i_, ekey(i_, j_)))),
       [ekey(i_, j_)]),
    FA([i_, N_], z3.Implies(edom(i_, N_), z3.And(
        rng(eidx(i_, N_), en(i_)), ekey(i_, eidx(i_, N_)) == N_)),
       [edom(i_, N_)]),
    # shapes
    FA([S_], z3.And(width(S_) >= 0), [width(S_)]),
    FA([k_], z3.Implies(k_ >= 0, width(uns(k_)) == k_), [uns(k_)]),
    # Enum classes: iteration visits the members that are not aliases
    FA([S_], cn(S_) >= 0, [cn(S_)]),
    FA([S_, j_], z3.Implies(rng(j_, cn(S_)), z3.And(
        cidx(S_, ckey(S_, j_)) == j_, mdom(S_, ckey(S_, j_)))),
       [ckey(S_, j_)]),
    # assembled words
    FA([j_], z3.Implies(rng(j_, dn), z3.And(
        dkey(j_) >= 0, didx(dkey(j_)) == j_, ddom(dkey(j_)))), [dkey(j_)]),
    FA([k_], z3.Implies(ddom(k_), z3.And(
        rng(didx(k_), dn), dkey(didx(k_)) == k_, k_ >= 0)), [ddom(k_)]),
    FA([j_], z3.Implies(rng(j_, dn), z3.And(
        skey(j_) >= 0, sidx(skey(j_)) == j_, ddom(skey(j_)))), [skey(j_)]),
    FA([k_], z3.Implies(ddom(k_), z3.And(
        rng(sidx(k_), dn), skey(sidx(k_)) == k_)), [ddom(k_)]),
]


def end(i):
    return forigin(i) + fwidth(i)


def gap_free_before(n=nF):
    """The fields come in ascending order of position."""
    return z3.And(z3.Implies(nF > 0, forigin(0) >= 0),
                  FA([i_], z3.Implies(z3.And(i_ >= 0, i_ + 1 < nF),
                                      end(i_) <= forigin(i_ + 1)),
                     [forigin(i_)]))


def isbool(ex, i):
    f, t = ex.s("false"), ex.s("true")
    return z3.And(en(i) == 2, edom(i, f), edom(i, t), ev(i, f) == 0,
                  ev(i, t) == 1)


def strict_enum(ex, i):
    return z3.And(z3.Not(enone(i)), en(i) > 0, z3.Not(isbool(ex, i)))


def compat_def(i):
    s = fmval(fname(i))
    ek, ck = ekey(i, j_), ckey(s, j_)
    return z3.And(
        isenum(s),
        FA([j_], z3.Implies(rng(j_, en(i)), z3.And(
            mdom(s, upper_f(ek)), mv(s, upper_f(ek)) == ev(i, ek))), [ek]),
        FA([j_], z3.Implies(rng(j_, cn(s)), z3.And(
            edom(i, lower_f(ck)), ev(i, lower_f(ck)) == mv(s, ck))), [ck]))


def shape_ok(i):
    return z3.And(fmdom(fname(i)), width(fmval(fname(i))) == fwidth(i))


def mappable(ex, i):
    return z3.And(shape_ok(i), z3.Implies(strict_enum(ex, i), compat(i)))


# ------------------------------------------------------------- values
class ShapeV(Obj):
    def __init__(self, term):
        self.term = term

    def getattr(self, ex, n):
        if n == "width":
            return width(self.term)
        if n == "__members__":
            self._enum(ex)
            return Members(self.term)
        if n in ("__name__", "__qualname__"):
            return Opaque(n)
        return super().getattr(ex, n)

    def _enum(self, ex):
        if not ex.branch(isenum(self.term)):
            raise PyRaise(Exc(TypeError, []))

    def getitem(self, ex, k):
        self._enum(ex)
        k = ex.z(k)
        if not ex.branch(mdom(self.term, k)):
            raise PyRaise(Exc(KeyError, [k]))
        return Member(self.term, k)

    def seq(self, ex):
        self._enum(ex)
        s = self.term
        return Seq(cn(s), lambda j: Member(s, ckey(s, ex.z(j))))

    def eq(self, ex, o):
        if isinstance(o, ShapeV):
            return self.term == o.term
        return super().eq(ex, o)

    def isinstance(self, ex, c):
        if isinstance(c, Real) and c.real in (enum.EnumMeta,):
            return isenum(self.term)
        raise Unsupported("isinstance of a shape")


class Member(Obj):
    def __init__(self, s, k):
        self.s, self.k = s, k

    def getattr(self, ex, n):
        if n == "name":
            return self.k
        if n == "value":
            return mv(self.s, self.k)
        return super().getattr(ex, n)


class Members(Obj):
    def __init__(self, s):
        self.s = s

    def contains(self, ex, k):
        return mdom(self.s, ex.z(k))

    def getitem(self, ex, k):
        k = ex.z(k)
        if not ex.branch(mdom(self.s, k)):
            raise PyRaise(Exc(KeyError, [k]))
        return Member(self.s, k)

    def getattr(self, ex, n):
        if n == "get":
            def get(ex, k, d=None):
                k = ex.z(k)
                if ex.branch(mdom(self.s, k)):
                    return Member(self.s, k)
                return d
            return Fn(get)
        return super().getattr(ex, n)


class EnumDict(Obj):
    """field.enum of field i, not None"""

    def __init__(self, i):
        self.i = i

    def truth(self, ex):
        return ex.branch(en(self.i) > 0)

    def eq(self, ex, o):
        if o is None:
            return False
        if isinstance(o, PyDict):
            c = [en(self.i) == len(o.d)]
            for k, v in o.d.items():
                if not isinstance(k, str) or not ex.isint(v):
                    raise Unsupported("enum comparison")
                c += [edom(self.i, ex.s(k)), ev(self.i, ex.s(k)) == v]
            return z3.And(*c)
        raise Unsupported("enum comparison")

    def seq(self, ex):
        i = self.i
        return Seq(en(i), lambda j: ekey(i, ex.z(j)))

    def contains(self, ex, k):
        return edom(self.i, ex.z(k))

    def getitem(self, ex, k):
        k = ex.z(k)
        if not ex.branch(edom(self.i, k)):
            raise PyRaise(Exc(KeyError, [k]))
        return ev(self.i, k)

    def getattr(self, ex, n):
        i = self.i
        if n == "items":
            return Fn(lambda ex: Seq(en(i), lambda j: (
                ekey(i, ex.z(j)), ev(i, ekey(i, ex.z(j))))))
        if n == "keys":
            return Fn(lambda ex: self.seq(ex))
        if n == "values":
            return Fn(lambda ex: Seq(
                en(i), lambda j: ev(i, ekey(i, ex.z(j)))))
        if n == "get":
            def get(ex, k, d=None):
                k = ex.z(k)
                if ex.branch(edom(i, k)):
                    return ev(i, k)
                return d
            return Fn(get)
        return super().getattr(ex, n)


class FieldRef(Obj):
    """assumed: an m5meta Field (a dataclass; origin and width assigned)"""

    def __init__(self, i):
        self.i = i

    def getattr(self, ex, n):
        i = self.i
        if n == "name":
            return fname(i)
        if n == "origin":
            return forigin(i)
        if n == "width":
            return fwidth(i)
        if n == "enum":
            if ex.branch(enone(i)):
                return None
            return EnumDict(i)
        return super().getattr(ex, n)

    def eq(self, ex, o):
        if isinstance(o, FieldRef):
            return self.i == o.i
        return False


class FieldsDict(Obj):
    """assumed: AddressSpace.fields, ordered, keyed by field.name"""

    def seq(self, ex):
        return Seq(nF, lambda j: fname(ex.z(j)))

    def truth(self, ex):
        return ex.branch(nF > 0)

    def contains(self, ex, k):
        return fdom(ex.z(k))

    def getitem(self, ex, k):
        k = ex.z(k)
        if not ex.branch(fdom(k)):
            raise PyRaise(Exc(KeyError, [k]))
        return FieldRef(fidx(k))

    def getattr(self, ex, n):
        if n == "items":
            return Fn(lambda ex: Seq(nF, lambda j: (
                fname(ex.z(j)), FieldRef(ex.z(j)))))
        if n == "values":
            return Fn(lambda ex: Seq(nF, lambda j: FieldRef(ex.z(j))))
        if n == "keys":
            return Fn(lambda ex: self.seq(ex))
        return super().getattr(ex, n)


class DataMap(Obj):
    """assumed: AddressSpace.data = address -> assembled word, filled by
    generate_object()"""

    def __init__(self, full):
        self.full = full

    def _n(self):
        return dn if self.full else z3.IntVal(0)

    def keyseq(self, ex):
        s = Seq(self._n(), lambda j: dkey(ex.z(j)))
        s.inv = lambda a: didx(a)
        return s

    def seq(self, ex):
        return self.keyseq(ex)

    def sorted(self, ex):
        s = Seq(self._n(), lambda j: skey(ex.z(j)))
        s.inv = lambda a: sidx(a)
        return s

    def dom(self, a):
        return ddom(a) if self.full else z3.BoolVal(False)

    def contains(self, ex, k):
        return self.dom(ex.z(k))

    def getitem(self, ex, k):
        k = ex.z(k)
        if not ex.branch(self.dom(k)):
            raise PyRaise(Exc(KeyError, [k]))
        return dv(k)

    def getattr(self, ex, n):
        if n == "keys":
            def keys(ex):
                s = self.keyseq(ex)
                s.sorted = lambda ex: self.sorted(ex)
                return s
            return Fn(keys)
        if n == "items":
            def items(ex):
                s = Seq(self._n(), lambda j: (dkey(ex.z(j)),
                                              dv(dkey(ex.z(j)))))
                s.inv = lambda a: didx(a)

                def srt(ex):
                    t = Seq(self._n(), lambda j: (skey(ex.z(j)),
                                                  dv(skey(ex.z(j)))))
                    t.inv = lambda a: sidx(a)
                    return t
                s.sorted = srt
                return s
            return Fn(items)
        if n == "values":
            return Fn(lambda ex: Seq(self._n(),
                                     lambda j: dv(dkey(ex.z(j)))))
        if n == "get":
            def get(ex, k, d=None):
                k = ex.z(k)
                if d is None:
                    if ex.branch(self.dom(k)):
                        return dv(k)
                    return None
                return z3.If(self.dom(k), dv(k), ex.z(d))
            return Fn(get)
        return super().getattr(ex, n)


class Space(Obj):
    """assumed: m5meta AddressSpace"""

    def __init__(self, ex, generated=False, primary=True):
        self.generated = generated
        self.primary = primary
        self.written = []
        ex.alloc(self)

    def getattr(self, ex, n):
        if not self.primary:
            raise Unsupported("another address space")
        if n == "width":
            return sp_width
        if n == "size":
            return sp_size
        if n == "fields":
            return FieldsDict()
        if n == "data":
            return DataMap(self.generated)
        if n == "name":
            return Opaque("space name")
        if n == "generate_object":
            def gen(ex):
                ex.touch(self)
                self.generated = True
                ex.event("generate")
            return Fn(gen)
        if n == "write_hex_file":
            return Fn(lambda ex, fn: ex.event("hex", fn, self.generated))
        if n == "write_fdef":
            return Fn(lambda ex, f: ex.event("fdef", f))
        return super().getattr(ex, n)


class LDict(PyDict):
    """A dictionary that becomes a struct layout: member order and width
    sums are its ghost state."""

    def __init__(self, ex, d=None):
        super().__init__(ex, d)
        self.sym = None

    def symbolic(self, ex):
        if self.sym is not None:
            return
        st = dict(present=z3.K(Name, z3.BoolVal(False)),
                  val=z3.K(Name, uns(0)), off=z3.K(Name, z3.IntVal(0)),
                  total=z3.IntVal(0), ok=z3.BoolVal(True))
        self.sym = st
        d, self.d = self.d, None
        for k, v in d.items():
            self._store(ex, ex.z(k), v)

    def _store(self, ex, k, v):
        if not isinstance(v, ShapeV):
            raise Unsupported("layout member %r" % (v,))
        st = dict(self.sym)
        p = z3.Select(st["present"], k)
        st["ok"] = z3.And(st["ok"], z3.Implies(
            p, width(z3.Select(st["val"], k)) == width(v.term)))
        st["off"] = z3.Store(st["off"], k, z3.If(
            p, z3.Select(st["off"], k), st["total"]))
        st["total"] = z3.If(p, st["total"], st["total"] + width(v.term))
        st["val"] = z3.Store(st["val"], k, v.term)
        st["present"] = z3.Store(st["present"], k, z3.BoolVal(True))
        self.sym = st

    def setitem(self, ex, k, v):
        ex.touch(self)
        if self.sym is None and isinstance(k, (str, int)) and \
                not isinstance(v, ShapeV):
            self.d[k] = v
            return
        self.symbolic(ex)
        self._store(ex, ex.z(k), v)

    def getitem(self, ex, k):
        if self.sym is None:
            return super().getitem(ex, k)
        k = ex.z(k)
        if not ex.branch(z3.Select(self.sym["present"], k)):
            raise PyRaise(Exc(KeyError, [k]))
        return ShapeV(z3.Select(self.sym["val"], k))

    def contains(self, ex, k):
        if self.sym is None and isinstance(k, (str, int)):
            return k in self.d
        self.symbolic(ex)
        return z3.Select(self.sym["present"], ex.z(k))

    def truth(self, ex):
        if self.sym is None:
            return bool(self.d)
        raise Unsupported("truth of a layout")

    def seq(self, ex):
        if self.sym is not None:
            raise Unsupported("iteration over a layout")
        return super().seq(ex)

    def getattr(self, ex, n):
        if self.sym is not None:
            if n == "update":
                pass
            raise Unsupported("method %s of a layout" % n)
        return super().getattr(ex, n)

    def havoc(self, ex):
        self.symbolic(ex)
        self.sym = dict(
            present=ex.fresh(z3.ArraySort(Name, Bool), "present"),
            val=ex.fresh(z3.ArraySort(Name, ShapeS), "val"),
            off=ex.fresh(z3.ArraySort(Name, Int), "off"),
            total=ex.fresh(Int, "total"), ok=ex.fresh(Bool, "ok"))


class LayoutV(Obj):
    """assumed: StructLayout(d) places each member after the widths of the
    members before it"""

    def __init__(self, sym):
        self.sym = sym


class Real(Obj):
    """A class or module of a library."""

    def __init__(self, real, attrs=None, call=None):
        self.real = real
        self.attrs = attrs or {}
        self.f = call

    def getattr(self, ex, n):
        if n in self.attrs:
            return self.attrs[n]
        return super().getattr(ex, n)

    def call(self, ex, args, kw):
        if self.f is None:
            raise Unsupported("call of %r" % (self.real,))
        return ex.call(Fn(self.f, getattr(self.real, "__name__", "")),
                       args, kw)


# ------------------------------------------------------------- m5meta, files
class StrV(Obj):
    """An unknown text that is not None."""
    nonempty = F("nonempty", Name, Bool)

    def __init__(self, term):
        self.term = term

    def truth(self, ex):
        return ex.branch(StrV.nonempty(self.term))

    def eq(self, ex, o):
        if o is None:
            return False
        if o == "":
            return z3.Not(StrV.nonempty(self.term))
        if isinstance(o, (StrV, str)):
            return self.term == ex.z(o)
        raise Unsupported("comparison of texts")

    def getattr(self, ex, n):
        if n in ("startswith", "endswith"):
            def has(ex, t):
                if not isinstance(t, str) or not t:
                    raise Unsupported(n)
                f = F(n, Name, Name, Bool)
                r = f(self.term, ex.s(t))
                # such a text is not empty; a text starts with itself
                ex.assume(z3.Implies(r, StrV.nonempty(self.term)))
                ex.assume(z3.Implies(self.term == ex.s(t), r))
                return r
            return Fn(has)
        return super().getattr(ex, n)


class SourceFile(Obj):
    """main_file: a path or an open file"""

    def __init__(self, name):
        self.isfile = z3.Bool(name + "_is_file")

    def isinstance(self, ex, c):
        if isinstance(c, Real) and c.real is io.IOBase:
            return ex.branch(self.isfile)
        raise Unsupported("isinstance of the source")

    def getattr(self, ex, n):
        if n in ("stem", "name", "parent"):
            return Opaque(n)
        return super().getattr(ex, n)

    def eq(self, ex, o):
        if o is None:
            return False
        return self is o


class FileObj(Obj):
    """assumed: open(path, mode)"""

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.closed = False

    def enter(self, ex):
        return self

    def exit(self, ex):
        self.close(ex)

    def close(self, ex):
        if not self.closed:
            self.closed = True
            ex.event("close", self)

    def getattr(self, ex, n):
        if n == "write":
            def write(ex, v):
                if self.closed:
                    raise PyRaise(Exc(ValueError, []))
                ex.event("write", self, v)
            return Fn(write)
        if n == "close":
            return Fn(self.close)
        if n == "flush":
            return Fn(lambda ex: None)
        if n == "read":
            return Fn(lambda ex: ("contents", self))
        return super().getattr(ex, n)


class StdOut(FileObj):
    pass


class Pre(Obj):
    def __init__(self, f):
        self.f = f

    def getattr(self, ex, n):
        if n == "read":
            def read(ex):
                # reading happens while the file is open
                if isinstance(self.f, FileObj) and self.f.closed:
                    raise PyRaise(Exc(ValueError, []))
                return Src(self.f)
            return Fn(read)
        return super().getattr(ex, n)


class Src(Obj):
    def __init__(self, f):
        self.f = f


class Meta(Obj):
    """assumed: M5Meta; pass12() with pass_num 1 then 2 parses src, after
    which spaces is complete"""

    def __init__(self, ex, f):
        self.f = f
        self.src = None
        self.pass_num = 0
        self.done = []
        self.space = Space(ex)
        ex.alloc(self)

    def getattr(self, ex, n):
        if n == "pass12":
            def p(ex):
                if self.src is None:
                    raise PyRaise(Exc(AttributeError, []))
                self.done = self.done + [(self.pass_num, self.src)]
                ex.event("pass")
            return Fn(p)
        if n == "pass_num":
            return self.pass_num
        if n == "src":
            return self.src
        if n == "spaces":
            return Spaces(self)
        return super().getattr(ex, n)

    def setattr(self, ex, n, v):
        ex.touch(self)
        if n in ("src", "pass_num"):
            setattr(self, n, v)
        else:
            super().setattr(ex, n, v)

    def ready(self):
        return [p for p, _ in self.done] == [1, 2] and all(
            isinstance(s, Src) for _, s in self.done) and \
            self.done[0][1] is self.done[1][1]


class Spaces(Obj):
    def __init__(self, meta):
        self.meta = meta

    def _n(self):
        return nsp if self.meta.ready() else z3.IntVal(0)

    def at(self, j):
        s = z3.simplify(z3.IntVal(j) if isinstance(j, int) else j)
        if z3.is_int_value(s) and s.as_long() == 0:
            return self.meta.space
        raise Unsupported("iteration over address spaces")

    def seq(self, ex):
        return Seq(self._n(), lambda j: Opaque("space name"))

    def truth(self, ex):
        return ex.branch(self._n() > 0)

    def getattr(self, ex, n):
        if n == "values":
            return Fn(lambda ex: Seq(self._n(), self.at))
        if n == "items":
            return Fn(lambda ex: Seq(self._n(), lambda j: (
                Opaque("space name"), self.at(j))))
        if n == "keys":
            return Fn(lambda ex: self.seq(ex))
        return super().getattr(ex, n)


# ------------------------------------------------------------- instances
class Inst(Obj):
    """self"""

    def __init__(self, cls, attrs, module):
        self.cls, self.d, self.module = cls, dict(attrs), module
        self.sig = None
        self.at_init = None

    def getattr(self, ex, n):
        if n in self.d:
            return self.d[n]
        import inspect
        try:
            raw = inspect.getattr_static(self.cls, n)
        except AttributeError:
            raise PyRaise(Exc(AttributeError, []))
        q = "%s.%s" % (self.cls.__name__, n)
        if isinstance(raw, staticmethod):
            raw = raw.__func__
            node = self.module.funcs.get(q)
            if n in ex.contracts:
                return Fn(ex.contracts[n], n)
            if node is None:
                raise Unsupported("method " + q)
            node2 = UserFunc(node, None, self.module)
            return Fn(lambda ex, *a, **k: ex.apply(node2, a, k), n)
        if inspect.isfunction(raw):
            node = self.module.funcs.get(q)
            if n in ex.contracts:
                f = ex.contracts[n]
                return Fn(lambda ex, *a, **k: f(ex, self, *a, **k), n)
            if node is None:
                raise Unsupported("inherited method " + n)
            if node.decorator_list:
                raise Unsupported("decorated method")
            return UserFunc(node, None, self.module, bound=self)
        return ex.lift(raw, self.module)

    def setattr(self, ex, n, v):
        ex.event("set", n)
        self.d[n] = v

    def super(self, ex):
        return Super(self)


class Super(Obj):
    def __init__(self, inst):
        self.inst = inst

    def getattr(self, ex, n):
        if n == "__init__":
            def init(ex, sig=None):
                self.inst.sig = sig
                self.inst.at_init = dict(self.inst.d)
                ex.event("super")
            return Fn(init)
        return super().getattr(ex, n)


class ClassObj(Obj):
    """The class itself: static members."""

    def __init__(self, cls, module, extra=None):
        self.cls, self.module, self.extra = cls, module, extra or {}

    def getattr(self, ex, n):
        if n in self.extra:
            return self.extra[n]
        return Inst(self.cls, {}, self.module).getattr(ex, n)


# ------------------------------------------------------------- executor
class UExec(Exec):
    templates = None

    def new_dict(self):
        return LDict(self)

    def template(self, tmpl, args):
        if self.templates is None:
            self.templates = {}
        if tmpl not in self.templates:
            self.templates[tmpl] = (
                F("fmt:" + tmpl, *[a.sort() for a in args], Name),
                [a.sort() for a in args])
            self.dead.clear()
            raise Restart()
        return self.templates[tmpl][0](*args)

    def fstring(self, parts):
        # a template with integer placeholders stays one function even
        # where the number is known
        vals = [p[0] for p in parts if not isinstance(p, str)]
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, int) and not isinstance(v, bool):
                v = z3.IntVal(v)
            if z3.is_expr(v) and v.sort() in (Int, Name):
                tm = "".join(p.replace("{", "{{") if isinstance(p, str)
                             else "{}" for p in parts)
                return self.template(tm, [v])
            if isinstance(v, str):
                return super().fstring(parts)
            return Opaque("message")
        if vals:
            return Opaque("message")
        return super().fstring(parts)

    def s(self, text):
        new = text not in self.strings
        r = super().s(text)
        if new:
            self.rebuild()
        return r

    def rebuild(self):
        """How literals and formatted names relate to field names: m5meta
        identifiers start with a letter."""
        ax = []
        if len(self.strings) > 1:
            ax.append(z3.Distinct(*self.strings.values()))
        up = {}
        for t, c in self.strings.items():
            if not t[:1].isalpha():
                ax.append(FA([N_], z3.Implies(fdom(N_), N_ != c),
                             [fdom(N_)]))
            for f, g in ((upper_f, str.upper), (lower_f, str.lower)):
                if g(t) in self.strings:
                    ax.append(f(c) == self.strings[g(t)])
        del up
        for tm, (f, sorts) in (self.templates or {}).items():
            if len(sorts) != 1:
                continue
            x, y = z3.Const("x", sorts[0]), z3.Const("y", sorts[0])
            inv = F("inv:" + tm, Name, sorts[0])
            ax.append(FA([x], inv(f(x)) == x, [f(x)]))
            if not tm[:1].isalpha() and not tm.startswith("{}"):
                ax.append(FA([x], z3.Not(fdom(f(x))), [f(x)]))
            if sorts[0] == Int:
                pre, post = tm.replace("{{", "\0").split("{}")
                for t, c in self.strings.items():
                    m = re.fullmatch(re.escape(pre.replace("\0", "{"))
                                     + r"(0|-?[1-9]\d*)"
                                     + re.escape(post.replace("\0", "{")), t)
                    if m:
                        ax.append(c == f(int(m.group(1))))
                    else:
                        ax.append(FA([x], f(x) != c, [f(x)]))
        self.str_ax = ax

    def explore(self, thunk, limit=4000):
        self.rebuild()
        return super().explore(thunk, limit)

    def havoc_local(self, v, ctx, i):
        if v is None:
            return LazyPrev(self, ctx, i)
        return super().havoc_local(v, ctx, i)

    def lookup(self, n, loc, module):
        v = super().lookup(n, loc, module)
        if isinstance(v, LazyPrev):
            v = v.force(n)
            loc[n] = v
        return v


class LazyPrev(Obj):
    """A local that is None before the loop: candidates for its value at
    iteration i are what the body leaves there."""

    def __init__(self, ex, ctx, i):
        self.ex, self.ctx, self.i = ex, ctx, i

    def force(self, name):
        ex, ctx = self.ex, self.ctx
        opts = [k for k in ("field", "end", "name")
                if (ctx.key, "%s=prev %s" % (name, k)) not in ex.dead]
        if not opts:
            raise Unsupported("value carried round a loop")
        used = ex.frames.setdefault((ctx.key, "prev"), set())
        if name not in used:
            used.add(name)
            ex.dead.clear()
            raise Restart()
        if ex.branch(self.i == 0):
            return None
        i = self.i - 1
        return {"field": lambda: FieldRef(i), "end": lambda: end(i),
                "name": lambda: fname(i)}[opts[0]]()


def prev_cands(ctx):
    ex = ctx.ex
    out = []
    for name in sorted(ex.frames.get((ctx.key, "prev"), ())):
        opts = [k for k in ("field", "end", "name")
                if (ctx.key, "%s=prev %s" % (name, k)) not in ex.dead]
        if not opts:
            continue
        kind = opts[0]

        def chk(ctx, name=name, kind=kind):
            v = ctx.loc.get(name)
            if isinstance(v, LazyPrev) or ctx.at_entry:
                return None
            i = ctx.i - 1
            if kind == "field":
                return v.i == i if isinstance(v, FieldRef) else False
            if not z3.is_expr(v):
                return False
            w = end(i) if kind == "end" else fname(i)
            return v == w if v.sort() == w.sort() else False
        out.append(("%s=prev %s" % (name, kind), chk))
    return out


def candidates(ctx):
    ex, n = ctx.ex, ctx.n
    out = list(prev_cands(ctx))
    ints = []
    for v, e in ctx.entry.items():
        if ex.isint(e):
            ints.append(v)
    for o in ctx.objs:
        tag = "o%d" % o.no
        if isinstance(o, LDict):
            def S(o=o):
                o.symbolic(ex)
                return o.sym
            out += [
                (tag + " members present", lambda c, S=S: FA(
                    [j_], z3.Implies(rng(j_, c.i), z3.Select(
                        S()["present"], fname(j_))), [fname(j_)])),
                (tag + " member offset = field origin", lambda c, S=S: FA(
                    [j_], z3.Implies(rng(j_, c.i), z3.Select(
                        S()["off"], fname(j_)) == forigin(j_)),
                    [fname(j_)])),
                (tag + " member shape = mapped shape", lambda c, S=S: FA(
                    [j_], z3.Implies(rng(j_, c.i), z3.Select(
                        S()["val"], fname(j_)) == fmval(fname(j_))),
                    [fname(j_)])),
                (tag + " members mappable", lambda c: FA(
                    [j_], z3.Implies(rng(j_, c.i), mappable(c.ex, j_)),
                    [fname(j_)])),
                (tag + " later members absent", lambda c, S=S: FA(
                    [j_], z3.Implies(z3.And(j_ >= c.i, j_ < nF), z3.Not(
                        z3.Select(S()["present"], fname(j_)))),
                    [fname(j_)])),
                (tag + " no member redefined", lambda c, S=S: S()["ok"]),
                (tag + " width = next origin", lambda c, S=S: z3.Implies(
                    c.i < nF, S()["total"] == forigin(c.i))),
                (tag + " width = last end", lambda c, S=S: S()["total"] ==
                 z3.If(c.i > 0, end(c.i - 1), 0)),
                (tag + " ascending so far", lambda c: FA(
                    [j_], z3.Implies(z3.And(j_ >= 0, j_ + 1 < c.i),
                                     end(j_) <= forigin(j_ + 1)),
                    [forigin(j_)])),
            ]
            for tm, (f, sorts) in (ex.templates or {}).items():
                if sorts == [Int]:
                    for v in ints:
                        out.append((
                            "%s %s absent from %s on" % (tag, tm, v),
                            lambda c, S=S, f=f, v=v: FA(
                                [k_], z3.Implies(
                                    k_ >= ex.z(c.loc[v]),
                                    z3.Not(z3.Select(S()["present"],
                                                     f(k_)))), [f(k_)])))
                    out.append((
                        "%s %s absent from i on" % (tag, tm),
                        lambda c, S=S, f=f: FA([k_], z3.Implies(
                            k_ >= c.i, z3.Not(z3.Select(
                                S()["present"], f(k_)))), [f(k_)])))
                    out.append((
                        "%s %s absent from last end on" % (tag, tm),
                        lambda c, S=S, f=f: FA([k_], z3.Implies(
                            k_ >= S()["total"], z3.Not(z3.Select(
                                S()["present"], f(k_)))), [f(k_)])))
                else:
                    out.append((
                        "%s %s absent for later" % (tag, tm),
                        lambda c, S=S, f=f: FA([j_], z3.Implies(
                            z3.And(j_ >= c.i, j_ < nF), z3.Not(z3.Select(
                                S()["present"], f(fname(j_))))),
                            [f(fname(j_))])))
            for v in ints:
                out.append(("%s = width of %s" % (v, tag),
                            lambda c, S=S, v=v: ex.z(c.loc[v]) ==
                            S()["total"]))
        if isinstance(o, ListObj):
            inv = getattr(ctx.seq, "inv", None)

            def A(o=o):
                o.symbolic(ex)
                return o.arr
            out.append((tag + " length", lambda c, o=o: (
                A(o), o.n == c.ex.z(entry_len(c, o)))[1]))
            out.append((tag + " length = i", lambda c, o=o: (
                A(o), o.n == c.i)[1]))
            want = lambda a: z3.If(ddom(a), dv(a), 0)  # noqa: E731
            out.append((tag + " words so far", lambda c, A=A: FA(
                [k_], z3.Implies(rng(k_, c.i),
                                 z3.Select(A(), k_) == want(k_)))))
            out.append((tag + " zero from here", lambda c, A=A: FA(
                [k_], z3.Implies(k_ >= c.i, z3.Select(A(), k_) == 0))))
            if inv is not None:
                out.append((tag + " processed words", lambda c, A=A: FA(
                    [k_], z3.Implies(z3.And(ddom(k_), inv(k_) < c.i),
                                     z3.Select(A(), k_) == dv(k_)))))
                out.append((tag + " rest zero", lambda c, A=A: FA(
                    [k_], z3.Implies(z3.Not(z3.And(
                        ddom(k_), inv(k_) < c.i)),
                        z3.Select(A(), k_) == 0))))
    for v in ints:
        out += [(v + " >= 0", lambda c, v=v: ex.z(c.loc[v]) >= 0),
                (v + " = i", lambda c, v=v: ex.z(c.loc[v]) == c.i),
                (v + " = last end", lambda c, v=v: ex.z(c.loc[v]) ==
                 z3.If(c.i > 0, end(c.i - 1), 0)),
                (v + " = next origin", lambda c, v=v: z3.Implies(
                    c.i < nF, ex.z(c.loc[v]) == forigin(c.i)))]
    # checks done element by element
    if ctx.fieldno is not None:
        i = ctx.fieldno
        s = fmval(fname(i))
        ek, ck = ekey(i, j_), ckey(s, j_)
        out.append(("enumerators so far", lambda c: FA(
            [j_], z3.Implies(rng(j_, c.i), z3.And(
                mdom(s, upper_f(ek)), mv(s, upper_f(ek)) == ev(i, ek))),
            [ek])))
        out.append(("members so far", lambda c: FA(
            [j_], z3.Implies(rng(j_, c.i), z3.And(
                edom(i, lower_f(ck)), ev(i, lower_f(ck)) == mv(s, ck))),
            [ck])))
    if not ctx.objs and ctx.fieldno is None:
        out.append(("all mappable", lambda c: FA(
            [j_], z3.Implies(rng(j_, c.i), mappable(c.ex, j_)),
            [fname(j_)])))
    return out


def entry_len(c, o):
    e = c.ent_objs[o.no]
    return len(e["vals"]) if e["vals"] is not None else e["n"]


# ------------------------------------------------------------- obligations
class Report:
    def __init__(self):
        self.obl = {}           # name -> [proved paths, failures]
        self.funcs = {}

    def add(self, name, r, detail=None):
        o = self.obl.setdefault(name, {"paths": 0, "bad": []})
        o["paths"] += 1
        if r != "proved":
            o["bad"].append((r, detail))


class FuncProof:
    """All paths of one function against its contract."""

    def __init__(self, rep, module, models, contracts, extra_ax=(),
                 fieldno=None, axioms=AX):
        self.rep = rep
        self.ex = UExec(module, models, contracts, axioms + list(extra_ax))
        ex = self.ex

        def cands(ctx):
            ctx.fieldno = fieldno
            return candidates(ctx)
        ex.loop_cands = cands

    def run(self, title, thunk, budget=240):
        """thunk() executes one path and checks the posts."""
        import time
        ex = self.ex
        t0 = time.time()
        live = [0]

        def watched():
            thunk()
            # vacuity: some path to the end must not be contradictory
            if not live[0] and ex.feasible(z3.BoolVal(True)):
                live[0] = 1
        for _ in range(400):
            tmp = Report()
            self.cur = tmp
            live[0] = 0
            try:
                ex.in_sub = None
                ex.depth = 0
                ex.explore(watched)
                break
            except Restart:
                if time.time() - t0 > budget:
                    raise Unsupported("invariant search takes too long")
                continue
        else:
            raise Unsupported("no inductive invariant reached")
        if not live[0]:
            raise Unsupported("%s: every path is contradictory" % title)
        for n, o in tmp.obl.items():
            self.rep.obl["%s: %s" % (title, n)] = o
        self.rep.funcs[title] = {
            "paths": ex.paths, "queries": ex.queries,
            "solver_s": round(ex.time, 3), "slowest_s": round(ex.maxq, 3),
            "invariants_proved": getattr(ex, "cand_proved", 0),
            "loops": len({k for k in ex.frames if k[1] != "prev"})}

    def check(self, name, f):
        if f is True:
            return self.cur.add(name, "proved")
        if f is False:
            f = z3.BoolVal(False)
        r, m = self.ex.valid(f)
        if r == "proved":
            return self.cur.add(name, r)
        # an infeasible path proves nothing wrong
        self.cur.add(name, r, model_text(m))


def model_text(m):
    if m is None:
        return None
    out = {}
    for nm, t in (("fields", nF), ("words", dn), ("size", sp_size),
                  ("width", sp_width), ("spaces", nsp)):
        v = m.eval(t)
        if z3.is_int_value(v):
            out[nm] = v.as_long()
    n = out.get("fields")
    if n is not None and n <= 8:
        g = lambda t: (lambda v: v.as_long() if z3.is_int_value(v)  # noqa
                       else None)(m.eval(t))
        out["layout"] = [(g(forigin(i)), g(fwidth(i))) for i in range(n)]
    return out
