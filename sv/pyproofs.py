"""Proof obligations of the Python-level contracts (see pycontracts.py)."""
import argparse
import contextlib
import enum
import inspect
import io
import itertools
import pathlib
import sys

import env  # noqa: F401
import z3
from pycontracts import (AX, FA, ClassObj, DataMap, FieldRef, FieldsDict,
                         FileObj, FuncProof, Inst, Int, LDict, LayoutV, Meta,
                         Name, Pre, Real, Report, ShapeS, ShapeV, SourceFile,
                         Space, Src, StdOut, StrV, compat, compat_def, ddom,
                         dkey, dn, dv, enone, end, fmdom, fmval, fname,
                         forigin, fwidth, gap_free_before, i_, isenum, j_,
                         k_, mappable, nF, nsp, rng, shape_ok, sp_size,
                         sp_width, strict_enum, uns, width)
from pyvc import (Exc, ExcClass, Fn, ListObj, Module, Obj, Opaque, PyDict,
                  PyRaise, Seq, Stop, Unsupported, UserFunc, seq_of)


# ------------------------------------------------------------- ucoderom
class FieldMapV(Obj):
    """field_map: any dictionary from names to shapes"""

    def __init__(self, kind):
        self.kind = kind

    def truth(self, ex):
        if self.kind == "default":
            return True
        return ex.branch(z3.Bool("field_map_nonempty"))

    def getitem(self, ex, k):
        k = ex.z(k)
        if not ex.branch(fmdom(k)):
            raise PyRaise(Exc(KeyError, [k]))
        return ShapeV(fmval(k))

    def contains(self, ex, k):
        return fmdom(ex.z(k))

    def eq(self, ex, o):
        return False if o is None else self is o

    def getattr(self, ex, n):
        if n == "get":
            def get(ex, k, d=None):
                k = ex.z(k)
                if ex.branch(fmdom(k)):
                    return ShapeV(fmval(k))
                return d
            return Fn(get)
        return super().getattr(ex, n)


class Made(Obj):
    """The result of a library constructor, with its arguments."""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self.flipped = False

    def getattr(self, ex, n):
        if self.kind == "signature" and n == "flip":
            def flip(ex):
                m = Made("signature", *self.args)
                m.flipped = not self.flipped
                return m
            return Fn(flip)
        return super().getattr(ex, n)


class Sig(Obj):
    def __init__(self, name, owner=None):
        self.name, self.owner = name, owner

    def getattr(self, ex, n):
        if n == "eq":
            return Fn(lambda ex, r: Stmt(self, r))
        if n == "as_value":
            return Fn(lambda ex: self)
        return super().getattr(ex, n)


class Stmt(Obj):
    def __init__(self, lhs, rhs):
        self.lhs, self.rhs = lhs, rhs


class Port(Obj):
    def __init__(self, ex, mem, domain, transparent):
        self.mem, self.domain = mem, domain
        self.addr, self.data = Sig("addr", self), Sig("data", self)
        self.en = Sig("en", self)

    def getattr(self, ex, n):
        if n in ("addr", "data", "en"):
            return getattr(self, n)
        return super().getattr(ex, n)


class Mem(Obj):
    """assumed: amaranth.lib.memory.Memory and its synchronous read port"""

    def getattr(self, ex, n):
        if n == "read_port":
            return Fn(lambda ex, domain="sync", transparent_for=():
                      Port(ex, self, domain, transparent_for))
        return super().getattr(ex, n)


class HdlModule(Obj):
    def __init__(self):
        self.subs, self.stmts = [], []

    def getattr(self, ex, n):
        if n == "submodules":
            return Subs(self)
        if n == "d":
            return Dom(self)
        return super().getattr(ex, n)

    def setattr(self, ex, n, v):
        if n in ("submodules", "d") and isinstance(v, (Subs, Dom)):
            return
        super().setattr(ex, n, v)


class Subs(Obj):
    def __init__(self, m):
        self.m = m

    def setattr(self, ex, n, v):
        ex.event("submodule")
        self.m.subs.append(v)

    def setitem(self, ex, k, v):
        ex.event("submodule")
        self.m.subs.append(v)

    def iop(self, ex, op, v):
        ex.event("submodule")
        for x in (ex.seq(v).vals if isinstance(v, (tuple, list, ListObj))
                  else [v]):
            self.m.subs.append(x)
        return self


class Dom(Obj):
    def __init__(self, m, name=None):
        self.m, self.name = m, name

    def getattr(self, ex, n):
        if self.name is None:
            return Dom(self.m, n)
        return super().getattr(ex, n)

    def getitem(self, ex, k):
        if self.name is None and isinstance(k, str):
            return Dom(self.m, k)
        return super().getitem(ex, k)

    def setattr(self, ex, n, v):
        if not (isinstance(v, Dom) and v.name == n):
            super().setattr(ex, n, v)

    def setitem(self, ex, n, v):
        if not (isinstance(v, Dom) and v.name == n):
            super().setitem(ex, n, v)

    def iop(self, ex, op, v):
        ex.event("drive")
        for s in ([v] if isinstance(v, Stmt) else ex.seq(v).vals):
            if not isinstance(s, Stmt):
                raise Unsupported("statement")
            self.m.stmts.append((self.name, s))
        return self


def u_models(mod, metas, opened):
    """Contracts of the library objects ucoderom.py names."""
    from amaranth import Module as AModule, Shape, Value, unsigned
    from amaranth.lib.data import StructLayout
    from amaranth.lib.memory import Memory
    from amaranth.lib.wiring import In, Out, Signature
    from amaranth.utils import ceil_log2
    from m5meta import M5Meta
    from m5pre import M5Pre

    def mk_uns(ex, n):
        if not ex.isint(n):
            raise Unsupported("unsigned()")
        if not ex.branch(ex.z(n) >= 0):
            raise PyRaise(Exc(TypeError, []))
        return ShapeV(uns(ex.z(n)))

    def cast(ex, s):
        if not isinstance(s, ShapeV):
            raise Unsupported("Shape.cast")
        return s

    def layout(ex, d):
        if not isinstance(d, LDict):
            raise Unsupported("StructLayout")
        d.symbolic(ex)
        return LayoutV(dict(d.sym))

    def meta(ex, f, obj_base_fn):
        m = Meta(ex, f)
        metas.append(m)
        return m

    def opn(ex, path, mode="r"):
        f = FileObj(path, mode)
        opened.append(f)
        ex.event("open", f)
        return f
    return {
        unsigned: Fn(mk_uns, "unsigned"),
        Shape: Real(Shape, {"cast": Fn(cast, "cast")}, mk_uns),
        StructLayout: Fn(layout, "StructLayout"),
        Memory: Fn(lambda ex, *, shape, depth, init, attrs=None: Made(
            "memory", shape, depth, init), "Memory"),
        Signature: Fn(lambda ex, d: Made("signature", d), "Signature"),
        In: Fn(lambda ex, s: Made("in", s), "In"),
        Out: Fn(lambda ex, s: Made("out", s), "Out"),
        ceil_log2: Fn(lambda ex, n: Made("ceil_log2", n), "ceil_log2"),
        M5Meta: Fn(meta, "M5Meta"),
        M5Pre: Fn(lambda ex, f: Pre(f), "M5Pre"),
        AModule: Fn(lambda ex: HdlModule(), "Module"),
        Value: Real(Value, {"cast": Fn(lambda ex, v: v, "cast")}),
        io.IOBase: Real(io.IOBase),
        enum.EnumMeta: Real(enum.EnumMeta),
        open: Fn(opn, "open"),
        mod.UCodeROM: None,         # filled below
    }


def sig_is(cls, name, params):
    f = inspect.getattr_static(cls, name, None)
    if not inspect.isfunction(f):
        return False
    p = list(inspect.signature(f).parameters)
    return len(p) == len(params)


class C18:
    """Obligations of ucoderom.py.  A function whose own contract does not
    go through is executed inside its callers instead."""

    def __init__(self):
        import sentinel.ucoderom as mod
        self.mod = mod
        self.M = Module(mod)
        self.cls = mod.UCodeROM
        self.rep = Report()
        self.alone = {}         # function -> why it is not used by contract
        self.proved = []

    def models(self):
        metas, opened = [], []
        m = u_models(self.mod, metas, opened)
        m[self.mod.UCodeROM] = ClassObj(self.cls, self.M, {
            "main_microcode_file": Fn(lambda ex: "$default",
                                      "main_microcode_file")})
        return m, metas, opened

    def has(self, name, n):
        return ("UCodeROM." + name) in self.M.funcs and \
            sig_is(self.cls, name, [0] * n)

    def attempt(self, name, nparams, prover):
        """Prove a helper alone; on failure its callers inline it."""
        if not self.has(name, nparams):
            self.alone[name] = "no such function with %d parameters" \
                % nparams
            return
        rep, self.rep = self.rep, Report()
        try:
            prover()
            bad = [n for n, o in self.rep.obl.items() if o["bad"]]
            if bad:
                self.alone[name] = "not met: " + bad[0]
                self.failed_alone.update({
                    n: o for n, o in self.rep.obl.items() if o["bad"]})
            else:
                rep.obl.update(self.rep.obl)
                rep.funcs.update(self.rep.funcs)
                self.proved.append(name)
        except Unsupported as e:
            self.alone[name] = "outside reach: %s" % e
        finally:
            self.rep = rep

    def run(self):
        self.failed_alone = {}
        self.attempt("_check_and_convert_dynamic_shape", 2,
                     lambda: self.p_check("shape"))
        self.attempt("_check_and_convert_dynamic_enum", 2,
                     lambda: self.p_check("enum"))
        self.attempt("_create_field_layout", 2, self.p_layout)
        self.attempt("_create_mem_init", 2, self.p_mem)
        self.attempt("assemble", 1, self.p_assemble)
        self.p_init()
        self.p_elab()
        # obligations of the end results must hold one way or another: a
        # helper not met and not replaced shows in its callers
        return self.rep

    # -- the callees' contracts
    def contracts(self, ex, fp, names):
        out = {}

        def check(kind):
            def c(ex, slf, field):
                if not isinstance(field, FieldRef):
                    raise Unsupported("argument of the checker")
                i = field.i
                fp.check("requires a field of the source", rng(i, nF))
                ok = shape_ok(i)
                if kind == "enum":
                    fp.check("requires an enumeration",
                             z3.Not(enone(i)))
                    ok = z3.And(ok, compat(i))
                if ex.branch(ok):
                    return ShapeV(fmval(fname(i)))
                raise PyRaise(Exc(ValueError, []))
            return c
        if "_check_and_convert_dynamic_shape" in names:
            out["_check_and_convert_dynamic_shape"] = check("shape")
        if "_check_and_convert_dynamic_enum" in names:
            out["_check_and_convert_dynamic_enum"] = check("enum")

        def lay(ex, slf, space):
            if not (isinstance(space, Space) and space.primary):
                raise Unsupported("space")
            k = ex.choose(3)
            if k:
                e = Exc(ValueError if k == 1 else TypeError, [])
                e.refusal = True
                raise PyRaise(e)
            slf.setattr(ex, "field_layout", Made("layout of", space))

        def mem(ex, slf, space):
            if not (isinstance(space, Space) and space.primary):
                raise Unsupported("space")
            fp.check("requires the object code to have been generated",
                     bool(space.generated))
            if ex.choose(2):
                e = Exc(IndexError, [])
                e.refusal = True
                raise PyRaise(e)
            slf.setattr(ex, "width", sp_width)
            slf.setattr(ex, "depth", sp_size)
            slf.setattr(ex, "ucode_contents", Made("words of", space))

        def asm(ex, slf):
            d = slf.d
            self.at_assemble = dict(d)
            for a in ("main_file", "hex", "field_defs"):
                fp.check("assemble requires %s" % a, a in d)
            if ex.choose(2):
                e = Exc(ValueError, [])
                e.refusal = True
                raise PyRaise(e)
            slf.setattr(ex, "width", sp_width)
            slf.setattr(ex, "depth", sp_size)
            slf.setattr(ex, "ucode_contents", Made("words of", 0))
            slf.setattr(ex, "field_layout", Made("layout of", 0))
            slf.setattr(ex, "m5meta", Opaque("m5meta"))
        for n, f in (("_create_field_layout", lay),
                     ("_create_mem_init", mem), ("assemble", asm)):
            if n in names:
                out[n] = f
        return out

    def proof(self, names, extra_ax=(), fieldno=None):
        models, metas, opened = self.models()
        use = [n for n in names if n in self.proved]
        if "_check_and_convert_dynamic_enum" in names and \
                "_check_and_convert_dynamic_enum" not in use:
            extra_ax = list(extra_ax) + [FA(
                [i_], compat(i_) == compat_def(i_), [compat(i_)])]
        fp = FuncProof(self.rep, self.M, models, {}, extra_ax, fieldno)
        fp.ex.contracts = self.contracts(fp.ex, fp, use)
        fp.ex.contracts["main_microcode_file"] = lambda ex: "$default"
        fp.metas, fp.opened = metas, opened
        return fp

    def inst(self, **d):
        return Inst(self.cls, d, self.M)

    def method(self, ex, slf, name, *args, **kw):
        node = self.M.funcs["UCodeROM." + name]
        return UserFunc(node, None, self.M, bound=slf).call(
            ex, list(args), kw)

    # -- proofs
    def p_check(self, kind):
        i0 = z3.Int("i0")
        fp = self.proof([], [rng(i0, nF), fname(i0) == fname(i0)],
                        fieldno=i0)
        ex = fp.ex
        if kind == "enum":
            ex.axioms.append(z3.Not(enone(i0)))
        ok = shape_ok(i0)
        if kind == "enum":
            ok = z3.And(ok, compat_def(i0))
        name = "_check_and_convert_dynamic_" + kind

        def thunk():
            slf = self.inst(field_map=FieldMapV("given"))
            try:
                r = self.method(ex, slf, name, FieldRef(i0))
            except PyRaise as e:
                fp.check("refuses with ValueError",
                         e.exc.cls is ValueError)
                fp.check("refuses only what does not agree with field_map",
                         z3.Not(ok))
                return
            fp.check("accepts only what agrees with field_map", ok)
            fp.check("returns the mapped shape",
                     isinstance(r, ShapeV) and r.term == fmval(fname(i0)))
        fp.run("UCodeROM." + name, thunk)

    def p_layout(self):
        fp = self.proof(["_check_and_convert_dynamic_shape",
                         "_check_and_convert_dynamic_enum"])
        ex = fp.ex

        def thunk():
            slf = self.inst(field_map=FieldMapV("given"))
            sp = Space(ex, generated=True)
            try:
                self.method(ex, slf, "_create_field_layout", sp)
            except PyRaise as e:
                allok = FA([i_], z3.Implies(rng(i_, nF), mappable(ex, i_)))
                if e.exc.cls is ValueError:
                    fp.check("ValueError only for an unmappable source",
                             z3.Not(z3.And(allok, gap_free_before())))
                else:
                    fp.check("no exception but ValueError for a source with "
                             "fields in ascending order (%s)"
                             % e.exc.cls.__name__,
                             z3.Not(gap_free_before()))
                return
            L = slf.d.get("field_layout")
            if not isinstance(L, LayoutV):
                return fp.check("produces a layout", False)
            st = L.sym
            fp.check("no member overwritten by another width", st["ok"])
            sel = z3.Select
            fp.check("every field is a member", FA([i_], z3.Implies(
                rng(i_, nF), sel(st["present"], fname(i_)))))
            fp.check("every field starts at its microcode origin", FA(
                [i_], z3.Implies(rng(i_, nF), sel(st["off"], fname(i_))
                                 == forigin(i_))))
            fp.check("every field has its microcode width", FA(
                [i_], z3.Implies(rng(i_, nF), width(sel(
                    st["val"], fname(i_))) == fwidth(i_))))
            fp.check("every field has the shape of field_map", FA(
                [i_], z3.Implies(rng(i_, nF), sel(st["val"], fname(i_))
                                 == fmval(fname(i_)))))
            fp.check("only a mappable source is accepted", FA(
                [i_], z3.Implies(rng(i_, nF), mappable(ex, i_))))
        fp.run("UCodeROM._create_field_layout", thunk)

    def p_mem(self):
        fp = self.proof([])
        ex = fp.ex

        def thunk():
            slf = self.inst()
            try:
                self.method(ex, slf, "_create_mem_init",
                            Space(ex, generated=True))
            except PyRaise as e:
                fp.check("refuses only words outside the space",
                         z3.Exists([k_], z3.And(ddom(k_), k_ >= sp_size))
                         if e.exc.cls in (IndexError, ValueError)
                         else False)
                return
            d = slf.d
            w, n = d.get("width"), d.get("depth")
            fp.check("width of the space", ex.isint(w) and
                     ex.z(w) == sp_width)
            fp.check("depth of the space", ex.isint(n) and
                     ex.z(n) == sp_size)
            c = d.get("ucode_contents")
            try:
                s = ex.seq(c)
            except Unsupported:
                return fp.check("words are a sequence", False)
            fp.check("one word per address", ex.z(s.n) == sp_size)
            a = z3.Int("a!addr")
            ex.assume(rng(a, sp_size))
            for conds, v in ex.sub(lambda: s.at(a)):
                if isinstance(v, PyRaise):
                    fp.check("word readable", z3.Not(z3.And(*conds)))
                    continue
                if not ex.isint(v):
                    fp.check("each word is an integer", False)
                    continue
                fp.check("each address holds the assembled word, holes 0",
                         z3.Implies(z3.And(*conds), ex.z(v) == z3.If(
                             ddom(a), dv(a), z3.IntVal(0))))
        fp.run("UCodeROM._create_mem_init", thunk)

    def p_assemble(self):
        fp = self.proof(["_create_field_layout", "_create_mem_init",
                         "_check_and_convert_dynamic_shape",
                         "_check_and_convert_dynamic_enum"])
        ex = fp.ex
        if not {"_create_field_layout", "_create_mem_init"} <= set(
                self.proved):
            raise Unsupported("callees not proved alone")

        def thunk():
            del fp.metas[:], fp.opened[:]
            main = SourceFile("main")
            hexf = StrV(z3.Const("hex", Name)) if ex.choose(2) else None
            fdef = StrV(z3.Const("fdef", Name)) if ex.choose(2) else None
            slf = self.inst(main_file=main, hex=hexf, field_defs=fdef,
                            field_map=FieldMapV("given"))
            try:
                self.method(ex, slf, "assemble")
            except PyRaise as e:
                if getattr(e.exc, "refusal", False):
                    return
                fp.check("refuses only several (or no) address spaces, with "
                         "ValueError", z3.And(z3.BoolVal(
                             e.exc.cls is ValueError), nsp != 1))
                return
            fp.check("accepts only a single address space", nsp == 1)
            used = [m for m in fp.metas if m.ready()]
            fp.check("the source is parsed in two passes", len(used) == 1)
            if len(used) == 1:
                m = used[0]
                f = m.done[0][1].f
                fp.check("the source assembled is main_file", f is main or (
                    isinstance(f, FileObj) and f.path is main
                    and f.mode == "r"))
                w = slf.d.get("ucode_contents")
                fp.check("the words kept are those of that source",
                         isinstance(w, Made) and w.kind == "words of" and
                         w.args[0] is m.space)
                w = slf.d.get("field_layout")
                fp.check("the layout kept is that of that source",
                         isinstance(w, Made) and w.kind == "layout of" and
                         w.args[0] is m.space)
            on = lambda v: v is not None and ex.truth(v)  # noqa: E731
            ev = [e for e in ex.events if e[0] == "hex"]
            if on(hexf):
                fp.check("hex file written on request", len(ev) == 1 and
                         ev[0][1] is hexf and ev[0][2])
            else:
                fp.check("no hex file without request", not ev)
            wr = [f for f in fp.opened if f.mode != "r"]
            fd = [e for e in ex.events if e[0] == "fdef"]
            if on(fdef):
                fp.check("field definitions written on request",
                         len(wr) == 1 and wr[0].path is fdef and
                         wr[0].mode == "w" and wr[0].closed and
                         len(fd) == 1 and fd[0][1] is wr[0])
            else:
                fp.check("no field definitions without request",
                         not wr and not fd)
            fp.check("files are closed", all(f.closed for f in fp.opened))
        fp.run("UCodeROM.assemble", thunk)

    def p_init(self):
        if "assemble" not in self.proved:
            raise Unsupported("assemble: " + self.alone.get("assemble", ""))
        fp = self.proof(["assemble"])
        ex = fp.ex

        def thunk():
            self.at_assemble = None
            main = SourceFile("main") if ex.choose(2) else None
            hexf = StrV(z3.Const("hex", Name)) if ex.choose(2) else None
            fdef = StrV(z3.Const("fdef", Name)) if ex.choose(2) else None
            fmap = FieldMapV("given") if ex.choose(2) else None
            slf = self.inst()
            kw = {}
            for n, v in (("main_file", main), ("hex", hexf),
                         ("field_defs", fdef), ("field_map", fmap)):
                if v is not None or ex.choose(2):
                    kw[n] = v
            try:
                self.method(ex, slf, "__init__", **kw)
            except PyRaise as e:
                fp.check("raises only what assemble raises",
                         getattr(e.exc, "refusal", False))
                return
            a = self.at_assemble
            if a is None:
                return fp.check("assembles the source", False)
            fp.check("main_file as given, or the default microcode",
                     a["main_file"] is main if main is not None
                     else a["main_file"] == "$default")
            fp.check("hex and field_defs as given",
                     a["hex"] is hexf and a["field_defs"] is fdef)
            want = fmap if fmap is not None and fmap.truth(ex) else None
            have = a.get("field_map")
            fp.check("field_map as given, or the default",
                     (have is want) if want is not None else
                     have is None or (isinstance(have, FieldMapV) and
                                      have.kind == "default"))
            d = slf.d
            mems = [v for v in d.values() if isinstance(v, Made)
                    and v.kind == "memory"]
            fp.check("one memory", len(mems) == 1)
            if mems:
                s, n, init = mems[0].args
                fp.check("memory of the space's width",
                         ex.isint(s) and ex.z(s) == sp_width)
                fp.check("memory of the space's depth",
                         ex.isint(n) and ex.z(n) == sp_size)
                fp.check("memory holds the assembled words",
                         isinstance(init, Made) and init.kind == "words of")
            g = slf.sig
            okk = isinstance(g, Made) and g.kind == "signature" and \
                isinstance(g.args[0], PyDict) and \
                set(g.args[0].d) == {"addr", "fields"}
            fp.check("interface addr, fields", okk)
            if okk:
                a, f = g.args[0].d["addr"], g.args[0].d["fields"]
                if g.flipped:
                    inn, out = "out", "in"
                else:
                    inn, out = "in", "out"
                fp.check("addr is an input of ceil_log2(depth) bits",
                         isinstance(a, Made) and a.kind == inn and
                         isinstance(a.args[0], Made) and
                         a.args[0].kind == "ceil_log2" and
                         ex.isint(a.args[0].args[0]) and
                         a.args[0].args[0] == sp_size)
                fp.check("fields is an output with the layout",
                         isinstance(f, Made) and f.kind == out and
                         isinstance(f.args[0], Made) and
                         f.args[0].kind == "layout of")
        fp.run("UCodeROM.__init__", thunk)

    def p_elab(self):
        fp = self.proof([])
        ex = fp.ex

        def thunk():
            mem = Mem()
            slf = self.inst(ucode_mem=mem, addr=Sig("addr"),
                            fields=Sig("fields"))
            try:
                m = self.method(ex, slf, "elaborate", Opaque("platform"))
            except PyRaise:
                return fp.check("does not raise", False)
            if not isinstance(m, HdlModule):
                return fp.check("returns a module", False)
            fp.check("the memory is part of the module", mem in m.subs)
            st = m.stmts
            out = [s for d, s in st if s.lhs is slf.d["fields"]]
            fp.check("fields is driven once, combinationally",
                     len(out) == 1 and all(
                         d == "comb" for d, s in st if s in out))
            if len(out) != 1:
                return
            r = out[0].rhs
            okp = isinstance(r, Sig) and r.name == "data" and \
                isinstance(r.owner, Port) and r.owner.mem is mem
            fp.check("fields is the word read from the memory", okp)
            if not okp:
                return
            p = r.owner
            fp.check("the memory is read on the clock", p.domain == "sync")
            ad = [(d, s) for d, s in st if s.lhs is p.addr]
            fp.check("the word read is the one at addr", len(ad) == 1 and
                     ad[0][0] == "comb" and ad[0][1].rhs is slf.d["addr"])
            fp.check("nothing else is driven", len(st) == 2)
        fp.run("UCodeROM.elaborate", thunk)


# ------------------------------------------------------------- gen
class Core(Obj):
    def __init__(self, kind):
        self.kind = kind


class Text(Obj):
    """assumed: verilog.convert(m, name=n)"""

    def __init__(self, m, name):
        self.m, self.name = m, name


class Namespace(Obj):
    def __init__(self, d):
        self.d = d

    def getattr(self, ex, n):
        if n in self.d:
            return self.d[n]
        if n == "__dict__":
            return PyDict(ex, self.d)
        if n[:2] == "__":
            raise Unsupported("namespace." + n)
        raise PyRaise(Exc(AttributeError, []))

    def isinstance(self, ex, c):
        if isinstance(c, Real) and c.real is argparse.Namespace:
            return True
        raise Unsupported("isinstance")

    def eq(self, ex, o):
        return False if o is None else self is o


class Parser(Obj):
    """assumed: argparse with plain and store_true options"""

    def __init__(self, world):
        self.world = world
        self.opts = {}

    def getattr(self, ex, n):
        if n == "add_argument":
            def add(ex, *flags, help=None, action="store", default=None,
                    dest=None, metavar=None, type=None):
                if type is not None or not all(
                        isinstance(f, str) for f in flags):
                    raise Unsupported("option")
                if action not in ("store", "store_true"):
                    raise Unsupported("option action")
                if dest is None:
                    lng = [f for f in flags if f.startswith("--")]
                    dest = (lng or list(flags))[0].lstrip("-") \
                        .replace("-", "_")
                ex.event("option")
                self.opts[dest] = (flags, action, default)
            return Fn(add)
        if n == "parse_args":
            def parse(ex, args=None):
                if args is not None:
                    raise Unsupported("parse_args with arguments")
                return Namespace(self.world.parse(self.opts))
            return Fn(parse)
        return super().getattr(ex, n)


class World:
    """The command line: -o TEXT, -n TEXT, -f, each given or not."""

    def __init__(self, ex):
        self.o = StrV(z3.Const("o", Name)) if ex.choose(2) else None
        self.n = StrV(z3.Const("n", Name)) if ex.choose(2) else None
        self.f = ex.choose(2) == 1
        self.argc = z3.Int("argc")
        ex.assume(self.argc >= 1)
        given = self.o is not None or self.n is not None or self.f
        ex.assume(self.argc >= 2 if given else self.argc == 1)

    def parse(self, opts):
        out = {}
        seen = set()
        for dest, (flags, action, default) in opts.items():
            val = None
            for fl, v in (("-o", self.o), ("-n", self.n), ("-f", self.f)):
                if fl in flags:
                    seen.add(fl)
                    if (action == "store_true") != (fl == "-f"):
                        raise PyRaise(Exc(SystemExit, []))
                    val = v
            if action == "store_true":
                out[dest] = bool(val)
            else:
                out[dest] = default if val is None else val
        for fl, v in (("-o", self.o), ("-n", self.n), ("-f", self.f)):
            if v and fl not in seen:
                raise PyRaise(Exc(SystemExit, []))
        return out


class C19:
    def __init__(self):
        import sentinel.gen as mod
        self.mod = mod
        self.M = Module(mod)
        self.rep = Report()
        self.alone, self.proved, self.failed_alone = {}, [], {}

    def run(self):
        for entry in ("_main", "generate"):
            if entry not in self.M.funcs:
                raise Unsupported("no function " + entry)
            self.p_entry(entry)
        return self.rep

    def p_entry(self, entry):
        from amaranth.back import verilog
        from sentinel.formal import FormalTop
        from sentinel.top import Top
        fp = FuncProof(self.rep, self.M, {}, {}, axioms=[])
        ex = fp.ex
        W = {}

        def core(kind):
            return Fn(lambda ex: Core(kind), kind)

        def convert(ex, m, name="top"):
            if not isinstance(m, Core):
                raise Unsupported("convert")
            if ex.choose(2):
                raise PyRaise(Exc(RuntimeError, []))
            t = Text(m, name)
            ex.event("convert", t)
            return t

        def opn(ex, path, mode="r"):
            f = FileObj(path, mode)
            ex.event("open", f)
            W["files"].append(f)
            return f

        def prt(ex, v="", end="\n", file=None):
            ex.event("write", W["stdout"] if file is None else file, v)

        class Sys(Obj):
            def getattr(s, ex, n):
                if n == "argv":
                    # elements are only counted
                    return Seq(W["world"].argc, lambda i: Opaque("argv"))
                if n == "stdout":
                    return W["stdout"]
                return super().getattr(ex, n)
        conv = Fn(convert, "convert")
        ex.models = {
            verilog: Real(verilog, {"convert": conv}),
            verilog.convert: conv, Top: core("Top"),
            FormalTop: core("FormalTop"), open: Fn(opn, "open"),
            print: Fn(prt, "print"), sys: Sys(),
            argparse.Namespace: Real(argparse.Namespace),
            argparse: Real(argparse, {
                "Namespace": Real(argparse.Namespace),
                "ArgumentParser": Fn(lambda ex, prog=None, description=None:
                                     Parser(W["world"]))}),
            argparse.ArgumentParser: Fn(
                lambda ex, prog=None, description=None: Parser(W["world"])),
            vars: Fn(lambda ex, o: PyDict(ex, o.d)
                     if isinstance(o, Namespace) else _uns()),
        }

        def _uns():
            raise Unsupported("vars")

        def thunk():
            W["world"] = w = World(ex)
            W["stdout"] = out = StdOut("-", "w")
            W["files"] = files = []
            node = self.M.funcs[entry]
            fn = UserFunc(node, None, self.M)
            boom = None
            try:
                fn.call(ex, [], {})
            except PyRaise as e:
                boom = e.exc
            for f in files:
                fp.check("an output file is closed whatever happens",
                         f.closed)
            if boom is not None:
                fp.check("no failure of its own",
                         boom.cls is RuntimeError)
                return
            conv = [e[1] for e in ex.events if e[0] == "convert"]
            fp.check("one conversion", len(conv) == 1)
            if len(conv) != 1:
                return
            t = conv[0]
            fp.check("the plain core, with -f the one with the trace port",
                     t.m.kind == ("FormalTop" if w.f else "Top"))
            given = w.n is not None and ex.truth(w.n)
            if given:
                fp.check("top-level name as requested by -n", t.name is w.n)
            elif w.o is not None or w.f:
                fp.check("default name sentinel", t.name == "sentinel")
            wr = [e for e in ex.events if e[0] == "write"]
            fp.check("the Verilog text is written once and nothing else is",
                     len(wr) == 1 and wr[0][2] is t)
            tofile = w.o is not None and ex.truth(w.o) and \
                not ex.truth(ex.eq(w.o, "-"))
            if len(wr) == 1:
                dst = wr[0][1]
                if tofile:
                    fp.check("to the file named by -o", isinstance(
                        dst, FileObj) and dst.path is w.o and
                        dst.mode == "w")
                else:
                    fp.check("to standard output without -o or with -o -",
                             dst is out)
            fp.check("no other file is opened",
                     len(files) == (1 if tofile else 0))
            fp.check("standard output stays open", not out.closed)
        fp.run("gen." + entry, thunk)
