"""C20: the instruction and CSR definitions are those of the RISC-V manuals.

Each accessor of the real ``sentinel.insn.Insn`` and each field of the real
layouts in ``sentinel.csr`` is a function of a 32-bit word.  It is called on a
symbolic word (an Amaranth signal), the value it returns is lowered to
Amaranth's netlist, and its postcondition - the bits the manual names - is
proved for all words.  Enumerated constants are ground facts, checked by
evaluation, one obligation each.
"""
import random
import time
import traceback

import env
import check
import netlist
import term as t
from amaranth import Cat, Module, Shape, Signal, unsigned
from amaranth.hdl import Elaboratable, Value
from amaranth.hdl import _ir

TRUSTED = [
    "Amaranth's lowering of a value to its netlist (NIR) and netlist.py's "
    "reading of it; term.py simplifier, z3 and cvc5",
    "isa.py: the reading of the RISC-V unprivileged and privileged manuals",
]
ASSUME = ["the word handed to Insn or to a CSR layout is 32 bits wide",
          "names the manuals do not know, and names the tree does not "
          "define, carry no obligation"]


def b(x, hi, lo):
    return t.ext(x, hi, lo)


def sx(x, *parts):
    """immediate: parts low to high, then the sign to 32 bits"""
    c = t.cat(*parts)
    return t.sext(t.cat(c, b(x, 31, 31)), 32) if c.w < 32 else c


Z = lambda n: t.const(0, n)  # noqa: E731

# accessor -> (postcondition, bits compared)
FIELDS = {
    "raw": lambda x: x,
    "opcode": lambda x: b(x, 6, 2),
    "rd": lambda x: b(x, 11, 7),
    "funct3": lambda x: b(x, 14, 12),
    "rs1": lambda x: b(x, 19, 15),
    "rs2": lambda x: b(x, 24, 20),
    "funct7": lambda x: b(x, 31, 25),
    "funct12": lambda x: b(x, 31, 20),
    "sign": lambda x: b(x, 31, 31),
    "csr.raw": lambda x: b(x, 31, 20),
    "csr.addr": lambda x: b(x, 31, 20),
    "csr.quadrant": lambda x: b(x, 29, 28),
    "csr.access": lambda x: b(x, 31, 30),
    "imm.raw": lambda x: x,
    "imm.sign": lambda x: b(x, 31, 31),
}
IMMS = {
    "imm.I": lambda x: sx(x, b(x, 30, 20)),
    "imm.S": lambda x: sx(x, b(x, 11, 7), b(x, 30, 25)),
    "imm.B": lambda x: sx(x, Z(1), b(x, 11, 8), b(x, 30, 25), b(x, 7, 7)),
    "imm.U": lambda x: t.cat(Z(12), b(x, 31, 12)),
    "imm.J": lambda x: sx(x, Z(1), b(x, 30, 21), b(x, 20, 20),
                          b(x, 19, 12)),
}
OPCODE = {"OP_IMM": 4, "LUI": 13, "AUIPC": 5, "OP": 12, "JAL": 27,
          "JALR": 25, "BRANCH": 24, "LOAD": 0, "STORE": 8, "CUSTOM_0": 2,
          "MISC_MEM": 3, "SYSTEM": 28,
          "CUSTOM_1": 10, "CUSTOM_2": 22, "CUSTOM_3": 30, "AMO": 11,
          "LOAD_FP": 1, "STORE_FP": 9, "OP_FP": 20, "OP_IMM_32": 6,
          "OP_32": 14, "MADD": 16, "MSUB": 17, "NMSUB": 18, "NMADD": 19}
QUADRANT = {"UNPRIVILEGED": 0, "SUPERVISOR": 1, "HYPERVISOR": 2,
            "MACHINE": 3}
ACCESS = {"READ_ONLY": 3}
WORDS = {"ECALL": 0x00000073, "EBREAK": 0x00100073, "MRET": 0x30200073,
         "SRET": 0x10200073, "WFI": 0x10500073}
CSROP = {"RW": 1, "RS": 2, "RC": 3, "RWI": 5, "RSI": 6, "RCI": 7}
CAUSE = {"INSN_MISALIGNED": 0, "INSN_FAULT": 1, "ILLEGAL_INSN": 2,
         "BREAKPOINT": 3, "LOAD_MISALIGNED": 4, "LOAD_FAULT": 5,
         "STORE_MISALIGNED": 6, "STORE_FAULT": 7, "ECALL_UMODE": 8,
         "ECALL_SMODE": 9, "ECALL_MMODE": 11, "INSN_PAGE_FAULT": 12,
         "LOAD_PAGE_FAULT": 13, "STORE_PAGE_FAULT": 15, "MSOFT_INT": 3,
         "MTIMER_INT": 7, "MEXT_INT": 11}
MODE = {"DIRECT": 0, "VECTORED": 1}
ADDR = {
    "MVENDORID": 0xF11, "MARCHID": 0xF12, "MIMPID": 0xF13, "MHARTID": 0xF14,
    "MCONFIGPTR": 0xF15, "MSTATUS": 0x300, "MISA": 0x301, "MEDELEG": 0x302,
    "MIDELEG": 0x303, "MIE": 0x304, "MTVEC": 0x305, "MCOUNTEREN": 0x306,
    "MSTATUSH": 0x310, "MSCRATCH": 0x340, "MEPC": 0x341, "MCAUSE": 0x342,
    "MTVAL": 0x343, "MIP": 0x344, "MTINST": 0x34A, "MTVAL2": 0x34B,
    "MENVCFG": 0x30A, "MENVCFGH": 0x31A, "MSECCFG": 0x747,
    "MSECCFGH": 0x757, "MCYCLE": 0xB00, "MINSTRET": 0xB02,
    "MCYCLEH": 0xB80, "MINSTRETH": 0xB82, "MCOUNTINHIBIT": 0x320,
    "TSELECT": 0x7A0, "TDATA1": 0x7A1, "TDATA2": 0x7A2, "TDATA3": 0x7A3,
    "MCONTEXT": 0x7A8, "DCSR": 0x7B0, "DPC": 0x7B1, "DSCRATCH0": 0x7B2,
    "DSCRATCH1": 0x7B3,
}
ADDR.update({"PMPCFG%d" % i: 0x3A0 + i for i in range(16)})
ADDR.update({"PMPADDR%d" % i: 0x3B0 + i for i in range(64)})
ADDR.update({"MHPMCOUNTER%d" % i: 0xB00 + i for i in range(3, 32)})
ADDR.update({"MHPMCOUNTER%dH" % i: 0xB80 + i for i in range(3, 32)})
ADDR.update({"MHPMEVENT%d" % i: 0x320 + i for i in range(3, 32)})
# layout -> field -> bits
LAYOUTS = {
    "MStatus": {"mie": (3, 3), "mpie": (7, 7), "mpp": (12, 11)},
    "MTVec": {"mode": (1, 0), "base": (31, 2)},
    "MIP": {"msip": (3, 3), "mtip": (7, 7), "meip": (11, 11)},
    "MIE": {"msie": (3, 3), "mtie": (7, 7), "meie": (11, 11)},
    "MCause": {"cause": (30, 0), "interrupt": (31, 31)},
}


X, NEW = t.var("word", 32), t.var("new", 32)


def second(w):
    """the value assigned when the word is w (simulator runs only)"""
    return (w * 0x9E3779B1 + 0x7F4A7C15 >> 3 ^ w >> 7) & 0xFFFFFFFF


class Absent(Exception):
    pass


def path(o, dotted):
    for p in dotted.split("."):
        if not hasattr(type(o), p) and not hasattr(o, p):
            raise Absent(dotted)
        o = getattr(o, p)
    return o


def value(v):
    return v if isinstance(v, Value) else Value.cast(v)


FORMS = {
    "a signal": lambda w: w,
    "a concatenation": lambda w: Cat(w[:13], w[13:32]),
    "a slice of a wider value": lambda w: Cat(~w[0], w, w[3:9])[1:33],
}


def accessor(name, form):
    """the value a real accessor returns for the word"""
    from sentinel.insn import Insn
    return lambda w: value(path(Insn(FORMS[form](w)), name))


def comparison(name, cls, member):
    def f(w):
        from sentinel import insn, csr
        E = path(insn if hasattr(insn, cls) else csr, cls)
        return value(path(insn.Insn(w), name) == path(E, member))
    return f


def layout(cls, field):
    def f(w):
        from sentinel import csr
        try:
            return value(getattr(path(csr, cls)(w), field))
        except AttributeError:
            raise Absent(field)
    return f


def write(cls, field):
    """the word after the real field is assigned the number of bits it has"""
    def f(w, new, m):
        from sentinel import csr
        r = Signal(path(csr, cls))
        m.d.comb += r.eq(w)
        try:
            g = value(getattr(r, field))
        except AttributeError:
            raise Absent(field)
        m.d.comb += g.eq(new)
        return value(r)
    f.writes = True
    return f


class Probe(Elaboratable):
    """out = f(word), in as many bits as asked."""

    def __init__(self, f, n):
        self.word = Signal(32)
        self.new = Signal(32)
        self.out = Signal(n)
        self.f, self.n = f, n

    def value(self, m):
        if hasattr(self.f, "writes"):
            return self.f(self.word, self.new, m)
        return self.f(self.word)

    def elaborate(self, platform):
        m = Module()
        m.d.comb += self.out.eq(self.value(m))
        return m

    def term(self, x):
        d = netlist.Design(self, ports={
            "word": (self.word, _ir.PortDirection.Input),
            "new": (self.new, _ir.PortDirection.Input),
            "out": (self.out, _ir.PortDirection.Output)})
        return netlist.Cycle(d, {}, {"word": x, "new": NEW}).port("out")

    def run(self, words):
        from amaranth.sim import Simulator
        sim = Simulator(self)
        got = []

        async def tb(ctx):
            for w, n in words:
                ctx.set(self.word, w)
                ctx.set(self.new, n)
                got.append(ctx.get(self.out))
        sim.add_testbench(tb)
        sim.run()
        return got


def put(x, hi, lo):
    """x with bits hi..lo replaced by the low bits of the new value"""
    return t.cat(*([b(x, lo - 1, 0)] if lo else [])
                 + [b(NEW, hi - lo, 0)]
                 + ([b(x, 31, hi + 1)] if hi < 31 else []))


def functions():
    """(name, f, post, bits)"""
    for n, s in FIELDS.items():
        for form in FORMS:
            yield ("insn.Insn.%s of %s" % (n, form), accessor(n, form), s, 40)
    for n, s in IMMS.items():
        for form in FORMS:
            yield ("insn.Insn.%s of %s" % (n, form), accessor(n, form), s, 32)
    for n, cls, tab in (("opcode", "OpcodeType", OPCODE),
                        ("csr.quadrant", "Quadrant", QUADRANT),
                        ("csr.access", "AccessMode", ACCESS)):
        for mem, v in tab.items():
            yield ("insn.Insn.%s == %s.%s" % (n, cls, mem),
                   comparison(n, cls, mem),
                   lambda x, n=n, v=v: t.eq(
                       FIELDS[n](x), t.const(v, FIELDS[n](x).w)), 1)
    for cls, fs in LAYOUTS.items():
        for f, (hi, lo) in fs.items():
            yield ("csr.%s.%s" % (cls, f), layout(cls, f),
                   lambda x, hi=hi, lo=lo: b(x, hi, lo), 40)
            yield ("csr.%s.%s assigned" % (cls, f), write(cls, f),
                   lambda x, hi=hi, lo=lo: put(x, hi, lo), 40)


def tables():
    """(name, get, value)"""
    for n, v in WORDS.items():
        yield "insn.Insn.%s" % n, "insn", "Insn." + n, v
    for n, v in CSROP.items():
        yield "insn.Insn.CSR.%s" % n, "insn", "Insn.CSR." + n, v
    for cls, mod, tab in (("OpcodeType", "insn", OPCODE),
                          ("Quadrant", "csr", QUADRANT),
                          ("AccessMode", "csr", ACCESS),
                          ("MCause.Cause", "csr", CAUSE),
                          ("MTVec.Mode", "csr", MODE),
                          ("MachineAddr", "csr", ADDR)):
        for n, v in tab.items():
            yield "%s.%s.%s" % (mod, cls, n), mod, "%s.%s" % (cls, n), v
    for cls in LAYOUTS:
        yield "csr.%s is 32 bits wide" % cls, "csr", cls, None


def constant(mod, p):
    import importlib
    o = path(importlib.import_module("sentinel." + mod), p)
    return o


def table_holds(mod, p, v):
    o = constant(mod, p)
    if v is None:
        return Shape.cast(o).width == 32, Shape.cast(o).width
    x = getattr(o, "value", o)
    return x == v, x


def run(prop, tier):
    import registry
    from solver import Solver
    t0 = time.time()
    rng = random.Random(check.SEED)
    check.DEADLINE[0] = time.time() + check.LIMIT
    # thorough: every obligation to both solvers too, none to the simplifier
    sol = Solver(cross=tier == "thorough")
    x = X
    obl, ok, absent, fails, stuck, by = 0, 0, [], [], [], {}
    hit = None
    crossed = 0
    words = [(w, second(w)) for w in [0, 0xFFFFFFFF] + [1 << i for i in range(32)] + [
        0xFFFFFFFF ^ 1 << i for i in range(32)] + [
        rng.getrandbits(32) for _ in range(40 if tier == "quick" else 2000)]]
    for name, f, post, n in functions():
        p = Probe(f, n)
        try:
            p.value(Module())
        except Absent:
            absent.append(name)
            continue
        except Exception as e:
            obl += 1
            fails.append({"name": name, "what": "isa", "path": None})
            if not hit:
                hit = {"kind": "isa", "name": name, "word": None,
                       "message": "%s raises %r" % (name, e)}
            continue
        obl += 1
        want = t.zext(post(x), n)
        bad = None
        try:
            goal = t.eq(p.term(x), want)
            if tier == "thorough":
                r, m = thorough(sol, p.term(x), want)
            else:
                r, m = sol.prove([], goal)
            if r == "proved":
                ok += 1
                by[m] = by.get(m, 0) + 1
            elif r == "refuted":
                bad = m(x), m(NEW)
                fails.append({"name": name, "what": "isa", "path": None})
            else:
                stuck.append(name)
        except Exception:
            stuck.append(name + ": " + traceback.format_exc()[-400:])
        # Amaranth's simulator: the counterexample, or a cross-check
        try:
            ws = words if bad is None else [bad] + words
            got = p.run(ws)
        except Exception:
            if bad is None:
                stuck.append(name + ": " + traceback.format_exc()[-400:])
            continue
        crossed += len(ws)
        for (w, new), g in zip(ws, got):
            e = t.evalc(want, {"word": w, "new": new})
            if g != e:
                if not any(z["name"] == name for z in fails):
                    # the proof and the simulator disagree
                    fails.append({"name": name, "what": "isa", "path": None})
                    ok -= 1
                if not hit or hit["word"] is None:
                    hit = {"kind": "isa", "name": name, "word": w,
                           "new": new,
                           "message": "%s of the word 0x%08x is 0x%x; the "
                           "manual says 0x%x" % (name, w, g, e)}
                break
    for name, mod, p, v in tables():
        try:
            good, got = table_holds(mod, p, v)
        except Absent:
            absent.append(name)
            continue
        except Exception as e:
            good, got = False, repr(e)
        obl += 1
        if good:
            ok += 1
            by["evaluation"] = by.get("evaluation", 0) + 1
        else:
            fails.append({"name": name, "what": "isa", "path": None})
            if not hit:
                hit = {"kind": "isa", "name": name, "word": None,
                       "message": "%s is %s; the manual says %s" % (
                           name, got, 32 if v is None else "0x%x" % v)}
    st = sol.st
    cov = {"obligations": obl, "discharged": ok,
           "checker_cmd": "/opt/venv/bin/python sv/check.py %s %s"
           % (prop, tier), "trusted_base": TRUSTED,
           "functions_under_contract": sorted(
               {n.split(" ")[0] for n, *_ in functions()}),
           "tables": sorted({n.rsplit(".", 1)[0] for n, *_ in tables()}),
           "discharged_by": by, "solver_queries": st.queries,
           "solver_time_s": round(st.time, 3),
           "cvc5_agreed": st.cvc5_agree, "cvc5_undecided": st.cvc5_unknown,
           "simulator_crosscheck_words": crossed,
           "names_without_obligation": absent,
           "refuted": [f["name"] for f in fails][:40],
           "outside_reach": stuck[:20]}
    if not obl:
        print("MACHINERY ERROR: no obligations")
        return 4
    known = check.known_findings(prop)
    for k in known:
        if any(f["name"] == k for f in fails):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    left = [f for f in fails if f["name"] not in known]
    rc, level = 0, "proof"
    if left:
        rc = 1
        rp = registry.write_replay(prop, left, hit, {
            "verified_with_their_caller": {}})
        for f in left[:10]:
            print("failed obligation: %s" % f["name"])
        if hit:
            print("failing input: %s" % hit["message"])
        print("VIOLATION property=%s replay=%s%s" % (
            prop, rp, "" if hit else " no-failing-input-found"))
    elif stuck:
        level = "exploration"
        cov.update(bounded_stand_in="simulator on chosen and random words",
                   evaluations=crossed, distinct_nontrivial=crossed,
                   rule="walking ones and zeros, seeded random words",
                   samples=[])
        for s in stuck[:5]:
            print("outside the verifier's reach: %s" % s)
        print("BOUNDED: no disagreement on %d words; the property is not "
              "proved on this tree" % crossed)
    registry.write_evidence(prop, tier, level, cov, time.time() - t0,
                            len(left), ASSUME)
    if rc == 0 and level == "proof":
        print("property %s holds: %d obligations discharged (%s) in %.1f s"
              % (prop, ok, ", ".join("%d %s" % (v, k)
                                     for k, v in by.items()),
                 time.time() - t0))
    return rc


def thorough(sol, got, want):
    """Past the simplifier: z3 and cvc5 on the unsimplified equation."""
    import z3
    s = z3.SolverFor("QF_UFBV")
    s.add(sol.z.v(got) != sol.z.v(want))
    t0 = time.time()
    r = str(s.check())
    sol.st.queries += 1
    sol.st.time += time.time() - t0
    if r == "unsat":
        sol._cross(s)
        sol.st.by["z3"] += 1
        return "proved", "z3"
    if r == "sat":
        from solver import Model
        return "refuted", Model(sol.z, s.model())
    return "unknown", s.reason_unknown()


def rerun(run):
    """Message if the recorded input still fails."""
    for name, f, post, n in functions():
        if name == run["name"]:
            p = Probe(f, n)
            try:
                p.value(Module())
                if run["word"] is None:
                    return None
                g = p.run([(run["word"], run["new"])])[0]
            except Absent:
                return None
            except Exception as e:
                return "%s raises %r" % (name, e)
            e = t.evalc(t.zext(post(X), n),
                        {"word": run["word"],
                         "new": run["new"]})
            return None if g == e else \
                "%s of the word 0x%08x is 0x%x; the manual says 0x%x" % (
                    name, run["word"], g, e)
    for name, mod, p, v in tables():
        if name == run["name"]:
            try:
                good, got = table_holds(mod, p, v)
            except Absent:
                return None
            except Exception as e:
                return "%s: %r" % (name, e)
            return None if good else "%s is %s" % (name, got)
    return None
