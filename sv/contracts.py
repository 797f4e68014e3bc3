"""Contracts of the core's components, function by function.

For every component class of /repo listed here the table gives, for its
`elaborate` function, the contract a caller may rely on: its state variables,
their reset values, and what its outputs and next state are for every input
(the precondition is `true`; the frame is everything the function drives).

A component's contract is discharged against the component's own netlist
alone, for all inputs and all states (`prove`).  Its callers are then verified
against the contract: in their netlist the component is an `sv_contract`
instance, its body is not looked at (`Modular`).  A component that does not
meet its contract is not an error by itself - the contract says more than the
core needs - its body is then verified together with its caller.

Each contract is a function (I, S) -> (outputs, next state), both as
dictionaries of thunks over I (inputs) and S (state variables).
"""
import importlib

import env  # noqa: F401
import spec
import term as t
from term import add, and_, cat, const, eq, ext, ite, not_, or_, sext, sub, \
    xor_, zext
from amaranth.hdl import Module, Instance, ResetSignal
from amaranth.hdl import _ast, _ir, _nir, _xfrm
import netlist
from netlist import Cycle, Design, Unsupported

TABLE = []


class Contract:
    def __init__(self, module, cls, fn, state, ports, text):
        self.module, self.cls, self.fn = module, cls, fn
        self.state, self.ports, self.text = state, ports, text

    @property
    def name(self):
        return "%s.%s.elaborate" % (self.module, self.cls)


def contract(module, cls, state=None, ports=None):
    """state: {variable: (signal, low bit, width, reset value)}"""
    def deco(fn):
        TABLE.append(Contract(module, cls, fn, state or {}, ports,
                              " ".join((fn.__doc__ or "").split())))
        return fn
    return deco


class E:
    """Encodings of an enumeration of /repo, by name."""

    def __init__(self, module, name):
        self.m, self.n = module, name

    def __call__(self, member, w):
        cls = importlib.import_module("sentinel." + self.m)
        for p in self.n.split("."):
            cls = getattr(cls, p)
        v = getattr(cls, member)
        return const(getattr(v, "value", v), w)

    def is_(self, x, *members):
        return t.disj([eq(x, self(m, x.w)) for m in members])


U = {n: E("ucodefields", n) for n in (
    "OpType", "ALUIMod", "ALUOMod", "ASrc", "BSrc", "MemSel", "MemExtend",
    "JmpType", "PcAction", "CSROp", "ExceptCtl")}
OPC = E("insn", "OpcodeType")
CAUSE = E("csr", "MCause.Cause")
QUAD = E("csr", "Quadrant")


def switch(x, enum, cases, default):
    """cases: [(member names, thunk)]; the values are distinct."""
    r = default
    for members, v in reversed(cases):
        c = enum.is_(x, *members.split())
        if c is t.FALSE:
            continue
        r = ite(c, v(), r)
    return r


# ------------------------------------------------------------------ align.py

def read_align(sel, extend, adr, word):
    """The selected byte or half-word of a bus word, extended to 32 bits."""
    M, X = U["MemSel"], U["MemExtend"]
    lo = ext(adr, 1, 0)
    by = ite(eq(lo, const(0, 2)), ext(word, 7, 0),
             ite(eq(lo, const(1, 2)), ext(word, 15, 8),
                 ite(eq(lo, const(2, 2)), ext(word, 23, 16),
                     ext(word, 31, 24))))
    hw = ite(t.bit(adr, 1), ext(word, 31, 16), ext(word, 15, 0))
    sg = X.is_(extend, "SIGN")
    return switch(sel, M, [
        ("BYTE", lambda: ite(sg, sext(by, 32), zext(by, 32))),
        ("HWORD", lambda: ite(sg, sext(hw, 32), zext(hw, 32))),
        ("WORD", lambda: word)], const(0, 32))


@contract("align", "ReadDataAlign")
def _read(I, S):
    """data = the byte/half/word of wb_dat_r addressed by latched_adr, sign-
    or zero-extended; 0 if no size is selected."""
    return {"data": lambda: read_align(I["mem_sel"], I["mem_extend"],
                                       I["latched_adr"], I["wb_dat_r"])}, {}


@contract("align", "WriteDataAlign")
def _write(I, S):
    """wb_dat_w = the byte/half/word of data in the lanes addressed by
    latched_adr, 0 in the other lanes; 0 if no size is selected."""
    def out():
        M, d, a = U["MemSel"], I["data"], I["latched_adr"]
        lo = ext(a, 1, 0)
        by = cat(*[ite(eq(lo, const(k, 2)), ext(d, 7, 0), const(0, 8))
                   for k in range(4)])
        h = t.bit(a, 1)
        z = const(0, 16)
        hw = cat(ite(h, z, ext(d, 15, 0)), ite(h, ext(d, 15, 0), z))
        return switch(I["mem_sel"], M, [
            ("BYTE", lambda: by), ("HWORD", lambda: hw),
            ("WORD", lambda: d)], const(0, 32))
    return {"wb_dat_w": out}, {}


@contract("align", "AddressAlign")
def _addr(I, S):
    """On a request: pc and all lanes for an instruction fetch, otherwise the
    word of latched_adr and exactly the addressed lanes; all zero without a
    request."""
    def pick(f, d):
        return ite(t.nonzero(I["mem_req"]),
                   ite(t.nonzero(I["insn_fetch"]), f, d), const(0, f.w))

    def sel():
        a = I["latched_adr"]
        by = cat(*[eq(ext(a, 1, 0), const(k, 2)) for k in range(4)])
        h = t.bit(a, 1)
        hw = cat(not_(h), not_(h), h, h)
        return pick(const(15, 4), switch(I["mem_sel"], U["MemSel"], [
            ("BYTE", lambda: by), ("HWORD", lambda: hw),
            ("WORD", lambda: const(15, 4))], const(0, 4)))
    return {"wb_adr": lambda: pick(I["pc"], ext(I["latched_adr"], 31, 2)),
            "wb_sel": sel}, {}


# -------------------------------------------------------------------- alu.py

@contract("alu", "ASrcMux", {"data": ("data", 0, 32, 0)})
def _asrc(I, S):
    """latch: data' = the selected source; otherwise (or for an unused
    selector) data' = data."""
    def nxt():
        return ite(t.nonzero(I["latch"]), switch(I["sel"], U["ASrc"], [
            ("GP", lambda: I["gp"]), ("IMM", lambda: I["imm"]),
            ("ZERO", lambda: const(0, 32)), ("ALU_O", lambda: I["alu"]),
            ("FOUR", lambda: const(4, 32)),
            ("NEG_ONE", lambda: const(-1, 32)),
            ("THIRTY_ONE", lambda: const(31, 32))], S["data"]), S["data"])
    return {"data": lambda: S["data"]}, {"data": nxt}


@contract("alu", "BSrcMux", {"data": ("data", 0, 32, 0)})
def _bsrc(I, S):
    """latch: data' = the selected source (PC as a byte address, read data
    aligned and extended, CSR immediate zero-extended); otherwise data' =
    data."""
    def nxt():
        return ite(t.nonzero(I["latch"]), switch(I["sel"], U["BSrc"], [
            ("GP", lambda: I["gp"]), ("IMM", lambda: I["imm"]),
            ("ONE", lambda: const(1, 32)),
            ("PC", lambda: cat(const(0, 2), I["pc"])),
            ("DAT_R", lambda: read_align(I["mem_sel"], I["mem_extend"],
                                         I["data_adr"], I["dat_r"])),
            ("CSR_IMM", lambda: zext(I["csr_imm"], 32)),
            ("CSR", lambda: I["csr"]),
            ("MCAUSE_LATCH", lambda: I["mcause"])], S["data"]), S["data"])
    return {"data": lambda: S["data"]}, {"data": nxt}


@contract("alu", "ALU", {"o": ("o", 0, 32, 0)})
def _alu(I, S):
    """o' = op(a, b), operands with inverted sign bits if INV_MSB_A_B; bit 0
    of the result inverted or cleared as omod says; zero = (o = 0)."""
    def nxt():
        inv = U["ALUIMod"].is_(I["ctrl__imod"], "INV_MSB_A_B")
        x, y = [cat(ext(v, 30, 0), xor_(t.bit(v, 31), inv))
                for v in (I["a"], I["b"])]
        r = switch(I["ctrl__op"], U["OpType"], [
            ("ADD", lambda: add(x, y)), ("SUB", lambda: sub(x, y)),
            ("AND", lambda: and_(x, y)), ("OR", lambda: or_(x, y)),
            ("XOR", lambda: xor_(x, y)),
            ("SLL", lambda: cat(const(0, 1), ext(x, 30, 0))),
            ("SRL", lambda: cat(ext(x, 31, 1), const(0, 1))),
            ("SRA", lambda: cat(ext(x, 31, 1), t.bit(x, 31))),
            ("CMP_LTU", lambda: zext(t.ult(x, y), 32))], const(0, 32))
        b0 = t.bit(r, 0)
        b0 = switch(I["ctrl__omod"], U["ALUOMod"], [
            ("INV_LSB_O", lambda: not_(b0)),
            ("CLEAR_LSB_O", lambda: const(0, 1))], b0)
        return cat(b0, ext(r, 31, 1))
    return {"o": lambda: S["o"],
            "ctrl__zero": lambda: eq(S["o"], const(0, 32))}, {"o": nxt}


# --------------------------------------------------------------- datapath.py

@contract("datapath", "ProgramCounter", {"pc": ("dat_r", 0, 30, 0)})
def _pc(I, S):
    """INC: pc' = pc + 1 word; LOAD_ALU_O: pc' = dat_w; otherwise unchanged."""
    def nxt():
        return switch(I["ctrl__action"], U["PcAction"], [
            ("INC", lambda: add(S["pc"], const(1, 30))),
            ("LOAD_ALU_O", lambda: I["dat_w"])], S["pc"])
    return {"dat_r": lambda: S["pc"]}, {"pc": nxt}


@contract("datapath", "CSRFile", {
    "mie": ("mstatus", 3, 1, 0), "mpie": ("mstatus", 7, 1, 0),
    "meie": ("mie", 11, 1, 0), "buf": ("read_buf", 0, 32, 0),
    "prev": ("prev_csr_adr", 0, 5, 0)})
def _csr(I, S):
    """mstatus, mie and mip are registers/wires here, every other CSR is word
    32+adr of the register memory.  Writes set exactly MIE/MPIE or MEIE; trap
    entry and return move MIE/MPIE; reads of the three deliver their value in
    the next cycle; the low bits of mtvec and mepc are written as 0."""
    A = {"MSTATUS": 0, "MIE": 4, "MTVEC": 5, "MEPC": 9, "MIP": 12}
    at = lambda x, *n: t.disj([eq(x, const(A[k], 5)) for k in n])  # noqa
    op = lambda n: U["CSROp"].is_(I["pub__ctrl__op"], n)  # noqa: E731
    ex = lambda n: U["ExceptCtl"].is_(I["pub__ctrl__exception"], n)  # noqa
    z = lambda n: const(0, n)  # noqa: E731
    meip = lambda: t.bit(I["pub__mip_w"], 11)  # noqa: E731

    def mst():
        return cat(z(3), S["mie"], z(3), S["mpie"], z(3), const(3, 2), z(19))

    def wr(k, b, old):
        return ite(and_(op("WRITE_CSR"), at(I["pub__adr"], k)),
                   t.bit(I["pub__dat_w"], b), old)

    def buf():
        r = S["buf"]
        for k, v in (("MSTATUS", mst),
                     ("MIE", lambda: cat(z(11), S["meie"], z(20))),
                     ("MIP", lambda: cat(z(11), meip(), z(20)))):
            r = ite(and_(op("READ_CSR"), at(I["pub__adr"], k)), v(), r)
        return r
    outs = {
        "pub__dat_r": lambda: ite(at(S["prev"], "MSTATUS", "MIE", "MIP"),
                                  S["buf"], I["priv__dat_r"]),
        "pub__mstatus_r": mst,
        "pub__mie_r": lambda: cat(z(11), S["meie"], z(20)),
        "pub__mip_r": lambda: cat(z(11), meip(), z(20)),
        "priv__adr": lambda: I["pub__adr"],
        "priv__op": lambda: I["pub__ctrl__op"],
        "priv__dat_w": lambda: cat(
            ite(at(I["pub__adr"], "MTVEC", "MEPC"), z(2),
                ext(I["pub__dat_w"], 1, 0)), ext(I["pub__dat_w"], 31, 2))}
    return outs, {
        "mie": lambda: ite(ex("ENTER_INT"), z(1),
                           ite(ex("LEAVE_INT"), S["mpie"],
                               wr("MSTATUS", 3, S["mie"]))),
        "mpie": lambda: ite(ex("ENTER_INT"), S["mie"],
                            ite(ex("LEAVE_INT"), const(1, 1),
                                wr("MSTATUS", 7, S["mpie"]))),
        "meie": lambda: wr("MIE", 11, S["meie"]),
        "buf": buf, "prev": lambda: I["pub__adr"]}


# -------------------------------------------------------------- exception.py

@contract("exception", "ExceptionRouter", {"cause": ("mcause_latch", 0, 32,
                                                     0)})
def _router(I, S):
    """The exception output is raised exactly for: the decoder's exception or
    an enabled pending interrupt (which wins), a misaligned store, load or
    jump target, in the microcycle that asks for it; the cause is latched
    then and only then."""
    E_ = U["ExceptCtl"]
    ctl = lambda n: E_.is_(I["src__ctrl__except_ctl"], n)  # noqa: E731

    def irq():
        return t.conj([t.bit(I["src__csr__mstatus"], 3),
                       t.bit(I["src__csr__mip"], 11),
                       t.bit(I["src__csr__mie"], 11)])

    def mis():
        M, lo = U["MemSel"], I["src__alu_lo"]
        return or_(and_(M.is_(I["src__ctrl__mem_sel"], "HWORD"),
                        t.bit(lo, 0)),
                   and_(M.is_(I["src__ctrl__mem_sel"], "WORD"),
                        t.nonzero(lo)))

    def raised():
        return t.disj([
            and_(ctl("LATCH_DECODER"), or_(t.bit(I["src__decode"], 0),
                                           irq())),
            and_(or_(ctl("LATCH_STORE_ADR"), ctl("LATCH_LOAD_ADR")), mis()),
            and_(ctl("LATCH_JAL"), t.bit(I["src__alu_lo"], 1))])

    def cause():
        c = lambda n: cat(CAUSE(n, 31), const(0, 1))  # noqa: E731
        r = S["cause"]
        d = I["src__decode"]
        for n, k in (("LATCH_STORE_ADR", "STORE_MISALIGNED"),
                     ("LATCH_LOAD_ADR", "LOAD_MISALIGNED")):
            r = ite(and_(ctl(n), mis()), c(k), r)
        r = ite(and_(ctl("LATCH_JAL"), t.bit(I["src__alu_lo"], 1)),
                c("INSN_MISALIGNED"), r)
        r = ite(and_(ctl("LATCH_DECODER"), t.bit(d, 0)),
                cat(ext(d, 31, 1), const(0, 1)), r)
        return ite(and_(ctl("LATCH_DECODER"), irq()),
                   const(spec.MCAUSE_EXT_INT, 32), r)
    return {"src__ctrl__exception": raised, "out__exception": raised,
            "out__mcause": lambda: S["cause"]}, {"cause": cause}


# ----------------------------------------------------------------- decode.py

def _idx(csr):
    """The eight low and two high bits of a CSR number."""
    return (csr & 0xff) | (csr >> 10) << 8


@contract("decode", "CSRAttributes", {"data": ("data", 0, 2, 0)})
def _attr(I, S):
    """data' = (absent, read-only zero) for the CSR in the machine quadrant
    with the given low and high address bits."""
    def nxt():
        a = I["addr"]
        i = cat(ext(a, 7, 0), ext(a, 11, 10))
        ro0 = {_idx(c) for c in spec.READ_ONLY_ZERO}
        imp = {_idx(c) for c in spec.IMPLEMENTED}
        return cat(not_(spec._in(i, ro0 | imp)), spec._in(i, ro0))
    return {"data": lambda: S["data"]}, {"data": nxt}


@contract("decode", "ImmediateGenerator", {"imm": ("imm", 0, 32, 0)})
def _imm(I, S):
    """enable: imm' = the I/S/B/U/J immediate its opcode calls for (kept for
    opcodes without one); otherwise imm' = imm."""
    def nxt():
        f = spec.F(I["insn"])
        return ite(I["enable"], switch(ext(f.raw, 6, 2), OPC, [
            ("OP_IMM JALR LOAD", lambda: f.immI),
            ("LUI AUIPC", lambda: f.immU), ("JAL", lambda: f.immJ),
            ("BRANCH", lambda: f.immB), ("STORE", lambda: f.immS)],
            S["imm"]), S["imm"])
    return {"imm": lambda: S["imm"]}, {"imm": nxt}


@contract("decode", "ExceptionControl", {
    "fwd": ("forward_csr", 0, 1, 0), "valid": ("exception", 0, 1, 0),
    "e_type": ("exception", 1, 31, 0), "quad": ("csr_quadrant", 0, 2, 0),
    "op": ("csr_op", 0, 3, 0), "ro": ("csr_ro_space", 0, 1, 0),
    "src_a": ("src_a", 0, 5, 0)})
def _exc(I, S):
    """The cycle after start: valid iff the word is not a legal encoding, or
    ECALL/EBREAK, with its cause; CSR instructions are judged one cycle
    later, from the attributes of the CSR: absent, a write to the read-only
    quarter, or not machine-level."""
    f = None

    def F():
        nonlocal f
        if f is None:
            f = spec.F(I["insn"])
        return f

    def csr():
        return not_(F().f3is(0, 4))

    def is_(v):
        return eq(F().raw, const(v, 32))

    def opcode(n):
        return OPC.is_(ext(F().raw, 6, 2), n)

    def bad():
        """Not a legal encoding (CSR instructions count as legal here)."""
        g = F()
        k = ext(g.raw, 6, 2)
        n = not_
        return or_(n(eq(ext(g.raw, 1, 0), const(3, 2))), switch(k, OPC, [
            ("LUI AUIPC JAL", lambda: t.FALSE),
            ("OP_IMM", lambda: t.disj([
                and_(g.f3is(1), n(g.f7is(0))),
                and_(g.f3is(5), n(g.f7is(0, 0x20)))])),
            ("OP", lambda: n(or_(g.f7is(0), and_(g.f7is(0x20),
                                                 g.f3is(0, 5))))),
            ("JALR MISC_MEM", lambda: n(g.f3is(0))),
            ("BRANCH", lambda: g.f3is(2, 3)),
            ("LOAD", lambda: g.f3is(3, 6, 7)),
            ("STORE", lambda: n(g.f3is(0, 1, 2))),
            ("SYSTEM", lambda: n(t.disj(
                [csr()] + [is_(v) for v in (spec.MRET, spec.WFI)])))],
            t.TRUE))

    def low():
        return eq(ext(I["insn"], 1, 0), const(3, 2))

    def valid():
        late = t.disj([
            t.bit(I["csr_attr"], 0),
            and_(S["ro"], or_(t.disj([eq(S["op"], const(k, 3))
                                      for k in (1, 5)]),
                              t.nonzero(S["src_a"]))),
            not_(QUAD.is_(S["quad"], "MACHINE"))])
        return ite(S["fwd"], late, and_(I["start"], bad()))

    def e_type():
        here = t.conj([not_(S["fwd"]), I["start"], low()])
        c = CAUSE
        return ite(and_(here, is_(spec.ECALL)), c("ECALL_MMODE", 31),
                   ite(and_(here, is_(spec.EBREAK)), c("BREAKPOINT", 31),
                       c("ILLEGAL_INSN", 31)))
    return {"exception": lambda: cat(S["valid"], S["e_type"])}, {
        "fwd": lambda: t.conj([
            I["start"], opcode("SYSTEM"), csr(),
            not_(t.disj([is_(v) for v in (spec.MRET, spec.WFI)]))]),
        "valid": valid, "e_type": e_type,
        "quad": lambda: ext(I["insn"], 29, 28),
        "op": lambda: F().f3,
        "ro": lambda: eq(ext(I["insn"], 31, 30), const(3, 2)),
        "src_a": lambda: ite(I["start"], F().rs1, S["src_a"])}


# ---------------------------------------------------------------- control.py

@contract("control", "MappingROM", {
    "req": ("requested_op", 0, 8, 0), "enc": ("csr_encoding", 0, 4, 0),
    "fwd": ("forward_csr", 0, 1, 0), "op": ("csr_op", 0, 3, 0),
    "src_a": ("src_a", 0, 5, 0), "dst": ("dst", 0, 5, 0)})
def _map(I, S):
    """The cycle after start: requested_op = the microcode entry point of the
    instruction; for CSR instructions one cycle later, by access kind."""
    f = None

    def F():
        nonlocal f
        if f is None:
            f = spec.F(I["insn"])
        return f

    def is_(*vs):
        return t.disj([eq(F().raw, const(v, 32)) for v in vs])

    def csr():
        return t.conj([OPC.is_(ext(F().raw, 6, 2), "SYSTEM"),
                       not_(F().f3is(0, 4)), not_(is_(spec.MRET, spec.WFI))])

    def req():
        g = F()
        k8 = lambda v: const(v, 8)  # noqa: E731
        f3, alt = g.f3, t.bit(g.f7, 5)
        early = switch(ext(g.raw, 6, 2), OPC, [
            ("OP_IMM", lambda: cat(f3, and_(alt, g.f3is(1, 5)),
                                   const(4, 4))),
            ("LUI", lambda: k8(0xD0)), ("AUIPC", lambda: k8(0x50)),
            ("OP", lambda: cat(f3, alt, const(0xC, 4))),
            ("JAL", lambda: k8(0xB0)), ("JALR", lambda: k8(0x98)),
            ("BRANCH", lambda: cat(f3, const(0x88 >> 3, 5))),
            ("LOAD", lambda: cat(f3, const(1, 5))),
            ("STORE", lambda: cat(f3, const(16, 5))),
            ("MISC_MEM", lambda: k8(0x30)),
            ("SYSTEM", lambda: ite(is_(spec.MRET), k8(0xF8),
                                   ite(is_(spec.WFI), k8(0x30),
                                       ite(csr(), k8(0x24), S["req"]))))],
            S["req"])
        r = ite(I["start"], early, S["req"])
        op = lambda *v: t.disj([eq(S["op"], const(x, 3)) for x in v])  # noqa
        d0 = eq(S["dst"], const(0, 5))
        s0 = eq(S["src_a"], const(0, 5))
        late = r
        for c, v in ((op(1), ite(d0, k8(0x26), k8(0x27))),
                     (op(5), ite(d0, k8(0x2B), k8(0x2C))),
                     (op(2), ite(s0, k8(0x28), k8(0x29))),
                     (op(3), ite(s0, k8(0x28), k8(0x2A))),
                     (op(6), ite(s0, k8(0x28), k8(0x2D))),
                     (op(7), ite(s0, k8(0x28), k8(0x2E)))):
            late = ite(c, v, late)
        ill, ro0 = t.bit(I["csr_attr"], 0), t.bit(I["csr_attr"], 1)
        return ite(and_(S["fwd"], not_(ill)), ite(ro0, k8(0x25), late), r)
    return {"requested_op": lambda: S["req"],
            "csr_encoding": lambda: S["enc"]}, {
        "req": req,
        "enc": lambda: ite(and_(I["start"], csr()),
                           cat(ext(F().csr, 2, 0), t.bit(F().csr, 6)),
                           S["enc"]),
        "fwd": lambda: and_(I["start"], csr()),
        "op": lambda: F().f3,
        "src_a": lambda: ite(I["start"], F().rs1, S["src_a"]),
        "dst": lambda: ite(I["start"], F().rd, S["dst"])}


@contract("control", "Sequencer", {
    "next": ("next_adr", 0, 8, 2), "guard": ("ice40_rst_guard", 0, 1, 1)},
    ports=(("target", "jmp_type", "opcode_adr", "vec_adr", "test"), ("adr",)))
def _seq(I, S):
    """adr = the next microinstruction: the one after the previous, the
    target, the decoder's entry point or 0, as jmp_type and test say; the
    first after reset is number 2."""
    def adr():
        c = t.nonzero(I["test"])
        x = switch(I["jmp_type"], U["JmpType"], [
            ("CONT", lambda: S["next"]),
            ("MAP", lambda: ite(c, I["target"], I["opcode_adr"])),
            ("DIRECT", lambda: ite(c, I["target"], S["next"])),
            ("DIRECT_ZERO", lambda: ite(c, I["target"], const(0, 8)))],
            const(2, 8))
        return ite(S["guard"], S["next"], x)
    return {"adr": adr}, {"next": lambda: add(adr(), const(1, 8)),
                          "guard": lambda: const(0, 1)}


# ------------------------------------------------------------------ machinery

class _Next:
    """Synthetic netlist cell: next value of a contract's state variable."""

    def __init__(self, inst, var):
        self.inst, self.var = inst, var


class Use:
    """An accepted contract of one component instance."""

    def __init__(self, con, ins, outs):
        self.con, self.ins, self.outs = con, ins, outs

    def thunks(self, I, S):
        return self.con.fn(I, S)


class Lazy(dict):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __missing__(self, k):
        v = self[k] = self.fn(k)
        return v


class Modular:
    """Builds a design in which components stand for their contracts."""

    def __init__(self, solver):
        self.sol = solver
        self.skip = {}          # contract -> why it is not used
        self.proved = {}        # contract -> [obligation names]
        self.uses = {}
        self.failed = None

    def build(self, make):
        """make() -> elaboratable; the modular Design of it."""
        for _ in range(len(TABLE) + 1):
            self.uses, self.hidden, self.xf = {}, [], []
            with self._patched():
                top = make()
                d = Design(top, uses=self.uses)
            bad = self._leaks(d)
            if self.xf:
                bad = {c.name: "elaboration is transformed by %s" % self.xf[0]
                       for c in {u.con for u in self.uses.values()}}
            if not bad:
                return top, d
            self.skip.update(bad)
        raise Unsupported("modular build")

    def _patched(self):
        return _Patch(self)

    def _leaks(self, d):
        """A hidden signal of a component used outside it: the contract does
        not speak about it, so the body has to be looked at."""
        bad = {}
        for con, sigs in self.hidden:
            for s in sigs:
                if s in d.nl.signals:
                    bad[con.name] = "signal %s is used outside" % s.name
        return bad

    # -------------------------------------------------- one component
    def visit(self, con, obj, body):
        """The fragment that stands for obj: its contract, if it meets it."""
        if con.name in self.skip:
            return body()
        try:
            frag = _ir.Fragment.get(body(), None)
            ports = _named_ports(con, obj)
            driven = _driven(frag)
            self._prove(con, obj, frag, ports, driven)
        except Unsupported as e:
            self.skip[con.name] = str(e)
        except Exception as e:      # a contract that cannot be stated here
            self.skip[con.name] = "%s: %s" % (type(e).__name__, e)
        if con.name in self.skip:
            return body()
        outs = [(n, s) for n, (s, d) in ports.items()
                if d == _ir.PortDirection.Output]
        ins = [(n, s) for n, (s, d) in ports.items()
               if d == _ir.PortDirection.Input]
        own = _ast.SignalSet(s for _, s in outs)
        self.hidden.append((con, [s for s in driven if s not in own]))
        k = len(self.uses)
        self.uses[k] = Use(con, [n for n, _ in ins], [n for n, _ in outs])
        m = Module()
        m.submodules.contract = Instance(
            "sv_contract", ("p", "id", k),
            *[("i", n, s) for n, s in ins],
            *([("i", "rst", ResetSignal("sync"))] if con.state else []),
            *[("o", n, s) for n, s in outs])
        return m

    def _prove(self, con, obj, frag, ports, driven):
        d = Design(obj, ports=ports, frag=frag, uses=self.uses)
        names = []
        # closed: nothing is read but the inputs and what is driven inside
        known = _ast.SignalSet(driven)
        known.update(s for s, _ in ports.values())
        for s in d.nl.signals:
            if s not in known and s.name not in ("clk", "rst"):
                raise Unsupported("reads %s, which is no input" % s.name)
        if d.mems:
            raise Unsupported("contains a memory")
        own = _ast.SignalSet(s for s, x in ports.values()
                             if x == _ir.PortDirection.Output)
        for s in own:
            if s not in driven:
                raise Unsupported("output %s is not driven" % s.name)
        I = {n: t.var("in." + n, w) for n, w in d.ins.items() if n != d.clk}
        for n, (s, x) in ports.items():
            if x == _ir.PortDirection.Input and n not in I:
                I[n] = t.var("in." + n, len(s))
        if con.state:
            I.setdefault("rst", t.var("in.rst", 1))
        rst = I.get("rst", t.FALSE)
        S = {n: t.var("s." + n, w) for n, (_, _, w, _) in con.state.items()}
        where = self._places(con, d)
        st, nxt = self._state(con, d, S, I, where)
        c = Cycle(d, st, I)
        outs, nexts = con.fn(I, S)
        names_o = [n for n, (s, x) in ports.items()
                   if x == _ir.PortDirection.Output]
        if set(outs) != set(names_o) or set(nexts) != set(con.state):
            raise Unsupported("the outputs or state are others")
        for n in names_o:
            self._obl(con, names, "%s.post.%s" % (con.cls, n),
                      t.eq(c.port(n), outs[n]()))
        c2 = c.next_state()
        for n, (_, _, w, init) in con.state.items():
            got = cat(*[t.bit(c2[i], b) for i, b in where[n]])
            want = ite(rst, const(init, w), nexts[n]())
            self._obl(con, names, "%s.state.%s" % (con.cls, n),
                      t.eq(got, want))
            v = sum(((d.cells[i].init >> b) & 1) << k
                    for k, (i, b) in enumerate(where[n]))
            self._obl(con, names, "%s.init.%s" % (con.cls, n),
                      t.eq(const(v, w), const(init, w)))
        for i, m in nxt.items():
            for b in range(len(d.cells[i].data)):
                if (m >> b) & 1:
                    self._obl(con, names, "%s.invariant.%s[%d]" % (
                        con.cls, d.cellname(i), b),
                        t.eq(t.bit(c2[i], b), const(d.cells[i].init >> b, 1)))
        self.proved[con.name] = names

    def _obl(self, con, names, name, goal):
        r, m = self.sol.prove([], goal)
        if r != "proved":
            raise Unsupported("component contract not met: " + name)
        names.append(name)

    def _places(self, con, d):
        """State variable -> [(flip-flop, bit)], by the signals' names."""
        sigs = {}
        for sig, v in d.nl.signals.items():
            mod = d.nl.modules[0]
            nm = mod.signal_names.get(sig)
            if nm is not None:
                sigs.setdefault(nm, v)
        ff = set(d.ffs)
        out = {}
        for n, (s, lo, w, init) in con.state.items():
            if s not in sigs:
                raise Unsupported("no register " + s)
            nets = tuple(sigs[s])[lo:lo + w]
            if len(nets) != w:
                raise Unsupported("register %s is narrower" % s)
            pl = [(int(x) >> 16, int(x) & 0xffff) for x in nets]
            if any(i not in ff for i, _ in pl):
                raise Unsupported("%s is not a register" % s)
            out[n] = pl
        if len({p for pl in out.values() for p in pl}) != sum(
                w for _, _, w, _ in con.state.values()):
            raise Unsupported("registers overlap")
        return out

    def _state(self, con, d, S, I, where):
        """Register contents: contract variables, reset constants for bits
        that provably never change, anything else free."""
        bits = {}
        for n, pl in where.items():
            for k, p in enumerate(pl):
                bits[p] = t.bit(S[n], k)
        fixed = {}
        for i in d.ffs:
            m = 0
            for b in range(len(d.cells[i].data)):
                if (i, b) not in bits:
                    m |= 1 << b
            fixed[i] = m
        free = {i: t.var("free.%d" % i, len(d.cells[i].data)) for i in d.ffs}
        for _ in range(20):
            st = {}
            for i in d.ffs:
                c = d.cells[i]
                st[i] = cat(*[bits[i, b] if (i, b) in bits else
                              const(c.init >> b, 1) if (fixed[i] >> b) & 1
                              else t.bit(free[i], b)
                              for b in range(len(c.data))])
            ns = Cycle(d, st, I).next_state()
            new = {}
            for i in d.ffs:
                m = fixed[i]
                for b in range(len(d.cells[i].data)):
                    if (m >> b) & 1 and t.bit(ns[i], b) is not \
                            const(d.cells[i].init >> b, 1):
                        m &= ~(1 << b)
                new[i] = m
            if new == fixed:
                return st, fixed
            fixed = new
        raise Unsupported("register invariant")


class _Patch:
    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        self.old = []
        for con in TABLE:
            try:
                m = importlib.import_module("sentinel." + con.module)
                cls = getattr(m, con.cls)
                orig = cls.__dict__["elaborate"]
            except (ImportError, AttributeError, KeyError, SyntaxError) as e:
                self.mod.skip[con.name] = "not found: %s" % e
                continue
            self.old.append((cls, orig))

            def elaborate(self, platform, _c=con, _o=orig, _k=cls,
                          _m=self.mod):
                if type(self) is not _k:
                    return _o(self, platform)
                return _m.visit(_c, self, lambda: _o(self, platform))
            cls.elaborate = elaborate
        X = _xfrm.TransformedElaboratable
        self.x = X.elaborate

        def xel(obj, platform, _o=self.x, _m=self.mod):
            _m.xf.append(type(obj).__name__)
            return _o(obj, platform)
        X.elaborate = xel

    def __exit__(self, *a):
        for cls, orig in self.old:
            cls.elaborate = orig
        _xfrm.TransformedElaboratable.elaborate = self.x


def _named_ports(con, obj):
    if con.ports is None:
        return netlist._ports(obj)
    P = _ir.PortDirection
    ports = {}
    for names, d in zip(con.ports, (P.Input, P.Output)):
        for n in names:
            v = getattr(obj, n)
            if isinstance(v, _ast.ValueCastable):
                v = v.as_value()
            if not isinstance(v, _ast.Signal):
                raise Unsupported("port " + n)
            ports[n] = (v, d)
    return ports


def _driven(frag):
    """Signals driven anywhere inside a fragment."""
    out = _ast.SignalSet()
    if isinstance(frag, _ir.Instance):
        if frag.type != "sv_contract":
            raise Unsupported("contains an instance")
        for n, (v, kind) in _iports(frag):
            if kind == "o":
                out.update(v._lhs_signals())
    elif type(frag) is not _ir.Fragment:
        raise Unsupported("contains a %s" % type(frag).__name__)
    for dom, stmts in frag.statements.items():
        if dom not in ("comb", "sync"):
            raise Unsupported("clock domain " + dom)
        out.update(stmts._lhs_signals())
    if frag.domains:
        raise Unsupported("defines a clock domain")
    for sub, *_ in frag.subfragments:
        out.update(_driven(sub))
    return out


def _iports(frag):
    for n, p in frag.ports.items():
        if isinstance(p, tuple):
            yield n, (p[0], p[1])
        else:
            yield n, (p.value, p.kind)


def attach(d, uses):
    """Give the sv_contract cells of design d their meaning."""
    d.cells = list(d.cells)
    d.contracts = {}
    d.cnames = {}
    for i, c in enumerate(list(d.cells)):
        if not isinstance(c, _nir.Instance):
            continue
        if c.type != "sv_contract":
            raise Unsupported("cell %r" % c)
        k = c.parameters["id"]
        use = uses[int(getattr(k, "value", k))]
        outs = {}
        for n, (start, w) in c.ports_o.items():
            outs[n] = (start, w)
        path = ".".join(d.nl.modules[c.module_idx].name[1:])
        st = {}
        for n, (_, _, w, init) in use.con.state.items():
            nx = len(d.cells)
            d.cells.append(_Next(i, n))
            ff = len(d.cells)
            d.cells.append(_nir.FlipFlop(
                c.module_idx,
                data=_nir.Value(_nir.Net.from_cell(nx, b) for b in range(w)),
                init=init, clk=_nir.Net.from_const(0), clk_edge="pos",
                arst=_nir.Net.from_const(0), attributes={},
                src_loc=None))
            d.ffs.append(ff)
            st[n] = ff
            d.cnames[ff] = (path + "." if path else "") + n
        d.contracts[i] = (use, outs, st)


def meaning(cyc, i):
    """(outputs, next state) thunks of contract cell i in a cycle."""
    use, outs, st = cyc.d.contracts[i]
    c = cyc.d.cells[i]
    return use.thunks(Lazy(lambda n: cyc.val(c.ports_i[n])),
                      Lazy(lambda n: cyc.s[st[n]]))


def output(cyc, i, name):
    k = (i, name)
    r = cyc.memo.get(k)
    if r is None:
        o = cyc.memo.get((i, None))
        if o is None:
            o = cyc.memo[i, None] = meaning(cyc, i)
        r = cyc.memo[k] = o[0][name]()
    return r


def nextval(cyc, cell):
    use, outs, st = cyc.d.contracts[cell.inst]
    o = cyc.memo.get((cell.inst, None))
    if o is None:
        o = cyc.memo[cell.inst, None] = meaning(cyc, cell.inst)
    rst = cyc.val(cyc.d.cells[cell.inst].ports_i["rst"])
    _, _, w, init = use.con.state[cell.var]
    if rst is t.TRUE:
        return const(init, w)
    return ite(rst, const(init, w), o[1][cell.var]())
