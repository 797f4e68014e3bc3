"""The one specification: RV32I + Zicsr + the machine-mode subset Sentinel
documents, as a function over terms.

It is written from the RISC-V unprivileged/privileged ISA manuals and
Sentinel's documentation, not from the HDL.  With constant terms it is the
instruction-set simulator used for replay; with symbolic terms it is the
postcondition of every instruction contract.
"""
import term as t
from term import const, eq, ite, ext, cat, and_, or_, not_, add, zext, \
    sext, implies

C32 = lambda v: const(v, 32)  # noqa: E731

# CSR numbers
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = \
    0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344
IMPLEMENTED = (MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP)
READ_ONLY_ZERO = (
    [0xF11, 0xF12, 0xF13, 0xF14, 0xF15]          # ids, mconfigptr
    + [0x301, 0x310, 0x320, 0x343]               # misa mstatush mcountinhibit
    + [0xB00, 0xB02, 0xB80, 0xB82]               # mcycle(h) minstret(h)
    + list(range(0xB03, 0xB20)) + list(range(0xB83, 0xBA0))  # mhpmcounter
    + list(range(0x323, 0x340)))                 # mhpmevent

CAUSE_INSN_MISALIGNED = 0
CAUSE_ILLEGAL = 2
CAUSE_BREAKPOINT = 3
CAUSE_LOAD_MISALIGNED = 4
CAUSE_STORE_MISALIGNED = 6
CAUSE_ECALL_M = 11
MCAUSE_EXT_INT = 0x8000000B

ECALL, EBREAK, MRET, WFI = 0x00000073, 0x00100073, 0x30200073, 0x10500073

OP_LOAD, OP_MISC, OP_IMM, OP_AUIPC, OP_STORE, OP_OP, OP_LUI, OP_BRANCH, \
    OP_JALR, OP_JAL, OP_SYSTEM = \
    0x03, 0x0F, 0x13, 0x17, 0x23, 0x33, 0x37, 0x63, 0x67, 0x6F, 0x73


class Arch:
    """Architectural state; x is a function from 5-bit index to value."""
    FIELDS = ("pc", "x", "mie", "mpie", "meie", "mtvec", "mscratch",
              "mepc", "mcause")
    __slots__ = FIELDS + ("raw",)

    def __init__(self, **k):
        self.raw = {}
        for n in self.FIELDS:
            setattr(self, n, k[n])

    def with_(self, **k):
        d = {n: getattr(self, n) for n in self.FIELDS}
        d.update(k)
        return Arch(**d)


def mstatus_of(a):
    return cat(const(0, 3), a.mie, const(0, 3), a.mpie, const(0, 3),
               const(3, 2), const(0, 19))


def mie_of(a):
    return cat(const(0, 11), a.meie, const(0, 20))


class F:
    """Instruction fields."""

    def __init__(self, i):
        self.raw = i
        self.op = ext(i, 6, 0)
        self.rd = ext(i, 11, 7)
        self.f3 = ext(i, 14, 12)
        self.rs1 = ext(i, 19, 15)
        self.rs2 = ext(i, 24, 20)
        self.f7 = ext(i, 31, 25)
        self.csr = ext(i, 31, 20)
        self.immI = sext(ext(i, 31, 20), 32)
        self.immS = sext(cat(ext(i, 11, 7), ext(i, 31, 25)), 32)
        self.immB = sext(cat(const(0, 1), ext(i, 11, 8), ext(i, 30, 25),
                             ext(i, 7, 7), ext(i, 31, 31)), 32)
        self.immU = cat(const(0, 12), ext(i, 31, 12))
        self.immJ = sext(cat(const(0, 1), ext(i, 30, 21), ext(i, 20, 20),
                             ext(i, 19, 12), ext(i, 31, 31)), 32)

    def is_op(self, v):
        return eq(self.op, const(v, 7))

    def f3is(self, *vs):
        return t.disj([eq(self.f3, const(v, 3)) for v in vs])

    def f7is(self, *vs):
        return t.disj([eq(self.f7, const(v, 7)) for v in vs])


def _in(x, vals):
    """x (w bits) in a set of constants, as a decision tree."""
    if x.op == "c":
        return t.TRUE if x.v in vals else t.FALSE
    return _intree(x, x.w, frozenset(vals))


def _intree(x, n, s):
    if not s:
        return t.FALSE
    if len(s) == 1 << n:
        return t.TRUE
    m = 1 << (n - 1)
    hi = frozenset(v & (m - 1) for v in s if v & m)
    lo = frozenset(v for v in s if not v & m)
    return ite(t.bit(x, n - 1), _intree(x, n - 1, hi), _intree(x, n - 1, lo))


def csr_writes(f):
    """Does this CSR instruction attempt a write?"""
    return or_(f.f3is(1, 5), not_(eq(f.rs1, const(0, 5))))


EXISTING = frozenset(IMPLEMENTED) | frozenset(READ_ONLY_ZERO)


def csr_exists(csr):
    return _in(csr, EXISTING)


def csr_ok(f):
    ro = eq(ext(f.csr, 11, 10), const(3, 2))
    return and_(csr_exists(f.csr), not_(and_(ro, csr_writes(f))))


def is_csr_op(f):
    return and_(f.is_op(OP_SYSTEM), not_(f.f3is(0, 4)))


def legal(f):
    """Implemented and legal (ecall/ebreak count as legal encodings)."""
    sh = and_(f.f3is(1), f.f7is(0))
    shr = and_(f.f3is(5), f.f7is(0, 0x20))
    opimm = and_(f.is_op(OP_IMM),
                 t.disj([not_(f.f3is(1, 5)), sh, shr]))
    op = and_(f.is_op(OP_OP),
              or_(f.f7is(0), and_(f.f7is(0x20), f.f3is(0, 5))))
    return t.disj([
        f.is_op(OP_LUI), f.is_op(OP_AUIPC), f.is_op(OP_JAL), opimm, op,
        and_(f.is_op(OP_JALR), f.f3is(0)),
        and_(f.is_op(OP_BRANCH), not_(f.f3is(2, 3))),
        and_(f.is_op(OP_LOAD), f.f3is(0, 1, 2, 4, 5)),
        and_(f.is_op(OP_STORE), f.f3is(0, 1, 2)),
        and_(f.is_op(OP_MISC), f.f3is(0)),
        t.disj([eq(f.raw, C32(v)) for v in (ECALL, EBREAK, MRET, WFI)]),
        and_(is_csr_op(f), csr_ok(f)),
    ])


class Out:
    """Result of one instruction."""
    pass


def alu(f3, alt, a, b):
    sh = ext(b, 4, 0)
    r = add(a, b)                                            # 0 add
    if alt is not None:
        r = ite(alt, t.sub(a, b), r)
    shz = zext(sh, 32)
    sra = t.ashr(a, shz)
    srl = t.lshr(a, shz)
    tab = [r, t.shl(a, shz), zext(t.slt(a, b), 32), zext(t.ult(a, b), 32),
           t.xor_(a, b), None, or_(a, b), and_(a, b)]
    return tab, srl, sra


def _sel8(f3, tab):
    r = tab[7]
    for k in range(6, -1, -1):
        r = ite(eq(f3, const(k, 3)), tab[k], r)
    return r


def size_of(f3):
    return ext(f3, 1, 0)


def bus_sel(f3, addr):
    """Byte-lane enables for the access."""
    lo = ext(addr, 1, 0)
    b = const(8, 4)
    for k in (2, 1, 0):
        b = ite(eq(lo, const(k, 2)), const(1 << k, 4), b)
    h = ite(t.bit(lo, 1), const(0xC, 4), const(3, 4))
    s = size_of(f3)
    return ite(eq(s, const(0, 2)), b,
               ite(eq(s, const(1, 2)), h, const(15, 4)))


def misaligned(f3, addr):
    s = size_of(f3)
    return or_(and_(eq(s, const(1, 2)), t.bit(addr, 0)),
               and_(eq(s, const(2, 2)),
                    not_(eq(ext(addr, 1, 0), const(0, 2)))))


def load_value(f3, addr, word):
    lo = ext(addr, 1, 0)
    b = ext(word, 31, 24)
    for k in (2, 1, 0):
        b = ite(eq(lo, const(k, 2)), ext(word, 8 * k + 7, 8 * k), b)
    h = ite(t.bit(lo, 1), ext(word, 31, 16), ext(word, 15, 0))
    u = t.bit(f3, 2)
    s = size_of(f3)
    return ite(eq(s, const(0, 2)), ite(u, zext(b, 32), sext(b, 32)),
               ite(eq(s, const(1, 2)), ite(u, zext(h, 32), sext(h, 32)),
                   word))


def store_lane(f3, addr, data, k):
    """Byte that must appear on lane k when that lane is enabled."""
    s = size_of(f3)
    byte = ext(data, 7, 0)
    half = ext(data, 8 * (k & 1) + 7, 8 * (k & 1))
    word = ext(data, 8 * k + 7, 8 * k)
    return ite(eq(s, const(0, 2)), byte, ite(eq(s, const(1, 2)), half, word))


def step(a, insn, rdata, mip_bit):
    """One instruction, no interrupt.

    rdata: the word the bus returns for a data read (ignored otherwise).
    mip_bit: value of mip.meip if this instruction reads mip.
    """
    f = F(insn)
    o = Out()
    o.f = f
    pc4 = add(a.pc, C32(4))
    x1 = a.x(f.rs1)
    x2 = a.x(f.rs2)
    leg = legal(f)
    o.legal = leg

    is_imm, is_op = f.is_op(OP_IMM), f.is_op(OP_OP)
    is_lui, is_auipc = f.is_op(OP_LUI), f.is_op(OP_AUIPC)
    is_jal, is_jalr = f.is_op(OP_JAL), f.is_op(OP_JALR)
    is_br, is_ld = f.is_op(OP_BRANCH), f.is_op(OP_LOAD)
    is_st = f.is_op(OP_STORE)
    is_csr = is_csr_op(f)
    alt = t.bit(f.f7, 5)

    # --- control transfer
    c = ext(f.f3, 2, 1)
    raw = ite(eq(c, const(0, 2)), eq(x1, x2),
              ite(eq(c, const(2, 2)), t.slt(x1, x2), t.ult(x1, x2)))
    br_taken = and_(is_br, t.xor_(raw, t.bit(f.f3, 0)))
    target = ite(is_jal, add(a.pc, f.immJ),
                 ite(is_jalr, cat(const(0, 1), ext(add(x1, f.immI), 31, 1)),
                     add(a.pc, f.immB)))
    jumps = t.disj([is_jal, is_jalr, br_taken])
    jmis = and_(jumps, t.bit(target, 1))

    # --- memory
    ea = add(x1, ite(is_st, f.immS, f.immI))
    mis = misaligned(f.f3, ea)
    ldmis = and_(is_ld, mis)
    stmis = and_(is_st, mis)

    # --- traps
    ecall = eq(insn, C32(ECALL))
    ebreak = eq(insn, C32(EBREAK))
    o.ecall, o.ebreak = ecall, ebreak
    illegal = not_(leg)
    o.illegal = illegal
    o.misjump = and_(leg, jmis)
    o.misload = and_(leg, ldmis)
    o.misstore = and_(leg, stmis)
    trap = t.disj([illegal, ecall, ebreak, jmis, ldmis, stmis])
    cause = C32(CAUSE_ILLEGAL)
    for k, v in ((jmis, CAUSE_INSN_MISALIGNED), (ldmis, CAUSE_LOAD_MISALIGNED),
                 (stmis, CAUSE_STORE_MISALIGNED), (ecall, CAUSE_ECALL_M),
                 (ebreak, CAUSE_BREAKPOINT)):
        cause = ite(k, C32(v), cause)
    cause = ite(illegal, C32(CAUSE_ILLEGAL), cause)
    o.trap = trap
    ok = not_(trap)
    mret = and_(ok, eq(insn, C32(MRET)))

    # --- CSR
    csrw = and_(is_csr, csr_writes(f))
    rdcsr = C32(0)
    cur = {MSTATUS: mstatus_of(a), MIE: mie_of(a), MTVEC: a.mtvec,
           MSCRATCH: a.mscratch, MEPC: a.mepc, MCAUSE: a.mcause,
           MIP: cat(const(0, 11), mip_bit, const(0, 20))}
    sel = {k: eq(f.csr, const(k, 12)) for k in IMPLEMENTED}
    for k in IMPLEMENTED:
        rdcsr = ite(sel[k], cur[k], rdcsr)
    operand = ite(t.bit(f.f3, 2), zext(f.rs1, 32), x1)
    k2 = ext(f.f3, 1, 0)
    new = ite(eq(k2, const(1, 2)), operand,
              ite(eq(k2, const(2, 2)), or_(rdcsr, operand),
                  and_(rdcsr, not_(operand))))
    o.reads_mip = t.conj([ok, is_csr, sel[MIP]])
    o.csr_new, o.csr_written, o.csr_old = new, and_(ok, csrw), rdcsr

    # --- rd
    tab, srl, sra = alu(f.f3, None, x1, f.immI)
    tab[5] = ite(alt, sra, srl)
    vi = _sel8(f.f3, tab)
    tab, srl, sra = alu(f.f3, alt, x1, x2)
    tab[5] = ite(alt, sra, srl)
    vo = _sel8(f.f3, tab)
    val = vi
    for k, v in ((is_op, vo), (is_lui, f.immU),
                 (is_auipc, add(a.pc, f.immU)), (or_(is_jal, is_jalr), pc4),
                 (is_ld, load_value(f.f3, ea, rdata)), (is_csr, rdcsr)):
        val = ite(k, v, val)
    wr = and_(ok, t.disj([is_imm, is_op, is_lui, is_auipc, is_jal, is_jalr,
                          is_ld, is_csr]))
    o.rd_we, o.rd, o.rd_val = wr, f.rd, val

    # --- next state
    npc = ite(trap, a.mtvec, ite(mret, a.mepc, ite(jumps, target, pc4)))
    w = {k: t.conj([ok, csrw, sel[k]]) for k in IMPLEMENTED}
    align = cat(const(0, 2), ext(new, 31, 2))

    def xn(j):
        hit = t.conj([wr, eq(j, f.rd), not_(eq(j, const(0, 5)))])
        return ite(hit, val, a.x(j))
    o.post = Arch(
        pc=npc, x=xn,
        mie=ite(trap, const(0, 1), ite(mret, a.mpie,
                ite(w[MSTATUS], t.bit(new, 3), a.mie))),
        mpie=ite(trap, a.mie, ite(mret, const(1, 1),
                 ite(w[MSTATUS], t.bit(new, 7), a.mpie))),
        meie=ite(w[MIE], t.bit(new, 11), a.meie),
        mtvec=ite(w[MTVEC], align, a.mtvec),
        mscratch=ite(w[MSCRATCH], new, a.mscratch),
        mepc=ite(trap, a.pc, ite(w[MEPC], align, a.mepc)),
        mcause=ite(trap, cause, ite(w[MCAUSE], new, a.mcause)))

    # --- bus
    o.data_access = and_(ok, or_(is_ld, is_st))
    o.data_we = and_(ok, is_st)
    o.data_adr = ext(ea, 31, 2)
    o.data_sel = bus_sel(f.f3, ea)
    o.store_lane = lambda k: store_lane(f.f3, ea, x2, k)
    return o


def interrupt(a):
    """The external interrupt taken instead of the instruction."""
    return Arch(pc=a.mtvec, x=a.x, mie=const(0, 1), mpie=a.mie, meie=a.meie,
                mtvec=a.mtvec, mscratch=a.mscratch, mepc=a.pc,
                mcause=C32(MCAUSE_EXT_INT))


# ------------------------------------------------------------ RVFI trace
# Read-only-zero CSRs with trace ports: number -> (port, low bit).
RVFI_RO = {0xF11: ("mvendorid", 0), 0xF12: ("marchid", 0),
           0xF13: ("mimpid", 0), 0xF14: ("mhartid", 0),
           0xF15: ("mconfigptr", 0), 0x301: ("misa", 0),
           0x310: ("mstatush", 0), 0x343: ("mtval", 0),
           0x320: ("mcountinhibit", 0), 0x323: ("mhpmevent3", 0),
           0xB00: ("mcycle", 0), 0xB02: ("minstret", 0),
           0xB03: ("mhpmcounter3", 0), 0xB80: ("mcycle", 32),
           0xB82: ("minstret", 32), 0xB83: ("mhpmcounter3", 32)}
RVFI_RW = {MSTATUS: "mstatus", MIE: "mie", MTVEC: "mtvec",
           MSCRATCH: "mscratch", MEPC: "mepc", MCAUSE: "mcause"}


RVFI_WIDTHS = {"valid": 1, "order": 64, "trap": 1, "halt": 1, "intr": 1,
               "mode": 2, "ixl": 2, "rs1_addr": 5, "rs2_addr": 5,
               "rd_addr": 5, "mem_rmask": 4, "mem_wmask": 4}


def rvfi_width(n):
    """Width the RISC-V Formal Interface gives the output rvfi_<n>."""
    if n.startswith("csr__"):
        return 64 if n.split("__")[1] in (
            "mcycle", "minstret", "mhpmcounter3") else 32
    return RVFI_WIDTHS.get(n, 32)


def rvfi(a, o, insn, rdata, rv, interrupted=False):
    """What one trace record must say: [(name, goal)] (RISC-V Formal
    Interface, docs/rvfi.md).  rv: the trace outputs.  o: step(); with
    `interrupted` the instruction was displaced by an interrupt."""
    f = o.f
    z5, z4 = const(0, 5), const(0, 4)
    tr = t.TRUE if interrupted else o.trap
    done = not_(tr)
    post = interrupt(a) if interrupted else o.post
    wr = and_(done, o.rd_we)
    r = [("valid", rv["valid"]), ("insn", eq(rv["insn"], insn)),
         ("trap", eq(rv["trap"], tr)), ("halt", not_(rv["halt"])),
         ("mode", eq(rv["mode"], const(3, 2))),
         ("ixl", eq(rv["ixl"], const(1, 2))),
         ("pc_rdata", eq(rv["pc_rdata"], a.pc)),
         ("pc_wdata", eq(rv["pc_wdata"], post.pc)),
         ("rd_addr", eq(rv["rd_addr"], ite(wr, f.rd, z5))),
         ("rd_wdata", eq(rv["rd_wdata"], ite(
             and_(wr, not_(eq(f.rd, z5))), o.rd_val, C32(0)))),
         ("mem_rmask", eq(rv["mem_rmask"], ite(
             t.conj([done, o.data_access, not_(o.data_we)]),
             o.data_sel, z4))),
         ("mem_wmask", eq(rv["mem_wmask"], ite(
             t.conj([done, o.data_access, o.data_we]), o.data_sel, z4))),
         ("mem_addr", implies(and_(done, o.data_access), eq(
             rv["mem_addr"], cat(const(0, 2), o.data_adr))))]
    for n in ("rs1", "rs2"):
        # a register index the record names must come with its contents
        k = ext(rv[n + "_addr"], 4, 0)
        r.append((n + "_rdata", implies(
            done, eq(rv[n + "_rdata"], a.x(k)))))
    use1 = t.disj([f.is_op(v) for v in (
        OP_LOAD, OP_IMM, OP_STORE, OP_OP, OP_BRANCH, OP_JALR)])
    use1 = or_(use1, and_(is_csr_op(f), not_(t.bit(f.f3, 2))))
    use2 = t.disj([f.is_op(v) for v in (OP_STORE, OP_OP, OP_BRANCH)])
    r.append(("rs1_addr", implies(and_(done, use1),
                                  eq(rv["rs1_addr"], f.rs1))))
    r.append(("rs2_addr", implies(and_(done, use2),
                                  eq(rv["rs2_addr"], f.rs2))))
    for k in range(4):
        b = lambda v: ext(v, 8 * k + 7, 8 * k)  # noqa: E731, B023
        r.append(("mem_rdata lane %d" % k, implies(
            t.conj([done, o.data_access, not_(o.data_we),
                    t.bit(o.data_sel, k)]),
            eq(b(rv["mem_rdata"]), b(rdata)))))
        r.append(("mem_wdata lane %d" % k, implies(
            t.conj([done, o.data_access, o.data_we, t.bit(o.data_sel, k)]),
            eq(b(rv["mem_wdata"]), o.store_lane(k)))))
    if interrupted:
        return r
    csr = and_(done, is_csr_op(f))
    ones = lambda w: const(-1, w)  # noqa: E731
    for num, n in RVFI_RW.items():
        h = and_(csr, eq(f.csr, const(num, 12)))
        if h is t.FALSE:
            continue
        g = lambda k: rv["csr__%s__%s" % (n, k)]  # noqa: E731, B023
        r.append(("csr.%s.rdata" % n, implies(h, t.conj([
            eq(g("rmask"), ones(32)), eq(g("rdata"), o.csr_old)]))))
        r.append(("csr.%s.wdata" % n, implies(
            and_(h, o.csr_written), t.conj([
                eq(g("wmask"), ones(32)), eq(g("wdata"), o.csr_new)]))))
    for num, (n, lo) in RVFI_RO.items():
        h = and_(csr, eq(f.csr, const(num, 12)))
        if h is t.FALSE:
            continue
        g = lambda k: ext(rv["csr__%s__%s" % (n, k)], lo + 31, lo)  # noqa: E731, B023, E501
        r.append(("csr.%s%s.rdata" % (n, "h" if lo else ""), implies(
            h, t.conj([eq(g("rmask"), ones(32)), eq(g("rdata"), C32(0))]))))
        wm = rv["csr__%s__wmask" % n]
        # of a 64-bit CSR, only the half the instruction names is written
        half = eq(ext(wm, 63 - lo, 32 - lo), C32(0)) if wm.w == 64 \
            else t.TRUE
        r.append(("csr.%s%s.wdata" % (n, "h" if lo else ""), implies(
            and_(h, o.csr_written), t.conj([
                eq(g("wmask"), ones(32)), half, eq(g("wdata"), o.csr_new)]))))
    return r


def rvfi_mip(o, rv):
    """The record of a CSR instruction that names mip."""
    h = t.conj([not_(o.trap), is_csr_op(o.f), eq(o.f.csr, const(MIP, 12))])
    if h is t.FALSE:
        return
    g = lambda k: rv["csr__mip__" + k]  # noqa: E731
    yield "csr.mip.rdata", implies(h, t.conj([
        eq(g("rmask"), const(-1, 32)), eq(g("rdata"), o.csr_old)]))
    yield "csr.mip.wdata", implies(and_(h, o.csr_written), t.conj([
        eq(g("wmask"), const(-1, 32)), eq(g("wdata"), o.csr_new)]))


# ------------------------------------------------------------------ classes
# (name, [(mask, value)...]) -- one instruction contract each.

def _m(op=None, f3=None, f7=None, csr=None, rd=None, rs1=None, raw=None):
    if raw is not None:
        return (0xFFFFFFFF, raw)
    m = v = 0
    for x, w, lo in ((op, 7, 0), (rd, 5, 7), (f3, 3, 12), (rs1, 5, 15)):
        if x is not None:
            m |= ((1 << w) - 1) << lo
            v |= x << lo
    if f7 is not None:
        m |= 0x7F << 25
        v |= f7 << 25
    if csr is not None:
        m |= 0xFFF << 20
        v |= csr << 20
    return (m, v)


def classes():
    r = {}
    for n, k in (("addi", 0), ("slti", 2), ("sltiu", 3), ("xori", 4),
                 ("ori", 6), ("andi", 7)):
        r[n] = _m(OP_IMM, k)
    r["slli"] = _m(OP_IMM, 1, 0)
    r["srli"] = _m(OP_IMM, 5, 0)
    r["srai"] = _m(OP_IMM, 5, 0x20)
    for n, k in (("add", 0), ("sll", 1), ("slt", 2), ("sltu", 3), ("xor", 4),
                 ("srl", 5), ("or", 6), ("and", 7)):
        r[n] = _m(OP_OP, k, 0)
    r["sub"] = _m(OP_OP, 0, 0x20)
    r["sra"] = _m(OP_OP, 5, 0x20)
    r["lui"] = _m(OP_LUI)
    r["auipc"] = _m(OP_AUIPC)
    r["jal"] = _m(OP_JAL)
    r["jalr"] = _m(OP_JALR, 0)
    for n, k in (("beq", 0), ("bne", 1), ("blt", 4), ("bge", 5), ("bltu", 6),
                 ("bgeu", 7)):
        r[n] = _m(OP_BRANCH, k)
    for n, k in (("lb", 0), ("lh", 1), ("lw", 2), ("lbu", 4), ("lhu", 5)):
        r[n] = _m(OP_LOAD, k)
    for n, k in (("sb", 0), ("sh", 1), ("sw", 2)):
        r[n] = _m(OP_STORE, k)
    r["fence"] = _m(OP_MISC, 0)
    for n, k in (("ecall", ECALL), ("ebreak", EBREAK), ("mret", MRET),
                 ("wfi", WFI)):
        r[n] = _m(raw=k)
    for cn, ck in (("mstatus", MSTATUS), ("mie", MIE), ("mtvec", MTVEC),
                   ("mscratch", MSCRATCH), ("mepc", MEPC),
                   ("mcause", MCAUSE), ("mip", MIP)):
        for n, k in (("csrrw", 1), ("csrrs", 2), ("csrrc", 3),
                     ("csrrwi", 5), ("csrrsi", 6), ("csrrci", 7)):
            r[n + "." + cn] = _m(OP_SYSTEM, k, csr=ck)
    for n, k in (("csrrw", 1), ("csrrs", 2), ("csrrc", 3),
                 ("csrrwi", 5), ("csrrsi", 6), ("csrrci", 7)):
        r[n + ".ro0"] = _m(OP_SYSTEM, k)
    r["illegal.op"] = (0, 0)
    r["illegal.csr"] = _m(OP_SYSTEM)
    return r


def class_insn(name, pat, sym):
    """Instruction word: pattern bits constant, the others from `sym`."""
    m, v = pat
    parts = []
    i = 0
    while i < 32:
        b = (m >> i) & 1
        j = i
        while j < 32 and ((m >> j) & 1) == b:
            j += 1
        parts.append(const(v >> i, j - i) if b else ext(sym, j - 1, i))
        i = j
    return cat(*parts)


def class_guard(name, insn):
    """Extra precondition of the class on the instruction word."""
    f = F(insn)
    if name == "illegal.op":
        return and_(not_(legal(f)), not_(is_csr_op(f)))
    if name == "illegal.csr":
        return and_(not_(legal(f)), is_csr_op(f))
    if name.endswith(".ro0"):
        return and_(csr_ok(f), _in(f.csr, READ_ONLY_ZERO))
    return t.TRUE
