"""Obligations: every listed property as goals over the instruction contracts.

`ClassRun(core, cls)` explores one instruction class symbolically (all inputs,
all wait states) and yields obligations (property ids, name, hypotheses, goal).
"""
import term as t
import spec
from term import and_, not_, implies, eq, const

SHIFTS = ("slli", "srli", "srai", "sll", "srl", "sra")
ALU = ("addi", "slti", "sltiu", "xori", "ori", "andi", "add", "slt", "sltu",
       "xor", "or", "and", "sub", "lui", "auipc")
JUMPS = ("jal", "jalr", "beq", "bne", "blt", "bge", "bltu", "bgeu")
LOADS = ("lb", "lh", "lw", "lbu", "lhu")
STORES = ("sb", "sh", "sw")


def primary(cls):
    if cls in SHIFTS:
        return "C02"
    if cls in ALU:
        return "C01"
    if cls in JUMPS:
        return "C03"
    if cls in LOADS:
        return "C04"
    if cls in STORES:
        return "C05"
    if cls in ("mret", "fence", "wfi"):
        return "C11"
    if cls == "illegal.op":
        return "C06"
    if cls == "illegal.csr":
        return "C08"
    if cls in ("ecall", "ebreak"):
        return "C09"
    return "C07"


def uses(prop):
    """Classes explored by the check of `prop`."""
    cl = list(spec.classes())
    if prop in ("C01", "C02", "C03", "C04", "C05", "C11"):
        return [c for c in cl if primary(c) == prop]
    if prop == "C08":
        return [c for c in cl if primary(c) in ("C07", "C08")]
    return cl


# Documented throughput (cycles per instruction with the fastest permitted
# bus), doc/development/internals.md; shifts are symbolic (7 + 2n, 9 / 10).
def latency_bound(cls):
    p = primary(cls)
    if cls == "auipc":
        return 6
    if p == "C01" or cls in ("fence", "wfi"):
        return 4
    if cls in ("jal", "jalr"):
        return 7
    if p == "C04":
        return 9
    if p == "C05":
        return 10
    if cls == "mret":
        return 8
    if cls.endswith(".ro0"):
        return 6
    return 10                      # CSR instructions


# "Entering an exception handler requires 5 clocks from the cycle at which the
# exception condition is detected": detection is in cycle 2 (fetch/decode,
# shared check) for interrupts and decode-time exceptions, cycle 3 for CSR
# legality, and after the address computation for misaligned addresses.
def trap_bound(cls):
    if cls in JUMPS and cls not in ("jal", "jalr"):
        return 11
    if cls in LOADS or cls in STORES or cls in ("jal", "jalr"):
        return 10
    if "." in cls and cls != "illegal.op":
        return 8
    return 7


def intr_bound(cls):
    """CSR instructions also look at the line in their extra decode cycle."""
    return 8 if "." in cls and cls != "illegal.op" else 7


class Obl:
    __slots__ = ("props", "name", "hyps", "goal", "path")

    def __init__(self, props, name, hyps, goal, path=None):
        self.props = props
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.path = path


class ClassRun:
    def __init__(self, core, cls):
        self.core = core
        self.cls = cls
        self.insn = spec.class_insn(cls, spec.classes()[cls],
                                    t.var("insn", 32))
        self.guard = spec.class_guard(cls, self.insn)
        self.irqF = t.var("irqF", 1)
        self.paths, self.kept = core.run(self.insn, self.guard)
        st, _ = core.boundary(self.insn)
        self.st0 = st
        self.a, self.ms0, self.mie0 = core.arch(st)

    # ------------------------------------------------------------
    def obligations(self):
        seen = set()
        for k, p in enumerate(self.paths):
            for o in self.path_obl(p):
                key = (o.name, t.conj(o.hyps).id, o.goal.id, o.props)
                if key in seen:
                    continue
                seen.add(key)
                o.path = k
                yield o

    def hyps0(self, p):
        return list(p.conds)

    def path_obl(self, p):
        if self.core.formal:
            yield from self.trace_obl(p)
            # the core below the trace logic is the one verified alone
            P = frozenset(["C17"])
            for o in self.effects(p) if p.kind == "normal" else []:
                yield Obl(P, "traced core: " + o.name, o.hyps, o.goal)
            return
        yield from self.effects(p)
        yield from self.conduct(p)

    def arch_eq(self, p, q, jj):
        b, ms, mie = self.core.arch(p.post)
        return [("pc", eq(b.pc, q.pc)),
                ("mstatus.mie", eq(t.bit(ms, 3), q.mie)),
                ("mstatus.mpie", eq(t.bit(ms, 7), q.mpie)),
                ("mie.meie", eq(t.bit(mie, 11), q.meie)),
                ("mtvec", eq(b.mtvec, q.mtvec)),
                ("mscratch", eq(b.mscratch, q.mscratch)),
                ("mepc", eq(b.mepc, q.mepc)),
                ("mcause", eq(b.mcause, q.mcause)),
                ("regs[j]", eq(b.x(jj), q.x(jj)))]

    def interrupt_parts(self, p):
        return self.arch_eq(p, spec.interrupt(self.a),
                            t.var("frame_i", 5)) + [
            ("no data access", t.FALSE if p.data else t.TRUE)]

    def fetch_parts(self, p, b):
        F = p.fetch
        return [
            ("fetch address is the new pc",
             eq(F["adr"], t.ext(b.pc, 31, 2))),
            ("fetch selects all lanes", eq(F["sel"], const(15, 4))),
            ("fetch is a read", not_(F["we"])),
        ]

    def effects(self, p):
        """What the instruction does to the state and on the bus."""
        core, cls, a = self.core, self.cls, self.a
        me = primary(cls)
        H = list(p.conds)
        if p.kind != "normal":
            yield Obl(("C15", me), cls + ".terminates", H, t.FALSE)
            return
        j = t.var("frame_j", 5)
        b, ms, mie = core.arch(p.post)
        rdata = p.data[0][1] if p.data else t.var("nodata", 32)
        irqs = [self.irqF] + p.irqs
        i_any, i_all = t.disj(irqs), t.conj(irqs)
        # value of mip.meip this instruction may legally observe
        f = spec.F(self.insn)
        seen_mip = t.ite(eq(f.rd, const(0, 5)), i_any,
                         t.bit(b.x(f.rd), 11))
        o = spec.step(a, self.insn, rdata, seen_mip)
        s = o.post
        en = and_(a.mie, a.meie)
        nd = len(p.data)

        arch_eq = lambda q, jj: self.arch_eq(p, q, jj)  # noqa: E731
        int_parts = self.interrupt_parts(p)
        ipost = t.conj([g for _, g in int_parts])
        LI = t.conj([en, i_any, ipost])
        nLI = not_(LI)
        trap = o.trap
        fetch_parts = self.fetch_parts(p, b)
        # -------- ordinary completion
        S = list(arch_eq(s, j))
        S += [("mstatus fixed bits", eq(ms, spec.mstatus_of(
                  b.with_(mie=t.bit(ms, 3), mpie=t.bit(ms, 7))))),
              ("mie fixed bits", eq(mie, spec.mie_of(
                  b.with_(meie=t.bit(mie, 11)))))]
        S += self.data_parts(o, p)
        S += fetch_parts
        hs = H + [not_(trap), nLI]
        if t.conj(hs) is not t.FALSE:
            for n, g in S:
                props = {me}
                if n in ("mstatus.mie", "mie.meie"):
                    props.add("C10")     # what enables interrupts
                if n in ("mstatus fixed bits", "mie fixed bits", "mtvec",
                         "mscratch", "mepc", "mcause", "mie.meie",
                         "mstatus.mie", "mstatus.mpie"):
                    props.add("C07")
                if n == "regs[j]":
                    props.add("C12")
                yield Obl(frozenset(props), "%s.post.%s" % (cls, n), hs, g)
            # a legal instruction does not end in the illegal-insn trap
            if cls not in ("illegal.op", "illegal.csr"):
                bad = t.conj([eq(b.mcause, spec.C32(2)), eq(b.pc, a.mtvec),
                              eq(b.mepc, a.pc), not_(ipost),
                              t.disj([not_(eq(s.pc, a.mtvec)),
                                      not_(eq(s.mcause, spec.C32(2))),
                                      not_(eq(s.mepc, a.pc))])])
                pr = "C08" if me == "C07" else "C06"
                yield Obl(frozenset([pr]), cls + ".legal is accepted", hs,
                          not_(bad))
        # -------- synchronous trap
        hs = H + [trap, nLI]
        if t.conj(hs) is not t.FALSE:
            T = list(arch_eq(s, j)) + [
                ("no data access", t.FALSE if nd else t.TRUE)] + fetch_parts
            for n, g in T:
                props = {"C09"}
                if me in ("C06", "C08") or n in ("pc", "mcause", "mepc",
                                                 "no data access"):
                    props.add(me)
                if me == "C07":
                    props.add("C08")
                if n in ("mstatus.mie", "mie.meie"):
                    props.add("C10")
                if n == "regs[j]":
                    props.add("C12")
                yield Obl(frozenset(props), "%s.trap.%s" % (cls, n), hs, g)
        # -------- interrupts
        hs = H + [en, i_all]
        for n, g in int_parts + fetch_parts:
            yield Obl(frozenset(["C10"]),
                      "%s.interrupt taken when pending and enabled.%s"
                      % (cls, n), hs, g)
        looks = and_(eq(b.mcause, spec.C32(spec.MCAUSE_EXT_INT)),
                     not_(eq(s.mcause, spec.C32(spec.MCAUSE_EXT_INT))))
        yield Obl(frozenset(["C10"]), cls + ".no interrupt unless enabled "
                  "and pending", H + [looks], and_(en, i_any))
        for n, g in int_parts + fetch_parts:
            yield Obl(frozenset(["C10"]), "%s.interrupt entry.%s" % (cls, n),
                      H + [looks], g)
        # -------- what mip shows
        if cls.endswith(".mip"):
            g = and_(implies(i_all, seen_mip), implies(seen_mip, i_any))
            yield Obl(frozenset(["C07", "C10"]), cls + ".mip shows the line",
                      H + [not_(trap), nLI, not_(eq(f.rd, const(0, 5)))], g)

    def conduct(self, p):
        """Boundary invariant, bus discipline, time, non-interference."""
        core, cls, a = self.core, self.cls, self.a
        if p.kind != "normal":
            return
        me = primary(cls)
        H = list(p.conds)
        b, ms, mie = core.arch(p.post)
        i_any = t.disj([self.irqF] + p.irqs)
        rdata = p.data[0][1] if p.data else t.var("nodata", 32)
        f = spec.F(self.insn)
        o = spec.step(a, self.insn, rdata,
                      t.ite(eq(f.rd, const(0, 5)), i_any,
                            t.bit(b.x(f.rd), 11)))
        en = and_(a.mie, a.meie)
        ipost = t.conj([g for _, g in self.interrupt_parts(p)])
        # -------- boundary of the next instruction
        for n, g in core.boundary_obl(p, self.kept):
            props = {me}
            if "x0" in n:
                props.add("C12")
            if "aligned" in n:
                props.add("C07")
            yield Obl(frozenset(props), "%s.%s" % (cls, n), H, g)
        # -------- bus protocol
        for n, k, g in p.cyc_obl:
            pr = {"C14"}
            yield Obl(frozenset(pr), "%s.%s" % (cls, n), H[:k], g)
        for n, g in self.fetch_parts(p, b)[1:]:
            yield Obl(frozenset(["C14"]), "%s.%s" % (cls, n), H, g)
        for req, _ in p.data:
            yield Obl(frozenset(["C14"]), cls + ".data.lane enables legal", H,
                      t.disj([eq(req["sel"], const(v, 4))
                              for v in (1, 2, 4, 8, 3, 12, 15)]))
        # -------- progress
        yield Obl(frozenset(["C15"]), cls + ".latency", H,
                  self.latency(p, o, b, en, i_any, ipost))
        # -------- wait states and unacknowledged data are irrelevant
        for x in self.noninterference(p, b, ms, mie, a):
            yield x

    # ------------------------------------------------------------
    def trace_obl(self, p):
        """C17: the trace record emitted with the completing fetch."""
        core, cls, a = self.core, self.cls, self.a
        P = frozenset(["C17"])
        H = list(p.conds)
        if p.kind != "normal":
            yield Obl(P, cls + ".terminates", H, t.FALSE)
            return
        b, ms, mie = core.arch(p.post)
        rdata = p.data[0][1] if p.data else t.var("nodata", 32)
        f = spec.F(self.insn)
        o = spec.step(a, self.insn, rdata, t.bit(b.x(f.rd), 11))
        isp = spec.interrupt(a)
        i_any = t.disj([self.irqF] + p.irqs)
        LI = t.conj([a.mie, a.meie, i_any, eq(b.mcause, isp.mcause),
                     eq(b.pc, isp.pc), eq(b.mepc, isp.mepc),
                     eq(t.bit(ms, 3), isp.mie), eq(t.bit(ms, 7), isp.mpie),
                     t.or_(eq(f.rd, const(0, 5)), eq(b.x(f.rd), a.x(f.rd))),
                     t.FALSE if p.data else t.TRUE])
        rv = p.rv
        # an instruction whose effect coincides with the interrupt's may be
        # recorded either way
        other = t.conj([g for _, g in spec.rvfi(a, o, self.insn, rdata, rv)])
        for kind, h, it in (("retired", [not_(o.trap), not_(LI)], False),
                            ("trapped", [o.trap, not_(LI)], False),
                            ("interrupted", [LI], True)):
            hs = H + h
            if t.conj(hs) is t.FALSE:
                continue
            for n, g in spec.rvfi(a, o, self.insn, rdata, rv, it):
                yield Obl(P, "%s.rvfi.%s.%s" % (cls, kind, n), hs,
                          t.or_(g, other) if it else g)
            if kind == "retired":
                # mip is live: its record is fixed where the line does not
                # change while the instruction is executed
                i_all = t.conj([self.irqF] + p.irqs)
                for v, st in ((0, not_(i_any)), (1, i_all)):
                    ov = spec.step(a, self.insn, rdata, const(v, 1))
                    for n, g in spec.rvfi_mip(ov, rv):
                        yield Obl(P, "%s.rvfi.%s.%s.line=%d" % (
                            cls, kind, n, v), hs + [st], g)
            pre = core.rv_state(self.st0)
            post = core.rv_state(p.post)
            yield Obl(P, "%s.rvfi.%s.order" % (cls, kind), hs, and_(
                eq(rv["order"], pre["order"]),
                eq(post["order"], t.add(pre["order"], const(1, 64)))))
            yield Obl(P, "%s.rvfi.%s.intr" % (cls, kind), hs, and_(
                eq(rv["intr"], pre["intr"]),
                eq(post["intr"], rv["trap"])))
        for n, g in core.boundary_obl(p, self.kept):
            yield Obl(P, "%s.%s" % (cls, n), H, g)
        for n, k, g in p.cyc_obl:
            if n.startswith("rvfi"):
                yield Obl(P, "%s.%s" % (cls, n), H[:k], g)

    def data_parts(self, o, p):
        n = len(p.data)
        if n == 0:
            return [("data access performed", not_(o.data_access))]
        if n > 1:
            return [("one data access", t.FALSE)]
        req = p.data[0][0]
        out = [("data access only for loads and stores", o.data_access),
               ("data.we", eq(req["we"], o.data_we)),
               ("data.adr", eq(req["adr"], o.data_adr)),
               ("data.sel", eq(req["sel"], o.data_sel))]
        for k in range(4):
            out.append(("data.dat_w lane %d" % k, implies(
                and_(o.data_we, t.bit(o.data_sel, k)),
                eq(t.ext(req["dat_w"], 8 * k + 7, 8 * k), o.store_lane(k)))))
        return out

    def latency(self, p, o, b, en, i_any, ipost):
        cls = self.cls
        lat = p.lat - p.waits
        le = lambda k: t.TRUE if lat <= k else t.FALSE  # noqa: E731
        intr = t.conj([en, i_any, ipost])
        if cls in SHIFTS:
            f = o.f
            n = t.ext(self.a.x(f.rs2) if cls in ("sll", "srl", "sra")
                      else f.immI, 4, 0)
            ok = t.ite(eq(n, const(0, 5)),
                       le(10 if cls in ("sll", "srl", "sra") else 9),
                       not_(t.ult(t.add(const(7, 16), t.shl(
                           t.zext(n, 16), const(1, 16))),
                           const(lat, 16))))
        elif cls in JUMPS and cls not in ("jal", "jalr"):
            taken = not_(eq(o.post.pc, t.add(self.a.pc, spec.C32(4))))
            taken = t.or_(taken, eq(o.f.immB, spec.C32(4)))
            ok = t.ite(taken, le(8), le(7))
        else:
            ok = le(latency_bound(cls))
        # (an ordinary completion may coincide with an interrupt's outcome)
        return t.or_(and_(intr, le(intr_bound(cls))),
                     t.ite(o.trap, le(trap_bound(cls)), ok))

    def noninterference(self, p, b, ms, mie, a):
        """C16: two runs that agree on acknowledged data agree."""
        cls = self.cls
        H = p.conds
        outs = [("pc", b.pc), ("mstatus", ms), ("mie", mie),
                ("mtvec", b.mtvec), ("mscratch", b.mscratch),
                ("mepc", b.mepc), ("mcause", b.mcause),
                ("regs[j]", b.x(t.var("frame_j", 5)))]
        for k in ("adr", "sel", "we"):
            outs.append(("fetch." + k, p.fetch[k]))
        for req, _ in p.data:
            for k in ("adr", "sel", "we"):
                outs.append(("data." + k, req[k]))
            lanes = t.cat(*[t.ite(t.bit(req["sel"], k),
                                  t.ext(req["dat_w"], 8 * k + 7, 8 * k),
                                  const(0, 8)) for k in range(4)])
            outs.append(("data.dat_w", t.ite(req["we"], lanes,
                                             const(0, 32))))
        acked = {d.v for _, d in p.data} | {p.insn2.v}
        noise = set()
        for x in t.vars_of([v for _, v in outs] + H):
            if x.op != "x":
                continue
            if (x.v.startswith("dat#") and x.v not in acked) \
                    or x.v.startswith(("hav.", "dead.", "acc.")):
                noise.add(x)
        env = {x: t.var(x.v + "'", x.w) for x in noise}
        env.update({("mem", x.v): x.v + "'" for x in t.vars_of(
            [v for _, v in outs] + H) if x.op == "rd"
            and x.v.startswith(("hav.", "dead."))})
        memo = {}
        H2 = [t.subst(h, env, memo) for h in H]
        known = self.core.guards      # about the start state: no conclusion
        K = [h2 for h, h2 in zip(H, H2) if h.id in known]
        for h, h2 in zip(H, H2):
            if h is not h2 and h.id not in known:
                yield Obl(frozenset(["C16"]), cls + ".control flow does not "
                          "depend on unacknowledged data", H + K, h2)
        for n, v in outs:
            v2 = t.subst(v, env, memo)
            yield Obl(frozenset(["C16"]), "%s.%s does not depend on "
                      "unacknowledged data" % (cls, n), H + H2, eq(v, v2))
        # the interrupt line is inert while interrupts are disabled
        if not cls.endswith(".mip"):
            en = and_(a.mie, a.meie)
            env = {x: t.var(x.v + "'", 1) for x in
                   t.vars_of([v for _, v in outs] + H)
                   if x.op == "x" and x.v.startswith(("irq#", "irqF"))}
            memo = {}
            H2 = [t.subst(h, env, memo) for h in H]
            K = [h2 for h, h2 in zip(H, H2) if h.id in known]
            for h, h2 in zip(H, H2):
                if h is not h2 and h.id not in known:
                    yield Obl(frozenset(["C16", "C10"]), cls + ".control flow "
                              "ignores the masked interrupt line",
                              H + K + [not_(en)], h2)
            for n, v in outs:
                v2 = t.subst(v, env, memo)
                yield Obl(frozenset(["C16", "C10"]), "%s.%s ignores the "
                          "masked interrupt line" % (cls, n),
                          H + H2 + [not_(en)], eq(v, v2))


def reset_obligations(core):
    """C13: {any state, rst held >= 1 cycle} -> {architectural reset}."""
    P = frozenset(["C13", "C17"])
    for n, h, g in core.reset_obl:
        yield Obl(P, "reset." + n, h, g)
    if core.formal:
        for n, v in core.d.nl.top.ports_o.items():
            if n.startswith("rvfi__"):
                w = spec.rvfi_width(n[6:])
                yield Obl(frozenset(["C17"]), "rvfi_%s is %d bits wide" % (
                    n[6:], w), [], t.TRUE if len(v) == w else t.FALSE)
    for k, (n, c) in enumerate(core.reset_paths):
        a, ms, mie = core.arch(n.state)
        H = n.conds
        z = spec.C32(0)
        parts = [("pc is 0", eq(a.pc, z)), ("x0 is 0", eq(a.x(
            const(0, 5)), z)), ("mcause is 0", eq(a.mcause, z)),
            ("mstatus.mie is 0", not_(t.bit(ms, 3))),
            ("mie.meie is 0", not_(t.bit(mie, 11))),
            ("mstatus fixed bits", eq(ms, spec.mstatus_of(
                a.with_(mie=t.bit(ms, 3), mpie=t.bit(ms, 7))))),
            ("mie fixed bits", eq(mie, spec.mie_of(
                a.with_(meie=t.bit(mie, 11))))),
            ("mtvec aligned", eq(t.ext(a.mtvec, 1, 0), const(0, 2))),
            ("mepc aligned", eq(t.ext(a.mepc, 1, 0), const(0, 2))),
            ("first fetch at 0", eq(c.port("bus__adr"), const(0, 30))),
            ("first fetch reads", not_(c.port("bus__we"))),
            ("first fetch whole word", eq(c.port("bus__sel"),
                                          const(15, 4)))]
        for nm, g in parts:
            yield Obl(P, "reset.%s" % nm, H, g)
        if core.formal:
            rv = core.rv_state(core.first_state(n))
            yield Obl(P, "reset.first record has order 0", H,
                      eq(rv["order"], const(0, 64)))
            yield Obl(P, "reset.first record is no trap handler entry", H,
                      not_(rv["intr"]))
        for nm, h, g in n.obl:
            yield Obl(frozenset(["C17"] if nm.startswith("rvfi") else
                                ["C13", "C14"]), "reset." + nm, h, g)
        yield Obl(frozenset(["C13", "C15"]), "reset.reaches the first fetch",
                  H, t.TRUE if n.n <= 8 else t.FALSE)
        # the state entered is one the instruction contracts start from
        for i, (m, kk) in core.const_bits.items():
            for bb in range(n.state[i].w):
                if (m >> bb) & 1:
                    yield Obl(P, "reset.boundary.%s" % core.d.cellname(i), H,
                              eq(t.bit(n.state[i], bb), const(kk >> bb, 1)))
        for i, kk in core.rel.items():
            v = n.state[i]
            yield Obl(P, "reset.boundary.%s" % core.d.cellname(i), H,
                      eq(v, const(core.u0 + kk, v.w)))
        for nm, g in core.ties(n.state):
            yield Obl(P, "reset.boundary.%s" % nm, H, g)


def coverage_obligations():
    """The instruction classes cover every 32-bit word."""
    x = t.var("insn", 32)
    covered = []
    for n, (m, v) in spec.classes().items():
        w = spec.class_insn(n, (m, v), x)
        covered.append(and_(eq(x, w), t.subst(
            spec.class_guard(n, w), {}, {})))
    return [Obl(None, "classes cover all instruction words", [],
                t.disj(covered))]
