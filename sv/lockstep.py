"""Run the real core in Amaranth's simulator next to the specification.

The bus environment is a stream: the k-th instruction fetch returns the k-th
word of the stream whatever its address (the address is compared with the
specification's pc), every data read returns scripted data.  Only what a user
can observe at the pins is compared.
"""
import env  # noqa: F401
import random
import iss
import spec
import term as t
from amaranth.sim import Simulator


class Mismatch(Exception):
    pass


class Undecided(Exception):
    """Too many states explain what was seen so far."""


class Script:
    """What the environment does.  All callables are deterministic."""

    def __init__(self, stream, seed=0, max_wait=0, irq=None, rst=None,
                 waits=None, rdata=None, noise=True, tail_idle=0,
                 cycles=100000, unknown_start=False):
        self.stream = stream          # list of instruction words
        self.rnd = random.Random(seed)
        self.max_wait = max_wait
        self.waits = waits or {}      # transaction number -> extra waits
        self.rdata_ = rdata or {}     # data read number -> word
        self.irq_ = irq               # fn(fetches accepted, cycle in insn)
        self.rst = rst or set()       # cycles with rst=1
        self.noise = noise
        self.cycles = cycles
        self.n_tx = 0
        self.n_rd = 0

    def next_wait(self):
        k = self.n_tx
        self.n_tx += 1
        if k in self.waits:
            return self.waits[k]
        return self.rnd.randint(0, self.max_wait) if self.max_wait else 0

    def next_rdata(self):
        k = self.n_rd
        self.n_rd += 1
        if k in self.rdata_:
            return self.rdata_[k]
        return self.rnd.getrandbits(32)


class Judge:
    """Set of specification states consistent with the pins so far."""

    def __init__(self, script):
        self.sc = script
        self.states = [iss.State()]
        self.insn = None            # current instruction word
        self.win = []               # irq samples since its fetch was accepted
        self.data = []              # data transactions of this instruction
        self.nfetch = 0
        self.log = []
        self.trace = None           # trace record emitted with the fetch
        self.order = 0
        self.intr = 0
        self.unknown = False

    def reset(self):
        self.unknown = True
        self.insn = None
        self.data = []
        self.win = []
        # registers are not reset: unknown; track what is architecturally
        # defined and let the stream initialise the rest.
        self.states = None
        self.order = self.intr = 0
        self.trace = None

    def fetch(self, adr, sel, we, irq, lat=0):
        """An accepted fetch; completes the previous instruction."""
        i = self.nfetch
        if we or sel != 15:
            raise Mismatch("fetch %d with we=%d sel=%x" % (i, we, sel))
        if self.insn is not None:
            self._complete(lat)
        ok = [s for s in self.states if s.pc >> 2 == adr]
        if not ok:
            raise Mismatch(
                "instruction %d (%s) at %s: next fetch at %08x, expected %s"
                % (i - 1, "%08x" % self.insn if self.insn is not None
                   else "reset", self._pcs(), adr << 2,
                   sorted({"%08x" % s.pc for s in self.states})))
        self.states = ok
        self.insn = self.sc.stream[i] if i < len(self.sc.stream) else None
        self.nfetch += 1
        self.win = [irq]
        self.data = []
        return self.insn

    def _pcs(self):
        return getattr(self, "pcs", "?")

    def _record(self, s, rd, interrupted, mip=(0, 1)):
        """Disagreement of the trace record with this outcome, or None."""
        rv = self.trace
        if rv is None:
            return None
        bad = iss.record(s, self.insn, rd, rv, interrupted,
                         self.win[0] if len(set(self.win)) == 1 else None,
                         mip)
        if self.unknown:         # registers hold unknown values after reset
            bad = [b for b in bad if not (
                b.startswith("csr.") or b.endswith("data") and b[0] == "r")]
        if rv["order"].v != self.order:
            bad.append("order %d, expected %d" % (rv["order"].v, self.order))
        if rv["intr"].v != self.intr:
            bad.append("intr %d" % rv["intr"].v)
        return ", ".join(bad) or None

    def _complete(self, lat=0):
        out = {}
        any_, all_ = any(self.win), all(self.win)
        self.pcs = sorted({"%08x" % s.pc for s in self.states})
        why = []
        for s in self.states:
            en = s.mie and s.meie
            if en and any_ and not self.data:
                n = iss.interrupt(s)
                bad = self._record(s, 0, True)
                if bad:
                    why.append("interrupt with trace record: " + bad)
                elif lat > iss.intr_bound(self.insn):
                    why.append("%d cycles to enter the interrupt" % lat)
                else:
                    out[n.key()] = n
            if en and all_:
                why.append("an interrupt was due")
                continue
            exp = iss.access(s, self.insn)
            if (exp is None) != (not self.data):
                why.append("expected %s data access, saw %r"
                           % ("no" if exp is None else "a", self.data))
                continue
            rd = 0
            if exp is not None:
                if len(self.data) != 1:
                    why.append("%d data accesses" % len(self.data))
                    continue
                we, adr, sel, dat, rd = self.data[0]
                bad = (we, adr, sel) != exp[:3] or (we and any(
                    (sel >> k) & 1 and (dat >> 8 * k) & 255 != exp[3][k]
                    for k in range(4)))
                if bad:
                    why.append("data access we=%d adr=%08x sel=%x dat=%08x,"
                               " expected we=%d adr=%08x sel=%x lanes=%s"
                               % (we, adr << 2, sel, dat, exp[0],
                                  exp[1] << 2, exp[2], exp[3]))
                    continue
            r = iss.step(s, self.insn, rd, 0)
            bad = self._record(s, rd, False)
            if bad:
                why.append("trace record: " + bad)
                continue
            lim = iss.bound(s, self.insn, r.trap, r.post)
            if lat > lim:
                why.append("took %d cycles, documented %d" % (lat, lim))
                continue
            posts = [r.post]
            if r.reads_mip:
                posts = []
                for m in {int(any_), int(all_)}:
                    bad = self._record(s, rd, False, (m,))
                    if bad:
                        why.append("trace record: " + bad)
                    else:
                        posts.append(iss.step(s, self.insn, rd, m).post)
            for p in posts:
                out[p.key()] = p
        if not out:
            raise Mismatch("instruction %d (%08x) at %s: %s"
                           % (self.nfetch - 1, self.insn, self.pcs,
                              "; ".join(sorted(set(why)))))
        if len(out) > 256:
            raise Undecided
        self.states = list(out.values())
        if self.trace is not None:
            self.order += 1
            self.intr = self.trace["trap"].v


FORMAL = False          # drive the build with the trace port
_sims = {}


class _Sim:
    """One elaboration of the core, run again and again from power-up."""

    def __init__(self, top=None):
        if top is None:
            if FORMAL:
                from sentinel.formal import FormalTop as Top
            else:
                from sentinel.top import Top
            top = Top()
        from amaranth.hdl import ClockDomain, Module
        cd = ClockDomain("sync")
        mod = Module()
        mod.domains += cd
        mod.submodules.top = top
        self.top, self.rst = top, cd.rst
        self.rvs = _trace_ports(top)
        self.tb = None
        self.sim = Simulator(mod)
        self.sim.add_clock(1e-6)

        async def main(ctx):
            await self.tb(ctx)
        self.sim.add_testbench(main)

    def run(self, tb):
        self.tb = tb
        self.sim.reset()
        self.sim.run()


def run(script, want_log=False, after=None):
    """None if the pins agree with the specification, else a message."""
    m = _sims.pop(FORMAL, None) or _Sim()
    r = _run(m, script, want_log, after)
    _sims[FORMAL] = m            # not after an exception
    return r


def _run(m, script, want_log, after):
    top, rvs, RST = m.top, m.rvs, m.rst
    j = Judge(script)
    res = {}
    rnd = random.Random(script.rnd.random())

    async def tb(ctx):
        pst = False             # stb in the previous cycle, unacknowledged
        held = None
        idle_required = False
        wait = None
        quiet = 0
        in_fetch = False
        rst_prev = False
        cyc_in = waited = 0
        for cycle in range(script.cycles):
            rst = 1 if cycle in script.rst else 0
            ctx.set(RST, rst)
            irq = script.irq_(j.nfetch, cyc_in, cycle) if script.irq_ else 0
            ctx.set(top.irq, irq)
            ctx.set(top.bus.ack, 0)
            ctx.set(top.bus.dat_r, rnd.getrandbits(32) if script.noise else 0)
            stb, cyc = ctx.get(top.bus.stb), ctx.get(top.bus.cyc)
            if rvs and ctx.get(rvs["valid"]) and not rst:
                raise Mismatch("trace record without a completing fetch")
            cyc_in += 1
            if rst:
                # first reset cycle: the old request may still be visible
                if rst_prev and stb:
                    raise Mismatch("bus request while in reset")
                await ctx.tick()
                rst_prev, pst, held, idle_required = True, False, None, False
                quiet, wait = 0, None
                j.reset()
                continue
            if j.states is None:
                # architectural reset: registers keep unknown values; the
                # script's stream re-initialises them
                j.states = [iss.State()]
                cyc_in = 0
                if after is not None:
                    j.sc.stream = after
                j.nfetch = 0
                j.insn, j.data, j.win = None, [], []
            rst_prev = False
            if cyc != stb:
                raise Mismatch("cyc=%d stb=%d" % (cyc, stb))
            j.win.append(irq)
            if not stb:
                if held is not None:
                    raise Mismatch("request withdrawn before ack")
                idle_required = False
                pst = False
                quiet += 1
                if quiet > 200:
                    raise Mismatch("no bus request for 200 cycles after "
                                   "instruction %d (%s)" % (
                                       j.nfetch - 1, j.insn))
                await ctx.tick()
                continue
            quiet = 0
            if idle_required:
                raise Mismatch("no idle cycle after ack")
            req = tuple(ctx.get(x) for x in (
                top.bus.we, top.bus.adr, top.bus.sel))
            dw = ctx.get(top.bus.dat_w)
            cur = req + ((dw,) if req[0] else ())
            if held is None:
                held = cur
                wait = script.next_wait()
            elif held != cur:
                raise Mismatch("request changed while waiting: %r -> %r"
                               % (held, cur))
            if not pst:
                pst = True
                await ctx.tick()
                continue
            if wait > 0:
                wait -= 1
                waited += 1
                await ctx.tick()
                continue
            # acknowledge: fetch or data?  A fetch is recognised by the
            # specification: data accesses are predicted from the state.
            we, adr, sel = req
            is_data = False
            if j.insn is not None and not j.data:
                exp = [iss.access(s, j.insn) for s in j.states]
                is_data = any(e is not None and e[:3] == (we, adr, sel)
                              for e in exp)
                if not is_data and any(e is not None for e in exp) and not (
                        any(j.win) and any(s.mie and s.meie
                                           for s in j.states)):
                    is_data = True
                if we:
                    is_data = True
            elif we:
                is_data = True
            if is_data and not we and sel == 15 and any(
                    s.mtvec >> 2 == adr for s in j.states) and any(j.win):
                return      # cannot tell a load from an interrupt's fetch
            if is_data:
                rd = 0 if we else script.next_rdata()
                ctx.set(top.bus.dat_r, rd if not we else
                        rnd.getrandbits(32))
                if rvs:
                    ctx.set(top.bus.ack, 1)
                    if ctx.get(rvs["valid"]):
                        raise Mismatch("trace record with a data access")
                j.data.append((we, adr, sel, dw, rd))
            else:
                if rvs:
                    k = j.nfetch
                    ctx.set(top.bus.dat_r, script.stream[k]
                            if k < len(script.stream) else 0x13)
                    ctx.set(top.bus.ack, 1)
                    if j.insn is None:
                        if ctx.get(rvs["valid"]):
                            raise Mismatch("trace record with first fetch")
                    else:
                        j.trace = {k: t.const(ctx.get(v),
                                              spec.rvfi_width(k))
                                   for k, v in rvs.items()}
                w = j.fetch(adr, sel, we, irq, cyc_in - waited)
                cyc_in = waited = 0
                if want_log:
                    j.log.append((cycle, adr << 2, w))
                if w is None:
                    return
                ctx.set(top.bus.dat_r, w)
            ctx.set(top.bus.ack, 1)
            # outputs must not change in response to ack
            if ctx.get(top.bus.stb) != 1 or \
                    (ctx.get(top.bus.we), ctx.get(top.bus.adr),
                     ctx.get(top.bus.sel)) != req:
                raise Mismatch("request changed by its own ack")
            held = None
            pst = False
            idle_required = True
            await ctx.tick()
        raise Mismatch("ran out of cycles after %d instructions" % j.nfetch)

    async def guarded(ctx):
        try:
            for k, v in (rvs or {}).items():
                if len(v) != spec.rvfi_width(k):
                    raise Mismatch("rvfi_%s is %d bits wide" % (k, len(v)))
            await tb(ctx)
        except Mismatch as e:
            res["m"] = str(e)
        except Undecided:
            pass

    m.run(guarded)
    if want_log:
        return res.get("m"), j.log
    return res.get("m")


def _trace_ports(top):
    if not hasattr(top, "rvfi"):
        return None
    return {"__".join(map(str, p)): v
            for p, m, v in top.rvfi.signature.flatten(top.rvfi)}


# ------------------------------------------------------------ small assembler

def lui(rd, v):
    return (v & 0xFFFFF000) | rd << 7 | 0x37


def addi(rd, rs, v):
    return (v & 0xFFF) << 20 | rs << 15 | rd << 7 | 0x13


def jalr(rd, rs, v):
    return (v & 0xFFF) << 20 | rs << 15 | rd << 7 | 0x67


def sw(rs2, rs1, v):
    v &= 0xFFF
    return (v >> 5) << 25 | rs2 << 20 | rs1 << 15 | 2 << 12 | \
        (v & 31) << 7 | 0x23


def csrrw(rd, csr, rs):
    return csr << 20 | rs << 15 | 1 << 12 | rd << 7 | 0x73


def csrrs(rd, csr, rs):
    return csr << 20 | rs << 15 | 2 << 12 | rd << 7 | 0x73


def li(rd, v):
    v &= 0xFFFFFFFF
    hi = (v + 0x800) & 0xFFFFF000
    return [lui(rd, hi), addi(rd, rd, v - hi)]


MRET, ECALL, EBREAK = 0x30200073, 0x00000073, 0x00100073


def boot(s, prefix=()):
    """Stream that brings the core from reset into state `s` (x1 last)."""
    w = []
    # known trap vector first
    w += li(1, 0x100) + [csrrw(0, 0x305, 1)]
    if prefix:
        for r in range(2, 32):
            w += li(r, 0)
    w += list(prefix)
    for n, c in (("mtvec", 0x305), ("mscratch", 0x340), ("mepc", 0x341),
                 ("mcause", 0x342)):
        w += li(1, getattr(s, n)) + [csrrw(0, c, 1)]
    w += li(1, s.meie << 11) + [csrrw(0, 0x304, 1)]
    for r in range(2, 32):
        w += li(r, s.x[r])
    w += li(1, s.mie << 3 | s.mpie << 7) + [csrrw(0, 0x300, 1)]
    w += li(1, s.pc - 8) + [jalr(0, 1, 0)]
    w += li(1, s.x[1])
    return w


def epilogue():
    w = [sw(r, 0, 0) for r in range(32)]
    for c in (0x300, 0x304, 0x305, 0x340, 0x341, 0x342):
        w += [csrrs(1, c, 0), sw(1, 0, 4)]
    return w
