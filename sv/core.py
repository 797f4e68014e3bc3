"""Symbolic machine for the real core: boundary contract, instruction runs."""
import env  # noqa: F401
import term as t
import spec
import netlist as nlm
from netlist import Design, Cycle, Unsupported
from solver import Solver
from amaranth.hdl import _nir


class Stuck(Exception):
    """Exploration could not be finished (not a verdict)."""


class Path:
    """One complete run from an accepted fetch to the next accepted fetch."""
    __slots__ = ("conds", "post", "data", "fetch", "irqs", "lat", "trace",
                 "cyc_obl", "insn2", "datr", "kind", "mid", "note", "seed",
                 "samples", "ackc", "waits", "upcs", "rv")


class Node:
    __slots__ = ("state", "upc", "conds", "data", "req", "lat", "irqs",
                 "pstb", "trace", "obl", "gen", "idle", "n", "samples", "sl",
                 "waits")

    def copy(self):
        n = Node()
        for s in Node.__slots__:
            v = getattr(self, s)
            setattr(n, s, list(v) if isinstance(v, list) else v)
        return n


MAX_CYCLES = 140
CSRWORDS = ("MTVEC", "MSCRATCH", "MEPC", "MCAUSE")


class Core:
    def __init__(self, make=None, solver=None, formal=False, modular=True):
        self.formal = formal
        if make is None:
            if formal:
                from sentinel.formal import FormalTop as make
            else:
                from sentinel.top import Top as make
        self.sol = solver or Solver()
        self.modular = None
        if modular:
            import contracts
            self.modular = mod = contracts.Modular(self.sol)
            try:
                self.top, self.d = mod.build(make)
            except Exception as e:
                # the bodies are verified with their callers instead
                mod.proved, mod.failed = {}, "%s: %s" % (type(e).__name__, e)
        if self.modular is None or self.modular.failed:
            self.top = make()
            self.d = Design(self.top)
        self._roles()

    # ------------------------------------------------------------ roles
    def _roles(self):
        d = self.d
        roms = [m for m in d.mems if not d.wports[m]]
        rams = [m for m in d.mems if d.wports[m]]
        roms = [m for m in roms if d.mports[m]]
        if not roms:
            raise Unsupported("no microcode ROM found")
        self.rom = max(roms, key=lambda m: d.mems[m].width * d.mems[m].depth)
        rp = d.mports[self.rom]
        if len(rp) != 1:
            raise Unsupported("microcode ROM ports")
        self.seq = rp[0]
        self.words = d.initial_mem(self.rom)
        self.romw = d.mems[self.rom].width
        rams = [m for m in rams if d.mems[m].width == 32
                and d.mems[m].depth >= 32]
        if len(rams) > 1:
            rams = [m for m in rams if d.mems[m].depth == 64] or rams
        if len(rams) != 1:
            raise Unsupported("register memory not identified")
        self.ram = rams[0]
        self.raw_ = (d.mems[self.ram].depth - 1).bit_length()
        if self.raw_ < 6:
            raise Unsupported("register memory not identified")
        # other writable memories hold nothing the contracts know about:
        # arbitrary contents at the start of every instruction
        self.xrams = [m for m in d.mems if d.wports[m] and m != self.ram]
        self.csradr = {}
        self.views = None
        self._rel = None
        self.inferred = False
        self._named_roles()
        for p in ("bus__adr", "bus__dat_w", "bus__sel", "bus__cyc",
                  "bus__stb", "bus__we"):
            if p not in d.nl.top.ports_o:
                raise Unsupported("port " + p)
        self._set_known()
        self.const_bits = {}
        self.rel = {}
        self.lin, self.bitlin = {}, {}
        self.accept, self.weak, self.guards = [], set(), set()

    def _named_roles(self):
        """Where the architectural state lives, by the public names."""
        d = self.d
        try:
            dp = (self.top.cpu if self.formal else self.top).datapath
            adr = {n: 32 + getattr(dp.csrfile, n) for n in CSRWORDS}
            vals = [d.value_of(x) for x in (dp.pc.dat_r, dp.csr.mstatus_r,
                                            dp.csr.mie_r)]
            if [len(v) for v in vals] not in ([30, 32, 32], [32, 32, 32]):
                return
        except (AttributeError, KeyError, TypeError, Unsupported):
            return
        self.csradr = adr
        self.views = [lambda c, v=v: c.val(v) for v in vals]

    def _infer_roles(self):
        """The same without relying on names: the state is what the pins and
        CSR reads show.  pc: the first-fetch address; CSRs: what
        `csrrs x1, csr, x0` puts in x1."""
        s = self.sym_state("d.", self.mem0("M"), None)
        self.at(s, self.u0)
        c = self.cycle(s, t.FALSE, t.var("irqF", 1), t.var("datF", 32))
        views = [self._view(c.port("bus__adr"))]
        for num in (spec.MSTATUS, spec.MIE):
            views.append(self._view(self._csr_read(num)))
        adr = {}
        for n in CSRWORDS:
            v = self._csr_read(getattr(spec, n))
            if v.op != "rd" or v.a[0].op != "c":
                raise Unsupported("storage of %s not identified" % n)
            adr[n] = v.a[0].v
        self.views = views
        self.csradr = adr
        self.inferred = True

    def _view(self, x):
        vs = {}
        for v in t.vars_of([x]):
            i = self._ffvar.get(v.v) if v.op == "x" else None
            if i is None:
                raise Unsupported("architectural state is not registers")
            vs[v] = i
        return lambda c: t.subst(x, {v: c.s[i] for v, i in vs.items()}, {})

    def _csr_read(self, num):
        """What `csrrs x1, num, x0` leaves in x1 (ordinary completion)."""
        insn = t.const(num << 20 | 2 << 12 | 1 << 7 | 0x73, 32)
        paths, _ = self.run(insn)
        old = t.mread("M", 32, t.const(1, self.raw_))
        got = {p.post[self.ram].read(t.const(1, self.raw_)) for p in paths
               if p.kind == "normal"}
        got = [g for g in got if g is not old]
        if len(got) != 1:
            raise Unsupported("cannot identify csr %x" % num)
        return got[0]

    def _set_known(self):
        self.known = {0: lambda x: t.const(0, 32)}
        for n in ("MTVEC", "MEPC"):
            if n in self.csradr:
                self.known[self.csradr[n]] = _al4

    # ------------------------------------------------------------ helpers
    def word(self, u):
        return t.const(self.words[u] if u < len(self.words) else 0, self.romw)

    def _xmem(self, tag):
        r = {}
        for m in self.xrams:
            c = self.d.mems[m]
            r[m] = t.Mem("%sm%d" % (tag, m),
                         max(1, (c.depth - 1).bit_length()), c.width)
        return r

    def mem0(self, name, inv=True):
        return t.Mem(name, self.raw_, 32, (), self.known if inv else
                     {k: v for k, v in self.known.items() if k != 0})

    def sym_state(self, tag, mem, latch):
        """Arbitrary state satisfying the inferred constant bits."""
        s = {}
        self._ffvar = {}
        for i in self.d.ffs:
            w = len(self.d.cells[i].data)
            n = "%s%s.%d" % (tag, self.d.cellname(i), i)
            self._ffvar[n] = i
            s[i] = self._masked(i, t.var(n, w))
        for m in self.d.mems:
            s[m] = self.d.initial_mem(m)
        self._tie(s)
        s.update(self._xmem(tag))
        s[self.ram] = mem
        for r in self.d.rports:
            s[r] = t.var("%srp%d" % (tag, r), self.d.cells[r].width)
        if latch is not None:
            s[self.seq] = latch
        return s

    def _tie(self, s):
        """Registers that always hold (another register) + k, bits that
        always equal another bit or its complement."""
        for i, (j, k) in self.lin.items():
            s[i] = self._masked(i, t.add(s[j], t.const(k, s[j].w)))
        for i, bits in self.bitlin.items():
            s[i] = t.cat(*[self._bit(s, *bits[b]) if b in bits
                           else t.bit(s[i], b) for b in range(s[i].w)])

    def _bit(self, s, j, b, inv):
        x = t.bit(s[j], b)
        return t.not_(x) if inv else x

    def ties(self, s):
        """The same as named equations over a state."""
        for i, (j, k) in self.lin.items():
            yield self.d.cellname(i), t.eq(
                s[i], t.add(s[j], t.const(k, s[j].w)))
        for i, bits in self.bitlin.items():
            for b, r in bits.items():
                yield self.d.cellname(i), t.eq(t.bit(s[i], b),
                                               self._bit(s, *r))

    def _infer_lin(self):
        """Largest inductive set of "register i = register j + k", then of
        "bit = other bit (inverted)", from the values after reset; any
        microinstruction, any inputs."""
        d = self.d
        init = {}
        for i in d.ffs:
            vs = {n.state[i].v if n.state[i].op == "c" else None
                  for n, _ in self.reset_paths}
            if i not in self.rel and len(vs) == 1 and None not in vs:
                init[i] = vs.pop()
        width = {i: len(d.cells[i].data) for i in init}
        const = {i: self.const_bits.get(i, (0, 0))[0] for i in init}
        by = {}
        for i in init:
            if const[i] != (1 << width[i]) - 1:
                by.setdefault(width[i], []).append(i)

        def words(classes):
            self.lin = {i: (c[0], (init[i] - init[c[0]]) % (1 << width[i]))
                        for c in classes for i in c[1:]}
        self._refine([c for c in by.values() if len(c) > 1], words,
                     lambda nv, i: nv(i), lambda i, j, x: t.add(
                         x, t.const(init[i] - init[j], width[i])))

        # bits: of what is kept from one instruction to the next only
        self._rel = None
        free = {i for i in self._related()[1] if i not in self.lin
                and not d.cellname(i).startswith("rvfi__")}
        self._rel = None

        def bits(classes):
            self.bitlin = {}
            for c in classes:
                for i, b in c[1:]:
                    j, b2 = c[0]
                    self.bitlin.setdefault(i, {})[b] = (
                        j, b2, (init[i] >> b ^ init[j] >> b2) & 1)
        self._refine([[(i, b) for i in init if i in free
                       for b in range(width[i]) if not const[i] >> b & 1]],
                     bits, lambda nv, u: t.bit(nv(u[0]), u[1]),
                     lambda u, v, x: t.xor_(x, t.const(
                         init[u[0]] >> u[1] ^ init[v[0]] >> v[1], 1)))

    def _refine(self, classes, install, nextval, shift):
        """Greatest inductive refinement of a partition.  shift(u, v, x): what
        u holds if v holds x."""
        import random
        d = self.d
        r = random.Random(1)
        exact = False
        while True:
            install(classes)
            if not classes:
                return
            s = self.sym_state("h.", self.mem0("Mh"),
                               t.var("h.latch", self.romw))
            c = self.cycle(s, t.var("h.ack", 1), t.var("h.irq", 1),
                           t.var("h.dat", 32))
            nv = {u: nextval(lambda i: c.val(d.cells[i].data), u)
                  for k in classes for u in k}
            new = []
            if not exact:
                envs = []
                for _ in range(24):
                    seed = r.getrandbits(32)
                    envs.append((_random_env(seed, {
                        "h.latch": r.choice(self.words)}), seed, {}))
                for k in classes:
                    parts = {}
                    for u in k:
                        x = shift(k[0], u, nv[u])
                        parts.setdefault(tuple(t.evalc(
                            x, e, lambda n, a, sd=sd: random.Random(
                                "%d %s %d" % (sd, n, a)).getrandbits(32), mm)
                            for e, sd, mm in envs), []).append(u)
                    new += parts.values()
            else:
                for k in classes:
                    same, other = [k[0]], []
                    for u in k[1:]:
                        q, _ = self.sol.check([t.ne(
                            nv[u], shift(u, k[0], nv[k[0]]))])
                        (same if q == "unsat" else other).append(u)
                    new += [same, other]
            new = [k for k in new if len(k) > 1]
            if sorted(map(sorted, new)) == sorted(map(sorted, classes)):
                if exact:
                    return
                exact = True
            classes = new

    def _masked(self, i, v):
        cb = self.const_bits.get(i)
        if not cb:
            return v
        parts = []
        for k in range(v.w):
            if (cb[0] >> k) & 1:
                parts.append(t.const(cb[1] >> k, 1))
            else:
                parts.append(t.bit(v, k))
        return t.cat(*parts)

    def inputs(self, ack, irq, dat, rst=0):
        r = {"rst": t.const(rst, 1), "bus__ack": ack, "irq": irq,
             "bus__dat_r": dat}
        for n, w in self.d.ins.items():
            if n not in r and n != self.d.clk:
                raise Unsupported("input " + n)
        return r

    def cycle(self, state, ack, irq, dat, rst=0):
        return Cycle(self.d, state, self.inputs(ack, irq, dat, rst))

    def arch(self, state):
        """Architectural view of a state (through public signals)."""
        c = Cycle(self.d, state, _NoInputs())
        return self.arch_c(c, state)

    def arch_c(self, c, state):
        mem = state[self.ram]
        K = lambda n: t.const(self.csradr[n], self.raw_)  # noqa: E731
        pc, ms, mie = [v(c) for v in self.views]
        a = spec.Arch(
            pc=t.cat(t.const(0, 2), pc) if pc.w == 30 else pc,
            x=lambda j: mem.read(t.zext(j, self.raw_)),
            mie=t.bit(ms, 3), mpie=t.bit(ms, 7), meie=t.bit(mie, 11),
            mtvec=_al4(mem.read(K("MTVEC"))), mscratch=mem.read(K("MSCRATCH")),
            mepc=_al4(mem.read(K("MEPC"))), mcause=mem.read(K("MCAUSE")))
        # what the storage holds: the low bits may be dropped on reading only
        a.raw = {"mtvec": mem.read(K("MTVEC")), "mepc": mem.read(K("MEPC"))}
        return a, ms, mie

    def split(self, addr, conds):
        """Feasible values of the next microaddress."""
        if addr.op == "c":
            return [(t.TRUE, addr.v)]
        vals = set()
        if not _leaves(addr, vals) or len(vals) > 64:
            vals = self._enum(addr, conds)
            return [(t.eq(addr, t.const(v, addr.w)), v) for v in vals]
        out = []
        for v in sorted(vals):
            c = t.eq(addr, t.const(v, addr.w))
            if c is t.FALSE:
                continue
            r, why = self.sol.check(conds + [c])
            if r == "sat":
                out.append((c, v))
            elif r != "unsat":
                raise Stuck("solver: %s" % why)
        return out

    def _enum(self, addr, conds):
        vals = []
        ex = []
        while True:
            r, m = self.sol.check(conds + ex, want_model=True)
            if r == "unsat":
                return vals
            if r != "sat":
                raise Stuck("solver: %s" % m)
            v = m(addr)
            vals.append(v)
            ex.append(t.ne(addr, t.const(v, addr.w)))
            if len(vals) > 256:
                raise Stuck("microaddress enumeration")

    # ------------------------------------------------------------ reset
    def run_reset(self):
        """Reset contract: from any state, rst for >= 1 cycle -> first fetch.

        Returns (paths to the first waiting fetch, obligations, in-reset info).
        """
        d = self.d
        mem = self.mem0("Mr", inv=False)
        latch = t.var("stale_word", self.romw)
        s = {}
        for i in d.ffs:
            s[i] = t.var("any.%s.%d" % (d.cellname(i), i),
                         len(d.cells[i].data))
        for m in d.mems:
            s[m] = d.initial_mem(m)
        s.update(self._xmem("any."))
        s[self.ram] = mem
        for r in d.rports:
            s[r] = t.var("anyrp%d" % r, d.cells[r].width)
        s[self.seq] = latch
        # one (last) reset cycle from an arbitrary state
        c = self.cycle(s, t.fresh("ack", 1), t.fresh("irq", 1),
                       t.fresh("dat", 32), rst=1)
        ns = c.next_state({self.seq: t.var("stale_word2", self.romw)})
        inv_obl = []
        m2 = ns[self.ram]
        for k in self.known:
            if k == 0:
                continue
            inv_obl.append(("reset-cycle preserves low bits of csr word %d" % k,
                            [], t.eq(t.ext(m2.read(t.const(k, self.raw_)),
                                           1, 0), t.const(0, 2))))
        # forget the memory again (any number of reset cycles)
        ns = dict(ns)
        ns[self.ram] = self.mem0("Mr2", inv=False)
        # while reset is still held the bus is quiet
        s2 = dict(ns)
        s2[self.seq] = t.var("stale_word3", self.romw)
        for r in d.rports:
            if r != self.seq:
                s2[r] = t.var("anyrp3.%d" % r, d.cells[r].width)
        c = self.cycle(s2, t.fresh("ack", 1), t.fresh("irq", 1),
                       t.fresh("dat", 32), rst=1)
        for p in ("bus__stb", "bus__cyc"):
            inv_obl.append(("%s low while reset is held" % p, [],
                            t.not_(c.port(p))))
        # (registers that reset leaves alone stay arbitrary)
        n = Node()
        n.state, n.upc, n.conds = ns, None, []
        n.data, n.req, n.lat, n.irqs = [], None, 0, []
        n.pstb, n.trace, n.obl, n.gen = t.FALSE, [], [], False
        n.idle, n.n, n.samples = False, 0, []
        n.sl, n.waits = 0, 0
        done = []
        work = [n]
        while work:
            n = work.pop()
            if n.n > 40:
                raise Stuck("reset routine does not reach a fetch")
            irq, dat = t.fresh("irq", 1), t.fresh("dat", 32)
            c = self.cycle(n.state, t.FALSE, irq, dat)
            stb = c.port("bus__stb")
            cyc = c.port("bus__cyc")
            n.obl.append(("cyc==stb", list(n.conds), t.eq(cyc, stb)))
            if self.formal:
                n.obl.append(("rvfi silent", list(n.conds),
                              self.rv_silent(c)))
            if stb is t.TRUE:
                if self.formal:
                    c1 = self.cycle(n.state, t.TRUE, irq, dat)
                    n.obl.append(("rvfi silent at the first fetch",
                                  list(n.conds), self.rv_silent(c1)))
                done.append((n, c))
                continue
            if stb is not t.FALSE:
                n.obl.append(("no bus request from stale microcode",
                              list(n.conds), t.not_(stb)))
            addr = c.val(d.cells[self.seq].addr)
            for cond, v in self.split(addr, n.conds):
                m = n.copy()
                if cond is not t.TRUE:
                    m.conds.append(cond)
                m.state = c.next_state({self.seq: self.word(v)})
                m.upc = v
                m.trace.append(v)
                m.n += 1
                work.append(m)
        return done, inv_obl

    def setup(self):
        """Reset run -> fetch address u0, decode address uD, constant bits."""
        self._setup()
        if self.views is None:
            self._infer_roles()
            self._set_known()
            self._setup()

    def _setup(self):
        self._rel = None
        self._infer_aligned()
        self.reset_paths, self.reset_obl = self.run_reset()
        us = {n.upc for n, _ in self.reset_paths}
        if len(us) != 1:
            raise Unsupported("several first-fetch microaddresses %r" % us)
        self.u0 = us.pop()
        self.lin, self.bitlin = {}, {}
        self._infer_const()
        self._infer_rel()
        # decode address: where an acknowledged fetch goes
        s = self.sym_state("c.", self.mem0("M"), None)
        self.at(s, self.u0)
        c = self.cycle(s, t.TRUE, t.var("irqD", 1), t.var("insn", 32))
        addr = c.val(self.d.cells[self.seq].addr)
        if addr.op != "c":
            raise Unsupported("fetch does not lead to one microaddress")
        self.uD = addr.v
        # (an acknowledge needs a request: states without one do not matter)
        if c.port("bus__stb") is t.FALSE:
            raise Unsupported("fetch microinstruction does not request")
        self._infer_lin()
        self._infer_accept()

    def at(self, s, u):
        """Put the fetch microaddress u in the microcode latch (and its
        copies): a state in which a fetch may be acknowledged."""
        s[self.seq] = self.word(u)
        for i, k in self.rel.items():
            w = len(self.d.cells[i].data)
            s[i] = t.const(u + k, w)
        for i, (m, k) in self.fetch_bits.items():
            s[i] = t.cat(*[t.const(k >> b, 1) if (m >> b) & 1
                           else t.bit(s[i], b) for b in range(s[i].w)])
        return s

    def advance(self, c, v):
        """State after the clock edge, on the path where the sequencer
        addressed word v."""
        ns = c.next_state({self.seq: self.word(v)})
        for i, k in self.rel.items():
            ns[i] = t.const(v + k, len(self.d.cells[i].data))
        return ns

    def _infer_aligned(self):
        """Is "the low bits of the stored mtvec, mepc are 0" inductive, from
        any state?  If not it is no invariant: reads must drop them."""
        s = self.sym_state("h.", self.mem0("Mh"), t.var("h.latch", self.romw))
        c = self.cycle(s, t.var("h.ack", 1), t.var("h.irq", 1),
                       t.var("h.dat", 32))
        m2 = c.next_state({self.seq: s[self.seq]})[self.ram]
        for k in [k for k in self.known if k]:
            v = t.ext(m2.read(t.const(k, self.raw_)), 1, 0)
            r, _ = self.sol.check([t.ne(v, t.const(0, 2))])
            if r != "unsat":
                del self.known[k]

    def _infer_rel(self):
        """Registers that always hold (address of the latched word) + k."""
        d = self.d
        aw = len(d.cells[self.seq].addr)
        s = self.sym_state("h.", self.mem0("Mh"), t.var("h.latch", self.romw))
        c = self.cycle(s, t.var("h.ack", 1), t.var("h.irq", 1),
                       t.var("h.dat", 32))
        addr = c.val(d.cells[self.seq].addr)
        for i in d.ffs:
            if len(d.cells[i].data) != aw:
                continue
            nv = c.val(d.cells[i].data)
            ks = {(n.state[i].v - self.u0) % (1 << aw)
                  if n.state[i].op == "c" else None
                  for n, _ in self.reset_paths}
            if len(ks) != 1 or None in ks:
                continue
            k = ks.pop()
            r, _ = self.sol.check([t.ne(nv, t.add(addr, t.const(k, aw)))])
            if r == "unsat":
                self.rel[i] = k

    def _infer_const(self):
        """Largest inductive set of 'bit keeps its value at first fetch'."""
        d = self.d
        cand = {}
        st = self.reset_paths[0][0].state
        for i in d.ffs:
            v = st[i]
            m = k = 0
            for b in range(v.w):
                x = t.bit(v, b)
                if all(t.bit(n.state[i], b) is x
                       for n, _ in self.reset_paths) and x.op == "c":
                    m |= 1 << b
                    k |= x.v << b
            cand[i] = (m, k)
        for _ in range(60):
            self.const_bits = cand
            s = self.sym_state("h.", self.mem0("Mh"),
                               t.var("h.latch", self.romw))
            c = self.cycle(s, t.var("h.ack", 1), t.var("h.irq", 1),
                           t.var("h.dat", 32))
            new = {}
            for i in d.ffs:
                m, k = cand[i]
                if not m:
                    continue
                nv = c.val(d.cells[i].data)
                for b in range(nv.w):
                    if (m >> b) & 1:
                        x = t.bit(nv, b)
                        if not (x.op == "c" and x.v == (k >> b) & 1):
                            m &= ~(1 << b)
                if m:
                    new[i] = (m, k & m)
            if new == {i: x for i, x in cand.items() if x[0]}:
                break
            cand = {i: new.get(i, (0, 0)) for i in d.ffs}
        self.const_bits = {i: x for i, x in cand.items() if x[0]}
        self._infer_fetch()

    def _infer_fetch(self):
        """Bits fixed by any request cycle without ack, hence whenever an ack
        arrives (the environment acks only the second or a later cycle of a
        request)."""
        d = self.d
        self.fetch_bits = {}
        s = self.sym_state("h.", self.mem0("Mh"), t.var("h.latch", self.romw))
        c = self.cycle(s, t.FALSE, t.var("h.irq", 1), t.var("h.dat", 32))
        stb = c.port("bus__stb")
        for i in d.ffs:
            if i in self.rel:
                continue
            nv = c.val(d.cells[i].data)
            m = k = 0
            for b in range(nv.w):
                x = t.bit(nv, b)
                if x.op == "c":
                    v = x.v
                elif nv.w <= 8:
                    for v in (0, 1):
                        r, _ = self.sol.check([stb, t.ne(x, t.const(v, 1))])
                        if r == "unsat":
                            break
                    else:
                        continue
                else:
                    continue
                m |= 1 << b
                k |= v << b
            if m:
                self.fetch_bits[i] = (m, k)

    def _infer_accept(self):
        """Microinstructions that can accept a fetch in the cycle they write
        the register memory.  Registers whose value then is not the function
        of the fetched word they have otherwise (say a hand-made bypass of
        the register memory) are described apart for these."""
        self.accept, self.weak, self.guards = [], set(), set()
        if self.formal:
            return      # the trace logic has state of its own
        kept, _ = self._related()
        insn = t.var("insn", 32)
        seen = set()
        for u, w in enumerate(self.words):
            if u == self.u0 or not self.rel and w in seen:
                continue
            seen.add(w)
            s, c, ns = self._accepting(u, insn, t.var("irqF", 1),
                                       self.mem0("M"))
            a = c.val(self.d.cells[self.seq].addr)
            if c.port("bus__stb") is t.FALSE or not ns[self.ram].wr \
                    or a.op == "c" and a.v != self.uD:
                continue
            self.accept.append(u)
            _, _, n2 = self._accepting(self.u0, insn, t.var("irqF", 1),
                                       None, ns)
            for i in kept - self.weak:
                if n2[i] is not ns[i]:
                    r, _ = self.sol.check([t.ne(ns[i], n2[i])])
                    if r != "unsat":
                        self.weak.add(i)

    def _accepting(self, u, insn, irq, mem, s=None):
        s = self.at(dict(s) if s else self.sym_state("acc.", mem, None), u)
        c = self.cycle(s, t.TRUE, irq, insn)
        return s, c, c.next_state({self.seq: self.word(self.uD)})

    def starts(self, insn):
        """The boundary states, each with what is known about it."""
        st, kept = self.boundary(insn)
        out = [(st, None)]
        if not self.weak:
            return out, kept
        d = self.d
        irq = t.var("irqF", 1)
        free = self._related()[1]
        # what the contracts speak about keeps its names
        c = Cycle(d, st, _NoInputs())
        spoken = t.vars_of([v(c) for v in self.views])
        regs = [i for i in d.ffs + [r for r in d.rports if r != self.seq]
                if (i in self.weak or i not in kept and i not in free)
                and st[i] not in spoken]
        seen = set()
        for u in self.accept:
            # M is the memory after the write; before it, anything may have
            # been in the word that is written
            m = self.mem0("M")
            _, _, ns = self._accepting(u, insn, irq, m)
            if len(ns[self.ram].wr) != 1:
                raise Unsupported("several register writes in a cycle")
            wa, _ = ns[self.ram].wr[0]
            m0 = m.write(wa, t.var("acc.junk", 32))
            _, _, ns = self._accepting(u, insn, irq, m0)
            if len(ns[self.ram].wr) != 1 or ns[self.ram].wr[0][0] is not wa:
                raise Unsupported("register write address")
            g = t.eq(m.read(wa), ns[self.ram].wr[0][1])
            k = (g.id,) + tuple(ns[i].id for i in regs)
            if k in seen:
                continue
            seen.add(k)
            self.guards.add(g.id)
            v = dict(st)
            v.update({i: ns[i] for i in regs})
            out.append((v, g))
        return out, kept

    # ------------------------------------------------------------ boundary
    def boundary(self, insn, irq=None):
        """State D(insn): just after the fetch of `insn` was acknowledged."""
        d = self.d
        s = self.at(self.sym_state("d.", self.mem0("M"), None), self.u0)
        c = self.cycle(s, t.TRUE, irq if irq is not None
                       else t.var("irqF", 1), insn)
        ns = c.next_state({self.seq: self.word(self.uD)})
        if ns[self.ram].wr:
            raise Unsupported("the fetch microinstruction writes registers")
        kept, free = self._related()
        for i in d.ffs + [r for r in d.rports if r != self.seq]:
            if i not in kept and i not in free:
                w = ns[i].w
                ns[i] = t.var("dead.%d" % i, w)
                if i in self.const_bits:
                    ns[i] = self._masked(i, ns[i])
        self._tie(ns)
        ns.update(self._xmem("dead."))
        return ns, kept

    def _related(self):
        """Registers whose value after an accepted fetch is, for every
        instruction word, a function of that word and of registers the fetch
        leaves alone (kept), and the registers it leaves alone (free)."""
        if self._rel is not None:
            return self._rel
        d = self.d
        insn = t.var("insn", 32)
        s = self.at(self.sym_state("d.", self.mem0("M"), None), self.u0)
        c = self.cycle(s, t.TRUE, t.var("irqF", 1), insn)
        ns = c.next_state({self.seq: self.word(self.uD)})
        iv = {insn, t.var("irqF", 1)}
        free = {i for i in d.ffs + d.rports
                if i != self.seq and ns[i] is s[i]}
        for i in free:
            iv |= t.vars_of([s[i]])
        kept = set()
        for i in d.ffs + [r for r in d.rports if r != self.seq]:
            ok = iv | t.vars_of([s[i]])
            if i not in free and all(
                    x in ok or x.op == "rd" and t.vars_of(x.a) <= iv
                    for x in t.vars_of([ns[i]])):
                kept.add(i)
        self._rel = kept, free
        return self._rel

    def boundary_obl(self, p, kept):
        """The state after the accepted fetch is in D(fetched word)."""
        post, dat2, irq2 = p.post, p.insn2, p.datr
        if p.trace[-1] in self.accept:
            kept = kept - self.weak       # as in starts(), by construction
        d = self.d
        s = dict(post)
        self.at(s, self.u0)
        c = self.cycle(s, t.TRUE, irq2, dat2)
        ns = c.next_state({self.seq: self.word(self.uD)})
        out = []
        for i in sorted(kept):
            out.append(("boundary." + d.cellname(i), t.eq(post[i], ns[i])))
        for i, (m, k) in self.const_bits.items():
            for b in range(post[i].w):
                if (m >> b) & 1:
                    x = t.bit(post[i], b)
                    if not (x.op == "c" and x.v == (k >> b) & 1):
                        out.append(("boundary.const." + d.cellname(i),
                                    t.eq(x, t.const(k >> b, 1))))
        for n, g in self.ties(post):
            out.append(("boundary." + n, g))
        mem = post[self.ram]
        for k in self.known:
            v = mem.read(t.const(k, self.raw_))
            if k == 0:
                out.append(("invariant.x0", t.eq(v, t.const(0, 32))))
            else:
                out.append(("invariant.aligned[%d]" % k,
                            t.eq(t.ext(v, 1, 0), t.const(0, 2))))
        return out

    # ------------------------------------------------------------ run
    def run(self, insn, guard=None, start=None, observer=None,
            max_paths=1500):
        """All paths of one instruction; {D(insn) and guard} -> fetch ack."""
        starts, kept = self.starts(insn)
        work = []
        for st, known in starts:
            n = Node()
            n.state = st
            n.upc = self.uD
            n.conds = [g for g in (guard, known)
                       if g is not None and g is not t.TRUE]
            n.data, n.req, n.lat, n.irqs = [], None, 0, []
            n.pstb, n.trace, n.obl, n.gen = False, [self.uD], [], False
            n.idle, n.n, n.samples = True, 0, []
            n.sl, n.waits = 0, 0
            work.append(n)
        done = []
        while work:
            if len(done) + len(work) > max_paths:
                raise Stuck("too many paths")
            n = work.pop()
            if n.n > MAX_CYCLES:
                p = self._finish(n, None, None, None)
                p.kind = "nonterminating"
                done.append(p)
                continue
            self._step(n, work, done, kept)
        return done, kept

    def _rvfi(self, c):
        """The trace port in cycle c (formal build only)."""
        return {n[6:]: self._rvport(c, n[6:]) for n in self.d.nl.top.ports_o
                if n.startswith("rvfi__")} if self.formal else None

    def _rvport(self, c, n):
        w = spec.rvfi_width(n)
        if not len(self.d.nl.top.ports_o["rvfi__" + n]):
            return t.const(0, w)
        v = c.port("rvfi__" + n)
        if v.w == w:
            return v
        # the width is an obligation of its own
        return t.zext(v, w) if v.w < w else t.ext(v, w - 1, 0)

    def rv_state(self, state):
        """Trace outputs held in registers, as seen in `state`."""
        c = Cycle(self.d, state, _NoInputs())
        return {k: self._rvport(c, k) for k in ("order", "intr")}

    def first_state(self, n):
        """State after the first fetch (reset path n) was acknowledged."""
        c = self.cycle(n.state, t.TRUE, t.fresh("irq", 1), t.fresh("dat", 32))
        return self.advance(c, self.uD)

    def rv_silent(self, c):
        return t.not_(self._rvport(c, "valid"))

    def _bus(self, c):
        return {k: c.port("bus__" + k)
                for k in ("stb", "cyc", "we", "adr", "sel", "dat_w")}

    def _step(self, n, work, done, kept):
        d = self.d
        irq, dat = t.fresh("irq", 1), t.fresh("dat", 32)
        c0 = self.cycle(n.state, t.FALSE, irq, dat)
        b = self._bus(c0)
        if b["stb"].op != "c":
            # request conditional on data: split
            for v in (0, 1):
                cond = t.eq(b["stb"], t.const(v, 1))
                r, why = self.sol.check(n.conds + [cond])
                if r == "unknown":
                    raise Stuck("solver: %s" % why)
                if r == "sat":
                    m = n.copy()
                    m.conds.append(cond)
                    self._step2(m, work, done, irq, dat, c0, b, v, kept)
            return
        self._step2(n, work, done, irq, dat, c0, b, b["stb"].v, kept)

    def _step2(self, n, work, done, irq, dat, c0, b, stb, kept):
        d = self.d
        n.obl.append(("bus.cyc==stb", len(n.conds), t.eq(b["cyc"], b["stb"])))
        if self.formal:
            n.obl.append(("rvfi silent before completion", len(n.conds),
                          self.rv_silent(c0)))
        addr0 = c0.val(d.cells[self.seq].addr)
        if not stb:
            if n.req is not None:
                n.obl.append(("bus.request held until ack", len(n.conds),
                              t.FALSE))
                n.req = None
            n.idle = True
            n.pstb = False
            n.sl = 0
            for cond, v in self.split(addr0, n.conds):
                m = n.copy()
                if cond is not t.TRUE:
                    m.conds.append(cond)
                m.irqs.append(irq)
                m.samples.append((irq, dat, 0, 1))
                m.lat += 1
                m.n += 1
                m.state = self.advance(c0, v)
                m.upc = v
                m.trace.append(v)
                m.gen = False
                work.append(m)
            return
        # request active
        if not n.gen:
            n.sl += 1
        if not n.idle:
            n.obl.append(("bus.idle cycle after ack", len(n.conds), t.FALSE))
            n.idle = True
        if n.req is None:
            n.req = b
        else:
            for k in ("we", "adr", "sel"):
                n.obl.append(("bus.%s stable" % k, len(n.conds),
                              t.eq(n.req[k], b[k])))
            n.obl.append(("bus.dat_w stable", len(n.conds),
                          t.implies(b["we"], t.eq(n.req["dat_w"],
                                                  b["dat_w"]))))
        selfloop = any(v == n.upc for _, v in self.split(addr0, n.conds))
        if selfloop and not n.gen:
            # loop contract for the wait loop: infer the modified registers,
            # forget them, and check that the rest is preserved.
            m = n.copy()
            self._generalise(m, not n.pstb)
            m.gen = True
            work.append(m)
            if n.pstb:
                return
            # no acknowledge can arrive in the first cycle; leaving the loop
            # without one is explored here, later iterations from m
            self._noack(n, work, c0, addr0, irq, dat)
            return
        self._noack(n, work, c0, addr0, irq, dat)
        # ack = 1
        if not (n.pstb or n.gen):
            return
        c1 = self.cycle(n.state, t.TRUE, irq, dat)
        b1 = self._bus(c1)
        for k in ("stb", "cyc", "we", "adr", "sel", "dat_w"):
            if b1[k] is not b[k]:
                n.obl.append(("bus.%s does not depend on ack" % k,
                              len(n.conds), t.eq(b1[k], b[k])))
        addr1 = c1.val(d.cells[self.seq].addr)
        for cond, v in self.split(addr1, n.conds):
            m = n.copy()
            if cond is not t.TRUE:
                m.conds.append(cond)
            ns = self.advance(c1, v)
            m.irqs.append(irq)
            m.samples.append((irq, dat, 1, 1 if n.pstb else 2))
            m.lat += 1 if n.pstb else 2
            m.waits += max(n.sl - 2, 0)
            m.sl = 0
            m.n += 1
            req = m.req
            m.req = None
            if v == self.uD:
                m.state = ns
                p = self._finish(m, req, dat, irq)
                p.rv = self._rvfi(c1)
                done.append(p)
                continue
            if self.formal:
                m.obl.append(("rvfi silent before completion", len(m.conds),
                              self.rv_silent(c1)))
            m.data.append((req, dat))
            m.state = ns
            m.upc = v
            m.trace.append(v)
            m.pstb = False
            m.idle = False
            m.gen = False
            work.append(m)

    def _noack(self, n, work, c0, addr0, irq, dat):
        """A request cycle without acknowledge that leaves the wait loop."""
        for cond, v in self.split(addr0, n.conds):
            if v == n.upc:
                continue          # covered by the loop contract
            m = n.copy()
            if cond is not t.TRUE:
                m.conds.append(cond)
            m.irqs.append(irq)
            m.samples.append((irq, dat, 0, 1))
            m.lat += 1
            m.n += 1
            m.state = self.advance(c0, v)
            m.upc = v
            m.trace.append(v)
            m.pstb = True
            m.gen = False
            work.append(m)

    def _finish(self, n, req, dat, irq):
        p = Path()
        p.conds = n.conds
        p.post = n.state
        p.data = n.data
        p.fetch = req
        p.irqs = n.irqs
        p.lat = n.lat
        p.trace = n.trace
        p.cyc_obl = n.obl
        p.insn2 = dat
        p.datr = irq
        p.kind = "normal"
        p.samples = n.samples
        p.waits = n.waits
        p.rv = None
        return p

    def _generalise(self, n, entered):
        """entered: the generalised state only stands for the second and
        later cycles of the loop."""
        d = self.d
        keys = d.ffs + [r for r in d.rports if r != self.seq]
        hav = set()
        s = dict(n.state)
        for _ in range(20):
            irq, dat = t.fresh("irq", 1), t.fresh("dat", 32)
            c = self.cycle(s, t.FALSE, irq, dat)
            ns = self.advance(c, n.upc)
            if len(ns[self.ram].wr) != len(s[self.ram].wr):
                raise Stuck("wait loop writes registers")
            new = [k for k in keys if k not in hav and ns[k] is not s[k]]
            xm = [m for m in self.xrams if m not in hav
                  and ns[m].wr != s[m].wr]
            for m in xm:
                hav.add(m)
                s[m] = t.Mem(t.fresh("hav.m%d" % m, 1).v, s[m].aw, s[m].dw)
            if not new and not xm:
                break
            for k in new:
                hav.add(k)
                v = t.fresh("hav." + d.cellname(k), s[k].w)
                s[k] = self._masked(k, v)
        else:
            raise Stuck("wait loop invariant")
        # what every iteration establishes whatever it started from (at most
        # from the interrupt line in that iteration, which is one more sample
        # taken while the instruction executes)
        own = t.vars_of([s[k] for k in hav if k not in self.xrams]) | {dat}
        bases = {s[m].base for m in self.xrams if m in hav}
        upd = {}
        for k in hav.difference(self.xrams):
            vs = t.vars_of([ns[k]])
            if not vs & own and not any(
                    x.op == "rd" and x.v in bases for x in vs):
                upd[k] = ns[k]
        if not entered:
            # must hold on entry too, for the sample of the cycle before
            w = {irq: n.irqs[-1]} if n.irqs else {}
            upd = {k: v for k, v in upd.items()
                   if t.subst(v, w) is n.state[k]}
        s.update(upd)
        self._tie(s)
        if irq in t.vars_of(upd.values()):
            n.irqs.append(irq)
        n.state = s


def _random_env(seed, vals):
    """Pseudo-random values for variables, by name."""
    def env(x):
        import random
        v = vals.get(x.v)
        if v is None:
            v = vals[x.v] = random.Random("%d %s" % (seed, x.v)).getrandbits(
                x.w)
        return v
    return env


class _NoInputs(dict):
    def __missing__(self, k):
        raise Unsupported("architectural view depends on input " + k)


def _al4(x):
    return t.cat(t.const(0, 2), t.ext(x, 31, 2))


def _leaves(x, out, seen=None):
    """Constant leaves of an ite tree; False if some leaf is not constant."""
    if seen is None:
        seen = set()
    if x.id in seen:
        return True
    seen.add(x.id)
    if x.op == "c":
        out.add(x.v)
        return True
    if x.op == "ite":
        return _leaves(x.a[1], out, seen) and _leaves(x.a[2], out, seen)
    if x.op == "cat" and x.w <= 10:
        combos = {0}
        p = 0
        for y in x.a:
            o = set()
            if y.w <= 3 and not _leaves(y, o, set()):
                o = set(range(1 << y.w))
            elif y.w > 3 and not _leaves(y, o, set()):
                return False
            combos = {a | (b << p) for a in combos for b in o}
            p += y.w
            if len(combos) > 256:
                return False
        out |= combos
        return True
    return False
