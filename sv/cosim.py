"""Cross-check of the translation: the netlist semantics used for proofs
against Amaranth's own simulator, cycle by cycle, on random pins."""
import random

import env  # noqa: F401
import term as t
from amaranth.hdl import _nir
from amaranth.lib import wiring
from netlist import Cycle, initial_state


def cosim(core, seed, cycles):
    from amaranth.hdl import ClockDomain, Module
    from amaranth.sim import Simulator
    if core.formal:
        from sentinel.formal import FormalTop as Top
    else:
        from sentinel.top import Top
    r = random.Random(seed)
    top = Top()
    cd = ClockDomain("sync")
    m = Module()
    m.domains += cd
    m.submodules.top = top
    sim = Simulator(m)
    sim.add_clock(1e-6)
    d = core.d
    st = [initial_state(d)]
    # registers start with a known value in simulation
    bad = []
    outs = [(n, sig) for n, sig in _outputs(top) if n in d.nl.top.ports_o]
    import replay
    stream = []

    async def tb(ctx):
        pst = False
        for n in range(cycles):
            rst = int(r.random() < .01)
            ack = int(pst and r.random() < .7)
            irq = int(r.random() < .1)
            dat = replay.rnd_insn(r) if r.random() < .9 else r.getrandbits(32)
            ctx.set(cd.rst, rst)
            ctx.set(top.irq, irq)
            ctx.set(top.bus.ack, ack)
            ctx.set(top.bus.dat_r, dat)
            c = Cycle(d, st[0], {"rst": t.const(rst, 1),
                                 "bus__ack": t.const(ack, 1),
                                 "irq": t.const(irq, 1),
                                 "bus__dat_r": t.const(dat, 32)})
            for k, sig in outs:
                v = c.port(k)
                g = ctx.get(sig)
                if v.op != "c" or v.v != g:
                    bad.append((n, k, repr(v), g))
                    return
            pst = bool(ctx.get(top.bus.stb)) and not ack
            ns = c.next_state()
            if rst:
                # the simulator also resets idle read ports; the netlist
                # (and the proof) leaves them unknown
                for i in d.rports:
                    if c.val(_nir.Value((d.cells[i].en,))) is t.FALSE:
                        ns[i] = t.const(0, d.cells[i].width)
            # compact the memory chain
            for mi in d.mems:
                if not d.wports[mi]:
                    continue
                mem = ns[mi]
                vals = {x.v: w for x, w in mem.wr}
                ns[mi] = t.Mem(mem.base, mem.aw, mem.dw, tuple(
                    (t.const(k, mem.aw), v) for k, v in vals.items()),
                    mem.known)
            st[0] = ns
            await ctx.tick()
            for i in d.ffs:
                if ns[i].op != "c":
                    bad.append((n, "ff", d.cellname(i), repr(ns[i])))
                    return

    sim.add_testbench(tb)
    sim.run()
    return bad


def _outputs(top):
    for path, member, value in top.signature.flatten(top):
        if member.flow == wiring.Out:
            yield "__".join(map(str, path)), value


def run(core, seed, cycles):
    return cosim(core, seed, cycles)
