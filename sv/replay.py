"""Turn solver counterexamples into pin-level runs of the real core."""
import random

import env  # noqa: F401
import iss
import lockstep as L
import spec
import term as t


def concretise(run, path, model):
    """Model -> plain data (insn, state, schedule)."""
    a = run.a
    s = iss.State()
    for n in iss.State.NAMES:
        setattr(s, n, model(a.raw.get(n, getattr(a, n))))
    s.x = [0] + [model(a.x(t.const(i, 5))) for i in range(1, 32)]
    d = {"insn": model(run.insn), "x": s.x,
         "state": {n: getattr(s, n) for n in iss.State.NAMES},
         "irqF": model(run.irqF), "samples": []}
    for irq, dat, ack, k in path.samples:
        d["samples"].append((model(irq), model(dat), ack, k))
    return d


PREFIXES = [
    (),
    (L.ECALL, L.MRET),
    (L.csrrw(2, 0x340, 1),),
    "irq",
    (L.sw(2, 0, 2),),                        # misaligned store
    (0x00202083 | 2 << 20,),                 # misaligned load
    (L.addi(2, 0, 2), L.jalr(0, 2, 0)),      # misaligned jump
    (L.EBREAK,),
    (0,),
]


def csri(c, f3=2, z=0):
    return c << 20 | z << 15 | f3 << 12 | 0x73


# instructions without architectural effect, run right before the one under
# test: they leave different values in the non-architectural registers
LATE = [(csri(0x300),), (csri(0x304),), (csri(0x344),), (csri(0x342),),
        (csri(0x301, 5, 31),), (csri(0x344, 5, 31),), (L.sw(31, 0, 0),),
        (0x00002003,), (0x00501013,), (0x01F0D013,), (0x0000000F,),
        (0x10500073,), (0x00000063,), (0xFE00EE63,), (0x00000017,),
        (0x0020A033,), (csri(0x300), csri(0x340))]


def script_of(d, prefix=(), wait_bias=0, irqF=True, pre=(), late=(),
              fill=False):
    s = iss.State(**d["state"])
    s.x = list(d["x"])
    if fill:          # registers the instruction does not name: anything
        r = random.Random(d["insn"])
        named = {d["insn"] >> k & 31 for k in (7, 15, 20)}
        for i in range(1, 32):
            if i not in named:
                s.x[i] = r.getrandbits(32) | 1
    pfx = list(prefix)
    irq_cycles = {}
    if prefix == "irq":
        pfx = L.li(1, 1 << 11) + [L.csrrw(0, 0x304, 1)] + L.li(1, 8) + \
            [L.csrrw(0, 0x300, 1), L.addi(3, 3, 0)]
    pc = s.pc
    s.pc = (s.pc - 4 * len(late)) & 0xFFFFFFFF
    boot = L.boot(s, pfx) + list(late)
    s.pc = pc
    k0 = len(boot)                   # index of the instruction under test
    stream = boot + [d["insn"]] + list(pre) + L.epilogue()
    ntx = k0                         # fetch transactions before it
    if prefix == "irq":
        # raise the line during the last prefix instruction
        base = len(L.li(1, 0x100)) + 1 + 60    # boot() zeroes registers
        irq_cycles[base + len(pfx)] = (0, 99)
    waits, rdata = {}, {}
    # walk the samples to recover wait counts
    run = 0
    tx = ntx + 1
    acks = 0
    stbs = 0
    sched = []
    for irq, dat, ack, k in d["samples"]:
        for _ in range(k if ack else 1):
            sched.append(irq)
        stbs += 1
        if ack:
            acks += 1
    nread = 0
    total = sum(1 for x in d["samples"] if x[2])
    seen = 0
    for irq, dat, ack, k in d["samples"]:
        if ack:
            seen += 1
            if seen < total:
                rdata[nread] = dat
                nread += 1
            if wait_bias:
                waits[tx] = wait_bias
            tx += 1

    def irq_fn(nf, c, cycle):
        if nf in irq_cycles:
            return 1
        if nf == k0 + 1:
            return sched[c] if c < len(sched) else 0
        if nf == k0 and irqF and c >= 2:
            return d["irqF"]
        return 0
    return dict(stream=stream, waits=waits, rdata=rdata, irq=irq_fn,
                cycles=len(stream) * 90 + 2000), k0


def directed(d, seed=0, stop=None):
    """Try to reproduce a counterexample at the pins."""
    tries = []
    for wb in (0, 1, 3):
        for pfx in PREFIXES:
            tries.append((pfx, wb, (), False))
    tries[1:1] = [((), 0, x, True) for x in ((),) + tuple(LATE)]
    for pfx, wb, late, fill in tries:
        if stop is not None and stop.is_set():
            return None
        kw, k0 = script_of(d, pfx, wb, late=late, fill=fill)
        m = L.run(L.Script(seed=seed, **kw))
        if m:
            return {"kind": "directed", "message": m, "prefix": str(pfx),
                    "just_before": ["%08x" % w for w in late],
                    "extra_waits": wb, "insn": "%08x" % d["insn"],
                    "state": {k: "%x" % v for k, v in d["state"].items()},
                    "x": ["%x" % v for v in d["x"]],
                    "model": d,
                    "stream": ["%08x" % w for w in kw["stream"]]}
    return None


def rerun(run):
    """Repeat a recorded failing run on the current tree."""
    if run["kind"] == "directed":
        return directed(run["model"])
    return random_run(*run["args"])


# ------------------------------------------------------------ random streams

SPECIAL = [0, 1, 2, 3, 4, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFFFFFF,
           0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xAAAAAAAA,
           0x55555555, 31, 32, 0x1F, 0xFF, 0x8000, 0xFFFF, 0x80, 0xDEADBEEF]

CL = spec.classes()
TRAPS = [n for n in CL if n in ("ecall", "ebreak", "illegal.op", "lw", "sh",
                                "jalr", "illegal.csr")]


def rnd_word(r):
    return r.choice(SPECIAL) if r.random() < .45 else r.getrandbits(32)


def rnd_insn(r, cls=None):
    names = list(CL)
    for _ in range(50):
        n = cls or r.choice(names)
        m, v = CL[n]
        w = (r.getrandbits(32) & ~m) | v
        if r.random() < .3:
            w = (w & ~(0x1F << 15) | (r.randrange(8) << 15)) & ~m | v
        if n.endswith(".ro0"):
            w = w & 0xFFFFF | r.choice(spec.READ_ONLY_ZERO) << 20
        if n == "illegal.csr":
            w = w & 0x000FFFFF | r.choice(
                [r.getrandbits(12), 0x302, 0x303, 0x306, 0x34A, 0xF11, 0xF14,
                 0x301 ^ (1 << r.randrange(12)),
                 0x340 ^ (1 << r.randrange(12))]) << 20
            w = w & ~(7 << 12) | r.choice([1, 2, 3, 5, 6, 7]) << 12
        if n == "illegal.op" and r.random() < .7:
            base = rnd_insn(r)
            w = base ^ (1 << r.randrange(32))
            if r.random() < .3:
                w ^= 1 << r.randrange(32)
        f = spec.class_guard(n, t.const(w, 32))
        if f is t.TRUE:
            return w
    return w


def random_stream(r, n, focus=None, pool=None):
    """pool: the classes to draw from (few of them in a run: what one leaves
    behind in hidden registers then meets the others)."""
    s = iss.State(pc=r.getrandbits(30) << 2, mtvec=r.getrandbits(32),
                  mscratch=rnd_word(r), mepc=r.getrandbits(32),
                  mcause=rnd_word(r), mie=r.randrange(2), mpie=r.randrange(2),
                  meie=r.randrange(2))
    s.x = [0] + [rnd_word(r) for _ in range(31)]
    w = L.boot(s)
    for _ in range(n):
        if focus and r.random() < .5:
            w.append(rnd_insn(r, r.choice(focus)))
        elif r.random() < .1:
            w += [L.addi(1, 0, 8), L.csrrs(0, 0x300, 1)]
        elif r.random() < .06:
            w.append(L.MRET)
        elif r.random() < .25:
            w += L.li(r.randrange(1, 32), rnd_word(r))
        else:
            w.append(rnd_insn(r, r.choice(pool) if pool else None))
    return w + L.epilogue()


def random_run(seed, n=60, focus=None, max_wait=None, resets=False):
    r = random.Random(seed)
    style = random.Random(seed ^ 0x57F1E)
    pool = [style.choice(TRAPS)] + style.sample(
        list(CL), style.randrange(1, 5)) if style.random() < .5 else None
    stream = random_stream(r, n, focus, pool)
    mode = r.randrange(4)
    ir = random.Random(seed ^ 0x5EED)
    lvl = [0]

    def irq(nf, c, cycle):
        if mode == 0:
            return 0
        if mode == 1:
            return 1 if nf > 100 else 0
        if mode == 2:
            return int(ir.random() < .1)
        if ir.random() < .05:
            lvl[0] ^= 1
        return lvl[0]
    mw = r.choice([0, 0, 1, 4]) if max_wait is None else max_wait
    args = [seed, n, focus, max_wait, resets]
    waits = {}
    if style.random() < .2 and max_wait is None:
        # rarely, a very slow answer
        for k in range(80, 160):
            if style.random() < .06:
                waits[k] = style.choice([70, 140, 270, 270, 530, 1050])
    rst = set()
    if resets:
        at = r.randrange(20, 900)
        rst = set(range(at, at + r.choice([1, 1, 2, 5])))
        chk = []
        for c, m in ((0x342, 0xFFF), (0x300, 8), (0x304, 0xFFF)):
            chk += [L.csrrs(1, c, 0), 0x0000F093 | m << 20, L.sw(1, 0, 4)]
        r = reset_run(seed, stream, irq, mw, rst, chk)
        if r:
            r["args"] = args
        return r
    m = L.run(L.Script(stream, seed=seed, irq=irq, max_wait=mw, waits=waits,
                       cycles=len(stream) * 100 + 4000 + sum(
                           waits.values())))
    if m:
        return {"kind": "random", "seed": seed, "message": m, "args": args,
                "max_wait": mw, "irq_mode": mode,
                "stream": ["%08x" % x for x in stream]}
    return None


def reset_run(seed, stream, irq, mw, rst, chk):
    """Reset in the middle, then observe the reset state at the pins."""
    import lockstep
    st = iss.State()
    sc = L.Script(stream, seed=seed, irq=irq, max_wait=mw, rst=rst,
                  cycles=len(stream) * 100 + 4000)
    # after the reset: read x0, mcause, mstatus, mie, then a full boot
    r = random.Random(seed)
    s = iss.State(pc=0x400, mtvec=0x800)
    s.x = [0] + [rnd_word(r) for _ in range(31)]
    after = [L.sw(0, 0, 0)] + chk + L.boot(s) + \
        [rnd_insn(r) for _ in range(10)] + L.epilogue()
    m = lockstep.run(sc, after=after)
    if m:
        return {"kind": "random-reset", "seed": seed, "message": m,
                "reset_cycles": sorted(rst),
                "stream": ["%08x" % x for x in stream],
                "after_reset": ["%08x" % x for x in after]}
    return None
