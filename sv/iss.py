"""The specification of spec.py run on concrete values (oracle for replay)."""
import env  # noqa: F401
import term as t
import spec


class State:
    __slots__ = ("pc", "x", "mie", "mpie", "meie", "mtvec", "mscratch",
                 "mepc", "mcause")
    NAMES = ("pc", "mie", "mpie", "meie", "mtvec", "mscratch", "mepc",
             "mcause")

    def __init__(self, **k):
        self.pc = 0
        self.x = [0] * 32
        self.mie = self.mpie = self.meie = 0
        self.mtvec = self.mscratch = self.mepc = self.mcause = 0
        for n, v in k.items():
            setattr(self, n, v)

    def copy(self):
        s = State()
        for n in self.__slots__:
            setattr(s, n, getattr(self, n))
        s.x = list(self.x)
        return s

    def key(self):
        return tuple(getattr(self, n) for n in self.NAMES) + tuple(self.x)

    def arch(self):
        return spec.Arch(
            x=lambda j: t.const(self.x[j.v], 32),
            **{n: t.const(getattr(self, n), 1 if n in ("mie", "mpie", "meie")
                          else 32) for n in self.NAMES})

    def diff(self, o):
        r = []
        for n in self.NAMES:
            if getattr(self, n) != getattr(o, n):
                r.append("%s %x/%x" % (n, getattr(self, n), getattr(o, n)))
        for i in range(32):
            if self.x[i] != o.x[i]:
                r.append("x%d %x/%x" % (i, self.x[i], o.x[i]))
        return " ".join(r)


class Result:
    pass


_last = {}


def _step(s, insn, rdata, mip):
    """spec.step; asked several times in a row for the same thing."""
    k = s.key() + (insn, rdata, mip)
    o = _last.get(k)
    if o is None:
        if len(_last) > 64:
            _last.clear()
        # the outcome refers to the registers it was computed from
        o = _last[k] = spec.step(s.copy().arch(), t.const(insn, 32),
                                 t.const(rdata, 32), t.const(mip, 1))
    return o


def access(s, insn):
    """(data access?, we, word address, sel, [expected lanes]) of insn."""
    o = _step(s, insn, 0, 0)
    if not o.data_access.v:
        return None
    sel = o.data_sel.v
    lanes = [o.store_lane(k).v for k in range(4)] if o.data_we.v else None
    return (o.data_we.v, o.data_adr.v, sel, lanes)


def step(s, insn, rdata=0, mip=0):
    o = _step(s, insn, rdata, mip)
    n = State()
    for k in State.NAMES:
        setattr(n, k, getattr(o.post, k).v)
    n.x = list(s.x)
    if o.rd_we.v and o.rd.v:
        n.x[o.rd.v] = o.rd_val.v
    r = Result()
    r.post, r.trap = n, o.trap.v
    r.reads_mip = o.reads_mip.v
    return r


def record(s, insn, rdata, rv, interrupted, line=None, mip=(0, 1)):
    """Wrong fields of a trace record.  line: level of the interrupt line, if
    it did not change while the instruction was executed; mip: values mip.meip
    may have been read as."""
    w = t.const(insn, 32)
    best = None
    for mip in mip if line is None else (line,):
        o = _step(s, insn, rdata, mip)
        bad = [n for n, g in spec.rvfi(s.arch(), o, w, t.const(rdata, 32),
                                       rv, interrupted) if g is not t.TRUE]
        if line == mip and not interrupted:
            bad += [n for n, g in spec.rvfi_mip(o, rv) if g is not t.TRUE]
        if best is None or len(bad) < len(best):
            best = bad
        if not o.reads_mip.v:
            break
    return best


def interrupt(s):
    n = s.copy()
    n.pc, n.mie, n.mpie, n.mepc = s.mtvec, 0, s.mie, s.pc
    n.mcause = spec.MCAUSE_EXT_INT
    return n


_cls = {}


def classify(insn):
    """Name of the instruction class of a word."""
    r = _cls.get(insn)
    if r is None:
        for n, (m, v) in spec.classes().items():
            if insn & m == v and spec.class_guard(
                    n, t.const(insn, 32)) is t.TRUE:
                r = n
                break
        _cls[insn] = r
    return r


def intr_bound(insn):
    import props
    return props.intr_bound(classify(insn))


def bound(s, insn, trap, post):
    """Documented cycle count of this instruction (no wait states)."""
    import props
    c = classify(insn)
    if trap:
        return props.trap_bound(c)
    if c in props.SHIFTS:
        reg = c in ("sll", "srl", "sra")
        n = (s.x[(insn >> 20) & 31] if reg else insn >> 20) & 31
        return 7 + 2 * n if n else 10 if reg else 9
    if c in props.JUMPS and c not in ("jal", "jalr"):
        return 7 if post.pc == (s.pc + 4) & 0xFFFFFFFF and \
            spec.F(t.const(insn, 32)).immB.v != 4 else 8
    return props.latency_bound(c)
