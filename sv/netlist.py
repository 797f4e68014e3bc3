"""Symbolic semantics of Amaranth's own netlist of the real code.

``Design(elaboratable)`` elaborates an object from /repo with Amaranth's front
end and lowers it to Amaranth's NIR (the netlist every Amaranth back end starts
from).  ``Cycle`` gives that netlist its synchronous semantics over terms.  Only
this translation is ours; everything else is the code under verification.
"""
import env  # noqa: F401
import term as t
from amaranth.hdl import _ir, _nir, _ast
from amaranth.lib import wiring


class Unsupported(Exception):
    pass


def _ports(elab):
    ports = {}
    for path, member, value in elab.signature.flatten(elab):
        if isinstance(value, _ast.ValueCastable):
            value = value.as_value()
        if isinstance(value, _ast.Value):
            d = _ir.PortDirection.Input if member.flow == wiring.In \
                else _ir.PortDirection.Output
            ports["__".join(map(str, path))] = (value, d)
    return ports


class Design:
    def __init__(self, elab, ports=None, name="top", frag=None, uses=None):
        self.elab = elab
        self.ports = _ports(elab) if ports is None else ports
        if frag is None:
            frag = _ir.Fragment.get(elab, None)
        self.nl = nl = _ir.build_netlist(frag, ports=self.ports, name=name)
        self.cells = nl.cells
        self.ins = {}
        self.clk = None
        top = nl.top
        self.inbits = {}
        for n, (start, w) in top.ports_i.items():
            self.ins[n] = w
            for i in range(w):
                self.inbits[start + i] = (n, i)
        self.ffs = []
        self.mems = {}
        self.rports = []
        self.wports = {}
        self.mports = {}
        clks = set()
        for i, c in enumerate(self.cells):
            if isinstance(c, _nir.FlipFlop):
                if c.clk_edge != "pos" or int(c.arst) != 0:
                    raise Unsupported("flip-flop clocking")
                clks.add(c.clk)
                self.ffs.append(i)
            elif isinstance(c, _nir.Memory):
                self.mems[i] = c
                self.wports.setdefault(i, [])
                self.mports.setdefault(i, [])
            elif isinstance(c, _nir.SyncWritePort):
                clks.add(c.clk)
                self.wports.setdefault(c.memory, []).append(i)
            elif isinstance(c, _nir.SyncReadPort):
                clks.add(c.clk)
                self.rports.append(i)
                self.mports.setdefault(c.memory, []).append(i)
            elif isinstance(c, _nir.IOBuffer) or \
                    isinstance(c, _nir.Instance) and uses is None:
                raise Unsupported("cell %r" % c)
        if len(clks) > 1:
            raise Unsupported("more than one clock")
        if clks:
            net = next(iter(clks))
            if net.cell != 0:
                raise Unsupported("clock is not a port")
            self.clk = self.inbits[net.bit][0]
        self._chunks = {}
        self._pm = {}
        self._prio = {}
        self._names = None
        self.override = {}
        self._treememo = {}
        self.contracts = {}
        self.cnames = {}
        if uses is not None:
            import contracts
            contracts.attach(self, uses)

    # -------------------------------------------------- naming
    def names(self):
        """cell index -> list of (hierarchical signal name, lo bit in cell)."""
        if self._names is None:
            r = {}
            for mod in self.nl.modules:
                path = ".".join(mod.name[1:])
                for sig, nm in mod.signal_names.items():
                    v = self.nl.signals.get(sig)
                    if v is None:
                        continue
                    for ch in self.chunks(v):
                        if ch[0] == "n":
                            r.setdefault(ch[1], []).append(
                                (path + "." + nm if path else nm, ch[3]))
            self._names = r
        return self._names

    def cellname(self, i):
        if i in self.cnames:
            return self.cnames[i]
        n = self.names().get(i)
        if not n:
            return "cell%d" % i
        return min((x[0] for x in n), key=lambda s: (s.count("."), len(s), s))

    # -------------------------------------------------- values
    def value_of(self, v):
        """NIR value for an Amaranth signal/value-castable of the design."""
        if isinstance(v, _ast.ValueCastable):
            v = v.as_value()
        if isinstance(v, _ast.Signal):
            return self.nl.signals[v]
        if isinstance(v, _ast.Slice):
            return _nir.Value(tuple(self.value_of(v.value))[v.start:v.stop])
        if isinstance(v, _ast.Concat):
            out = ()
            for p in v.parts:
                out += tuple(self.value_of(p))
            return _nir.Value(out)
        if isinstance(v, _ast.Operator) and v.operator in ("u", "s"):
            return self.value_of(v.operands[0])
        raise Unsupported("value %r" % v)

    def chunks(self, v):
        v = tuple(v)
        r = self._chunks.get(v)
        if r is None:
            r = []
            for n in v:
                n = int(n)
                if n < 2:
                    if r and r[-1][0] == "c":
                        r[-1][1] |= n << r[-1][2]
                        r[-1][2] += 1
                    else:
                        r.append(["c", n, 1])
                else:
                    cell, b = n >> 16, n & 0xffff
                    if r and r[-1][0] == "n" and r[-1][1] == cell \
                            and r[-1][2] + 1 == b:
                        r[-1][2] = b
                    else:
                        r.append(["n", cell, b, b])
            self._chunks[v] = r
        return r

    def initial_mem(self, i):
        m = self.mems[i]
        return list(m.init) + [0] * (m.depth - len(m.init))


class Cycle:
    """One clock cycle: outputs and next state as terms over state + inputs."""

    def __init__(self, design, state, inputs):
        self.d = design
        self.s = state
        self.inp = inputs
        self.memo = {}

    # -------------------------------------------------- values
    def val(self, v):
        parts = []
        for ch in self.d.chunks(v):
            if ch[0] == "c":
                parts.append(t.const(ch[1], ch[2]))
            else:
                _, cell, hi, lo = ch
                if cell == 0:
                    parts.append(self._in(hi, lo))
                elif cell in self.d.contracts:
                    parts.append(self._contract(cell, hi, lo))
                else:
                    parts.append(t.ext(self.cell(cell), hi, lo))
        return t.cat(*parts)

    def _in(self, hi, lo):
        parts = []
        i = lo
        while i <= hi:
            n, b = self.d.inbits[i]
            w = self.d.ins[n]
            k = min(hi - i, w - 1 - b)
            parts.append(t.ext(self.inp[n], b + k, b))
            i += k + 1
        return t.cat(*parts)

    def _contract(self, cell, hi, lo):
        import contracts
        parts = []
        i = lo
        outs = self.d.contracts[cell][1]
        while i <= hi:
            for n, (start, w) in outs.items():
                if start <= i < start + w:
                    break
            else:
                raise Unsupported("contract output")
            k = min(hi, start + w - 1)
            parts.append(t.ext(contracts.output(self, cell, n), k - start,
                               i - start))
            i = k + 1
        return t.cat(*parts)

    def net(self, n):
        return self.val((n,))

    def sig(self, v):
        return self.val(self.d.value_of(v))

    def port(self, name):
        return self.val(self.d.nl.top.ports_o[name])

    def cell(self, i):
        r = self.memo.get(i)
        if r is None:
            o = self.d.override.get(i)
            r = o(self, i) if o is not None else self._cell(i)
            self.memo[i] = r
        return r

    def _cell(self, i):
        c = self.d.cells[i]
        k = type(c)
        if k is _nir.FlipFlop or k is _nir.SyncReadPort:
            return self.s[i]
        if k is _nir.Operator:
            return self._op(c)
        if k is _nir.AssignmentList:
            return self._assign(i, c)
        if k is _nir.PriorityMatch:
            return self._priority(i, c)
        if k is _nir.Matches:
            v = self.val(c.value)
            return t.disj([_match(v, p) for p in c.patterns])
        if k is _nir.Part:
            return self._part(c)
        if k is _nir.AsyncReadPort:
            return self._memread(c.memory, self.val(c.addr))
        if k.__name__ == "_Next":
            import contracts
            return contracts.nextval(self, c)
        raise Unsupported("cell %r" % c)

    def _op(self, c):
        o = c.operator
        a = [self.val(x) for x in c.inputs] if o != "m" else None
        if o == "m":
            s = self.val(c.inputs[0])
            if s.op == "c":
                return self.val(c.inputs[1] if s.v else c.inputs[2])
            return t.ite(s, self.val(c.inputs[1]), self.val(c.inputs[2]))
        if len(a) == 1:
            x, = a
            if o == "~":
                return t.not_(x)
            if o == "-":
                return t.neg(x)
            if o in ("b", "r|"):
                return t.nonzero(x)
            if o == "r&":
                return t.eq(x, t.const(-1, x.w))
            if o == "r^":
                r = t.bit(x, 0)
                for j in range(1, x.w):
                    r = t.xor_(r, t.bit(x, j))
                return r
            raise Unsupported("operator " + o)
        x, y = a
        f = {"+": t.add, "-": t.sub, "*": t.mul, "&": t.and_, "|": t.or_,
             "^": t.xor_, "<<": t.shl, "u>>": t.lshr, "s>>": t.ashr,
             "==": t.eq, "!=": t.ne, "u<": t.ult, "s<": t.slt}.get(o)
        if f:
            return f(x, y)
        if o == "u>":
            return t.ult(y, x)
        if o == "s>":
            return t.slt(y, x)
        if o == "u<=":
            return t.not_(t.ult(y, x))
        if o == "s<=":
            return t.not_(t.slt(y, x))
        if o == "u>=":
            return t.not_(t.ult(x, y))
        if o == "s>=":
            return t.not_(t.slt(x, y))
        raise Unsupported("operator " + o)

    def _part(self, c):
        v = self.val(c.value)
        off = self.val(c.offset)
        n = max(v.w, 1)
        big = n + c.width
        x = t.sext(v, big) if c.value_signed else t.zext(v, big)
        r = None
        # offset enumeration; beyond the end: sign/zero fill
        fill = t.ext(x, big - 1, big - 1)
        r = t.cat(*([fill] * c.width))
        for k in range((1 << off.w) - 1, -1, -1):
            p = k * c.stride
            if p >= n:
                continue
            r = t.ite(t.eq(off, t.const(k, off.w)),
                      t.ext(x, p + c.width - 1, p), r)
        return r

    def _priority(self, i, c):
        info = self.d._prio.get(i)
        if info is None:
            info = self._prio_info(c)
            self.d._prio[i] = info
        en = self.net(c.en)
        if en is t.FALSE:
            return t.const(0, len(c.inputs))
        if info and info[0] == "tree":
            v = self.val(info[1])
            # one-hot result
            if v.op == "c":
                k = info[2].get(v.v)
                r = t.const(0 if k is None else 1 << k, len(c.inputs))
                return t.ite(en, r, t.const(0, len(c.inputs)))
        outs = []
        seen = t.FALSE
        done = False
        for n in c.inputs:
            if done:
                outs.append(t.FALSE)
                continue
            x = self.net(n)
            outs.append(t.and_(en, x if (info and info[0] == "tree")
                               else t.and_(x, t.not_(seen))))
            if x is t.TRUE:
                done = True
            seen = t.or_(seen, x)
        return t.cat(*outs)

    def _prio_info(self, c):
        """Inputs are Matches on one value with disjoint full patterns?"""
        val = None
        tab = {}
        if len(c.inputs) < 16:
            return ()
        for k, n in enumerate(c.inputs):
            n = int(n)
            if n < 2:
                return ()
            m = self.d.cells[n >> 16]
            if type(m) is not _nir.Matches:
                return ()
            if val is None:
                val = tuple(m.value)
            elif tuple(m.value) != val:
                return ()
            for p in m.patterns:
                if "-" in p or int(p, 2) in tab:
                    return ()
                tab[int(p, 2)] = k
        return ("tree", val, tab)

    def _assign(self, i, c):
        r = None
        w = len(c.default)
        # big one-hot switch: decision tree over the tested value
        if len(c.assignments) >= 16:
            x = self._assign_tree(i, c)
            if x is not None:
                return x
        conds = [self.net(a.cond) for a in c.assignments]
        # last definite full assignment
        start = 0
        base = c.default
        for k, a in enumerate(c.assignments):
            if conds[k] is t.TRUE and a.start == 0 and len(a.value) == w:
                start, base = k + 1, a.value
        r = self.val(base)
        for k in range(start, len(c.assignments)):
            a = c.assignments[k]
            if conds[k] is t.FALSE:
                continue
            v = self.val(a.value)
            lo, hi = a.start, a.start + len(a.value) - 1
            new = t.cat(t.ext(r, lo - 1, 0) if lo else None, v,
                        t.ext(r, w - 1, hi + 1) if hi < w - 1 else None)
            r = t.ite(conds[k], new, r)
        return r

    def _assign_tree(self, i, c):
        pm = None
        tail = len(c.assignments)
        for k, a in enumerate(c.assignments):
            n = int(a.cond)
            if n < 2 or type(self.d.cells[n >> 16]) is not _nir.PriorityMatch:
                tail = k
                break
            if pm is None:
                pm = n >> 16
            elif pm != n >> 16:
                tail = k
                break
            if a.start != 0 or len(a.value) != len(c.default):
                return None
        if pm is None or tail < 16:
            return None
        pc = self.d.cells[pm]
        info = self.d._prio.get(pm)
        if info is None:
            info = self._prio_info(pc)
            self.d._prio[pm] = info
        if not info:
            return None
        v = self.val(info[1])
        en = self.net(pc.en)
        by_in = {}
        for a in c.assignments[:tail]:
            by_in[int(a.cond) & 0xffff] = a.value
        dflt = self.val(c.default)
        tab = {}
        for key, k in info[2].items():
            if k in by_in:
                tab[key] = self.val(by_in[k])
        key = (i, v.id, dflt.id, tuple(sorted((k, x.id)
                                              for k, x in tab.items()))
               if len(tab) < 0 else len(tab))
        allc = all(x.op == "c" for x in tab.values())
        r = self.d._treememo.get(key) if allc else None
        if r is None:
            r = _tree(v, v.w, 0, tab, dflt)
            if allc:
                self.d._treememo[key] = r
        r = t.ite(en, r, dflt)
        w = len(c.default)
        for a in c.assignments[tail:]:
            x = self.net(a.cond)
            if x is t.FALSE:
                continue
            lo, hi = a.start, a.start + len(a.value) - 1
            new = t.cat(t.ext(r, lo - 1, 0) if lo else None, self.val(a.value),
                        t.ext(r, w - 1, hi + 1) if hi < w - 1 else None)
            r = t.ite(x, new, r)
        return r

    # -------------------------------------------------- memories
    def _memread(self, mi, addr):
        m = self.s[mi]
        if isinstance(m, list):
            return rom_read(m, addr, self.d.mems[mi].width)
        return m.read(addr)

    def next_state(self, rom_override=None):
        """State after the clock edge.  rom_override: {read port: term}."""
        d = self.d
        ns = {}
        for i in d.ffs:
            ns[i] = self.val(d.cells[i].data)
        news = {}
        writes = {}
        for mi in d.mems:
            m = self.s[mi]
            for wi in d.wports[mi]:
                wp = d.cells[wi]
                addr = self.val(wp.addr)
                en = self.val(wp.en)
                if en.op == "c" and en.v == 0:
                    continue
                data = self.val(wp.data)
                if len(set(map(int, wp.en))) == 1:
                    e = t.bit(en, 0)
                    writes[wi] = (e, addr, data)
                    new = t.ite(e, data, m.read(addr))
                else:
                    old = m.read(addr)
                    g = data.w // en.w
                    new = t.cat(*[t.ite(t.bit(en, k),
                                        t.ext(data, k * g + g - 1, k * g),
                                        t.ext(old, k * g + g - 1, k * g))
                                  for k in range(en.w)])
                    writes[wi] = (t.nonzero(en), addr, new)
                m = m.write(addr, new)
            ns[mi] = m
        for ri in d.rports:
            if rom_override and ri in rom_override:
                ns[ri] = rom_override[ri]
                continue
            rp = d.cells[ri]
            en = self.net(rp.en)
            if en is t.FALSE:
                ns[ri] = self.s[ri]
                continue
            addr = self.val(rp.addr)
            data = self._memread(rp.memory, addr)
            for wi in rp.transparent_for:
                if wi in writes:
                    e, wa, wd = writes[wi]
                    data = t.ite(t.and_(e, t.eq(wa, addr)), wd, data)
            ns[ri] = t.ite(en, data, self.s[ri])
        return ns


def _match(v, p):
    r = t.TRUE
    i = 0
    n = len(p)
    p = p[::-1]
    while i < n:
        if p[i] == "-":
            i += 1
            continue
        j = i
        while j < n and p[j] != "-":
            j += 1
        k = int(p[i:j][::-1], 2)
        r = t.and_(r, t.eq(t.ext(v, j - 1, i), t.const(k, j - i)))
        i = j
    return r


def _tree(v, n, prefix, tab, dflt):
    """Decision tree on the top n.. bits; tab: full key -> term."""
    if not tab:
        return dflt
    if n == 0:
        return tab.get(prefix, dflt)
    b = t.bit(v, n - 1)
    m = 1 << (n - 1)
    lo = {k: x for k, x in tab.items() if not k & m}
    hi = {k: x for k, x in tab.items() if k & m}
    if b.op == "c":
        return _tree(v, n - 1, prefix | (m if b.v else 0), hi if b.v else lo,
                     dflt)
    return t.ite(b, _tree(v, n - 1, prefix | m, hi, dflt),
                 _tree(v, n - 1, prefix, lo, dflt))


def rom_read(words, addr, w):
    if addr.op == "c":
        return t.const(words[addr.v] if addr.v < len(words) else 0, w)
    return _tree(addr, addr.w, 0,
                 {k: t.const(x, w) for k, x in enumerate(words)},
                 t.const(0, w))


def initial_state(d):
    """Power-on values (concrete)."""
    s = {}
    for i in d.ffs:
        c = d.cells[i]
        s[i] = t.const(c.init, len(c.data))
    for mi, m in d.mems.items():
        words = d.initial_mem(mi)
        if d.wports[mi]:
            mm = t.Mem("init%d" % mi, max(1, (m.depth - 1).bit_length()),
                       m.width)
            for k, x in enumerate(words):
                mm = mm.write(t.const(k, mm.aw), t.const(x, m.width))
            s[mi] = mm
        else:
            s[mi] = words
    for ri in d.rports:
        s[ri] = t.const(0, d.cells[ri].width)
    return s
