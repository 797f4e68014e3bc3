"""Hash-consed bit-vector terms with local simplification.

Everything is a bit vector of width >= 1.  The simplifier only applies
equivalence-preserving local rewrites (constant folding, ite/concat/extract
normalisation); ``selftest`` cross-checks each constructor against plain Python
integers.
"""


class T:
    __slots__ = ("op", "w", "a", "v", "id")

    def __init__(self, op, w, a, v, id):
        self.op = op
        self.w = w
        self.a = a
        self.v = v
        self.id = id

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _mk(op, w, a=(), v=None):
    k = (op, w, tuple([x.id for x in a]), v)
    t = _tab.get(k)
    if t is None:
        _n[0] += 1
        t = T(op, w, tuple(a), v, _n[0])
        _tab[k] = t
    return t


def mask(w):
    return (1 << w) - 1


def const(v, w):
    assert w >= 1
    return _mk("c", w, (), v & ((1 << w) - 1))


_fresh = [0]


def var(name, w):
    return _mk("x", w, (), name)


def fresh(name, w):
    _fresh[0] += 1
    return var("%s#%d" % (name, _fresh[0]), w)


TRUE = const(1, 1)
FALSE = const(0, 1)


def is_c(t):
    return t.op == "c"


def not_(a):
    if a.op == "c":
        return const(~a.v, a.w)
    if a.op == "not":
        return a.a[0]
    if a.op == "ite" and a.a[1].op == "c" and a.a[2].op == "c":
        return ite(a.a[0], not_(a.a[1]), not_(a.a[2]))
    if a.op == "cat":
        return cat(*[not_(x) for x in a.a])
    return _mk("not", a.w, (a,))


def _comm(op, a, b):
    if a.id > b.id:
        a, b = b, a
    return _mk(op, a.w, (a, b))


def _neg_pair(a, b):
    return (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a)


def and_(a, b):
    assert a.w == b.w
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.v & b.v, a.w)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.v == 0:
            return a
        if a.v == mask(a.w):
            return b
        # split along runs of the mask: keeps field structure
        parts = []
        i = 0
        while i < a.w:
            bit = (a.v >> i) & 1
            j = i
            while j < a.w and ((a.v >> j) & 1) == bit:
                j += 1
            parts.append(ext(b, j - 1, i) if bit else const(0, j - i))
            i = j
        if len(parts) <= 3:
            return cat(*parts)
    if _neg_pair(a, b):
        return const(0, a.w)
    if a.w == 1:
        # absorption with nested and
        for x, y in ((a, b), (b, a)):
            if x.op == "and":
                if x.a[0] is y or x.a[1] is y:
                    return x
                if _neg_pair(x.a[0], y) or _neg_pair(x.a[1], y):
                    return FALSE
            if x.op == "or":
                if x.a[0] is y or x.a[1] is y:
                    return y
                if _neg_pair(x.a[0], y):
                    return and_(x.a[1], y)
                if _neg_pair(x.a[1], y):
                    return and_(x.a[0], y)
    return _comm("and", a, b)


def or_(a, b):
    assert a.w == b.w
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.v | b.v, a.w)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.v == 0:
            return b
        if a.v == mask(a.w):
            return a
    if _neg_pair(a, b):
        return const(mask(a.w), a.w)
    if a.w == 1:
        for x, y in ((a, b), (b, a)):
            if x.op == "or":
                if x.a[0] is y or x.a[1] is y:
                    return x
                if _neg_pair(x.a[0], y) or _neg_pair(x.a[1], y):
                    return TRUE
            if x.op == "and":
                if x.a[0] is y or x.a[1] is y:
                    return y
                if _neg_pair(x.a[0], y):
                    return or_(x.a[1], y)
                if _neg_pair(x.a[1], y):
                    return or_(x.a[0], y)
    return _comm("or", a, b)


def xor_(a, b):
    assert a.w == b.w
    if a is b:
        return const(0, a.w)
    if a.op == "c" and b.op == "c":
        return const(a.v ^ b.v, a.w)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.v == 0:
            return b
        if a.v == mask(a.w):
            return not_(b)
    if _neg_pair(a, b):
        return const(mask(a.w), a.w)
    return _comm("xor", a, b)


def add(a, b):
    assert a.w == b.w
    if a.op == "c" and b.op == "c":
        return const(a.v + b.v, a.w)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.v == 0:
            return b
        if b.op == "add" and b.a[0].op == "c":
            return add(const(a.v + b.a[0].v, a.w), b.a[1])
        return _mk("add", a.w, (a, b))
    return _comm("add", a, b)


def neg(a):
    if a.op == "c":
        return const(-a.v, a.w)
    return _mk("neg", a.w, (a,))


def sub(a, b):
    assert a.w == b.w
    if a is b:
        return const(0, a.w)
    if a.op == "c" and b.op == "c":
        return const(a.v - b.v, a.w)
    if b.op == "c":
        return add(const(-b.v, b.w), a)
    return _mk("sub", a.w, (a, b))


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.v * b.v, a.w)
    return _comm("mul", a, b)


def cat(*parts):
    """Concatenate, least significant part first."""
    out = []
    for p in parts:
        if p is None:
            continue
        for q in (p.a if p.op == "cat" else (p,)):
            if out:
                l = out[-1]
                if l.op == "c" and q.op == "c":
                    out[-1] = const(l.v | (q.v << l.w), l.w + q.w)
                    continue
                if l.op == "ext" and q.op == "ext" and l.a[0] is q.a[0] \
                        and l.v[0] + 1 == q.v[1]:
                    out[-1] = ext(l.a[0], q.v[0], l.v[1])
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return _mk("cat", sum(x.w for x in out), tuple(out))


def ext(a, hi, lo):
    assert 0 <= lo <= hi < a.w, (a.w, hi, lo)
    if lo == 0 and hi == a.w - 1:
        return a
    if a.op == "c":
        return const(a.v >> lo, hi - lo + 1)
    if a.op == "ext":
        return ext(a.a[0], a.v[1] + hi, a.v[1] + lo)
    if a.op == "cat":
        parts = []
        p = 0
        for x in a.a:
            l = max(lo, p)
            h = min(hi, p + x.w - 1)
            if l <= h:
                parts.append(ext(x, h - p, l - p))
            p += x.w
        return cat(*parts)
    k = (a, hi, lo)
    r = _EXT.get(k)
    if r is None:
        if len(_EXT) > 400000:
            _EXT.clear()
        r = _EXT[k] = _ext(a, hi, lo)
    return r


_EXT = {}


def _ext(a, hi, lo):
    if a.op == "ite":
        return ite(a.a[0], ext(a.a[1], hi, lo), ext(a.a[2], hi, lo))
    if a.op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor_}[a.op]
        return f(ext(a.a[0], hi, lo), ext(a.a[1], hi, lo))
    if a.op == "not":
        return not_(ext(a.a[0], hi, lo))
    if a.op in ("add", "sub") and lo == 0:
        f = {"add": add, "sub": sub}[a.op]
        return f(ext(a.a[0], hi, 0), ext(a.a[1], hi, 0))
    return _mk("ext", hi - lo + 1, (a,), (hi, lo))


def bit(a, i):
    return ext(a, i, i)


def zext(a, w):
    return a if a.w == w else cat(a, const(0, w - a.w))


def sext(a, w):
    if a.w == w:
        return a
    s = bit(a, a.w - 1)
    if s.op == "c":
        return cat(a, const(-s.v, w - a.w))
    return cat(a, *([s] * (w - a.w)))


def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == "c":
        return a if c.v else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.w == 1:
        if a.op == "c" and b.op == "c":
            return c if a.v else not_(c)
        if a.op == "c":
            return or_(c, b) if a.v else and_(not_(c), b)
        if b.op == "c":
            return or_(not_(c), a) if b.v else and_(c, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    return _mk("ite", a.w, (c, a, b))


def eq(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.v == b.v else FALSE
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.w == 1:
            return b if a.v else not_(b)
        if b.op == "ite" and (b.a[1].op == "c" or b.a[2].op == "c"):
            return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
        if b.op == "not":
            return eq(not_(a), b.a[0])
        if b.op == "add" and b.a[0].op == "c":
            return eq(sub(a, b.a[0]), b.a[1])
    if a.op == "cat" or b.op == "cat":
        # split at the union of boundaries
        cuts = set()
        for t in (a, b):
            if t.op == "cat":
                p = 0
                for x in t.a:
                    p += x.w
                    cuts.add(p)
        cuts.add(a.w)
        lo = 0
        r = TRUE
        for h in sorted(cuts):
            x = ext(a, h - 1, lo)
            y = ext(b, h - 1, lo)
            if x.op == "cat" or y.op == "cat":
                r = and_(r, _mk_eq(x, y))
            else:
                r = and_(r, eq(x, y))
            if r is FALSE:
                return FALSE
            lo = h
        return r
    if a.op == "add" and b.op == "add" and a.a[0] is b.a[0]:
        return eq(a.a[1], b.a[1])
    return _mk_eq(a, b)


def _mk_eq(a, b):
    if a.w == 1:
        return not_(xor_(a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.v < b.v else FALSE
    if b.op == "c" and b.v == 0:
        return FALSE
    return _mk("ult", 1, (a, b))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        m = 1 << (a.w - 1)
        return TRUE if (a.v ^ m) < (b.v ^ m) else FALSE
    return _mk("slt", 1, (a, b))


def shl(a, b):
    """a << b; b any width; result has a's width."""
    if b.op == "c":
        k = b.v
        if k == 0:
            return a
        if k >= a.w:
            return const(0, a.w)
        return cat(const(0, k), ext(a, a.w - 1 - k, 0))
    return _mk("shl", a.w, (a, b))


def lshr(a, b):
    if b.op == "c":
        k = b.v
        if k == 0:
            return a
        if k >= a.w:
            return const(0, a.w)
        return cat(ext(a, a.w - 1, k), const(0, k))
    return _mk("lshr", a.w, (a, b))


def ashr(a, b):
    if b.op == "c":
        k = min(b.v, a.w - 1)
        if k == 0:
            return a
        return sext(ext(a, a.w - 1, k), a.w)
    return _mk("ashr", a.w, (a, b))


def nonzero(a):
    return a if a.w == 1 else not_(eq(a, const(0, a.w)))


def conj(ts):
    r = TRUE
    for t in ts:
        r = and_(r, t)
        if r is FALSE:
            return r
    return r


def disj(ts):
    r = FALSE
    for t in ts:
        r = or_(r, t)
        if r is TRUE:
            return r
    return r


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- memories

def mread(name, w, addr):
    """Read of the (uninterpreted) initial contents of memory `name`."""
    return _mk("rd", w, (addr,), name)


class Mem:
    """A memory value: an uninterpreted base plus a chain of writes."""
    __slots__ = ("base", "aw", "dw", "wr", "known")

    def __init__(self, base, aw, dw, wr=(), known=None):
        self.base = base
        self.aw = aw
        self.dw = dw
        self.wr = wr            # tuple of (addr, data)
        self.known = known or {}  # const addr -> fn(term)->term

    def write(self, addr, data):
        assert addr.w == self.aw and data.w == self.dw
        wr = self.wr
        if wr and wr[-1][0] is addr:
            wr = wr[:-1]
        return Mem(self.base, self.aw, self.dw, wr + ((addr, data),),
                   self.known)

    def read(self, addr):
        assert addr.w == self.aw
        t = self._base(addr)
        for wa, wd in self.wr:
            t = ite(eq(wa, addr), wd, t)
        return t

    def _base(self, addr):
        if addr.op == "c" and addr.v in self.known:
            return self.known[addr.v](mread(self.base, self.dw, addr))
        if addr.op != "c" and self.known:
            t = mread(self.base, self.dw, addr)
            for k, f in self.known.items():
                m = eq(addr, const(k, self.aw))
                if m is not FALSE:
                    t = ite(m, f(mread(self.base, self.dw,
                                       const(k, self.aw))), t)
            return t
        return mread(self.base, self.dw, addr)


# ---------------------------------------------------------------- printing

def show(t, depth=6):
    if t.op == "c":
        return "%d'h%x" % (t.w, t.v)
    if t.op == "x":
        return t.v
    if depth == 0:
        return "..."
    if t.op == "ext":
        return "%s[%d:%d]" % (show(t.a[0], depth - 1), t.v[0], t.v[1])
    if t.op == "rd":
        return "%s[%s]" % (t.v, show(t.a[0], depth - 1))
    return "(%s %s)" % (t.op, " ".join(show(x, depth - 1) for x in t.a))


def vars_of(ts):
    seen = set()
    out = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ("x", "rd"):
            out.add(t)
        st.extend(t.a)
    return out


# ---------------------------------------------------------------- evaluation

def subst(t, env, memo=None):
    """Replace variables (term -> term) and the names of memories
    (("mem", name) -> name); rebuilds with simplification."""
    if memo is None:
        memo = {}
    return _subst(t, env, memo)


_BUILD = {}


def _subst(t, env, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in env:
        r = env[t]
    elif t.op in ("c", "x"):
        r = t
    else:
        a = [_subst(x, env, memo) for x in t.a]
        if t.op == "rd" and ("mem", t.v) in env:
            r = mread(env["mem", t.v], t.w, a[0])
        elif all(x is y for x, y in zip(a, t.a)):
            r = t
        else:
            r = rebuild(t, a)
    memo[t.id] = r
    return r


def rebuild(t, a):
    op = t.op
    if op == "ext":
        return ext(a[0], t.v[0], t.v[1])
    if op == "rd":
        return mread(t.v, t.w, a[0])
    if op == "cat":
        return cat(*a)
    return _BUILD[op](*a)


_BUILD.update({"not": not_, "and": and_, "or": or_, "xor": xor_, "add": add,
               "neg": neg, "sub": sub, "mul": mul, "ite": ite, "eq": eq,
               "ult": ult, "slt": slt, "shl": shl, "lshr": lshr,
               "ashr": ashr})


def evalc(t, env, rd=None, memo=None):
    """Concrete evaluation; env: name -> int, rd(name, addr) -> int."""
    if memo is None:
        memo = {}
    return _evalc(t, env, rd, memo)


def _evalc(t, env, rd, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "c":
        r = t.v
    elif op == "x":
        r = env(t) if callable(env) else env[t.v]
    elif op == "ite":
        r = _evalc(t.a[1] if _evalc(t.a[0], env, rd, memo) else t.a[2],
                   env, rd, memo)
    else:
        a = [_evalc(x, env, rd, memo) for x in t.a]
        m = mask(t.w)
        if op == "rd":
            r = rd(t.v, a[0])
        elif op == "not":
            r = ~a[0] & m
        elif op == "and":
            r = a[0] & a[1]
        elif op == "or":
            r = a[0] | a[1]
        elif op == "xor":
            r = a[0] ^ a[1]
        elif op == "add":
            r = (a[0] + a[1]) & m
        elif op == "sub":
            r = (a[0] - a[1]) & m
        elif op == "mul":
            r = (a[0] * a[1]) & m
        elif op == "neg":
            r = -a[0] & m
        elif op == "ext":
            r = (a[0] >> t.v[1]) & m
        elif op == "cat":
            r = 0
            p = 0
            for x, y in zip(t.a, a):
                r |= y << p
                p += x.w
        elif op == "eq":
            r = int(a[0] == a[1])
        elif op == "ult":
            r = int(a[0] < a[1])
        elif op == "slt":
            h = 1 << (t.a[0].w - 1)
            r = int((a[0] ^ h) < (a[1] ^ h))
        elif op == "shl":
            r = (a[0] << a[1]) & m if a[1] < t.w else 0
        elif op == "lshr":
            r = a[0] >> a[1] if a[1] < t.w else 0
        elif op == "ashr":
            h = 1 << (t.w - 1)
            s = (a[0] ^ h) - h
            r = (s >> min(a[1], t.w)) & m
        else:
            raise AssertionError(op)
    memo[t.id] = r
    return r


def selftest(n=20000, seed=1):
    """Random cross-check: simplifying constructors vs. integer semantics."""
    import random
    rng = random.Random(seed)
    vs = [var("st_a", 8), var("st_b", 8), var("st_c", 1), var("st_d", 3)]
    pool = list(vs) + [const(0, 8), const(255, 8), const(1, 1), const(7, 3),
                       const(0x0f, 8)]
    raw = {}
    envs = [{v.v: rng.getrandbits(v.w) for v in vs} for _ in range(4)]
    val = {t.id: [t.v if t.op == "c" else e[t.v] for e in envs]
           for t in pool}
    bad = 0
    for _ in range(n):
        k = rng.choice(["and", "or", "xor", "add", "sub", "not", "neg",
                        "ite", "eq", "ult", "slt", "cat", "ext", "shl",
                        "lshr", "ashr"])
        a = rng.choice(pool)
        same = [x for x in pool if x.w == a.w]
        b = rng.choice(same)
        v = None
        if k in ("and", "or", "xor", "add", "sub", "eq", "ult", "slt"):
            t = _BUILD[k](a, b)
            ref = _mk("RAW" + k, t.w, (a, b))
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y,
                 "xor": lambda x, y: x ^ y, "add": lambda x, y: x + y,
                 "sub": lambda x, y: x - y, "eq": lambda x, y: int(x == y),
                 "ult": lambda x, y: int(x < y),
                 "slt": lambda x, y: int(
                     (x ^ (1 << (a.w - 1))) < (y ^ (1 << (a.w - 1))))}[k]
            v = [f(x, y) & mask(t.w) for x, y in zip(val[a.id], val[b.id])]
        elif k in ("not", "neg"):
            t = _BUILD[k](a)
            v = [(~x if k == "not" else -x) & mask(t.w) for x in val[a.id]]
        elif k == "ite":
            c = rng.choice([x for x in pool if x.w == 1])
            t = ite(c, a, b)
            v = [y if x else z for x, y, z in
                 zip(val[c.id], val[a.id], val[b.id])]
        elif k == "cat":
            c = rng.choice(pool)
            if a.w + c.w > 40:
                continue
            t = cat(a, c)
            v = [x | (y << a.w) for x, y in zip(val[a.id], val[c.id])]
        elif k == "ext":
            lo = rng.randrange(a.w)
            hi = rng.randrange(lo, a.w)
            t = ext(a, hi, lo)
            v = [(x >> lo) & mask(hi - lo + 1) for x in val[a.id]]
        else:
            s = rng.choice([x for x in pool if x.w <= 4] or [vs[3]])
            t = _BUILD[k](a, s)
            v = []
            for x, y in zip(val[a.id], val[s.id]):
                h = 1 << (a.w - 1)
                if k == "shl":
                    v.append((x << y) & mask(a.w))
                elif k == "lshr":
                    v.append(x >> y)
                else:
                    v.append((((x ^ h) - h) >> min(y, a.w)) & mask(a.w))
        got = [evalc(t, e) for e in envs]
        if got != v:
            bad += 1
            raise AssertionError("term simplifier: %s %r %r -> %r" %
                                 (k, a, b, t))
        if t.id not in val:
            val[t.id] = v
            pool.append(t)
            if len(pool) > 300:
                pool.pop(rng.randrange(9, len(pool)))
    return n - bad


if __name__ == "__main__":
    print(selftest())
