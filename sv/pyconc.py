"""Concrete runs of the Python-level functions against their contracts: the
replay of failed obligations, the cross-check of the assumed library
contracts on every run, and the bounded stand-in.  Never counted as proof.
"""
import ast
import builtins
import contextlib
import enum
import inspect
import io
import os
import random
import sys
import tempfile
import types

import env  # noqa: F401
try:
    # its warnings are printed when collected, outside any catch_warnings
    from amaranth._unused import MustUse
    MustUse._MustUse__silence = True
except Exception:                       # pragma: no cover
    pass


def literals(mod):
    """Integers and words occurring in the source: likely special cases."""
    ints, words = set(), set()
    for n in ast.walk(ast.parse(inspect.getsource(mod))):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                continue
            if isinstance(n.value, int) and 0 <= n.value < 100:
                ints |= {n.value, n.value + 1}
            elif isinstance(n.value, str) and len(n.value) < 20:
                w = "".join(c if c.isalnum() or c == "_" else "_"
                            for c in n.value)
                if w[:1].isalpha():
                    words.add(w)
    return sorted(ints), sorted(words)


# ------------------------------------------------------------- C18
RESERVED = {"bool", "default", "enum", "equate", "fields", "if", "macro",
            "origin", "size", "space", "width"}


def gen_case(r, ints, words):
    """A microcode source and the field map given with it."""
    names = ["foo", "bar", "baz", "qux", "alu", "mem", "tgt", "x1", "y_2",
             "Zed"] + [w for w in words if w.lower() not in RESERVED]
    ename = ["a", "b", "c", "none", "inc", "load_x", "t", "true", "false"] \
        + [w for w in words if w.lower() not in RESERVED and w == w.lower()]
    names = sorted(set(names))
    ename = sorted(set(ename))
    r.shuffle(names)
    size = r.choice([1, 2, 3, 5, 8, 16, 17, 20] + [i for i in ints if i])
    nf = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
    fields, fmap = [], {}
    pos = 0
    wrong = r.random() < 0.45
    bad_at = r.randrange(max(nf, 1))
    for i in range(nf):
        name = names[i % len(names)]
        kind = r.choice(["int", "int", "bool", "enum", "enum", "enum"])
        gap = 0
        if r.random() < 0.35:
            gap = r.choice([1, 2, 3, 4, 7] + [k for k in ints if 0 < k < 20])
        attrs = []
        wid = 1
        if kind == "int":
            wid = r.choice([1, 2, 3, 5, 8] + [k for k in ints if 0 < k < 33])
            attrs.append("width %d" % wid)
            fmap[name] = ("u", wid)
        elif kind == "bool":
            attrs.append("bool")
            fmap[name] = r.choice([("u", 1), ("u", 1), (
                "e", [("OFF", 0), ("ON", 1)])])
        else:
            es = []
            v = 0
            r.shuffle(ename)
            for k in range(r.choice([1, 2, 2, 3, 4, 5])):
                e = ename[k % len(ename)] + ("" if k < len(ename) else "x")
                es.append((e, v))
                v += r.choice([0, 1, 1, 1, 2])
            if r.random() < .1:
                es = [("false", 0), ("true", 1)] if r.random() < .5 else \
                    [("true", 1), ("false", 0)]
            if r.random() < .05:
                es = [("false", 1), ("true", 0)]
            if r.random() < .05:
                es = [(es[0][0], es[0][1])]
            mx = max(v for _, v in es)
            wid = mx.bit_length()
            attrs.append("enum { %s }" % " ".join(
                "%s = %d;" % e for e in es))
            cls = [(e.upper(), v) for e, v in es]
            fmap[name] = ("e", cls)
            if r.random() < .15:
                wid += r.choice([0, 1, 2])
                attrs.append("width %d" % wid)
        if wrong and i == bad_at:
            m = r.choice(["nomap", "wider", "narrower", "value", "extra",
                          "missing", "notenum", "case", "name", "swap",
                          "order", "space2"])
            k, a = fmap[name]
            if m == "nomap":
                del fmap[name]
            elif m in ("wider", "narrower") and k == "u":
                fmap[name] = ("u", max(0, a + (1 if m == "wider" else -1)))
            elif m == "notenum" and k == "e":
                fmap[name] = ("u", wid)
            elif k == "e" and a:
                a = list(a)
                j = r.randrange(len(a))
                if m == "value":
                    a[j] = (a[j][0], a[j][1] + r.choice([1, 2]))
                elif m == "extra":
                    a.append(("EXTRA", r.choice(
                        [a[-1][1] + 1, a[0][1], a[-1][1]])))
                elif m == "missing":
                    del a[j]
                elif m == "name":
                    a[j] = (a[j][0] + "X", a[j][1])
                elif m == "case":
                    a[j] = (a[j][0].lower(), a[j][1])
                elif m == "swap" and len(a) > 1:
                    h = (j + 1) % len(a)
                    a[j], a[h] = (a[j][0], a[h][1]), (a[h][0], a[j][1])
                fmap[name] = ("e", a)
            if m == "order" and i:
                pos = max(0, pos - r.choice([1, 2, 3]))
                gap = 1
        if gap or r.random() < .2:
            attrs.append("origin %d" % (pos + gap))
        pos += gap + wid
        r.shuffle(attrs)
        if r.random() < .9:
            attrs.append("default 0")
        fields.append("%s: %s;" % (name, ", ".join(attrs)))
    spw = max(pos, 1) + r.choice([0, 0, 1, 5])
    two = wrong and r.random() < .1
    src = ["space ram: width %d, size %d;" % (spw, size)]
    if two:
        src.append("space other: width 8, size 8;")
    src += ["space ram;", "origin 0;", "fields ram: {"] + fields + ["};"]
    # words
    addr = r.choice([0, 0, 1])
    fn = [f.split(":")[0] for f in fields]
    wd = {}
    for f in fields:
        n = f.split(":")[0]
        wd[n] = f
    for _ in range(r.randrange(0, 6)):
        if r.random() < .3:
            addr += r.choice([1, 2, 3])
            src.append("origin %d;" % addr)
        if addr >= size and r.random() < .9:
            break
        ws = []
        for n in fn:
            a = wd[n]
            if "enum" in a:
                b = a[a.index("{") + 1:a.index("}")]
                ws.append("%s => %s" % (n, r.choice(
                    [x.split("=")[0].strip() for x in b.split(";")
                     if x.strip()])))
            elif "bool" in a:
                ws.append("%s => %s" % (n, r.choice(["true", "false", "1"])))
            else:
                w = int(a.split("width")[1].split(",")[0].strip(" ;"))
                ws.append("%s => %d" % (n, r.choice(
                    [r.getrandbits(w), (1 << w) - 1])))
        if not ws:
            break
        src.append(", ".join(ws) + ";")
        addr += 1
    return {"source": "\n".join(src) + "\n", "map": fmap,
            "how": r.choice(["stringio", "path", "path"]),
            "hex": r.random() < .2, "field_defs": r.random() < .2}


def build_map(fmap):
    from amaranth import unsigned
    out = {}
    for n, (k, a) in fmap.items():
        if k == "u":
            out[n] = unsigned(a)
        else:
            out[n] = enum.Enum("E_" + n, a)
    return out


def expected(source, fmap):
    """What the contract says, from an assembler run of its own."""
    from amaranth import Shape
    from m5meta import M5Meta, M5MetaError
    from m5pre import M5Pre
    f = io.StringIO(source)
    try:
        m = M5Meta(f, obj_base_fn="x")
        m.src = M5Pre(f).read()
        for p in (1, 2):
            m.pass_num = p
            m.pass12()
        if len(m.spaces) != 1:
            return {"refuse": "ValueError"}
        sp = next(iter(m.spaces.values()))
        sp.generate_object()
    except Exception as e:
        return {"bad source": repr(e)}
    ok = True
    for n, fd in sp.fields.items():
        if n not in fmap:
            ok = False
            continue
        s = fmap[n]
        try:
            w = Shape.cast(s).width
        except TypeError:
            return {"bad source": "shape"}
        if w != fd.width:
            ok = False
        if fd.enum and fd.enum != {"false": 0, "true": 1}:
            if not isinstance(s, enum.EnumMeta):
                ok = False
            else:
                mem = s.__members__
                for k, v in fd.enum.items():
                    if k.upper() not in mem or mem[k.upper()].value != v:
                        ok = False
                for e in s:
                    if e.name.lower() not in fd.enum or \
                            fd.enum[e.name.lower()] != e.value:
                        ok = False
    fs = list(sp.fields.values())
    asc = all(a.origin + a.width <= b.origin for a, b in zip(fs, fs[1:]))
    inside = all(a < sp.size for a in sp.data)
    fits = all(a.origin + a.width <= sp.width for a in fs)
    if not fits:
        return {"bad source": "fields outside the word"}
    if not ok:
        return {"refuse": "ValueError" if asc and inside else "any"}
    if not inside:
        return {"bad source": "words outside the space"}
    if not asc:
        return {"refuse": "any"}
    return {"space": sp}


def run_case(case, simulate=False):
    """None, or a message: the real class disagrees with the contract."""
    import warnings
    from sentinel.ucoderom import UCodeROM
    fmap = build_map(case["map"])
    exp = expected(case["source"], fmap)
    if "bad source" in exp:
        return None
    with tempfile.TemporaryDirectory(prefix="verif_ucode_") as d, \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {}
        import pathlib
        if case["how"] == "path":
            p = pathlib.Path(d) / "src.asm"
            p.write_text(case["source"])
            kw["main_file"] = p
        else:
            kw["main_file"] = io.StringIO(case["source"])
        if case["hex"]:
            kw["hex"] = pathlib.Path(d) / "o.hex"
        if case["field_defs"]:
            kw["field_defs"] = pathlib.Path(d) / "o.fdef"
        if not fmap:
            return None         # an empty map selects the default one
        try:
            rom = UCodeROM(field_map=fmap, **kw)
        except Exception as e:
            if "refuse" not in exp:
                return "a mappable source is refused: %r" % (e,)
            if exp["refuse"] == "ValueError" and \
                    not isinstance(e, ValueError):
                return "refused with %s instead of ValueError" \
                    % type(e).__name__
            return None
        if "refuse" in exp:
            return "a source that cannot be mapped is accepted"
        sp = exp["space"]
        lay = rom.signature.members["fields"].shape
        for n, fd in sp.fields.items():
            try:
                f = lay[n]
            except KeyError:
                return "field %s missing from the layout" % n
            from amaranth import Shape
            if f.offset != fd.origin:
                return "field %s: bit %d, assembled at bit %d" % (
                    n, f.offset, fd.origin)
            if Shape.cast(f.shape).width != fd.width:
                return "field %s: wrong width" % n
            if f.shape != fmap[n]:
                return "field %s: not the shape given" % n
        a = rom.signature.members["addr"]
        want = max(sp.size - 1, 0).bit_length()
        if Shape_width(a.shape) != want:
            return "addr has %d bits, not %d" % (Shape_width(a.shape), want)
        if case["hex"]:
            q = pathlib.Path(d) / "ref.hex"
            sp.write_hex_file(q)
            if not kw["hex"].exists() or \
                    kw["hex"].read_text() != q.read_text():
                return "hex file differs from the assembled words"
        elif (pathlib.Path(d) / "o.hex").exists():
            return "hex file written without request"
        if case["field_defs"]:
            o = io.StringIO()
            sp.write_fdef(o)
            if not kw["field_defs"].exists() or \
                    kw["field_defs"].read_text() != o.getvalue():
                return "field definition file differs"
        left = sorted(os.listdir(d))
        allow = {"src.asm", "o.hex", "o.fdef", "ref.hex"}
        if set(left) - allow:
            return "unexpected file %s" % left
        init = None
        try:
            init = list(rom.ucode_mem.data.init)
        except Exception:
            simulate = True
        if init is not None:
            for k in range(sp.size):
                if k >= len(init) or int(init[k]) != sp.data.get(k, 0):
                    return "word %d is not the assembled one" % k
        if simulate:
            return simulate_rom(rom, sp)
    return None


def Shape_width(s):
    from amaranth import Shape
    return Shape.cast(s).width


def simulate_rom(rom, sp):
    from amaranth import Value
    from amaranth.sim import Simulator
    bad = []
    try:
        sim = Simulator(rom)
    except Exception as e:
        return "simulation of the ROM fails: %r" % (e,)
    sim.add_clock(1e-6)

    async def tb(ctx):
        for a in list(range(sp.size)) + [0]:
            if len(rom.addr):
                ctx.set(rom.addr, a)
            before = ctx.get(rom.fields.as_value())
            await ctx.delay(1e-7)
            if ctx.get(rom.fields.as_value()) != before:
                bad.append("output changes without a clock")
            await ctx.tick()
            v = ctx.get(rom.fields.as_value())
            w = sp.data.get(a, 0)
            for n, fd in sp.fields.items():
                f = rom.fields.shape()[n]
                got = (v >> f.offset) & ((1 << fd.width) - 1)
                want = (w >> fd.origin) & ((1 << fd.width) - 1)
                if got != want:
                    bad.append("address %d field %s reads %d, assembled %d"
                               % (a, n, got, want))
    sim.add_testbench(tb)
    try:
        sim.run()
    except Exception as e:
        return "simulation of the ROM fails: %r" % (e,)
    return bad[0] if bad else None


def c18_random(seed, n, stop=None, sim_every=4):
    import sentinel.ucoderom as mod
    ints, words = literals(mod)
    r = random.Random(seed)
    if seed % 8 == 1:
        m = c18_default()
        if m:
            return {"kind": "c18-default", "message": m}, 0
    used = 0
    for k in range(n):
        if stop is not None and stop.is_set():
            break
        case = gen_case(r, ints, words)
        m = run_case(case, simulate=k % sim_every == 0)
        used += 1
        if m:
            return {"kind": "c18", "case": case, "message": m}, used
    return None, used


def c18_default():
    """The ROM the core uses, and main_microcode_file()."""
    import pathlib
    import sentinel.ucoderom as mod
    from sentinel.ucoderom import UCodeROM
    want = (pathlib.Path(mod.__file__).parent / "microcode.asm").resolve()
    if UCodeROM.main_microcode_file() != want:
        return "main_microcode_file() is not the supplied microcode"
    exp = expected(want.read_text(), UCodeROM.field_map)
    if "space" not in exp:
        return None
    try:
        rom = UCodeROM()
    except Exception as e:
        return "the default microcode is refused: %r" % (e,)
    try:
        init = list(rom.ucode_mem.data.init)
    except Exception:
        init = None         # kept elsewhere: the simulation reads it
    sp = exp["space"]
    for k in range(sp.size if init is not None else 0):
        if int(init[k]) != sp.data.get(k, 0):
            return "word %d of the default microcode differs" % k
    return simulate_rom(rom, sp)


# ------------------------------------------------------------- C19
class Track:
    """open() as the generator sees it."""

    def __init__(self):
        self.files = []
        self.real = builtins.open

    def __call__(self, *a, **k):
        f = self.real(*a, **k)
        self.files.append((a, k, f))
        return f


def gen_cases():
    import sentinel.gen as mod
    _, words = literals(mod)
    words = [w for w in words if len(w) > 1][:6]
    out = []
    for entry in ("_main", "generate", "module"):
        for o in [None, "-", "out.v", "a b.v", "-x.v"] + words:
            for n in [None, "core", "sentinel", "top"] + words:
                if o in words and n in words and o != n:
                    continue
                for f in (False, True):
                    for boom in (False, True):
                        if boom and (o in words or n in words):
                            continue
                        out.append((entry, o, n, f, boom))
    random.Random(1).shuffle(out)
    return out


def run_gen(case):
    """One command line with the Verilog back end replaced by a recorder
    (yosys is not installed)."""
    import amaranth.back.verilog as V
    import runpy
    import warnings
    entry, o, n, f, boom = case
    made = []

    def convert(m, name="top", **kw):
        made.append((m, name, kw))
        if boom:
            raise RuntimeError("converter failed")
        return "/* text %d */\nmodule\n" % len(made)
    old = os.getcwd(), sys.argv, sys.stdout, V.convert, builtins.open, \
        sys.stderr
    tr = Track()
    fake = io.StringIO()
    with tempfile.TemporaryDirectory(prefix="verif_gen_") as d, \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.chdir(d)
        argv = ["gen"]
        if o is not None:
            argv += ["-o" + o] if o[:1] == "-" and o != "-" else ["-o", o]
            if o == "out.v":            # there is such a file already
                with open(o, "w") as fp:
                    fp.write("old\n" * 40)
        if n is not None:
            argv += ["-n", n]
        if f:
            argv += ["-f"]
        err = None
        try:
            sys.argv, sys.stdout, V.convert = argv, fake, convert
            sys.stderr = io.StringIO()
            if entry == "module":
                sys.modules.pop("sentinel.gen", None)
                builtins.open = tr
                runpy.run_module("sentinel.gen", run_name="__main__")
            else:
                import sentinel.gen as g
                builtins.open = tr
                getattr(g, entry)()
        except SystemExit as e:
            err = "exit %r" % (e.code,) if e.code else None
        except BaseException as e:
            err = repr(e)
        finally:
            os.chdir(old[0])
            (_, sys.argv, sys.stdout, V.convert, builtins.open,
             sys.stderr) = old
        files = [(a, k, x) for a, k, x in tr.files
                 if os.path.abspath(str(a[0])).startswith(d)
                 or not os.path.isabs(str(a[0]))]
        from sentinel.formal import FormalTop
        from sentinel.top import Top
        what = "%s %s%s" % (entry, " ".join(argv[1:]),
                            " (converter fails)" if boom else "")
        for a, k, x in files:
            if not x.closed:
                return what + ": output file left open"
        if fake.closed:
            return what + ": standard output closed"
        if boom:
            if err is None:
                return what + ": failure hidden"
            return None
        if err:
            return what + ": " + err
        if len(made) != 1:
            return what + ": %d conversions" % len(made)
        m, name, kw = made[0]
        if isinstance(m, FormalTop) != f or not isinstance(
                m, (FormalTop, Top)):
            return what + ": converts a %s" % type(m).__name__
        if n and name != n:
            return what + ": top-level name %r" % name
        if not n and (o is not None or f) and name != "sentinel":
            return what + ": default name %r" % name
        text = "/* text 1 */\nmodule\n"
        tofile = o not in (None, "-")
        got = sorted(os.listdir(d))
        if tofile:
            p = os.path.join(d, o)
            if got != [o] or open(p).read().rstrip("\n") != \
                    text.rstrip("\n"):
                return what + ": file not as converted"
            if fake.getvalue():
                return what + ": output on standard output as well"
        else:
            if got:
                return what + ": unexpected file %s" % got
            if fake.getvalue().rstrip("\n") != text.rstrip("\n"):
                return what + ": standard output not as converted"
    return None


def c19_all(part=0, parts=1, stop=None):
    used = 0
    for k, c in enumerate(gen_cases()):
        if k % parts != part:
            continue
        if stop is not None and stop.is_set():
            break
        m = run_gen(c)
        used += 1
        if m:
            return {"kind": "c19", "case": list(c), "message": m}, used
    return None, used


def rerun(run):
    if run["kind"] == "c18":
        c = run["case"]
        c["map"] = {k: (a, [tuple(x) for x in b] if a == "e" else b)
                    for k, (a, b) in c["map"].items()}
        return run_case(c, simulate=True)
    if run["kind"] == "c18-default":
        return c18_default()
    return run_gen(tuple(run["case"]))
