from .text import *

TEXT = list(b"ab Z0:.,=#-x") + [0x22, 0x5c, 0x7e]
NAMES = ["x", "y", "value", "a1", "long_name", "n"]
INTS = [("int", "", -2**31, 2**31 - 1), ("unsigned", "u", 0, 2**32 - 1), ("long long", "ll", -2**63, 2**63 - 1),
        ("unsigned long long", "ull", 0, 2**64 - 1), ("std::int8_t", None, -128, 127), ("std::uint8_t", None, 0, 255),
        ("std::int16_t", None, -2**15, 2**15 - 1), ("std::uint16_t", None, 0, 2**16 - 1)]
TYPES = ["int", "char", "bool", "double", "float", "unsigned char", "vb::K<7>", "vb::E<3>", "vb::list<int, char>", "vb::list<>"]


def number(t, kinds=INTS):
    ty, suf, lo, hi = t.pick(kinds)
    k = t.choose(6)
    v = [0, lo, hi, t.range(-20, 20), t.range(0, 300), 0][k]
    if k == 5:
        bits = t.range(1, 63)
        v = (1 << bits) + t.range(-1, 1)
        if lo < 0 and t.flip():
            v = -v
    v = min(max(v, lo), hi)
    if v < 0:
        e = "(%s)(%d%s - 1)" % (ty, v + 1, suf or "")
    else:
        e = "(%s)(%d%s)" % (ty, v, (suf or "") if v < 2**63 else "ull")
    return ty, v, e


def hexa(v):
    return "%x" % v if v >= 0 else "-%x" % -v


def text_of(t, maxlen=6):
    if maxlen == 6 and t.chance(1, 40):
        maxlen = 300
    return bytes_of(t, t.choose(maxlen + 1), TEXT)


class Res:
    """What formatting must give."""

    def __init__(self):
        self.str = b""
        self.args = []   # (type, expression giving the expected value)
        self.named = []  # (name, type or None, begin, end) ; end < begin: run-time argument

    def add(self, other):
        for name, ty, b, e in other.named:
            off = len(self.args) if e < b else len(self.str)
            self.named.append((name, ty, b + off, e + off))
        self.str += other.str
        self.args += other.args


def one(b):
    r = Res()
    r.str = b
    return r


def enum_arg(t, c):
    e = c.name("En")
    names = [t.pick(["A", "zero", "Long_enumerator_Name", "e1", "x_"]) + "%s_%d" % (e[2:], i) for i in range(t.range(1, 3))]
    scoped = t.flip()
    c.d("enum %s%s { %s };" % ("struct " if scoped else "", e, ", ".join(names)))
    n = t.pick(names)
    return (e + "::" + n), n


def argument(t, c, depth, macro):
    """(expression, result for the bare placeholder, can be hex, note)"""
    kinds = [(5, "int"), (3, "str"), (2, "type"), (2, "enum"), (2, "char"), (6, "rt")]
    if depth:
        kinds += [(5, "nested"), (1, "user")]
    k = t.weighted(kinds)
    c.labels.add(k)
    if k == "int":
        ty, v, e = number(t, INTS if not macro else INTS[:4])
        if macro:
            f = t.choose(3)
            if f == 0:
                n = c.name("i")
                c.s("constexpr static auto %s = %s;" % (n, e))
                e = n
            elif f == 1:
                n = c.name("i")
                c.s("auto %s = std::integral_constant<%s, %s>{};" % (n, ty, e))
                e = n
            return e, one(b"%d" % v), v, ty, "%s %d" % (ty, v)
        f = t.choose(4)
        if f == 0:
            e = "CX_VALUE(%s)" % e
        elif f == 1:
            e = "stdx::ct<%s>()" % e
        elif f == 2:
            e = "std::integral_constant<%s, %s>{}" % (ty, e)
        else:
            n = c.name("i")
            c.s("constexpr static %s %s = %s;" % (ty, n, e))
            e = "CX_VALUE(%s)" % n
        return e, one(b"%d" % v), v, ty, "%s %d" % (ty, v)
    if k == "str":
        b = bytes_of(t, t.choose(7), TEXT + [0, 0xe9, 0x7b, 0x7d])
        if macro:
            f = t.choose(4)
            n = c.name("s")
            if f == 0:
                b = b.replace(b"\0", b"")  # a literal argument ends at the first null character
            if f == 0:
                e = lit(b)
            elif f == 1:
                c.s("constexpr static auto %s = %s_cts;" % (n, lit(b)))
                e = n
            elif f == 2:
                c.s("auto %s = %s_ctst;" % (n, lit(b)))
                e = n
            else:
                c.s("constexpr static auto %s = std::string_view{%s, %d};" % (n, lit(b), len(b)))
                e = n
        else:
            f = t.choose(6)
            if f == 2:
                b = b.replace(b"\0", b"")
            e = ["CX_VALUE(std::string_view{%%s, %d})" % len(b), "CX_VALUE(%s_cts)", "CX_VALUE(%s)", "%s_ctst", "stdx::ct<%s>()"][f % 5] % lit(b) \
                if f < 5 else "vbs::sc<char%s>{}" % "".join(", " + ch(x) for x in b)
        return e, one(b), None, None, "string " + lit(b)
    if k == "type":
        ty = t.pick(TYPES if not macro else [x for x in TYPES if "," not in x])
        e = ty if macro else t.pick(["CX_VALUE(%s)", "stdx::ct<%s>()", "stdx::type_identity<%s>{}"]) % ty
        return e, one(ty.encode()), None, None, "type " + ty
    if k == "enum":
        full, n = enum_arg(t, c)
        e = full if macro else t.pick(["CX_VALUE(%s)", "stdx::ct<%s>()"]) % full
        return e, one(n.encode()), None, None, "enumerator " + n
    if k == "char":
        x = t.pick(list(b"aZ0:.#"))
        e = ch(x) if macro else t.pick(["CX_VALUE(%s)", "std::integral_constant<char, %s>{}"]) % ch(x)
        return e, one(bytes([x])), None, None, "char " + ch(x)
    if k == "rt":
        r = Res()
        r.str = b"{}"
        f = t.choose(5)
        n = c.name("r")
        if f <= 1:
            ty, v, e = number(t)
            c.s("%s %s = %s;" % (ty, n, e))
            want, e, hx = e, n, True
        elif f == 2:
            b = text_of(t)
            ty, want, hx = "std::string_view", "std::string_view{%s}" % lit(b), False
            c.s("std::string_view %s = %s;" % (n, want))
            e = n
        elif f == 3:
            v = t.range(1, 90)
            ty, want, hx = "vb::V<1>", "vb::V<1>(%d)" % v, False
            c.s("vb::V<1> %s(%d);" % (n, v))
            e = n if macro or t.flip() else "std::move(%s)" % n
            if macro and t.flip():
                e = "VBX(%s)" % n
                c.touched += 1
        else:
            v = t.range(1, 90)
            if macro:
                ty, want, hx = "vb::V<2>", "vb::V<2>(%d)" % v, False
                c.s("vb::V<2> const %s(%d);" % (n, v))
                e = n
            else:
                ty, want, hx = "vb::M<1>", "vb::M<1>(%d)" % v, False
                e = "vb::M<1>(%d)" % v
        r.args = [(ty, want)]
        return e, r, ("rt" if hx else None), ty, "run-time " + want
    if k == "user":
        u = c.name("U")
        v = t.range(0, 999)
        pre = text_of(t, 3)
        c.d("struct %s { int x; };" % u)
        c.d("[[maybe_unused]] constexpr auto ct_format_as(%s const &u) { return stdx::ct_format<%s>(u.x); }" % (u, lit(pre + b"{}")))
        r = Res()
        r.str = pre + b"{}"
        r.args = [("int", str(v))]
        n = c.name("u")
        c.s("%s %s{%d};" % (u, n, v))
        return n, r, None, None, "user type giving " + lit(r.str)
    # nested result
    e, r, note = formatted(t, c, depth - 1, False)
    if r.args or macro:
        n = c.name("f")
        c.s("auto %s = %s;" % (n, e))
        e = n if macro or all(a[0] != "vb::M<1>" for a in r.args) and t.flip() else "std::move(%s)" % n
        if macro and any(a[0] == "vb::M<1>" for a in r.args):
            return argument(t, c, 0, macro)
    elif t.chance(1, 4):
        e = "%s_fmt_res" % lit(r.str)
        r.named = []
    return e, r, None, None, "nested (" + note + ")"


def formatted(t, c, depth, macro, output=None):
    """(expression, result, note)"""
    n = t.weighted([(1, 0), (4, 1), (4, 2), (2, 3), (1, 5)])
    fmt, res, args, notes = b"", Res(), [], []
    for _ in range(n):
        txt = text_of(t)
        fmt += txt
        res.add(one(txt))
        e, r, hx, ty, note = argument(t, c, depth, macro)
        name = t.pick(NAMES) if t.chance(1, 3) and not note.startswith(("nested", "user")) else ""
        spec = ""
        if hx is not None and t.chance(2, 5):
            spec = ":x"
            if hx == "rt":
                spec = t.pick([":x", ":x", ":08x", "::>4", ":>8", ":*^9"])
            r.str = ("{%s}" % spec).encode() if hx == "rt" else hexa(hx).encode()
        fmt += ("{%s%s}" % (name, spec)).encode()
        if name:
            if r.args:
                r.named = [(name, ty, 0, -1)]
            elif len(r.str):
                r.named = [(name, ty, 0, len(r.str))]
            else:
                r.named = [(name, ty, 0, 0)]
        res.add(r)
        args.append(e)
        notes.append(note)
    txt = text_of(t)
    fmt += txt
    res.add(one(txt))
    if macro:
        e = "STDX_CT_FORMAT(%s)" % ", ".join([lit(fmt)] + args)
    else:
        e = "stdx::ct_format<%s%s>(%s)" % (lit(fmt), ", vbs::sc" if output else "", ", ".join(args))
    c.s("CHK_EQ((stdx::num_fmt_specifiers<%s>), %du, \"number of placeholders\");" % (lit(fmt), n))
    return e, res, "%s%s with %s" % ("macro " if macro else "", lit(fmt), notes or "nothing")


def gen(t, c):
    if t.chance(1, 10):
        # counting only: escaped braces are not placeholders
        s, n = b"", 0
        for _ in range(t.range(1, 8)):
            k = t.choose(4)
            s += [b"{}", b"{{", b"}}", b"a:", b"{n:x}"][k] if k < 3 else t.pick([b"a:", b"{n:x}", b"{:}"])
            n += 1 if (k == 0 or s.endswith((b"{n:x}", b"{:}"))) else 0
        c.note("count placeholders in " + lit(s))
        c.eq("stdx::num_fmt_specifiers<%s>" % lit(s), "%du" % n, "number of placeholders")
        c.nontrivial = n > 0
        return
    macro = t.chance(2, 5)
    c.touched = 0
    output = not macro and t.chance(1, 4)
    e, r, note = formatted(t, c, t.weighted([(2, 0), (4, 1), (2, 2)]), macro, output)
    c.note(note + (" into a type" if output else ""))
    c.s("vbs::touched = 0;")
    c.s("auto res = %s;" % e)
    if c.touched:
        c.s("#ifdef __clang__")
        c.eq("vbs::touched", c.touched, "number of evaluations of the arguments")
        c.s("#endif")
    n = len(r.str)
    if output:
        c.same("decltype(res.str)", "vbs::sc<char%s>" % "".join(", " + ch(x) for x in r.str), "text as a type")
    else:
        c.eq("std::string_view(res.str.value)", "std::string_view(%s, %d)" % (lit(r.str), n), "text")
        c.same("decltype(res.str)", "stdx::cts_t<%s>" % lit(r.str), "text as a constant")
    c.same("decltype(res.args)", "stdx::tuple<%s>" % ", ".join(a[0] for a in r.args), "types of the run-time arguments")
    for i, (ty, want) in enumerate(r.args):
        c.chk("stdx::get<%d>(res.args) == %s" % (i, want), "run-time argument %d" % i)
    c.same("boost::mp11::mp_size<typename decltype(res)::named_args_t>", "boost::mp11::mp_size_t<%d>" % len(r.named),
           "number of named arguments")
    for i, (name, ty, b, e2) in enumerate(r.named):
        a = "boost::mp11::mp_at_c<typename decltype(res)::named_args_t, %d>" % i
        c.chk("%s::name == %s_cts and %s::begin == %d and %s::end == %d" % (a, lit(name.encode()), a, b, a, e2),
              "named argument %d" % i)
        if e2 != b:
            c.chk("%s::is_runtime() == %s" % (a, "true" if e2 < b else "false"), "named argument %d: kind" % i)
        if ty:
            c.same("typename %s::type" % a, ty, "named argument %d: type" % i)
    if not r.args and not output:
        c.chk("+res == %s_cts" % lit(r.str), "result as a string")
        c.chk("res == %s_fmt_res" % lit(r.str) if not r.named else "true", "result compared")
        c.same("vbs::use<decltype(res){}>", "vbs::use<%s>" % lit(r.str), "result as a template argument")
    c.nontrivial = len(r.args) + len(r.named) > 0 or n > 6
