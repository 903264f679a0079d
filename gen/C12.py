"""Arrays made from values, templates, generators and sequences."""
from .text import *

INT = ["int", "std::size_t", "unsigned", "short", "unsigned char", "long long"]
# types in which every earlier one can be held without narrowing
CHAINS = [["signed char", "short", "int", "long long"], ["unsigned char", "unsigned short", "unsigned", "unsigned long long"],
          ["float", "double"], ["bool", "bool"], ["char const *", "std::string_view"]]


def value(t, ty, i):
    if ty == "bool":
        return t.pick(["true", "false"])
    if ty in ("char const *", "std::string_view"):
        return lit(bytes_of(t, t.choose(5), list(b"abz")))
    if ty in ("float", "double"):
        return "%d.5%s" % (t.range(0, 60), "f" if ty == "float" else "")
    return str(t.range(0, 100))


def given(t, c):
    """make_array(values...), make_array<T>(values...)"""
    n = t.weighted([(1, 0), (2, 1), (5, 4), (2, 12), (1, 40)])
    n = n - t.choose(n // 2 + 1)
    kind = t.choose(4)
    typed = t.flip()
    args, want, after = [], [], []
    if kind <= 1:
        chain = t.pick(CHAINS)
        top = 0
        for i in range(n):
            k = t.choose(len(chain))
            top = max(top, k)
            v = value(t, chain[k], i)
            x = c.name("x")
            const = t.flip()
            c.s("%s %s%s = %s;" % (chain[k], "const " if const else "", x, v))
            form = t.choose(3)
            args.append([x, "std::move(%s)" % x, "(%s)(%s)" % (chain[k], x)][form])
            want.append("%s(%s)" % ("std::string_view" if "str" in chain[-1] else "", v) if "str" in chain[-1] else v)
        ty = chain[-1] if typed else None
        # without a type it is the common type: integers below int stay only when alone
        common = "std::common_type_t<%s>" % ", ".join("decltype(%s)" % a for a in args) if n else "int"
        res = ty or common
    else:
        cls = "vb::V<1>" if kind == 2 else "vb::M<1>"
        for i in range(n):
            x = c.name("x")
            v = t.range(1, 90)
            const = kind == 2 and t.chance(1, 3)
            c.s("%s%s %s(%d);" % (cls, " const" if const else "", x, v))
            move = kind == 3 or t.flip()
            args.append("std::move(%s)" % x if move else x)
            want.append("%s(%d)" % (cls, v))
            after.append((x, -1 if move and not const else v))
        ty = cls if typed else None
        res = cls if n or typed else "int"
    c.note("array of %s%s" % (args, " as " + ty if ty else ""))
    c.s("auto arr = stdx::make_array%s(%s);" % ("<%s>" % ty if ty else "", ", ".join(args)))
    c.same("decltype(arr)", "std::array<%s, %d>" % (res, n), "type of the array")
    for i, w in enumerate(want):
        c.chk("arr[%d] == %s" % (i, w), "element %d" % i)
    for x, v in after:
        c.chk("%s.v == %d" % (x, v), "argument %s afterwards" % x)
    c.nontrivial = n >= 2


def numbers(t):
    """(index type, values, expression of the sequence or None for 0..n-1, n)"""
    ty = t.pick(INT)
    if t.flip():
        n = t.weighted([(1, 0), (2, 1), (6, 6), (2, 30), (1, 300 if ty != "unsigned char" else 255)])
        n = n - t.choose(n // 2 + 1)
        return ty, list(range(n)), "std::make_integer_sequence<%s, %d>{}" % (ty, n), n
    lo = 0 if "unsigned" in ty or "size" in ty else -90
    vals = [t.range(lo, 120) for _ in range(t.range(0, 8))]
    return ty, vals, "std::integer_sequence<%s%s>{}" % (ty, "".join(", %d" % v for v in vals)), None


RES = ["long", "int", "bool", "char", "double", "vb::V<1>"]


def wanted(ty, v):
    m = v * 3 + 7
    if ty == "bool":
        return "true" if m % 2 else "false"
    if ty == "char":
        return "char(%d)" % (abs(m) % 100)
    if ty == "vb::V<1>":
        return "vb::V<1>(%d)" % m
    return str(m)


def expr(ty):
    m = "(long(In) * 3 + 7)"
    return {"bool": "(%s %% 2 != 0)", "char": "char((%s < 0 ? -%s : %s) %% 100)", "vb::V<1>": "vb::V<1>(int%s)",
            "double": "double%s", "int": "int%s", "long": "%s"}[ty].replace("%s", m).replace("%%", "%")


def by_template(t, c):
    ty, vals, seq, n = numbers(t)
    r = t.pick(RES)
    if t.chance(1, 4):
        r = ty  # the index itself
    d = c.name("D")
    const = t.flip()
    if r not in RES or r == ty:
        c.d("template <auto In> struct %s { constexpr static decltype(In) value = In; };" % d)
        own = True
    else:
        own = False
        c.d("template <auto In> struct %s { constexpr static %s value = %s; };" % (d, r, expr(r))
            if const else "template <auto In> struct %s { inline static %s value = %s; };" % (d, r, expr(r)))
    if n is not None and t.flip():
        c.s("auto arr = stdx::make_array<%s, %s(%d)>();" % (d, "(%s)" % ty, n))
        c.note("array of %d by a template giving %s, extent of type %s" % (n, r, ty))
    else:
        c.s("auto arr = stdx::make_array<%s>(%s);" % (d, seq))
        c.note("array by a template giving %s, %s" % (r, seq))
    c.same("decltype(arr)", "std::array<%s, %d>" % (r, len(vals)), "type of the array")
    check(c, r, vals, own)
    c.nontrivial = len(vals) >= 2


def check(c, r, vals, own=False):
    if not vals:
        return
    c.s("%s const want[] = {%s};" % (r, ", ".join(str(v) if own else wanted(r, v) for v in vals)))
    c.s("for (std::size_t i = 0; i < %d; ++i) { CHK(arr[i] == want[i], \"element\"); }" % len(vals))


def by_function(t, c):
    ty, vals, seq, n = numbers(t)
    r = t.pick(RES + ["vb::M<1>"])
    e = expr(r) if r != "vb::M<1>" else expr("vb::V<1>").replace("V<1>", "M<1>")
    q = t.pick(["", " const", " &"])
    f = c.name("F")
    c.d("struct %s { std::vector<long> *log; template <auto In> constexpr auto operator()()%s { CHK((std::is_same_v<std::remove_const_t<decltype(In)>, %s>), \"type of an index\"); log->push_back(long(In)); return %s; } };" % (f, q, ty, e))
    c.s("std::vector<long> log;")
    c.s("%s%s fn{&log};" % (f, " const" if q == " const" and t.flip() else ""))
    arg = t.pick(["fn", "std::move(fn)"])
    if n is not None and t.flip():
        c.s("auto arr = stdx::make_array<%s(%d)>(%s);" % ("(%s)" % ty, n, arg))
        c.note("array of %d by a function giving %s, extent of type %s" % (n, r, ty))
    else:
        c.s("auto arr = stdx::make_array(%s, %s);" % (seq, arg))
        c.note("array by a function giving %s, %s" % (r, seq))
    c.same("decltype(arr)", "std::array<%s, %d>" % (r, len(vals)), "type of the array")
    if r == "vb::M<1>":
        for i, v in enumerate(vals[:8]):
            c.chk("arr[%d].v == %d" % (i, v * 3 + 7), "element %d" % i)
    else:
        check(c, r, vals)
    c.chk("log == std::vector<long>{%s}" % ", ".join(str(v) for v in vals) if vals else "log.empty()", "calls made")
    c.nontrivial = len(vals) >= 2


def constant(t, c):
    ty, vals, seq, n = numbers(t)
    c.note("constant array over %s" % seq)
    c.s("constexpr auto arr = stdx::make_array(%s, []<auto In>() { return long(In) * 3 + 7; });" % seq)
    c.same("decltype(arr)", "std::array<long, %d> const" % len(vals), "type of the array")
    check(c, "long", vals)
    k = [t.range(0, 100) for _ in range(t.range(1, 6))]
    c.s("constexpr auto arr2 = stdx::make_array(%s);" % ", ".join(map(str, k)))
    c.chk("arr2 == std::array{%s}" % ", ".join(map(str, k)), "constant array of values")
    c.nontrivial = len(vals) + len(k) >= 3


def gen(t, c):
    f = t.weighted([(5, given), (4, by_template), (4, by_function), (2, constant)])
    c.labels.add(f.__name__)
    f(t, c)
