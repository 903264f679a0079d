"""Formatted static assertions: a true condition is accepted, a false one is
refused with the formatted text in the diagnostic."""
from .text import *

TEXT = list(b"ab Z09:.,=_-+")
TYPES = ["int", "char", "bool", "double", "unsigned char", "vb::K<7>", "vb::E<3>"]


def condition(t, c):
    """A true condition and a false one of the same shape."""
    a = t.range(1, 100)
    k = t.choose(14)
    c.labels.add("condition %d" % k)
    if k <= 4:
        op, hit, miss = [("==", a, a + 1), (">", a - 1, a), ("<", a + 1, a), (">=", a, a + 1), ("!=", a - 1, a)][k]
        x, y = ("%d %s %d" % (a, op, hit), "%d %s %d" % (a, op, miss))
        return (x, y) if t.flip() else ("(%s)" % x, "(%s)" % y)
    if k == 5:
        return "true", "false"
    if k == 6:
        ty = t.pick(TYPES)
        return "(std::is_same_v<%s, %s>)" % (ty, ty), "(std::is_same_v<%s, %s const>)" % (ty, ty)
    if k == 7:
        return "not (%d < %d)" % (a, a), "not (%d <= %d)" % (a, a)
    if k == 8:
        return "%d > 0 and %d < 101" % (a, a), "%d > 0 and %d > 101" % (a, a)
    if k == 9:
        return "%d > 101 or sizeof(char) == 1" % a, "%d > 101 or sizeof(char) == 2" % a
    if k == 10:
        return "%d > 0 ? true : false" % a, "%d > 0 ? false : true" % a
    if k == 11:
        return "std::is_class<vb::E<%d>>::value" % (a % 3), "std::is_class<int>::value"
    if k == 12:
        return "std::is_integral<int>{}", "std::is_integral<double>{}"
    return "%d >> 1 == %d" % (a, a >> 1), "%d >> 1 > %d" % (a, a)


def words(t):
    n = t.choose(7) if not t.chance(1, 25) else t.range(60, 400)
    return bytes_of(t, n, TEXT)


def number(t):
    v = t.pick([0, 1, -1, 9, 10, 127, -128, 255, 256, 2**31 - 1, -2**31 + 1, 2**31, 2**63 - 1, -2**63 + 1, 10**6])
    if t.flip():
        v = t.range(-2000, 2000)
    return v


def argument(t, c):
    """(expression, text)"""
    k = t.weighted([(5, 0), (3, 1), (3, 2), (2, 3), (2, 4), (2, 5), (2, 6)])
    c.labels.add("argument " + ["number", "string", "type", "enumerator", "character", "hexadecimal", "nested"][k])
    if k in (0, 5):
        v = number(t)
        e = "%d%s" % (v, "ll" if abs(v) > 2**31 - 1 else "")
        f = t.choose(3 if c.local else 2)
        if f:
            n = c.name("n")
            (c.d if f == 1 else c.s)("[[maybe_unused]] constexpr %sauto %s = %s;" % ("static " if f == 2 else "", n, e))
            e = n
        return e, b"%d" % v if k == 0 else (b"-" if v < 0 else b"") + b"%x" % abs(v), k == 5
    if k == 1:
        b = words(t)
        f = t.choose(3)
        if f == 0:
            return lit(b), b, False
        n = c.name("s")
        c.d("[[maybe_unused]] constexpr auto %s = %s;" % (n, ("stdx::ct_string{%s}" if f == 1 else "std::string_view{%s}") % lit(b)))
        return n, b, False
    if k == 2:
        ty = t.pick(TYPES)
        return ty, ty.encode(), False
    if k == 3:
        e, n = c.name("En"), c.name(t.pick(["A", "some_value", "Z"]))
        c.d("enum %s%s { first_of_%s, %s };" % (t.pick(["struct ", ""]), e, e, n))
        return "%s::%s" % (e, n), n.encode(), False
    if k == 4:
        x = t.pick(list(b"aZ0:.-"))
        return ch(x), bytes([x]), False
    pre = words(t)
    n = c.name("r")
    c.d("[[maybe_unused]] constexpr auto %s = stdx::ct_format<%s>(%s);" % (n, lit(pre + b"{}"), "CX_VALUE(%d)" % len(pre)))
    return n, pre + b"%d" % len(pre), False


def message(t, c):
    fmt, out, args = b"", b"", []
    for _ in range(t.weighted([(2, 0), (4, 1), (4, 2), (2, 3), (1, 6)])):
        w = words(t)
        e, b, hx = argument(t, c)
        fmt += w + (b"{:x}" if hx else b"{}")
        out += w + b
        args.append(e)
    w = words(t)
    return fmt + w, out + w, args


def gen(t, c):
    form = t.choose(8)
    c.local = form < 5  # the assertion stands in the function itself
    fmt, out, args = message(t, c)
    yes, no = condition(t, c)
    # the text is only visible in the diagnostic if it is not empty
    says = out.decode() if out.strip() else None
    tail = "".join(", " + a for a in [lit(fmt)] + args)
    if not args and form < 4 and t.chance(1, 3):
        n = c.name("m")
        c.d("[[maybe_unused]] constexpr auto %s = stdx::ct_string{%s};" % (n, lit(fmt)))
        tail = ", " + n
    one = lambda cond: "STATIC_ASSERT(%s%s)" % (cond, tail)
    c.note("%s: message %s with %s" % (yes, lit(fmt), args or "nothing"))
    c.labels.add("form %d" % form)
    if form == 0:
        c.twin(one(yes) + ";", one(no) + ";", says)
    elif form == 1:
        c.twin("static_assert(%s);" % one(yes), "static_assert(%s);" % one(no), says)
    elif form == 2:
        c.twin('CHK((%s), "value of an accepted assertion");' % one(yes), '(void)%s;' % one(no), says)
    elif form == 3:
        w = lambda x: "auto fn = [](auto q) { return %s and q; }; CHK(fn(true), \"value in a generic function\");" % one(x)
        c.twin(w(yes), w(no), says)
    elif form == 4:
        # another assertion, true, with another text
        c.s("STATIC_ASSERT(%s, \"other {}\", 1);" % yes)
        c.twin(one(yes) + ";", one(no) + ";", says)
    else:
        # condition and text depend on template parameters
        a = t.range(0, 50)
        ty = t.pick(TYPES)
        op, bad = t.pick([("==", a + 1), (">=", a - 1 if a else -1), (">", a), ("<=", a + 1)])
        good = a if op != ">" else a + 1
        bad = min(bad, a - 1) if op == ">=" else bad
        f = c.name("fn")
        tail = "".join(", " + x for x in [lit(b"of {} at {}: " + fmt), "Ty", "Val"] + args)
        body = "STATIC_ASSERT(Val %s %d%s)" % (op, a, tail)
        if form == 5:
            c.d("template <typename Ty, auto Val> constexpr auto %s() -> bool { return %s; }" % (f, body))
            call = "%s<%s, %%d>()" % (f, ty)
        elif form == 6:
            c.d("template <typename Ty, auto Val> constexpr auto %s() -> bool { %s; return true; }" % (f, body))
            call = "%s<%s, %%d>()" % (f, ty)
        else:
            c.d("template <typename Ty> struct %s { template <auto Val> static constexpr auto go() -> bool { return %s; } };" % (f, body))
            call = "%s<%s>::template go<%%d>()" % (f, ty)
        says = "of %s at %d: " % (ty, bad) + out.decode()
        c.twin('CHK((%s), "value of an accepted assertion");' % (call % good), "(void)%s;" % (call % bad), says)
    c.nontrivial = len(args) > 0 and len(out) > 3
