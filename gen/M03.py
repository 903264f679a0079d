from .tup import *
from .text import lit
from .F02 import call_args

TEXT = ["", "a", "uh-oh", "out of bounds!", "tab\tand\nnewline", "quote\"s", "zero\0inside", "percent %d {} {{", "\\backslash", "x" * 100]
HANDLERS = [("", 0), ("vbp::T<1>", 1), ("vbp::T<1>, vbp::T<2>", 12), ("vbp::T<2>, vbp::T<1>", 21), ("vbp::T<4>", 40), ("int", 5),
            ("vbp::T<2>", None), ("vbp::T<3>", None), ("vbp::T<1>, vbp::T<1>", None), ("void", None), ("vbp::T<1>, vbp::T<2>, vbp::T<3>", None)]


def panics(t, c):
    c.s("using namespace stdx::ct_string_literals; vbp::log.clear(); std::vector<vbp::event> want;")
    n = t.range(1, 4)
    total = 0
    for _ in range(n):
        form = t.choose(3)
        if form == 2:
            msg = t.pick(TEXT)
            pool = [("1", "int &&", "1"), ("vbp::global", "int &", "5"), ("vbp::constant", "int const &", "6"), ("true", "bool &&", "1"),
                    ("'a'", "char &&", "97"), ("vb::V<0>{3}", "vb::V<0> &&", "3"), ("vb::M<1>{4}", "vb::M<1> &&", "4"),
                    ("2.0", "double &&", "2"), ("(1, 2)", "int &&", "2"), ("std::move(vbp::global)", "int &&", "5")]
            args = [t.pick(pool) for _ in range(t.range(0, 4))]
            if t.flip():
                args += call_args(t, c, t.range(1, 3), "p")
            c.s("STDX_PANIC(%s);" % ", ".join([lit(msg)] + [a[0] for a in args]))
            ty, h, ct = [(a[1], a[2]) for a in args], 0, True
        else:
            tl, h = t.pick(HANDLERS)
            ca = call_args(t, c, t.range(0, 4), "p")
            if h is None:
                ca = [a for a in ca]
            ct = form == 1
            al = ", ".join(a[0] for a in ca)
            if ct:
                msg = t.pick(TEXT)
                m = t.pick(["%s_cts", "%s", "stdx::ct_string{%s}"]) % lit(msg)
                c.s("stdx::panic<%s>(%s);" % (m + (", " + tl if tl else ""), al))
            else:
                msg = ""
                c.s("stdx::panic%s(%s);" % ("<%s>" % tl if tl or t.flip() else "", al))
            ty = [(a[1], a[2]) for a in ca]
        c.note("panic form %d to handler %s message %r arguments %s" % (form, h, msg, ty))
        if h is not None:
            c.s("want.push_back({%s, %s, std::string{%s, %d}, vb::args{%s}});" % (
                h, "true" if ct else "false", lit(msg), len(msg.encode()), ", ".join("vb::as<%s>(%s)" % a for a in ty)))
        total += len(ty)
        c.chk("vbp::log == want", "panic reached the installed handler with everything it was given")
    c.s("vbp::log.clear();")
    c.nontrivial = total >= 1


ITEMS = ["1", "x", "x + y", "f(1, 2)", "(1, 2)", "\"text, here\"", "'c'", "(a)(b)", "a::b", "{}", "-3", "int", "x y z", "(a) b (c)", "[0]", "((a, b), c)", ";", "f()", "0x1F", "a.b->c", "<", "\"(\"", "1.5e3"]


def mapped(t, c):
    n = t.weighted([(1, 0), (2, 1), (4, 8), (3, 40), (2, 365)])
    n = t.range(min(n, 1) if n < 365 else 41, n) if n else 0
    kind = t.choose(6)
    c.note("map of %d items, form %d" % (n, kind))
    c.nontrivial = n >= 2
    macro = c.name("MAC").upper()
    if kind == 0:
        xs = [t.pick(ITEMS) for _ in range(min(n, 40) if n < 365 else n)]
        if t.chance(1, 6):
            xs = [x if t.chance(5, 6) else "" for x in xs]
        if xs == [""]:
            xs = []
        form = t.pick(["VBP_STR", "VBP_VAR"])
        c.chk("(vbp::strings(STDX_MAP(%s)) == vbp::strs{%s})" % (", ".join([form] + xs), ", ".join(lit(x) for x in xs)), "mapped items as text")
    elif kind == 1:
        xs = [t.range(-50, 99) for _ in range(n)]
        c.same("vbp::values<STDX_MAP(%s)>" % ", ".join(["VBP_ID"] + list(map(str, xs))), "vbp::values<%s>" % ", ".join(map(str, xs)), "mapped items")
    elif kind == 2:
        xs = [t.range(-50, 99) for _ in range(n)]
        c.s("std::vector<int> got{STDX_MAP(%s)};" % ", ".join(["VBP_TWICE"] + list(map(str, xs))))
        c.chk("(got == std::vector<int>{%s})" % ", ".join(str(2 * x) for x in xs), "mapped items in a list")
    elif kind == 3:
        xs = ["n%d" % i for i in range(n)]
        c.d("enum %s { %s };" % (macro, "STDX_MAP(%s)%s count_" % (", ".join(["VBP_ENUM"] + xs), "," if n else "")))
        for i in sorted(set([0, n // 2, n - 1])) if n else []:
            c.chk("e_n%d == %d" % (i, i), "mapped item %d as an enumerator" % i)
        c.chk("count_ == %d" % n, "number of mapped items")
    elif kind == 4:
        a = [t.range(0, 9) for _ in range(min(n, 60))]
        b = [t.range(10, 19) for _ in range(t.range(1, 9))]
        f = "VBP_TWICE"
        c.s("std::vector<int> got{STDX_MAP(%s)%s STDX_MAP(%s)};" % (
            ", ".join(["VBP_ID"] + list(map(str, a))), "," if a else "", ", ".join([f] + list(map(str, b)))))
        c.chk("(got == std::vector<int>{%s})" % ", ".join(map(str, a + [2 * x for x in b])), "two maps side by side")
    else:
        xs = [t.range(0, 99) for _ in range(n)]
        c.s("int calls = 0; auto tick = [&](int x) { return x * 1000 + calls++; };")
        c.d("#define %s(x) tick(x)" % macro)
        c.s("std::vector<int> got{STDX_MAP(%s)};" % ", ".join([macro] + list(map(str, xs))))
        c.chk("(got == std::vector<int>{%s}) and calls == %d" % (", ".join(str(x * 1000 + i) for i, x in enumerate(xs)), n), "mapped calls in order, each once")


def gen(t, c):
    f = t.pick([panics, mapped])
    c.labels.add(f.__name__)
    f(t, c)
