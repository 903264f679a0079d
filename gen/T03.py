from .tup import *

CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}


def item(e):
    return (e.type, e.rd, e.var)


class Gen:
    def __init__(self, t, c):
        self.t, self.c = t, c
        self.moved = []
        self.kept = []

    def leaf(self, lib="stdx"):
        t, c = self.t, self.c
        n = t.weighted([(2, 0), (3, 1), (4, 2), (3, 3), (1, 5)])
        if n == 5 and t.chance(1, 4):
            n = t.range(6, 36)
        cat = t.pick(["r", "l", "cl"])
        es = elems(t, c, n, VALUE + REF + CONST + (MOVE + RREF if cat == "r" else []))
        x = c.name("t")
        c.s("%s::tuple<%s> %s{%s};" % (lib, ", ".join(e.type for e in es), x, ", ".join(e.expr for e in es)))
        (self.moved if cat == "r" else self.kept).append((x, es, lib))
        return CAT[cat] % x, [item(e) for e in es], "%s%s" % (cat, show(es))

    def one(self):
        """A single value to add: decays."""
        t, c = self.t, self.c
        e = El(c, t.pick(VALUE + MOVE + REF + CONST), 90 + t.choose(9))
        how = t.choose(3)
        if e.ref:
            ex = "std::as_const(%s)" % e.var if how == 2 else e.var
            return ex, (e.value_type, e.rd, None), e.kind
        v = c.name("v")
        c.s("%s %s = %s;" % (e.type, v, e.expr))
        if how == 0 or not e.copyable:
            return "std::move(%s)" % v, (e.value_type, e.rd, None), "moved " + e.kind
        return CAT[["l", "cl"][how - 1]] % v, (e.value_type, e.rd, None), e.kind

    def expr(self, depth):
        t, c = self.t, self.c
        k = t.choose(6) if depth > 0 else 0
        if k == 0:
            return self.leaf()
        if k == 1:
            n = t.weighted([(1, 0), (2, 1), (4, 2), (3, 3), (1, 4)])
            subs = [self.expr(depth - 1) for _ in range(n)]
            return ("stdx::tuple_cat(%s)" % ", ".join(s[0] for s in subs),
                    [i for s in subs for i in s[1]], "cat(%s)" % ", ".join(s[2] for s in subs))
        if k == 2:
            ex, it, sh = self.one()
            sub = self.expr(depth - 1)
            f = t.pick(["tuple_cons", "tuple_push_front"])
            return "stdx::%s(%s, %s)" % (f, ex, sub[0]), [it] + sub[1], "%s(%s, %s)" % (f, sh, sub[2])
        if k == 3:
            sub = self.expr(depth - 1)
            ex, it, sh = self.one()
            f = t.pick(["tuple_snoc", "tuple_push_back"])
            return "stdx::%s(%s, %s)" % (f, sub[0], ex), sub[1] + [it], "%s(%s, %s)" % (f, sub[2], sh)
        if k == 4:
            sub = self.expr(depth - 1)
            return ("stdx::tuple_cat(stdx::tuple<>{}, (%s).tail())" % sub[0], sub[1][1:], "tail(%s)" % sub[2])
        sub = self.expr(depth - 1)
        types = sorted({i[0] for i in sub[1]})
        keep = [ty for ty in types if t.flip()]
        if t.chance(1, 4):
            keep = list(types)
        p = c.name("keep")
        c.d("template <typename T> using %s = std::bool_constant<%s>;" % (
            p, " or ".join("std::is_same_v<T, %s>" % ty for ty in keep) or "false"))
        return ("stdx::filter<%s>(%s)" % (p, sub[0]), [i for i in sub[1] if i[0] in keep],
                "filter<%s>(%s)" % ("|".join(keep), sub[2]))


def verify(c, x, items, what, lib="stdx"):
    c.eq("stdx::tuple_size_v<std::remove_cvref_t<decltype(%s)>>" % x, len(items), what + ": number of elements")
    for i, (ty, v, var) in enumerate(items):
        c.same("stdx::tuple_element_t<%d, std::remove_cvref_t<decltype(%s)>>" % (i, x), ty, "%s: type of element %d" % (what, i))
        c.eq("vb::rd(%s::get<%d>(%s))" % (lib, i, x), v, "%s: element %d" % (what, i))
        if var:
            c.chk("&%s::get<%d>(%s) == &%s" % (lib, i, x, var), "%s: element %d still refers to its object" % (what, i))


def compose(t, c):
    g = Gen(t, c)
    ex, items, sh = g.expr(t.range(1, 3))
    c.note(sh)
    c.s("auto const r = %s;" % ex)
    verify(c, "r", items, "result")
    c.chk("stdx::tuplelike<decltype(r)>", "the result is a tuple")
    for x, es, lib in g.kept:
        for i, e in enumerate(es):
            c.eq("vb::rd(%s::get<%d>(%s))" % (lib, i, x), e.rd, "an lvalue argument is left alone")
    c.nontrivial = len(items) >= 2


def wide(t, c):
    """more elements than a byte can count"""
    n = t.pick([256, 257, 259, 280])
    k = t.pick([0, 1, 3, n - 1, n])
    c.note("concatenate %d and %d elements" % (k, n - k))
    c.s("auto const make = []<std::size_t First, std::size_t... Is>(std::index_sequence<Is...>) { return stdx::tuple{static_cast<int>(Is + First)...}; };")
    c.s("auto const a = make.operator()<0>(std::make_index_sequence<%d>{});" % k)
    c.s("auto const b = make.operator()<%d>(std::make_index_sequence<%d>{});" % (k, n - k))
    c.s("auto const r = stdx::tuple_cat(a, b);")
    c.s("int const seen = stdx::apply([](auto... xs) { int n = 0; return ((xs == n++ ? 1 : 0) + ... + 0); }, r);")
    c.eq("seen", n, "every element is in its place")
    c.s("int const over = stdx::apply([](auto... xs) { int n = 0; return ((xs == n++ ? 1 : 0) + ... + 0); }, a, b);")
    c.eq("over", n, "every element is passed in its place")
    c.s("auto const kept = stdx::filter<std::is_integral>(r);")
    c.s("int const same = stdx::apply([](auto... xs) { int n = 0; return ((xs == n++ ? 1 : 0) + ... + 0); }, kept);")
    c.eq("same", n, "every element is kept in its place")
    c.s("auto const fewer = stdx::filter<std::is_integral>(stdx::tuple_snoc(stdx::tuple_cons(0.5, r), 7));")
    c.s("int const left = stdx::apply([](auto... xs) { int n = 0; return ((xs == (n == %d ? 7 : n) ? (++n, 1) : 0) + ... + 0); }, fewer);" % n)
    c.eq("left", n + 1, "every whole number is kept in its place")
    c.nontrivial = True
    c.labels.add("wide")


def standard(t, c):
    """cons, snoc and filter on std::tuple"""
    g = Gen(t, c)
    ex, items, sh = g.leaf("std")
    k = t.choose(3)
    if k == 2:
        types = sorted({i[0] for i in items})
        keep = [ty for ty in types if t.flip()]
        c.d("template <typename T> using keep = std::bool_constant<%s>;" % (
            " or ".join("std::is_same_v<T, %s>" % ty for ty in keep) or "false"))
        call, items = "stdx::filter<keep>(%s)" % ex, [i for i in items if i[0] in keep]
    else:
        one, it, s1 = g.one()
        if k == 0:
            call, items = "stdx::tuple_cons(%s, %s)" % (one, ex), [it] + items
        else:
            call, items = "stdx::tuple_snoc(%s, %s)" % (ex, one), items + [it]
    c.note("std::tuple: %s of %s" % (["cons", "snoc", "filter"][k], sh))
    c.s("auto const r = %s;" % call)
    c.same("decltype(r)", "std::tuple<%s> const" % ", ".join(i[0] for i in items), "type of the result")
    verify(c, "r", items, "result", "std")
    c.nontrivial = len(items) >= 2


def tail(t, c):
    n = t.range(0, 5)
    cat = t.pick(["r", "l", "cl"])
    es = elems(t, c, n, VALUE + REF + CONST + (MOVE + RREF if cat == "r" else []))
    x = decl(c, es)
    c.note("tail of %s%s" % (cat, show(es)))
    c.s("auto const r = (%s).tail();" % (CAT[cat] % x))
    verify(c, "r", [item(e) for e in es[1:]], "tail")
    if n:
        c.eq("vb::rd(stdx::get<0>(%s))" % x, es[0].rd, "the first element is left alone")
    for i, e in list(enumerate(es))[1:]:
        c.eq("vb::rd(stdx::get<%d>(%s))" % (i, x), -1 if cat == "r" and e.kind[0] in "VML" else e.rd, "source after tail")
    c.nontrivial = n >= 2


def cartesian(t, c):
    copy = t.flip()
    m = t.weighted([(1, 0), (2, 1), (4, 2), (3, 3)])
    srcs = []
    for _ in range(m):
        n = t.weighted([(1, 0), (3, 1), (4, 2), (3, 3)])
        if m == 3 and n == 3 and len([s for s in srcs if len(s[1]) == 3]) == 2:
            n = 2
        es = elems(t, c, n, VALUE + REF + CONST + ([] if copy else MOVE))
        x = decl(c, es)
        cat = t.pick(["l", "cl", "r"] if copy else ["l", "cl"])
        srcs.append((CAT[cat] % x, es, cat, x))
    c.note("cartesian_product%s of %s" % ("_copy" if copy else "", ", ".join(s[2] + show(s[1]) for s in srcs)))
    c.s("auto const r = stdx::cartesian_product%s(%s);" % ("_copy" if copy else "", ", ".join(s[0] for s in srcs)))
    rows = [[]]
    for k, s in enumerate(srcs):
        rows = [row + [(k, i)] for row in rows for i in range(len(s[1]))]

    def ty(k, i):
        e = srcs[k][1][i]
        return e.value_type if copy else e.on(srcs[k][2])
    c.same("decltype(r)", "stdx::tuple<%s> const" % ", ".join(
        "stdx::tuple<%s>" % ", ".join(ty(k, i) for k, i in row) for row in rows), "type of the product")
    for j, row in enumerate(rows):
        for p, (k, i) in enumerate(row):
            g = "stdx::get<%d>(stdx::get<%d>(r))" % (p, j)
            c.eq("vb::rd(%s)" % g, srcs[k][1][i].rd, "row %d, column %d" % (j, p))
            if not copy:
                c.chk("&%s == &stdx::get<%d>(%s)" % (g, i, srcs[k][3]), "row %d, column %d refers to the element" % (j, p))
    c.nontrivial = len(rows) >= 2 and m >= 2
    c.labels.add("product")


def gen(t, c):
    t.weighted([(60, compose), (10, standard), (10, tail), (30, cartesian), (1, wide)])(t, c)
