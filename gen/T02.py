from .tup import *

CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}


class Src:
    """A tuple-like argument."""

    def __init__(self, t, c, first=False, allow_array=True, lens=None):
        n = lens if lens is not None else t.weighted([(1, 0), (2, 1), (4, 2), (4, 3), (2, 4), (1, 6)])
        if lens is None and n == 6 and t.chance(1, 4):
            n = t.range(7, 36)
        what = t.weighted([(6, "stdx"), (2, "std"), (2 if allow_array else 0, "array")])
        self.what = what
        if what == "array":
            k = t.pick(["int", "V0", "M0"])
            self.es = [El(c, k, spread(i, t.choose(10))) for i in range(n)]
            self.type = "std::array<%s, %d>" % (TYPE[k], n)
        else:
            self.es = elems(t, c, n, VALUE + MOVE + REF + CONST + RREF)
            self.type = "%s::tuple<%s>" % (what, ", ".join(e.type for e in self.es))
        self.name = c.name("s")
        if what == "array":
            # one set of braces per element type keeps aggregate rules simple
            c.s("%s %s{%s};" % (self.type, self.name, ("{" + ", ".join(e.expr for e in self.es) + "}") if n else ""))
        else:
            c.s("%s %s{%s};" % (self.type, self.name, ", ".join(e.expr for e in self.es)))
        self.cat = t.pick(["l", "cl", "r"])
        self.arg = CAT[self.cat] % self.name

    def show(self):
        return "%s:%s%s" % (self.what, self.cat, show(self.es))

    def at(self, i):
        return self.es[i].on(self.cat)


def expected_log(srcs, n, by_position=True):
    out = []
    if by_position:
        for i in range(n):
            for s in srcs:
                out.append("vb::as<%s>(%d)" % (ref(s.at(i)), s.es[i].rd))
    else:
        for s in srcs:
            for i, e in enumerate(s.es):
                out.append("vb::as<%s>(%d)" % (ref(s.at(i)), e.rd))
    return "vb::args{%s}" % ", ".join(out)


def ref(ty):
    return ty


def arglist(srcs):
    return "".join(", " + s.arg for s in srcs)


def gen_apply(t, c):
    member = t.chance(1, 3)
    if member:
        srcs = [Src(t, c, allow_array=False)]
        while srcs[0].what != "stdx":
            srcs = [Src(t, c, allow_array=False)]
    else:
        srcs = [Src(t, c) for _ in range(t.weighted([(1, 0), (4, 1), (4, 2), (2, 3)]))]
    c.note("%sapply over %s" % ("member " if member else "", ", ".join(s.show() for s in srcs)))
    total = sum(len(s.es) for s in srcs)
    c.s("vb::args log; int calls = 0; static int target = 5;")
    kind = t.choose(3)
    if kind == 0:
        f = "[&](auto &&...xs) -> int & { ++calls; vb::put(log, std::forward<decltype(xs)>(xs)...); return target; }"
    elif kind == 1:
        f = "[&](auto &&...xs) { ++calls; vb::put(log, std::forward<decltype(xs)>(xs)...); return vb::sum(xs...); }"
    else:
        f = "[&](auto &&...xs) -> void { ++calls; vb::put(log, std::forward<decltype(xs)>(xs)...); }"
    call = "(%s).apply(%s)" % (srcs[0].arg, "f") if member else "stdx::apply(f%s)" % arglist(srcs)
    c.s("auto f = %s;" % f)
    if kind == 0:
        c.s("decltype(auto) r = %s;" % call)
        c.eq("r", 5, "result of apply")
        if member:
            c.same("decltype(r)", "int &", "result type of member apply")
            c.chk("&r == &target", "result of member apply is the function's")
    elif kind == 1:
        c.s("auto const r = %s;" % call)
        c.eq("r", sum(e.rd for s in srcs for e in s.es), "result of apply")
    else:
        c.s(call + ";")
    c.eq("calls", 1, "calls")
    c.chk("log == (%s)" % expected_log(srcs, 0, False), "arguments of apply")
    if t.flip() and any(e.moves for s in srcs for e in s.es) and all(
            s.cat == "r" or copyable(s.es) for s in srcs) and len({s.name for s in srcs}) == len(srcs):
        c.note("taking by value")
        c.s("%s;" % call.replace("apply(f", "apply([](auto ...) {}"))
        for s in srcs:
            for i, e in enumerate(s.es):
                g = ("std::get<%d>(%s)" if s.what != "stdx" else "stdx::get<%d>(%s)") % (i, s.name)
                c.eq("vb::rd(%s)" % g, -1 if s.cat == "r" and e.moves else e.rd,
                     "source after a by-value call")
    if t.chance(1, 3):
        # the function is called as what it was given as
        c.d("struct marked { int operator()(auto &&...) & { return 1; } int operator()(auto &&...) const & { return 2; } int operator()(auto &&...) && { return 3; } };")
        c.s("marked mf{}; marked const cf{};")
        for f, want in [("mf", 1), ("cf", 2), ("std::move(mf)", 3)]:
            c.eq("(%s).apply(%s)" % (srcs[0].arg, f) if member else "stdx::apply(%s%s)" % (f, arglist(srcs)), want, "way of calling %s" % f)
    c.nontrivial = total >= 2
    c.labels.add("apply")


def gen_transform(t, c):
    m = t.weighted([(4, 1), (4, 2), (2, 3)])
    srcs = [Src(t, c, allow_array=False)] + [Src(t, c) for _ in range(m - 1)]
    n = min(len(s.es) for s in srcs)
    out = srcs[0].what
    c.note("transform over %s" % ", ".join(s.show() for s in srcs))
    c.s("vb::args log; int calls = 0;")
    kind = t.choose(5)
    types, vals = [], []
    sums = [sum(s.es[i].rd for s in srcs) for i in range(n)]
    head = "[&]<typename X, typename... Xs>(X &&x, Xs &&...xs)"
    pre = "++calls; vb::put(log, std::forward<X>(x), std::forward<Xs>(xs)...); "
    if kind == 2 and not (srcs[0].cat == "r" or all(e.copyable for e in srcs[0].es[:n])):
        kind = 0
    if kind == 0:
        f = head + " { " + pre + "return vb::sum(x, xs...); }"
        types = ["long"] * n
        vals = sums
    elif kind == 1:
        f = head + " -> X && { " + pre + "return std::forward<X>(x); }"
        types = [ref(srcs[0].at(i)) for i in range(n)]
        vals = [e.rd for e in srcs[0].es[:n]]
    elif kind == 2:
        f = head + " { " + pre + "return std::remove_cvref_t<X>(std::forward<X>(x)); }"
        types = [e.value_type for e in srcs[0].es[:n]]
        vals = [e.rd for e in srcs[0].es[:n]]
    elif kind == 3:
        f = head + (" { " + pre + "if constexpr (std::is_arithmetic_v<std::remove_cvref_t<X>>) { return vb::V<1>(int(vb::sum(x, xs...))); }"
                    " else { return short(vb::sum(x, xs...)); } }")
        types = ["vb::V<1>" if e.kind in ARITH else "short" for e in srcs[0].es[:n]]
        vals = sums
    else:
        f = "[&, k = 0]<typename... Xs>(Xs &&...xs) mutable { ++calls; vb::put(log, std::forward<Xs>(xs)...); return ++k; }"
        types = ["int"] * n
        vals = list(range(1, n + 1))
    if t.flip():
        c.s("auto f = %s;" % f)
        f = "f"
    c.s("auto const r = stdx::transform(%s%s);" % (f, arglist(srcs)))
    c.same("decltype(r)", "%s::tuple<%s> const" % (out, ", ".join(types)), "type of the result")
    for i in range(n):
        g = "%s::get<%d>(r)" % (out, i)
        if kind == 1:
            src = "%s::get<%d>(%s)" % (out, i, srcs[0].name)
            c.chk("&%s == &%s" % (g, src), "element %d is the one the function returned" % i)
        c.eq("vb::rd(%s)" % g, vals[i], "element %d" % i)
    if kind == 2:
        for i, e in enumerate(srcs[0].es):
            moved = i < n and srcs[0].cat == "r" and e.moves
            c.eq("vb::rd(%s::get<%d>(%s))" % (out, i, srcs[0].name), -1 if moved else e.rd, "source after transform")
    c.eq("calls", n, "calls")
    c.chk("log == (%s)" % expected_log(srcs, n), "arguments of transform")
    c.nontrivial = n >= 2


def gen_for_each(t, c):
    enum = t.flip()
    m = t.weighted([(4, 1), (4, 2), (2, 3)])
    unrolled = t.flip()
    srcs = [Src(t, c, allow_array=unrolled or k > 0) for k in range(m)]
    n = min(len(s.es) for s in srcs)
    name = ("unrolled_" if unrolled else "") + ("enumerate" if enum else "for_each")
    c.note("%s over %s" % (name, ", ".join(s.show() for s in srcs)))
    c.s("vb::args log; std::vector<int> order;")
    c.d("struct fn { vb::args *log; std::vector<int> *order; int calls{0};")
    if enum:
        c.d("template <std::size_t I, typename... Xs> void operator()(Xs &&...xs) { order->push_back(int(I)); ++calls; "
            "vb::put(*log, std::forward<Xs>(xs)...); } };")
    else:
        c.d("template <typename... Xs> void operator()(Xs &&...xs) { order->push_back(calls); ++calls; "
            "vb::put(*log, std::forward<Xs>(xs)...); } };")
    lv = t.flip()
    if lv:
        c.s("fn f{&log, &order};")
        c.s("auto &&r = stdx::%s(f%s);" % (name, arglist(srcs)))
        c.chk("&r == &f", "the function passed is returned")
    else:
        c.s("auto const r = stdx::%s(fn{&log, &order}%s);" % (name, arglist(srcs)))
    c.eq("r.calls", n, "calls seen by the returned function")
    c.chk("log == (%s)" % expected_log(srcs, n), "arguments")
    c.chk("order == (std::vector<int>{%s})" % ", ".join(map(str, range(n))), "positions")
    c.nontrivial = n >= 2
    c.labels.add(name)


def gen_pred(t, c):
    m = t.weighted([(4, 1), (3, 2), (2, 3)])
    unrolled = t.flip()
    srcs = [Src(t, c, allow_array=unrolled or k > 0) for k in range(m)]
    n = min(len(s.es) for s in srcs)
    sums = [sum(s.es[i].rd for s in srcs) for i in range(n)]
    mode = t.choose(4)
    if mode == 0:
        good = set()
    elif mode == 1:
        good = set(sums)
    elif mode == 2 and n:
        good = {sums[t.choose(n)]}
    elif n:
        good = set(sums) - {sums[t.choose(n)]}
    else:
        good = set()
    c.note("predicates%s over %s, true on %s" % (" (unrolled)" if unrolled else "",
                                                  ", ".join(s.show() for s in srcs), sorted(good)))
    test = " or ".join("s == %d" % g for g in sorted(good)) or "false"
    rt = t.pick(["bool", "int"])
    c.s("vb::args log;")
    c.s("auto const p = [&](auto &&...xs) -> %s { vb::put(log, std::forward<decltype(xs)>(xs)...); "
        "[[maybe_unused]] long const s = vb::sum(xs...); return (%s)%s; };" % (rt, test, " ? 4 : 0" if rt == "int" else ""))
    truth = [s in good for s in sums]
    c.s("auto const full = %s;" % expected_log(srcs, n))
    for nm, v in (("all_of", all(truth)), ("any_of", any(truth)), ("none_of", not any(truth))):
        c.s("log.clear();")
        c.chk("stdx::%s%s(p%s) == %s" % ("unrolled_" if unrolled else "", nm, arglist(srcs), str(v).lower()), nm)
        c.chk("log.size() <= full.size() and std::equal(log.begin(), log.end(), full.begin())", "arguments of " + nm)
        # a result that depends on every position needs every call
        if v == (nm != "any_of"):
            c.chk("log.size() == full.size()", nm + " looks at every position")
    c.nontrivial = n >= 2
    c.labels.add("predicates")


def gen(t, c):
    k = t.choose(4)
    [gen_apply, gen_transform, gen_for_each, gen_pred][k](t, c)
