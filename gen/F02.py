from .tup import *

CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}


def call_args(t, c, n, tag):
    """Arguments given at the call: (expression, type with category, rd)"""
    out = []
    for _ in range(n):
        e = El(c, t.pick(VALUE + MOVE), 10 + t.choose(80))
        v = c.name(tag)
        c.s("%s %s = %s;" % (e.type, v, e.expr))
        cat = t.pick(["l", "cl", "r"])
        out.append((CAT[cat] % v, e.on(cat), e.rd, v, e, cat))
    return out


RET = ["long", "int &", "int const &", "vb::M<0>", "void", "int &&"]


def bind(t, c):
    nb = t.weighted([(1, 0), (4, 1), (4, 2), (2, 3)])
    nc = t.weighted([(2, 0), (4, 1), (3, 2), (1, 3)])
    which = t.pick(["bind_front", "bind_back"])
    how = t.choose(3)  # function object, template argument: function pointer, lambda
    bound = []
    for _ in range(nb):
        e = El(c, t.pick(VALUE + MOVE + ["iref", "vref"]), 10 + t.choose(80))
        if e.ref:
            bound.append((e.var, e, False))
            continue
        v = c.name("b")
        c.s("%s %s = %s;" % (e.type, v, e.expr))
        mv = not e.copyable or t.flip()
        bound.append(("std::move(%s)" % v if mv else v, e, mv))
    ret = t.pick(RET)
    c.d("static vb::args *log; static int target; static int calls; static int self;")
    body = {"long": "return vb::sum(xs...);", "void": "", "vb::M<0>": "return vb::M<0>(int(vb::sum(xs...)));",
            "int &&": "target = int(vb::sum(xs...)); return std::move(target);"}.get(
                ret, "target = int(vb::sum(xs...)); return target;")
    c.d("template <typename... Xs> %s work(Xs &&...xs) { ++calls; vb::put(*log, std::forward<Xs>(xs)...); %s }" % (ret, body))
    only = how == 0 and t.chance(1, 3)  # a function object which can only be moved
    c.d("struct fn { int id = 3;" + (" vb::M<7> own{5};" if only else ""))
    for q, k in (("&", 0), ("const &", 1), ("&&", 2)):
        c.d("template <typename... Xs> %s operator()(Xs &&...xs) %s { self = id * 10 + %d; return work(std::forward<Xs>(xs)...); }" % (
            ret, q, k))
    c.d("};")
    c.s("vb::args seen; log = &seen; calls = 0; self = -1;")
    cat = t.pick(["l", "cl", "r"])
    bl = [(e.value_type + {"l": " &", "cl": " const &", "r": " &&"}[cat], e.rd) for _, e, _ in bound]
    blist = ", ".join(b[0] for b in bound)
    ca = call_args(t, c, nc, "a")
    order = (bl + [(a[1], a[2]) for a in ca]) if which == "bind_front" else ([(a[1], a[2]) for a in ca] + bl)
    if how == 0:
        c.s("auto g = stdx::%s(fn{}%s);" % (which, ", " + blist if blist else ""))
    elif how == 1:
        sig = ", ".join(o[0] for o in order)
        c.d("static %s ptr(%s) { return work(%s); }" % (
            ret, ", ".join("%s p%d" % (o[0], i) for i, o in enumerate(order)),
            ", ".join("static_cast<%s>(p%d)" % (o[0], i) for i, o in enumerate(order))))
        c.s("auto g = stdx::%s<ptr>(%s);" % (which, blist))
    else:
        c.s("constexpr auto lam = []<typename... Xs>(Xs &&...xs) -> %s { return work(std::forward<Xs>(xs)...); };" % ret)
        c.s("auto g = stdx::%s<lam>(%s);" % (which, blist))
    # the binding holds its own values
    for ex, e, mv in bound:
        v = e.var or ex.replace("std::move(", "").replace(")", "")
        c.eq("vb::rd(%s)" % v, -1 if mv and e.kind[0] in "VML" else e.rd, "argument after binding")
        if not mv and e.kind not in ("E0", "E1") and t.flip() and e.kind != "icref":
            c.s("%s = %s;" % (v, of_int({"iref": "int", "vref": "V0"}.get(e.kind, e.kind), "1")))
    c.note("%s (%s), bound %s, call %s on %s, returns %s" % (
        which, ["object", "function pointer", "lambda"][how], [(e.kind, e.rd) for _, e, _ in bound],
        [(a[4].kind, a[5]) for a in ca], cat, ret))
    reps = 1 if cat == "r" else t.range(1, 2)
    for _ in range(reps):
        c.s("seen.clear(); calls = 0; self = -1;")
        ex = "(%s)(%s)" % (CAT[cat] % "g", ", ".join(a[0] for a in ca))
        c.same("decltype(%s)" % ex, ret, "type of the result")
        if ret == "void":
            c.s(ex + ";")
        else:
            c.s("{ decltype(auto) res = %s;" % ex)
            c.eq("vb::rd(res)", sum(o[1] for o in order), "result")
            if ret.endswith("&"):
                c.chk("&res == &target", "the result is the function's own")
            c.s("}")
        c.eq("calls", 1, "calls")
        c.chk("seen == (vb::args{%s})" % ", ".join("vb::as<%s>(%d)" % o for o in order), "arguments")
        if how == 0:
            c.eq("self", 30 + {"l": 0, "cl": 1, "r": 2}[cat], "the function object and its category")
    c.nontrivial = len(order) >= 2
    c.labels.add(which)


def overload(t, c):
    ks = []
    for k in t.shuffle(["V0", "V1", "V2", "M0", "E0", "En", "ptr", "E1"])[:t.range(1, 5)]:
        ks.append(k)
    form = [t.pick(["%s const &", "%s &&", "%s &"]) for _ in ks]
    c.note("overload of %s" % ", ".join(f % k for f, k in zip(form, ks)))
    lams = ["[&](%s x) -> long { order.push_back(%d); return vb::rd(x); }" % (f % TYPE[k], i) for i, (k, f) in enumerate(zip(ks, form))]
    other = t.flip()
    if other:
        lams.append("[&](auto const &...) -> long { order.push_back(99); return 0; }")
    c.s("std::vector<int> order;")
    c.s("auto o = stdx::overload{%s};" % ", ".join(lams))
    want = []
    for i in [t.choose(len(ks)) for _ in range(t.range(1, 5))]:
        k, f = ks[i], form[i]
        v = t.choose(90)
        nm = c.name("x")
        c.s("%s %s = %s;" % (TYPE[k], nm, of_int(k, str(v))))
        # arguments that match the listed form exactly
        arg = {"%s const &": "std::as_const(%s)", "%s &&": "std::move(%s)", "%s &": "%s"}[f] % nm
        c.eq("o(%s)" % arg, rd_of(k, v), "overload result")
        want.append(i)
    if other:
        c.eq("o(1L, 2L)", 0, "fallback")
        want.append(99)
    c.chk("order == (std::vector<int>{%s})" % ", ".join(map(str, want)), "which overloads ran")
    c.nontrivial = len(ks) >= 2
    c.labels.add("overload")


def lazy(t, c):
    c.d("struct pinned { int v; explicit pinned(int x) : v{x} {} pinned(pinned const &) = delete; pinned &operator=(pinned const &) = delete; };")
    c.s("int made = 0; int const_calls = 0;")
    v = t.choose(90)
    how = t.choose(7)
    kind = t.pick(["int", "V0", "M0", "pinned"])
    ty = "pinned" if kind == "pinned" else TYPE[kind]
    val = "x.v" if kind == "pinned" else "vb::rd(x)"
    c.note("with_result_of %s, use %d" % (kind, how))
    mk = "[&]() -> %s { ++made; return %s{%d}; }" % (ty, ty, v)
    runs = 0
    if how == 0:
        c.s("auto w = stdx::with_result_of{%s};" % mk)
        c.eq("made", 0, "nothing runs before use")
        n = t.range(1, 4)
        for i in range(n):
            c.s("{ %s x = %s;" % (ty, t.pick(["w", "std::as_const(w)", "std::move(w)"])))
            c.eq(val, v, "value")
            c.eq("made", i + 1, "runs")
            c.s("}")
        runs = n
    elif how == 1:
        keys = [t.choose(4) for _ in range(t.range(2, 7))]
        c.s("std::map<int, %s> m; long n = 0;" % ty)
        seen = []
        for k in keys:
            c.s("m.try_emplace(%d, stdx::with_result_of{[&]() -> %s { ++made; return %s{%d}; }});" % (k, ty, ty, k + 20))
            if k not in seen:
                seen.append(k)
            c.eq("made", len(seen), "runs only for new keys")
        c.s("for (auto const &[k, x] : m) { CHK_EQ(%s, k + 20, \"stored value\"); }" % val)
        runs = len(seen)
    elif how == 2:
        c.s("std::optional<%s> o;" % ty)
        if t.flip():
            c.s("o.emplace(stdx::with_result_of{%s});" % mk)
            runs = 1
            c.s("{ auto const &x = *o;")
            c.eq(val, v, "value")
            c.s("}")
        else:
            c.s("[[maybe_unused]] auto w = stdx::with_result_of{%s};" % mk)
    elif how == 3:
        n = t.range(1, 5)
        c.s("std::deque<%s> d;" % ty)
        for i in range(n):
            c.s("d.emplace_back(stdx::with_result_of{[&]() -> %s { ++made; return %s{made}; }});" % (ty, ty))
        for i in range(n):
            c.s("{ auto const &x = d[%d];" % i)
            c.eq(val, i + 1, "value in order")
            c.s("}")
        runs = n
    elif how == 4:
        c.d("struct cnt { int *a; int *b; int operator()() const { ++*a; return 7; } int operator()() { ++*b; return 8; } };")
        c.s("int b = 0; auto w = stdx::with_result_of{cnt{&made, &b}};")
        runs = t.choose(3)
        o = t.choose(3)
        for _ in range(runs):
            c.eq("static_cast<int>(std::as_const(w))", 7, "const conversion")
        for _ in range(o):
            c.eq("static_cast<int>(w)", 8, "mutable conversion")
        c.eq("b", o, "runs of the mutable function")
    elif how == 5:
        # a function object that keeps state: the one wrapped is the one called
        c.d("struct ctr { int n; int *a; int operator()() { ++*a; return ++n; } ctr(int x, int *p) : n{x}, a{p} {} ctr(ctr const &) = delete; ctr(ctr &&o) : n{o.n}, a{o.a} { o.n = 1000; } };"
            if t.flip() else "struct ctr { int n; int *a; int operator()() { ++*a; return ++n; } };")
        c.s("auto w = stdx::with_result_of{ctr{%d, &made}};" % v)
        runs = t.range(1, 4)
        for i in range(runs):
            c.eq("static_cast<int>(%s)" % t.pick(["w", "std::move(w)"]), v + i + 1, "result of run %d" % (i + 1))
    else:
        c.s("auto const f = [&](%s x) { return %s; };" % (ty, val))
        c.eq("f(stdx::with_result_of{%s})" % mk, v, "as a function argument")
        c.s("int y = 3; auto w = stdx::with_result_of{[&]() -> int & { ++made; return y; }};")
        c.s("int &z = w;")
        c.chk("&z == &y", "reference result")
        runs = 2
    c.eq("made", runs, "total runs")
    c.nontrivial = runs >= 1
    c.labels.add("lazy")


def plain(t, c):
    what = t.choose(4)
    if what == 0:
        c.note("unary_plus")
        c.d("struct up { int v; int operator+() & { return v; } long operator+() const & { return v + 100; } "
            "vb::V<0> operator+() && { return vb::V<0>(v + 200); } };")
        for ty, res in t.shuffle([("char", "int"), ("short", "int"), ("bool", "int"), ("int", "int"), ("unsigned", "unsigned"),
                                  ("long", "long"), ("float", "float"), ("double", "double"), ("std::uint8_t", "int")])[:4]:
            v = t.choose(2 if ty == "bool" else 100)
            for p in ("stdx::unary_plus<>{}", "stdx::unary_plus<%s>{}" % ty):
                c.s("{ %s x{%d};" % (ty, v))
                c.same("decltype(%s(x))" % p, res, "type of + on " + ty)
                c.chk("%s(x) == static_cast<%s>(%d)" % (p, res, v), "value of + on " + ty)
                c.chk("%s(std::as_const(x)) == static_cast<%s>(%d)" % (p, res, v), "value of + on const " + ty)
                c.s("}")
        v = t.choose(90)
        for p in ("stdx::unary_plus<>{}", "stdx::unary_plus<up>{}"):
            c.s("{ up x{%d};" % v)
            c.eq("%s(x)" % p, v, "lvalue +")
            c.eq("%s(std::as_const(x))" % p, v + 100, "const +")
            c.eq("vb::rd(%s(std::move(x)))" % p, v + 200, "rvalue +")
            c.s("}")
    elif what == 1:
        c.note("dereference")
        c.d("struct dr { int v; int operator*() & { return v; } long operator*() const & { return v + 100; } "
            "vb::V<0> operator*() && { return vb::V<0>(v + 200); } vb::V<1> operator*() const && { return vb::V<1>(v + 300); } };")
        e = El(c, t.pick(["int", "V0", "M0", "char"]), 10 + t.choose(80))
        c.s("%s x = %s; auto p = &x; std::unique_ptr<%s> u{new %s(%s)}; std::optional<%s> o{%s};" % (
            e.type, e.expr, e.type, e.type, e.expr, e.type, e.expr))
        for q in ("stdx::dereference<>{}", "stdx::dereference<%s>{}"):
            f = (lambda ty: q % ty if "%s" in q else q)
            c.chk("&%s(p) == &x" % f("%s *" % e.type), "pointer")
            c.same("decltype(%s(p))" % f("%s *" % e.type), "%s &" % e.type, "pointer")
            c.chk("&%s(std::as_const(p)) == &x" % f("%s *" % e.type), "const pointer")
            c.chk("&%s(u) == u.get()" % f("std::unique_ptr<%s>" % e.type), "smart pointer")
            for cat in ("l", "cl", "r"):
                c.same("decltype(%s(%s))" % (f("std::optional<%s>" % e.type), CAT[cat] % "o"), e.on(cat), "optional " + cat)
            c.chk("&%s(o) == &*o" % f("std::optional<%s>" % e.type), "optional")
            c.s("{ auto o2 = std::optional<%s>{%s}; auto y = %s(std::move(o2)); CHK_EQ(vb::rd(y), %d, \"value of an optional that is moved from\"); }" % (
                e.type, e.expr, f("std::optional<%s>" % e.type), e.rd))
            c.s("{ dr d{%d};" % e.rd)
            c.eq("%s(d)" % f("dr"), e.rd, "lvalue *")
            c.eq("%s(std::as_const(d))" % f("dr"), e.rd + 100, "const *")
            c.eq("vb::rd(%s(std::move(d)))" % f("dr"), e.rd + 200, "rvalue *")
            c.eq("vb::rd(%s(std::move(std::as_const(d))))" % f("dr"), e.rd + 300, "const rvalue *")
            c.s("}")
    elif what == 2:
        c.note("safe_identity")
        e = El(c, t.pick(VALUE + MOVE), 10 + t.choose(80))
        c.s("%s x = %s;" % (e.type, e.expr))
        c.same("decltype(stdx::safe_identity(x))", e.type + " &", "lvalue")
        c.same("decltype(stdx::safe_identity(std::as_const(x)))", e.type + " const &", "const lvalue")
        c.same("decltype(stdx::safe_identity(std::move(x)))", e.type, "rvalue")
        c.chk("&stdx::safe_identity(x) == &x and &stdx::safe_identity(std::as_const(x)) == &x", "identity of an lvalue")
        c.s("auto y = stdx::safe_identity(std::move(x));")
        c.eq("vb::rd(y)", e.rd, "moved value")
        c.eq("vb::rd(x)", -1 if e.kind[0] in "VML" else e.rd, "source of a moved value")
        if e.copyable:
            c.same("std::remove_cv_t<decltype(stdx::safe_identity(std::move(std::as_const(x))))>", e.type, "const rvalue")
    else:
        c.note("forward_like")
        e = El(c, t.pick(VALUE + MOVE), 10 + t.choose(80))
        c.s("%s x = %s;" % (e.type, e.expr))
        for T, tc, tl in [("char", 0, 0), ("char &", 0, 1), ("char const &", 1, 1), ("char &&", 0, 0), ("char const &&", 1, 0),
                          ("char const", 1, 0), ("vb::M<1> &", 0, 1)]:
            for u, uc in [("x", 0), ("std::as_const(x)", 1), ("std::move(x)", 0), ("std::move(std::as_const(x))", 1)]:
                want = e.type + (" const" if tc or uc else "") + (" &" if tl else " &&")
                ex = "stdx::forward_like<%s>(%s)" % (T, u)
                c.same("decltype(%s)" % ex, want, "type of " + ex)
                c.s("{ auto &&y = %s;" % ex)
                c.chk("&y == &x", "forward_like names the same object")
                c.s("}")
                c.same("stdx::forward_like_t<%s, decltype((%s))>" % (T, u), want, "forward_like_t<%s>" % T)
    c.nontrivial = True
    c.labels.add("plain")


def gen(t, c):
    t.weighted([(6, bind), (2, overload), (3, lazy), (2, plain)])(t, c)
