from .tup import *


def access(t, c, es, x):
    for i, e in enumerate(es):
        for form, cat in [("get<%d>(%s)", "l"), ("get<%d>(std::as_const(%s))", "cl"), ("get<%d>(std::move(%s))", "r")]:
            ex = "stdx::" + form % (i, x)
            c.same("decltype(%s)" % ex, e.on(cat), "type of " + ex)
        form = t.pick(["stdx::get<%d>(%s)", "%s[stdx::index<%d>]", "%s[%d_idx]"])
        a = (i, x) if form.startswith("stdx::get") else (x, i)
        c.eq("vb::rd(%s)" % (form % a), e.rd, "element %d" % i)
        c.same("decltype(%s)" % (form % a), e.on("l"), "type of element %d" % i)
        b = (i, "std::as_const(%s)" % x) if form.startswith("stdx::get") else ("std::as_const(%s)" % x, i)
        c.same("decltype(%s)" % (form % b), e.on("cl"), "type of element %d, const" % i)
        b = (i, "std::move(%s)" % x) if form.startswith("stdx::get") else ("std::move(%s)" % x, i)
        c.same("decltype(%s)" % (form % b), e.on("r"), "type of element %d, rvalue" % i)
        if e.ref:
            c.chk("&%s == &%s" % (form % a, e.var), "element %d refers to its object" % i)
        if [f.type for f in es].count(e.type) == 1:
            ex = "stdx::get<%s>(%s)" % (e.type, x)
            c.chk("&%s == &%s" % (ex, form % a), "element of type %s" % e.type)
            c.same("decltype(%s)" % ex, e.on("l"), "type of " + ex)
            ex = "stdx::get<%s>(std::as_const(%s))" % (e.type, x)
            c.same("decltype(%s)" % ex, e.on("cl"), "type of " + ex)
            c.chk("&%s == &%s" % (ex, form % a), "element of type %s, const" % e.type)
            ex = "stdx::get<%s>(std::move(%s))" % (e.type, x)
            c.same("decltype(%s)" % ex, e.on("r"), "type of " + ex)
    c.chk("%s.size() == %d and %s.empty() == %s" % (x, len(es), x, str(not es).lower()), "size")
    c.chk("stdx::tuple_size_v<decltype(%s)> == %d" % (x, len(es)), "tuple_size_v")
    c.chk("(std::tuple_size_v<decltype(%s)>) == %d" % (x, len(es)), "std::tuple_size_v")
    for i, e in enumerate(es):
        c.same("stdx::tuple_element_t<%d, decltype(%s)>" % (i, x), e.type, "tuple_element_t %d" % i)


def values(c, es, x, what):
    for i, e in enumerate(es):
        c.eq("vb::rd(stdx::get<%d>(%s))" % (i, x), e.rd, "%s, element %d" % (what, i))


def unpack(t, c, es, x):
    if not es:
        return
    names = [c.name("b") for _ in es]
    how = t.choose(4)
    if how == 0 and copyable(es):
        c.s("auto [%s] = %s;" % (", ".join(names), x))
    elif how == 1:
        c.s("auto const &[%s] = %s;" % (", ".join(names), x))
    else:
        c.s("auto &[%s] = %s;" % (", ".join(names), x))
        for i, b in enumerate(names):
            c.chk("&%s == &stdx::get<%d>(%s)" % (b, i, x), "binding %d is the element" % i)
    for e, b in zip(es, names):
        c.eq("vb::rd(%s)" % b, e.rd, "structured binding")
        want = e.type
        if how == 1 and not e.ref and not e.const:
            want += " const"
        c.same("decltype(%s)" % b, want, "type of a structured binding")


def construct(t, c, es):
    how = t.choose(5)
    if how == 0 and no_refs(es) and es:
        c.note("deduced tuple %s" % show(es))
        c.s("auto u = stdx::tuple{%s};" % ", ".join(e.expr for e in es))
        c.same("decltype(u)", "stdx::tuple<%s>" % ", ".join(e.value_type for e in es), "deduced type")
        values(c, es, "u", "deduced")
    elif how == 1:
        c.note("make_tuple %s" % show(es))
        c.s("auto u = stdx::make_tuple(%s);" % ", ".join(e.copy_expr for e in es))
        c.same("decltype(u)", "stdx::tuple<%s>" % ", ".join(e.value_type for e in es), "made type")
        values(c, es, "u", "made")
        for i, e in enumerate(es):
            if e.ref:
                c.chk("&stdx::get<%d>(u) != &%s" % (i, e.var), "make_tuple copies")
    elif how == 2 and es:
        c.note("forward_as_tuple %s" % show(es))
        vs = []
        for e in es:
            v = c.name("f")
            c.s("%s %s = %s;" % (e.value_type, v, e.copy_expr))
            vs.append((v, t.choose(3) if e.copyable else t.choose(2)))
        args = ", ".join([v, "std::move(%s)" % v, "std::as_const(%s)" % v][k] for v, k in vs)
        c.s("auto u = stdx::forward_as_tuple(%s);" % args)
        c.same("decltype(u)", "stdx::tuple<%s>" % ", ".join(
            e.value_type + [" &", " &&", " const &"][k] for e, (v, k) in zip(es, vs)), "forwarded type")
        for i, (v, k) in enumerate(vs):
            c.chk("&stdx::get<%d>(u) == &%s" % (i, v), "element %d is the argument" % i)
            c.same("decltype(stdx::get<%d>(std::move(u)))" % i,
                   es[i].value_type + [" &", " &&", " const &"][k], "forwarded element %d of a temporary" % i)
    elif how == 3 and es and no_refs(es):
        c.note("from named values %s" % show(es))
        vs = [c.name("n") for _ in es]
        for e, v in zip(es, vs):
            c.s("%s %s = %s;" % (e.type, v, e.expr))
        mv = [not e.copyable or t.flip() for e in es]
        c.s("%s u{%s};" % (tuple_type(es), ", ".join("std::move(%s)" % v if m else v for v, m in zip(vs, mv))))
        values(c, es, "u", "from named")
        for e, v, m in zip(es, vs, mv):
            c.eq("vb::rd(%s)" % v, -1 if m and e.kind[0] in "VML" else e.rd, "source after construction")
    elif how == 4 and all(k.kind not in ("M0", "M1") and not k.ref for k in es):
        c.note("value-initialized")
        c.s("%s u{};" % tuple_type(es))
        for i, e in enumerate(es):
            if e.kind == "ptr":
                c.chk("stdx::get<%d>(u) == nullptr" % i, "zero element %d" % i)
            else:
                c.eq("vb::rd(stdx::get<%d>(u))" % i, 0, "zero element %d" % i)


def transfer(t, c, es, x):
    how = t.choose(4)
    if how == 0 and copyable(es):
        c.note("copy")
        c.s("auto u = %s;" % x)
        values(c, es, "u", "copy")
        values(c, es, x, "source after copy")
        for i, e in enumerate(es):
            if e.ref:
                c.chk("&stdx::get<%d>(u) == &%s" % (i, e.var), "copied reference")
            elif e.kind in ("int", "long", "char", "double"):
                c.s("stdx::get<%d>(u) = 7;" % i)
                c.eq("vb::rd(stdx::get<%d>(%s))" % (i, x), e.rd, "copies are independent")
    elif how == 1:
        c.note("move")
        c.s("auto u = std::move(%s);" % x)
        values(c, es, "u", "move")
        for i, e in enumerate(es):
            c.eq("vb::rd(stdx::get<%d>(%s))" % (i, x), -1 if e.kind[0] in "VML" else e.rd, "source after move")
            if e.ref:
                c.chk("&stdx::get<%d>(u) == &%s" % (i, e.var), "moved reference")
        return True
    elif how == 2 and assignable(es) and copyable(es) and all(e.kind not in MOVE for e in es):
        c.note("copy assignment")
        c.s("%s u{};" % tuple_type(es))
        c.s("u = %s;" % x)
        values(c, es, "u", "copy assignment")
        values(c, es, x, "source after copy assignment")
    elif how == 3 and assignable(es):
        c.note("move assignment and writes")
        c.s("%s u{%s};" % (tuple_type(es), ", ".join(of_int(e.kind, str((e.v + 3) % 100)) for e in es)))
        c.s("u = std::move(%s);" % x)
        values(c, es, "u", "move assignment")
        for i, e in enumerate(es):
            c.eq("vb::rd(stdx::get<%d>(%s))" % (i, x), -1 if e.kind[0] in "VML" else e.rd, "source after move")
        if es:
            k = t.choose(len(es))
            e = es[k]
            nv = (e.v + 5) % 100
            c.s("u[stdx::index<%d>] = %s;" % (k, of_int(e.kind, str(nv))))
            for i, f in enumerate(es):
                c.eq("vb::rd(stdx::get<%d>(u))" % i, rd_of(e.kind, nv) if i == k else f.rd, "after a write")
        return True
    return False


MIX = [("int", "long"), ("int", "short"), ("char", "int"), ("long", "char"), ("int", "int"), ("V0", "V0"),
       ("double", "double"), ("double", "int"), ("bool", "bool"), ("E0", "E0"), ("M0", "M0"), ("En", "En"), ("ptr", "ptr"),
       ("kint", "int"), ("kV0", "V0"), ("kchar", "kchar"), ("nan", "nan"), ("nan", "int")]


def compare(t, c):
    n = t.range(0, 4)
    ks = [t.pick(MIX) for _ in range(n)]
    ks = [k if t.flip() else k[::-1] for k in ks]
    base = 3 if n <= 3 else 2
    c.note("compare <%s> with <%s>" % (",".join(k[0] for k in ks), ",".join(k[1] for k in ks)))
    types = [", ".join("double" if k[s] == "nan" else TYPE[k[s]] for k in ks) for s in (0, 1)]
    c.s("int a[%d]{}, b[%d]{};" % (n + 1, n + 1))
    total = base ** n
    c.s("for (int p = 0; p < %d; ++p) for (int q = 0; q < %d; ++q) {" % (total, total))
    c.s("    for (int i = 0, x = p, y = q; i < %d; ++i, x /= %d, y /= %d) { a[i] = x %% %d; b[i] = y %% %d; }" % (
        n, base, base, base, base))
    # a "nan" element is a double that is not a number for the last value
    def val(kind, e):
        if kind == "nan":
            return "(%s == %d ? std::numeric_limits<double>::quiet_NaN() : double(%s))" % (e, base - 1, e)
        return of_int(kind, e)
    mk = [", ".join(val(k[s], "%s[%d]" % ("ab"[s], i)) for i, k in enumerate(ks)) for s in (0, 1)]
    for lib, nm in (("stdx", "t"), ("std", "s")):
        for s in (0, 1):
            c.s("    %s::tuple<%s>%s %s%d{%s};" % (lib, types[s], " const" if t.flip() else "", nm, s, mk[s]))
    for op in ("==", "!=", "<", "<=", ">", ">="):
        c.chk("(t0 %s t1) == (s0 %s s1)" % (op, op), op)
    c.chk("(t0 <=> t1) == (s0 <=> s1)", "<=> is that of std::tuple")
    c.chk("((t0 <=> t1) < 0) == (s0 < s1) and ((t0 <=> t1) > 0) == (s0 > s1)", "<=>")
    c.s("}")
    has_double = any("double" in k or "nan" in k for k in ks)
    c.same("decltype(std::declval<stdx::tuple<%s> &>() <=> std::declval<stdx::tuple<%s> &>())" % tuple(types),
           "std::partial_ordering" if has_double else "std::strong_ordering", "comparison category")
    c.labels.add("compare")
    c.nontrivial = n >= 2


def folds(t, c, es, x):
    r = t.flip()
    how = t.choose(4)
    x = decl(c, es, "w")
    sx = "std::move(%s)" % x if r else x
    const = not r
    vals = [str(e.rd) for e in es]
    ref = ("std::is_lvalue_reference_v<decltype(%s)>" if not r else
           "(std::is_rvalue_reference_v<decltype(%s)> or std::is_lvalue_reference_v<decltype(%s)>)")
    c.s("int calls = 0;")
    c.s("auto const str = []<typename X>(X const &x) { if constexpr (std::is_same_v<X, std::string>) { return x; } "
        "else { return std::to_string(vb::rd(x)); } };")
    if how == 0:
        c.note("fold_left%s" % (" of a temporary" if r else ""))
        want = "i"
        for v in vals:
            want = "(%s %s)" % (want, v)
        c.s('auto const got = %s.fold_left(std::string{"i"}, [&](std::string acc, auto &&x) -> std::string { ++calls; '
            'return "(" + acc + " " + str(x) + ")"; });' % sx)
    elif how == 1:
        c.note("fold_right%s" % (" of a temporary" if r else ""))
        want = "i"
        for v in reversed(vals):
            want = "(%s %s)" % (v, want)
        c.s('auto const got = %s.fold_right(std::string{"i"}, [&](auto &&x, std::string acc) -> std::string { ++calls; '
            'return "(" + str(x) + " " + acc + ")"; });' % sx)
    else:
        if not es and how == 2:
            how = 3
        if (not r and not copyable(es)) or any(e.rref for e in es):
            return
        init = 'std::string{"none"}, ' if how == 3 else ""
        c.note("join%s%s" % (" with a default" if init else "", " of a temporary" if r else ""))
        want = vals[0] if vals else "none"
        for v in vals[1:]:
            want = "(%s %s)" % (want, v)
        c.s('auto const got = str(%s.join(%s[&](auto &&a, auto &&b) -> std::string { ++calls; '
            'return "(" + str(a) + " " + str(b) + ")"; }));' % (sx, init))
        if r:
            # elements that can only be moved, taken by value
            ms = [t.range(0, 50) for _ in range(t.range(1, 5))]
            w = ms[0]
            for v in ms[1:]:
                w = (w * 3 + v) % 1009
            c.s("auto const last = stdx::tuple{%s}.join(%s[](auto a, auto b) { return vb::M<3>(int((a.v * 3 + b.v) %% 1009)); });" % (
                ", ".join("vb::M<%d>(%d)" % (t.choose(2), v) for v in ms), "vb::M<3>(0), " if init else ""))
            c.eq("last.v", w, "joining values that can only be moved")
    c.chk('got == std::string{"%s"}' % want, "folded value")
    c.eq("calls", len(es) if how < 2 else max(0, len(es) - 1), "number of calls")
    if how < 2 and es:
        # the element category given to the function
        c.s("%s u{%s};" % (tuple_type(es), ", ".join(e.expr for e in es)))
        lam = "[&]<typename A, typename X>(A acc, X &&) { return acc * 2 + (std::is_lvalue_reference_v<X> ? 1 : 0); }"
        if how == 1:
            lam = "[&]<typename X, typename A>(X &&, A acc) { return acc * 2 + (std::is_lvalue_reference_v<X> ? 1 : 0); }"
        w = 0
        for e in (es if how == 0 else es[::-1]):
            w = w * 2 + (1 if (not r or (e.ref and not e.rref)) else 0)
        c.eq("%s.fold_%s(0LL, %s)" % ("std::move(u)" if r else "u", ["left", "right"][how], lam), "%dLL" % w,
             "value categories seen by the fold function")
        # a running value that can only be moved
        c.s("%s m{%s};" % (tuple_type(es), ", ".join(e.expr for e in es)))
        par = ["vb::M<3> acc, auto &&x", "auto &&x, vb::M<3> acc"][how]
        v = t.choose(20)
        w = v
        for e in (es if how == 0 else es[::-1]):
            w = (w * 3 + e.rd) % 1009
        c.s("auto const last = %s.fold_%s(vb::M<3>(%d), [](%s) { return vb::M<3>(int((acc.v * 3 + vb::rd(x)) %% 1009)); });" % (
            "std::move(m)" if r else "m", ["left", "right"][how], v, par))
        c.eq("last.v", w, "folding a value that can only be moved")


def gen(t, c):
    c.s("using namespace stdx::literals;")
    if t.chance(1, 5):
        return compare(t, c)
    n = t.weighted([(1, 0), (2, 1), (4, 2), (4, 3), (3, 4), (2, 5), (1, 7)])
    if n == 7 and t.chance(1, 3):
        n = t.range(8, 40)
    es = elems(t, c, n, VALUE + MOVE + REF + CONST + RREF)
    x = decl(c, es)
    c.note("tuple %s" % show(es))
    access(t, c, es, x)
    unpack(t, c, es, x)
    if t.flip():
        c.s("{")
        construct(t, c, es)
        c.s("}")
    if t.flip():
        c.s("{")
        folds(t, c, es, x)
        c.s("}")
    c.s("{")
    transfer(t, c, es, x)
    c.s("}")
    c.nontrivial = n >= 2
    for e in es:
        c.labels.add(e.kind)
