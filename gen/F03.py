from .tup import TYPE

# (declared parameter type, type in the signature, decayed)
PARAMS = [("int", "int", "int"), ("long &", "long &", "long"), ("char const &", "char const &", "char"),
          ("vb::V<0>", "vb::V<0>", "vb::V<0>"), ("vb::M<0> &&", "vb::M<0> &&", "vb::M<0>"), ("double const", "double", "double"),
          ("int *", "int *", "int *"), ("int const *", "int const *", "int const *"), ("int *const", "int *", "int *"),
          ("vb::E<0> const &&", "vb::E<0> const &&", "vb::E<0>"), ("std::string const &", "std::string const &", "std::string"),
          ("vb::ar3 &", "int (&)[3]", "int *"), ("vb::ar3", "int *", "int *"), ("vb::fun &", "void (&)(int)", "void (*)(int)"),
          ("vb::fun", "void (*)(int)", "void (*)(int)"), ("bool volatile &", "bool volatile &", "bool")]
RETURNS = ["void", "int", "int &", "int const &", "vb::V<0>", "vb::M<0> &&", "char const *", "std::string", "vb::ar3 &"]
QUALS = ["", "const", "volatile", "const volatile", "&", "const &", "volatile &", "const volatile &",
         "&&", "const &&", "volatile &&", "const volatile &&"]


def queries(t, c, F, ret, ps, obj, what):
    n = len(ps)
    c.same("stdx::return_t<%s>" % F, ret, what + ": return type")
    c.same("stdx::args_t<%s, vb::list>" % F, "vb::list<%s>" % ", ".join(p[1] for p in ps), what + ": arguments")
    c.same("stdx::decayed_args_t<%s, std::tuple>" % F, "std::tuple<%s>" % ", ".join(p[2] for p in ps), what + ": decayed arguments")
    c.chk("(stdx::arity_v<%s>) == %d and (stdx::arity_t<%s>::value) == %d" % (F, n, F, n), what + ": arity")
    c.same("stdx::obj_arg_t<%s>" % F, obj, what + ": object")
    for i, p in enumerate(ps):
        c.same("stdx::nth_arg_t<%s, %d>" % (F, i), p[1], "%s: argument %d" % (what, i))
        c.same("stdx::decayed_nth_arg_t<%s, %d>" % (F, i), p[2], "%s: decayed argument %d" % (what, i))


def traits(t, c):
    ps = [t.pick(PARAMS) for _ in range(t.weighted([(1, 0), (2, 1), (3, 2), (3, 3), (1, 5)]))]
    ret = t.pick(RETURNS)
    ne = t.pick(["", " noexcept"])
    sig = ", ".join(p[0] for p in ps)
    named = ", ".join("%s p%d" % (p[0], i) for i, p in enumerate(ps))
    body = "{ std::abort(); }"
    how = t.choose(6)
    c.note("%s (%s)%s as %s" % (ret, sig, ne, ["function", "pointer", "member pointer", "lambda", "function object",
                                               "static function object"][how]))
    if how == 0:
        c.d("%s fn(%s)%s;" % (ret, named, ne))
        queries(t, c, "decltype(fn)", ret, ps, "void", "function")
    elif how == 1:
        q = t.pick(["", " const", " volatile", " const volatile"])
        c.d("using ptr = %s (*)(%s)%s;" % (ret, sig, ne))
        queries(t, c, "ptr" + q, ret, ps, "void", "pointer")
    elif how == 2:
        q = t.pick(QUALS)
        c.d("struct cls { %s mem(%s) %s%s; };" % (ret, named, q, ne))
        queries(t, c, "decltype(&cls::mem)", ret, ps, "cls " + q, "member")
    elif how == 3:
        mut = t.pick(["", " mutable"])
        cap = t.pick(["[]", "[k = 3]"]) if True else ""
        if mut and cap == "[]":
            cap = "[k = 1]"
        c.s("auto lam = %s(%s)%s%s -> %s %s;" % (cap, named, mut, ne, ret, body))
        F = "decltype(lam)" + t.pick(["", " &", " const &", " &&", " const"])
        queries(t, c, F, ret, ps, "std::remove_cvref_t<decltype(lam)>" + ("" if mut else " const"), "lambda")
    elif how == 4:
        q = t.pick(QUALS)
        c.d("struct obj { %s operator()(%s) %s%s; };" % (ret, named, q, ne))
        F = "obj" + t.pick(["", " &", " const &", " &&"])
        queries(t, c, F, ret, ps, "obj " + q, "function object")
    else:
        q = t.pick(["", "const", "&", "const &", "&&"])
        # a generic call operator still has an arity
        n = t.weighted([(4, t.range(0, 4)), (1, t.range(5, 12))])
        nullary = n == 0 and t.flip()
        forms = [t.pick(["auto", "auto &&", "auto const &", "int", "char const &"]) for _ in range(n)]
        if nullary:
            c.note("no parameters, a template %s" % q)
            c.d("struct nobj { template <typename T = int> T operator()() %s; };" % q)
            F = "nobj" + (t.pick(["", " &&"]) if q == "&&" else t.pick(["", " &"]))
            c.chk("(stdx::arity_v<%s>) == 0" % F, "arity of a template without parameters")
            c.labels.add("traits")
            c.nontrivial = True
            return
        if n == 0 or not any(f.startswith("auto") for f in forms):
            forms.append("auto")
            n += 1
        c.note("generic (%s) %s" % (", ".join(forms), q))
        rt = t.pick(["void", "int", "auto"])
        bd = "" if rt == "void" else "return 0;"
        if t.flip():
            c.s("auto gen = [](%s) -> %s { %s };" % (", ".join("%s" % f for f in forms), rt, bd))
            c.chk("(stdx::arity_v<decltype(gen)>) == %d" % n, "arity of a generic lambda")
            c.chk("(stdx::arity_v<decltype(gen) const &>) == %d" % n, "arity of a generic lambda")
        else:
            tp = ["T%d" % i for i, f in enumerate(forms) if f.startswith("auto")]
            pl = [f.replace("auto", "T%d" % i) for i, f in enumerate(forms)]
            c.d("struct gobj { template <%s> %s operator()(%s) %s { %s } };" % (
                ", ".join("typename " + x for x in tp), rt, ", ".join(pl), q, bd))
            c.chk("(stdx::arity_v<gobj>) == %d" % n, "arity of a generic function object")
    c.nontrivial = len(ps) >= 1
    c.labels.add("traits")


VALS = ["int", "V0", "M0", "char", "E0", "double"]
CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}
SUF = {"l": " &", "cl": " const &", "r": " &&"}


def batches(t, c):
    from .tup import of_int, rd_of
    size = t.range(1, 4)
    rows = t.range(0, 4)
    # every row uses the same types so that a fixed signature fits
    cols = [(t.pick(VALS), t.pick(["l", "cl", "r"])) for _ in range(size)]
    args, want = [], []
    for r in range(rows):
        for k, cat in cols:
            v = 10 + t.choose(80)
            nm = c.name("a")
            c.s("%s %s = %s;" % (TYPE[k], nm, of_int(k, str(v))))
            args.append(CAT[cat] % nm)
            want.append("vb::as<%s>(%d)" % (TYPE[k] + SUF[cat], rd_of(k, v)))
    how = t.choose(5)
    c.d("static vb::args *log; static int calls;")
    c.s("vb::args seen; log = &seen; calls = 0;")
    sig = ", ".join("%s p%d" % (TYPE[k] + SUF[cat], i) for i, (k, cat) in enumerate(cols))
    fwd = ", ".join("static_cast<%s>(p%d)" % (TYPE[k] + SUF[cat], i) for i, (k, cat) in enumerate(cols))
    names = ["lambda", "function", "pointer", "generic with a size", "defaults with a size"]
    c.note("for_each_n_args, %s, %d rows of %s" % (names[how], rows, cols))
    al = "".join(", " + a for a in args)
    if how == 0:
        ne = t.pick(["", " noexcept"])
        c.s("auto f = [](%s)%s { ++calls; vb::put(*log, %s); };" % (sig, ne, fwd))
        c.s("stdx::for_each_n_args(%s%s);" % (t.pick(["f", "std::as_const(f)", "std::move(f)"]), al))
    elif how == 1:
        c.d("static void f(%s) { ++calls; vb::put(*log, %s); }" % (sig, fwd))
        c.s("stdx::for_each_n_args(f%s);" % al)
    elif how == 2:
        c.d("static void f(%s) { ++calls; vb::put(*log, %s); }" % (sig, fwd))
        c.s("auto const p = &f;")
        c.s("stdx::for_each_n_args(p%s);" % al)
    elif how == 3:
        c.s("auto f = [n = 0](auto &&...xs) mutable { ++calls; ++n; vb::put(*log, std::forward<decltype(xs)>(xs)...); };")
        c.s("stdx::for_each_n_args<%d>(f%s);" % (size, al))
    else:
        c.s("auto f = [](%s, int extra = 5) { ++calls; CHK_EQ(extra, 5, \"default argument\"); vb::put(*log, %s); };" % (sig, fwd))
        c.s("stdx::for_each_n_args<%d>(f%s);" % (size, al))
    c.eq("calls", rows, "number of calls")
    c.chk("seen == (vb::args{%s})" % ", ".join(want), "arguments in order")
    c.nontrivial = rows >= 2
    c.labels.add("batches")


def gen(t, c):
    t.weighted([(3, traits), (2, batches)])(t, c)
