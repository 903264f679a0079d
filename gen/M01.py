POOL = ["int", "char", "bool", "double", "float", "unsigned", "long", "void", "int *", "int const", "int &", "int const &", "int &&",
        "vb::K<0>", "vb::K<1>", "vb::K<2>", "vb::V<0>", "vb::V<1>", "vb::E<0>", "vb::list<>", "vb::list<int>", "vb::list<vb::list<int>>",
        "vb::fun", "vb::fun *", "vbm::abstract", "vb::ar3", "std::pair<int, char>", "std::array<int, 3>", "vb::En", "std::nullptr_t", "int volatile",
        "int vb::V<0>::*", "stdx::type_list<int>", "stdx::value_list<1, 2>", "std::integral_constant<int, 3>", "std::string_view", "vb::ar3 const"]
VALS = ["0", "1", "2", "3", "-1", "42", "100000", "true", "false", "'a'", "'b'", "0u", "1u", "5ull", "-7ll", "vb::En{0}", "vb::En{1}", "nullptr",
        "vb::pool", "&vb::cur", "(short)1", "(unsigned char)1", "vb::E<0>{}", "vb::E<1>{}", "&vb::checks"]
ALIKE = [["0", "false", "0u", "nullptr", "vb::En{0}"], ["1", "true", "1u", "(short)1", "(unsigned char)1", "vb::En{1}"], ["int &", "int &&"]]


def apart(vals):
    """at most one of each group: gcc does not tell 1 from true, or T & from T &&, when it deduces from several bases"""
    out, used = [], set()
    for v in vals:
        k = next((i for i, a in enumerate(ALIKE) if v in a), None)
        if k is None or k not in used:
            out.append(v)
            used.add(k)
    return out


def maps(t, c):
    """a generated map and all its lookups"""
    kt, vt = t.flip(), t.flip()
    n = t.weighted([(1, 0), (2, 1), (4, 3), (3, 6), (1, 20)])
    kp = apart(t.shuffle(POOL if kt else VALS))
    vp = apart(t.shuffle([p for p in POOL if p != "void"] if vt else VALS))
    n = min(t.range(min(n, 1), n), len(kp) - 2, len(vp) - 2) if n else 0
    dup = t.chance(1, 3)
    pairs = []
    for i in range(n):
        v = pairs[t.choose(len(pairs))][1] if dup and pairs and t.flip() else vp[i]
        pairs.append((kp[i], v))
    pn = ("t" if kt else "v") + ("t" if vt else "v") + "_pair"
    if kt and vt and t.flip():
        pn = "type_pair"
    c.d("using M = stdx::type_map<%s>;" % ", ".join("stdx::%s<%s, %s>" % (pn, k, v) for k, v in pairs))
    c.note("map %s" % ", ".join("%s -> %s" % p for p in pairs))
    fwd = dict(pairs)
    rev = {}
    for k, v in pairs:
        rev.setdefault(v, []).append(k)

    def ask(name, q, hit, is_type, msg):
        dflt = t.pick(["vb::K<77>", "vb::list<char>"]) if is_type else t.pick(["77", "'z'", "vb::En{9}"])
        if is_type:
            c.same("stdx::%s_t<M, %s>" % (name, q), hit if hit is not None else "void", msg)
            c.same("stdx::%s_t<M, %s, %s>" % (name, q, dflt), hit if hit is not None else dflt, msg + " with a default")
        else:
            if hit is None:
                c.chk("stdx::%s_v<M, %s> == 0 and stdx::%s_v<M, %s, %s> == %s" % (name, q, name, q, dflt, dflt), msg)
            else:
                c.same("decltype(stdx::%s_v<M, %s>)" % (name, q), "std::remove_cvref_t<decltype(%s)> const" % hit if hit not in (
                    "vb::pool",) else "int const *const", msg + ": type")
                c.chk("stdx::%s_v<M, %s> == %s and stdx::%s_v<M, %s, %s> == %s" % (name, q, hit, name, q, dflt, hit), msg)
    for k in [p[0] for p in pairs] + kp[n:n + 2]:
        ask("type_lookup" if kt else "value_lookup", k, fwd.get(k), vt, "lookup of " + k)
    for v in [p[1] for p in pairs] + vp[n:n + 2]:
        if len(rev.get(v, [])) <= 1:
            ask("reverse_type_lookup" if vt else "reverse_value_lookup", v, rev.get(v, [None])[0], kt, "reverse lookup of " + v)
    c.nontrivial = n >= 2


def seqs(t, c):
    """iteration, application, selection"""
    kind = t.choose(4)
    n = t.weighted([(2, 0), (4, 1), (8, 4), (4, 9), (2, 30), (1, 300)])
    n = t.range(n - 30 if n > 30 else min(1, n), n) if n else 0
    if kind == 0:
        xs = [t.pick(POOL) for _ in range(n)]
        holder = t.pick(["stdx::type_list", "vb::list"])
        l, head, item = "%s<%s>" % (holder, ", ".join(xs)), "typename X", "X"
        want = "vb::list<%s>" % ", ".join(xs)
        w = ["&vb::tag_object<%s>" % x for x in xs]
        tag = "&vb::tag_object<X>"
    else:
        if kind == 1:
            xs = [t.pick(VALS) for _ in range(n)]
            l = "%s<%s>" % (t.pick(["stdx::value_list", "vbm::values"]), ", ".join(xs))
        else:
            ty = t.pick(["int", "std::size_t", "char", "bool", "unsigned char"] if n < 100 else ["int", "std::size_t"])
            if kind == 2 or ty == "bool":
                xs = [{"bool": "true"}.get(ty, "(%s)%d" % (ty, t.range(0, 100))) for _ in range(n)]
                l = "std::integer_sequence<%s>" % ", ".join([ty] + xs)
            else:
                xs = ["(%s)%d" % (ty, i) for i in range(n)]
                l = "%s::make_integer_sequence<%s, %d>" % (t.pick(["std", "stdx"]), ty, n)
        head, item = "auto X", "vbm::values<X>"
        w = ["&vb::tag_object<vbm::values<%s>>" % x for x in xs]
        tag = "&vb::tag_object<vbm::values<X>>"
        want = "vbm::values<%s>" % ", ".join(xs)
    c.note("sequence " + l)
    c.d("using L = %s;" % l)
    c.s("std::vector<void const *> seen;")
    c.s("stdx::template_for_each<L>([&]<%s>() { seen.push_back(%s); });" % (head, tag))
    c.chk("seen == std::vector<void const *>{%s}" % ", ".join(w) if w else "seen.empty()", "elements visited")
    packs = head.replace(" X", "... Xs")
    out = "vb::list<Xs...>" if kind == 0 else "vbm::values<Xs...>"
    c.s("auto got = stdx::apply_sequence<L>([]<%s>() { return vb::ty<%s>{}; });" % (packs, out))
    c.same("decltype(got)::type", want, "elements applied")
    c.chk("stdx::apply_sequence<L>([]<%s>() { return sizeof...(Xs); }) == %d" % (packs, n), "number of elements applied")
    for _ in range(min(n, 3)):
        i = n - 1 - t.choose(n)
        if kind == 0:
            c.same("stdx::nth_t<%d, %s>" % (i, ", ".join(xs)), xs[i], "element %d" % i)
        else:
            if l.startswith("stdx::make"):
                c.same("decltype(get<%d>(L{}))" % i, "std::integral_constant<%s, %s>" % (ty, xs[i]), "element %d of the sequence" % i)
                c.same("stdx::tuple_element_t<%d, L>" % i, "std::integral_constant<%s, %s>" % (ty, xs[i]), "type of element %d of the sequence" % i)
            c.chk("stdx::nth_v<%d, %s> == %s" % (i, ", ".join(xs), xs[i]), "element %d" % i)
            if xs[i] != "vb::pool":
                c.same("std::remove_cvref_t<decltype(stdx::nth_v<%d, %s>)>" % (i, ", ".join(xs)), "std::remove_cvref_t<decltype(%s)>" % xs[i],
                       "type of element %d" % i)
    c.nontrivial = n >= 2


TT = [("vbm::a", None), ("vbm::b", None), ("vb::list", None), ("stdx::type_list", None), ("std::pair", 2), ("vbm::one", 1), ("std::vector", 1)]
VT = [("vbm::values", None), ("vbm::others", None), ("stdx::value_list", None), ("vbm::single", 1)]


def spec(t, c):
    c.nontrivial = True
    val = t.flip()
    fam, pool = (VT, VALS) if val else (TT, [p for p in POOL if p not in ("void", "int &", "int const &", "int &&", "vb::fun", "vb::ar3",
                                                                              "vb::ar3 const", "int const", "int volatile")])

    def inst(f):
        name, n = f
        k = n if n is not None else t.range(0, 3)
        return name, "%s<%s>" % (name, ", ".join(t.pick(pool) for _ in range(k)))
    name, ty = inst(t.pick(fam))
    name2, ty2 = inst(t.pick(fam))
    q = t.pick(["", " const", " &", " const &"])
    same = "true" if name == name2 else "false"
    c.note("specialization tests of %s%s and %s" % (ty, q, ty2))
    v = "is_value_specialization_of_v" if val else t.pick(["is_specialization_of_v", "is_type_specialization_of_v"])
    c.chk("stdx::%s<%s%s, %s>" % (v, ty, q, name), "specialization of its own template")
    c.chk("stdx::%s<%s%s, %s> == %s" % (v, ty, q, name2, same), "specialization of another template")
    c.chk("decltype(stdx::is_specialization_of<%s, %s>())::value and decltype(stdx::is_specialization_of<%s, %s>())::value == %s" % (
        ty, name, ty2, name, same), "specialization test as a function")
    c.chk("not stdx::%s<int, %s> and not stdx::%s<%s *, %s> and not stdx::%s<vbm::derived<%s>, %s>" % (v, name, v, ty, name, v, ty, name),
          "not a specialization")
    c.chk("stdx::is_same_template_v<%s, %s> == %s and stdx::same_template_as<%s, %s> == %s" % (ty, ty2, same, ty2, ty, same), "same template")


def cond(t, c):
    a, b = t.pick(POOL), t.pick(POOL)
    c.note("selection between %s and %s" % (a, b))
    c.same("stdx::conditional_t<true, %s, %s>" % (a, b), a, "conditional true")
    c.same("stdx::conditional_t<false, %s, %s>" % (a, b), b, "conditional false")
    tr = t.pick(["is_pointer", "is_integral", "is_class", "is_const", "is_reference", "is_function", "is_enum"])
    c.same("stdx::type_or_t<std::%s, %s, %s>" % (tr, a, b), "std::conditional_t<std::%s_v<%s>, %s, %s>" % (tr, a, a, b), "type or default")
    c.same("stdx::type_or_t<std::%s, %s>" % (tr, a), "std::conditional_t<std::%s_v<%s>, %s, void>" % (tr, a, a), "type or void")
    c.chk("stdx::has_trait<%s, std::%s> == std::%s_v<%s>" % (a, tr, tr, a), "trait as a concept")
    c.chk("stdx::is_function_v<%s> == std::is_function_v<%s>" % (a, a), "function type")
    c.chk("stdx::is_same_unqualified_v<%s, %s> == std::is_same_v<std::remove_cvref_t<%s>, std::remove_cvref_t<%s>>" % (a, b, a, b), "same unqualified")
    c.chk("stdx::same_as_unqualified<%s, %s> == std::is_same_v<std::remove_cvref_t<%s>, std::remove_cvref_t<%s>>" % (a, b, a, b), "same unqualified")
    rest = [t.pick(POOL) for _ in range(t.range(0, 4))]
    q = t.pick(rest + [a])
    hit = "true" if q in rest else "false"
    tail = "".join(", " + r for r in rest)
    c.chk("stdx::same_any<%s%s> == %s and stdx::same_none<%s%s> == not %s" % (q, tail, hit, q, tail, hit), "same as any")
    c.same("stdx::type_identity_t<%s>" % a, a, "identity")
    c.same("typename decltype(stdx::type_identity_v<%s>)::type" % a, a, "identity value")
    c.chk("not stdx::always_false_v<%s, %s>" % (a, b), "always false")
    c.same("stdx::expand_t<stdx::shrink_t<vb::list<%s, %s>>>" % (a, b), "vb::list<%s, %s>" % (a, b), "shrink and expand")
    c.same("stdx::expand_t<vb::list<%s>>" % a, "vb::list<%s>" % a, "expanding what is not shrunk")
    c.same("decltype(stdx::expand(stdx::shrink(vb::list<%s, %s>{})))" % (a, b), "vb::list<%s, %s>" % (a, b), "shrink and expand a value")
    c.s("{ vb::M<1> em(4); vb::M<1> const ek(5);")
    c.chk("&stdx::expand(em) == &em and &stdx::expand(ek) == &ek", "expanding an object that is not shrunk")
    c.same("decltype(stdx::expand(vb::M<1>(3)))", "vb::M<1>", "expanding a temporary that is not shrunk")
    c.chk("vb::rd(stdx::expand(vb::M<1>(3))) == 3 and vb::rd(stdx::expand(std::move(em))) == 4", "value of a temporary that is not shrunk")
    c.s("}")
    c.chk("std::is_same_v<stdx::shrink_t<vb::list<%s>>, stdx::shrink_t<vb::list<%s>>> == %s" % (
        a, b, "std::is_same_v<%s, %s>" % (a, b)), "shrunk types are different for different types")
    c.nontrivial = a != b
    v, ty = t.pick([("vb::En{5}", "vb::En"), ("7", "int"), ("'a'", "char"), ("vbm::U8::x", "vbm::U8"), ("vbm::plain", "vbm::Plain")])
    c.same("decltype(stdx::to_underlying(%s))" % v, "vbm::under<%s>" % ty, "underlying type")
    c.chk("stdx::to_underlying(%s) == static_cast<vbm::under<%s>>(%s)" % (v, ty, v), "underlying value")
    c.same("stdx::underlying_type_t<%s>" % ty, "vbm::under<%s>" % ty, "underlying type")


CALL = [("struct %s { void operator()(); };", 1), ("struct %s { int operator()(int) const; void operator()(); };", 1),
        ("struct %s { template <typename T> void operator()(T); };", 1), ("struct %s { template <typename> void operator()(); };", 1),
        ("struct %s_b { void operator()(int) const noexcept; }; struct %s : %s_b {};", 1), ("struct %s { auto operator()(auto...) const; };", 1),
        ("class %s { void operator()(); };", 1), ("struct %s { void call(); int operator[](int); };", 0), ("struct %s {};", 0),
        ("struct %s { operator int() const; };", 0), ("struct %s { void (*operator_)(); };", 0), ("struct %s { int x; void f(int); };", 0),
        ("struct %s { virtual void operator()(int) = 0; };", 1), ("struct %s { static void f(); using g = void(); };", 0)]


def callab(t, c):
    c.nontrivial = True
    for _ in range(t.range(1, 3)):
        text, yes = t.pick(CALL)
        n = c.name("F")
        c.d(text.replace("%s", n))
        q = t.pick(["", " const"])
        c.note("callability of " + text.replace("%s", n) + q)
        b = "true" if yes else "false"
        c.chk("stdx::is_function_object_v<%s%s> == %s and stdx::is_callable_v<%s%s> == %s and stdx::callable<%s%s> == %s" % (
            n, q, b, n, q, b, n, q, b), "function object")
        c.chk("not stdx::is_function_v<%s>" % n, "not a function")
    lam = t.pick(["[] {}", "[](auto...) {}", "[](int) mutable {}", "[]<typename>() {}", "[x = 1](int) noexcept { return x; }"])
    c.s("auto lam = %s;" % lam)
    c.chk("stdx::is_callable_v<decltype(lam)> and stdx::is_function_object_v<decltype(lam)>", "lambda " + lam)
    f = t.pick(["void()", "int(int, char)", "void(int) noexcept", "void() const", "int(...)", "void(int &&) volatile &"])
    c.chk("stdx::is_callable_v<%s> and stdx::is_function_v<%s> and not stdx::is_function_object_v<%s>" % (f, f, f), "function " + f)
    o = t.pick(["int", "double", "int *", "vb::ar3", "vb::En", "std::nullptr_t", "vb::V<0>", "int vb::V<0>::*"])
    c.chk("not stdx::is_callable_v<%s> and not stdx::is_function_object_v<%s>" % (o, o), "not callable " + o)


MEM = ["int", "char", "bool", "vb::En", "int *", "double", "unsigned long", "vb::E<0>"]


def shape(t, c):
    """structural and complete types, tuple protocol"""
    c.nontrivial = True
    n = c.name("S")
    mem = [t.pick(MEM) for _ in range(t.range(0, 5))]
    body = " ".join("%s m%d;" % (m, i) for i, m in enumerate(mem))
    spoil = t.choose(7)
    if spoil == 6 and mem:
        # made by a constructor of several arguments only
        while len(mem) < 10 and t.chance(2, 3):
            mem.append(t.pick(MEM))
        body = " ".join("%s m%d;" % (m, i) for i, m in enumerate(mem))
    made = "constexpr %s(%s) : %s {}" % (n, ", ".join("%s a%d" % (m, i) for i, m in enumerate(mem)),
                                         ", ".join("m%d{a%d}" % (i, i) for i in range(len(mem)))) if mem else ""
    extra = ["", "", "", "private: int hidden{}; public: constexpr %s() = default;" % n, "~%s() {}" % n, "mutable int changing;", made][spoil]
    c.d("struct %s { %s %s };" % (n, body, extra))
    c.d("struct %sdecl; template <typename T> struct %stempl; enum struct %senum : int;" % (n, n, n))
    b = "true" if spoil in (0, 1, 2, 6) else "false"
    c.note("struct with %s %s" % (mem, extra))
    c.chk("stdx::is_structural_v<%s> == %s and stdx::structural<%s> == %s" % (n, b, n, b), "structural")
    m = t.pick(MEM)
    c.chk("stdx::is_structural_v<%s> and stdx::is_structural_v<%s &>" % (m, m), "structural scalar")
    c.chk("not stdx::is_structural_v<std::string> and not stdx::is_structural_v<std::vector<int>>", "not structural")
    c.chk("stdx::is_complete_v<%s> and stdx::complete<%s> and not stdx::is_complete_v<%sdecl> and not stdx::complete<%stempl<int>> and stdx::is_complete_v<%senum>" % (
        n, n, n, n, n), "complete")
    k = t.choose(4)
    a = t.pick(["int", "char", "vb::V<0>", "vb::M<1>"])
    e = t.pick(["int", "char", "vb::V<1>", "bool"])
    size = t.range(0, 5)
    ty, sz, els, arr = [("std::array<%s, %d>" % (a, size), size, [a] * size, True), ("std::pair<%s, %s>" % (a, e), 2, [a, e], False),
                        ("stdx::tuple<%s, %s>" % (a, e), 2, [a, e], False), ("stdx::tuple<>", 0, [], False)][k]
    q = t.pick(["", " const", " &", " const &", " &&"])
    c.note("tuple protocol of " + ty + q)
    c.chk("stdx::has_tuple_protocol<%s%s>" % (ty, q), "tuple protocol")
    c.chk("stdx::has_array_protocol<%s%s> == %s" % (ty, q, "true" if arr else "false"), "array protocol")
    c.chk("stdx::tuplelike<%s%s> == %s" % (ty, q, "true" if ty.startswith("stdx") else "false"), "tuple")
    c.chk("not stdx::has_tuple_protocol<%s> and not stdx::tuplelike<int> and not stdx::has_array_protocol<int>" % n, "no tuple protocol")
    c.chk("stdx::tuple_size_v<%s> == %d" % (ty, sz), "tuple size")
    for i, x in enumerate(els):
        c.same("stdx::tuple_element_t<%d, %s>" % (i, ty), x, "tuple element")
    c.chk("stdx::range<std::vector<int>%s> and stdx::range<int%s[3]> and stdx::range<std::string%s> and not stdx::range<int%s> and not stdx::range<%s%s>" % (
        q, " const" if "const" in q else "", q, q, n, q), "range")


def gen(t, c):
    f = t.weighted([(5, maps), (5, seqs), (3, spec), (3, cond), (2, callab), (2, shape)])
    c.labels.add(f.__name__)
    f(t, c)
