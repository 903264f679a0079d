from .tup import *

CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}
FUNCS = ["key_a", "key_b", "key_c"]


def on(ty, ref, cat):
    if ref:
        return ref
    return {"l": "%s &", "cl": "%s const &", "r": "%s &&"}[cat] % ty


def indexed(t, c):
    n = t.weighted([(1, 1), (3, 2), (4, 3), (3, 4), (1, 6)])
    if n == 6 and t.chance(1, 4):
        n = t.range(7, 20)
    keys = t.shuffle(range(60))
    c.d("template <typename T> using key_a = typename T::a;")
    c.d("template <typename T> using key_b = typename T::b;")
    c.d("template <typename T> using key_c = typename T::c;")
    es = []
    for i in range(n):
        kind = t.pick(["int", "V0", "M0", "char", "E0", "double"])
        ks = [keys.pop() for _ in range(3)]
        if t.chance(1, 4):
            ks[1] = ks[0]  # two functions may name the same key for one element
        ty = "vb::ent<%d, %d, %d, %s>" % (ks[0], ks[1], ks[2], TYPE[kind])
        v = 10 + (10 * i + t.choose(10)) % 110
        ref = None
        if t.chance(1, 5):
            ref = t.pick(["%s &", "%s const &"]) % ty
        var = c.name("e")
        c.s("%s %s{%s};" % (ty, var, of_int(kind, str(v))))
        es.append(dict(kind=kind, type=ty, keys=ks, rd=rd_of(kind, v), ref=ref, var=var))
    funcs = t.shuffle(FUNCS)[:t.range(1, 3)]
    how = t.choose(4)
    c.note("%s entries %s" % (["make_indexed_tuple", "apply_indices", "re-indexed", "transform"][how],
                              ", ".join("%s%s=%d" % (e["kind"], e["keys"], e["rd"]) for e in es)))
    c.note("by " + ",".join(funcs))
    fl = "<%s>" % ", ".join(funcs)
    if how == 0 or how == 3:
        for e in es:
            e["ref"] = None
    if how == 0:
        args = ", ".join(("std::move(%s)" if t.flip() or e["kind"] == "M0" else "%s") % e["var"] for e in es)
        c.s("auto x = stdx::make_indexed_tuple%s(%s);" % (fl, args))
    else:
        types = ", ".join(e["ref"] or e["type"] for e in es)
        args = ", ".join(e["var"] if e["ref"] else "std::move(%s)" % e["var"] for e in es)
        if how == 1:
            c.s("stdx::tuple<%s> p{%s};" % (types, args))
            cat = t.pick(["l", "cl", "r"]) if not any(e["kind"] == "M0" and not e["ref"] for e in es) else "r"
            c.s("auto x = stdx::apply_indices%s(%s);" % (fl, CAT[cat] % "p"))
            if cat != "r":
                for i, e in enumerate(es):
                    c.eq("vb::rd(stdx::get<%d>(p).value)" % i, e["rd"], "the source is left alone")
        elif how == 2:
            old = t.shuffle(FUNCS)[:t.range(1, 3)]
            c.s("auto x = stdx::apply_indices%s(stdx::apply_indices<%s>(stdx::tuple<%s>{%s}));" % (
                fl, ", ".join(old), types, args))
        else:
            c.s("auto x = stdx::transform%s([](auto &&e) { return std::remove_cvref_t<decltype(e)>(std::move(e)); }, "
                "stdx::tuple<%s>{%s});" % (fl, types, args))
    c.eq("x.size()", n, "size")
    used = set()
    for i, e in enumerate(es):
        ks = {e["keys"][FUNCS.index(f)] for f in funcs}
        used |= ks
        names = ["vb::K<%d>" % k for k in sorted(ks)]
        names.append(e["ref"] or e["type"])
        for nm in names:
            for cat in ("l", "cl", "r"):
                ex = "stdx::get<%s>(%s)" % (nm, CAT[cat] % "x")
                c.same("decltype(%s)" % ex, on(e["type"], e["ref"], cat), "type of " + ex)
            c.chk("&stdx::get<%s>(x) == &stdx::get<%d>(x)" % (nm, i), "%s finds element %d" % (nm, i))
            c.chk("&stdx::get<%s>(std::as_const(x)) == &stdx::get<%d>(x)" % (nm, i), "%s finds element %d" % (nm, i))
            c.eq("vb::rd(stdx::get<%s>(x).value)" % nm, e["rd"], "value for " + nm)
            g = "get<%s>(std::move(x)).value" % nm
            c.eq("vb::rd(%s)" % g, e["rd"], "value for %s of a temporary" % nm)
        if e["ref"]:
            c.chk("&stdx::get<%d>(x) == &%s" % (i, e["var"]), "reference kept")
    if not any(e["ref"] for e in es):
        T = "decltype(x)"
        for e in es:
            for k in e["keys"]:
                c.eq("(stdx::contains_type<%s, vb::K<%d>>)" % (T, k), int(k in used), "contains key %d" % k)
            c.chk("(stdx::contains_type<%s, %s>)" % (T, e["type"]), "contains an element type")
        c.chk("not(stdx::contains_type<%s, vb::K<99>>) and not(stdx::contains_type<%s, short>)" % (T, T), "absent types")
    if t.flip() and not any(e["ref"] for e in es):
        # order and equality do not depend on the index functions
        k = t.choose(n)
        d = 0 if es[k]["kind"] == "E0" else t.choose(3) - 1
        c.s("stdx::tuple<%s> q{%s};" % (", ".join(e["type"] for e in es), ", ".join(
            "%s{%s}" % (e["type"], of_int(e["kind"], str(e["rd"] + (d if i == k else 0)))) for i, e in enumerate(es))))
        c.chk("(x == q) == %s and (q == x) == %s and (x != q) == %s" % (
            str(d == 0).lower(), str(d == 0).lower(), str(d != 0).lower()), "equality with a plain tuple")
        c.chk("(x < q) == %s and (x >= q) == %s and (q <= x) == %s" % (
            str(d > 0).lower(), str(d <= 0).lower(), str(d <= 0).lower()), "order with a plain tuple")
    if t.flip():
        names = [c.name("b") for _ in es]
        c.s("auto &[%s] = x;" % ", ".join(names))
        for i, b in enumerate(names):
            c.chk("&%s == &stdx::get<%d>(x)" % (b, i), "structured binding %d" % i)
    if not any(e["ref"] for e in es) and t.flip():
        k = t.choose(n)
        e = es[k]
        f = t.choose(len(funcs))
        nv = e["rd"] + 1
        c.s("stdx::get<vb::K<%d>>(x).value = %s;" % (e["keys"][FUNCS.index(funcs[f])], of_int(e["kind"], str(nv))))
        for i, g in enumerate(es):
            c.eq("vb::rd(stdx::get<%d>(x).value)" % i, rd_of(e["kind"], nv) if i == k else g["rd"], "after a write by key")
    c.nontrivial = n >= 2
    c.labels.add("indexed%d" % len(funcs))


def contains(t, c):
    n = t.range(0, 5)
    pool = VALUE + MOVE + REF + CONST + RREF
    ks = [t.pick(pool) for _ in range(n)]
    c.note("contains_type over <%s>" % ",".join(ks))
    T = "stdx::tuple<%s>" % ", ".join(TYPE[k] for k in ks)
    for form in (T, T + " const", T + " &"):
        for k in pool:
            c.eq("(stdx::contains_type<%s, %s>)" % (form, TYPE[k]), int(k in ks), "contains %s" % k)
    c.nontrivial = n >= 2
    c.labels.add("contains")


def mixed(t, c):
    """values of different types are compared as the language compares them"""
    vals = [t.pick(["300", "2.5", "44", "2", "65580l", "-1", "4294967340ll", "(short)-2", "0.f", "true", "'a'", "1e20", "200u"])
            for _ in range(t.range(1, 4))]
    c.note("one_of{%s}" % ", ".join(vals))
    c.s("auto const o = stdx::one_of{%s};" % ", ".join(vals))
    for v in ["(unsigned char)44", "2", "(signed char)-1", "97.0", "(short)44", "1l", "300", "2.5f", "'a'", "false", "(unsigned short)65534"]:
        c.s("{ auto v = %s; bool const yes = %s;" % (v, " or ".join("(%s == v)" % x for x in vals)))
        c.chk("(o == v) == yes and (v == o) == yes", "one_of == " + v)
        c.chk("(o != v) != yes and (v != o) != yes", "one_of != " + v)
        c.s("}")
    c.nontrivial = len(vals) >= 2
    c.labels.add("one_of mixed")


def one_of(t, c):
    if t.chance(1, 3):
        return mixed(t, c)
    n = t.range(0, 5)
    ks = [t.pick(["int", "long", "short", "char", "double"]) for _ in range(n)]
    same = t.chance(1, 3)
    if same:
        k = t.pick(["V0", "En", "ptr", "bool", "M0"])
        ks = [k] * n
    vals = [rd_of(k, t.choose(9)) for k in ks]
    c.note("one_of %s" % list(zip(ks, vals)))
    c.s("stdx::one_of<%s>%s const o{%s};" % (", ".join(TYPE[k] for k in ks), "", ", ".join(
        of_int(k, str(v)) for k, v in zip(ks, vals))))
    probe = ks[0] if same and ks else t.pick(["int", "long", "char"])
    if same and not ks:
        probe = k
    for v in range(2 if probe == "bool" else 10):
        c.s("{ %s const v = %s;" % (TYPE[probe], of_int(probe, str(v))))
        yes = v in vals
        c.chk("(o == v) == %s" % str(yes).lower(), "one_of == %d" % v)
        c.chk("(v == o) == %s" % str(yes).lower(), "%d == one_of" % v)
        c.chk("(o != v) == %s and (v != o) == %s" % (str(not yes).lower(), str(not yes).lower()), "one_of != %d" % v)
        c.s("}")
    if n and not any(k in MOVE for k in ks):
        c.s("auto const d = stdx::one_of{%s};" % ", ".join(of_int(k, str(v)) for k, v in zip(ks, vals)))
        c.same("decltype(d)", "stdx::one_of<%s> const" % ", ".join(TYPE[k] for k in ks), "deduced one_of")
        c.chk("d == %s" % of_int(ks[-1], str(vals[-1])), "last value is one of them")
    c.nontrivial = n >= 2
    c.labels.add("one_of")


def gen(t, c):
    t.weighted([(5, indexed), (1, contains), (2, one_of)])(t, c)
