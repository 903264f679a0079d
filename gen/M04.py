"""Concepts on generated types, and overload selection by priority."""
from .text import *


def tf(b):
    return "true" if b else "false"


# type, integral, signed, floating
ARITH = [("bool", 1, 0, 0), ("char", 1, 1, 0), ("signed char", 1, 1, 0), ("unsigned char", 1, 0, 0), ("short", 1, 1, 0),
         ("unsigned short", 1, 0, 0), ("int", 1, 1, 0), ("unsigned", 1, 0, 0), ("long", 1, 1, 0), ("unsigned long", 1, 0, 0),
         ("long long", 1, 1, 0), ("unsigned long long", 1, 0, 0), ("char8_t", 1, 0, 0), ("char16_t", 1, 0, 0), ("char32_t", 1, 0, 0),
         ("float", 0, 0, 1), ("double", 0, 0, 1), ("long double", 0, 0, 1), ("void", 0, 0, 0), ("std::nullptr_t", 0, 0, 0),
         ("int *", 0, 0, 0), ("vb::En", 0, 0, 0), ("vb::V<0>", 0, 0, 0), ("vb::ar3", 0, 0, 0), ("std::byte", 0, 0, 0)]
CV = ["", " const", " volatile", " const volatile"]
REF = ["", " &", " &&"]


def arith(t, c):
    ty, i, s, f = t.pick(ARITH)
    cv = t.pick(CV)
    ref = t.pick(REF) if ty != "void" and t.chance(1, 3) else ""
    q = "%s%s%s" % (ty, cv, ref)
    c.note("kind of number: " + q)
    ok = not ref
    c.chk("stdx::integral<%s> == %s" % (q, tf(i and ok)), "integral " + q)
    c.chk("stdx::signed_integral<%s> == %s" % (q, tf(i and s and ok)), "signed_integral " + q)
    c.chk("stdx::unsigned_integral<%s> == %s" % (q, tf(i and not s and ok)), "unsigned_integral " + q)
    c.chk("stdx::floating_point<%s> == %s" % (q, tf(f and ok)), "floating_point " + q)
    c.nontrivial = bool(cv or ref) or not i


BASE = ["int", "char", "int *", "vb::V<0>", "vb::V<1>", "vb::ar3", "std::string", "vb::list<int>", "vb::list<int, char>"]


def sames(t, c):
    n = t.weighted([(1, 0), (3, 1), (4, 4), (1, 20)])
    n -= t.choose(n // 2 + 1)
    full = lambda x: "%s%s%s" % x
    draw = lambda: (t.pick(BASE[:5] if t.flip() else BASE), t.pick(CV) if t.flip() else "", t.pick(REF) if t.flip() else "")
    a = draw()
    us = [draw() for _ in range(n)]
    if n and t.flip():
        us[t.choose(n)] = a
    hit = a in us
    c.note("%s among %s" % (full(a), [full(u) for u in us]))
    lst = ", ".join([full(a)] + [full(u) for u in us])
    c.chk("stdx::same_any<%s> == %s" % (lst, tf(hit)), "same_any")
    c.chk("stdx::same_none<%s> == %s" % (lst, tf(not hit)), "same_none")
    for u in us[:4]:
        c.chk("stdx::same_as<%s, %s> == %s" % (full(a), full(u), tf(a == u)), "same_as")
        c.chk("stdx::same_as_unqualified<%s, %s> == %s" % (full(a), full(u), tf(a[0] == u[0])), "same_as_unqualified")
        c.chk("stdx::is_same_unqualified_v<%s, %s> == %s" % (full(a), full(u), tf(a[0] == u[0])), "is_same_unqualified_v")
    c.nontrivial = n > 0


def derived(t, c):
    """A class graph; which bases are public and unambiguous?"""
    n = t.range(2, 5)
    names = [c.name("Cl") for _ in range(n)]
    bases = []
    for i in range(n):
        bs = []
        for j in range(i):
            if t.flip():
                bs.append((j, t.weighted([(4, "public"), (1, "private"), (1, "protected")]), t.chance(1, 3)))
        # a direct base that is also a base of another direct base is inaccessible: keep it out
        def below(j):
            return {j}.union(*[below(k) for k, _, _ in bases[j]]) if bases[j] else {j}
        bs = [b for b in bs if not any(o is not b and b[0] in below(o[0]) for o in bs)]
        bases.append(bs)
        c.d("struct %s%s {};" % (names[i], " : " + ", ".join("%s%s %s" % (acc, " virtual" if v else "", names[j]) for j, acc, v in bs) if bs else ""))

    def subobjects(i):
        """all base subobjects: identity -> (class, reachable by a public path)"""
        found = {}

        def walk(k, path, pub):
            for j, acc, v in bases[k]:
                ident = ("virtual", j) if v else path + (j,)
                p = pub and acc == "public"
                old = found.get(ident, (j, False))
                found[ident] = (j, old[1] or p)
                walk(j, ident, p)
        walk(i, (i,), True)
        return found
    for _ in range(t.range(1, 4)):
        a, b = t.choose(n), t.choose(n)
        cva, cvb = t.pick(CV), t.pick(CV)
        if a == b:
            want = True
        else:
            subs = [p for (j, p) in subobjects(a).values() if j == b]
            want = len(subs) == 1 and subs[0]
        c.chk("stdx::derived_from<%s%s, %s%s> == %s" % (names[a], cva, names[b], cvb, tf(want)), "derived_from")
        c.chk("not stdx::derived_from<%s &, %s> and not stdx::derived_from<%s, %s &>" % (names[a], names[a], names[b], names[b]), "derived_from references")
        c.note("class %d derives from class %d: %s in %s" % (a, b, want, bases))
    x = t.pick(["int", "vb::En", "int *"])
    c.chk("not stdx::derived_from<%s, %s> and not stdx::derived_from<%s, %s>" % (x, x, names[0], x), "derived_from of non-classes")
    c.nontrivial = any(bases)


# From, To, convertible
CONV = [("int", "double", 1), ("double", "int", 1), ("int *", "void *", 1), ("void *", "int *", 0), ("int *", "int const *", 1),
        ("int const *", "int *", 0), ("vb::En", "int", 0), ("int", "vb::En", 0), ("vb::ar3", "int *", 1), ("vb::ar3 &", "int *", 1),
        ("int &", "int", 1), ("int", "int &", 0), ("int", "int const &", 1), ("int", "int &&", 1), ("int &", "int &&", 0),
        ("int const &", "int &", 0), ("int &", "int const &", 1), ("std::nullptr_t", "int *", 1), ("std::nullptr_t", "bool", 0),
        ("int *", "bool", 1), ("char const *", "std::string", 1), ("char const *", "std::string_view", 1), ("std::string", "std::string_view", 1),
        ("std::string_view", "std::string", 0), ("int", "vb::V<0>", 0), ("vb::V<0> &", "vb::V<0>", 1), ("vb::M<0> &", "vb::M<0>", 0),
        ("vb::M<0>", "vb::M<0>", 1), ("int", "std::string", 0), ("void", "int", 0), ("int", "void", 0), ("vb::fun", "void (*)(int)", 1),
        ("bool", "int", 1), ("int", "bool", 1), ("int", "int *", 0)]


def converts(t, c):
    if t.flip():
        f, o, w = t.pick(CONV)
        c.note("%s converts to %s" % (f, o))
        c.chk("stdx::convertible_to<%s, %s> == %s" % (f, o, tf(w)), "convertible_to")
        c.nontrivial = True
        return
    a, b = c.name("Fr"), c.name("To")
    if t.chance(1, 4):
        # implicit conversion by an operator, explicit conversion by a constructor
        gone = t.flip()
        lref = t.pick(["", " const &"])
        c.d("struct %s; struct %s { %s() = default; explicit %s(%s%s)%s; };" % (a, b, b, b, a, lref, " = delete" if gone else ""))
        c.d("struct %s { operator %s() const; };" % (a, b))
        for fq in ["", " &", " const &"]:
            c.chk("stdx::convertible_to<%s%s, %s> == %s" % (a, fq, b, tf(not gone)), "convertible_to both ways from" + (fq or " rvalue"))
        c.note("implicit conversion, explicit conversion %s" % ("deleted" if gone else "too"))
        c.nontrivial = True
        return
    by = t.pick(["operator", "constructor", "none"])
    how = t.pick(["", "explicit "])
    q = t.pick(["", " const", " &", " &&", " const &"]) if by == "operator" else ""
    deleted = t.chance(1, 5)
    c.d("struct %s; struct %s { %s };" % (b, a, "%soperator %s()%s%s;" % (how, b, q, " = delete" if deleted else "") if by == "operator" else ""))
    c.d("struct %s { %s };" % (b, "%s%s(%s const &)%s;" % (how, b, a, " = delete" if deleted else "") if by == "constructor" else ""))
    if by == "operator":
        pass
    for fq in ["", " &", " const", " const &"]:
        ok = by != "none" and not how and not deleted
        if by == "operator":
            lval, const = "&" in fq, "const" in fq
            ok = ok and {"": not const, " const": True, " &": lval and not const, " &&": not lval and not const, " const &": True}[q]
        c.chk("stdx::convertible_to<%s%s, %s> == %s" % (a, fq, b, tf(ok)), "convertible_to from" + (fq or " rvalue"))
    c.chk("not stdx::convertible_to<%s, %s>" % (b, a), "convertible_to the other way")
    c.note("conversion by %s %s%s%s" % (how, by, q, " deleted" if deleted else ""))
    c.nontrivial = by != "none"


def compares(t, c):
    n = c.name("Cm")
    eq = t.weighted([(3, "bool"), (1, "none"), (1, "deleted"), (1, "nonconst"), (1, "void")])
    ne = t.weighted([(4, "absent"), (1, "bool"), (1, "deleted")])
    rel = t.weighted([(3, "spaceship"), (3, "four"), (1, "none"), (1, "void")])
    miss = t.choose(6) if rel == "four" else 5  # which of the four is missing, if < 4
    body = {"bool": "friend bool operator==(%s const &, %s const &);", "none": "", "deleted": "friend bool operator==(%s const &, %s const &) = delete;",
            "nonconst": "friend bool operator==(%s &, %s &);", "void": "friend void operator==(%s const &, %s const &);"}[eq].replace("%s", n)
    body += {"absent": "", "bool": "friend bool operator!=(%s const &, %s const &);",
             "deleted": "friend bool operator!=(%s const &, %s const &) = delete;"}[ne].replace("%s", n)
    if rel == "spaceship":
        body += "friend std::partial_ordering operator<=>(%s const &, %s const &);".replace("%s", n)
    elif rel in ("four", "void"):
        for k, op in enumerate(["<", "<=", ">", ">="]):
            if k != miss:
                body += "friend %s operator%s(%s const &, %s const &);" % ("void" if rel == "void" and k == 2 else "bool", op, n, n)
    c.d("struct %s { %s };" % (n, body))
    neq = ne == "bool" or ne == "absent" and eq == "bool"
    equal = eq == "bool" and neq
    total = equal and (rel == "spaceship" or rel == "four" and miss >= 4)
    c.note("comparisons: == %s, != %s, order %s%s" % (eq, ne, rel, " without one" if miss < 4 else ""))
    for q in ["", " const", " &", " const &"]:
        c.chk("stdx::equality_comparable<%s%s> == %s" % (n, q, tf(equal)), "equality_comparable" + q) if eq != "nonconst" or q != " &" else None
        c.chk("stdx::totally_ordered<%s%s> == %s" % (n, q, tf(total)), "totally_ordered" + q) if eq != "nonconst" or q != " &" else None
    x = t.pick([("int", 1, 1), ("double", 1, 1), ("int *", 1, 1), ("std::nullptr_t", 1, 0), ("vb::En", 1, 1), ("vb::V<0>", 1, 1), ("vb::K<0>", 0, 0),
                ("std::string", 1, 1)])
    c.chk("stdx::equality_comparable<%s> == %s and stdx::totally_ordered<%s> == %s" % (x[0], tf(x[1]), x[0], tf(x[2])), "comparisons of " + x[0])
    c.nontrivial = True


RET = [("bool", 1), ("int", 1), ("void", 0), ("std::true_type", 1), ("vb::K<0>", 0), ("int *", 1), ("std::string", 0), ("vb::En", 0),
       ("says_explicitly", 0), ("never_negated", 0), ("says", 1)]


def calls(t, c):
    f = c.name("Fn")
    r, test = t.pick(RET)
    if r == "says_explicitly":
        c.d("struct says_explicitly { explicit operator bool() const; };")
    elif r == "never_negated":
        c.d("struct never_negated { operator bool() const; void operator!() const = delete; };")
    elif r == "says":
        c.d("struct says { operator bool() const; };")
    kinds = ["vb::K<%d>" % i for i in range(3)]
    ps = [t.pick(kinds) for _ in range(t.range(0, 3))]
    prefs = [t.pick(["", " &", " const &", " &&"]) for _ in ps]
    q = t.pick(["", " const", " &", " &&", " const &"])
    form = t.choose(4)
    sig = ", ".join(p + x for p, x in zip(ps, prefs))
    if form <= 1:
        c.d("struct %s { %s operator()(%s)%s; };" % (f, r, sig, q))
    elif form == 2:
        c.d("using %s = %s (*)(%s);" % (f, r, sig))
    else:
        c.d("struct %s_o { %s mem(%s)%s; }; using %s = %s (%s_o::*)(%s)%s;" % (f, r, sig, q, f, r, f, sig, q))
    fq = t.pick(["", " const", " &", " const &"])
    args = [(p if not t.chance(1, 4) else t.pick(kinds), t.pick(["", " &", " const &"])) for p in ps]
    if t.chance(1, 4):
        if args and t.flip():
            args.pop()
        else:
            args.append((t.pick(kinds), ""))

    def fits(lval, const, q):
        return {"": not const, " const": True, " &": lval and not const, " &&": not lval and not const, " const &": True}[q]
    ok = len(args) == len(ps)
    for (a, aq), p, pq in zip(args, ps, prefs):
        lval, const = "&" in aq, "const" in aq
        ok = ok and a == p and {"": True, " &": lval and not const, " const &": True, " &&": not lval}[pq]
    full = ["%s%s" % a for a in args]
    if form <= 1:
        ok = ok and fits("&" in fq, "const" in fq, q)
    elif form == 3:
        oq = t.pick(["", " &", " const &"])
        full = ["%s_o%s" % (f, oq)] + full
        ok = ok and fits("&" in oq, "const" in oq, q)
    c.note("%s%s taking (%s)%s called with (%s)" % (["object", "object", "function pointer", "member pointer"][form], fq, sig, q, ", ".join(full)))
    lst = ", ".join([f + fq] + full)
    c.chk("stdx::invocable<%s> == %s" % (lst, tf(ok)), "invocable")
    c.chk("stdx::predicate<%s> == %s" % (lst, tf(ok and test)), "predicate, result " + r)
    c.nontrivial = len(full) > 0


TRAITS = [("std::is_class", ["vb::V<0>", "std::string", "vb::list<>"], ["int", "vb::En", "int *"]),
          ("std::is_enum", ["vb::En"], ["int", "vb::V<0>"]), ("std::is_pointer", ["int *", "void *"], ["int", "vb::ar3", "std::nullptr_t"]),
          ("std::is_empty", ["vb::K<0>", "vb::list<int>"], ["vb::V<0>", "int"]), ("std::is_array", ["vb::ar3"], ["int *", "std::string"]),
          ("std::is_const", ["int const"], ["int", "int const &"]), ("std::is_function", ["vb::fun"], ["int", "void (*)(int)"])]


def misc(t, c):
    tr, yes, no = t.pick(TRAITS)
    y, n = t.pick(yes), t.pick(no)
    c.note("trait %s of %s and %s" % (tr, y, n))
    c.chk("stdx::has_trait<%s, %s> and not stdx::has_trait<%s, %s>" % (y, tr, n, tr), "has_trait")
    own = c.name("Tr")
    c.d("template <typename Ty> struct %s : std::false_type {}; template <> struct %s<%s> : std::true_type {};" % (own, own, y))
    c.chk("stdx::has_trait<%s, %s> and not stdx::has_trait<%s, %s>" % (y, own, n, own), "has_trait of an own trait")
    r = c.name("Rg")
    which = t.choose(5)
    k = " const" if t.flip() else ""
    mem = [("auto begin()%s -> int *; auto end()%s -> int *;", 1), ("auto begin()%s -> int *;", 0), ("auto end()%s -> int *;", 0), ("", 0),
           ("template <typename Xs> auto begin(Xs)%s -> int *; auto end()%s -> int *;", 0)][which]
    c.d("struct %s { %s };" % (r, mem[0].replace("%s", k)))
    for q in ["", " const", " &", " const &", " &&"]:
        c.chk("stdx::range<%s%s> == %s" % (r, q, tf(mem[1] and (k or "const" not in q))), "range" + q)
    c.chk("stdx::range<int[%d]> and stdx::range<std::array<int, %d>> and not stdx::range<int *>" % (t.range(1, 9), t.range(0, 9)), "range of arrays")
    c.note("range with " + (mem[0].replace("%s", k) or "nothing"))
    c.nontrivial = True


def prio(t, c):
    top = t.weighted([(5, 5), (2, 20), (1, 200)])
    top = max(1, top - t.choose(top // 2 + 1))
    kinds = ["vb::K<%d>" % i for i in range(4)]
    f = c.name("pick")
    levels = sorted({t.range(0, top) for _ in range(t.range(1, 6))})
    ok = {}
    for l in levels:
        sel = [k for k in kinds if t.flip()]
        ok[l] = sel
        cond = " or ".join("std::is_same_v<Ty, %s>" % k for k in sel) or "false"
        c.d("template <typename Ty> requires (%s) constexpr auto %s(Ty, stdx::priority_t<%d>) -> int { return %d; }" % (cond, f, l, l))
    if levels[0] != 0 or len(ok[0]) < 4:
        c.d("template <typename Ty> constexpr auto %s(Ty, ...) -> int { return -1; }" % f)
    c.note("levels %s selected from %d" % (ok, top))
    for k in kinds:
        for start in sorted({top, t.range(0, top)}):
            want = max([l for l in levels if l <= start and k in ok[l]], default=-1)
            c.eq("%s(%s{}, stdx::priority<%d>)" % (f, k, start), want, "overload chosen for %s from %d" % (k, start))
            c.eq("%s(%s{}, stdx::priority_t<%d>{})" % (f, k, start), want, "overload chosen for %s from %d" % (k, start))
    c.same("decltype(stdx::priority<%d>)" % top, "stdx::priority_t<%d> const" % top, "type of a priority")
    c.nontrivial = len(levels) > 1


def gen(t, c):
    f = t.weighted([(2, arith), (2, sames), (3, derived), (3, converts), (3, compares), (4, calls), (2, misc), (4, prio)])
    c.labels.add(f.__name__)
    f(t, c)
