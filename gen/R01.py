"""Misuse that the library can see while compiling: each case has a correct
program and a twin that differs in one place and must be refused."""
from .tup import *

BIG = 2**64 - 1  # also the marker of a dynamic extent


def past(t, lim, top=2**64 - 2):
    """A number above lim."""
    return min(top, lim + t.weighted([(6, 1), (2, 2), (1, 7), (1, 256), (1, 2**31), (1, 2**32), (1, 2**63), (2, 2**64)]))


def upto(t, lim):
    """A number from 0 to lim, often lim itself."""
    return lim - t.choose(lim + 1) if t.flip() else lim


ELEM = ["int", "char", "double", "std::uint8_t", "vb::V<0>"]


def storage(t, c, n):
    ty = t.pick(ELEM)
    k = t.choose(3) if n else 1
    if k == 0:
        c.s("%s store[%d]{};" % (ty, n))
    elif k == 1:
        c.s("std::array<%s, %d> store{};" % (ty, n))
    else:
        c.s("std::array<%s, %d> const store{};" % (ty, n))
        ty += " const"
    return ty


def spans(t, c):
    n = t.weighted([(1, 0), (2, 1), (4, 4), (3, 9), (1, 300)])
    n = upto(t, n)
    ty = storage(t, c, n)
    what = t.choose(8)
    dyn = what == 3 and t.chance(1, 3)
    c.s("stdx::span<%s, %s> sp{store};" % (ty, "stdx::dynamic_extent" if dyn else n))
    if what == 0:
        a, b = "first<%d>" % upto(t, n), "first<%d>" % past(t, n)
    elif what == 1:
        a, b = "last<%d>" % upto(t, n), "last<%d>" % past(t, n)
    elif what == 2:
        a, b = "subspan<%d>" % upto(t, n), "subspan<%d>" % past(t, n)
    elif what == 3:
        o = upto(t, n)
        k = upto(t, n - o)
        a = "subspan<%d, %d>" % (o, k)
        if dyn:
            # only a range that no span can have is visible here
            o = max(o, 2)
            b = "subspan<%d, %dull>" % (o, BIG - t.range(1, o - 1))
        elif t.flip():
            b = "subspan<%d, %dull>" % (o, past(t, n - o))
        else:
            b = "subspan<%dull, %d>" % (past(t, n - k), k)
    if what <= 3:
        c.note("%s of a span of %s" % (b, "run-time extent" if dyn else n))
        c.twin("[[maybe_unused]] auto s2 = sp.%s();" % a, "[[maybe_unused]] auto s2 = sp.%s();" % b)
        return n > 0
    if what == 4:
        k, w = upto(t, n), past(t, n, 2**40)
        src = t.pick(["store", "sp"])
        c.note("span of %d from storage of %d" % (w, n))
        c.twin("[[maybe_unused]] stdx::span<%s, %d> s2{%s};" % (ty, k, src), "[[maybe_unused]] stdx::span<%s, %d> s2{%s};" % (ty, w, src))
        return n > 0
    if what == 5:
        n = max(n, 1)
        c.body.clear()
        ty = storage(t, c, n)
        c.s("stdx::span<%s, %d> sp{store};" % (ty, n))
        k, w = upto(t, n - 1), past(t, n - 1)
        c.note("element %d of a span of %d" % (w, n))
        c.twin("CHK(&stdx::get<%d>(sp) == std::data(store) + %d, \"element\");" % (k, k),
               "[[maybe_unused]] auto &x = stdx::get<%dull>(sp);" % w)
        return True
    if what == 6:
        n = max(n, 1)
        k, w = upto(t, n - 1), past(t, n - 1)
        c.note("type of element %d of a span of %d" % (w, n))
        c.twin("CHK_SAME(VB_T(stdx::tuple_element_t<%d, stdx::span<int, %d>>), VB_T(int), \"type\");" % (k, n),
               "[[maybe_unused]] stdx::tuple_element_t<%dull, stdx::span<int, %d>> *x{};" % (w, n))
        return True
    base = ty.replace(" const", "")
    c.s("stdx::span<%s, %d> mut{}; stdx::span<%s const, %d> con{};" % (base, n, base, n)) if n == 0 else \
        c.s("std::array<%s, %d> more{}; stdx::span<%s, %d> mut{more}; stdx::span<%s const, %d> con{more};" % (base, n, base, n, base, n))
    c.note("writable bytes of a constant span")
    c.twin("CHK(stdx::as_writable_bytes(mut).size() == %d * sizeof(%s), \"bytes\");" % (n, base),
           "[[maybe_unused]] auto y = stdx::as_writable_bytes(con);")
    return n > 0


KINDS = ["int", "V0", "char", "double", "E0", "En", "ptr", "M0", "iref", "E1", "V1"]


def tuples(t, c):
    c.s("using namespace stdx::literals;")
    n = t.weighted([(1, 0), (3, 1), (4, 2), (3, 4), (1, 9)])
    es = elems(t, c, n, KINDS)
    x = decl(c, es)
    what = t.choose(7)
    if what <= 1:
        if n == 0:
            es = elems(t, c, 1, KINDS)
            n, x = 1, decl(c, es, "t0")
        k, w = upto(t, n - 1), past(t, n - 1, 2**63)
        f = t.pick(["stdx::get<%dull>(%s)", "%s[stdx::index<%dull>]", "%s[%d_idx]"])
        form = lambda i: f % ((i, x) if f[0] == "s" else (x, i))
        c.note("element %d of tuple %s" % (w, show(es)))
        if "tuple_element" in f:
            c.twin("CHK_SAME(VB_T(%s), VB_T(%s), \"type\");" % (form(k), es[k].type), "[[maybe_unused]] std::add_pointer_t<%s> q{};" % form(w))
        else:
            c.twin("CHK_EQ(vb::rd(%s), %s, \"element\");" % (form(k), es[k].rd), "[[maybe_unused]] auto &&q = %s;" % form(w))
        return n > 1
    if what == 2:
        have = {e.type for e in es}
        uniq = [e for e in es if [f.type for f in es].count(e.type) == 1]
        absent = [ty for ty in ["int", "char", "double", "float", "unsigned", "vb::V<0>", "vb::V<7>", "int &", "int const", "void *"] if ty not in have]
        w = t.pick(absent)
        c.note("element of type %s of tuple %s" % (w, show(es)))
        good = "CHK_EQ(vb::rd(stdx::get<%s>(%s)), %s, \"element\");" % (uniq[0].type, x, uniq[0].rd) if uniq else ";"
        c.twin(good, "[[maybe_unused]] auto &&q = stdx::get<%s>(%s);" % (w, x))
        return n > 1
    if what == 3:
        # comparison with a tuple of another length
        m = t.weighted([(2, n + 1), (1, n + 3), (2 if n else 0, n - 1)])
        op = t.pick(["==", "!=", "<", "<=>", ">="])
        c.s("std::array<int, 1> unused{};")
        c.s("stdx::tuple<%s> a{}, b{}; stdx::tuple<%s> s{};" % (", ".join(["int"] * n), ", ".join(["int"] * m)))
        c.note("tuples of %d and %d elements compared by %s" % (n, m, op))
        c.twin("[[maybe_unused]] auto q = a %s b;" % op, "[[maybe_unused]] auto q = a %s s;" % op)
        return True
    if what == 4:
        op = t.pick(["==", "!=", "<", "<=>", ">="])
        ty, v = t.pick([("int", "3"), ("char", "'a'"), ("double", "1.0"), ("vb::En", "vb::En{2}")])
        c.s("stdx::tuple<%s> a{%s};" % (ty, v))
        c.note("tuple of one %s compared with the element by %s" % (ty, op))
        l, r = ("a", v) if t.flip() else (v, "a")
        c.twin("[[maybe_unused]] auto q = a %s a;" % op, "[[maybe_unused]] auto q = %s %s %s;" % (l, op, r))
        return True
    if what == 5:
        k = t.choose(4)
        nm, lam = [("for_each", "[](auto...) {}"), ("all_of", "[](auto...) { return true; }"), ("any_of", "[](auto...) { return true; }"),
                   ("none_of", "[](auto...) { return false; }")][k]
        if t.chance(1, 5):
            nm, lam = "enumerate", "[]<std::size_t>(auto...) {}"
        m = t.range(1, 3)
        ln = t.range(1, 4)
        c.s("std::array<int, %d> arr{}; stdx::tuple<%s> tup{};" % (ln, ", ".join(["int"] * ln)))
        c.note("%s over %d arrays" % (nm, m))
        # a tuple anywhere makes it a tuple algorithm; arrays alone need the unrolled form
        if t.flip():
            at = t.choose(m)
            c.twin("(void)stdx::%s(%s, %s);" % (nm, lam, ", ".join("tup" if i == at else "arr" for i in range(m))) if nm in ("all_of", "any_of", "none_of")
                   else "stdx::%s(%s, %s);" % (nm, lam, ", ".join("tup" if i == at else "arr" for i in range(m))),
                   "(void)stdx::%s(%s, %s);" % (nm, lam, ", ".join(["arr"] * m)))
        else:
            c.twin("(void)stdx::unrolled_%s(%s, %s);" % (nm, lam, ", ".join(["arr"] * m)),
                   "(void)stdx::%s(%s, %s);" % (nm, lam, ", ".join(["arr"] * m)))
        return True
    c.s("stdx::tuple<> none{}; stdx::tuple<int, int> two{1, 2}; auto add = [](int p, int q) { return p + q; };")
    c.note("join of an empty tuple")
    if t.flip():
        c.twin("CHK_EQ(two.join(add), 3, \"joined\");", "(void)none.join(add);")
    else:
        c.twin("CHK_EQ(none.join(4, add), 4, \"joined\");", "(void)none.join(add);")
    return True


UNS = [("std::uint8_t", 8), ("std::uint16_t", 16), ("std::uint32_t", 32), ("std::uint64_t", 64)]


def bitsets(t, c):
    what = t.choose(8)
    if what <= 1:
        ty, w = t.pick(UNS)
        if t.chance(1, 3):
            c.d("enum struct en : %s {};" % ty)
            ty = "en"
        good, bad = upto(t, w), past(t, w, 400)
        if what == 0:
            el = t.pick([", " + u for u, _ in UNS] + [""])
            c.note("bitset of %d bits%s as %s" % (bad, el, ty))
            c.twin("CHK((stdx::bitset<%d%s>{}.template to<%s>() == %s{}), \"value\");" % (max(1, good), el, ty, ty),
                   "[[maybe_unused]] auto q = stdx::bitset<%d%s>{}.template to<%s>();" % (bad, el, ty))
            return True
        bad = min(bad, 64) if w < 64 else bad
        if bad <= 64:
            c.note("atomic bitset of %d bits as %s" % (bad, ty))
            c.twin("CHK(stdx::atomic_bitset<%d>{}.template to<%s>() == %s{}, \"value\");" % (max(1, good), ty, ty),
                   "[[maybe_unused]] auto q = stdx::atomic_bitset<%d>{}.template to<%s>();" % (bad, ty))
        else:
            c.note("atomic bitset of %d bits" % bad)
            c.twin("CHK(stdx::atomic_bitset<%d>{}.template to<%s>() == %s{}, \"value\");" % (max(1, good), ty, ty),
                   "[[maybe_unused]] stdx::atomic_bitset<%d> q{};" % bad)
        return True
    if what == 2:
        ty, w = t.pick(UNS)
        good, bad = max(1, upto(t, w)), past(t, w, 400)
        c.note("atomic bitset of %d bits in %s" % (bad, ty))
        c.twin("CHK((stdx::atomic_bitset<%d, %s>{}.none()), \"empty\");" % (good, ty), "[[maybe_unused]] stdx::atomic_bitset<%d, %s> q{};" % (bad, ty))
        return True
    if what == 3:
        n = t.pick([1, 7, 8, 32, 33, 64])
        s = t.pick(["int", "signed char", "short", "long long", "float"])
        k = t.pick(["", "atomic_"])
        c.note("%sbitset stored in %s" % (k, s))
        c.twin("CHK((stdx::%sbitset<%d, std::uint64_t>{}.none()), \"empty\");" % (k, n), "[[maybe_unused]] stdx::%sbitset<%d, %s> q{};" % (k, min(n, 7), s))
        return True
    if what == 4:
        n = t.pick([8, 32, 70])
        bad = t.pick(["1.0f", "2.0", "nullptr", "\"x\""])
        at = t.choose(3)
        places = ["1", "3u", "vb::En{2}"]
        worse = places[:at] + [bad] + places[at:]
        c.note("bit place " + bad)
        c.twin("CHK((stdx::bitset<%d>{stdx::place_bits, 1, 3u}.count() == 2), \"count\");" % n,
               "[[maybe_unused]] auto q = stdx::bitset<%d>{stdx::place_bits, %s};" % (n, ", ".join(worse)))
        return True
    if what == 5:
        u = t.pick(["", " : std::uint8_t", " : unsigned"])
        c.d("enum struct E1%s { A, B, C, MAX }; enum struct E2%s { X, Y, Z };" % (u, u))
        c.s("stdx::bitset<E1::MAX> b{}; std::array<int, 1> unused{};")
        call = t.pick(["b.set(%s);", "b.reset(%s);", "b.flip(%s);", "(void)b[%s];", "b.set(%s, false);"])
        good = "E1::" + t.pick("ABC")
        bad = t.pick(["E2::" + t.pick("XYZ"), "vb::En{1}"])
        c.note("%s of a bitset over another enumeration" % (call % bad))
        c.twin(call % good, call % bad)
        return True
    tys = ["int", "float", "char", "unsigned", "vb::V<0>", "vb::V<1>", "void *", "int const", "double"]
    tys = t.shuffle(tys)
    n = t.range(1, 7)
    have, absent = tys[:n], tys[n:]
    c.s("stdx::type_bitset<%s> b{};" % ", ".join(have))
    k = t.choose(5)
    g, w = t.pick(have), t.pick(absent)
    more = t.pick(have)
    call = ["b.set<%s>();", "b.reset<%s>();", "b.flip<%s>();", "(void)b[stdx::type_identity_v<%s>];",
            "stdx::type_bitset<" + ", ".join(have) + "> q{stdx::type_list<%s>{}}; (void)q;"][k]
    if k != 3 and t.flip():
        wl = t.pick(["%s, %s" % (more, w), "%s, %s" % (w, more)])
        gl = g
    else:
        wl, gl = w, g
    c.note("%s of a bitset of types %s" % (call % wl, ", ".join(have)))
    c.twin(call % gl, call % wl)
    return True


def bits(t, c):
    what = t.choose(7)
    if what <= 1:
        ty, w = t.pick(UNS)
        m = upto(t, w - 1)
        l = upto(t, m)
        if t.flip():
            bad = "%d, %d" % (past(t, w - 1, 2000), l)
        else:
            l2 = t.range(1, w - 1)
            bad = "%d, %d" % (l2 - 1 - t.choose(l2), l2)
        c.note("mask %s of %s" % (bad, ty))
        c.twin("CHK((stdx::bit_mask<%s, %d, %d>() == static_cast<%s>(((%d == 63 ? 0ull : 1ull << (%d + 1) %% 64) - 1ull) & ~((1ull << %d) - 1ull))), \"mask\");" % (
            ty, m, l, ty, m, m, l), "[[maybe_unused]] auto q = stdx::bit_mask<%s, %s>();" % (ty, bad))
        return True
    if what == 2:
        ty, w = t.pick(UNS[1:])
        parts = t.pick([p for p in (8, 16, 32) if p < w])
        n = w // parts
        bad = n + t.pick([-1, 1])
        vals = lambda k: ", ".join("std::uint%d_t{%d}" % (parts, i + 1) for i in range(k))
        ok = {8: {2: 16, 4: 32, 8: 64}, 16: {2: 32, 4: 64}, 32: {2: 64}}[parts]
        c.note("%d parts of %d bits packed in %d" % (bad, parts, w))
        c.twin("[[maybe_unused]] auto q = stdx::bit_pack<%s>(%s);" % (ty, vals(n)), "[[maybe_unused]] auto q = stdx::bit_pack<%s>(%s);" % (ty, vals(bad)))
        return True
    if what == 3:
        f, w = t.pick(UNS[1:])
        to, _ = t.pick([u for u in UNS if u[1] < w])
        sf, st = f.replace("uint", "int"), to.replace("uint", "int")
        bad = t.pick([(to, sf), (st, f), (st, sf)])
        c.note("unpacking %s into %s" % (bad[1], bad[0]))
        c.twin("[[maybe_unused]] auto q = stdx::bit_unpack<%s>(%s{5});" % (to, f), "[[maybe_unused]] auto q = stdx::bit_unpack<%s>(%s{5});" % bad)
        return True
    if what == 4:
        g = t.pick(["5", "5u", "std::uint8_t{3}", "'a'", "-7ll"])
        f = t.pick(["as_signed", "as_unsigned"])
        b = t.pick(["true", "false", "(3 > 2)"])
        c.note("%s of a truth value" % f)
        c.twin("[[maybe_unused]] auto q = stdx::%s(%s);" % (f, g), "[[maybe_unused]] auto q = stdx::%s(%s);" % (f, b))
        return True
    if what == 5:
        c.s("[[maybe_unused]] int v = 0;")
        c.note("alignment of a value without an address")
        c.twin("(void)stdx::is_aligned_with<%s>(%s);" % (t.pick(["std::uint16_t", "std::uint64_t", "char"]), t.pick(["&v", "8", "16ull"])),
               "(void)stdx::is_aligned_with<%s>(%s);" % (t.pick(["std::uint16_t", "std::uint64_t"]), t.pick(["1.0", "2.0f", "vb::V<0>{}", "vb::En{8}"])))
        return True
    base = t.choose(4)
    pre, ok = [("", "0123456789"), ("0", "01234567"), ("0x", "0123456789abcdefABCDEF"), ("0b", "01")][base]
    no = [None, "89", None, "23456789"][base]
    d = "".join(t.pick(ok) for _ in range(t.range(1, 6)))
    if base == 0:
        d = t.pick("123456789") + d
        bad = d + t.pick([".5", "e2", ".0"])
    elif base == 2:
        bad = "0x" + d + ".8p1"
    else:
        at = t.choose(len(d) + 1)
        bad = pre + d[:at] + t.pick(no) + d[at:]
    c.s("using namespace stdx::literals;")
    c.note("literal " + bad)
    u = t.pick(["_c", "_idx"])
    c.twin("[[maybe_unused]] auto q = %s%s%s;" % (pre, d, u), "[[maybe_unused]] auto q = %s%s;" % (bad, u))
    return True


def values(t, c):
    what = t.choose(9)
    if what == 0:
        ty = t.pick(["unsigned", "std::uint8_t", "std::uint64_t", "unsigned char"])
        bad = t.pick(["int", "signed char", "std::int64_t", "float", "vb::En", "short"])
        c.note("rollover of " + bad)
        c.twin("CHK(stdx::rollover_t<%s>{} == stdx::rollover_t<%s>{}, \"zero\");" % (ty, ty), "[[maybe_unused]] stdx::rollover_t<%s> q{};" % bad)
        return True
    if what == 1:
        ty = t.pick(["unsigned", "std::uint8_t", "std::uint64_t"])
        op = t.pick(["<", ">", "<=", ">="])
        c.s("using R = stdx::rollover_t<%s>; R a{}, b{%s{%d}};" % (ty, ty, t.choose(200)))
        c.note("rollover values ordered by " + op)
        c.twin("[[maybe_unused]] auto q = cmp_less(a, b);", "[[maybe_unused]] auto q = a %s b;" % op)
        return True
    if what == 2:
        c.d("enum struct en : std::uint8_t { A, B }; struct st { int x; auto operator==(st const &) const -> bool = default; };")
        ty, tomb = t.pick([("en", "en{0xff}"), ("int", "-1"), ("char", "'x'"), ("unsigned", "9u"), ("bool", "false"), ("st", "st{4}")])
        c.note("optional %s with no way to be empty" % ty)
        c.twin("CHK(not (stdx::optional<%s, stdx::tombstone_value<%s>>{}), \"empty\");" % (ty, tomb),
               "[[maybe_unused]] stdx::optional<%s> q{};" % ty)
        return True
    if what == 3:
        n = t.range(1, 9)
        good = t.pick(["std::array<int, %d>" % n, "stdx::span<int, %d>" % n, "stdx::cx_vector<int, %d>" % n, "stdx::cx_map<int, int, %d>" % n,
                       "stdx::cx_set<int, %d>" % n, "stdx::cx_queue<int, %d>" % n, "std::span<int, %d>" % n])
        bad = t.pick(["std::vector<int>", "stdx::span<int>", "std::span<int>", "std::string", "std::vector<char>", "int", "std::string_view"])
        q = t.pick(["", " const"])
        c.note("compile-time capacity of " + bad)
        c.twin("static_assert(stdx::ct_capacity_v<%s%s> == %d);" % (good, q, n), "[[maybe_unused]] constexpr auto q = stdx::ct_capacity_v<%s%s>;" % (bad, q))
        return True
    if what == 4:
        n = t.range(1, 6)
        k, w = upto(t, n), n + t.range(1, 3)
        ct = t.choose(3)
        ty = ["stdx::cx_vector<int, %d>", "stdx::cx_set<int, %d>", "stdx::cx_map<int, int, %d>"][ct] % n
        val = "typename M::value_type{%d, 0}" if ct == 2 else "%d"
        c.s("using M = %s;" % ty)
        mk = lambda m: ", ".join((val % i).replace("typename ", "") for i in range(m))
        c.note("%s made from %d values" % (ty, w))
        c.twin("CHK((M{%s}.size() == %d), \"size\");" % (mk(k), k), "[[maybe_unused]] auto q = M{%s};" % mk(w))
        return True
    if what == 5:
        bad = t.pick(["std::string", "std::vector<int>", "vb::V<0>"])
        good = t.pick(["int", "std::uint16_t", "double", "vb::En"])
        c.s("std::array<std::uint8_t, 64> mem{}; auto it = stdx::byterator{mem.begin()};")
        k = t.choose(3)
        call = ["[[maybe_unused]] auto q = it.template peek<%s>();", "[[maybe_unused]] auto q = it.template read<%s>();", "it.write(%s{});"][k]
        c.note(call % bad)
        c.twin(call % good, call % bad)
        return True
    if what == 6:
        c.d("struct one { one *next{}; }; struct two { two *next{}; two *prev{}; }; struct zero {};")
        k = t.choose(3)
        if k == 0:
            bad, l, good = t.pick(["one", "zero"]), "intrusive_list", "two"
        else:
            bad, l, good = "zero", "intrusive_forward_list", t.pick(["one", "two"])
        call = t.pick(["push_back", "push_front"])
        c.s("%s g{}; [[maybe_unused]] %s w{};" % (good, bad))
        c.note("%s holding nodes without links" % l)
        c.twin("stdx::%s<%s> l{}; l.%s(&g); l.pop_front();" % (l, good, call), "stdx::%s<%s> l{}; l.%s(&w); l.pop_front();" % (l, bad, call))
        return True
    if what == 7:
        op = t.pick(["++a;", "--a;", "(void)a++;", "(void)a--;"])
        bad = t.pick(["bool", "vb::En", "std::array<char, 4>"])
        c.note("%s on an atomic %s" % (op, bad))
        c.twin("stdx::atomic<%s> a{}; %s" % (t.pick(["int", "unsigned", "std::uint8_t"]), op), "stdx::atomic<%s> a{}; %s" % (bad, op))
        return True
    c.note("atomic of a type that is not trivially copyable")
    c.twin("stdx::atomic<%s> a{}; (void)a.load();" % t.pick(["int", "bool", "vb::En", "unsigned char"]),
           "stdx::atomic<%s> a{}; (void)a.load();" % t.pick(["std::string", "vb::V<0>", "std::vector<int>"]))
    return True


def functions(t, c):
    what = t.choose(6)
    if what == 0:
        n = t.range(1, 5)
        m = n * t.range(0, 3)
        bad = m + (t.range(1, n - 1) if n > 1 else 0)
        if n == 1:
            n, m, bad = 2, 4, 5
        given = t.flip()
        lam = "[&](%s) { ++calls; }" % ", ".join(["auto"] * n if given else ["int"] * n)
        f = "for_each_n_args<%d>" % n if given else "for_each_n_args"
        c.s("int calls = 0;")
        c.note("%d arguments in runs of %d" % (bad, n))
        call = lambda k: "stdx::%s(%s);" % (f, ", ".join([lam] + [str(i) for i in range(k)]))
        c.twin(call(m) + " CHK_EQ(calls, %d, \"calls\");" % (m // n), call(bad))
        return True
    if what == 1:
        tys = t.shuffle(["int", "vb::V<0>", "vb::V<1>", "vb::E<0>", "vb::En"])
        n = t.range(0, 4)
        have, absent = tys[:n], tys[n:]
        ps = t.pick([h for h in range(0, n + 1)])
        base = t.choose(n - ps + 1)
        good = have[base:base + ps]
        bad = list(good)
        bad.insert(t.choose(len(bad) + 1), t.pick(absent))
        extra = t.flip()
        c.s("auto args = stdx::tuple<%s>{};" % ", ".join(have))
        fn = lambda l: "[](%s) {}" % ", ".join(x + " const &" for x in l)
        fs = lambda l: "stdx::make_tuple(%s)" % (", ".join(t2 for t2 in ([fn(good)] if extra else []) + [fn(l)]))
        c.note("function of (%s) called with (%s)" % (", ".join(bad), ", ".join(have)))
        c.twin("(void)stdx::call_by_need(%s, args);" % fs(good), "(void)stdx::call_by_need(%s, args);" % fs(bad))
        return n > 0
    if what == 2:
        n = t.range(0, 4)
        bad = n + 1 + t.choose(2) if n == 0 or t.flip() else n - 1 - t.choose(n)
        fmt = "".join(t.pick(["a", "b ", ""]) + "{}" for _ in range(n)) + t.pick(["", "end"])
        arg = lambda k: ", ".join(t.pick(["CX_VALUE(%d)" % i, "%d" % i]) for i in range(k))
        c.note("%d arguments for a format with %d places" % (bad, n))
        c.twin("[[maybe_unused]] auto q = stdx::ct_format<\"%s\">(%s);" % (fmt, arg(n)),
               "[[maybe_unused]] auto q = stdx::ct_format<\"%s\">(%s);" % (fmt, arg(bad)))
        return True
    if what == 3:
        c.note("text of a format that still has run-time arguments")
        c.s("[[maybe_unused]] int rt = %d;" % t.choose(9))
        pre = t.pick(["", "x", "{} "])
        ct = "CX_VALUE(3), " if pre == "{} " else ""
        c.twin("[[maybe_unused]] auto q = +stdx::ct_format<\"%s{}\">(%sCX_VALUE(5));" % (pre, ct),
               "[[maybe_unused]] auto q = +stdx::ct_format<\"%s{}\">(%srt);" % (pre, ct))
        return True
    if what == 4:
        good = t.pick(["stdx::type_list<int, char>", "vb::list<int>", "stdx::value_list<1, 2>", "std::index_sequence<4, 5>", "std::make_integer_sequence<int, 3>"])
        bad = t.pick(["int", "int *", "int[3]", "std::array<int, 2>", "int const", "vb::En"])
        head = "typename" if "list<int" in good else "auto"
        f = t.pick(["template_for_each", "apply_sequence"])
        lam = "[]<%s%s>() {}" % (head, "..." if f == "apply_sequence" else "")
        c.note("%s of %s" % (f, bad))
        c.twin("stdx::%s<%s>(%s);" % (f, good, lam), "stdx::%s<%s>(%s);" % (f, bad, lam))
        return True
    c.d("[[maybe_unused]] constexpr inline struct q0_t { template <typename Ev> consteval auto operator()(Ev &&e) const "
        "-> decltype(std::forward<Ev>(e).query(*this)) { return std::forward<Ev>(e).query(*this); } } q0{};")
    c.d("[[maybe_unused]] constexpr inline struct q1_t { template <typename Ev> consteval auto operator()(Ev &&e) const "
        "-> decltype(std::forward<Ev>(e).query(*this)) { return std::forward<Ev>(e).query(*this); } } q1{};")
    v = t.range(0, 99)
    c.d("using E = stdx::make_env_t<q0, %d>;" % v)
    c.note("query that the environment does not answer")
    c.twin("static_assert(stdx::query<E>(q0) == %d);" % v, "[[maybe_unused]] constexpr auto q = stdx::query<E>(q1);")
    return True


SMALL = [("std::uint8_t", 8), ("std::uint16_t", 16), ("std::uint32_t", 32)]


def kinds(t, c):
    """The wrong kind of type, or a type and a limit that do not go together."""
    what = t.choose(12)
    if what == 0:
        k = t.pick(["", "atomic_"])
        n = t.range(1, 30)
        bad = t.pick(["int", "long long", "float", "double", "std::int32_t", "sen"])
        good = t.pick(["unsigned", "std::uint32_t", "std::uint64_t", "uen"])
        c.d("enum struct sen : int {}; enum struct uen : unsigned {};")
        c.note("%sbitset of %d bits as %s" % (k, n, bad))
        c.twin("CHK((stdx::%sbitset<%d>{}.template to<%s>() == %s{}), \"value\");" % (k, n, good, good),
               "[[maybe_unused]] auto q = stdx::%sbitset<%d>{}.template to<%s>();" % (k, n, bad))
        return True
    if what == 1:
        el = t.pick([", " + u for u, _ in UNS] + [""])
        n, w = upto(t, 63) + 1, past(t, 64, 300)
        c.note("natural number of a bitset of %d bits" % w)
        c.twin("CHK((stdx::bitset<%d%s>{}.to_natural() == 0), \"value\");" % (n, el), "[[maybe_unused]] auto q = stdx::bitset<%d%s>{}.to_natural();" % (w, el))
        return True
    if what == 2:
        ty, w = t.pick(UNS)
        k = t.range(1, 4)
        cuts = sorted({t.range(1, w - 1) for _ in range(k)})
        bad = list(cuts)
        at = t.choose(len(bad))
        how = t.choose(3)
        if how == 0:
            bad.insert(at, bad[at])
        elif how == 1:
            bad.append(w + t.pick([0, 1, 7]))
        elif len(bad) > 1:
            bad.reverse()
        else:
            bad.insert(0, 0)
        c.note("%s cut at %s" % (ty, bad))
        f = lambda xs: "stdx::bit_destructure<%s>(%s{3})" % (", ".join(map(str, xs)), ty)
        c.twin("CHK(%s.size() == %d, \"parts\");" % (f(cuts).join("()"), len(cuts) + 1), "[[maybe_unused]] auto q = %s;" % f(bad))
        return True
    if what == 3:
        n = t.weighted([(2, 1), (3, 3), (1, 40)])
        ty = t.pick(["int", "unsigned", "std::uint8_t", "std::size_t", "short"])
        seq = "stdx::make_integer_sequence<%s, %d>" % (ty, n)
        k, w = upto(t, n - 1), past(t, n - 1, 2**20)
        f = t.choose(3)
        c.note("element %d of a sequence of %d" % (w, n))
        if f == 0:
            c.twin("static_assert(decltype(stdx::get<%d>(%s{}))::value == %d);" % (k, seq, k), "[[maybe_unused]] auto q = stdx::get<%d>(%s{});" % (w, seq))
        else:
            ns = ["stdx", "std"][f - 1]
            c.twin("static_assert(%s::tuple_element_t<%d, %s>::value == %d);" % (ns, k, seq, k),
                   "[[maybe_unused]] %s::tuple_element_t<%d, %s> q{};" % (ns, w, seq))
        return n > 1
    if what == 4:
        n = t.range(1, 5)
        ty = t.pick(["int", "char", "vb::V<0>"])
        ar, n = t.pick([("std::array<%s, %d>" % (ty, n), n), ("std::pair<%s, %s>" % (ty, ty), 2)])
        k, w = upto(t, n - 1), past(t, n - 1)
        c.note("type of element %d of %s" % (w, ar))
        c.twin("CHK_SAME(VB_T(stdx::tuple_element_t<%d, %s>), VB_T(%s), \"type\");" % (k, ar, ty),
               "[[maybe_unused]] stdx::tuple_element_t<%dull, %s> *q{};" % (w, ar))
        return True
    if what == 5:
        n = t.range(1, 6)
        k, w = upto(t, n - 1), past(t, n - 1, 2**31)
        if t.flip():
            c.note("type %d of %d" % (w, n))
            c.twin("CHK_SAME(VB_T(stdx::nth_t<%d, %s>), VB_T(std::integral_constant<int, %d>), \"type\");" % (
                k, ", ".join("std::integral_constant<int, %d>" % i for i in range(n)), k),
                "[[maybe_unused]] stdx::nth_t<%d, %s> *q{};" % (w, ", ".join(["int"] * n)))
        else:
            c.note("value %d of %d" % (w, n))
            c.twin("static_assert(stdx::nth_v<%d, %s> == %d);" % (k, ", ".join(str(10 + i) for i in range(n)), 10 + k),
                   "[[maybe_unused]] constexpr auto q = stdx::nth_v<%d, %s>;" % (w, ", ".join(str(10 + i) for i in range(n))))
        return n > 1
    if what == 6:
        ty = t.pick(["int", "vb::V<0>", "std::array<int, 3>", "vb::En"])
        k = t.choose(3)
        c.d("struct none {};")
        if k == 0:
            c.note("shrinking outside an unevaluated context")
            c.twin("CHK_SAME(VB_T(stdx::expand_t<decltype(stdx::shrink<%s>())>), VB_T(%s), \"type\");" % (ty, ty), "(void)stdx::shrink<%s>();" % ty)
        elif k == 1:
            c.note("expanding outside an unevaluated context")
            c.twin("CHK_SAME(VB_T(decltype(stdx::expand<stdx::shrink_t<%s>>())), VB_T(%s), \"type\");" % (ty, ty), "(void)stdx::expand<stdx::shrink_t<%s>>();" % ty)
        else:
            c.note("object of a type with state made by expanding")
            c.twin("CHK_SAME(VB_T(decltype(stdx::expand(stdx::shrink_t<none>{}))), VB_T(none), \"type\"); (void)stdx::expand(stdx::shrink_t<none>{});",
                   "(void)stdx::expand(stdx::shrink_t<%s>{});" % ty)
        return True
    if what == 7:
        f = t.pick(["countl_zero(%s)", "countr_zero(%s)", "countl_one(%s)", "countr_one(%s)", "popcount(%s)", "bit_ceil(%s)", "bit_floor(%s)",
                    "has_single_bit(%s)", "bit_width(%s)", "rotl(%s, 3)", "rotr(%s, 3)", "to_le(%s)", "to_be(%s)", "from_le(%s)", "from_be(%s)"])
        good = t.pick(["5u", "std::uint8_t{5}", "std::uint64_t{5}", "std::uint16_t{9}"])
        bad = t.pick(["5", "-1", "1.0", "5ll", "vb::En{1}"])
        c.note("%s of a type that is not unsigned" % (f % bad))
        c.twin("[[maybe_unused]] auto q = stdx::%s;" % (f % good), "[[maybe_unused]] auto q = stdx::%s;" % (f % bad))
        return True
    if what == 8:
        ty, w = t.pick(SMALL)
        n = t.range(1, 4)
        ar = "std::array<%s, %d>" % (ty, n)
        top = n * w
        m = upto(t, top - 1)
        l = upto(t, m)
        how = t.choose(3)
        if how == 0:
            bad = "%s, %d, %d" % (ar, past(t, top - 1, 4000), l)
        elif how == 1:
            l2 = t.range(1, top - 1)
            bad = "%s, %d, %d" % (ar, l2 - 1 - t.choose(l2), l2)
        else:
            bad = "std::array<%s, %d>, %d, %d" % (ty.replace("uint", "int"), n, m, l)
        c.note("mask %s" % bad)
        c.twin("CHK((stdx::popcount(stdx::bit_mask<%s, %d, %d>()[0]) <= %d), \"mask\");" % (ar, m, l, w), "[[maybe_unused]] auto q = stdx::bit_mask<%s>();" % bad)
        return True
    if what == 9:
        good = t.pick(["int", "unsigned", "char", "std::int64_t"])
        bad = t.pick(["double", "float", "vb::En", "void *", "vb::V<0>"])
        c.note("counting by " + bad)
        c.twin("CHK((stdx::counting_iterator<%s>{} == stdx::counting_iterator<%s>{}), \"equal\");" % (good, good), "[[maybe_unused]] stdx::counting_iterator<%s> q{};" % bad)
        return True
    if what == 10:
        # where an atomic value may be kept
        size = t.pick([2, 4, 8])
        un = lambda b: "std::uint%d_t" % (8 * b)
        body = "%s x;" % un(size)
        big = [s for s in (2, 4, 8) if s >= size]
        how = t.choose(3)
        c.d("struct good { %s using kept_in = %s; };" % (body, un(t.pick(big))))
        if how == 0:
            c.d("struct bad { %s using kept_in = %s; };" % (body, un(t.pick([s for s in (1, 2, 4) if s < size]))))
        elif how == 1:
            c.d("struct bad { %s using kept_in = std::array<char, %d>; };" % (body, size * t.range(1, 3)))
        else:
            e = t.pick(big)
            c.d("struct bad { %s using kept_in = %s; constexpr static std::size_t kept_at = %d; };" % (body, un(e), e // 2))
        c.note("atomic value kept in a %s place" % ["smaller", "less aligned", "misaligned"][how])
        c.twin("[[maybe_unused]] stdx::atomic<good> a{};", "[[maybe_unused]] stdx::atomic<bad> a{};")
        return True
    k = t.choose(3)
    if k == 0:
        op = t.pick(["+", "-", "&", "|", "^"])
        nm = {"+": "add", "-": "sub", "&": "and", "|": "or", "^": "xor"}[op]
        bad = t.pick(["std::array<int, 2>"] + (["float", "double"] if op in "&|^" else []))
        f = t.pick(["(void)a.fetch_%s({});" % nm, "(void)(a %s= {});" % op])
        c.note("atomic %s: %s" % (bad, f))
        c.twin("stdx::atomic<unsigned> a{}; %s" % f, "stdx::atomic<%s> a{}; %s" % (bad, f))
        return True
    ty = t.pick(["stdx::atomic<int>", "stdx::atomic<bool>", "stdx::atomic<vb::En>"])
    c.note("copy of " + ty)
    c.twin("[[maybe_unused]] %s a{};" % ty, "%s a{}; [[maybe_unused]] auto b = a;" % ty if k == 1 else "%s a{}, b{}; a = b;" % ty)
    return True


def views(t, c):
    """Things that do not go together: containers, views and elements."""
    what = t.choose(5)
    if what == 0:
        n = t.range(1, 5)
        src = t.pick(["int const store[%d]{};", "std::array<int, %d> const store{};"]) % n
        c.s(src)
        ex = t.pick([str(n), "stdx::dynamic_extent"])
        c.note("writable span of constant storage")
        c.twin("[[maybe_unused]] stdx::span<int const, %s> q{store};" % ex, "[[maybe_unused]] stdx::span<int, %s> q{store};" % ex)
        return True
    if what == 1:
        a, b = t.pick([("int", "short"), ("std::uint8_t", "char"), ("double", "float"), ("unsigned", "int")])
        op = t.pick(["==", "!=", "<", ">=", "-"])
        c.s("std::array<%s, 3> mine{}; [[maybe_unused]] std::array<%s, 3> other{}; auto it = stdx::byterator{mine.begin()};" % (a, b))
        c.note("byte iterator over %s %s iterator over %s" % (a, op, b))
        c.twin("(void)(it %s mine.begin());" % op if op != "-" else "(void)(it - it);", "(void)(it %s other.begin());" % op)
        return True
    if what == 2:
        c.s("std::array<int, 3> const mem{}; std::array<int, 3> open{}; [[maybe_unused]] auto r = stdx::byterator{mem.begin()}; auto w = stdx::byterator{open.begin()};")
        call = t.pick([".write(3)", ".template write<std::uint8_t>(3)", ".writeu8(3)", ".writeu32(3)"])
        c.note("writing through a byte iterator over constants")
        c.twin("w%s;" % call, "r%s;" % call)
        return True
    if what == 3:
        n = t.range(1, 4)
        c.s("std::vector<int> v(%d);" % n)
        src = t.pick(["v", "stdx::span<int>{v}"])
        c.note("span of fixed extent from a run-time one without saying so")
        c.twin("[[maybe_unused]] stdx::span<int, %d> q{%s};" % (n, src), "[[maybe_unused]] stdx::span<int, %d> q = %s;" % (n, src))
        return True
    c.d("struct odd { int x; };")
    ty, v = t.pick([("float", "1.0f"), ("int *", "nullptr"), ("double", "2.0")])
    c.s("stdx::optional<%s> o{};" % ty)
    call = t.pick(["o = %s;", "(void)stdx::optional<" + ty + ">{%s};", "(void)o.value_or(%s);"])
    c.note(call % "odd{}" + " of an optional " + ty)
    c.twin(call % v, call % "odd{}")
    return True


def gen(t, c):
    c.nontrivial = t.weighted([(6, spans), (6, tuples), (5, bitsets), (4, bits), (5, values), (5, functions), (8, kinds), (3, views)])(t, c)
    c.labels.add(c.notes[-1].split()[0])
