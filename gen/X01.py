ELEM = ["int", "unsigned char", "vb::V<0>", "long", "vb::En"]


def lit(ty, v):
    v %= 100
    return "%s(%d + z)" % ("(unsigned char)" if ty == "unsigned char" else ty, v) if ty not in ("vb::En", "vb::V<0>") else "%s{%d + z}" % (ty, v)


def vector(t, c):
    ty, n = t.pick(ELEM), t.range(1, 8)
    init = t.range(0, min(3, n))
    k = init
    b = ["stdx::cx_vector<%s, %d> v%s;" % (ty, n, "{%s}" % ", ".join(lit(ty, t.choose(99)) for _ in range(init)) if init else ""), "auto w = v;"]
    for _ in range(t.range(1, 14)):
        op = t.choose(12)
        if op in (0, 1, 2) and k < n:
            b.append(t.pick(["o << v.push_back(%s);", "{ %s const e = %%s; o << v.push_back(e); }" % ty]) % lit(ty, t.choose(99)))
            k += 1
        elif op == 3 and k:
            b.append("o << v.pop_back();")
            k -= 1
        elif op == 4 and k:
            b.append("v[%d + z] = %s;" % (t.choose(k), lit(ty, t.choose(99))))
        elif op == 5:
            b.append("v.clear();")
            k = 0
        elif op == 6 and k:
            b.append("o << v.front() << v.back() << std::as_const(v).front() << std::as_const(v).back() << v[%d + z] << std::as_const(v)[%d];" % (t.choose(k), t.choose(k)))
        elif op == 7:
            b.append("o << v.size() << v.full() << v.empty() << v.capacity();")
        elif op == 8:
            b.append("o << (v == w); w = v; o << (v == w);")
        elif op == 9:
            b.append("for (auto i = v.rbegin(); i != v.rend(); ++i) { o << *i; }")
        elif op == 10:
            m = t.range(0, n)
            if m:
                b.append("resize_and_overwrite(v, [&](%s *p, std::size_t cap) { o << cap; %s return %du; });" % (
                    ty, " ".join("p[%d] = %s;" % (i, lit(ty, t.choose(99))) for i in range(m)), m))
                k = m
        elif op == 11 and k:
            i = t.choose(k)
            b.append("o << v.template get<%d>() << get<%d>(v) << get<%d>(std::as_const(v));" % (i, i, i))
        b.append("o.all(v);")
    return b


def sets(t, c):
    ty, n = t.pick(["int", "unsigned char", "vb::En", "long"]), t.range(1, 7)
    s = set()
    b = ["stdx::cx_set<%s, %d> v;" % (ty, n)]
    for _ in range(t.range(1, 14)):
        op, x = t.choose(8), t.choose(9)
        e = lit(ty, x)
        if op < 3 and (x in s or len(s) < n):
            b.append(t.pick(["o << v.insert(%s);", "{ auto const e = %s; o << v.insert(e); }"]) % e)
            s.add(x)
        elif op == 3:
            b.append("o << v.erase(%s);" % e)
            s.discard(x)
        elif op == 4:
            b.append("o << v.contains(%s) << v.size() << v.empty() << v.capacity();" % e)
        elif op == 5 and s:
            b.append("v.clear();")
            s = set()
        elif op == 6:
            new = {t.choose(9) for _ in range(t.range(1, 4))}
            if len(s | new) <= n:
                b.append("v.merge(stdx::cx_set<%s, %d>{%s});" % (ty, len(new), ", ".join(lit(ty, y) for y in sorted(new))))
                s |= new
        elif op == 7:
            b.append("{ auto w = v; while (not w.empty()) { o << w.pop_back(); } }")
        b.append("o.all(std::as_const(v));")
    return b


def maps(t, c):
    ty, n = t.pick(["int", "vb::V<0>", "vb::En", "bool"]), t.range(1, 7)
    s = set()
    b = ["stdx::cx_map<int, %s, %d> v;" % (ty, n)]
    for _ in range(t.range(1, 14)):
        op, x = t.choose(8), t.choose(9)
        if op < 3 and (x in s or len(s) < n):
            b.append("o << v.%s(%d + z, %s);" % (t.pick(["insert_or_assign", "put"]), x, lit(ty, t.choose(99))))
            s.add(x)
        elif op == 3:
            b.append("o << v.erase(%d + z);" % x)
            s.discard(x)
        elif op == 4:
            b.append("o << v.contains(%d + z) << v.size() << v.empty() << v.full() << v.capacity();" % x)
        elif op == 5 and s:
            y = t.pick(sorted(s))
            b.append("o << v.get(%d + z) << std::as_const(v).get(%d); v.get(%d) = %s;" % (y, y, y, lit(ty, t.choose(99))))
        elif op == 6 and t.flip():
            b.append("v.clear();")
            s = set()
        elif op == 7:
            b.append("{ auto w = v; while (not w.empty()) { auto const e = w.pop_back(); o << e.key << e.value; } }")
        b.append("for (auto const &e : std::as_const(v)) { o << e.key << e.value; }")
    return b


def multimap(t, c):
    n, m = t.range(1, 5), t.range(1, 4)
    s = {}
    b = ["stdx::cx_multimap<int, int, %d, %d> v;" % (n, m)]
    for _ in range(t.range(1, 12)):
        op, x, y = t.choose(8), t.choose(6), t.choose(6)
        if op < 3 and (x in s or len(s) < n) and (y in s.get(x, ()) or len(s.get(x, ())) < m):
            b.append("v.%s(%d + z, %d + z);" % (t.pick(["insert", "put"]), x, y))
            s.setdefault(x, set()).add(y)
        elif op == 3 and (x in s or len(s) < n):
            b.append("v.%s(%d + z);" % (t.pick(["insert", "put"]), x))
            s.setdefault(x, set())
        elif op == 4:
            b.append("o << v.erase(%d + z);" % x)
            s.pop(x, None)
        elif op == 5 and s.get(x):
            b.append("o << v.erase(%d + z, %d);" % (x, y))
            s[x].discard(y)
            if not s[x]:
                del s[x]
        elif op == 6:
            b.append("o << v.contains(%d + z) << v.contains(%d, %d + z) << v.size() << v.empty() << v.capacity();" % (x, x, y))
        elif op == 7 and x in s:
            b.append("o.all(v.get(%d + z)); o.all(std::as_const(v).get(%d));" % (x, x))
        b.append("for (auto const &e : v) { o << e.key; o.all(e.value); }")
    return b


def queue(t, c):
    ty, n, k = t.pick(ELEM), t.range(1, 6), 0
    b = ["stdx::cx_queue<%s, %d> v;" % (ty, n)]
    for _ in range(t.range(1, 20)):
        op = t.choose(8)
        if op < 4 and k < n:
            b.append(t.pick(["o << v.push(%s);", "{ %s const e = %%s; o << v.push(e); }" % ty]) % lit(ty, t.choose(99)))
            k += 1
        elif op in (4, 5) and k:
            b.append("o << v.pop();")
            k -= 1
        elif op == 6 and t.chance(1, 3):
            b.append("v.clear();")
            k = 0
        if k:
            b.append("o << v.front() << v.back() << std::as_const(v).front() << std::as_const(v).back();")
        b.append("o << v.size() << v.full() << v.empty() << v.capacity();")
    return b


def bitset(t, c):
    n = t.pick([1, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 128, 130])
    st = t.pick(["std::uint8_t", "std::uint16_t", "std::uint32_t", "std::uint64_t"])
    ty = "stdx::bitset<%d%s>" % (n, ", " + st if t.flip() else "")

    def make():
        k = t.choose(4)
        if k == 0:
            return "%s{}" % ty
        if k == 1:
            return "%s{stdx::all_bits}" % ty
        if k == 2:
            return "%s{stdx::place_bits%s}" % (ty, "".join(", %d" % t.choose(n) for _ in range(t.range(0, 4))))
        return "%s{std::string_view{\"%s\"}}" % (ty, "".join(t.pick("01") for _ in range(t.range(1, n)))) if t.flip() else "%s{%dull}" % (ty, t.choose(1 << 30))
    b = ["%s v = %s; %s w = %s;" % (ty, make(), ty, make())]
    for _ in range(t.range(1, 12)):
        op = t.choose(13)
        i = t.choose(n)
        j = t.range(i, n - 1)
        if op == 0:
            b.append("v.set(%du + z%s); v.%s(%du + z);" % (i, t.pick(["", ", false", ", true"]), t.pick(["reset", "flip"]), t.choose(n)))
        elif op == 1:
            b.append("v.%s();" % t.pick(["set", "reset", "flip", "clear"]))
        elif op == 2:
            b.append("v.%s(stdx::lsb_t{%du}, stdx::msb_t{%du});" % (t.pick(["set", "reset"]), i, j))
        elif op == 3:
            b.append("v.%s(stdx::lsb_t{%du}, stdx::length_t{%du});" % (t.pick(["set", "reset"]), i, j - i + 1))
        elif op == 4:
            b.append("v %s w;" % t.pick(["|=", "&=", "^="]))
        elif op == 5:
            b.append("w = v %s w;" % t.pick(["|", "&", "^", "-"]))
        elif op == 6:
            b.append("v %s %du + z;" % (t.pick(["<<=", ">>="]), t.choose(n + 3)))
        elif op == 7:
            b.append("w = v %s %du;" % (t.pick(["<<", ">>"]), t.choose(n + 3)))
        elif op == 8:
            b.append("w = ~v; o << (v == w);")
        elif op == 9:
            b.append("for_each([&](auto p) { o << p; }, %s);" % ("v"))
            b.append("o << transform_reduce([](auto p) { return unsigned(p); }, [](unsigned x, unsigned y) { return x * 3 + y; }, 1u, w);")
        elif op == 10:
            b.append("o << v[%du + z] << v.count() << v.size() << v.empty() << v.all() << v.any() << v.none();" % i)
        elif op == 11:
            b.append("o << v.lowest_unset();")
        elif op == 12 and n <= 64:
            b.append("o << v.to_natural() << v.template to<std::uint64_t>();")
        b.append("o << v.count();")
    b.append("for (auto p = 0u; p < %du; ++p) { o << v[p]; }" % n)
    return b


def type_bitset(t, c):
    tys = t.shuffle(["int", "char", "bool", "long", "vb::K<0>", "vb::K<1>", "void"])[:t.range(1, 7)]
    b = ["stdx::type_bitset<%s> v; decltype(v) w{stdx::all_bits};" % ", ".join(tys)]
    for _ in range(t.range(1, 10)):
        op, ty = t.choose(6), t.pick(tys)
        if op == 0:
            b.append("v.template %s<%s>();" % (t.pick(["set", "reset", "flip"]), ty))
        elif op == 1:
            b.append("v.%s();" % t.pick(["set", "reset", "flip", "clear"]))
        elif op == 2:
            b.append("v %s w;" % t.pick(["|=", "&=", "^="]))
        elif op == 3:
            b.append("w = v %s w;" % t.pick(["|", "&", "^", "-"]))
        elif op == 4:
            b.append("w = ~v; o << (v == w) << v[stdx::type_identity_v<%s>];" % ty)
        else:
            b.append("v.for_each([&]<typename T, std::size_t I>() { o << I; });")
        b.append("o << v.to_natural() << v.count() << v.all() << v.any() << v.none() << v.empty() << v.size();")
    return b


def bitops(t, c):
    bits = t.pick([8, 16, 32, 64])
    ty = "std::uint%d_t" % bits
    b = []
    for _ in range(t.range(2, 10)):
        x = t.pick([0, 1, (1 << bits) - 1, 1 << (bits - 1), t.choose(1 << bits), t.choose(1 << (bits // 2))])
        b.append("{ auto const x = static_cast<%s>(%dull + static_cast<unsigned>(z));" % (ty, x))
        op = t.choose(8)
        if op == 0:
            b.append("o << stdx::countl_zero(x) << stdx::countr_zero(x) << stdx::countl_one(x) << stdx::countr_one(x) << stdx::popcount(x);")
        elif op == 1:
            s = t.range(-bits, bits)
            b.append("o << stdx::rotl(x, %d + z) << stdx::rotr(x, %d + z);" % (s, s))
        elif op == 2:
            b.append("o << stdx::has_single_bit(x) << stdx::bit_width(x) << stdx::bit_floor(x);")
            if x <= 1 << (bits - 1):
                b.append("o << stdx::bit_ceil(x);")
        elif op == 3:
            b.append("o << stdx::byteswap(x) << stdx::to_le(x) << stdx::to_be(x) << stdx::from_le(x) << stdx::from_be(x);")
        elif op == 4 and bits < 64:
            to = t.pick([q for q in (16, 32, 64) if q > bits])
            n = to // bits
            b.append("{ auto const y = stdx::bit_pack<std::uint%d_t>(%s); o << y; auto const u = stdx::bit_unpack<%s>(y); o.all(u); }" % (
                to, ", ".join(["x"] + ["%s(%d)" % (ty, t.choose(1 << bits)) for _ in range(n - 1)]), ty))
        elif op == 5:
            m = t.choose(bits)
            l = t.range(0, m)
            b.append("o << stdx::bit_mask<%s>(%du, %du) << stdx::bit_mask<%s, %d, %d>();" % (ty, m, l, ty, m, l))
        elif op == 6:
            offs = sorted(set(t.range(1, bits - 1) for _ in range(t.range(1, 3))))
            b.append("o.all(stdx::bit_destructure<%s>(x));" % ", ".join(map(str, offs)))
        else:
            b.append("o << stdx::bit_cast<std::make_signed_t<%s>>(x) << stdx::as_signed(x) << stdx::as_unsigned(stdx::as_signed(x)) << stdx::bit_size<%s>();" % (ty, ty))
        b.append("}")
    return b


def rollover(t, c):
    bits = t.pick([8, 16, 32, 64])
    ty = "stdx::rollover_t<std::uint%d_t>" % bits

    def val():
        x = t.pick([0, 1, (1 << bits) - 1, 1 << (bits - 1), t.choose(1 << bits)])
        return x, "%s{static_cast<std::uint%d_t>(%dull + static_cast<unsigned>(z))}" % (ty, bits, x)
    b = ["auto a = %s; auto d = %s;" % (val()[1], val()[1])]
    for _ in range(t.range(1, 10)):
        op = t.choose(6)
        if op == 0:
            b.append("a %s %s;" % (t.pick(["+=", "-=", "*="]), val()[1]))
        elif op == 1:
            x, e = val()
            if x:
                b.append("a %s %s;" % (t.pick(["/=", "%="]), e))
        elif op == 2:
            b.append("o << %s;" % t.pick(["(a++).as_underlying()", "(++a).as_underlying()", "(a--).as_underlying()", "(--a).as_underlying()"]))
        elif op == 3:
            b.append("d = a %s d; o << (a == d) << (a != d) << cmp_less(a, d) << cmp_less(d, a);" % t.pick(["+", "-", "*"]))
        elif op == 4:
            b.append("d = -a; o << (+a).as_underlying();")
        else:
            f = t.pick(["int", "long", "std::int64_t", "unsigned"])
            to = t.pick(["std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t", "std::uint32_t"])
            b.append("o << stdx::saturate_cast<%s>(static_cast<%s>(%dll + z));" % (to, f, t.pick([-1, 0, 127, 128, 255, 256, -128, -129, 65535, 65536, 32767, -32769, 2147483647])))
        b.append("o << a.as_underlying() << d.as_underlying();")
    return b


def algorithms(t, c):
    n = t.range(0, 7)
    xs = ", ".join("%d + z" % t.choose(50) for _ in range(n))
    ys = ", ".join("%d + z" % t.choose(50) for _ in range(n))
    b = ["std::array<int, %d> x{%s}; std::array<int, %d> y{%s}; std::array<int, %d> q{};" % (n, xs, n, ys, n)]
    for _ in range(t.range(1, 6)):
        k = t.range(0, n)
        b.append(t.pick([
            "stdx::transform(x.begin(), x.end(), q.begin(), [](int a, int d) { return a * 3 - d; }, y.begin()); o.all(q);",
            "stdx::transform_n(x.begin(), %d, q.begin(), [](int a) { return a * 3; }); o.all(q);" % k,
            "stdx::for_each(x.begin(), x.end(), [&](int a, int d) { o << a << d; }, y.begin());",
            "stdx::for_each_n(y.begin(), %d, [&](int a) { o << a; });" % k,
            "stdx::for_each_butlast(x.begin(), x.end(), [&](int a, int d) { o << a << d; }, y.begin());",
            "stdx::for_each_butlastn(x.begin(), x.end(), %d, [&](int a) { o << a; });" % k,
            "stdx::initial_medial_final(x.begin(), x.end(), [&](int a) { o << a + 1; }, [&](int a) { o << a + 2; }, [&](int a) { o << a + 3; });",
            "o << stdx::transform_reduce<long>(x.begin(), x.end(), 1, [](long a, long d) { return a * 2 + d; }, [](int a, int d) { return a + d; }, y.begin());",
            "o << stdx::transform_reduce_n<long>(x.begin(), %d, 1, [](long a, long d) { return a * 2 + d; }, [](int a) { return a + 1; });" % k,
            "for (stdx::counting_iterator<int> i{%d + z}; i != stdx::counting_iterator<int>{%d}; ++i) { o << *i; }" % (k, n),
            "{ stdx::counting_iterator<int> i{%d + z}; i += %d; auto p = i--; o << *i << *p << (p - i) << (i < p) << *(i + 2) << *(2 + i) << *(i - 1); }" % (k, n),
        ]))
    return b


def tuples(t, c):
    n = t.range(1, 6)
    tys = [t.pick(["int", "char", "vb::V<0>", "vb::V<1>", "long", "bool"]) for _ in range(n)]
    vals = [lit(x, t.choose(50)) for x in tys]
    if "bool" in tys:
        vals = [("bool(%d + z)" % t.choose(2)) if x == "bool" else v for x, v in zip(tys, vals)]
    b = ["auto v = stdx::tuple<%s>{%s};" % (", ".join(tys), ", ".join(vals)), "auto const rec = [&](auto const &tp) { stdx::for_each([&](auto const &e) { o << e; }, tp); };"]
    for _ in range(t.range(1, 7)):
        i = t.choose(n)
        b.append(t.pick([
            "o << stdx::get<%d>(v) << v[stdx::index<%d>];" % (i, i),
            "rec(stdx::transform([](auto const &e) { return int(vb::rd(e)) + 1; }, v));",
            "rec(stdx::tuple_cat(v, stdx::make_tuple(%d + z), v));" % t.choose(9),
            "rec(stdx::tuple_cons(%d + z, v)); rec(stdx::tuple_snoc(v, %d));" % (t.choose(9), t.choose(9)),
            "o << v.join([](auto const &a, auto const &d) { return vb::rd(a) * 2 + vb::rd(d); });" if n > 1 else "o << stdx::tuple_size_v<decltype(v)>;",
            "o << v.fold_left(1L, [](long a, auto const &d) { return a * 2 + vb::rd(d); }) << v.fold_right(1L, [](auto const &d, long a) { return a * 3 + vb::rd(d); });",
            "o << stdx::all_of([](auto const &e) { return vb::rd(e) < 40; }, v) << stdx::any_of([](auto const &e) { return vb::rd(e) < 10; }, v) << stdx::none_of([](auto const &e) { return vb::rd(e) > 30; }, v);",
            "o << v.apply([](auto const &...es) { return vb::sum(es...); });",
            "{ auto w = v; o << (v == w) << (v < w) << (v >= w); stdx::get<%d>(w) = {}; o << (v == w) << (v < w); }" % i,
            "rec(stdx::filter<vbxs::is_small>(v));",
            "stdx::enumerate([&]<auto I>(auto const &e) { o << I << e; }, v);",
            "rec(stdx::sort<vbxs::id>(v)); rec(stdx::unique(v)); rec(stdx::to_unsorted_set(v)); rec(stdx::to_sorted_set(v));",
            "stdx::for_each([&](auto const &g) { rec(g); }, stdx::chunk_by(v)); stdx::for_each([&](auto const &g) { rec(g); }, stdx::gather(v));",
            "{ auto const p = stdx::cartesian_product_copy(v, stdx::make_tuple(1 + z, 2)); stdx::for_each([&](auto const &g) { rec(g); }, p); }",
            "o << stdx::contains_type<decltype(v), %s>;" % tys[i],
            "{ auto const g = stdx::tuple<%s>{v}; rec(g); auto h = std::move(v); rec(h); v = h; }" % ", ".join(tys),
        ]))
    b.append("rec(v);")
    return b


def optional(t, c):
    ty = t.pick(["stdx::optional<float>", "stdx::optional<int, stdx::tombstone_value<-1>>", "stdx::optional<double>"])
    e = ty.split("<")[1].split(",")[0].strip(">")
    b = ["%s v; %s w{%s(3 + z)};" % (ty, ty, e)]
    for _ in range(t.range(1, 10)):
        x = t.choose(50)
        b.append(t.pick([
            "v = %s(%d + z);" % (e, x), "v.reset();", "v = w;", "w = std::nullopt;", "o << v.emplace(%s(%d));" % (e, x),
            "std::swap(v, w);",
            "o << v.transform([](auto d) { return double(d + 1); }).value_or(7.0);",
            "o << v.or_else([&] { return w; }).has_value();",
            "o << v.and_then([](auto d) { return d > 20 ? %s{} : %s{d}; }).has_value();" % (ty, ty),
            "o << (v == w) << (v < w) << (v <= w) << (v > w) << (v >= w) << (v != w);",
            "if (v) { *v = *v + 1; o << *v << v.value() << *std::as_const(v); }",
            "o << transform([](auto p, auto q) { return double(p + q); }, v, w).value_or(9.0);",
            "o << (v | [](auto d) { return stdx::optional<double>{d * 2.0}; }).value_or(11.0);",
        ]))
        b.append("o << v.has_value() << w.has_value() << v.value_or(%s(5)) << std::move(w).value_or(%s(6));" % (e, e))
    return b


def lists(t, c):
    dbl = t.flip()
    nt, lt = ("vbx::node", "stdx::intrusive_list") if dbl else ("vbx::fnode", "stdx::intrusive_forward_list")
    pol = t.pick(["", ", stdx::node_policy::unchecked"])
    n = t.range(1, 6)
    b = ["%s x[%d]{}; %s<%s%s> v; for (int i = 0; i < %d; ++i) { x[i].v = i + 10 + z; }" % (nt, n, lt, nt, pol, n)]
    m, free = [], list(range(n))
    for _ in range(t.range(1, 14)):
        op = t.choose(8)
        if op < 2 and free:
            i = free.pop(t.choose(len(free)))
            b.append("v.push_front(&x[%d]);" % i)
            m.insert(0, i)
        elif op < 4 and free:
            i = free.pop(t.choose(len(free)))
            b.append("v.push_back(&x[%d]);" % i)
            m.append(i)
        elif op == 4 and m:
            b.append("o << v.pop_front()->v;")
            free.append(m.pop(0))
        elif op == 5 and m and dbl:
            b.append("o << v.pop_back()->v;")
            free.append(m.pop())
        elif op == 6 and m and dbl:
            i = m.pop(t.choose(len(m)))
            b.append("v.remove(&x[%d]);" % i)
            free.append(i)
        elif op == 7 and t.flip():
            b.append("v.clear();")
            free += m
            m = []
        elif op == 7 and dbl and m and free:
            k = t.choose(len(m) + 1)
            i = free.pop(t.choose(len(free)))
            b.append("{ auto it = v.begin(); %s v.insert(it, &x[%d]); }" % ("++it; " * k, i))
            m.insert(k, i)
        if m:
            b.append("o << v.front().v << v.back().v;")
        b.append("o << v.empty(); for (auto &e : v) { o << e.v; } for (auto i = v.cbegin(); i != v.cend(); i++) { o << i->v + 1; }")
    return b


def spans(t, c):
    n = t.range(1, 8)
    b = ["std::array<int, %d> x{%s};" % (n, ", ".join("%d + z" % t.choose(50) for _ in range(n)))]
    b.append(t.pick(["stdx::span v{x};", "stdx::span<int> v{x};", "stdx::span<int const, %d> v{x};" % n, "stdx::span<int> v{x.data(), x.size()};"]))
    dyn = "span<int> v" in b[-1]
    for _ in range(t.range(1, 6)):
        i = t.choose(n)
        k = t.range(0, n - i)
        b.append(t.pick([
            "o << v[%d + z] << v.front() << v.back() << v.size() << v.size_bytes() << v.empty();" % i,
            "o.all(v.first(%du + z)); o.all(v.last(%du));" % (i, k), "o.all(v.subspan(%du, %du));" % (i, k),
            "o.all(v.template subspan<%d, %d>());" % (i, k), "o.all(v.template first<%d>()); o.all(v.template last<%d>());" % (i, k),
            "for (auto r = v.rbegin(); r != v.rend(); ++r) { o << *r; }", "for (auto r = v.cbegin(); r != v.cend(); ++r) { o << *r; }",
            "o.all(v.subspan(%du));" % i, "o << *v.data();" if dyn else "o << stdx::get<%d>(v);" % i]))
    b.append("o.all(v);")
    return b


def calls(t, c):
    b = []
    for _ in range(t.range(2, 8)):
        x, y = t.choose(50), t.choose(50)
        b.append(t.pick([
            "{ auto const g = stdx::bind_front([](auto... as) { return (0 + ... + as) * 2; }, %d + z, %d); o << g(3) << std::move(g)(4, 5); }" % (x, y),
            "{ auto g = stdx::bind_back([](int a, int d) { return a * 3 + d; }, %d + z); o << g(%d); }" % (x, y),
            "o << stdx::bind_front<vbx::times>(%d + z)() << stdx::bind_back<vbx::times>()(%d);" % (x, y),
            "{ auto const w = stdx::with_result_of{[&] { return %d + z; }}; int r = w; o << r; }" % x,
            "{ auto l = stdx::latched{[&] { return %d + z; }}; o << l.has_value() << *l << l.has_value() << l.value(); }" % x,
            "o << vb::rd(stdx::get<0>(stdx::call_by_need(stdx::tuple{[](int a) { return a + 1; }}, stdx::tuple{%d + z})));" % x,
            "o.all(stdx::make_array(%d + z, %d, 3)); o.all(stdx::make_array<long>(%d + z));" % (x, y, x),
            "o.all(stdx::make_array<%d>([&]<auto I>() { return int(I) * %d + z; }));" % (x % 7, y),
            "o << stdx::ct_string{\"abc\"}.size() << (stdx::ct_string{\"abc\"} + stdx::ct_string{\"d\"} == stdx::ct_string{\"abcd\"});",
            "o << stdx::sized8{%du + z}.in<std::uint16_t>() << stdx::sized32{%du}.in<std::uint8_t>();" % (x, y),
            "{ int q = %d + z; int const r = 4; o << stdx::forward_like<int &>(q) << stdx::as_signed(static_cast<unsigned>(r)) << stdx::to_underlying(vb::En{q}); }" % x,
            "o << stdx::safe_identity(%d + z);" % y,
            "o << stdx::overload{[](int a) { return a; }, [](auto) { return -1; }}(%d + z);" % x,
        ]))
    return b


def meta(t, c):
    b = []
    for _ in range(t.range(3, 9)):
        n = t.range(0, 5)
        vs = [t.choose(60) for _ in range(n)]
        ty = t.pick(["int", "unsigned", "long", "char"])
        vals = t.pick(["stdx::value_list<%s>" % ", ".join("%s(%d)" % (ty, v) for v in vs), "std::integer_sequence<%s>" % ", ".join([ty] + [str(v) for v in vs]),
                       "std::make_index_sequence<%d>" % n])
        tys = "stdx::type_list<%s>" % ", ".join(t.pick(["char", "short", "int", "long", "double", "vb::V<0>"]) for _ in range(n))
        x = t.choose(50)
        b.append(t.pick([
            "stdx::template_for_each<%s>([&]<auto V>() { o << long(V) + z; });" % vals,
            "stdx::template_for_each<%s>([&]<typename T>() { o << sizeof(T) + static_cast<unsigned>(z); });" % tys,
            "o << stdx::apply_sequence<%s>([&]<auto... Vs>() { return (long(z) + ... + long(Vs)); });" % vals,
            "o << stdx::apply_sequence<%s>([&]<typename... Ts>() { return ((%du + static_cast<unsigned>(z)) + ... + sizeof(Ts)); });" % (tys, x),
            "{ int q = %d + z; int *p = &q; o << stdx::dereference{}(p) << stdx::dereference<int *>{}(p); stdx::dereference{}(p) = 3; o << q; }" % x,
            "o << stdx::unary_plus{}(%s(%d + z)) << stdx::unary_plus<int>{}(-%d - z);" % (ty, x, x),
            "o << stdx::ct<%d>() + z << stdx::is_ct_v<decltype(stdx::ct<%d>())>;" % (x, x),
            "{ auto q = CX_VALUE(%d); o << q() + z; }" % x,
            "o << vb::rd(stdx::to_underlying(vb::En{%d + z}));" % x,
        ]))
    return b


PARTS = [vector, sets, maps, multimap, queue, bitset, type_bitset, bitops, rollover, algorithms, tuples, optional, lists, spans, calls, meta]


def gen(t, c):
    part = t.pick(PARTS)
    c.labels.add(part.__name__)
    b = part(t, c)
    c.note(part.__name__ + ": " + " ".join(b)[:300])
    c.d("static constexpr auto f(int z) -> vbx::out {\n    vbx::out o{};")
    for l in b:
        c.d("    " + l)
    c.d("    return o;\n}")
    c.s("constexpr auto at_compile_time = f(0);")
    c.s("auto const at_run_time = f(vbx::zero);")
    c.chk("at_compile_time == at_run_time", "the constant evaluation and the run-time evaluation of the same computation agree")
    c.nontrivial = len(b) >= 4
