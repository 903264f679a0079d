from .tup import *

NAME = dict(int="int", long="long", char="char", bool="bool", double="double", En="vb::En", ptr="const int*",
            V0="vb::V<0>", V1="vb::V<1>", V2="vb::V<2>", M0="vb::M<0>", M1="vb::M<1>", E0="vb::E<0>", E1="vb::E<1>",
            iref="int&", icref="const int&", vref="vb::V<0>&",
            kint="const int", kV0="const vb::V<0>", kchar="const char", rint="int&&", rV0="vb::V<0>&&")
NAME.update({"L%d" % i: "vb::value_under_a_name_that_differs_from_others_only_at_its_end<%d>" % i for i in (0, 1)})
CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}


def as_args(es):
    return "vb::args{%s}" % ", ".join("vb::as<%s>(%d)" % (e.type, e.rd) for e in es)


def sizes(groups):
    return "std::vector<std::size_t>{%s}" % ", ".join(str(len(g)) for g in groups)


def tup(es):
    return "stdx::tuple<%s>" % ", ".join(e.type for e in es)


def grouped(es, key):
    """Sorted groups."""
    out = {}
    for e in es:
        out.setdefault(key(e), []).append(e)
    return [out[k] for k in sorted(out)]


def runs(es, key):
    out = []
    for e in es:
        if out and key(out[-1][-1]) == key(e):
            out[-1].append(e)
        else:
            out.append([e])
    return out


def same_names(t, c):
    """Closures made in one function: different types that may have one name."""
    m = t.range(2, 4)
    n = t.range(2, 9)
    for i in range(m):
        c.s("[[maybe_unused]] auto mk%d = [](int v) { return [v](int) { return std::pair{%d, v}; }; };" % (i, i))
    es = [(t.choose(m), 10 + i) for i in range(n)]
    plain = t.chance(1, 3)
    parts = ["mk%d(%d)" % e for e in es]
    if plain:
        parts.insert(t.choose(n + 1), "vb::V<0>{5}")
    c.s("auto const t0 = stdx::make_tuple(%s);" % ", ".join(parts))
    c.s("auto id = []<typename E>(E const &e) { if constexpr (std::is_same_v<E, vb::V<0>>) { return std::pair{9, vb::rd(e)}; } else { return e(0); } };")
    want = {}
    for k, v in es + ([(9, 5)] if plain else []):
        want.setdefault(k, []).append(v)
    op = t.pick(["gather", "gather_by", "to_sorted_set", "to_unsorted_set", "sort"])
    c.note("%s of closures %s" % (op, es))
    c.s("auto const r = stdx::%s(t0);" % op)
    if op.startswith("gather"):
        c.s("std::vector<std::vector<std::pair<int, int>>> got{};")
        c.s("r.apply([&](auto const &...g) { (got.push_back(g.apply([&](auto const &...e) { return std::vector<std::pair<int, int>>{id(e)...}; })), ...); });")
        c.s("for (auto &g : got) { std::sort(g.begin(), g.end()); } std::sort(got.begin(), got.end());")
        c.chk("got == (std::vector<std::vector<std::pair<int, int>>>{%s})" % ", ".join(
            "{%s}" % ", ".join("{%d, %d}" % (k, v) for v in want[k]) for k in sorted(want)), "groups")
    elif op == "sort":
        c.s("std::vector<std::pair<int, int>> got{}; r.apply([&](auto const &...e) { (got.push_back(id(e)), ...); }); std::sort(got.begin(), got.end());")
        c.chk("got == (std::vector<std::pair<int, int>>{%s})" % ", ".join("{%d, %d}" % (k, v) for k in sorted(want) for v in want[k]), "sorted elements")
    else:
        c.s("std::vector<std::pair<int, int>> got{}; r.apply([&](auto const &...e) { (got.push_back(id(e)), ...); });%s" % (
            " std::sort(got.begin(), got.end());" if op == "to_sorted_set" else ""))
        order = sorted(want) if op == "to_sorted_set" else None
        if order is not None:
            c.chk("got.size() == %d" % len(order), "number of elements of the set")
            for i, k in enumerate(order):
                c.chk("got.size() <= %d or (%s)" % (i, " or ".join("got[%d] == std::pair{%d, %d}" % (i, k, v) for v in want[k])), "element of kind %d" % k)
        else:
            seq = []
            at = {}
            for s in parts:
                k = 9 if s[0] == "v" else int(s[2:s.index("(")])
                if k not in at:
                    at[k] = 1
                    seq.append((k, want[k][0]))
            c.chk("got == (std::vector<std::pair<int, int>>{%s})" % ", ".join("{%d, %d}" % e for e in seq), "elements of the set")
    c.nontrivial = n >= 3 and len(want) >= 2
    c.labels.add("closures")


def many(t, c):
    """runs of more elements than a byte can count"""
    n = t.pick([255, 256, 257, 260])
    k = t.pick([0, 1, 2, n // 2, n - 1])
    op = t.pick(["chunk", "unique", "to_unsorted_set"])
    c.note("%s of %d elements of one type and %d of another" % (op, k, n - k))
    c.s("auto const make = []<typename T, int First, std::size_t... Is>(T const *, std::integral_constant<int, First>, std::index_sequence<Is...>) { return stdx::tuple{static_cast<T>(Is + First)...}; };")
    c.s("auto const t0 = stdx::tuple_cat(make(static_cast<long const *>(nullptr), std::integral_constant<int, 0>{}, std::make_index_sequence<%d>{}), "
        "make(static_cast<int const *>(nullptr), std::integral_constant<int, %d>{}, std::make_index_sequence<%d>{}));" % (k, k, n - k))
    c.s("auto const r = stdx::%s(t0);" % op)
    first = [("long", 0, k)] if k else []
    parts = first + [("int", k, n - k)]
    if op == "chunk":
        c.eq("stdx::tuple_size_v<std::remove_cvref_t<decltype(r)>>", len(parts), "number of chunks")
        for j, (ty, at, m) in enumerate(parts):
            g = "stdx::get<%d>(r)" % j
            c.s("int const good%d = stdx::apply([](auto... xs) { int n = %d; return (((std::is_same_v<decltype(xs), %s> and xs == n++) ? 1 : 0) + ... + 0); }, %s);" % (j, at, ty, g))
            c.eq("good%d" % j, m, "every element of chunk %d is in its place" % j)
            c.eq("stdx::tuple_size_v<std::remove_cvref_t<decltype(%s)>>" % g, m, "number of elements of chunk %d" % j)
    else:
        c.same("decltype(r)", "stdx::tuple<%s> const" % ", ".join(p[0] for p in parts), "type of the result")
        for j, (ty, at, m) in enumerate(parts):
            c.eq("stdx::get<%d>(r)" % j, at, "element %d" % j)
    c.nontrivial = True
    c.labels.add("wide")


def gen(t, c):
    if t.chance(1, 150):
        return many(t, c)
    if t.chance(1, 8):
        return same_names(t, c)
    n = t.weighted([(1, 0), (1, 1), (3, 2), (4, 3), (4, 4), (3, 5), (2, 6), (2, 8), (1, 18)])
    if n == 18 and t.chance(1, 3):
        n = t.range(19, 40)
    cat = t.pick(["r", "l", "cl"])
    pool = VALUE + REF + CONST + (MOVE + RREF if cat == "r" else [])
    few = [t.pick(pool) for _ in range(t.range(1, 4))]
    if t.chance(1, 3):
        # names of which one starts like the other
        few = t.pick([["L0", "L1"], ["V0", "V1", "V2"], ["int", "iref"], ["V0", "vref", "V1"], ["kint", "icref"]]) + few[:t.choose(2)]
    es = [El(c, t.pick(few), 10 + (6 * i + t.choose(6)) % 115) for i in range(n)]
    x = decl(c, es)
    arg = CAT[cat] % x
    op = t.pick(["sort", "unique", "chunk", "gather", "sorted_set", "unsorted_set"])
    proj = op in ("sort", "chunk", "gather") and t.flip()
    key = lambda e: NAME[e.kind]
    tmpl = ""
    suffix = ""
    if op in ("chunk", "gather"):
        suffix = "_by" if proj or t.flip() else ""
    if proj:
        ks = {k: t.choose(3) for k in few}
        wide = t.chance(1, 3)
        kn = "vb::value_under_a_name_that_differs_from_others_only_at_its_end<%d>" if wide else "vb::K<%d>"
        c.d("template <typename> struct key;")
        for k in sorted(set(few)):
            c.d("template <> struct key<%s> { using type = %s; };" % (TYPE[k], kn % ks[k]))
        c.d("template <typename T> using key_t = typename key<T>::type;")
        key = lambda e: kn % ks[e.kind]
        tmpl = "<key_t>"
    c.note("%s%s of %s%s%s" % (op, suffix, cat, show(es), " by " + str(sorted(ks.items())) if proj else ""))
    call = {"sort": "sort", "unique": "unique", "chunk": "chunk" + suffix, "gather": "gather" + suffix,
            "sorted_set": "to_sorted_set", "unsorted_set": "to_unsorted_set"}[op]
    c.s("auto const r = stdx::%s%s(%s);" % (call, tmpl, arg))
    if op == "sort":
        gs = grouped(es, key)
        c.chk("vb::same_groups(vb::items(r), %s, %s)" % (as_args([e for g in gs for e in g]), sizes(gs)), "sorted elements")
        if not proj:
            c.same("decltype(r)", tup([e for g in gs for e in g]) + " const", "type of the sorted tuple")
    elif op == "unique":
        want = [g[0] for g in runs(es, key)]
        c.same("decltype(r)", tup(want) + " const", "type of the unique tuple")
        c.chk("vb::items(r) == (%s)" % as_args(want), "unique elements")
    elif op == "chunk":
        gs = runs(es, key)
        c.same("decltype(r)", "stdx::tuple<%s> const" % ", ".join(tup(g) for g in gs), "type of the chunks")
        c.chk("vb::groups(r).first == (%s)" % as_args(es), "chunked elements")
    elif op == "gather":
        gs = grouped(es, key)
        c.chk("vb::groups(r).second == (%s)" % sizes(gs), "sizes of the groups")
        c.chk("vb::same_groups(vb::groups(r).first, %s, %s)" % (as_args([e for g in gs for e in g]), sizes(gs)),
              "gathered elements")
        if not proj:
            c.same("decltype(r)", "stdx::tuple<%s> const" % ", ".join(tup(g) for g in gs), "type of the groups")
    elif op == "sorted_set":
        gs = grouped(es, key)
        c.same("decltype(r)", tup([g[0] for g in gs]) + " const", "type of the sorted set")
        for i, g in enumerate(gs):
            c.chk("(%s)" % " or ".join("vb::rd(stdx::get<%d>(r)) == %d" % (i, e.rd) for e in g), "element %d of the set" % i)
    else:
        seen, want = set(), []
        for e in es:
            if e.kind not in seen:
                seen.add(e.kind)
                want.append(e)
        c.same("decltype(r)", tup(want) + " const", "type of the unsorted set")
        c.chk("vb::items(r) == (%s)" % as_args(want), "elements of the unsorted set")
    if cat != "r":
        c.chk("vb::items(%s) == (%s)" % (x, as_args(es)), "the source is left alone")
    for i, e in enumerate(es):
        if e.ref and t.chance(1, 2) and op in ("unsorted_set",) and [f.kind for f in es].index(e.kind) == i:
            c.chk("&stdx::get<%s>(r) == &%s" % (e.type, e.var), "reference kept")
    c.nontrivial = n >= 3 and len({e.kind for e in es}) >= 2
    c.labels.add(op)
