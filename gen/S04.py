def digits(t, v, base):
    s = ""
    while v:
        s = "0123456789abcdef"[v % base] + s
        v //= base
    return s or "0"


def number(t, hi):
    k = t.choose(5)
    if k == 0:
        v = t.range(0, 20)
    elif k == 1:
        v = hi - t.range(0, 3)
    elif k == 2:
        v = (1 << t.range(0, 63)) + t.range(-1, 1)
    else:
        v = 0
        for _ in range(4):
            v = v << 16 | t.choose(65536)
        v >>= t.range(0, 60)
    return max(0, min(v, hi))


def spell(t, v):
    """A literal of the language for v, without suffix."""
    base = t.pick([10, 16, 8, 2])
    d = digits(t, v, base)
    if base == 16:
        d = "".join(x.upper() if t.flip() else x for x in d)
    if base == 10:
        if v == 0:
            return "0"
    else:
        d = "0" * t.weighted([(4, 0), (1, 1), (1, 3)]) + d
    out = d[0]
    for x in d[1:]:
        if t.chance(1, 4):
            out += "'"
        out += x
    if base == 16:
        out = t.pick(["0x", "0X"]) + out
    elif base == 2:
        out = t.pick(["0b", "0B"]) + out
    elif base == 8:
        out = t.pick(["0", "0'"]) + out
    return out


SCALE = {"_k": 10**3, "_M": 10**6, "_G": 10**9, "_ki": 2**10, "_Mi": 2**20, "_Gi": 2**30}


WRAP = [("int", ["17", "-5", "2147483647", "0"]), ("unsigned", ["17u", "0u", "4294967295u"]), ("char", ["'a'"]), ("bool", ["true", "false"]),
        ("long long", ["-9223372036854775807ll", "3ll"]), ("vb::En", ["vb::En{7}"]),
        ("std::string_view", ['std::string_view{"hello"}', 'std::string_view{}'])]
TYPES = ["int", "char const *", "vb::K<3>", "vb::V<1>", "vb::list<int>", "bool", "vb::M<2>", "std::string_view"]


def wrap(t, c):
    ty, es = t.pick(WRAP)
    e = t.pick(es)
    how = t.choose(6)
    ct = ty != "std::string_view"
    v = c.name("w")
    c.note("wrap %s of type %s as %s" % (e, ty, ["expression", "variable", "constant", "static constant", "template argument", "type"][how]))
    if how == 5:
        ty = t.pick(TYPES)
        c.same("decltype(CX_WRAP(%s))" % ty, "stdx::type_identity<%s>" % ty, "wrapped type")
        c.s("auto %s = CX_VALUE(%s);" % (v, ty))
        c.same("decltype(%s())" % v, "stdx::type_identity<%s>" % ty, "type value")
        c.chk("stdx::is_cx_value_v<decltype(%s)> and not stdx::is_cx_value_v<int>" % v, "type value is a constant")
        return
    pre, post = "", ""
    if how == 0:
        x = e
    elif how == 1:
        c.s("%s %s = %s;" % (ty, v, e))
        x = v
        c.same("decltype(CX_WRAP(%s))" % x, ty, "wrapped variable")
        c.chk("CX_WRAP(%s) == %s" % (x, e), "wrapped variable: value")
        c.same("decltype(CT_WRAP(%s))" % x, ty, "wrapped variable")
        c.chk("CT_WRAP(%s) == %s" % (x, e), "wrapped variable: value")
        return
    elif how == 2 and ct:
        c.s("%s %s %s = %s;" % (t.pick(["constexpr", "const"]), ty, v, e))
        x = v
    elif how == 4 and ct:
        pre, post, x = "[&]<%s %s> {" % (ty, v), "}.template operator()<%s>();" % e, v
    else:
        c.s("constexpr static %s %s = %s;" % (ty, v, e))
        x = v
    if pre:
        c.s(pre)
    w = c.name("w")
    c.s("auto %s = CX_WRAP(%s); auto %sv = CX_VALUE(%s);" % (w, x, w, x))
    for n in (w, w + "v"):
        c.chk("stdx::is_cx_value_v<decltype(%s)>" % n, "wrapped constant is a constant")
        c.same("std::remove_cvref_t<decltype(%s())>" % n, ty, "wrapped constant: type")
        c.chk("%s() == %s" % (n, e), "wrapped constant: value")
        c.s("{ constexpr auto q = %s(); CHK(q == %s, \"wrapped constant: value in a constant expression\"); }" % (n, e))
    c.s("auto %sa = CX_WRAP(%s);" % (w, w))
    c.same("decltype(%sa)" % w, "decltype(%s)" % w, "wrapping twice")
    if ct:
        c.same("decltype(CT_WRAP(%s))" % x, "std::integral_constant<%s, %s>" % (ty, e), "constant from an expression")
        c.s("auto %sb = stdx::ct<%s>();" % (w, e))
        c.same("decltype(CT_WRAP(%sb))" % w, "std::integral_constant<%s, %s>" % (ty, e), "constant from a constant")
        c.same("decltype(CX_WRAP(%sb))" % w, "std::integral_constant<%s, %s>" % (ty, e), "wrapping a constant")
    if post:
        c.s(post)


def gen(t, c):
    for _ in range(t.range(1, 6)):
        k = t.weighted([(6, "c"), (4, "scale"), (3, "idx"), (4, "size"), (2, "bits"), (2, "named"), (3, "const"), (3, "wrap"), (1, "seq")])
        c.labels.add(k)
        if k == "c":
            v = number(t, 2**32 - 1)
            s = spell(t, v)
            c.note(s + "_c")
            c.same("decltype(%s_c)" % s, "std::integral_constant<std::uint32_t, %du>" % v, "type of the constant")
            c.chk("%s_c == %du and %s_c == %s" % (s, v, s, s), "value of the constant")
            c.nontrivial |= v > 9
        elif k == "scale":
            suf = t.pick(sorted(SCALE))
            v = number(t, (2**64 - 1) // SCALE[suf])
            s = spell(t, v)
            c.note(s + suf)
            c.same("decltype(%s%s)" % (s, suf), "unsigned long long", "type of the scaled literal")
            c.chk("%s%s == %dull" % (s, suf, v * SCALE[suf]), "value of the scaled literal")
            c.s("{ constexpr auto w = %s%s; CHK(w == %dull, \"value of the scaled literal as a constant\"); }" % (s, suf, v * SCALE[suf]))
            c.nontrivial |= v > 1
        elif k == "idx":
            v = number(t, 2**63 - 1)
            s = spell(t, v)
            c.note(s + "_idx")
            c.chk("std::size_t(decltype(%s_idx)::value) == %dull" % (s, v), "value of the index")
            c.same("std::remove_cv_t<decltype(%s_idx)>" % s, "std::remove_cv_t<decltype(stdx::index<%dull>)>" % v, "index literal and index constant")
            small = v % 4
            c.chk("(stdx::make_tuple(10, 11, 12, 13)[%s_idx]) == %d" % (spell(t, small), 10 + small), "element at the index")
            c.nontrivial |= v > 9
        elif k == "size":
            b = t.pick([8, 16, 32, 64])
            v = number(t, 2**56)
            s = spell(t, v)
            c.note("%s_z%d" % (s, b))
            for o in (8, 16, 32, 64):
                want = (v * b + o - 1) // o
                c.chk("%s_z%d->z%d == %dull" % (s, b, o, want), "size in units of %d bits" % o)
                c.chk("std::bool_constant<((%s_z%d).in<std::uint%d_t> == %dull)>::value" % (s, b, o, want), "size in units of %d bits" % o)
                c.same("decltype(%s_z%d->z%d)" % (s, b, o), "std::size_t const", "type of the size")
            c.chk("stdx::sized%d{%dull}.in() == %dull" % (b, v, v * b // 8), "size in bytes")
            c.nontrivial |= v > 1
        elif k == "bits":
            v = number(t, 2**32 - 1)
            s = spell(t, v)
            suf, ty = t.pick([("_lsb", "lsb_t"), ("_msb", "msb_t"), ("_len", "length_t")])
            c.note(s + suf)
            c.same("decltype(%s%s)" % (s, suf), "stdx::" + ty, "type of the bit position")
            c.chk("static_cast<std::uint64_t>(%s%s) == %dull" % (s, suf, v), "value of the bit position")
        elif k == "named":
            text = "".join(t.pick("abX 01_") for _ in range(t.range(0, 6)))
            n = t.choose(10)
            c.note('"%s"_%d' % (text, n))
            c.same('decltype("%s"_%d)' % (text, n), "std::integral_constant<std::size_t, %d>" % n, "type of the named index")
            c.chk('std::bool_constant<"%s"_b>::value and std::bool_constant<"%s"_true>::value and not std::bool_constant<"%s"_false>::value' % (
                text, text, text), "named booleans")
            c.same('decltype("%s"_b)' % text, "bool", "type of the named boolean")
        elif k == "wrap":
            wrap(t, c)
        elif k == "const":
            ty, lo, hi = t.pick([("int", -2**31, 2**31 - 1), ("unsigned", 0, 2**32 - 1), ("std::int8_t", -128, 127),
                                 ("std::uint64_t", 0, 2**64 - 1), ("long", -2**63, 2**63 - 1), ("bool", 0, 1), ("char", 0, 127),
                                 ("vb::En", 0, 1000), ("stdx::msb_t", 0, 2**32 - 1)])
            v = number(t, hi)
            if lo < 0 and t.flip():
                v = -v
            e = "static_cast<%s>(%s)" % (ty, "%dull" % v if v >= 0 else "%dll" % v)
            ic = "std::integral_constant<%s, %s>" % (ty, e)
            c.note("constant %d of type %s" % (v, ty))
            c.same("decltype(stdx::ct<%s>())" % e, ic, "ct of a value")
            c.same("decltype(stdx::ct<%s{}>())" % ic, ic, "ct of a constant")
            c.same("decltype(stdx::_c<%s>)" % e, ic + " const", "_c of a value")
            c.same("stdx::constant<%s>" % e, ic, "constant of a value")
            c.chk("stdx::is_ct_v<%s> and stdx::is_ct_v<%s const> and not stdx::is_ct_v<%s>" % (ic, ic, ty), "is_ct_v")
            c.chk("%s{}() == %s" % (ic, e), "value of the constant")
            c.same("decltype(stdx::ct<%s>())" % ty, "stdx::type_identity<%s>" % ty, "ct of a type")
            c.chk("stdx::is_ct_v<decltype(stdx::ct<%s>())>" % ty, "is_ct_v of a type")
        else:
            ty = t.pick(["int", "std::size_t", "unsigned char", "long"])
            n = t.range(0, 12)
            c.note("integer sequence of %d %s" % (n, ty))
            seq = "stdx::make_integer_sequence<%s, %d>" % (ty, n)
            c.chk("std::tuple_size_v<%s> == %d and stdx::tuple_size_v<%s> == %d and %s::size() == %d" % (seq, n, seq, n, seq, n), "length of the sequence")
            for i in range(n):
                c.same("std::tuple_element_t<%d, %s>" % (i, seq), "std::integral_constant<%s, %d>" % (ty, i), "element of the sequence")
                c.same("decltype(get<%d>(%s{}))" % (i, seq), "std::integral_constant<%s, %d>" % (ty, i), "element of the sequence")
            if n == 3:
                c.s("{ auto [p, q, r] = %s{}; CHK(p == 0 and q == 1 and r == 2, \"binding to the sequence\"); }" % seq)
            c.same("stdx::make_index_sequence<%d>" % n, "stdx::make_integer_sequence<std::size_t, %d>" % n, "index sequence")
            c.same("stdx::index_sequence_for<%s>" % ", ".join(["char"] * n), "stdx::make_index_sequence<%d>" % n, "index sequence of a pack")
