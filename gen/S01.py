from .text import *

ABC = [list(b"ab"), list(b"ab.,"), list(range(33, 127)), [0, 97, 255, 128, 127, 10, 34, 92], list(b"ab\0")]


def build(t, c, b):
    """A constexpr object holding b: (name, is it of type cts_t)"""
    v = c.name("s")
    n = len(b)
    form = t.choose(9)
    if form == 0:
        e, k = "stdx::ct_string{%s}" % lit(b), False
    elif form == 1:
        e, k = "%s_cts" % lit(b), False
    elif form == 2:
        tail = bytes_of(t, t.choose(3), list(b"xy"))
        e, k = "stdx::ct_string<%du>{%s, %du}" % (n + 1, lit(b + tail), n), False
    elif form == 3:
        e, k = "stdx::ct_string<%du>{std::string_view{%s, %du}}" % (n + 1, lit(b), n), False
    elif form == 4:
        e, k = "stdx::ct<%s>()" % lit(b), True
    elif form == 5:
        e, k = "%s_ctst" % lit(b), True
    elif form == 6:
        e, k = "stdx::ct_string_from_type(vbs::sc<char%s>{})" % "".join(", " + ch(x) for x in b), False
    elif form == 7:
        e, k = "+stdx::cts_t<%s>{}" % lit(b), False
    else:
        e, k = "stdx::cts_t<%s>{}()" % lit(b), False
    c.s("constexpr auto %s = %s;" % (v, e))
    return v, k


def view(c, e, b, msg):
    """e (a constant expression of type ct_string) holds exactly b"""
    r = c.name("r")
    c.s("constexpr auto %s = %s;" % (r, e))
    n = len(b)
    c.same("decltype(%s)" % r, "stdx::ct_string<%du> const" % (n + 1), msg + ": type")
    c.chk("std::string_view(%s) == std::string_view(%s, %d)" % (r, lit(b), n), msg + ": text")
    c.chk("std::bool_constant<(std::string_view(%s) == std::string_view(%s, %d))>::value" % (r, lit(b), n),
          msg + ": text in a constant expression")
    c.chk("%s.size() == %d and %s.capacity() == %d and %s.empty() == %s and %s.value[%d] == 0" % (
        r, n, r, n + 1, r, "true" if n == 0 else "false", r, n), msg + ": size")
    return r


def gen(t, c):
    abc = t.pick(ABC)
    n = t.weighted([(4, 0), (6, 1), (12, 4), (8, 12), (2, 60), (1, 300)])
    n = t.range(n - 60 if n > 60 else min(n, 1), n) if n else 0
    b = bytes_of(t, n, abc)
    c.note("string %s" % lit(b))
    s, k = build(t, c, b)
    val = "+" + s if k else s
    r = view(c, val, b, "built string")
    if k:
        c.chk("%s.size() == %d and %s.value == %s()" % (s, n, s, s), "wrapped string: size and value")
        c.chk("stdx::is_ct_v<decltype(%s)>" % s, "wrapped string is a constant")
        c.same("decltype(%s)::value_type" % s, "stdx::ct_string<%d>" % (n + 1), "wrapped string: type of the value")
        c.s("constexpr stdx::ct_string %sc = %s; CHK(%sc == %s, \"implicit conversion\");" % (s, s, s, val))
        c.same("vbs::use<%s>" % s, "vbs::use<%s>" % r, "wrapped string used as a template argument")
    ops = t.range(1, 4)
    for _ in range(ops):
        op = t.weighted([(4, "split"), (4, "cat"), (4, "eq"), (2, "iter"), (2, "type"), (1, "modify")])
        c.labels.add(op)
        if op == "split":
            if n and t.chance(3, 4):
                at = b[t.choose(n)]
            else:
                at = t.pick(abc + [0, 120])
            rest, cur, parts = b, r, []
            for depth in range(t.range(1, 3)):
                p = c.name("p")
                c.s("constexpr auto %s = stdx::split<%s, %s>();" % (p, cur, ch(at)))
                i = rest.find(bytes([at]))
                head, tail = (rest, b"") if i < 0 else (rest[:i], rest[i + 1:])
                parts.append((len(head), len(tail)))
                view(c, p + ".first", head, "part before the split character")
                view(c, p + ".second", tail, "part after the split character")
                if i >= 0:
                    one = bytes([at])
                    c.chk("%s.first + stdx::ct_string{%s} + %s.second == %s" % (p, lit(one), p, cur), "parts joined again")
                    c.nontrivial = True
                cur, rest = p + ".second", tail
            c.note("split at %s into %s" % (ch(at), parts))
        elif op == "cat":
            terms = [(s, k, b)]
            for _ in range(t.range(1, 3)):
                b2 = bytes_of(t, t.range(0, 5), abc)
                v, k2 = build(t, c, b2)
                terms.insert(t.choose(len(terms) + 1), (v, k2, b2))
            c.note("concatenate " + " + ".join(("cts_t " if x[1] else "") + lit(x[2]) for x in terms))
            want = b"".join(x[2] for x in terms)

            def tree(lo, hi):
                if hi - lo == 1:
                    return terms[lo][0], terms[lo][1]
                m = t.range(lo + 1, hi - 1)
                (x, kx), (y, ky) = tree(lo, m), tree(m, hi)
                return "(%s + %s)" % (x, y), kx and ky
            e, ke = tree(0, len(terms))
            if ke:
                c.chk("stdx::is_ct_v<decltype(%s)>" % e,
                      "sum of wrapped strings is wrapped")
                e = "+" + e
            view(c, e, want, "concatenation")
            c.nontrivial = True
        elif op == "eq":
            how = t.choose(5)
            if how == 0 or n == 0:
                b2 = b
            elif how == 1:
                i = t.choose(n)
                b2 = b[:i] + bytes([t.pick(abc)]) + b[i + 1:]
            elif how == 2:
                b2 = b[:-1]
            elif how == 3:
                b2 = b + bytes([t.pick(abc + [0])])
            else:
                b2 = bytes_of(t, n, abc)
            v, k2 = build(t, c, b2)
            same = "true" if b == b2 else "false"
            c.note("compare with " + lit(b2))
            if k and k2:
                c.chk("(%s == %s) == %s and (%s != %s) == not %s" % (s, v, same, s, v, same), "comparison of wrapped strings")
            v2 = "(+%s)" % v if k2 else v
            c.chk("(%s == %s) == %s and (%s != %s) == not %s" % (r, v2, same, r, v2, same), "comparison")
            c.chk("(%s == %s) == %s" % (v2, r, same), "comparison, other order")
            c.chk("std::bool_constant<(%s == %s)>::value == %s" % (r, v2, same), "comparison in a constant expression")
            c.chk("std::is_same_v<stdx::cts_t<%s>, stdx::cts_t<%s>> == %s" % (r, v2, same), "identity as a template argument")
            c.nontrivial |= n > 0
        elif op == "iter":
            c.chk("std::string(%s.begin(), %s.end()) == std::string(%s, %d)" % (r, r, lit(b), n), "iteration")
            c.chk("std::string(%s.rbegin(), %s.rend()) == std::string(%s, %d)" % (r, r, lit(b[::-1]), n), "reverse iteration")
            c.s("{ int k = 0; for (auto ch : %s) { k = k * 31 + static_cast<unsigned char>(ch); if (k > 1000000) k %%= 1000003; }" % r)
            h = 0
            for x in b:
                h = h * 31 + x
                if h > 1000000:
                    h %= 1000003
            c.eq("k", h, "characters in order")
            c.s("}")
        elif op == "type":
            c.same("stdx::ct_string_to_type_t<%s, vbs::sc>" % r, "vbs::sc<char%s>" % "".join(", " + ch(x) for x in b), "string to type")
            c.same("decltype(stdx::ct_string_to_type<%s, vbs::sc>())" % r, "vbs::sc<char%s>" % "".join(", " + ch(x) for x in b),
                   "string to type value")
            c.chk("stdx::ct_string_from_type(stdx::ct_string_to_type<%s, vbs::sc>()) == %s" % (r, r), "there and back")
            c.nontrivial |= n > 0
        else:
            m = c.name("m")
            c.s("auto %s = %s; for (auto &ch : %s) ch = 'Z';" % (m, r, m))
            c.chk("std::string_view(%s) == std::string_view(%s)" % (m, lit(b"Z" * n)), "changed copy")
            c.chk("%s.value[%d] == 0 and std::string_view(%s) == std::string_view(%s, %d)" % (m, n, r, lit(b), n), "original and terminator kept")
