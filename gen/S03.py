ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
DIGIT = "0123456789"


def ident(t, c, used):
    while True:
        n = t.weighted([(3, 1), (5, 5), (4, 12), (2, 40), (1, 250)] + ([(1, 1400)] if c.n < 3 else []))
        n = t.range(max(1, n // 2), n)
        s = ALPHA[t.choose(52)] + "".join(t.pick(ALPHA + DIGIT) for _ in range(n - 1))
        s = s.replace("__", "_a").rstrip("_") or "q"
        c.n += 1
        if s in used or s in KEYWORDS or s in ("run", "vb", "vbn", "std", "stdx", "boost") or len(s) < 3:
            s = "n%d%s" % (c.n, s)
        if s not in used:
            used.add(s)
            return s


KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl concept const consteval
constexpr constinit continue co_await co_return co_yield decltype default delete do double else enum explicit export extern
false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private
protected public register reinterpret requires return short signed sizeof static struct switch template this thread_local
throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq unix linux""".split())


def scope(t, c, used, anon_ok):
    """(opening text, closing text, C++ qualification, pieces of the printed scope)"""
    op, cl, q, printed = "", "", "", ['VB_NS "::"']
    for _ in range(t.weighted([(3, 0), (4, 1), (3, 2), (1, 5)])):
        k = t.choose(4) if anon_ok else t.choose(3)
        if k == 3:
            op += "namespace { "
            cl = "} " + cl
            printed.append('VB_ANON "::"')
            continue
        n = ident(t, c, used)
        if k == 2 and op.rstrip().endswith("{") and "struct" in op or k >= 1 and "struct" in op:
            k = 2
        if "struct" in op:
            k = 2
        op += ("namespace %s { " if k < 2 else "struct %s { ") % n
        cl = ("} " if k < 2 else "}; ") + cl
        q += n + "::"
        printed.append('"%s::"' % n)
        anon_ok = anon_ok and k < 2
    return op, cl, q, " ".join(printed)


BASE = ["int", "char", "bool", "double", "float", "wchar_t", "unsigned char", "vb::K<7>", "vb::list<int, char>", "signed char"]
CHARS = "=<>,;:[]{}a0_#"


def type_(t, c, used, depth):
    """(C++ spelling, C++ expression of the printed name (string literal), has template args, base)"""
    k = t.weighted([(2, "base"), (5, "class"), (2, "incomplete"), (4, "template"), (2, "inner"), (2, "chars"), (1, "enum")])
    if depth == 0 and k in ("template", "inner"):
        k = "class"
    if k == "base":
        b = t.pick(BASE)
        return b, '"%s"' % b, '"%s"' % b.split("<")[0]
    op, cl, q, pr = scope(t, c, used, t.chance(1, 6))
    n = ident(t, c, used)
    if k == "class":
        c.d("%sstruct %s {}; %s" % (op, n, cl))
        return q + n, '%s "%s"' % (pr, n), None
    if k == "incomplete":
        c.d("%sstruct %s; %s" % (op, n, cl))
        return q + n, '%s "%s"' % (pr, n), None
    if k == "enum":
        c.d("%senum struct %s : int {}; %s" % (op, n, cl))
        return q + n, '%s "%s"' % (pr, n), None
    if k == "chars":
        cs = [t.pick(CHARS) for _ in range(t.range(1, 4))]
        c.d("%stemplate <char...> struct %s; %s" % (op, n, cl))
        a = ", ".join("'%s'" % x for x in cs)
        return "%s%s<%s>" % (q, n, a), '%s "%s<%s>"' % (pr, n, a), '%s "%s"' % (pr, n)
    if k == "inner":
        i = ident(t, c, used)
        a, ap, _ = type_(t, c, used, depth - 1)
        c.d("%stemplate <typename> struct %s { struct %s {}; }; %s" % (op, n, i, cl))
        return "%s%s<%s>::%s" % (q, n, a, i), '%s "%s<" %s ">::%s"' % (pr, n, ap, i), "skip"
    args, names = [], []
    for _ in range(t.range(0, 3)):
        a, ap, _ = type_(t, c, used, depth - 1)
        args.append(a)
        names.append(ap)
    c.d("%stemplate <typename...> struct %s {}; %s" % (op, n, cl))
    full = ' ", " '.join(names)
    return "%s%s<%s>" % (q, n, ", ".join(args)), '%s "%s<" %s ">"' % (pr, n, full), '%s "%s"' % (pr, n)


MOD = [("%s *", '%s "*"'), ("%s &", '%s "&"'), ("%s &&", '%s "&&"'), ("%s const", '"const " %s'), ("%s const &", '"const " %s "&"'),
       ("%s volatile *", '"volatile " %s "*"'), ("%s const **", '"const " %s "**"')]


def types(t, c, used):
    ty, name, base = type_(t, c, used, t.range(0, 2))
    mod = t.chance(1, 4)
    if mod:
        m, p = t.pick(MOD)
        ty, name, base = m % ty, p % name, "skip"
    c.d("using T = %s;" % ty)
    c.note("name of type %s" % ty[:200])
    c.s("constexpr auto got = stdx::type_as_string<T>();")
    c.eq("vbn::tight(got)", "vbn::tight(%s)" % name, "name of the type")
    c.chk("got.size() > 0 and got.front() != ' ' and got.back() != ' '", "no spaces around the name")
    c.s("constexpr auto cs = stdx::ct_string<got.size() + 1>{got};")
    c.chk("std::string_view(cs) == got", "name as a compile-time string")
    c.chk("std::string_view((+stdx::ct_format<\"<{}>\">(stdx::type_identity<T>{})).value.data()) == \"<\" + std::string(got) + \">\"",
          "name in a format")
    if base != "skip":
        c.eq("vbn::tight(stdx::template_base<T>())", "vbn::tight(%s)" % (base or name), "name of the template")
    return len(ty) > 12


UNDER = [("int", -2**31, 2**31 - 1), ("short", -2**15, 2**15 - 1), ("unsigned", 0, 2**32 - 1), ("long long", -2**62, 2**62),
         ("std::uint8_t", 0, 255), ("std::int8_t", -128, 127)]


def enums(t, c, used):
    op, cl, q, pr = scope(t, c, used, True)
    local = t.chance(1, 6)
    if local:
        op = cl = q = ""
    n = ident(t, c, used)
    scoped = t.flip()
    under, lo, hi = t.pick(UNDER)
    vals = []
    for _ in range(t.range(0, 6)):
        v = t.pick([0, 1, -1, lo, hi, t.range(-300, 300)])
        v = min(max(v, lo), hi)
        if v not in [x for _, x in vals]:
            vals.append((ident(t, c, used), v))
    text = "%senum %s%s : %s { %s }; %s" % (
        op, "struct " if scoped else "", n, under, ", ".join("%s = %d" % x for x in vals), cl)
    (c.s if local else c.d)(text)
    c.note("enumerators %s of %s%s : %s" % ([(a[:40], b) for a, b in vals], "enum struct " if scoped else "enum ", q + n[:40], under))
    for name, v in vals:
        form = t.choose(3)
        e = ["%s%s::%s" % (q, n, name), "static_cast<%s%s>(%d)" % (q, n, v),
             "%s%s::%s" % (q, n, name) if scoped else "%s%s" % (q, name)][form]
        c.eq("stdx::enum_as_string<%s>()" % e, 'std::string_view("%s")' % name, "name of the enumerator")
        c.chk("+stdx::ct_format<\"[{}]\">(CX_VALUE(%s)) == stdx::ct_string{\"[%s]\"}" % (e, name), "enumerator in a format")
    if not local and "VB_ANON" not in pr and t.chance(1, 2):
        v = min(max(t.pick([17, -5, 0, 255, t.range(-1000, 1000)]), lo), hi)
        if v not in [x for _, x in vals]:
            c.eq("vbn::tight(stdx::enum_as_string<static_cast<%s%s>(%d)>())" % (q, n, v),
                 'vbn::tight("(" %s "%s)%d")' % (pr, n, v), "value without an enumerator")
    return len(vals) > 1


def gen(t, c):
    used = set()
    if t.flip():
        c.labels.add("type")
        c.nontrivial = types(t, c, used)
    else:
        c.labels.add("enum")
        c.nontrivial = enums(t, c, used)
