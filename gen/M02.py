from .text import lit


def value(t, c):
    """(template argument, expression of the same value)"""
    k = t.choose(9)
    if k == 0:
        v = str(t.range(-5, 99))
    elif k == 1:
        v = t.pick(["true", "false"])
    elif k == 2:
        v = t.pick(["'a'", "'\\0'", "L'x'"])
    elif k == 3:
        v = "%d%s" % (t.range(0, 50), t.pick(["u", "ull", "ll"]))
    elif k == 4:
        v = "vb::En{%d}" % t.range(-3, 9)
    elif k == 5:
        v = "&vb::pool[%d]" % t.choose(9)
    elif k == 6:
        v = "stdx::type_identity<%s>{}" % t.pick(["int", "void", "vb::list<>"])
        return v, v
    elif k == 7:
        s = lit(t.pick(["", "a", "hello", "x y", "17", "hellp", "longer text than before"]))
        return s, "stdx::ct_string{%s}" % s
    else:
        s = lit(t.pick(["", "a", "hello"]))
        v = "stdx::ct_string{%s}" % s
        return v, v
    return v, v


def gen(t, c):
    nq = t.range(1, 6)
    own = []
    for i in range(nq):
        d = str(1000 + i) if t.chance(1, 3) else None
        own.append(d)
        c.d("[[maybe_unused]] constexpr inline struct q%d_t {" % i)
        c.d("template <typename Ev> %sconsteval auto operator()(Ev &&e) const -> decltype(std::forward<Ev>(e).query(*this)) { return std::forward<Ev>(e).query(*this); }"
            % ("requires true " if d else ""))
        if d:
            c.d("consteval auto operator()(auto &&) const { return %s; }" % d)
        c.d("} q%d{};" % i)
    envs = [("stdx::env<>", {}, False)]

    def ask(i, q):
        ty, m, _ = envs[i]
        want = m.get(q, own[q])
        dflt = t.pick(["77", "'d'", "vb::En{8}", "nullptr"])
        if want is None:
            c.chk("stdx::query<E%d>(q%d, %s) == %s" % (i, q, dflt, dflt), "unbound query %d of environment %d" % (q, i))
            c.s("{ auto lv = %s;" % dflt)
            c.chk("&stdx::query<E%d>(q%d, lv) == &lv and &stdx::query<E%d>(q%d, std::as_const(lv)) == &lv" % (i, q, i, q),
                  "unbound query %d of environment %d gives the default itself" % (q, i))
            c.chk("stdx::query<E%d>(q%d, vbe::only{6}).i == 6" % (i, q), "unbound query %d of environment %d with a default that cannot be copied" % (q, i))
            c.s("}")
            c.chk("not vbe::answers<decltype(q%d), E%d>" % (q, i), "unbound query %d of environment %d has no value" % (q, i))
        else:
            c.s("{ constexpr auto got = stdx::query<E%d>(q%d);" % (i, q))
            c.same("decltype(got)", "decltype(vbe::val(%s)) const" % want, "query %d of environment %d: type" % (q, i))
            c.chk("vbe::eq(got, %s)" % want, "query %d of environment %d" % (q, i))
            c.chk("vbe::eq(stdx::query<E%d>(q%d, %s), %s)" % (i, q, dflt, want), "query %d of environment %d with an unused default" % (q, i))
            c.chk("vbe::eq(q%d(E%d{}), %s)" % (q, i, want), "query %d of environment %d called" % (q, i))
            c.s("}")
    c.d("using E0 = stdx::env<>;")
    for k in range(t.range(1, 7)):
        op = t.weighted([(3, "make"), (5, "extend"), (4, "append"), (1, "group")])
        new = "E%d" % len(envs)
        if op in ("make", "extend"):
            i = 0
            if op == "extend":
                flat = [j for j, e in enumerate(envs) if not e[2]]
                i = flat[-1] if t.flip() else t.pick(flat)
            m = dict(envs[i][1])
            n = t.weighted([(1, 0), (4, 1), (4, 2), (2, 4)])
            args, fresh = [], {}
            for _ in range(n):
                q = t.choose(nq)
                if q in fresh:
                    continue
                a, e = value(t, c)
                args.append("q%d, %s" % (q, a))
                fresh[q] = e
            m.update(fresh)
            al = ", ".join(args)
            ty = "stdx::make_env_t<%s>" % al if op == "make" else "stdx::extend_env_t<E%d%s>" % (i, ", " + al if al else "")
            envs.append((ty, m, False))
        else:
            pool = [j for j, e in enumerate(envs) if op == "group" or not e[2]]
            parts = [t.pick(pool) for _ in range(t.range(1, 4))]
            m = {}
            for j in parts if op == "append" else reversed(parts):
                m.update(envs[j][1])
            if op == "append":
                ty = "stdx::append_env_t<%s>" % ", ".join("E%d" % j for j in parts)
            else:
                # an own default of a query answers for the first environment asked, so only bound queries are grouped
                ty = "stdx::env<%s>" % ", ".join("E%d" % j for j in parts)
            envs.append((ty, m, op == "group"))
        c.d("using %s = %s;" % (new, envs[-1][0]))
        c.note("%s = %s" % (new, envs[-1][0]))
        c.chk("stdx::envlike<%s>" % new, "environment %s" % new)
    for i in range(1, len(envs)):
        for q in range(nq):
            ask(i, q)
    ask(0, t.choose(nq))
    c.nontrivial = sum(len(e[1]) for e in envs) >= 2 and len(envs) > 2


