from .tup import *

CAT = {"l": "%s", "cl": "std::as_const(%s)", "r": "std::move(%s)"}
ARITH = ("int", "long", "char", "bool", "double", "iref", "icref")
BASE = dict(iref="int", icref="int", vref="V0")


class Param:
    def __init__(self, base, form, default=None):
        self.base, self.form, self.default = base, form, default

    def decl(self, name):
        ty = "auto" if self.base == "auto" else TYPE[self.base]
        s = "%s%s %s" % (ty, {"v": "", "c": " const &", "l": " &", "r": " &&"}[self.form], name)
        if self.default is not None:
            s += " = %s" % of_int(self.base, str(self.default))
        return s

    def accepts(self, a):
        if self.base == "auto":
            return True  # always by const reference
        base = BASE.get(a.kind, a.kind)
        cat = a.category
        if self.base in ARITH and self.form in "vc":
            return a.kind in ARITH
        if base != self.base:
            return False
        if self.form == "c":
            return True
        if self.form == "l":
            return cat == "l"
        if self.form == "r":
            return cat == "r"
        return cat == "r" or a.copyable


class Fn:
    pass


def category(e, cat):
    if e.ref:
        return "cl" if e.kind == "icref" else "l"
    return cat


def gen(t, c):
    n = t.weighted([(2, 0), (6, 1), (8, 2), (8, 3), (6, 4), (2, 6), (1, 9), (1, 12)])
    acat = t.pick(["r", "l", "cl"])
    es = elems(t, c, n, ["int", "V0", "V1", "M0", "char", "double", "E0", "En", "ptr", "M1", "iref", "icref", "vref"])
    x = decl(c, es, "args")
    for e in es:
        e.category = category(e, acat)
        e.state = e.rd
    m = t.weighted([(1, 0), (4, 1), (4, 2), (3, 3), (1, 4)])
    fns = []
    for k in range(m):
        f = Fn()
        base = t.choose(n) if n else 0
        ln = t.choose((n - base if t.chance(1, 6) else min(3, n - base)) + 1) if n else 0
        f.params = []
        for e in es[base:base + ln]:
            if t.chance(1, 6):
                p = Param("auto", "c")
            else:
                b = BASE.get(e.kind, e.kind)
                forms = ["c"]
                if e.copyable or e.category == "r":
                    forms.append("v")
                if e.category in ("l", "r") and b not in ARITH:
                    forms.append(e.category)
                if e.kind == "iref" or (e.kind == "int" and e.category == "l"):
                    forms.append("l")
                form = t.pick(forms)
                if b in ("char",) and t.flip():
                    b, form = "int", "v"
                p = Param(b, form)
            f.params.append(p)
        f.ndef = 0
        while t.chance(1, 5) and f.ndef < 4:
            f.params.append(Param(t.pick(["int", "V0", "V1", "double"]), "v", 60 + t.choose(9)))
            f.ndef += 1
        f.ret = t.pick(["long", "void", "V2", "ref", "M1"])
        fns.append(f)
    fcat = t.pick(["r", "l", "cl"])
    c.s("std::vector<long> log; static int target[8]{};")
    lams = []
    for k, f in enumerate(fns):
        names = ["p%d" % i for i in range(len(f.params))]
        put = " ".join("log.push_back(vb::rd(%s));" % nm for nm in names)
        val = "%d + %s" % (1000 * (k + 1), " + ".join(["0"] + ["vb::rd(%s)" % nm for nm in names]))
        ret = {"long": "-> long { %s return %s; }" % (put, val), "void": "-> void { %s }" % put,
               "V2": "-> vb::V<2> { %s return vb::V<2>(int(%s)); }" % (put, val),
               "M1": "-> vb::M<1> { %s return vb::M<1>(int(%s)); }" % (put, val),
               "ref": "-> int & { %s target[%d] = int(%s); return target[%d]; }" % (put, k, val, k)}[f.ret]
        f.own = fcat == "r" and t.chance(1, 3)  # a function that can be moved but not copied
        lams.append("[&log%s](%s) %s" % (", own = vb::M<2>(%d)" % (40 + k) if f.own else "",
                                     ", ".join(p.decl(nm) for p, nm in zip(f.params, names)),
                                     ret.replace("{ ", "{ log.push_back(%d);%s " % (-100 - k, " log.push_back(vb::rd(own));" if f.own else ""), 1)))
    for k, l in enumerate(lams):
        c.s("auto f%d = %s;" % (k, l))
    c.s("stdx::tuple<%s> fs{%s};" % (", ".join("decltype(f%d)" % k for k in range(m)), ", ".join("std::move(f%d)" % k for k in range(m))))

    # the documented search
    used = set()
    log, types, vals = [], [], []
    for k, f in enumerate(fns):
        found = None
        for b in range(max(n, 1)):
            for ln in range(n - b, -1, -1):
                run = es[b:b + ln]
                if len(f.params) - f.ndef <= ln <= len(f.params) and all(p.accepts(a) for p, a in zip(f.params, run)):
                    found = (b, ln)
                    break
            if found:
                break
        assert found, (k, [(p.base, p.form) for p in f.params], show(es))
        b, ln = found
        used |= set(range(b, b + ln))
        f.found = found
        seen = []
        for i, p in enumerate(f.params):
            if i < ln:
                a = es[b + i]
                v = a.state
                seen.append(rd_of(p.base, v) if p.base in ("E0", "E1") else v)
                if p.form == "v" and a.category == "r" and a.kind[0] in "VML":
                    a.state = -1
            else:
                seen.append(rd_of(p.base, p.default))
        log += [-100 - k] + [40 + k] * f.own + seen
        if f.ret != "void":
            types.append({"long": "long", "V2": "vb::V<2>", "M1": "vb::M<1>", "ref": "int &"}[f.ret])
            vals.append(1000 * (k + 1) + sum(seen))
    for i, e in enumerate(es):
        if i not in used:
            ty = e.on(acat)
            types.append(e.type if ty.endswith("&&") else ty)
            vals.append(e.rd)
            if ty.endswith("&&") and e.kind[0] in "VML":
                e.state = -1
    c.note("args %s%s" % (acat, show(es)))
    c.note("functions " + ", ".join("%s(%s)@%s" % (f.ret, ",".join(p.base + p.form + ("=" if p.default is not None else "")
                                                                     for p in f.params), f.found) for f in fns))
    c.s("auto r = stdx::call_by_need(%s, %s);" % (CAT[fcat] % "fs", CAT[acat] % x))
    c.same("decltype(r)", "stdx::tuple<%s>" % ", ".join(types), "type of the results")
    for i, v in enumerate(vals):
        c.eq("vb::rd(stdx::get<%d>(r))" % i, v, "result %d" % i)
    c.chk("log == (std::vector<long>{%s})" % ", ".join(map(str, log)), "calls and their arguments, in order")
    k = len([f for f in fns if f.ret != "void"])
    for i, e in enumerate(es):
        c.eq("vb::rd(stdx::get<%d>(%s))" % (i, x), e.state, "argument %d afterwards" % i)
        if i not in used:
            if e.ref or acat != "r":
                c.chk("&stdx::get<%d>(r) == &stdx::get<%d>(%s)" % (k, i, x), "an unused lvalue is passed through")
            k += 1
    c.nontrivial = m >= 1 and n >= 2
    if any(f.own for f in fns):
        c.labels.add("move-only function")
    if len(used) < n and m:
        c.labels.add("unused arguments")
    if any(f.found[0] for f in fns):
        c.labels.add("later start")
