"""Tuple elements for generated programs."""

VALUE = ["int", "V0", "V1", "long", "char", "bool", "double", "En", "ptr", "E0", "E1", "V2", "L0", "L1"]
MOVE = ["M0", "M1"]
REF = ["iref", "icref", "vref"]
CONST = ["kint", "kV0", "kchar"]
RREF = ["rint", "rV0"]  # their tuples can be moved but not copied

TYPE = dict(int="int", long="long", char="char", bool="bool", double="double", short="short",
            En="vb::En", ptr="int const *", V0="vb::V<0>", V1="vb::V<1>", V2="vb::V<2>", L0="vb::L<0>", L1="vb::L<1>",
            M0="vb::M<0>", M1="vb::M<1>", E0="vb::E<0>", E1="vb::E<1>",
            iref="int &", icref="int const &", vref="vb::V<0> &",
            kint="int const", kV0="vb::V<0> const", kchar="char const", rint="int &&", rV0="vb::V<0> &&")
PLAIN = dict(kint="int", kV0="V0", kchar="char", rint="int", rV0="V0", iref="int", icref="int", vref="V0")
ARITH = ("int", "long", "char", "bool", "double", "iref", "icref", "kint", "kchar", "rint")


def of_int(kind, e):
    """An expression making a value of the kind from the int expression e."""
    kind = PLAIN.get(kind, kind)
    ty = TYPE[kind]
    if kind in ("int",):
        return "int(%s)" % e
    if kind == "bool":
        return "bool((%s) & 1)" % e
    if kind == "ptr":
        return "&vb::pool[%s]" % e
    if kind[0] == "E" and kind != "En":
        return ty + "{}"
    if kind[0] in "VML":
        return "%s{%s}" % (ty, e)
    return "%s(%s)" % (ty, e)


def rd_of(kind, v):
    if kind == "bool":
        return v & 1
    if kind in ("E0", "E1"):
        return 0
    return v


class El:
    def __init__(self, c, kind, v):
        self.kind, self.type = kind, TYPE[kind]
        self.ref = kind in REF or kind in RREF
        self.rref = kind in RREF
        self.const = kind in CONST
        self.copyable = kind not in MOVE and kind not in RREF
        self.rd = rd_of(kind, v)
        self.v = v
        self.var = None
        if self.ref:
            self.var = c.name("r")
            c.s("%s %s{%d};" % (self.value_type, self.var, v))
            self.expr = "std::move(%s)" % self.var if self.rref else self.var
        else:
            self.expr = of_int(kind, str(v))
        self.copy_expr = self.var or self.expr  # does not move from a referred object

    @property
    def value_type(self):
        return TYPE[PLAIN.get(self.kind, self.kind)]

    @property
    def moves(self):
        """Whether taking the element of a moved-from tuple by value leaves a mark on it."""
        return self.kind[0] in "VML" or self.kind == "rV0"

    def on(self, cat):
        """decltype of access through a tuple of the given category."""
        if self.rref:
            return self.type if cat == "r" else "%s &" % self.value_type
        if self.ref:
            return self.type
        if self.const:
            return self.type + (" &&" if cat == "r" else " &")
        return {"l": "%s &", "cl": "%s const &", "r": "%s &&"}[cat] % self.type


def kinds_of(t, n, pool, same=False):
    if same and n > 1 and t.chance(1, 3):  # force repeats
        few = [t.pick(pool) for _ in range(2)]
        return [t.pick(few) for _ in range(n)]
    return [t.pick(pool) for _ in range(n)]


def spread(i, d):
    """A value for element i that every element type can hold."""
    return 10 + (10 * i + i // 11 * 3 + d) % 110


def elems(t, c, n, pool, same=True):
    return [El(c, k, spread(i, t.choose(10))) for i, k in enumerate(kinds_of(t, n, pool, same))]


def tuple_type(es):
    return "stdx::tuple<%s>" % ", ".join(e.type for e in es)


def decl(c, es, name=None, const=False):
    name = name or c.name("t")
    c.s("%s%s %s{%s};" % (tuple_type(es), " const" if const else "", name, ", ".join(e.expr for e in es)))
    return name


def show(es):
    return "(%s)" % ", ".join("%s=%d" % (e.kind, e.rd) for e in es)


def copyable(es):
    return all(e.copyable for e in es)


def assignable(es):
    return not any(e.ref or e.const for e in es)


def no_refs(es):
    return not any(e.ref for e in es)
