"""Registry: which engine decides which property, with what budget."""

_state = "a case is non-trivial when "
# the second compiler sees other library paths; it joins in the thorough tier only
_both = dict(configs=["gcc", "clang"], share={"clang": 0.2}, thorough_only=["clang"])
_tuples = dict(configs=["gcc", "clang"], share={"clang": 0.2})

CHECKS = {
    "B01": dict(engine="A", parts=5, quick=4800000, thorough=20000000,
                rule=_state + "at least one bit is set by the construction or the history before converting"),
    "B02": dict(engine="A", parts=5, quick=2800000, thorough=12000000,
                rule=_state + "the history has at least two operations and ends non-empty, or has more than four"),
    "B03": dict(engine="A", parts=5, quick=2800000, thorough=12000000,
                rule=_state + "the contents iterated over have both set and unset bits"),
}
CHECKS.update({
    "C12": dict(engine="B", includes=["stdx/array.hpp"], configs=["gcc", "clang"], share={"clang": 0.2}, thorough_only=["clang"],
                quick=3000, thorough=12000,
                rule=_state + "the array has at least two elements"),
    "M04": dict(engine="B", first="b_poly.hpp", includes=["stdx/concepts.hpp", "stdx/ranges.hpp", "stdx/priority.hpp", "stdx/type_traits.hpp"],
                configs=["gcc", "gccpoly"], share={"gccpoly": 0.5}, clang_must_compile=True, san=False, quick=4000, thorough=16000,
                rule=_state + "the question is about a qualified, derived, compared, called or selected type, not a plain one"),
    "S05": dict(engine="B", includes=["stdx/static_assert.hpp", "stdx/utility.hpp"], defines=["STDX_FREESTANDING"],
                configs=["gcc", "clang26"], share={"clang26": 0.2}, clang_must_compile=True,
                batch=8, san=False, quick=800, thorough=3000,
                rule=_state + "the text has at least one formatted argument and more than three characters"),
    "R01": dict(engine="B", includes=["span", "stdx/span.hpp", "stdx/tuple.hpp", "stdx/tuple_algorithms.hpp", "stdx/bitset.hpp",
                                      "stdx/atomic_bitset.hpp", "stdx/atomic.hpp", "stdx/bit.hpp", "stdx/udls.hpp", "stdx/utility.hpp",
                                      "stdx/rollover.hpp", "stdx/optional.hpp", "stdx/iterator.hpp", "stdx/byterator.hpp",
                                      "stdx/cx_vector.hpp", "stdx/cx_set.hpp", "stdx/cx_map.hpp", "stdx/cx_queue.hpp",
                                      "stdx/intrusive_list.hpp", "stdx/intrusive_forward_list.hpp", "stdx/for_each_n_args.hpp",
                                      "stdx/call_by_need.hpp", "stdx/ct_format.hpp", "stdx/env.hpp", "stdx/type_traits.hpp"],
                defines=["STDX_FREESTANDING"], batch=8, san=False, quick=2400, thorough=8000,
                rule=_state + "a correct use and a misuse next to it, past a limit above zero or of another kind, are both compiled"),
})

NOT_APPLICABLE = {}
CHECKS.update({
    "B04": dict(engine="A", parts=3, quick=2400000, thorough=8000000,
                rule=_state + "the history has at least one operation and leaves at least one type in the set"),
    "B05": dict(engine="A", parts=3, quick=3200000, thorough=12000000,
                rule=_state + "at least one operation was interleaved with a change made by another thread, or a construction set a bit"),
    "B06": dict(engine="A", parts=2, quick=3200000, thorough=12000000,
                rule=_state + "at least one operation was interleaved with a change made by another thread, or a plain-value history has two operations"),
})
CHECKS.update({
    "B07": dict(engine="A", parts=3, quick=12000000, thorough=40000000,
                rule=_state + "the value is neither zero nor all ones and the rotation is not a multiple of the width"),
    "B08": dict(engine="A", parts=4, quick=10000000, thorough=30000000,
                rule=_state + "the packed parts differ, the range does not start at bit 0, or a non-zero value is split"),
})
CHECKS.update({
    "C01": dict(engine="A", quick=1400000, thorough=6000000,
                rule=_state + "the history has at least three operations and ends with a non-empty vector"),
    "C02": dict(engine="A", quick=2000000, thorough=8000000,
                rule=_state + "the history has at least three operations and ends with a non-empty map"),
    "C03": dict(engine="A", quick=2000000, thorough=8000000,
                rule=_state + "the history has at least three operations and ends with a non-empty set"),
    "C04": dict(engine="A", quick=1200000, thorough=5000000,
                rule=_state + "the history has at least three operations and ends with a non-empty multimap"),
    "C05": dict(engine="A", quick=3200000, thorough=12000000,
                rule=_state + "at least two elements were pushed and one popped or one violation reported"),
})
CHECKS.update({
    "C06": dict(engine="A", quick=2800000, thorough=10000000,
                rule=_state + "at least four operations ran, among them a positional insertion or removal, and at least two nodes remain linked"),
    "C07": dict(engine="A", quick=3600000, thorough=12000000,
                rule=_state + "at least four operations ran, among them a pop, and a node remains linked"),
    "C08": dict(engine="A", quick=3600000, thorough=12000000,
                rule=_state + "at least two nodes were added in three or more operations"),
    "C09": dict(engine="A", quick=3600000, thorough=12000000,
                rule=_state + "a view over at least two elements was narrowed, converted or written through"),
})
CHECKS.update({
    "C10": dict(engine="A", quick=3600000, thorough=12000000,
                rule=_state + "at least three steps ran with a read or write and the iterator ended at another byte, or a container iterator past the first element was walked"),
    "C11": dict(engine="A", quick=3600000, thorough=12000000,
                rule=_state + "at least three steps, jumps, comparisons or algorithm runs were made"),
})
CHECKS.update({
    "V01": dict(engine="A", quick=2000000, thorough=8000000,
                rule=_state + "at least three operations ran and a value was held after one of them"),
})
CHECKS.update({
    "V02": dict(engine="A", parts=4, quick=4800000, thorough=15000000,
                rule=_state + "at least one of the optionals involved holds a value"),
    "V03": dict(engine="A", quick=2800000, thorough=10000000,
                rule=_state + "at least three steps ran and one of them accessed or refreshed a value"),
})
CHECKS.update({
    "V04": dict(engine="A", quick=6000000, thorough=20000000,
                rule=_state + "at least two operations ran with one wrapping around, both operands are non-zero, or the step wraps"),
    "V05": dict(engine="A", quick=10000000, thorough=30000000,
                rule=_state + "the value is at or beyond a limit of the target, the units do not divide evenly or differ, the sign changes, or the value is aligned"),
    "L01": dict(engine="A", parts=2, quick=3200000, thorough=12000000,
                rule=_state + "the first range has at least two elements"),
})
CHECKS.update({
    "T01": dict(engine="B", includes=["stdx/tuple.hpp", "stdx/tuple_algorithms.hpp"], quick=2400, thorough=8000, **_tuples,
                rule=_state + "the tuple has at least two elements"),
})
_tup = ["stdx/tuple.hpp", "stdx/tuple_algorithms.hpp"]
CHECKS.update({
    "T02": dict(engine="B", includes=_tup + ["algorithm"], quick=2400, thorough=8000, **_tuples,
                rule=_state + "at least two positions are visited"),
})
CHECKS.update({
    "T03": dict(engine="B", includes=_tup, quick=2400, thorough=8000, **_tuples,
                rule=_state + "the result has at least two elements"),
})
CHECKS.update({
    "T04": dict(engine="B", includes=_tup, helper="b_tuple.hpp", quick=2400, thorough=8000, **_tuples,
                rule=_state + "the tuple has at least three elements of at least two types"),
})
CHECKS.update({
    "T05": dict(engine="B", includes=_tup, helper="b_tuple.hpp", quick=2400, thorough=8000, **_tuples,
                rule=_state + "there are at least two elements"),
})
CHECKS.update({
    "F01": dict(engine="B", includes=["stdx/call_by_need.hpp"], quick=2400, thorough=8000, **_both,
                rule=_state + "there is a function and at least two arguments"),
})
CHECKS.update({
    "F02": dict(engine="B", includes=["stdx/functional.hpp", "stdx/utility.hpp", "map", "optional", "deque", "memory"],
                quick=2400, thorough=8000, rule=_state + "at least two arguments, overloads or runs are involved"),
})
CHECKS.update({
    "F03": dict(engine="B", includes=["stdx/function_traits.hpp", "stdx/for_each_n_args.hpp"],
                quick=2400, thorough=8000, **_both, rule=_state + "the function has parameters, or is called at least twice"),
})
CHECKS.update({
    "S01": dict(engine="B", includes=["stdx/ct_string.hpp", "stdx/utility.hpp", "stdx/type_traits.hpp"], helper="b_str.hpp",
                quick=2400, thorough=8000, **_both,
                rule=_state + "a non-empty string is split at a character it has, joined, compared or converted"),
})
CHECKS.update({
    "S02": dict(engine="B", includes=["stdx/ct_format.hpp", "boost/mp11/list.hpp", "boost/mp11/algorithm.hpp"], helper="b_str.hpp",
                configs=["gcc", "clang"], share={"clang": 0.25}, defines=["STDX_FREESTANDING"], quick=1600, thorough=4000,
                rule=_state + "an argument stays for run time or is named, or the text has more than 6 characters"),
})
CHECKS.update({
    "S03": dict(engine="B", includes=["stdx/ct_conversions.hpp", "stdx/ct_format.hpp"], helper="b_name.hpp",
                configs=["gcc", "clang"], share={"clang": 0.5}, defines=["STDX_FREESTANDING"], quick=1600, thorough=4000,
                rule=_state + "the name is in a nested scope, has template arguments, or is longer than 12 characters"),
})
CHECKS.update({
    "S04": dict(engine="B", includes=["stdx/udls.hpp", "stdx/utility.hpp", "stdx/tuple.hpp", "stdx/bit.hpp"], helper="b_str.hpp",
                quick=3200, thorough=16000, **_both, rule=_state + "a literal of more than one digit is read"),
})
CHECKS.update({
    "M01": dict(engine="B", includes=["stdx/type_traits.hpp", "stdx/utility.hpp", "stdx/concepts.hpp", "stdx/ranges.hpp", "stdx/tuple.hpp"],
                helper="b_meta.hpp", configs=["gcc", "clang"], share={"clang": 0.5}, quick=4800, thorough=20000,
                rule=_state + "the map or list has at least two entries, or two different types or templates are told apart"),
})
CHECKS.update({
    "M02": dict(engine="B", includes=["stdx/env.hpp", "stdx/ct_string.hpp"], helper="b_env.hpp", configs=["gcc", "clang"],
                share={"clang": 0.5}, quick=2400, thorough=10000,
                rule=_state + "at least two environments hold at least two bindings between them"),
    "M03": dict(engine="B", includes=["stdx/ct_string.hpp", "stdx/panic.hpp", "stdx/pp_map.hpp"], helper="b_panic.hpp",
                configs=["gcc", "clang"], share={"clang": 0.5}, quick=2400, thorough=10000,
                rule=_state + "a panic carries an argument, or the mapped list has at least two items"),
})
CHECKS.update({
    "X01": dict(engine="B", includes=["stdx/%s.hpp" % h for h in (
        "algorithm", "array", "bit", "bitset", "call_by_need", "ct_string", "cx_map", "cx_multimap", "cx_queue", "cx_set", "cx_vector",
        "functional", "intrusive_forward_list", "intrusive_list", "iterator", "latched", "numeric", "optional", "rollover", "span",
        "tuple", "tuple_algorithms", "utility")],
                helper="b_cx.hpp", configs=["gcc", "clang"], share={"clang": 1.0}, quick=3200, thorough=16000,
                rule=_state + "the computation has at least four steps"),
})
