#include "optionals.hpp"
#include <vector>
using namespace opts;
namespace {
enum cat { LV, CLV, RV, CRV };
template <typename A> constexpr cat cat_of() {
    using U = std::remove_reference_t<A>;
    if constexpr (std::is_lvalue_reference_v<A>) {
        return std::is_const_v<U> ? CLV : LV;
    } else {
        return std::is_const_v<U> ? CRV : RV;
    }
}
struct seen {
    int calls = 0;
    std::vector<int> cats;
    std::vector<void const *> where;
    template <typename A> void arg(A &&a) {
        cats.push_back(cat_of<A &&>());
        where.push_back(&a);
    }
};
// hand an optional over in the category chosen
template <typename O, typename F> void with_cat(O &o, cat k, F f) {
    switch (k) {
    case LV: f(o); break;
    case CLV: f(std::as_const(o)); break;
    case RV: f(std::move(o)); break;
    default: f(std::move(std::as_const(o)));
    }
}
template <typename T> opt<T> gen(Ctx &c, bool &on) {
    on = c.chance(2, 3);
    return on ? opt<T>{at<T>(c.range(0, 7))} : opt<T>{};
}
template <typename T, typename R> void member_one(Ctx &c) {
    bool on{}, res_on = c.chance(3, 4);
    auto o = gen<T>(c, on);
    auto const before = *o;
    auto const k = static_cast<cat>(c.choose(4));
    auto const rk = c.range(0, 7);
    auto const what = c.choose(4);
    c.note("%s, category %d, operation %d", on ? "engaged" : "empty", k,
           int(what));
    seen s;
    auto const *place = &*o;
    auto chk_call = [&](bool called) {
        REQ(s.calls == (called ? 1 : 0), "called %d times", s.calls);
        if (called) {
            REQ(s.where[0] == place, "the argument is the contained object");
            REQ(s.cats[0] == k, "argument category %d, expected %d", s.cats[0],
                k);
        }
        REQ(*o == before, "contents changed");
    };
    switch (what) {
    case 0:
        with_cat(o, k, [&]<typename O>(O &&oo) {
            auto r = std::forward<O>(oo).transform([&](auto &&a) -> R {
                ++s.calls;
                s.arg(std::forward<decltype(a)>(a));
                return res_on ? at<R>(rk) : sentinel<R>();
            });
            static_assert(std::is_same_v<decltype(r), stdx::optional<R>>);
            chk_call(on);
            REQ(r.has_value() == (on and res_on), "result engaged");
            REQ(*r == (on and res_on ? at<R>(rk) : sentinel<R>()), "result");
        });
        break;
    case 1:
    case 2:
        with_cat(o, k, [&]<typename O>(O &&oo) {
            auto f = [&](auto &&a) -> opt<R> {
                ++s.calls;
                s.arg(std::forward<decltype(a)>(a));
                return res_on ? opt<R>{at<R>(rk)} : opt<R>{};
            };
            auto chk = [&](auto r) {
                static_assert(std::is_same_v<decltype(r), opt<R>>);
                chk_call(on);
                REQ(r.has_value() == (on and res_on), "result engaged");
                REQ(*r == (on and res_on ? at<R>(rk) : sentinel<R>()),
                    "result");
            };
            if (what == 1) {
                chk(std::forward<O>(oo).and_then(f));
            } else {
                chk(std::forward<O>(oo) | f);
            }
        });
        break;
    default: {
        opt<T> keep{o};
        with_cat(o, k, [&]<typename O>(O &&oo) {
            auto const held = [&](auto const &x) -> void const * {
                if constexpr (std::is_same_v<T, Obj>) {
                    return x->p.get();
                } else {
                    return nullptr;
                }
            };
            auto const *was = held(o);
            auto r = std::forward<O>(oo).or_else([&]() -> opt<T> {
                ++s.calls;
                return res_on ? opt<T>{at<T>(rk)} : opt<T>{};
            });
            static_assert(std::is_same_v<decltype(r), opt<T>>);
            REQ(s.calls == (on ? 0 : 1), "or_else called %d times", s.calls);
            auto const want = on       ? before
                              : res_on ? at<T>(rk)
                                       : sentinel<T>();
            REQ(*r == want, "or_else result");
            REQ(r.has_value() == (on or res_on), "or_else engaged");
            if (k != RV) {
                REQ(o == keep, "or_else left the source alone");
            } else if (on) {
                REQ(held(r) == was, "or_else of a temporary moves the value");
            }
        });
    }
    }
    c.nontrivial(on);
}
// tuple-like contents are unpacked
template <typename T> void member_tuple(Ctx &c) {
    bool on{};
    auto o = gen<T>(c, on);
    auto const before = *o;
    auto const k = static_cast<cat>(c.choose(4));
    auto const what = c.choose(3);
    auto const rk = c.range(0, 7);
    c.note("%s, category %d, operation %d", on ? "engaged" : "empty", k,
           int(what));
    seen s;
    void const *p0 = &get<0>(*o);
    void const *p1 = &get<1>(*o);
    auto chk = [&](auto const &r) {
        REQ(s.calls == (on ? 1 : 0), "called %d times", s.calls);
        if (on) {
            REQ(s.where[0] == p0 and s.where[1] == p1,
                "the arguments are the parts in order");
            // the tuple here has no access form for constant rvalues
            auto const part =
                std::is_same_v<T, STup> and k == CRV and s.cats[0] == CLV ? CLV
                                                                          : k;
            REQ(s.cats[0] == part and s.cats[1] == part,
                "category of the parts");
        }
        REQ(r.has_value() == on, "result engaged");
        if (on) {
            REQ(*r == at<E>(rk), "result");
        }
        REQ(*o == before, "contents changed");
    };
    with_cat(o, k, [&]<typename O>(O &&oo) {
        auto note = [&](auto &&a, auto &&b) {
            ++s.calls;
            s.arg(std::forward<decltype(a)>(a));
            s.arg(std::forward<decltype(b)>(b));
        };
        if (what == 0) {
            chk(std::forward<O>(oo).transform([&](auto &&a, auto &&b) -> E {
                note(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
                return at<E>(rk);
            }));
        } else {
            auto f = [&](auto &&a, auto &&b) -> stdx::optional<E> {
                note(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
                return stdx::optional<E>{at<E>(rk)};
            };
            if (what == 1) {
                chk(std::forward<O>(oo).and_then(f));
            } else {
                chk(std::forward<O>(oo) | f);
            }
        }
    });
    c.nontrivial(on);
}

struct move_only {
    std::unique_ptr<int> p;
    move_only() = default;
    explicit move_only(int k) : p{std::make_unique<int>(k)} {}
    friend bool operator==(move_only const &a, move_only const &b) {
        return (a.p ? *a.p : -1) == (b.p ? *b.p : -1);
    }
};
} // namespace
template <> struct stdx::tombstone_traits<move_only> {
    auto operator()() const { return move_only{}; }
};
namespace {
template <typename R> R result(int k) {
    if constexpr (std::is_same_v<R, move_only>) {
        return move_only{k};
    } else {
        return at<R>(k);
    }
}
template <template <typename> typename O, typename R, typename... Ts>
void nary(Ctx &c) {
    constexpr auto N = sizeof...(Ts);
    bool on[N]{};
    cat ks[N]{};
    std::size_t i = 0;
    auto one = [&]<typename T>(T const *) {
        on[i] = c.chance(3, 4);
        ks[i] = static_cast<cat>(c.choose(4));
        auto const v = c.range(0, 7);
        c.note("argument %zu: %s, category %d", i, on[i] ? "engaged" : "empty",
               ks[i]);
        auto const b = on[i];
        ++i;
        return b ? O<T>{at<T>(v)} : O<T>{};
    };
    std::tuple<O<Ts>...> os{one(static_cast<Ts const *>(nullptr))...};
    bool all = true;
    int engaged = 0;
    for (auto b : on) {
        all = all and b;
        engaged += b;
    }
    auto const rk = c.range(0, 7);
    seen s;
    std::vector<void const *> places;
    std::apply([&](auto &...x) {
        (places.push_back(x.has_value() ? static_cast<void const *>(&*x)
                                        : nullptr),
         ...);
    }, os);
    auto call = [&](auto &&...as) {
        auto r = stdx::transform(
            [&](auto &&...xs) -> R {
                ++s.calls;
                (s.arg(std::forward<decltype(xs)>(xs)), ...);
                return result<R>(rk);
            },
            std::forward<decltype(as)>(as)...);
        static_assert(std::is_same_v<decltype(r), O<R>>);
        REQ(s.calls == (all ? 1 : 0), "called %d times", s.calls);
        if (all) {
            for (std::size_t j = 0; j < N; ++j) {
                REQ(s.where[j] == places[j], "argument %zu is not in place", j);
                REQ(s.cats[j] == ks[j], "argument %zu category %d, expected %d",
                    j, s.cats[j], ks[j]);
            }
        }
        REQ(r.has_value() == all, "result engaged");
        if (all) {
            REQ(*r == result<R>(rk), "result value");
        }
    };
    // apply the categories one after another
    auto rec = [&]<std::size_t J>(auto self, std::integral_constant<std::size_t, J>,
                                  auto &&...done) -> void {
        if constexpr (J == N) {
            call(std::forward<decltype(done)>(done)...);
        } else {
            with_cat(std::get<J>(os), ks[J], [&](auto &&x) {
                self(self, std::integral_constant<std::size_t, J + 1>{},
                     std::forward<decltype(done)>(done)...,
                     std::forward<decltype(x)>(x));
            });
        }
    };
    rec(rec, std::integral_constant<std::size_t, 0>{});
    c.nontrivial(engaged >= 1);
}
// a function object used through its own category, and left alone otherwise
template <template <typename> typename O> void function_category(Ctx &c) {
    struct fn {
        int *log;
        E operator()(E a) & { *log = 1; return a; }
        E operator()(E a) const & { *log = 2; return a; }
        E operator()(E a) && { *log = 3; return a; }
    };
    int log = 0;
    fn f{&log};
    auto const on = c.chance(3, 4);
    auto const v = at<E>(c.range(0, 7));
    O<E> const o = on ? O<E>{v} : O<E>{};
    auto const k = c.choose(3);
    c.note("%s, function category %d", on ? "engaged" : "empty", int(k));
    auto r = k == 0   ? stdx::transform(f, o)
             : k == 1 ? stdx::transform(std::as_const(f), o)
                      : stdx::transform(std::move(f), o);
    REQ(log == (on ? int(k) + 1 : 0), "overload %d called", log);
    REQ(r == o, "result");
    c.nontrivial(on);
}
// the same through the members and the pipe operator
void member_function_category(Ctx &c) {
    using O = stdx::optional<E>;
    struct fn {
        int *log;
        O operator()(E a) & { *log = 1; return O{a}; }
        O operator()(E a) const & { *log = 2; return O{a}; }
        O operator()(E a) && { *log = 3; return O{a}; }
        O operator()() & { *log = 1; return O{}; }
        O operator()() const & { *log = 2; return O{}; }
        O operator()() && { *log = 3; return O{}; }
    };
    struct plain {
        int *log;
        E operator()(E a) & { *log = 1; return a; }
        E operator()(E a) const & { *log = 2; return a; }
        E operator()(E a) && { *log = 3; return a; }
    };
    int log = 0;
    fn f{&log};
    plain p{&log};
    auto const on = c.chance(2, 3);
    O o = on ? O{at<E>(c.range(0, 7))} : O{};
    O const before = o;
    auto const op = c.choose(4);
    auto const k = c.choose(3);
    auto const ok = c.choose(4);
    c.note("%s, operation %d, function category %d, optional category %d", on ? "engaged" : "empty", int(op), int(k), int(ok));
    auto const with_f = [&](auto &&x, auto &&g) {
        using X = decltype(x);
        using G = decltype(g);
        if constexpr (std::is_same_v<std::remove_cvref_t<G>, plain>) {
            REQ(std::forward<X>(x).transform(std::forward<G>(g)) == before, "transform");
        } else if (op == 1) {
            REQ(std::forward<X>(x).and_then(std::forward<G>(g)) == before, "and_then");
        } else if (op == 2) {
            REQ((std::forward<X>(x) | std::forward<G>(g)) == before, "pipe");
        } else {
            REQ(std::forward<X>(x).or_else(std::forward<G>(g)) == before, "or_else");
        }
    };
    auto const with_o = [&](auto &&x) {
        using X = decltype(x);
        auto const by = [&](auto &g) {
            if (k == 0) {
                with_f(std::forward<X>(x), g);
            } else if (k == 1) {
                with_f(std::forward<X>(x), std::as_const(g));
            } else {
                with_f(std::forward<X>(x), std::move(g));
            }
        };
        if (op == 0) {
            by(p);
        } else {
            by(f);
        }
    };
    if (ok == 0) {
        with_o(o);
    } else if (ok == 1) {
        with_o(std::as_const(o));
    } else if (ok == 2) {
        with_o(std::move(o));
    } else {
        with_o(std::move(std::as_const(o)));
    }
    auto const called = op == 3 ? not on : on;
    REQ(log == (called ? int(k) + 1 : 0), "overload %d called", log);
    c.nontrivial(called);
}
template <typename T> using sopt = stdx::optional<T>;
template <typename T> using dopt = std::optional<T>;

#if PART == 0
REG("member float to E", 2, member_one<float, E>);
REG("member E to float", 1, member_one<E, float>);
REG("member object", 2, member_one<Obj, Obj>);
REG("member pointer", 1, member_one<int *, Obj>);
REG("unpack pair", 1, member_tuple<Tup>);
REG("unpack stdx tuple", 1, member_tuple<STup>);
REG("function category", 1, function_category<sopt>);
REG("member function category", 1, member_function_category);
REG("function category std", 1, function_category<dopt>);
#elif PART == 1
REG("n-ary 1", 1, nary<sopt, E, float>);
REG("n-ary 2", 2, nary<sopt, E, float, Obj>);
REG("n-ary std 2", 1, nary<dopt, int, E, float>);
REG("n-ary move only", 1, nary<sopt, move_only, E, Obj>);
REG("n-ary std move only", 1, nary<dopt, move_only, E, Obj>);
#elif PART == 2
REG("n-ary 3", 2, nary<sopt, Obj, E, int *, double>);
#else
REG("n-ary std 3", 1, nary<dopt, Obj, Obj, E, Obj>);
#endif
} // namespace
