#include <pbt.hpp>
#include <cstddef>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <stdx/algorithm.hpp>
#include <stdx/numeric.hpp>
#include <string>
#include <vector>
using namespace pbt;
namespace {
// An iterator over an exact buffer which knows its bounds. The input flavour is
// single-pass: all copies share a position, each element may be read through
// the current position only, and reading or stepping outside is a failure.
struct range_ {
    std::vector<int> v;
    std::size_t pos = 0;        // of the single-pass flavour
    std::vector<int> read;      // number of reads per position
    std::size_t steps = 0;
};
template <typename Tag> struct iter {
    using iterator_category = Tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int const *;
    using reference = int const &;
    static constexpr bool single = std::is_same_v<Tag, std::input_iterator_tag>;
    range_ *r{};
    std::size_t k{};

    int const &operator*() const {
        REQ(k < r->v.size(), "dereference at %zu of %zu", k, r->v.size());
        if (single) {
            REQ(k == r->pos, "stale copy of a single-pass iterator read at %zu",
                k);
        }
        ++r->read[k];
        return r->v[k];
    }
    iter &operator++() {
        REQ(k < r->v.size(), "stepped past the end of %zu", r->v.size());
        if (single) {
            REQ(k == r->pos, "stale copy of a single-pass iterator stepped");
            ++r->pos;
        }
        ++k;
        ++r->steps;
        return *this;
    }
    iter operator++(int) {
        auto t = *this;
        ++*this;
        return t;
    }
    friend bool operator==(iter const &a, iter const &b) { return a.k == b.k; }
    // random access parts
    friend difference_type operator-(iter const &a, iter const &b)
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        return static_cast<difference_type>(a.k) -
               static_cast<difference_type>(b.k);
    }
    iter &operator+=(difference_type d)
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        k = static_cast<std::size_t>(static_cast<difference_type>(k) + d);
        REQ(k <= r->v.size(), "jumped past the end");
        return *this;
    }
    friend iter operator+(iter a, difference_type d)
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        return a += d;
    }
    friend iter operator-(iter a, difference_type d)
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        return a += -d;
    }
    iter &operator-=(difference_type d)
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        return *this += -d;
    }
    iter &operator--()
        requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag>
    {
        REQ(k > 0, "stepped before the start");
        --k;
        return *this;
    }
    int const &operator[](difference_type d) const
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        return *(*this + d);
    }
    friend auto operator<=>(iter const &a, iter const &b)
        requires std::is_base_of_v<std::random_access_iterator_tag, Tag>
    {
        return a.k <=> b.k;
    }
};
// an output iterator writing each position exactly once
struct sink {
    std::vector<int> v;
    std::vector<int> writes;
};
struct out_it {
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    sink *s{};
    std::size_t k{};
    struct ref {
        sink *s;
        std::size_t k;
        void operator=(int x) const {
            REQ(k < s->v.size(), "written at %zu of %zu", k, s->v.size());
            s->v[k] = x;
            ++s->writes[k];
        }
    };
    ref operator*() const { return {s, k}; }
    out_it &operator++() {
        ++k;
        return *this;
    }
    out_it operator++(int) {
        auto t = *this;
        ++k;
        return t;
    }
};

int mix(int a) { return a * 3 + 1; }
template <typename... Is> int mix(int a, Is... is) {
    return (mix(a) + ... + (is * 5 + 2));
}
// order-sensitive combination of the arguments of one call
std::string word() { return ")"; }
template <typename... Is> std::string word(int a, Is... is) {
    return "," + std::to_string(a) + word(is...);
}
struct op_t { // stateful, counts its own calls
    std::vector<std::string> *log;
    int calls = 0;
    template <typename... Is> int operator()(Is... is) {
        ++calls;
        log->push_back(word(is...));
        return mix(is...);
    }
};

template <std::size_t N> struct setup {
    range_ r[N];
    std::size_t len;
    setup(Ctx &c, std::size_t extra_of_first) : len{} {
        len = c.chance(1, 60) ? c.range(60, 300) : c.choose(8);
        for (std::size_t i = 0; i < N; ++i) {
            auto const more = i == 0 ? extra_of_first : c.choose(3);
            r[i].v.resize(len + more);
            for (auto &x : r[i].v) {
                x = c.range(-50, 50);
            }
            r[i].v.shrink_to_fit();
            r[i].read.resize(len + more);
        }
    }
    // exactly the first n positions were read, each once, in every range
    void reads(std::size_t n, bool butlast = false) {
        for (std::size_t i = 0; i < N; ++i) {
            for (std::size_t k = 0; k < r[i].v.size(); ++k) {
                REQ(r[i].read[k] == (k < n ? 1 : 0),
                    "range %zu position %zu read %d times, %zu wanted", i, k,
                    r[i].read[k], n);
            }
            (void)butlast;
        }
    }
    std::string want_word(std::size_t k) {
        std::string s;
        for (auto &x : r) {
            s += "," + std::to_string(x.v[k]);
        }
        return s + ")";
    }
    int want_mix(std::size_t k) {
        return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            return mix(r[Is].v[k]...);
        }(std::make_index_sequence<N>{});
    }
    void log_is(std::vector<std::string> const &log, std::size_t n) {
        REQ(log.size() == n, "%zu calls, expected %zu", log.size(), n);
        for (std::size_t k = 0; k < n; ++k) {
            REQ(log[k] == want_word(k), "call %zu got %s expected %s", k,
                log[k].c_str(), want_word(k).c_str());
        }
    }
};
template <typename Tag, std::size_t N, typename F>
auto firsts(setup<N> &s, F f) {
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return f(iter<Tag>{&s.r[Is + 1], 0}...);
    }(std::make_index_sequence<N - 1>{});
}
template <typename Res, std::size_t Off, typename Tag, std::size_t N>
void ends(Res const &res, setup<N> &s, std::size_t n) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (([&] {
             auto const &it = get<Is + Off>(res);
             constexpr std::size_t R =
                 stdx::tuple_size_v<Res> - Off == N ? Is : Is + 1;
             REQ(it.r == &s.r[R], "returned iterator %zu is of another range",
                 Is);
             REQ(it.k == n, "returned iterator %zu at %zu, expected %zu", Is,
                 it.k, n);
         }()),
         ...);
    }(std::make_index_sequence<stdx::tuple_size_v<Res> - Off>{});
}
template <typename Tag, std::size_t N> void run(Ctx &c) {
    constexpr bool multi = not std::is_same_v<Tag, std::input_iterator_tag>;
    auto const what = c.choose(multi ? 9 : 6);
    bool const counted = what == 1 or what == 3 or what == 5;
    setup<N> s{c, counted ? c.choose(3) : 0};
    auto const n = s.len;
    c.note("%zu ranges, length %zu, algorithm %d", N, n, int(what));
    std::vector<std::string> log;
    op_t op{&log};
    iter<Tag> const f{&s.r[0], 0}, l{&s.r[0], s.r[0].v.size()};
    auto chk_op = [&](op_t const &o, std::size_t k) {
        REQ(o.calls == static_cast<int>(k), "returned function has %d calls",
            o.calls);
        REQ(op.calls == 0, "the caller's function object was used");
    };
    switch (what) {
    case 0:
    case 1: {
        sink out;
        out.v.resize(n);
        out.writes.resize(n);
        auto const res = firsts<Tag>(s, [&](auto... is) {
            if (what == 0) {
                return stdx::transform(f, l, out_it{&out, 0}, op, is...);
            } else {
                return c.flip()
                           ? stdx::transform_n(f, n, out_it{&out, 0}, op, is...)
                           : stdx::transform_n(f, static_cast<int>(n),
                                               out_it{&out, 0}, op, is...);
            }
        });
        s.log_is(log, n);
        s.reads(n);
        for (std::size_t k = 0; k < n; ++k) {
            REQ(out.writes[k] == 1, "output %zu written %d times", k,
                out.writes[k]);
            REQ(out.v[k] == s.want_mix(k), "output %zu", k);
        }
        REQ(get<0>(res).k == n, "output end");
        static_assert(stdx::tuple_size_v<std::remove_cvref_t<decltype(res)>> ==
                      N + 1);
        ends<std::remove_cvref_t<decltype(res)>, 1, Tag>(res, s, n);
        break;
    }
    case 2: {
        auto const res = firsts<Tag>(
            s, [&](auto... is) { return stdx::for_each(f, l, op, is...); });
        s.log_is(log, n);
        s.reads(n);
        chk_op(get<0>(res), n);
        static_assert(stdx::tuple_size_v<std::remove_cvref_t<decltype(res)>> ==
                      N);
        ends<std::remove_cvref_t<decltype(res)>, 1, Tag>(res, s, n);
        break;
    }
    case 3: {
        auto const res = firsts<Tag>(s, [&](auto... is) {
            return c.flip() ? stdx::for_each_n(f, n, op, is...)
                            : stdx::for_each_n(f, static_cast<long>(n), op,
                                               is...);
        });
        s.log_is(log, n);
        s.reads(n);
        chk_op(get<0>(res), n);
        static_assert(stdx::tuple_size_v<std::remove_cvref_t<decltype(res)>> ==
                      N + 1);
        ends<std::remove_cvref_t<decltype(res)>, 1, Tag>(res, s, n);
        break;
    }
    case 4:
    case 5: { // left to right, into a type that is not the element type
        auto rop = [](std::string a, std::string const &b) {
            return a + ";" + b;
        };
        auto top = [&](auto... is) {
            log.push_back(word(is...));
            return word(is...);
        };
        auto const got = firsts<Tag>(s, [&](auto... is) {
            if (what == 4) {
                return stdx::transform_reduce(f, l, std::string{"i"}, rop, top,
                                              is...);
            } else {
                return stdx::transform_reduce_n(f, n, std::string{"i"}, rop, top,
                                                is...);
            }
        });
        std::string want = "i";
        for (std::size_t k = 0; k < n; ++k) {
            want += ";" + s.want_word(k);
        }
        REQ(got == want, "reduced to %s, expected %s", got.c_str(),
            want.c_str());
        s.log_is(log, n);
        s.reads(n);
        break;
    }
    case 6:
        if constexpr (multi) {
            auto const res = firsts<Tag>(s, [&](auto... is) {
                return stdx::for_each_butlast(f, l, op, is...);
            });
            auto const k = n == 0 ? 0 : n - 1;
            s.log_is(log, k);
            s.reads(k);
            chk_op(get<0>(res), k);
            static_assert(
                stdx::tuple_size_v<std::remove_cvref_t<decltype(res)>> ==
                N + 1);
            ends<std::remove_cvref_t<decltype(res)>, 1, Tag>(res, s, k);
            if (n <= 1) {
                LABEL(c, "all but last of a short range");
            }
        }
        break;
    case 7:
        if constexpr (multi) {
            auto const drop = n > 8 ? c.choose(n + 3) : c.choose(11);
            auto const res = firsts<Tag>(s, [&](auto... is) {
                return c.flip()
                           ? stdx::for_each_butlastn(
                                 f, l, static_cast<unsigned>(drop), op, is...)
                           : stdx::for_each_butlastn(
                                 f, l, static_cast<int>(drop), op, is...);
            });
            auto const k = n > drop ? n - drop : 0;
            c.note("drop %zu", std::size_t{drop});
            s.log_is(log, k);
            s.reads(k);
            chk_op(get<0>(res), k);
            ends<std::remove_cvref_t<decltype(res)>, 1, Tag>(res, s, k);
            if (drop > n) {
                LABEL(c, "dropping more than there is");
            }
        }
        break;
    default:
        if constexpr (multi) {
            struct tagged {
                std::vector<std::string> *log;
                char t;
                int calls = 0;
                void operator()(int x) {
                    ++calls;
                    log->push_back(t + std::to_string(x));
                }
            };
            auto const res = stdx::initial_medial_final(
                f, l, tagged{&log, 'i'}, tagged{&log, 'm'}, tagged{&log, 'f'});
            std::vector<std::string> want;
            for (std::size_t k = 0; k < n; ++k) {
                char const t = k == 0 ? 'i' : k == n - 1 ? 'f' : 'm';
                want.push_back(t + std::to_string(s.r[0].v[k]));
            }
            REQ(log == want, "initial, medial and final calls for %zu", n);
            for (std::size_t k = 0; k < n; ++k) {
                REQ(s.r[0].read[k] == 1, "position %zu read %d times", k,
                    s.r[0].read[k]);
            }
            REQ(get<0>(res).calls == (n > 0) and
                    get<1>(res).calls == (n > 2 ? int(n) - 2 : 0) and
                    get<2>(res).calls == (n > 1),
                "returned functions");
        }
    }
    c.nontrivial(n >= 2);
}
// in place, and over pointers into exactly sized buffers
template <std::size_t N> void buffers(Ctx &c) {
    auto const n = c.choose(9);
    std::unique_ptr<int[]> b[N];
    std::vector<int> orig[N];
    for (std::size_t i = 0; i < N; ++i) {
        b[i] = std::make_unique<int[]>(n);
        orig[i].resize(n);
        for (std::size_t k = 0; k < n; ++k) {
            b[i][k] = orig[i][k] = c.range(-9, 9);
        }
    }
    c.note("%zu buffers of %zu", N, std::size_t{n});
    auto const drop = c.choose(5);
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        auto want = [&](std::size_t k) {
            return mix(orig[0][k], orig[Is + 1][k]...);
        };
        auto r = stdx::transform(
            b[0].get(), b[0].get() + n, b[0].get(),
            [](auto... xs) { return mix(xs...); }, b[Is + 1].get()...);
        REQ(get<0>(r) == b[0].get() + n and get<1>(r) == b[0].get() + n,
            "ends of an in-place transform");
        for (std::size_t k = 0; k < n; ++k) {
            REQ(b[0][k] == want(k), "in place at %zu", k);
        }
        int calls = 0;
        auto e = stdx::for_each_butlastn(
            b[0].get(), b[0].get() + n, drop, [&](auto &...xs) {
                ++calls;
                ((xs = -1), ...);
            },
            b[Is + 1].get()...);
        auto const k0 = n > drop ? n - drop : 0;
        REQ(calls == int(k0), "%d calls, expected %zu", calls, k0);
        REQ(get<1>(e) == b[0].get() + k0, "end");
        for (std::size_t k = 0; k < n; ++k) {
            REQ((b[0][k] == -1) == (k < k0 or want(k) == -1),
                "elements are passed by reference");
        }
        auto const sum = stdx::transform_reduce(
            orig[0].begin(), orig[0].end(), 1000L,
            [](long a, int x) { return a * 2 + x; },
            [](auto... xs) { return mix(xs...); }, orig[Is + 1].begin()...);
        static_assert(std::is_same_v<decltype(sum), long const>);
        long w = 1000;
        for (std::size_t k = 0; k < n; ++k) {
            w = w * 2 + want(k);
        }
        REQ(sum == w, "reduction");
    }(std::make_index_sequence<N - 1>{});
    c.nontrivial(n >= 2);
}
// member functions and member pointers can be the function
struct box {
    int v;
    int plus(int x) const { return v + x; }
};
PROPERTY("members", 1) {
    auto const n = c.choose(6);
    std::forward_list<box> bs;
    std::list<int> is;
    std::vector<int> want, got;
    auto p = bs.before_begin();
    long sum = 0;
    for (std::size_t k = 0; k < n; ++k) {
        int const a = c.range(-9, 9), b = c.range(-9, 9);
        p = bs.insert_after(p, box{a});
        is.push_back(b);
        want.push_back(a + b);
        sum += a;
    }
    c.note("%zu boxes", std::size_t{n});
    auto r = stdx::transform(bs.begin(), bs.end(), std::back_inserter(got),
                             &box::plus, is.begin());
    REQ(got == want, "member function");
    REQ(get<1>(r) == bs.end() and get<2>(r) == is.end(), "ends");
    REQ(stdx::transform_reduce(bs.begin(), bs.end(), 0L, std::plus<>{},
                               &box::v) == sum,
        "data member");
    // all but the last, over node-based ranges of different kinds
    int calls = 0;
    auto e = stdx::for_each_butlast(bs.begin(), bs.end(),
                                    [&](box &, int &) { ++calls; }, is.begin());
    REQ(calls == (n == 0 ? 0 : int(n) - 1), "%d calls", calls);
    REQ((get<1>(e) == bs.end()) == (n == 0), "stops before the last");
    // move-only accumulation
    auto step = [](std::unique_ptr<int> a, int x) {
        *a = *a * 3 + x;
        return a;
    };
    auto u = stdx::transform_reduce(is.begin(), is.end(),
                                    std::make_unique<int>(0), step,
                                    [](int x) { return x; });
    auto un = stdx::transform_reduce_n(is.begin(), std::size_t{n},
                                       std::make_unique<int>(0), step,
                                       [](int x) { return x; });
    int w = 0;
    for (auto x : is) {
        w = w * 3 + x;
    }
    REQ(*u == w and *un == w, "move-only accumulation");
    c.nontrivial(n >= 2);
}
using in = std::input_iterator_tag;
using fw = std::forward_iterator_tag;
using bi = std::bidirectional_iterator_tag;
using ra = std::random_access_iterator_tag;
#if PART == 0
REG("input 1", 1, run<in, 1>);
REG("input 2", 1, run<in, 2>);
REG("input 3", 1, run<in, 3>);
REG("bidirectional 2", 1, run<bi, 2>);
REG("buffers 1", 1, buffers<1>);
REG("buffers 2", 1, buffers<2>);
REG("buffers 3", 1, buffers<3>);
#else
REG("forward 1", 2, run<fw, 1>);
REG("forward 2", 1, run<fw, 2>);
REG("forward 4", 1, run<fw, 4>);
REG("random 1", 2, run<ra, 1>);
REG("random 2", 1, run<ra, 2>);
REG("random 3", 1, run<ra, 3>);
#endif
} // namespace
