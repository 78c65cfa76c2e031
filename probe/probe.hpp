// Interface between the probes and the analyser (all mr_* functions are interpreted by it).
#pragma once
#include <mregex.hpp>
#include <iterator>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include "ref.hpp"

extern "C"
{
    void mr_out(int tag, long value);                 // observation
    void mr_outp(int tag, char const *pos);           // observation of a position
    void mr_chk(char const *pos);                     // an iterator now points to pos
    int mr_ind();
    char const *mr_ambient(int id);                   // an arbitrary position, the same for both sides
    char const *mr_ambient_in(int id, char const *lo, char const *hi);
    bool mr_flip(int id);
    char mr_anybyte(int id);
    bool mr_one(int k, char c);
    bool mr_more(int k, int nonzero, char const *pos, int dir, int i);
    char const *mr_cand(int k, int nonzero, char const *pos, int dir, int i);
}

namespace pr
{
    using P = char const *;

    // ---- iterators of restricted categories; every move is checked --------------------------
    template<typename Cat>
    struct iter
    {
        using iterator_category = Cat;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;

        P p = nullptr;

        constexpr iter() = default;
        constexpr explicit iter(P q) : p(q) {}
        reference operator*() const { return *p; }
        iter &operator++() { ++p; mr_chk(p); return *this; }
        iter operator++(int) { iter t = *this; ++*this; return t; }
        bool operator==(iter const &o) const { return p == o.p; }

        iter &operator--() requires std::is_base_of_v<std::bidirectional_iterator_tag, Cat> { --p; mr_chk(p); return *this; }
        iter operator--(int) requires std::is_base_of_v<std::bidirectional_iterator_tag, Cat> { iter t = *this; --*this; return t; }

        iter &operator+=(difference_type n) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { p += n; mr_chk(p); return *this; }
        iter &operator-=(difference_type n) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { p -= n; mr_chk(p); return *this; }
        friend iter operator+(iter a, difference_type n) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { a += n; return a; }
        friend iter operator+(difference_type n, iter a) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { a += n; return a; }
        friend iter operator-(iter a, difference_type n) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { a -= n; return a; }
        friend difference_type operator-(iter a, iter b) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { return a.p - b.p; }
        reference operator[](difference_type n) const requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { return *(*this + n); }
        friend auto operator<=>(iter a, iter b) requires std::is_base_of_v<std::random_access_iterator_tag, Cat> { return a.p <=> b.p; }
    };
    using fwd = iter<std::forward_iterator_tag>;
    using bid = iter<std::bidirectional_iterator_tag>;
    using rnd = iter<std::random_access_iterator_tag>;
    static_assert(std::forward_iterator<fwd> && !std::bidirectional_iterator<fwd>);
    static_assert(std::bidirectional_iterator<bid> && !std::random_access_iterator<bid>);
    static_assert(std::random_access_iterator<rnd>);

    template<typename It> It at(P p) { if constexpr (std::is_pointer_v<It>) return p; else return It{p}; }
    inline P pos(P p) { return p; }
    template<typename Cat> P pos(iter<Cat> i) { return i.p; }
    template<typename It> P pos(std::reverse_iterator<It> i) { return pos(i.base()); }

    // ---- observation of results ---------------------------------------------------------------
    template<int I, typename Res>
    void obs_group(Res &&r)
    {
        auto g = r.template group<I>();
        auto b = g.begin();
        auto e = g.end();
        if (b == e) { mr_out(10 + I, 0); }
        else { mr_out(10 + I, 1); mr_outp(40 + I, pos(b)); mr_outp(70 + I, pos(e)); }
    }
    template<typename Res, std::size_t... I>
    void obs_groups(Res &&r, std::index_sequence<I...>) { (obs_group<I>(r), ...); }

    template<int NC, typename Res>
    void obs_result(Res &&r)
    {
        bool const ok = static_cast<bool>(r);
        mr_out(1, ok ? 1 : 0);
        if (ok) mr_outp(40, pos(r.template group<0>().begin()));   // an empty match has a position, too
        obs_groups(r, std::make_index_sequence<NC + 1>{});
    }

    template<typename E>
    void obs_ref(E &s, bool ok, bool where = true)
    {
        mr_out(1, ok);
        if (ok && where) mr_outp(40, s.c[0].b);
        for (int i = 0; i <= E::nc; i++)
        {
            if (!ok || s.c[i].b == s.c[i].e) mr_out(10 + i, 0);
            else { mr_out(10 + i, 1); mr_outp(40 + i, s.c[i].b); mr_outp(70 + i, s.c[i].e); }
        }
    }
}

namespace pr
{
    // a container that owns its elements (small, on the stack) and invalidates them when it dies
    struct box
    {
        char d[16];
        long n;
        box(P b, P e) : d{}, n(e - b) { for (long i = 0; i < n; i++) d[i] = b[i]; }
        ~box() { for (char &c : d) c = '#'; n = -1; }
        box(box const &) = default;
        char const *begin() const { return d; }
        char const *end() const { return d + n; }
    };
    struct span { P b, e; P begin() const { return b; } P end() const { return e; } };
}

#define PR_MATCH(NAME, REGEX, IT, RT, NC, FL)                                                        \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_result<NC>(REGEX::match(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::full<RT>(s); pr::obs_ref(s, ok); }
#define PR_PREFIX(NAME, REGEX, IT, RT, NC, FL)                                                       \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_result<NC>(REGEX::match_prefix(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::prefix<RT>(s); pr::obs_ref(s, ok); }
#define PR_SEARCH(NAME, REGEX, IT, RT, NC, FL)                                                       \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_result<NC>(REGEX::search(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::search<RT>(s); pr::obs_ref(s, ok); }

// ---- generators and ranges --------------------------------------------------------------------
namespace pr
{
    // reference: matches one after the other, each starting where the last one ended; an empty match
    // or a failure is the last one, and from then on the result is empty
    template<typename X, bool Search, int NC, unsigned FL, int N>
    void ref_gen(P b, P e, bool stop_at_failure)
    {
        P cur = b;
        bool active = true;
        for (int i = 0; i < N; i++)
        {
            R::env<NC, FL> s{b, e};
            bool ok = false;
            if (active)
            {
                if (Search) ok = R::search_from<X>(s, cur);
                else
                {
                    R::res r = X::template m<1>(s, cur, R::accept);
                    ok = r.ok;
                    if (ok) s.c[0] = {cur, r.end};
                }
                if (ok) cur = s.c[0].e;
                active = ok && s.c[0].b != s.c[0].e;
            }
            if (stop_at_failure && !ok) { mr_out(2, i); return; }
            obs_ref(s, ok);
        }
    }
    template<int NC, int N, typename G>
    void obs_gen(G &&g) { for (int i = 0; i < N; i++) obs_result<NC>(i % 2 ? g() : g.next()); }
    template<int NC, int N, typename Rg>
    void obs_range(Rg &&rg)
    {
        int i = 0;
        for (auto &&r : rg) { if (i == N) return; obs_result<NC>(r); ++i; }
        if (i < N) mr_out(2, i);
    }
    template<int NC, int N, typename Rg>
    void obs_range_iter(Rg &&rg)
    {
        auto it = rg.begin();
        int i = 0;
        for (; i < N && it != rg.end(); ++i) { obs_result<NC>(*it); mr_out(3, it->matched()); if (i % 2) it++; else ++it; }
        if (i < N) mr_out(2, i);
        mr_out(4, static_cast<bool>(it));
    }
    template<typename X, bool Search, int NC, unsigned FL, int N>
    void ref_range_iter(P b, P e)
    {
        P cur = b;
        bool active = true;
        for (int i = 0;; i++)
        {
            R::env<NC, FL> s{b, e};
            bool ok = false;
            if (active)
            {
                if (Search) ok = R::search_from<X>(s, cur);
                else
                {
                    R::res r = X::template m<1>(s, cur, R::accept);
                    ok = r.ok;
                    if (ok) s.c[0] = {cur, r.end};
                }
                if (ok) cur = s.c[0].e;
                active = ok && s.c[0].b != s.c[0].e;
            }
            if (i == N) { mr_out(4, ok); return; }
            if (!ok) { mr_out(2, i); mr_out(4, 0); return; }
            obs_ref(s, ok);
            mr_out(3, 1);
        }
    }
}
#define PR_GEN(NAME, REGEX, METHOD, SEARCH, IT, RT, NC, FL, N)                                       \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_gen<NC, N>(REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { pr::ref_gen<RT, SEARCH, NC, FL, N>(b, e, false); }
#define PR_RANGE(NAME, REGEX, METHOD, SEARCH, IT, RT, NC, FL, N)                                     \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_range<NC, N>(REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { pr::ref_gen<RT, SEARCH, NC, FL, N>(b, e, true); }
#define PR_RANGE_IT(NAME, REGEX, METHOD, SEARCH, IT, RT, NC, FL, N)                                  \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_range_iter<NC, N>(REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { pr::ref_range_iter<RT, SEARCH, NC, FL, N>(b, e); }

// ---- the ways to read a result -----------------------------------------------------------------
namespace pr
{
    inline void obs_span(int i, P b, P e)
    {
        if (b == e) mr_out(10 + i, 0);
        else { mr_out(10 + i, 1); mr_outp(40 + i, b); mr_outp(70 + i, e); }
    }
    inline void obs_sv(int i, std::string_view s) { obs_span(i, s.data(), s.data() + s.size()); }
    template<typename G> void obs_g(int i, G const &g) { obs_span(i, pos(g.begin()), pos(g.end())); }

    template<int K, int NC, typename Res, std::size_t... I>
    void obs_via(Res r, std::index_sequence<I...>)
    {
        using namespace meta;
        if constexpr (K == 11)
        {
            auto o = r.as_optional();
            mr_out(1, o.has_value());
            if (o) ((obs_g(I, o->template group<I>())), ...);
            else ((mr_out(10 + I, 0)), ...);
            return;
        }
        else if constexpr (K == 12)
        {
            auto o = std::move(r).as_optional();
            mr_out(1, static_cast<bool>(o));
            if (o) ((obs_g(I, o->template get<I>())), ...);
            else ((mr_out(10 + I, 0)), ...);
            return;
        }
        else if constexpr (K == 13)
        {
            Res const &c = r;
            auto o = c.as_optional();
            mr_out(1, o != std::nullopt);
            if (o) ((obs_g(I, (*o).template group<I>())), ...);
            else ((mr_out(10 + I, 0)), ...);
            return;
        }
        else
        {
            mr_out(1, K % 3 == 0 ? static_cast<bool>(r) : K % 3 == 1 ? r.matched() : r == true);
            if constexpr (K == 0) ((obs_g(I, r.template group<I>())), ...);
            else if constexpr (K == 1) ((obs_g(I, r.template get<I>())), ...);
            else if constexpr (K == 2) ((obs_g(I, std::as_const(r).template group<I>())), ...);
            else if constexpr (K == 3) ((obs_g(I, std::move(r).template group<I>())), ...);
            else if constexpr (K == 4) { auto c = r; ((obs_g(I, std::move(std::as_const(c)).template get<I>())), ...); }
            else if constexpr (K == 5) ((obs_g(I, get_group<I>(r))), ...);
            else if constexpr (K == 6) ((obs_sv(I, r.template group<I>())), ...);
            else if constexpr (K == 7) ((obs_sv(I, r.template group<I>().content())), ...);
            else if constexpr (K == 8) { int i = 0; r.for_each_group([&](auto const &g) { obs_g(i++, g); }); }
            else if constexpr (K == 9)
            {
                auto t = r.transform_groups([](auto const &g) { return std::pair{g.begin(), g.end()}; });
                ((obs_span(I, pos(std::get<I>(t).first), pos(std::get<I>(t).second))), ...);
            }
            else if constexpr (K == 10)
            {
                auto f = [](int i, auto &g) {
                    if (g.is_empty()) { mr_out(10 + i, 0); return; }
                    mr_out(10 + i, 1);
                    mr_outp(40 + i, &g[0]);
                    mr_outp(70 + i, &std::as_const(g)[g.length() - 1] + 1);
                };
                ((f(I, r.template group<I>())), ...);
            }
            else if constexpr (K == 14)
            {   // the result itself stands for group 0
                obs_span(0, pos(r.begin()), pos(r.end()));
                if constexpr (NC > 0) [&]<std::size_t... J>(std::index_sequence<J...>) { ((obs_g(J + 1, r.template group<J + 1>())), ...); }(std::make_index_sequence<NC>{});
            }
            else if constexpr (K == 15)
            {
                obs_sv(0, static_cast<std::string_view>(r));
                int i = 0;
                std::as_const(r).for_each_group([&](auto const &g) { if (i) obs_g(i, g); ++i; });
            }
            else if constexpr (K == 16)
            {
                int i = 0;
                std::move(r).for_each_group([&](auto &&g) { obs_g(i, g); ++i; });
            }
            else if constexpr (K == 17)
            {   // assignment
                Res c;
                c = r;
                Res d = std::move(c);
                ((obs_g(I, d.template group<I>())), ...);
            }
        }
    }
    template<int K, int NC, typename Res> void obs_via(Res r) { obs_via<K, NC>(r, std::make_index_sequence<NC + 1>{}); }

    // lengths and bytes, for results that own their content
    template<int NC, typename Res, std::size_t... I>
    void obs_bytes(Res &r, std::index_sequence<I...>)
    {
        mr_out(1, r.matched());
        auto f = [](int i, auto const &g) {
            mr_out(10 + i, (long)g.length());
            mr_out(130 + i, g.is_empty());
            mr_out(160 + i, static_cast<bool>(g) == g.is_empty());
            std::size_t k = 0;
            for (auto c : g) { mr_out(40 + i, (unsigned char)c); ++k; }
            mr_out(70 + i, (long)k);
            for (std::size_t j = 0; j < g.length(); j++)
            {
                if constexpr (requires { g[j]; }) mr_out(100 + i, (unsigned char)g[j]);
                else mr_out(100 + i, (unsigned char)*std::next(g.begin(), j));
            }
        };
        (f(I, r.template group<I>()), ...);
    }
    // the bytes of a result (view or owner) through its other accessors
    template<int K, typename Res, std::size_t... I>
    void obs_own(Res r, std::index_sequence<I...>)
    {
        using namespace meta;
        auto put = [](int i, auto const &x) { mr_out(10 + i, (long)x.size()); for (std::size_t j = 0; j < x.size(); j++) mr_out(40 + i, (unsigned char)x[j]); };
        auto sv = [&](int i, auto const &g) { put(i, std::string_view(g)); };
        mr_out(1, K % 2 ? r.matched() : static_cast<bool>(r));
        mr_out(3, (long)r.length());
        if constexpr (K == 0) (put(I, r.template group<I>().content()), ...);
        else if constexpr (K == 1) (put(I, std::as_const(r).template group<I>().content()), ...);
        else if constexpr (K == 2) (put(I, std::move(r).template group<I>().content()), ...);
        else if constexpr (K == 3) { auto c = r; (put(I, std::move(std::as_const(c)).template get<I>().content()), ...); }
        else if constexpr (K == 4) (put(I, get_group<I>(std::move(r)).content()), ...);
        else if constexpr (K == 5)
        {
            auto o = r.as_optional();
            if (o) (put(I, o->template group<I>().content()), ...);
            else (mr_out(10 + I, 0), ...);
        }
        else if constexpr (K == 6)
        {
            auto o = std::move(r).as_optional();
            if (o) (put(I, o->template group<I>().content()), ...);
            else (mr_out(10 + I, 0), ...);
        }
        else if constexpr (K == 7)
        {   // a copy is independent of the original
            Res c = r;
            if constexpr (!Res::is_view) { auto f = [](auto &g) { if (!g.is_empty()) g[0] = '#'; }; (f(r.template group<I>()), ...); }
            Res d;
            d = std::move(c);
            (put(I, d.template group<I>().content()), ...);
        }
        else if constexpr (K == 8) { auto t = r.transform_groups([](auto const &g) { return std::string(g.begin(), g.end()); }); (put(I, std::get<I>(t)), ...); }
        else if constexpr (K == 9) { int i = 0; r.for_each_group([&](auto &g) { put(i++, g.content()); }); }
        else if constexpr (K == 10) { int i = 0; std::move(r).for_each_group([&](auto &&g) { put(i++, std::forward<decltype(g)>(g).content()); }); }
        else if constexpr (K == 11)
        {
            if constexpr (requires { std::string_view(r); }) { std::string_view v = r; put(0, v); } else put(0, r.template group<0>().content());
            [&]<std::size_t A, std::size_t... J>(std::index_sequence<A, J...>) { (sv(J, r.template group<J>()), ...); }(std::make_index_sequence<sizeof...(I)>{});
        }
        else if constexpr (K == 12)
        {
            auto f = [](int i, auto const &g) { mr_out(10 + i, (long)g.length()); for (auto it = g.begin(); it != g.end(); ++it) mr_out(40 + i, (unsigned char)*it); };
            (f(I, std::as_const(r).template get<I>()), ...);
        }
        else if constexpr (K == 13)
        {
            Res const c = std::move(r);
            auto o = c.as_optional();
            if (o) (put(I, o->template group<I>().content()), ...);
            else (mr_out(10 + I, 0), ...);
        }
    }
    template<typename E>
    void obs_ref_own(E &s, bool ok)
    {
        mr_out(1, ok);
        mr_out(3, ok ? s.c[0].e - s.c[0].b : 0);
        for (int i = 0; i <= E::nc; i++)
        {
            long n = ok ? s.c[i].e - s.c[i].b : 0;
            mr_out(10 + i, n);
            for (long k = 0; k < n; k++) mr_out(40 + i, (unsigned char)s.c[i].b[k]);
        }
    }
    template<typename E>
    void obs_ref_bytes(E &s, bool ok)
    {
        mr_out(1, ok);
        for (int i = 0; i <= E::nc; i++)
        {
            long n = ok ? s.c[i].e - s.c[i].b : 0;
            mr_out(10 + i, n);
            mr_out(130 + i, n == 0);
            mr_out(160 + i, 1);
            for (long k = 0; k < n; k++) mr_out(40 + i, (unsigned char)s.c[i].b[k]);
            mr_out(70 + i, n);
            for (long k = 0; k < n; k++) mr_out(100 + i, (unsigned char)s.c[i].b[k]);
        }
    }
}
#define PR_VIA(NAME, REGEX, METHOD, RMETHOD, K, IT, RT, NC, FL)                                      \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_via<K, NC>(REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e))); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref(s, ok, false); }
#define PR_SV(NAME, REGEX, METHOD, RMETHOD, RT, NC, FL)                                              \
    extern "C" void I_##NAME(char const *b, char const *e) { std::string_view v(b, e - b); pr::obs_result<NC>(REGEX::METHOD(v)); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref(s, ok); }
#define PR_BYTES(NAME, REGEX, METHOD, RMETHOD, IT, RT, NC, FL)                                       \
    extern "C" void I_##NAME(char const *b, char const *e) { auto r = REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e)); pr::obs_bytes<NC>(r, std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_bytes(s, ok); }
#define PR_OWN(NAME, REGEX, METHOD, RMETHOD, K, IT, RT, NC, FL)                                      \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_own<K>(REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e)).as_memory_owner(), std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_own(s, ok); }
#define PR_READ(NAME, REGEX, METHOD, RMETHOD, K, IT, RT, NC, FL)                                     \
    extern "C" void I_##NAME(char const *b, char const *e) { pr::obs_own<K>(REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e)), std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_own(s, ok); }
#define PR_OWNER(NAME, REGEX, METHOD, RMETHOD, IT, RT, NC, FL)                                       \
    extern "C" void I_##NAME(char const *b, char const *e) { auto r = REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e)).as_memory_owner(); pr::obs_bytes<NC>(r, std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_bytes(s, ok); }
// an expiring std::string / a container that dies before the result is read
#define PR_EXPIRING(NAME, REGEX, METHOD, RMETHOD, CONT, RT, NC, FL)                                  \
    extern "C" void I_##NAME(char const *b, char const *e) { auto r = REGEX::METHOD(CONT(b, e)); pr::obs_bytes<NC>(r, std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_bytes(s, ok); }
#define PR_LVALUE(NAME, REGEX, METHOD, RMETHOD, CONT, RT, NC, FL)                                    \
    extern "C" void I_##NAME(char const *b, char const *e) { CONT c(b, e); auto r = REGEX::METHOD(c); static_assert(decltype(r)::is_view); pr::obs_bytes<NC>(r, std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_bytes(s, ok); }

// long inputs: all bytes but the last T repeat the given ones, and the length is small or at least Min
namespace pr
{
    template<int Min, int T, char... C>
    bool form(char const *b, char const *e)
    {
        constexpr char c[] = {C...};
        if (e - b > 4 && e - b < Min) return false;
        int k = 0;
        for (char const *p = b; e - p > T; ++p)
        {
            if (*p != c[k]) return false;
            k = k + 1 == sizeof...(C) ? 0 : k + 1;
        }
        return true;
    }
}
// two calls: the second one does not depend on the first one
#define PR_TWICE(NAME, REGEX, METHOD, RMETHOD, RT, NC, FL)                                           \
    extern "C" void I_##NAME(char const *b, char const *e) { (void)REGEX::METHOD(b, e); auto it = REGEX::searcher(b, e); (void)it(); pr::obs_result<NC>(REGEX::METHOD(b, e)); } \
    extern "C" void R_##NAME(char const *b, char const *e) { pr::obs_result<NC>(REGEX::METHOD(b, e)); }
// streams
#define PR_OSTREAM(NAME, REGEX, METHOD, RMETHOD, IT, RT, NC, FL)                                     \
    extern "C" void I_##NAME(char const *b, char const *e) { auto r = REGEX::METHOD(pr::at<IT>(b), pr::at<IT>(e)); pr::obs_os(r, std::make_index_sequence<NC + 1>{}); } \
    extern "C" void R_##NAME(char const *b, char const *e) { R::env<NC, FL> s{b, e}; bool ok = R::RMETHOD<RT>(s); pr::obs_ref_os(s, ok); }
extern "C" std::ostream &mr_os();
namespace pr
{
    template<typename Res, std::size_t... I>
    void obs_os(Res const &r, std::index_sequence<I...>)
    {
        mr_os() << r;
        mr_out(2, 0);
        ((mr_os() << r.template group<I>(), mr_out(2, 0)), ...);
        auto o = r.as_memory_owner();
        ((mr_os() << o.template group<I>(), mr_out(2, 0)), ...);
        mr_os() << o;
    }
    template<typename E>
    void obs_ref_os(E &s, bool ok)
    {
        auto put = [&](int i) { if (ok) for (P p = s.c[i].b; p != s.c[i].e; ++p) mr_out(200, *p); };
        put(0);
        mr_out(2, 0);
        for (int k = 0; k < 2; k++) for (int i = 0; i <= E::nc; i++) { put(i); mr_out(2, 0); }
        put(0);
    }
}
