// Normal form of the library's syntax trees, as types: equal trees up to the shape of nested sequences
// and alternations and the way a character class is written have the same normal form.
#pragma once
#include <mregex.hpp>
#include <cstdint>

namespace nf
{
    struct eps {}; struct any {}; struct bol {}; struct eol {}; struct boi {}; struct eoi {}; struct wb {};
    template<typename T> struct unknown {};
    // the bytes matched without and with case folding
    template<std::uint64_t... W> struct cls {};
    template<typename...> struct seq {};
    template<typename...> struct alt {};
    template<int Mode, std::size_t Lo, std::size_t Hi, typename X> struct rep {};   // Hi = -1: no upper bound
    template<std::size_t ID, typename Name, typename X> struct cap {};
    template<std::size_t ID> struct bref {};
    template<meta::static_string N> struct nbref {};
    template<int Dir, typename X> struct look {};
    template<typename X> struct neg {};
    struct noname {};
    template<meta::static_string N> struct name {};

    // ---- byte sets -----------------------------------------------------------------------------
    struct bits
    {
        std::uint64_t w[8] = {};     // 4 words case sensitive, 4 words with case folding
        constexpr void add(int lo, int hi)
        {
            for (int c = lo; c <= hi; c++)
            {
                w[c / 64] |= std::uint64_t{1} << (c % 64);
                w[4 + c / 64] |= std::uint64_t{1} << (c % 64);
                int o = c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c;
                w[4 + o / 64] |= std::uint64_t{1} << (o % 64);
            }
        }
        constexpr bits operator|(bits const &o) const { bits r; for (int i = 0; i < 8; i++) r.w[i] = w[i] | o.w[i]; return r; }
        constexpr bits operator~() const { bits r; for (int i = 0; i < 8; i++) r.w[i] = ~w[i]; return r; }
    };
    template<typename T> struct bytes { static constexpr bool ok = false; };
    template<char C> struct bytes<meta::ast::literal<C>>
    {
        static constexpr bool ok = true;
        static constexpr bits get() { bits b; b.add((unsigned char)C, (unsigned char)C); return b; }
    };
    template<char A, char B> struct bytes<meta::ast::range<A, B>>
    {
        static constexpr bool ok = true;
        static constexpr bits get() { bits b; b.add((unsigned char)A, (unsigned char)B); return b; }
    };
    template<typename... X> struct bytes<meta::ast::set<X...>>
    {
        static constexpr bool ok = (bytes<X>::ok && ...);
        static constexpr bits get() { bits b; ((b = b | bytes<X>::get()), ...); return b; }
    };
    template<typename X> struct bytes<meta::ast::negated<X>>
    {
        static constexpr bool ok = bytes<X>::ok;
        static constexpr bits get() { return ~bytes<X>::get(); }
    };
    template<typename T, typename = std::make_index_sequence<8>> struct as_cls;
    template<typename T, std::size_t... I> struct as_cls<T, std::index_sequence<I...>> { static constexpr bits b = bytes<T>::get(); using type = cls<b.w[I]...>; };

    // ---- flattening ----------------------------------------------------------------------------
    template<typename Acc, typename... X> struct flat_seq;
    template<typename... A> struct flat_seq<seq<A...>> { using type = seq<A...>; };
    template<typename... A, typename... B, typename... X> struct flat_seq<seq<A...>, seq<B...>, X...> : flat_seq<seq<A..., B...>, X...> {};
    template<typename... A, typename... X> struct flat_seq<seq<A...>, eps, X...> : flat_seq<seq<A...>, X...> {};
    template<typename... A, typename F, typename... X> struct flat_seq<seq<A...>, F, X...> : flat_seq<seq<A..., F>, X...> {};
    template<typename T> struct unwrap { using type = T; };
    template<> struct unwrap<seq<>> { using type = eps; };
    template<typename T> struct unwrap<seq<T>> { using type = T; };
    template<typename T> struct unwrap<alt<T>> { using type = T; };
    template<typename Acc, typename... X> struct flat_alt;
    template<typename... A> struct flat_alt<alt<A...>> { using type = alt<A...>; };
    template<typename... A, typename... B, typename... X> struct flat_alt<alt<A...>, alt<B...>, X...> : flat_alt<alt<A..., B...>, X...> {};
    template<typename... A, typename F, typename... X> struct flat_alt<alt<A...>, F, X...> : flat_alt<alt<A..., F>, X...> {};

    template<int M, std::size_t Lo, std::size_t Hi, typename X> struct mk_rep { using type = rep<(Lo == Hi && M == 1 ? 0 : M), Lo, Hi, X>; };
    template<typename X> struct mk_rep<0, 1, 1, X> { using type = X; };
    template<typename X> struct mk_rep<1, 1, 1, X> { using type = X; };

    template<typename Q> struct qv;
    template<std::size_t N> struct qv<meta::symbol::quantifier_value<N>> { static constexpr std::size_t v = N; };
    template<> struct qv<meta::symbol::infinity> { static constexpr std::size_t v = std::size_t(-1); };
    template<typename N> struct nm { using type = unknown<N>; };
    template<> struct nm<meta::symbol::unnamed> { using type = noname; };
    template<meta::static_string S> struct nm<meta::symbol::name<S>> { using type = name<S>; };

    template<typename T> struct norm { using type = unknown<T>; };
    template<typename T> using norm_t = typename norm<T>::type;
    template<typename T> requires (bytes<T>::ok) struct norm<T> { using type = typename as_cls<T>::type; };
    template<> struct norm<meta::ast::empty> { using type = eps; };
    template<> struct norm<meta::ast::wildcard> { using type = any; };
    template<> struct norm<meta::ast::beginning_of_line> { using type = bol; };
    template<> struct norm<meta::ast::end_of_line> { using type = eol; };
    template<> struct norm<meta::ast::beginning_of_input> { using type = boi; };
    template<> struct norm<meta::ast::end_of_input> { using type = eoi; };
    template<> struct norm<meta::ast::word_boundary> { using type = wb; };
    template<typename X> requires (!bytes<meta::ast::negated<X>>::ok) struct norm<meta::ast::negated<X>> { using type = neg<norm_t<X>>; };
    template<typename... X> struct norm<meta::ast::sequence<X...>> { using type = typename unwrap<typename flat_seq<seq<>, norm_t<X>...>::type>::type; };
    template<typename... X> struct norm<meta::ast::alternation<X...>> { using type = typename unwrap<typename flat_alt<alt<>, norm_t<X>...>::type>::type; };
    template<std::size_t ID, typename N, typename X> struct norm<meta::ast::capture<ID, N, X>> { using type = cap<ID, typename nm<N>::type, norm_t<X>>; };
    template<meta::match_mode M, typename A, typename B, typename X> struct norm<meta::ast::basic_repetition<M, A, B, X>>
    {
        static constexpr int m = M == meta::match_mode::greedy ? 0 : M == meta::match_mode::lazy ? 1 : 2;
        using type = typename mk_rep<m, qv<A>::v, qv<B>::v, norm_t<X>>::type;
    };
    template<std::size_t ID> struct norm<meta::ast::backref<ID>> { using type = bref<ID>; };
    template<meta::static_string N> struct norm<meta::ast::named_backref<N>> { using type = nbref<N>; };
    template<meta::lookaround_direction D, typename X> struct norm<meta::ast::lookaround<D, X>> { using type = look<(D == meta::lookaround_direction::ahead ? 1 : -1), norm_t<X>>; };

    // does a normal form contain a node this file does not know?
    template<typename T> struct known { static constexpr bool v = true; };
    template<typename T> struct known<unknown<T>> { static constexpr bool v = false; };
    template<typename... X> struct known<seq<X...>> { static constexpr bool v = (known<X>::v && ...); };
    template<typename... X> struct known<alt<X...>> { static constexpr bool v = (known<X>::v && ...); };
    template<int M, std::size_t A, std::size_t B, typename X> struct known<rep<M, A, B, X>> : known<X> {};
    template<std::size_t ID, typename N, typename X> struct known<cap<ID, N, X>> { static constexpr bool v = known<X>::v && known<N>::v; };
    template<int D, typename X> struct known<look<D, X>> : known<X> {};
    template<typename X> struct known<neg<X>> : known<X> {};

    // an unknown node decides nothing
    template<typename AST, typename Expected>
    constexpr bool same() { using n = norm_t<AST>; if constexpr (!known<n>::v) return true; else return std::is_same_v<n, Expected>; }
    template<typename AST> constexpr bool is_known() { return known<norm_t<AST>>::v; }
}
