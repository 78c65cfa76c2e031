// Reference semantics of the regular expressions (independent of the library's code).
// A plain backtracking matcher in continuation-passing style, written for clarity: a node `m`atches
// at position p in direction D (+1 forwards, -1 backwards inside a lookbehind) and calls k with every
// position it can end at, in order of preference; the first position k accepts wins.
#pragma once
#include <cstddef>

namespace R
{
    using P = char const *;

    enum { ICASE = 1, DOTALL = 2, MULTILINE = 4, UNGREEDY = 8 };
    enum { GREEDY, LAZY, POSSESSIVE };
    constexpr long INFTY = -1;

    struct capt { P b = nullptr, e = nullptr; };
    struct res { P end; bool ok; };

    template<int NC, unsigned F>
    struct env
    {
        static constexpr int nc = NC;
        static constexpr unsigned flags = F;
        P b, e;
        capt c[NC + 1] = {};
    };

    inline bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    inline unsigned char other_case(unsigned char c) { return alpha(c) ? (unsigned char)(c >= 'a' ? c - 32 : c + 32) : c; }
    inline bool is_nl(unsigned char c) { return c == '\n' || c == '\r'; }
    inline bool is_word(unsigned char c) { return alpha(c) || (c >= '0' && c <= '9') || c == '_'; }

    // one character
    template<typename Self>
    struct single
    {
        template<int D, typename E, typename K>
        static res m(E &s, P p, K &&k)
        {
            if (D > 0) { if (p != s.e && Self::template one<E>(*p)) return k(p + 1); }
            else { if (p != s.b && Self::template one<E>(p[-1])) return k(p - 1); }
            return {p, false};
        }
    };

    template<int A, int B>
    struct rng : single<rng<A, B>>
    {
        template<typename E> static bool one(unsigned char c)
        {
            if (c >= A && c <= B) return true;
            if (E::flags & ICASE) { unsigned char o = other_case(c); return o >= A && o <= B; }
            return false;
        }
    };
    template<int C> using lit = rng<C, C>;
    template<typename... X>
    struct cls : single<cls<X...>>
    {
        template<typename E> static bool one(unsigned char c) { return (false || ... || X::template one<E>(c)); }
    };
    template<typename X>
    struct notc : single<notc<X>>
    {
        template<typename E> static bool one(unsigned char c) { return !X::template one<E>(c); }
    };
    struct any : single<any>
    {
        template<typename E> static bool one(unsigned char c) { return (E::flags & DOTALL) || !is_nl(c); }
    };
    using digit = rng<'0', '9'>;
    using lower = rng<'a', 'z'>;
    using upper = rng<'A', 'Z'>;
    using word = cls<lower, upper, digit, lit<'_'>>;
    using nl = cls<lit<'\n'>, lit<'\r'>>;
    using space = cls<lit<' '>, lit<'\t'>, lit<'\n'>, lit<'\v'>, lit<'\f'>, lit<'\r'>>;

    struct eps
    {
        template<int D, typename E, typename K> static res m(E &, P p, K &&k) { return k(p); }
    };

    // anchors: independent of the direction
    template<bool Line>
    struct bos
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            if (p == s.b || (Line && (E::flags & MULTILINE) && is_nl(p[-1]))) return k(p);
            return {p, false};
        }
    };
    template<bool Line>
    struct eos
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            if (p == s.e || (Line && (E::flags & MULTILINE) && is_nl(*p))) return k(p);
            return {p, false};
        }
    };
    template<bool Neg>
    struct wordb
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            bool l = p != s.b && is_word(p[-1]);
            bool r = p != s.e && is_word(*p);
            if ((l != r) != Neg) return k(p);
            return {p, false};
        }
    };

    template<typename... X> struct seq;
    template<typename A>
    struct seq<A>
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k) { return A::template m<D>(s, p, k); }
    };
    template<typename A, typename B, typename... X>
    struct seq<A, B, X...>
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            if constexpr (D > 0)
                return A::template m<D>(s, p, [&](P q) -> res { return seq<B, X...>::template m<D>(s, q, k); });
            else
                return seq<B, X...>::template m<D>(s, p, [&](P q) -> res { return A::template m<D>(s, q, k); });
        }
    };

    template<typename... X> struct alt;
    template<typename A>
    struct alt<A>
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k) { return A::template m<D>(s, p, k); }
    };
    template<typename A, typename B, typename... X>
    struct alt<A, B, X...>
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            res r = A::template m<D>(s, p, k);
            if (r.ok) return r;
            return alt<B, X...>::template m<D>(s, p, k);
        }
    };

    // group I: holds what the last iteration on the successful path matched
    template<int I, typename X>
    struct grp
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            return X::template m<D>(s, p, [&](P q) -> res {
                capt old = s.c[I];
                s.c[I] = D > 0 ? capt{p, q} : capt{q, p};
                res r = k(q);
                if (!r.ok) s.c[I] = old;
                return r;
            });
        }
    };

    inline res accept(P p) { return {p, true}; }

    // what X captured is kept if the rest matches, and forgotten otherwise
    template<typename E>
    struct saved
    {
        E &s;
        capt c[E::nc + 1];
        explicit saved(E &x) : s(x) { for (int i = 0; i <= E::nc; i++) c[i] = s.c[i]; }
        void restore() { for (int i = 0; i <= E::nc; i++) s.c[i] = c[i]; }
    };

    template<typename X>
    struct atom
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            saved<E> sv(s);
            res r = X::template m<D>(s, p, accept);
            if (r.ok) { res t = k(r.end); if (t.ok) return t; }
            sv.restore();
            return {p, false};
        }
    };

    template<int LD, bool Neg, typename X>
    struct look
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            saved<E> sv(s);
            res r = X::template m<LD>(s, p, accept);
            if (r.ok != Neg)
            {
                if (Neg) sv.restore();
                res t = k(p);
                if (t.ok) return t;
            }
            sv.restore();
            return {p, false};
        }
    };

    // X{Min,Max}: an iteration beyond Min that consumes nothing is not taken if there is no upper bound
    template<int Mode, long Min, long Max, typename X>
    struct rep
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            if constexpr (Mode == POSSESSIVE && Max == INFTY)
            {
                // the required iterations as one atomic unit; then every iteration takes the first way
                // the inner expression matches, until it fails or consumes nothing
                saved<E> sv(s);
                res r = rep<GREEDY, Min, Min, X>::template m<D>(s, p, accept);
                if (!r.ok) { sv.restore(); return {p, false}; }
                P q = r.end;
                while (true)
                {
                    saved<E> it(s);
                    res t = X::template m<D>(s, q, accept);
                    if (!t.ok || t.end == q) { it.restore(); break; }
                    q = t.end;
                }
                res t = k(q);
                if (!t.ok) sv.restore();
                return t.ok ? t : res{p, false};
            }
            else if constexpr (Mode == POSSESSIVE)
                return atom<rep<(E::flags & UNGREEDY) ? LAZY : GREEDY, Min, Max, X>>::template m<D>(s, p, k);
            else
                return go<D>(s, p, 0, k);
        }
        template<int D, typename E, typename K> static res go(E &s, P p, long n, K &k)
        {
            constexpr bool greedy = (Mode == GREEDY) != bool(E::flags & UNGREEDY);
            auto again = [&](P q) -> res {
                if (Max == INFTY && n >= Min && q == p) return {p, false};
                return go<D>(s, q, n + 1, k);
            };
            if (n < Min) return X::template m<D>(s, p, again);
            bool more = Max == INFTY || n < Max;
            if (!greedy)
            {
                res r = k(p);
                if (r.ok) return r;
            }
            if (more)
            {
                res r = X::template m<D>(s, p, again);
                if (r.ok) return r;
            }
            if (greedy) return k(p);
            return {p, false};
        }
    };

    // backreference: an unset group matches the empty string
    template<int I>
    struct bref
    {
        template<int D, typename E, typename K> static res m(E &s, P p, K &&k)
        {
            capt c = s.c[I];
            long n = c.e - c.b;
            if (D > 0 ? s.e - p < n : p - s.b < n) return {p, false};
            for (long i = 0; i < n; i++)
            {
                unsigned char x = D > 0 ? c.b[i] : c.e[-1 - i];
                unsigned char y = D > 0 ? p[i] : p[-1 - i];
                if (x != y && !((E::flags & ICASE) && other_case(x) == y)) return {p, false};
            }
            return k(D > 0 ? p + n : p - n);
        }
    };

    // the three methods
    template<typename X, typename E>
    bool full(E &s)
    {
        res r = X::template m<1>(s, s.b, [&](P q) -> res { return {q, q == s.e}; });
        if (r.ok) s.c[0] = {s.b, r.end};
        return r.ok;
    }
    template<typename X, typename E>
    bool prefix(E &s)
    {
        res r = X::template m<1>(s, s.b, accept);
        if (r.ok) s.c[0] = {s.b, r.end};
        return r.ok;
    }
    template<typename X, typename E>
    bool search_from(E &s, P p)
    {
        for (;; ++p)
        {
            res r = X::template m<1>(s, p, accept);
            if (r.ok) { s.c[0] = {p, r.end}; return true; }
            if (p == s.e) return false;
        }
    }
    template<typename X, typename E>
    bool search(E &s) { return search_from<X>(s, s.b); }
}
