"""Type-level obligations (decided by the compiler's semantic analysis) and compile-fail witnesses."""
import itertools
import corpus, pats, rx, xprgen
from tl import Ob


class Fail:
    """a translation unit that must not compile"""
    def __init__(self, name, code, what):
        self.name, self.code, self.what = name, code, what


SEED = 1
FL = corpus.FLAGNAME


def regex(p, flags=''):
    return 'meta::regex<%s%s>' % (rx.cstr(p), ''.join(', meta::regex_flag::' + FL[f] for f in flags))


def all_patterns(th):
    """pattern strings for the parser properties"""
    ps = set(pats.exhaustive(3))
    ps |= set(pats.state_byte(range(1, 256), ['']))
    ps |= set(pats.state_byte([ord(c) for c in pats.ALPHA], pats.SUFFIX))
    ps |= set(pats.numbers()) | set(pats.names())
    fam = pats.families()
    ps |= set(fam)
    ps |= set(pats.trees(1, 12000 if th else 2500)) | set(pats.trees(5, 3000 if th else 500, 4))
    ps |= set(pats.arity()) | set(pats.wide(7, 6000 if th else 800))
    ps |= set(pats.mutations(fam, 2, 60000 if th else 6000))
    if th:
        ps |= set(pats.exhaustive(4, 3))
    return sorted(ps)


def c15(th=False):
    obs, n = [], 0
    for p in all_patterns(th):
        r = rx.parse(p)
        if r.invalid:
            continue
        c = rx.cstr(p)
        if r.error is None:
            obs.append(Ob('p%d' % n, 'std::is_same_v<meta::parser_verdict<%s>, meta::parsing::success>' % c, 'the pattern /%s/ is accepted' % p))
        else:
            obs.append(Ob('p%d' % n, 'std::is_same_v<meta::parser_verdict<%s>, meta::parsing::syntax_error<%d>>' % (c, r.error),
                          'the pattern /%s/ is rejected at position %d' % (p, r.error)))
        n += 1
    fails = []
    bad = ['(', ')', 'a)', '(a', '[', '[a', '[^a', '*', '+a', '?', 'a**', 'a|*', '|a', 'a|', '(|a)', '(a|)', '\\', 'a\\', '\\x', '\\xg1', '(?', '(?a)', '(?<', '(?<>a)', '(?<1>a)', '\\k', '\\k<', '\\k<>', 'a{2}{3}', '(?:a', '(?=a', '(?!a', '(?<=a', '(?<!a', '(?>a', '(?:', '(?<n>', '(?=', '[a-', '{', '((a)', 'a{99999999999999999999}', '\\99999999999999999999', 'a{1,2}**']
    for k, p in enumerate(bad):
        assert rx.parse(p).error is not None, p
        fails.append(Fail('f%d' % k, '#include <mregex.hpp>\nusing re = %s;\nbool f(char const *b, char const *e) { return re::match(b, e).matched(); }\n' % regex(p), 'a regex with the malformed pattern /%s/' % p))
    for k, p in enumerate(['[z-a]', '[\\x80-\\x7f]', 'a{3,2}', '(?:ab){2,1}?', '[b-a]c', '[^9-0]']):
        assert rx.parse(p).invalid, p
        fails.append(Fail('v%d' % k, '#include <mregex.hpp>\nusing re = %s;\nbool f(char const *b, char const *e) { return re::match(b, e).matched(); }\n' % regex(p), 'a regex with reversed bounds /%s/' % p))
    return obs, fails


def c16(th=False):
    obs, n = [], 0
    for p in all_patterns(th):
        r = rx.parse(p)
        if r.invalid or r.error is not None:
            continue
        obs.append(Ob('a%d' % n, 'nf::same<meta::ast_of<%s>, %s>()' % (rx.cstr(p), rx.nf(r.ast)), 'the tree of /%s/' % p))
        n += 1
    return obs, []


def cap_patterns(th):
    ps = set(p for p in pats.families() if '(' in p)
    ps |= set(pats.names())
    ps |= set(pats.trees(11, 3000 if th else 900, 3))
    ps |= set(pats.trees(12, 1500 if th else 300, 4))
    ps |= {'(((a)))', '((a)(b))', '((a)|(b))', '(a)(b)|(c)', '(a)|(b)|(c)|(d)', '(?:(a)|(b))(c)', '(?:a|(b))(?:c|(d))', '(a(b(c)(d))(e))(f)', '(?=(a))(b)', '(?!(a))(b)', '(?<=(a))(b)', '(?<!(a)(b))(c)', '(?>(a)|(b))(c)', '(a)*(b)+(c)?(d){2}(e){2,}?(f)++',
           '(?<x>a)(?<y>b)(c)(?<z>d)', '(?<x>(?<y>a)(b))(?<z>c)', '(?<x>a)|(?<y>b)|(?<z>c)', '(?:(?<x>a)|(b)|(?<y>c)){2}(?<z>d)', '((((((((((a))))))))))', '(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)', '\\(a\\)', '[(](a)[)]', '(?:a)', '()', '()()', '(?<n>)'}
    out = []
    for p in sorted(ps):
        r = rx.parse(p)
        if not r.invalid and r.error is None:
            out.append((p, r))
    return out


def caps_of(a, out):
    t = a[0]
    if t in ('seq', 'alt'):
        for x in a[1]:
            caps_of(x, out)
    elif t == 'grp':
        out.append((a[1], a[2]))
        caps_of(a[3], out)
    elif t == 'look':
        caps_of(a[3], out)
    elif t == 'rep':
        caps_of(a[4], out)
    elif t == 'atom':
        caps_of(a[1], out)
    return out


def c17(th=False):
    obs, n = [], 0
    for p, r in cap_patterns(th):
        c = 're_%d' % n
        caps = dict(caps_of(r.ast, []))
        obs.append(Ob('n%d' % n, 'nf::same<meta::ast_of<%s>, %s>()' % (rx.cstr(p), rx.nf(r.ast)), 'the indices and names of the groups of /%s/' % p))
        decl = 'using %s = meta::regex<%s>; using rs_%s = meta::match_result_view<%s, char const *>;' % (c, rx.cstr(p), c, c)
        names = [caps.get(i) for i in range(1, r.ncaps + 1)]
        e = ['%s::capture_count == %d' % (c, r.ncaps), 'rs_%s::group_count == %d' % (c, r.ncaps + 1), 'std::tuple_size<rs_%s>::value == %d' % (c, r.ncaps + 1),
             '!std::tuple_element_t<0, rs_%s>::has_name()' % c]
        for i, nm in enumerate(names, 1):
            t = 'std::tuple_element_t<%d, rs_%s>' % (i, c)
            if nm is None:
                e.append('!%s::has_name() && %s::name().empty()' % (t, t))
            else:
                e.append('%s::has_name() && %s::name() == std::string_view{"%s"}' % (t, t, nm))
                if names.count(nm) == 1:
                    e.append('std::is_same_v<decltype(std::declval<rs_%s &>().template group<"%s">()), %s &>' % (c, nm, t))
                    e.append('std::is_same_v<decltype(std::declval<rs_%s const &>().template group<"%s">()), %s const &>' % (c, nm, t))
        obs.append(Ob('g%d' % n, ' && '.join('(%s)' % x for x in e), 'the number, indices and names of the groups of a result of /%s/' % p, decl))
        n += 1
    for k, (e, r) in enumerate(xprgen.expressions(21, 1200 if th else 300, 3)):
        caps = dict(caps_of(r.ast, []))
        c = 'rx_%d' % k
        decl = 'using %s = std::remove_cvref_t<decltype(%s)>; using rs_%s = meta::match_result_view<%s, char const *>;' % (c, e, c, c)
        x = ['%s::capture_count == %d' % (c, r.ncaps), 'rs_%s::group_count == %d' % (c, r.ncaps + 1)]
        for i in range(1, r.ncaps + 1):
            nm = caps.get(i)
            t = 'std::tuple_element_t<%d, rs_%s>' % (i, c)
            x.append('%s%s::has_name()' % ('' if nm else '!', t))
            if nm:
                x.append('%s::name() == std::string_view{"%s"}' % (t, nm))
        obs.append(Ob('x%d' % k, ' && '.join('(%s)' % y for y in x), 'the groups of the expression %s' % e, decl))
    fails = []
    for k, (p, use) in enumerate([('(a)', 'group<2>()'), ('a', 'group<1>()'), ('(a)(b)', 'group<3>()'), ('(?<n>a)', 'group<"m">()'), ('(a)', 'group<"n">()'), ('(?<ab>x)', 'group<"a">()'), ('(a)', 'get<2>()')]):
        fails.append(Fail('f%d' % k, '#include <mregex.hpp>\nusing re = %s;\nbool f(char const *b, char const *e) { auto r = re::match(b, e); return r.%s.is_empty(); }\n' % (regex(p), use), 'access to %s of a result of /%s/' % (use, p)))
    return obs, fails


def c06(th=False):
    fails = []
    for k, p in enumerate(['\\1', '(a)\\2', '(a)(b)\\3', '(?:a)\\1', '\\k<n>', '(?<n>a)\\k<m>', '(?<ab>x)\\k<a>', '(a)\\10', '(?<=\\2(a))b']):
        fails.append(Fail('f%d' % k, '#include <mregex.hpp>\nusing re = %s;\nbool f(char const *b, char const *e) { return re::match(b, e).matched(); }\n' % regex(p), 'a backreference to a group that does not exist: /%s/' % p))
    return [], fails


def flagset(r, flags):
    return ' && '.join('%s%s::flags::%s && (%s%s::flags::template test<meta::regex_flag::%s>)' % ('' if f in flags else '!', r, n, '' if f in flags else '!', r, n) for f, n in FL.items())


def c10(th=False):
    obs, n = [], 0
    for fl in [''.join(x) for k in range(0, 4) for x in itertools.permutations('ismUu', k)]:
        decl = 'using fr_%d = %s;' % (n, regex('a|b', fl))
        obs.append(Ob('s%d' % n, flagset('fr_%d' % n, fl), 'the flags of a regex with the flags "%s"' % fl, decl))
        n += 1
    for a in [''.join(x) for k in range(0, 3) for x in itertools.combinations('ismUu', k)]:
        for b in [''.join(x) for k in range(0, 3) for x in itertools.combinations('ismUu', k)]:
            base = 'fb_%d' % n
            add = ', '.join('meta::regex_flag::' + FL[f] for f in b)
            decl = 'using %s = %s; using fa_%d = %s::add_flags<%s>; using fx_%d = decltype(meta::xpr::add_flags%s(%s{})); using fc_%d = fa_%d::clear_flags; using fy_%d = decltype(meta::xpr::clear_flags(fa_%d{}));' % (
                base, regex('(a)|b', a), n, base, add, n, '<%s>' % add if add else '', base, n, n, n, n)
            e = [flagset('fa_%d' % n, set(a) | set(b)), flagset('fx_%d' % n, set(a) | set(b)), flagset('fc_%d' % n, ''), flagset('fy_%d' % n, ''), flagset(base, a)]
            e += ['std::is_same_v<%s::ast_type, %s::ast_type>' % (x + str(n), base) for x in ('fa_', 'fx_', 'fc_', 'fy_')]
            obs.append(Ob('a%d' % n, ' && '.join('(%s)' % x for x in e), 'adding "%s" to "%s" and clearing' % (b, a), decl))
            n += 1
    return obs, []


def c18(th=False):
    obs, n = [], 0
    for e, r in list(xprgen.systematic()) + list(xprgen.expressions(31, 6000 if th else 1500, 3)) + list(xprgen.expressions(32, 2000 if th else 300, 4)):
        obs.append(Ob('e%d' % n, 'nf::same<typename decltype(%s)::ast_type, %s>()' % (clean(e), rx.nf(r.ast)), 'the tree of %s' % e))
        n += 1
    # the two ways to write a regular expression
    for p in pats.families():
        r = rx.parse(p)
        if r.error is None and not r.invalid:
            obs.append(Ob('r%d' % n, 'nf::same<typename std::remove_cvref_t<decltype(meta::xpr::regex<%s>)>::ast_type, %s>()' % (rx.cstr(p), rx.nf(r.ast)), 'xpr::regex</%s/>' % p))
            n += 1
    return obs, []


def clean(e):
    return 'std::remove_cvref_t<decltype(%s)>{}' % e


RESULT_DECL = '''
using rr = meta::regex<"(a)(?<n>b)?(c)|d">;
using rp = char const *;
using rv = decltype(rr::search(std::declval<rp>(), std::declval<rp>()));
using ro = decltype(std::declval<rv>().as_memory_owner());
using sv = std::string_view;
struct trivial_owner { char d[4]; char const *begin() const { return d; } char const *end() const { return d + 4; } };
struct dying_owner { char d[4]; ~dying_owner() {} char const *begin() const { return d; } char const *end() const { return d + 4; } };
template<typename T, typename U> inline constexpr bool same = std::is_same_v<T, U>;
'''


def c19(th=False):
    obs = []

    def ob(e, what):
        obs.append(Ob('t%d' % len(obs), e, what))
    for m in ('match', 'match_prefix', 'search'):
        ob('decltype(rr::%s(std::declval<rp>(), std::declval<rp>()))::is_view' % m, '%s of a pair of iterators returns a view' % m)
        ob('decltype(rr::%s(std::declval<std::string &>()))::is_view' % m, '%s of an lvalue string returns a view' % m)
        ob('decltype(rr::%s(std::declval<std::string const &>()))::is_view' % m, '%s of a const lvalue string returns a view' % m)
        ob('decltype(rr::%s(std::declval<sv>()))::is_view' % m, '%s of a string_view returns a view' % m)
        ob('decltype(rr::%s(std::declval<sv &>()))::is_view' % m, '%s of an lvalue string_view returns a view' % m)
        ob('decltype(rr::%s("abc"))::is_view' % m, '%s of a literal returns a view' % m)
        ob('!decltype(rr::%s(std::declval<std::string>()))::is_view' % m, '%s of an expiring string returns an owner' % m)
        ob('!decltype(rr::%s(std::declval<std::string &&>()))::is_view' % m, '%s of a moved string returns an owner' % m)
        ob('!decltype(rr::%s(std::declval<dying_owner>()))::is_view' % m, '%s of an expiring container returns an owner' % m)
        ob('decltype(rr::%s(std::declval<dying_owner &>()))::is_view' % m, '%s of an lvalue container returns a view' % m)
    for acc in ('group<1>()', 'group<"n">()', 'get<2>()', 'get<0>()'):
        for res in ('rv', 'ro'):
            for q, cat in (('&', '&'), ('const &', 'const &'), ('', '&&'), ('const', 'const &&')):
                g = 'decltype(std::declval<%s %s>().template %s)' % (res, q, acc)
                el = {'group<1>()': 1, 'group<"n">()': 2, 'get<2>()': 2, 'get<0>()': 0}[acc]
                ob('same<%s, std::tuple_element_t<%d, %s> %s>' % (g, el, res, cat), '%s of a result (%s %s)' % (acc, res, q))
    for res in ('rv', 'ro'):
        for q in ('&', 'const &', '', 'const'):
            ob('same<decltype(std::declval<%s %s>().as_optional()), std::optional<%s>>' % (res, q, res), 'as_optional of %s %s' % (res, q))
        ob('%s::group_count == 4 && std::tuple_size<%s>::value == 4' % (res, res), 'the number of groups of ' + res)
        ob('std::is_constructible_v<bool, %s> && !std::is_convertible_v<%s, bool>' % (res, res), 'explicit conversion of %s to bool' % res)
        ob('std::is_default_constructible_v<%s> && std::is_copy_constructible_v<%s> && std::is_move_assignable_v<%s> && std::is_copy_assignable_v<%s>' % (res, res, res, res), '%s is a regular type' % res)
        ob('std::is_convertible_v<%s, sv>' % res, 'conversion of %s to string_view' % res)
    G = 'meta::regex_capture<>'
    for q, t in (('&', 'std::string &'), ('const &', 'std::string const &'), ('', 'std::string &&'), ('const', 'std::string const &&')):
        ob('same<decltype(std::declval<%s %s>().content()), %s>' % (G, q, t), 'content() of an owning group (%s)' % q)
    ob('same<decltype(std::declval<meta::regex_capture_view<rp>>().content()), sv>', 'content() of a contiguous view')
    ob('same<decltype(std::declval<meta::regex_capture_view<std::string::const_iterator>>().content()), sv>', 'content() of a view of a string')
    ob('same<decltype(std::declval<meta::regex_capture_view<std::reverse_iterator<rp>>>().content()), std::string>', 'content() of a non-contiguous view')
    ob('std::is_convertible_v<meta::regex_capture_view<rp>, sv> && std::is_convertible_v<%s, sv>' % G, 'conversion of a group to string_view')
    ob('!std::is_convertible_v<meta::regex_capture_view<std::reverse_iterator<rp>>, sv>', 'no conversion of a non-contiguous group to string_view')
    ob('same<decltype(std::declval<meta::regex_capture_view<rp>>().length()), std::size_t>', 'length() of a group')
    fails = []
    for k, (code, what) in enumerate([
            ('auto f(char const *b, char const *e) { std::string_view v = %s::search(std::reverse_iterator(e), std::reverse_iterator(b)); return v; }', 'string_view of a result over non-contiguous iterators'),
            ('auto f(std::string const &s) { return %s::search(std::string(s)).as_memory_owner(); }', 'as_memory_owner of an owner'),
            ('bool f(std::string const &s) { return %s::match(s); }', 'implicit conversion of a result to bool')]):
        fails.append(Fail('f%d' % k, '#include <mregex.hpp>\n' + code % 'meta::regex<"(a)b">' + '\n', what))
    return obs, fails


def c20(th=False):
    obs = []
    ps = ['a', 'ab', '(a)(?<n>b)?', 'a|b', '[a-c]*', '(?:a|ab)*c', 'a*?b', 'a{2,3}+', '(.)\\1', '(?<n>.)\\k<n>', '(?=a).', '(?<=a)b', '(?<!a)b', '^a$', '\\ba', '(?>a|ab)c', '.*', '', '(?:(a)|b)*', 'a{3}', '(?!a)(.)', '\\A.\\Z', '[^a]+?', '(?:)*']
    # where each pattern is evaluated; these inputs reach both outcomes
    inputs = ['', 'a', 'ab', 'aab', 'b\\na', 'abcabc', 'xyz']
    for k, p in enumerate(ps):
        for f in ('', 'imsUu'):
            n = '%d%s' % (k, f)
            R = regex(p, f)
            it = 'std::declval<std::string::const_iterator>()'
            e = []
            for m in ('match', 'match_prefix', 'search', 'tokenizer', 'searcher', 'tokenize', 'find_all'):
                e.append('noexcept(%s::%s(std::declval<char const *>(), std::declval<char const *>()))' % (R, m))
                e.append('noexcept(%s::%s(%s, %s))' % (R, m, it, it))
                e.append('noexcept(%s::%s(std::declval<std::string_view>()))' % (R, m))
                e.append('noexcept(%s::%s(std::declval<std::string const &>()))' % (R, m))
            e.append('noexcept(%s::searcher(std::declval<std::string_view>())())' % R)
            e.append('noexcept(%s::tokenizer(std::declval<std::string_view>()).next())' % R)
            obs.append(Ob('x%s' % n, ' && '.join(e), 'the methods of /%s/%s do not throw' % (p, f)))
            for m in ('match', 'match_prefix', 'search'):
                e = ' && '.join('((void)%s::%s(std::string_view{"%s"}), true)' % (R, m, i) for i in inputs)
                obs.append(Ob('c%s%s' % (n, m), e, '%s of /%s/%s is usable in constant expressions' % (m, p, f)))
            e = ' && '.join('([]{ std::size_t n = 0; auto g = %s::searcher(std::string_view{"%s"}); while (g()) ++n; for (auto &&r : %s::find_all(std::string_view{"%s"})) n += r.length(); for (auto &&r : %s::tokenize(std::string_view{"%s"})) n += r.length(); return n < 1000; }())' % (R, i, R, i, R, i) for i in inputs)
            obs.append(Ob('i%s' % n, e, 'iterating over the matches of /%s/%s is usable in constant expressions' % (p, f)))
    return obs, []
