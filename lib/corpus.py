"""Obligations (roots) per property: which patterns, methods, flags and iterator categories are
analysed.  Every root quantifies over all inputs up to its length bound (all 256 byte values)."""
import itertools
import rx
import mix
from drv import Unit

SEED = 1
FLAGS = {'i': 1, 's': 2, 'm': 4, 'U': 8, 'u': 0}
FLAGNAME = {'i': 'icase', 's': 'dotall', 'm': 'multiline', 'U': 'ungreedy', 'u': 'unroll'}
ITERS = {'p': 'char const *', 'f': 'pr::fwd', 'b': 'pr::bid', 'r': 'pr::rnd'}


class Roots:
    def __init__(self, prefix, versus_pointers=False):
        """versus_pointers: the other side is the library itself over pointers, not the reference"""
        self.prefix = prefix
        self.versus_pointers = versus_pointers
        self.units = []
        self.seen = set()

    def name(self):
        return '%s_%d' % (self.prefix, len(self.units))

    def add(self, pat, method='search', flags='', it='p', L=4, n=4, group=''):
        """one pattern, one method, one iterator type"""
        if method not in ('match', 'prefix'):
            L = min(L, 6 if len(pat) < 8 else 5)   # the number of partitions grows with every start position
        if 'i' in flags and ('\\1' in pat or len(pat) > 8) and method not in ('match', 'prefix'):
            L = min(L, 4)
        key = (pat, method, flags, it, L)
        if key in self.seen:
            return
        self.seen.add(key)
        r = rx.parse(pat)
        assert rx.usable(r), pat
        if it == 'f' and rx.uses_behind(r.ast):
            it = 'b'
        if it == 'p' and self.versus_pointers:
            return
        regex = 'meta::regex<%s%s>' % (rx.cstr(pat), ''.join(', meta::regex_flag::' + FLAGNAME[f] for f in flags))
        self.emit(regex, r, '/%s/%s' % (pat, flags), method, flags, it, L, n, group)

    def emit(self, regex, r, label, method='search', flags='', it='p', L=4, n=4, group='', opts=(), extra=None, form=None):
        """regex: a C++ type; r: what it has to mean; form: (min, tail, bytes) restricts the inputs"""
        nm = self.name() + ('_x' if form else '')
        fl = 0
        for f in flags:
            fl |= FLAGS[f]
        code = 'using re_%s = %s;\nusing rt_%s = %s;\n' % (nm, regex, nm, rx.ref_type(r.ast, r.names))
        rm = {'match': 'full', 'match_prefix': 'prefix'}.get(extra, extra)
        a = (nm, 're_' + nm, ITERS[it], 'rt_' + nm, r.ncaps, fl)
        if method in ('match', 'prefix', 'search'):
            code += 'PR_%s(%s, %s, %s, %s, %d, %d)' % ((method.upper(),) + a)
        elif method in ('tokenizer', 'searcher'):
            code += 'PR_GEN(%s, %s, %s, %s, %s, %s, %d, %d, %d)' % (a[0], a[1], method, 'true' if method == 'searcher' else 'false', a[2], a[3], a[4], a[5], n)
        elif method in ('tokenize', 'find_all'):
            code += 'PR_RANGE(%s, %s, %s, %s, %s, %s, %d, %d, %d)' % (a[0], a[1], method, 'true' if method == 'find_all' else 'false', a[2], a[3], a[4], a[5], n)
        elif method in ('tokenize_it', 'find_all_it'):
            m = method[:-3]
            code += 'PR_RANGE_IT(%s, %s, %s, %s, %s, %s, %d, %d, %d)' % (a[0], a[1], m, 'true' if m == 'find_all' else 'false', a[2], a[3], a[4], a[5], n)
        elif method.startswith('via'):
            code += 'PR_VIA(%s, %s, %s, %s, %s, %s, %s, %d, %d)' % (a[0], a[1], extra, rm, method[3:], a[2], a[3], a[4], a[5])
        elif method.startswith('own_') or method.startswith('read_'):
            mm, k = method.split('_')
            code += 'PR_%s(%s, %s, %s, %s, %s, %s, %s, %d, %d)' % (mm.upper(), a[0], a[1], extra, rm, k, a[2], a[3], a[4], a[5])
        elif method in ('sv', 'twice'):
            code += 'PR_%s(%s, %s, %s, %s, %s, %d, %d)' % (method.upper(), a[0], a[1], extra, rm, a[3], a[4], a[5])
        elif method in ('bytes', 'owner', 'ostream'):
            if method == 'ostream':
                code = '#include <ostream>\n' + code
            code += 'PR_%s(%s, %s, %s, %s, %s, %s, %d, %d)' % (method.upper(), a[0], a[1], extra, rm, a[2], a[3], a[4], a[5])
        elif method.split()[0] in ('expiring', 'lvalue'):
            m, cont = method.split(None, 1)
            code += 'PR_%s(%s, %s, %s, %s, %s, %s, %d, %d)' % (m.upper(), a[0], a[1], extra, rm, cont, a[3], a[4], a[5])
        elif method == 'named':
            by = '\n'.join('pr::obs_g(%d, res.template group<"%s">());' % (k, nme) for nme, k in sorted(r.names.items()))
            by += '\n'.join('pr::obs_g(%d, meta::get_group_named<"%s">(res));' % (k, nme) for nme, k in sorted(r.names.items()))
            ref = '\n'.join('pr::obs_span(%d, s.c[%d].b, s.c[%d].e);' % (k, k, k) for nme, k in sorted(r.names.items()))
            code += 'extern "C" void I_%s(char const *b, char const *e) { auto res = re_%s::%s(pr::at<%s>(b), pr::at<%s>(e)); mr_out(1, res.matched());\n%s\n}\n' % (nm, nm, extra, ITERS[it], ITERS[it], by)
            code += 'extern "C" void R_%s(char const *b, char const *e) { R::env<%d, %d> s{b, e}; bool ok = R::%s<rt_%s>(s); mr_out(1, ok); if (!ok) for (auto &c : s.c) c = {b, b};\n%s\n%s\n}\n' % (nm, r.ncaps, fl, rm, nm, ref, ref)
        elif method == 'effects':
            code = code.splitlines()[0] + '\n' + extra.replace('RE', 're_' + nm).replace('NAME', nm).replace('IT', ITERS[it]).replace('NC', str(r.ncaps))
        else:
            raise ValueError(method)
        if self.versus_pointers:
            code = code[:code.rindex('PR_')] if 'PR_' in code else code
            call = 're_%s::%s(pr::at<%s>(b), pr::at<%s>(e))'
            meth = {'prefix': 'match_prefix'}.get(method, method)
            wrap = 'pr::obs_gen<%d, %d>(%%s)' % (r.ncaps, n) if method in ('tokenizer', 'searcher') else 'pr::obs_range<%d, %d>(%%s)' % (r.ncaps, n) if method in ('tokenize', 'find_all') else 'pr::obs_result<%d>(%%s)' % r.ncaps
            for side, i in (('I', it), ('R', 'p')):
                code += 'extern "C" void %s_%s(char const *b, char const *e) { %s; }\n' % (side, nm, wrap % (call % (nm, meth, ITERS[i], ITERS[i])))
        what = '%s%s of %s over %s, inputs up to %d bytes' % (method, ' (%s)' % extra if extra and method != 'effects' else '', label, ITERS[it], L)
        if form:
            what += ' that repeat "%s" up to the last %d bytes, from length %d on' % (form[2], form[1], form[0])
            f = 'pr::form<%d, %d, %s>' % (form[0], form[1], ', '.join(str(ord(c)) for c in form[2]))
            for side in 'IR':
                code += '\nextern "C" void %s_%s(char const *b, char const *e) { if (%s(b, e)) %s_%s(b, e); }\n' % (side, nm[:-2], f, side, nm)
            nm = nm[:-2]
        if method == 'effects':
            what = 'call graph of %s over %s' % (label, ITERS[it])
        self.units.append(Unit(nm, code, what, L=L, group=group, opts=opts))

    def long(self, pat, method='match', flags='', it='p', form=(250, 2, 'a'), L=262, n=4):
        r = rx.parse(pat)
        assert rx.usable(r), pat
        if it == 'f' and rx.uses_behind(r.ast):
            it = 'b'
        if self.versus_pointers and it == 'p':
            it = 'r'
        self.emit(lit_regex(pat, flags), r, '/%s/%s' % (pat, flags), method, flags, it, L, n, form=form)

    def bytes_of(self, pats, flags='', it='p', L=2):
        """which inputs a list of patterns accepts (verdicts only), all patterns in one root"""
        nm = self.name()
        fl = 0
        for f in flags:
            fl |= FLAGS[f]
        code, ci, cr = '', '', ''
        for k, p in enumerate(pats):
            r = rx.parse(p)
            assert rx.usable(r), p
            code += 'using re_%s_%d = %s;\nusing rt_%s_%d = %s;\n' % (nm, k, lit_regex(p, flags), nm, k, rx.ref_type(r.ast, r.names))
            ci += ' mr_out(%d, re_%s_%d::match(pr::at<%s>(b), pr::at<%s>(e)).matched());' % (1000 + k, nm, k, ITERS[it], ITERS[it])
            cr += ' { R::env<%d, %d> s{b, e}; mr_out(%d, R::full<rt_%s_%d>(s)); }' % (r.ncaps, fl, 1000 + k, nm, k)
        code += 'extern "C" void I_%s(char const *b, char const *e) {%s }\nextern "C" void R_%s(char const *b, char const *e) {%s }\n' % (nm, ci, nm, cr)
        self.units.append(Unit(nm, code, 'inputs up to %d bytes accepted with the flags "%s" by %s' % (L, flags, '  '.join('%d:/%s/' % (1000 + k, p) for k, p in enumerate(pats))), L=L))

    def cross(self, pats, methods='search', flags=('',), iters='p', L=4, **kw):
        """pats: pattern or (pattern, L)"""
        for p in pats:
            p, l = p if isinstance(p, tuple) else (p, L)
            for m in methods.split():
                for f in flags:
                    for i in iters:
                        self.add(p, m, f, i, l, **kw)


# --- pattern families ----------------------------------------------------------------------------
SEQ = ['', 'a', 'ab', 'abc', ('abcdefgh', 9), ('abcdefghijklmnopqr', 19), 'a.', '.a', '...', '[ab]c', 'a[^b]c',
       ('a(?:bc)d', 5), ('(?:ab)(?:cd)', 5), ('(?:(?:a)b)c', 4), 'a(?:b|c)', '(?:a|b)c', '(?:a|b)(?:c|d)', ('(?:a|ab)(?:c|bc)', 5),
       ('(?:a|ab)(?:c|bcd)d?', 5), ('a(?:b(?:c(?:d|e)|f)|g)', 5),
       '(?:)', 'a(?:)b', '(?:)a', 'a(?:)', '(?:)(?:)', '(?:a|(?:))b', '(?:(?:)|a)b',
       ('a?bc', 4), ('ab?c', 4), ('abc?', 4), ('a?b?c', 4), ('a?bc?', 4), ('a*bcd', 5), ('ab*cd', 5), ('abc*d', 5), ('abcd*', 5),
       ('a.b.c', 6), ('a(?:b|bb)bc', 5), ('(?:a?)bc', 4), ('ab(?:c?)', 4), ('(?:ab?)c(?:d|e)', 5)]
ALT = ['a|b', 'a|ab', 'ab|a', 'a|b|c', 'abc|ab|a', 'a|ab|abc', 'a|a', '(?:a|b)|c', 'a|(?:b|c)', 'a|b|c|d|e|f|g|h|i', '[ab]|b|bc',
       ('(?:a|ab|abc)c', 5), ('(?:abc|ab|a)c', 5), ('(?:a|(?:))(?:b|(?:))', 4), ('(?:a|ab)(?:b|(?:))c', 5), ('(?:a|aa)(?:a|aa)', 5), ('(?:a|b|ab)(?:c|bcd)', 5),
       'ab|cd', 'ab|ac', ('aab|aac', 4), ('ab|ac|ad', 4), ('(?:ab|cd)e', 5), ('a(?:bc|b)c', 5), ('(?:a|b)(?:a|b)(?:a|b)', 4), 'a*|b', 'a?|b', 'b|a*', 'a+|b+', ('(?:a*|b)c', 4), ('(?:a+|ab)c', 5),
       ('(?:a|b?)c', 4), ('(?:a??|b)c', 4)]
QUANT = ['*', '+', '?', '{0}', '{1}', '{2}', '{3}', '{0,1}', '{0,2}', '{1,2}', '{2,3}', '{1,3}', '{0,}', '{1,}', '{2,}', '{3,}', '{0,3}', '{2,4}']
ATOM = ['(?>a*)a', '(?>a+)b', '(?>a|ab)c', '(?>ab|a)c', '(?>ab|a)bc', '(?>a?)a', '(?>a??)a', '(?>a*?)a', '(?>(?:a|ab)*)c', '(?>a*)(?>b*)c', '(?>(?>a*)b*)b', 'a(?>b*)b',
        'a*+a', 'a*+b', 'a++a', 'a++b', 'a?+a', 'a?+b', 'a{2}+a', 'a{1,2}+a', 'a{1,2}+b', 'a{2,}+a', 'a{0,2}+a', 'a{0}+a', '.*+a', '.++a', '[ab]*+b', '[ab]{1,2}+b',
        '(?:ab)*+a', ('(?:ab)*+abc', 5), ('(?:a|ab)*+c', 4), ('(?:a|ab)++c', 4), ('(?:a|ab)?+c', 4), ('(?:a|ab){2}+c', 5), ('(?:a|ab){1,2}+c', 5), ('(?:a|ab){2,}+c', 5), ('(?:a|ab){1}+c', 4), ('(?:a|ab){3}+c', 6),
        ('(?:ab|a)++b', 5), ('(?:a?)*+b', 4), ('(?:a?)++b', 4), ('(?:a*)*+b', 4), ('(?:a?){2}+a', 4), ('(?:a?){1,2}+a', 4), ('(?:a*?){2}+b', 4), '(?>)', '(?>)a', '(?>a)', ('(?:(?>a*)b)*c', 4), ('(?:a++b)*a', 4), ('(?:a*+b|a)c', 4),
        ('(?>a|ab)(?>c|bc)', 5), ('(?>(?:a|ab)(?:c|bc))d', 5), ('(a*+)b\\1', 5), ('(?>(a*))b', 4), ('(?>(a|ab)c|(a)b)', 4), ('(?:(?>(a)|b))*c', 4), '(?>a{1,3})a', '(?>a{1,3}?)a', '(?>a{2,}?)a', '(?>.*)', '(?>.*?)a',
        ('(?>(?:ab)?)a', 4), ('(?:(?:ab)?)++a', 4), ('(?:[ab]c?)*+a', 4), ('(?:a{1,2})*+a', 4), ('(?:a|b){2,3}+b', 5), ('(?:ab?){2,3}+b', 5),
        ('(?:a|ab){2,3}+c', 6), ('(?:a|ab){0,2}+c', 5), ('(?:a|ab){0,1}+c', 4), ('(?:a|ab){3,}+c', 6)]
CAP = ['(a)', '(a)(b)', '((a)b)', '((a)(b))c', '(a)|(b)', '(a)|(b)|(c)', '(a|b)(c)', '(a)?b', '(a)*', '(a)+', '(a)??b', '(a)*?b', '(a)*+', '(a)++', '(a)?+b', '(a){2}', '(a){1,2}', '(a){2,}', '(a){1,3}?b', '(a){2}+b',
       '(a*)(b*)', '(a*)b', '(a*)(a)', '(a*?)(a)', '(a+)(a*)', '(a|ab)(c|bc)', ('(a|ab)(c|bcd)(d*)', 5), '(?:(a)|b)*', '(?:(a)|(b))*', '(?:(a)|(b))+c', '((a)|b)+', ('((a)|(b))+', 3), ('(?:(a)?b)*', 4), ('(?:(a)?b)+c', 4),
       '()', '()a', 'a()', '(a?)', '(a?)(a?)', '(a?)*', '((a?)b)*', '(a*)*', '(a*)+', '(a)(?:b|c)', '(?:a(b)|a(c))', '(?:a(b)|ac)', '(a(b)|ac)', '(?:(a)b|a(c))', '(?:(a)b|(a)c)', ('(?:(a)(b)|(a)(c))', 3), '(?:(a)b)?', ('(?:(a)b)?a', 3), ('(?:(a)b)*a', 4), ('(?:(a)b)*?ac', 5), ('(?:(a)b)*+a', 5), ('(?:(a)(b)?)+', 4), ('(?:(a)(b)?){2}', 4),
       '(?<n>a)', '(?<n>a)(b)(?<m>c)', '(?<n>a)|(?<m>b)', '(?>(a))b', '(?>(a)|b)c', '(?>(a|ab))c', '(?=(a))a', '(?=(a)b)a', '(?=(a)|b).', '(?!(a))b', '(?:(?!(a)b)a)c', ('(?:(?=(a)b)a|a)c', 3), '(?<=(a))b', '(?<=(a)b)c', '(?<=(a*))b', '(?<!(a))b', ('(?<=(a)|b)c', 3), ('(?<=(a)(b))c', 3),
       ('(.)(.)(.)', 4), ('(.*)(.)', 4), ('(.*?)(.)', 4), ('(.+)(.+)', 4), ('(.*)b(.*)', 4), ('(.*?)b(.*)', 4), ('(a)(b)(c)(d)(e)', 6), ('(a(b(c)))', 4), ('(((a)))', 2), ('(a)(?:(b)|(c))(d)', 4), ('(?:(a)|b)(?:(c)|d)', 3),
       ('(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)', 12), '(^a)', '(a$)', '(^)a', '(a|^)b', '(\\b)a', ('((a*)b)*', 4), ('((a)*b)*', 4), ('(?:(a)*b)*', 4), ('(?:(a)*(b)?)*c', 3), ('(?:(a)|(b)|(c)){2}', 3), ('(?:(a)|(b)){2}', 3), ('(?:(a)|(b)){1,2}', 3), ('(?:(a)|(b)){1,2}c', 4), ('(?:(a)|(b)){2}+c', 4), ('(?:(a)|(b))*+c', 3), ('(?:(a)|(b))*?c', 3),
       ('(?:(a)|(ab))c', 4), ('(?:(a)|(ab))(?:(c)|(bc))', 5), ('((a)|(ab))((c)|(bc))', 5), ('(?:(ab)|(a))(?:(bc)|(c))', 4), ('(a*)(?:b(c)|(b)d)', 4)]
BREF = ['(a)\\1', '(.)\\1', '(ab)\\1', ('(a*)\\1', 5), ('(a+)\\1', 5), ('(a*)b\\1', 5), ('(a|b)\\1', 3), ('(a|ab)\\1', 5), ('(.*)\\1', 4), ('(.+)\\1', 4), ('(.)(.)\\2\\1', 5), ('(.)(.)\\1\\2', 5), ('(.)\\1\\1', 4), ('(.)\\1*', 4), ('(.)\\1+', 4), ('(.)\\1?b', 4), ('(.)\\1{2}', 4), ('(.)\\1*?b', 4), ('(.)\\1*+b', 4), ('(.)\\1{1,2}', 4), ('(.)\\1++.', 4),
        ('(a)?\\1b', 3), ('(a)*\\1', 4), ('(?:(a)|b)\\1', 3), ('(?:(a)|b)*\\1', 4), ('(?:(a)|(b))\\1', 3), ('(?:(a)|(b))\\2', 3), ('(?:(a)|(b))\\1\\2', 4), ('\\1(a)', 3), ('(\\1a)', 3), ('(?:\\1b|(a))*', 4), ('(?:(a)|\\1b)*', 4), ('(a\\1)', 3), ('(a|\\1b)*', 4), ('(?:(a)|b\\1)*', 4),
        ('(?<n>a)\\k<n>', 3), ('(?<n>.)\\k<n>', 3), ('(?<n>.)(?<m>.)\\k<m>\\k<n>', 5), ('(?<n>.)\\1', 3), ('(?<n>.*)b\\k<n>', 4), ('(?<n>a)(?<m>b)\\k<n>', 4), ('(?<ab>.)(?<a>.)\\k<a>', 4), ('(?<ab>.)(?<a>.)\\k<ab>', 4), ('(.)(?<n>.)\\k<n>', 4), ('\\k<n>(?<n>a)', 3),
        ('(a)(?=\\1)', 3), ('(.)(?=\\1).', 3), ('(.)(?!\\1).', 3), ('(?=(.)).\\1', 3), ('(.)(?<=\\1)', 3), ('(.).(?<=\\1)', 3), ('(.)..(?<=\\1)', 4), ('(..).*(?<=\\1)b', 5), ('(.)(?<!\\1).', 3), ('(?<=(.))\\1', 3), ('(?<=(..))\\1', 5), ('(?<=\\1(.))a', 4), ('(?<=(.)\\1)a', 4), ('(?>(.)\\1)', 3), ('(?>(a*))\\1', 4), ('(a*+)\\1', 4), ('(?:(.)\\1)*', 5), ('(?:(.)\\1)+', 5), ('(?:(.)\\1){2}', 5), ('(.)(?:\\1|a)', 3),
        ('(a)(b)(c)(d)(e)(f)(g)(h)(i)(.)\\10', 12), ('(a)(b)(c)(d)(e)(f)(g)(h)(i)(.)(.)\\11', 13), ('(a)(b)(c)(d)(e)(f)(g)(h)(i)(.)\\1', 12), ('(a)(?:\\1)0', 4), ('(.)\\1[0]', 4), ('((.)\\2)\\1', 5), ('((.).)\\2', 4), ('(.(.))\\2\\1', 6), ('^(.*)\\1$', 4), ('()\\1a', 2), ('(a?)\\1b', 4), ('(a|b|ab)\\1', 5), ('(.)(.)(.)\\3\\2\\1', 7)]
LOOK = ['(?=a)', '(?=a)a', '(?=a).', '(?!a)', '(?!a).', 'a(?=b)', 'a(?!b)', 'a(?=b)b', 'a(?!b).', '(?=a|b).', '(?=ab)a', '(?!ab)a', '(?!ab)a.', '(?=a*b)a', '(?=.*b)a', '(?!.*b).', '(?=a(?=b))a', '(?=a(?!b))a', '(?!a(?=b))a', '(?!a(?!b))a', '(?=)a', '(?!)a', '(?=$)', 'a(?=$)', 'a(?!$)', '(?=^)a', '(?!^)a', '(?=\\b)a', '(?=[ab]).', '(?![ab]).', '(?=a)(?=.b).', '(?:(?=a).)*', '(?:(?!b).)*', '(?:(?!b).)+b', '(?:(?!ab).)*', '(?:a(?=b)|a(?=c)).',
        '(?<=a)', '(?<=a)b', '(?<=a).', '(?<!a)', '(?<!a)b', '(?<!a).', '(?<=ab)c', '(?<!ab)c', ('(?<=abc)d', 5), '(?<=a|b)c', '(?<=a|bc)d', ('(?<=ab|c)d', 4), ('(?<=a*)b', 4), ('(?<=a+)b', 4), ('(?<=ba*)c', 4), ('(?<=a*b)c', 4), ('(?<=a?b)c', 4), ('(?<=ab?)c', 4), ('(?<=a{2})b', 4), ('(?<=a{1,2})b', 4), ('(?<=a{2,})b', 4), ('(?<=(?:ab)+)c', 5), ('(?<=(?:ab)*)c', 5), ('(?<=.)a', 3), '(?<=..)a', '(?<=[ab])c', '(?<=[^a])b', '(?<![ab])c', '(?<=^)a', '(?<=^a)b', '(?<=^a*)b', '(?<!^)a', '(?<!^a)b', '(?<=\\Aa)b', '(?<=a$)', '(?<=a\\Z)', '(?<=$)', '(?<=\\b)a', '(?<=\\ba)b', '(?<=a\\b).', '(?<=\\B)a', '(?<=\\Ba)b', '(?<=)a', '(?<!)a',
        ('(?<=a(?=b))b', 3), ('(?<=a(?=b)).', 3), ('(?<=(?=a)a)b', 3), ('(?<=(?=ab)a)b', 3), ('(?<=(?=a).)b', 3), ('(?<=(?!a).)b', 3), ('(?<=(?<=a)b)c', 4), ('(?<=(?<!a)b)c', 4), ('(?<=a(?<=a)b)c', 4), ('(?<=b(?<=ab))c', 4), ('(?<!a(?=b))b', 3), ('(?<=a(?!b)).', 3), ('(?=a(?<=a)b)a', 3), ('(?=.(?<=a)).', 3), ('a(?<=a)', 2), ('.(?<=a)', 3), ('..(?<=ab)', 4), ('.*(?<=a)', 4), ('.*(?<!a)', 4), ('.*(?<=ab)c', 4), ('.*?(?<=a)b', 4), ('(?:.(?<=a))*', 4), ('(?:.(?<!a))*', 4), ('(?<=a*?)b', 4), ('(?<=a*+)b', 4), ('(?<=a*+a)b', 4), ('(?<=aa*+)b', 4), ('(?<=(?>a*))b', 4), ('(?<=(?>a|ba))c', 4), ('(?<=(?>a|ab))c', 4), ('(?<=(?:a|ab)(?:c|bc))d', 5), ('(?<=a.c)d', 5), ('(?<=(a)b)c\\1', 5), ('(?<=(?:a|b)c)d', 4), ('(?<=a??b)c', 4), ('(?<!a*b)c', 4), ('(?<!^a*)b', 4), ('(?<=a)(?<=b|a)c', 3), ('(?<=a)(?=b).', 3), ('(?<=\\d)a', 3), ('(?<=\\D)a', 3)]
ANCH = ['^', '$', '^a', 'a$', '^$', '^a$', 'a^', '$a', '^^a', 'a$$', '\\A', '\\Z', '\\Aa', 'a\\Z', '\\A\\Z', '\\Aa\\Z', 'a\\A', '\\Za', '^.', '.$', '^.*$', '^.+$', '^.*', '.*$', '^.*?$', '\\A.*\\Z', '^a|b', 'a|b$', '^(?:a|b)$', '(?:^a|b)c', '(?:a|b$)', '(?:^|a)b', 'a(?:$|b)', '(?:^a)*b', '(?:^a)+', '(?:a$)+', '\\b', '\\B', '\\ba', 'a\\b', '\\ba\\b', '\\b.', '.\\b', '\\b.\\b', '\\Ba', 'a\\B', '\\Ba\\B', '.\\B', '\\B.', '\\b\\w+\\b', '\\b\\w+', '\\w+\\b', '.\\b.', '.\\B.', '\\b\\b.', '\\b\\B', '\\b$', '^\\b', '\\B$', '^\\B', '\\n^', '\\n^a', 'a$\\n', '$\\n^', '^\\n', '\\n$', '\\r$', '^\\r', 'a$.', '.^a', '[\\r\\n]^a', 'a$[\\r\\n]', '(?:.|\\n)^a', '^a*$', '^[ab]*$', '(?:a|^)*b', '(?:^|\\n)a', 'a(?:\\n|$)', '(?=^)a', '(?=$)', '(^)a', '(a)$', '^(a)', '(?<=^)a', 'a?^b', 'a*^b', '\\n?^b', '\\n*^b', 'a\\n?$', '.*^', '.*\\b', '.*\\B.', '.*$.']
CLASS = ['a', '\\x00', '\\x7f', '\\x80', '\\xff', '\\xFF', '\\xe9', '\\x0A', '.', '\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\R', '\\N', '\\n', '\\r', '\\t', '\\f', '\\v', '\\a', '\\e', '\\0', '\\.', '\\*', '\\\\', '\\[', '\\]', '\\-', '\\c', '\\q', '[a]', '[abc]', '[a-c]', '[a-cx-z]', '[^a]', '[^abc]', '[^a-c]', '[]', '[^]', '[-]', '[-a]', '[a-]', '[^-]', '[^-a]', '[^a-]', '[a-a]', '[ -~]', '[\\x00-\\x1f]', '[\\x00-\\xff]', '[\\x80-\\xff]', '[^\\x80-\\xff]', '[\\x7f-\\x80]', '[^\\x00-\\x7f]', '[\\x01-\\xfe]', '[\\xe9]', '[^\\xe9]',
         '[\\d]', '[^\\d]', '[\\D]', '[^\\D]', '[\\w]', '[^\\w]', '[\\W]', '[\\s]', '[^\\s]', '[\\S]', '[\\R]', '[^\\R]', '[\\N]', '[^\\N]', '[\\da-f]', '[a-f\\d]', '[^\\da-f]', '[\\w-]', '[-\\w]', '[\\d\\s]', '[\\D\\d]', '[^\\D\\d]', '[\\D5]', '[^\\Da]', '[\\W_]', '[^\\W_]', '[\\S\\n]', '[\\b]', '[\\b-\\n]', '[\\n-\\r]', '[\\]]', '[\\^]', '[a^]', '[.]', '[*+?]', '[(|)]', '[{}]', '[$]', '[[]', '[\\\\]', '[\\-]', '[a\\-z]', '[+--]', '[!-/]', '[a-z-9]', '[a-c-e]', '[0-9A-Fa-f]', '[\\x41-\\x5a]', '[\\t-\\r ]', '[_a-zA-Z0-9]', '[a-zA-Z]', '[A-z]', '[@-Z]', '[`-z]', '[Z-a]', '[^A-Za-z]', '[ab-d]', '[b-da]', '[\\12]', '[\\k]', '[\\A]', '[\\B]', '[\\Z]', '[\\R-z]', '[\\w-z]', '[\\d-]', '[a\\x2dz]']
PREFIXLIKE = ['()$', '(a*)$', '(a)?$', '(?:a|($))', '(?!.)', '(?!(.))', '(?<=a)$', '(?<=(a))', '(b|$)', '(?:b|\\Z)', '(a)?\\Z', '\\B$', '(?<!a)$', '^|a', '(^)|(a)', 'a', 'ab', 'a*', 'a+', 'a?', 'a*?', 'a|ab', 'ab|a', '(a)(b)?', '(a|ab)', 'a*b', '.*', '.+', '.*?', '(.*)b', '^a', 'a$', '^', '$', '\\b', '(?=a)', '(?<=a)b', '(?!a).', '(?:)', '', '[]', '[^]', 'a{2}', 'a{2,}', '(a)*', '(a)\\1', 'a*+b', '(?>a|ab)c', '(a)|(b)', '^a$', 'a|^b', 'ab$|a', '(?:a|b)*c', '(a*)(b*)', 'b|a*', '(?:a|b){2}', 'x*$', '(?:a$|b)', 'a.c']
TERM = [('(?:a*)*', 4), ('(?:a*)+', 4), ('(?:a?)*', 4), ('(?:a?)+', 4), ('(?:a*)*b', 4), ('(?:a?)*b', 4), ('(?:a*)*?b', 4), ('(?:a?)*?b', 4), ('(?:a?)+?b', 4), ('(?:a*)*+b', 4), ('(?:a?)++b', 4), ('(?:)*', 3), ('(?:)+', 3), ('(?:)*a', 3), ('(?:)+?a', 3), ('(?:)*+a', 3), ('(?:)++a', 3), ('()*a', 3), ('()+a', 3), ('(a?)*b', 4), ('(a*)*b', 4), ('(a*)+b', 4), ('(?:a|(?:))*b', 4), ('(?:(?:)|a)*b', 4), ('(?:(?:)|a)+b', 4), ('(?:(?:)|a)*?b', 4), ('(?:(?:)|a)*+b', 4), ('(?:a*?)*b', 4), ('(?:a*?)+b', 4), ('(?:a??)*b', 4), ('(?:a??)+b', 4), ('(?:^)*a', 3), ('(?:^)+a', 3), ('(?:$)*', 3), ('(?:\\b)*a', 3), ('(?:\\b)+a', 3), ('(?=a)*a', 3), ('(?=a)+a', 3), ('(?!a)*b', 3), ('(?!a)+b', 3), ('(?<=a)*b', 3), ('(?:a*b*)*c', 3), ('(?:a*|b)*c', 4), ('(?:a|b*)*c', 4), ('(?:a?b?)*c', 4), ('(?:(?:a*)*)*b', 3), ('(?:(?:a?)*)*b', 3), ('(?:(?:a*)+)+b', 3), ('(?:a{0,2})*b', 4), ('(?:a{0})*b', 3), ('(?:a{0})+b', 3), ('(?:a*){2,}b', 4), ('(?:a?){2,}b', 4), ('(?:a?){3,}?b', 4), ('(?:a?){2,}+b', 4), ('(?:a*){0,}b', 4), ('(?:a*){1,}b', 4), ('(?:a*){2}b', 4), ('(?:a*){1,2}b', 4), ('(?:a?){1,3}b', 4),
        ('(?:(a)?)*\\1b', 4), ('(a)?(?:\\1)*b', 4), ('()(?:\\1)*a', 3), ('()(?:\\1)+a', 3), ('(?:(?>a*))*b', 4), ('(?>(?:a?)*)b', 4), ('(?>a?)*b', 4), ('(?>a?)+b', 4), ('(?>a*)+b', 4), ('(?:a|(?=b))*b', 4), ('(?:(?=a)|a)*b', 4), ('(?:$|a)*', 4), ('(?:^|a)*b', 4), ('(?:a|^)*b', 4), ('(?<=(?:a*)*)b', 4), ('(?<=(?:a?)+)b', 4), ('(?<=(?:)*)b', 3), ('(?<=(?:)+)b', 3), ('(?=(?:a*)*b)a', 4), ('(?:[ab]*)*c', 3), ('(?:[ab]?)*c', 4), ('(?:.*)*', 3), ('(?:.*)*a', 4), ('(?:.?)+a', 4), ('.*.*a', 4), ('(?:.*a)*b', 4)]

# patterns that mix many features: used everywhere as a common core
CORE = ['a', 'ab', 'a|b', 'a|ab', 'a*', 'a+b', 'a?b', 'a{2}', 'a{2,3}b', '(?:ab)+', '(?:ab){2}', 'a*?b', 'a*+b', '(?:a|ab)*c', '(a)', '(a)|(b)', '(a*)b', '(?:(a)|b)*', '(.)\\1', '(?=a).', '(?!a).', '(?<=a)b', '(?<!a)b', '(?<=a*b)c', '^a', 'a$', '\\ba', 'a\\B', '[ab]', '[^a]', '.', '\\w', '(?>a|ab)c', '(?:a?)*b', '', '(?<n>a)\\k<n>', '.*b', '.*?b', '(a|ab)(c|bcd)', '^(?:a|b)*$']


def pl(x, L):
    return x if isinstance(x, tuple) else (x, L)


def core(r, thorough=False):
    r.cross(CORE, 'match prefix search', iters='p', L=3)
    r.cross(CORE, 'search', iters='fr', L=3)
    r.cross(CORE, 'search', flags=('imsUu',), iters='b', L=3)


# --- properties ------------------------------------------------------------------------------------
def c01(r, th=False):
    """bounds: every family, checked iterators, all methods"""
    fam = SEQ + ALT[:20] + ATOM[::2] + CAP[::3] + BREF + LOOK + ANCH + TERM[::3]
    r.cross(fam, 'search', iters='p', L=3)
    r.cross(fam[::2], 'match', iters='f', L=3)
    r.cross(fam[1::2], 'prefix', iters='b', L=3)
    r.cross(BREF + LOOK[::2] + ANCH[::2], 'match', iters='r', L=3)
    r.cross(ANCH, 'search', flags=('m',), iters='b', L=3)
    r.cross(ANCH[::2], 'search', flags=('m',), iters='p', L=3)
    r.cross(BREF[::3], 'search', flags=('i',), iters='b', L=3)
    for x in ['a', '[ab]', '.', '(?:ab)', '(?:a|b)', '(a)']:
        for q in QUANT + ['{5}', '{3,6}', '{5,}']:
            for m in ('', '?', '+'):
                r.add(x + q + m, 'match', '', 'r', 5)
                r.add(x + q + m + 'b', 'prefix', '', 'f', 5)
                r.add('b' + x + q + m + 'b', 'search', 'u', 'p', 4)
    r.cross(['a', 'ab', 'a*', 'a?', '(a)|b', '^a', '\\b.', 'a$', '(?<=a)b', '.', '(.)\\1'], 'tokenizer searcher tokenize find_all', iters='pb', L=3)
    for f in ['look', 'bref', 'rep', 'anchor']:
        mix.into(r, f, 90 * (4 if th else 1))
    for p, m, f, i in [('a{256}', 'prefix', 'u', 'r'), ('(?:ab){130}', 'match', '', 'r'), ('(a*)\\1', 'match', '', 'p'), ('a{0,300}b', 'prefix', '', 'f'), ('(?:a|bb){257,}+', 'match', '', 'b'), ('a{258}(?<=a{256})', 'match', '', 'p')]:
        r.long(p, m, f, i, (250, 2, 'ab' if 'ab' in p else 'a'))
    core(r, th)


def c02(r, th=False):
    fam = SEQ + ALT
    r.cross(fam, 'match prefix search', iters='p', L=4)
    r.cross(fam, 'match', iters='f', L=4)
    r.cross(fam, 'prefix', iters='b', L=4)
    r.cross(fam, 'search', iters='r', L=4)
    r.cross(fam[::2], 'match', flags=('i', 's', 'u', 'U'), iters='p', L=4)
    # all short sequences over items that are matched in one step and items that need continuations
    items = ['a', '.', 'b?', 'b*', '(?:b|c)', '(b)', '(?:bc)', '$', '(?=b)', 'b{2}', '(?:)', '(?:b|bc)', '(?>b|bc)', 'b*?']
    for x, y in itertools.product(items, items):
        r.add(x + y, 'match', '', 'p', 4)
        r.add('(?:%s|%s)c' % (x, y), 'prefix', '', 'r', 3)
    for x, y, z in itertools.product(items[:6], items[:7], items[:6]):
        r.add(x + y + z, 'prefix', '', 'f', 4)
    for x, y, z in itertools.product(['a', 'ab', 'b', 'a?'], repeat=3):
        r.add('(?:%s|%s|%s)b' % (x, y, z), 'match', '', 'p', 4)
    for k in (10, 17, 33):
        s = ''.join(chr(97 + i % 26) for i in range(k))
        r.add(s, 'match', '', 'p', k + 1)
        r.add(s, 'match', '', 'f', k + 1)
        r.add('(?:%s)|(?:%s)' % (s, s[:-1]), 'match', '', 'r', k + 1)
        r.add('|'.join(s[:i + 1] for i in range(min(k, 20))), 'prefix', '', 'p', min(k, 21))
    for f in ['alt', 'mixed']:
        mix.into(r, f, 160 * (4 if th else 1))
    for k in (128, 256, 260):
        s = 'ab' * (k // 2)
        r.long(s, 'match', '', 'p', (250, 3, 'ab'))
        r.long(s + '(?:a|b)c?', 'match', '', 'f', (250, 3, 'ab'))
        r.long('(?:%s|%sc)' % (s, s[:-1]), 'prefix', '', 'b', (250, 3, 'ab'))
    r.long('|'.join('a' * i + 'b' for i in range(1, 60)), 'match', '', 'p', (55, 2, 'a'), 64)
    core(r, th)


def c03(r, th=False):
    inner = ['a', '.', '[ab]', '(?:ab)', '(?:a|b)', '(?:a|ab)', '(?:a?b)', '(a)', '(?:a*)', '(?:ab?)']
    for x in inner:
        for q in QUANT:
            for m in ('', '?', '+'):
                r.add(x + q + m + 'b?', 'match', '', 'p', 4)
                r.add(x + q + m, 'prefix', '', 'f', 4)
    for x in ['a', '.', '(?:ab)', '(?:a|ab)', '(a)']:
        for q in QUANT:
            for m in ('', '?'):
                r.add(x + q + m, 'search', 'U', 'f', 4)
                r.add(x + q + m + 'b', 'prefix', 'u', 'b', 4)
                r.add('b' + x + q + m + 'a', 'match', '', 'r', 5)
    for x in ['a', '[ab]', '(?:a|b)', '(a)', '(?:aa)']:
        for q in ['{4}', '{5}', '{7}', '{3,5}', '{4,6}', '{5,}', '{4,}', '{0,5}', '{1,6}', '{9}', '{10,11}']:
            for m in ('', '?', '+'):
                r.add('^' + x + q + m + '$', 'search', '', 'p', 12 if x != '(?:aa)' else 13)
                if x != '[ab]' and x != '(?:a|b)':
                    r.add(x + q + m + 'a?b', 'match', 'u' if m else '', 'r', 8)
    for x, y in itertools.product(['a*', 'a+', 'a?', 'a*?', 'a{1,2}', 'a{2,}?', 'a{2}', 'a*+'], repeat=2):
        r.add('(%s)(%s)' % (x, y), 'match', '', 'p', 4)
        r.add('(?:%s){2}' % x, 'prefix', '', 'p', 4)
        r.add('(?:b%s)%s' % (x, y[1:]), 'prefix', '', 'r', 4)
    r.cross(['a{,2}', 'a{b}', 'a{02}', 'a{1,02}'], 'match', iters='p', L=7)
    r.cross(TERM, 'match', iters='p', L=4)
    for f in ['rep', 'mixed']:
        mix.into(r, f, 160 * (4 if th else 1))
    # every size of bound, with inputs around that many occurrences
    k = 0
    for n in list(range(3, 21)) + [23, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129]:
        for q in ['{%d}' % n, '{%d,}' % n, '{0,%d}' % n, '{%d,%d}' % (n // 2, n), '{%d,%d}' % (n - 1, n)]:
            for m in ('', '?', '+'):
                for x in ('a', ['.', '(?:a|bb)', '(a)', '[ab]', '(?:a(?:))', '(?:a|b)'][k % 6]):
                    k += 1
                    r.long(x + q + m + ['', 'b', 'b?'][k % 3], 'match' if m == '?' or k % 2 else 'prefix', 'u' if k % 7 == 0 else '', 'pfrb'[k % 4], (max(n - 2, 0), 2, 'a'), n + 3)
    for x in ['a', '(?:a|bb)', '(a)', '(?:aa)', '.', '(?:a?b?)']:
        for k, q in enumerate(['{256}', '{257}', '{260}', '{255,258}', '{257,}', '{0,257}', '{128}', '{130,}', '*', '+', '{1,260}']):
            for j, m in enumerate(['', '?', '+']):
                if x == '(?:a?b?)' and (q not in ('*', '+') or j == 1):
                    continue
                r.long(x + q + m + ('' if k % 2 or x == '(?:a?b?)' else 'b?'), ('match', 'prefix')[(k + j) % 2], 'uU'[k % 2] if j == 1 else '', 'p' if x == '(?:a?b?)' else 'pfrb'[(k + 2 * j) % 4] if x != '(?:a|bb)' or q != '{256}' else 'p')
    core(r, th)


def c04(r, th=False):
    r.cross(ATOM, 'match search', iters='p', L=4)
    r.cross(ATOM, 'prefix', iters='f', L=4)
    r.cross(ATOM, 'match', iters='r', L=4)
    r.cross(ATOM, 'match', flags=('U', 'u', 'i'), iters='p', L=4)
    inner = ['a', '.', '[ab]', '(?:ab)', '(?:a|b)', '(?:a|ab)', '(?:ab|a)', '(?:a?b)', '(a)', '(?:a*)', '(?:a*?)', '(a|ab)', '(?:a??)', '(?>a|ab)', '(?:ab?)', '(?:ab??)']
    for x in inner:
        for q in QUANT:
            r.add(x + q + '+b', 'match', '', 'p', 4)
            r.add(x + q + '+', 'prefix', '', 'b', 4)
            r.add('(?>' + x + q + ')b', 'match', '', 'p', 4)
            r.add('(?>' + x + q + '?)b', 'match', '', 'r', 4)
            r.add('a?' + x + q + '+b', 'prefix', '', 'f', 4)
    for x in inner:
        r.add('(?:%s++|a)b' % x, 'match', '', 'p', 4)
        r.add('(?:(?>%s)b?)*c' % x, 'prefix', '', 'p', 4)
        r.add('(?>%s)(?>%s)' % (x, x), 'match', '', 'p', 4)
        r.add('(?>(%s)(b?))\\1' % x, 'match', '', 'p', 4)
    for f in ['atomic']:
        mix.into(r, f, 240 * (4 if th else 1))
    for p in ['a*+b', 'a++a', '(?>a*)a', '(?:a|ab){257,}+b', '(?:aa|a){129}+b', '(?>(?:a|aa)*)b', 'a{256,258}+a', '(?:a|bb){256}+a', '(?:aa)*+a']:
        for i, m in (('p', 'match'), ('f', 'prefix')):
            r.long(p, m, '', i)
    core(r, th)


def c05(r, th=False):
    r.cross(CAP, 'match search', iters='p', L=4)
    r.cross(CAP, 'prefix', iters='b', L=4)
    r.cross(CAP, 'match', iters='f', L=4)
    r.cross(CAP[::2], 'search', flags=('i', 'U', 'u', 'm'), iters='p', L=3)
    inner = ['(a)', '(a|b)', '(?:(a)|b)', '(?:(a)|(b))', '(a)(b)?', '(a*)', '((a)b?)', '(?:a|(ab))', '(?=(a)).', '(?<=(a))b', '(?>(a)|b)', '(?:(a)|(?:))b', '(?!(a)).']
    for x in inner:
        for q in ['', '*', '+', '?', '{2}', '{1,2}', '{2,}', '*?', '+?', '??', '{1,2}?', '*+', '++', '?+', '{2}+', '{1,2}+']:
            r.add('(?:%s)%s' % (x, q), 'search', '', 'p', 3)
            r.add('(?:%s)%sb' % (x, q), 'match', '', 'p', 4)
            r.add('(?:(?:%s)%sc|a)' % (x, q), 'prefix', '', 'r', 3)
            r.add('(?>(?:%s)%sc|a)' % (x, q), 'prefix', '', 'b', 3)
            r.add('(?:(?=(?:%s)%sc)|a)' % (x, q), 'prefix', '', 'b', 3)
    for f in ['cap']:
        mix.into(r, f, 240 * (4 if th else 1))
    for p in ['(a*)b', '(a){260}', '(a)*b', '(?:(a)|b)*', '(a{256})(a*)', '(?:(a)(b)?)+', '(a+?)(b)', '(?:(a)|(b)){257,}', '((a)*)b?']:
        for i, m in (('p', 'match'), ('b', 'prefix')):
            r.long(p, m, '', i)
    core(r, th)


def c06(r, th=False):
    r.cross(BREF, 'match search', iters='p', L=4)
    r.cross(BREF, 'prefix', iters='b', L=4)
    r.cross(BREF, 'match', iters='r', L=4)
    r.cross(BREF, 'match', flags=('i', 'U', 's', 'u'), iters='p', L=4)
    for g in ['a', 'ab', 'a|b', 'a*', '.', 'a?', '.*', 'a|ab', '[ab]{2}', '(?:ab)?', 'a*?', '\\w', '(?=a).', '[Aa]']:
        for q in ['', '*', '?', '{2}', '+?', '*+']:
            r.add('(%s)\\1%s' % (g, q), 'match', '', 'p', 4)
            r.add('(?<n>%s)b?\\k<n>%s' % (g, q), 'prefix', '', 'b', 4)
            r.add('(%s)\\1%s$' % (g, q), 'search', 'i', 'r', 3)
        r.add('(?<=(%s))\\1' % g, 'search', '', 'b', 4)
        r.add('(%s)b(?<=\\1b)' % g, 'search', '', 'p', 4)
    for f in ['bref']:
        mix.into(r, f, 240 * (4 if th else 1))
    for p in ['(a*)b\\1', '(a{128})\\1', '(a{130})\\1b?', '(a)\\1{256}', '(?<n>a)\\k<n>{259,}', '(a{2})(?:\\1)*', '(a*?)\\1b', '(.)\\1*']:
        for i, f in (('p', ''), ('b', 'i')):
            r.long(p, 'match', f, i, *(((62, 2, 'a'), 68) if '*' in p[:4] and f else ()))
    core(r, th)


def c07(r, th=False):
    r.cross(LOOK, 'search prefix', iters='p', L=4)
    r.cross(LOOK, 'match', iters='b', L=4)
    r.cross(LOOK, 'search', iters='r', L=3)
    r.cross([p for p in LOOK if not rx.uses_behind(rx.parse(pl(p, 4)[0]).ast)], 'search', iters='f', L=4)
    r.cross(LOOK[::2], 'search', flags=('i', 'm', 'U', 's', 'u'), iters='p', L=3)
    inner = ['a', 'ab', 'a|b', 'a|bc', 'ab|c', 'a*', 'a+b', 'ba*', 'a?b', 'ab?', 'a{2}', 'a{1,2}b', '(?:ab)*', '.', '..', '[ab]c', '^a', 'a$', '\\ba', 'a\\b', '\\Ba', '(a)', '(a)(b)', '(a*)b', '(?>a|ab)', '(?>ab|b)', 'a*+', 'a*?b', 'ba*?', '(?=a).', '.(?=b)', '(?!a).', '(?<=a)b', '(?<!a)b', 'a(?<=a)', '\\Aa', 'a\\Z', '\\d', '^', '$', '\\A', '\\Z', 'a(?=b)', 'a(?!b)', 'abc', 'a.c', '(a|b)c', '(?:a|b)*c', 'c(?:a|b)*', '(?:a|b)+', '.*', '.*a', 'a.*']
    for x in inner:
        for o in ['(?=%s)', '(?!%s)', '(?<=%s)', '(?<!%s)']:
            r.add((o % x) + 'b', 'search', '', 'p', 4)
            r.add('b?' + (o % x), 'prefix', '', 'b', 4)
            r.add('.*' + (o % x) + '.*', 'match', '', 'b', 3)
            r.add('(?:a|b)*' + (o % x) + 'c?', 'match', 'm' if '^' in x or '$' in x else 'U', 'p', 3)
        r.add('(?<=(?<=%s)b)c' % x, 'search', '', 'p', 4)
        r.add('(?<=(?=%s).)b' % x, 'search', '', 'p', 3)
        r.add('(?=.(?<=%s)).' % x, 'search', '', 'p', 3)
    for f in ['look']:
        mix.into(r, f, 240 * (4 if th else 1))
    for p in ['a*(?<=a{2})', '.{258}(?<=a{256})', 'a{258}(?<=(?:a|bb){257})', '(?=a{256}b)a*b', '(?!a{257})a*', 'a*(?<!b)', 'a{250,}+(?<=^a*)', '.*(?<=a(?:a|b)*b)', '(?=(?:a|bb)*$)a*.', 'a*(?<!a{256}b)', '.{258,}+(?<=(a{257}))']:
        r.long(p, 'match' if p[-1] != 'a' else 'prefix', '', 'pb'[len(p) % 2])
    core(r, th)


def c08(r, th=False):
    r.cross(ANCH, 'search match prefix', iters='p', L=3)
    r.cross(ANCH, 'search', flags=('m', 'i', 's', 'ms'), iters='p', L=3)
    r.cross(ANCH, 'search', flags=('', 'm'), iters='f', L=3)
    r.cross(ANCH, 'search', flags=('', 'm'), iters='b', L=3)
    r.cross(ANCH, 'search', flags=('m', 'U'), iters='r', L=3)
    r.cross(ANCH[::2], 'searcher', flags=('', 'm'), iters='pf', L=3, n=3)
    r.cross(ANCH[1::2], 'tokenizer', flags=('', 'm'), iters='pf', L=3, n=3)
    for a in ['^', '$', '\\A', '\\Z', '\\b', '\\B']:
        for x in ['a', '.', '\\n', '\\r', '\\w', '\\W', '[^a]', '(?:)', '_', '-', '0', 'Z', '\\xe9', '[a-z]', '\\s']:
            r.add(a + x, 'search', 'm', 'p', 3)
            r.add(x + a, 'search', 'm', 'b', 3)
            r.add(x + a + '.', 'search', 'ms', 'f', 3)
            r.add('.?' + a + x, 'search', 's', 'p', 3)
        for t in ['(?=%s)a', '(?!%s)a', '(?<=%s)a', '(?<!%s)a', '(?<=a%s)', '(?<=%sa).', '(?:%s|a)b', '(?:%sa)*b', '(?>%s)a', '(%s)a', '.*%s', '.*?%s.', 'a?%s']:
            r.add(t % a, 'search', 'm', 'p', 3)
            r.add(t % a, 'search', '', 'b', 3)
    for f in ['anchor']:
        mix.into(r, f, 240 * (4 if th else 1), flags=('', 'm', 'm', 'mi', 'ms'))
    for p, f in [('^a*$', ''), ('a*$', 'm'), ('a*\\b', ''), ('a*\\B', ''), ('\\Aa*\\Z', ''), ('(?:^a)?a*$.?', 'm'), ('(?:a\\B)*+.*', '')]:
        r.long(p, 'match', f, 'p', *(((60, 2, 'a'), 66) if 'a\\B' in p else ()))
    for p in ['$', '\\Z', 'b$', '\\bb', 'b\\b', '[^a]', '\\W', 'a\\b', 'a$', '\\Ba\\b', '[^a]$']:
        r.long(p, 'search', 'm' if '$' in p else '', 'pb'[len(p) % 2], *(((60, 2, 'a'), 66) if p[0] == '\\' else ()))
    r.long('^b', 'search', 'm', 'p', (120, 2, 'a'), 130)
    r.long('^b', 'search', 'm', 'f', (60, 2, 'a'), 66)
    core(r, th)


EDGES = [0, 1, 9, 10, 0x1f, 0x20, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x42, 0x4d, 0x59, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x62, 0x6d, 0x79, 0x7a, 0x7b, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xda, 0xdb, 0xe0, 0xe1, 0xfa, 0xfb, 0xfe, 0xff]


def ranges(r, flags, form, th):
    """ranges between all the bytes at which something changes (thorough: between any two bytes)"""
    for lo in EDGES if not th else range(256):
        hs = [h for h in (EDGES if not th else range(256)) if h >= lo]
        for i in range(0, len(hs), 20):
            r.bytes_of([form % (lo, h) for h in hs[i:i + 20]], flags)


def c09(r, th=False):
    ranges(r, '', '[\\x%02x-\\x%02x]', th)
    ranges(r, '', '[^\\x%02x-\\x%02x]', False)
    ranges(r, 'i', '[\\x%02x-\\x%02x]', False)
    r.cross(CLASS, 'match', flags=('', 'i', 's'), iters='p', L=2)
    r.cross(CLASS, 'prefix', flags=('',), iters='f', L=2)
    r.cross([c + '*' for c in CLASS], 'match', flags=('', 'i'), iters='p', L=2)
    r.cross([c + '{2}' for c in CLASS], 'match', flags=('',), iters='r', L=3)
    r.cross(['(?:x|%s)y' % c for c in CLASS], 'match', flags=('', 'i'), iters='p', L=3)
    for b in list(range(256)):
        c = bytes([b]).decode('latin-1')
        for p in ([c] if c not in '\\()[]{}*+?|^$.\0' else []) + ['\\x%02x' % b, '[\\x%02X]' % b, '[^\\x%02x]' % b]:
            r.add(p, 'match', '', 'p', 2)
            if chr(b).isalpha() or not b % 16:
                r.add(p, 'match', 'i', 'p', 2)
    for lo, hi in [('a', 'z'), ('A', 'Z'), ('0', '9'), ('a', 'c'), ('X', 'c'), (' ', '~'), ('Z', '['), ('@', 'A'), ('z', '{'), ('`', 'a'), ('Y', 'b'), ('5', 'C'), ('f', '~'), ('!', 'F')]:
        for fl in ('', 'i'):
            r.add('[%s-%s]' % (lo, '\\' + hi if hi in '[]^-' else hi), 'match', fl, 'p', 2)
            r.add('[^%s-%s]' % (lo, '\\' + hi if hi in '[]^-' else hi), 'match', fl, 'f', 2)
    for lo in range(0, 256, 17):
        for hi in (lo, lo + 1, lo + 17, lo + 100, 255):
            if lo <= hi <= 255:
                r.add('[\\x%02x-\\x%02x]' % (lo, hi), 'match', '', 'p', 2)
                r.add('[^\\x%02x-\\x%02x]' % (lo, hi), 'match', 'i', 'p', 2)
    for f in ['class']:
        mix.into(r, f, 240 * (4 if th else 1), flags=('', 'i', 's'))
    core(r, th)


def c10(r, th=False):
    fl = ['i', 's', 'm', 'U', 'u', 'is', 'im', 'iU', 'sm', 'mU', 'su', 'ismUu', 'Uu', 'ms', 'Ui']
    ps = ['a', 'aB', '[a-c]', '[^a-c]', '[A-Z]', '\\w', '\\x41', '[\\x41-\\x43]', '@', '[', '`', '\\{', '[@-[]', '[`-{]', '1', '\\xc1', '\\xe1', '[\\xc0-\\xdf]', '(a)\\1', '(?<n>B)\\k<n>', '(?=a).', '(?<=A)b', 'a|B', 'a*B', '.', '..', '.*', '.+?', '[^]', '\\N', '\\R', '\\s', '^a', 'a$', '^', '$', '^.', '.$', '^.*$', 'a\\n^b', '\\Aa', 'a\\Z', '\\A^.', '.$\\Z', 'a*', 'a+', 'a?', 'a*?', 'a+?', 'a??', 'a{1,2}', 'a{1,2}?', 'a{2}', 'a{2}?', 'a{1,}', 'a{1,}?', 'a*+', 'a++b', '(a*)(a*)', '(a*?)(a*)', '(?:ab)*', '(?:ab)*?', '(?:a|b)+', '(?:a|b){1,2}', '(?:a|b){1,2}?b', 'a*b', 'a*?b', '\\b.', '(?>a*)b', '(?:a?)*b', '(?:^a)+', '(?<=^a)b', '(?<=.)b', '(?<=a*)b', '(a)(?=\\1)', '(?!.)a', '(?!a).', '[aB]*', '[^a]*', '[\\da-f]', '[^\\Wa]']
    ps = [p if p != '[' else '\\[' for p in ps]
    r.cross(ps, 'search', flags=[''] + fl, iters='p', L=3)
    r.cross(ps, 'match', flags=fl[:6] + ['ismUu'], iters='f', L=3)
    r.cross(ps[::2], 'prefix', flags=fl[:6], iters='r', L=3)
    r.cross(ps[1::3], 'find_all', flags=['i', 'm', 'U', 's'], iters='p', L=3, n=3)
    for c in range(32, 127):
        ch = chr(c)
        e = '\\' + ch if not ch.isalnum() and ch != '_' else ch
        r.add(e, 'match', 'i', 'p', 2)
        r.add('[%s]' % (e if not ch.isalnum() else ch), 'match', 'i', 'f', 2)
    for q in QUANT:
        for x in ['a', '(?:ab)', '(a|ab)']:
            for m in ('', '?', '+'):
                r.add(x + q + m + '.*', 'match', 'U', 'p', 3)
                r.add(x + q + m, 'prefix', 'U', 'r', 3)
                r.add(x + q + m + 'a', 'prefix', 'u', 'f', 3)
    ranges(r, 'i', '[\\x%02x-\\x%02x]', th)
    ranges(r, 'i', '[^\\x%02x-\\x%02x]', False)
    for b in range(0, 256, 16):
        r.bytes_of(['\\x%02x' % (b + k) for k in range(16)], 'i')
        r.bytes_of(['[\\x%02xa\\d]' % (b + k) for k in range(16)], 'i')
        r.bytes_of(['[^\\x%02x-\\x%02xA]' % (b + k, min(b + k + 7, 255)) for k in range(16)], 'i')
    # the flags as they are added and removed on types and on expressions
    for k, p in enumerate(['a', 'aB.', '^a$', 'a+', '(.*)b', '[a-c]\\1?' if False else '[a-c]x?', '.\\n^a', '(a+?)(a*)']):
        q = res_of(p)
        for a, b in [('', 'i'), ('i', 's'), ('s', 'm'), ('m', 'U'), ('U', 'i'), ('i', 'i'), ('', 'ismU'), ('ismU', ''), ('u', 'm'), ('sU', 'im')]:
            add = ', '.join('meta::regex_flag::' + FLAGNAME[x] for x in b)
            u = ''.join(sorted(set(a + b)))
            r.emit('%s::add_flags<%s>' % (lit_regex(p, a), add), q, '/%s/%s with added flags "%s"' % (p, a, b), 'search', u, 'p', 3)
            if b:
                r.emit('decltype(meta::xpr::add_flags<%s>(%s{}))' % (add, lit_regex(p, a)), q, '/%s/%s with added flags "%s" (xpr)' % (p, a, b), 'prefix', u, 'p', 3)
            r.emit('%s::clear_flags' % lit_regex(p, a + b), q, '/%s/%s with the flags cleared' % (p, a + b), 'search', '', 'p', 3)
            r.emit('decltype(meta::xpr::clear_flags(%s{}))' % lit_regex(p, a + b), q, '/%s/%s with the flags cleared (xpr)' % (p, a + b), 'match', '', 'p', 3)
    for f in ['mixed', 'class', 'anchor', 'rep']:
        mix.into(r, f, 70 * (4 if th else 1), flags=('i', 's', 'm', 'U', 'u', 'ismUu', 'im', 'sU'))
    core(r, th)


def c11(r, th=False):
    fam = SEQ + ALT[::2] + ATOM[::2] + CAP[::2] + BREF[::2] + LOOK[::2] + ANCH[::2] + TERM[::3]
    for k, p in enumerate(fam):
        p, L = pl(p, 3)
        for i in 'fbr':
            r.add(p, ('search', 'match', 'prefix')[(k + ord(i)) % 3], '', i, L)
    r.cross(ANCH, 'search', flags=('m',), iters='fbr', L=3)
    for x in ['a', '.', '(?:ab)', '(?:a|b)', '[ab]']:
        for q in QUANT + ['{5}', '{3,5}']:
            for m in ('', '?', '+'):
                for i, mth, t in (('f', 'match', 'b?'), ('b', 'prefix', ''), ('r', 'match', 'b'), ('r', 'prefix', ''), ('f', 'prefix', '')):
                    r.add(x + q + m + t, mth, 'u' if i == 'b' else '', i, 4)
    r.cross(['a', 'a*', '(a)|b', '^a', '(?:a|b)c'], 'tokenizer searcher tokenize find_all', iters='fbr', L=3)
    r.cross(CLASS[::4], 'match', flags=('', 'i'), iters='fbr', L=2)
    for f in ['mixed', 'rep', 'anchor']:
        mix.into(r, f, 110 * (4 if th else 1), iters='fbr')
    for p, m in [('a{257}b?', 'match'), ('(?:a|bb){256,}', 'match'), ('(?:a|bb)*+b', 'prefix'), ('a{0,260}?b', 'match'), ('(a*)b', 'match'), ('b', 'search'), ('$', 'search'), ('a*', 'prefix'), ('(?:ab|aa)*', 'match'), ('(.)\\1*', 'match'), ('b|$', 'search')]:
        for i in 'fbr':
            r.long(p, m, '', i)
    core(r, th)


def c12(r, th=False):
    r.cross(PREFIXLIKE, 'match prefix search', iters='pfbr', L=4)
    r.cross(PREFIXLIKE, 'match prefix search', flags=('i', 'm', 's', 'U', 'u'), iters='p', L=3)
    r.cross(SEQ + ALT + CAP[::2] + LOOK[::2] + ANCH, 'search', iters='p', L=3)
    r.cross(SEQ + ALT + CAP[1::2] + LOOK[1::2] + BREF[::2], 'match', iters='p', L=3)
    r.cross(SEQ + ALT + ATOM[::2] + CAP[::3], 'prefix', iters='p', L=3)
    for k in (5, 8, 11):
        r.add('a' * k, 'match', '', 'p', k + 1)
        r.add('a{%d}' % k, 'prefix', '', 'r', k + 1)
        r.add('a' * 3 + 'b', 'search', '', 'p', 7)
        r.add('a' * 3 + '$', 'search', '', 'f', 6)
    for f in ['mixed', 'anchor', 'empty', 'cap', 'look']:
        mix.into(r, f, 80 * (4 if th else 1), methods=('match', 'prefix', 'search', 'search'))
    for p in ['b', '[^a]', 'a$', '$', '(b)|(c)', 'ab', 'b.', '(?:b|$)', '(?!a)', '\\Z', '(?<=b)', 'a(?=b)', '(?!a).', 'ac|b', '^b|b']:
        for i in 'pf':
            r.long(p, 'search', '', i)
    for p in ['a*', 'a*b', 'a+?b', 'a{256}', '(?:a|bb)*', '.*', 'a*?$']:
        r.long(p, 'match', '', 'p')
        r.long(p, 'prefix', '', 'r')
    core(r, th)


def c13(r, th=False):
    ps = ['a', 'ab', 'a|b', 'a*', 'a+', 'a?', 'a*?', '(a)', '(a)|(b)', '(a)?b', '(a*)', '^a', 'a$', '^', '$', '\\b', '\\ba', '\\b.', '.', '..', '.*', '.+', '(?=a)', '(?=a).', '(?<=a).', '(?<=a)b', '(?<!a)b', '(?<=^|a)a', '(?!a)', '', '[]', '[^]', 'a$|b', '^a|b', 'a|(?:)', '(?:(?:)|a)', '(?:a|b)*c', 'a{2}', '(.)\\1', '(a)\\1?', 'b*$', '(?>a|ab)', 'a*+', '\\Aa', 'a\\Z', '(?:a|ab)', '(?<n>a)b?', 'a(?=b)', 'a(?!a)', 'a??b', '\\n^a', 'a\\b']
    for m in ('tokenizer', 'searcher', 'tokenize', 'find_all', 'tokenize_it', 'find_all_it'):
        r.cross(ps, m, iters='p', L=3, n=4)
        r.cross(ps[::2], m, iters='f', L=3, n=4)
        r.cross(ps[1::2], m, iters='r', L=3, n=4)
        r.cross(ps[::3], m, flags=('m', 'i', 'U'), iters='b', L=3, n=4)
    for p in ['a', 'ab', 'a|b', 'a?', 'a+', '(a)(b)?', 'aa', '..']:
        r.add(p, 'find_all', '', 'p', 6, 6)
        r.add(p, 'tokenize', '', 'f', 6, 6)
    for f in ['mixed', 'empty', 'anchor', 'cap', 'look']:
        mix.into(r, f, 60 * (4 if th else 1), methods=('tokenizer', 'searcher', 'tokenize', 'find_all', 'tokenize_it', 'find_all_it'), cap=3)
    for k, (p, f) in enumerate([('a', 'a'), ('a|b', 'ab'), ('ab', 'ab'), ('aa', 'a'), ('a?', 'a'), ('(a)(b)?', 'ab'), ('a\\B', 'a'), ('^a|b', 'ab'), ('a(?=a)', 'a'), ('(?<!b)a|b', 'ab')]):
        for j, m in enumerate(('tokenizer', 'searcher', 'tokenize', 'find_all', 'tokenize_it', 'find_all_it')):
            r.long(p, m, '', 'pfrb'[(j + k) % 4], (258 if len(p) < 2 else 68, 2, f), 262 if len(p) < 2 else 72, 263 if len(p) < 2 else 73)
    core(r, th)


def c14(r, th=False):
    r.cross(TERM, 'match search', iters='p', L=4)
    r.cross(TERM, 'prefix', iters='f', L=3)
    r.cross(TERM, 'search', iters='r', L=3)
    r.cross(TERM, 'search', flags=('U', 'u', 'm', 'i'), iters='p', L=3)
    inner = ['a?', 'a*', '', 'a??', 'a*?', '(a?)', '()', '^', '$', '\\b', '(?=a)', '(?!a)', '(?<=a)', 'a|(?:)', '(?:)|a', '(?:a|^)', '(a)|\\1', 'a{0}', 'a{0,2}', '(?>a?)', 'a?+', 'a*+', '(?:a?)*', 'a?b?', '(?:)(?:)', 'a*b*', '\\B', '(?:a|$)', '(?<!a)', '(a*)', '(?=(a))', '(?>)', '[]?', '(?:a?|b)']
    for x in inner:
        for q in ['*', '+', '{2,}', '{0,}', '{3,}', '*?', '+?', '{2,}?', '*+', '++', '{2,}+', '{2}', '{0,2}', '{2,3}?']:
            r.add('(?:%s)%sb' % (x, q), 'search', '', 'p', 3)
            r.add('(?:%s)%s' % (x, q), 'match', 'u', 'b', 3)
        r.add('(?:(?:%s)*)*b' % x, 'prefix', '', 'p', 3)
        r.add('(?<=(?:%s)*)b' % x, 'search', '', 'p', 3)
        r.add('(?=(?:%s)*b).' % x, 'search', '', 'p', 3)
        r.add('(?>(?:%s)*)b' % x, 'search', '', 'p', 3)
    for m in ('searcher', 'tokenizer', 'find_all', 'tokenize'):
        r.cross(['(?:a*)*', '(?:a?)+', '', '^', '\\b', '(?=a)', 'a*?', '(?:)*', '$', '()+'], m, iters='pf', L=3, n=5)
    for f in ['empty']:
        mix.into(r, f, 240 * (4 if th else 1))
    for p in ['(?:a?)*b', '(?:a*)*', '(?:a|(?:))*', '(?:a?){257,}', '(?:a??)+b', '(?:(?:)|a)*+b', '(?:a{0,2})*', '(?:a?)*?b', '(?:a*?)*b', '(a?)*', '(?>a?)*b']:
        m = 'prefix' if p in ('(?:a*)*', '(?:a?){257,}', '(?:a{0,2})*') else 'match'
        r.long(p, m, '', 'pfb'[len(p) % 3], (10 if p == '(?:a*?)*b' else 130, 1, 'a'), 12 if p == '(?:a*?)*b' else 136)
    core(r, th)


# --- properties whose engine roots complement type-level obligations ----------------------------------
def res_of(pat):
    r = rx.parse(pat)
    assert rx.usable(r), pat
    return r


def lit_regex(pat, flags=''):
    return 'meta::regex<%s%s>' % (rx.cstr(pat), ''.join(', meta::regex_flag::' + FLAGNAME[f] for f in flags))


PARSE = ['a{', 'a{}', 'a{b}', 'a{,2}', 'a{1', 'a{1,', 'a{1,x', '(?:xa{|b)c', 'xa{|b', 'a}', ']', 'a]', '-', ',', 'a-z', '[a-]', '[-a]', '[]a]', '[^]a]', '[a\\-z]', '[\\]]', '\\x41b', '\\x4', 'a|b|', 'ab|cd', 'a|b*', 'a|b?c', '^a|b$', '(a|b)c', '(?:a|b)c', 'ab*', '(ab)*', '(?:ab)*', 'a(b|c)*d', 'a(?:b|c)*?d', '((a)|b)c', '(?:a(b)|c(d))\\1', 'a{2}b', 'ab{2}', '(?:ab){2}', '(ab){1,2}', 'a{10}', 'a{2,}', 'a{2,10}', '[a-c]{2}', '\\d{2}', '.{2}', '\\1(a)', '(a)\\1{2}', '(a)(?:\\1)0', '\\.\\*\\+', '\\(a\\)', '\\[a\\]', '\\{1\\}', 'a\\|b', '\\^\\$', '\\\\', '\\-', '\\/', '/', '(?=a|b)c?', '(?<=a|b)c', '(?!a|b)c', '(?<!a|b)c', '(?>a|b)c', '(?<n>a|b)c', 'x(?:)y', '(?:)|a', 'a|(?:)', '[\\w.-]+', '[.*]', '[a^]', '[\\^a]', '[\\x41-\\x43x]', '[\\d\\-x]', '[\\R-z]', '[+--]', '[\\b]', 'a\\bb', '\\Aab\\Z', '\\n\\t', '\\0', '[\\0]', 'a++b', 'a?+', 'a??b', 'a*?b', 'a{2}?b', 'a{2}+b', 'a{2,3}?b', 'a{2,3}+b']


def c15(r, th=False):
    core(r, th)


def c16(r, th=False):
    import pats
    ok = [p for p in PARSE if rx.parse(p).error is None and rx.usable(rx.parse(p))]
    r.cross(ok, 'match', iters='p', L=4)
    r.cross(ok, 'search', iters='f', L=3)
    r.cross(ok[::2], 'prefix', flags=('i', 'U'), iters='r', L=3)
    r.cross(SEQ + ALT + ATOM[::2] + CAP[::2] + LOOK[::2] + ANCH[::2], 'match', iters='p', L=3)
    r.cross(CLASS, 'match', iters='p', L=2)
    n = 0
    for p in pats.trees(77, 1500, 3):
        q = rx.parse(p)
        if q.error is None and not q.invalid and rx.usable(q) and len(p) < 24 and p.count('*') + p.count('+') + p.count(',') < 4 and p.count('\\b') < 2 and len(set(q.names)) == len([x for x in p.split('(?<n')[1:]]):
            r.add(p, 'match', '', 'p', 3)
            n += 1
            if n >= (600 if th else 250):
                break
    core(r, th)


def c17(r, th=False):
    r.cross(CAP, 'match', iters='p', L=3)
    r.cross(CAP[::2], 'search', iters='b', L=3)
    r.cross([b for b in BREF if 'k<' in pl(b, 3)[0]], 'match', iters='p', L=3)
    named = ['(?<n>a)', '(?<n>a)|(?<m>b)', '(?<n>a)(b)(?<m>c)', '(?<x>(?<y>a)b?)(?<z>c)', '(?<n>a*)(?<m>b*)', '(a)(?<n>b)', '(?<n>a)(b)', '(?:(?<n>a)|(b)|(?<m>c))+', '(?<ab>a)(?<a>b)', '(?<a>a)(?<ab>b)', '(?<A>a)(?<a>b)', '(?<_>a)(?<_1>b)', '(?=(?<n>a)).', '(?<=(?<n>a))(?<m>b)', '(?<n>a)?(?<m>b)?', '((?<n>a)(?<m>b))', '(?>(?<n>a)|(?<m>ab))c', '(?<longer_name_1>a)(?<longer_name_2>b)(?<longer_name>c)', '(?<n>.)\\k<n>(?<m>.)', '(a)(b)(c)(?<d>d)(e)']
    for p in named:
        for m in ('match', 'match_prefix', 'search'):
            r.emit(lit_regex(p), res_of(p), '/%s/' % p, 'named', '', 'p' if m != 'search' else 'b', 4, extra=m)
    core(r, th)


def c18(r, th=False):
    import xprgen
    n = 0
    for e, q in xprgen.systematic():
        w = xprgen.weight(q.ast)
        n += 1
        big = xprgen.size(q.ast) > 7
        it = 'b' if n % 3 == 0 else 'p' if n % 3 == 1 else 'r'
        r.emit('std::remove_cvref_t<decltype([] { using namespace meta::xpr::operators; return %s; }())>' % e if True else e, q, e, ('match', 'prefix', 'search')[n % 3], '', it, 3)
    for e, q in xprgen.expressions(41, 1200 if th else 320, 3):
        if xprgen.weight(q.ast) > 2 or xprgen.size(q.ast) > 40:
            continue
        r.emit('std::remove_cvref_t<decltype([] { using namespace meta::xpr::operators; return %s; }())>' % e, q, e, ('match', 'prefix', 'search')[n % 3], '', 'pbr'[n % 3], 2)
        n += 1
    for e, q in xprgen.expressions(42, 200 if th else 60, 2):
        for f in ('i', 'mU', 's'):
            regex = 'decltype(meta::xpr::add_flags<%s>([] { using namespace meta::xpr::operators; return %s; }()))' % (', '.join('meta::regex_flag::' + FLAGNAME[x] for x in f), e)
            r.emit(regex, q, e + ' with the flags ' + f, 'search', f, 'p', 2)
    core(r, th)


def c19(r, th=False):
    ps = ['a', '(a)', '(a)(?<n>b)?', '(a)|(b)', '(a*)b', '(?:(a)|b)*c', '(.)(.)?', '', '(?=a)', '^(a)?', '(a)(b)(c)', '(?<x>a*)(?<y>b*)']
    for k, p in enumerate(ps):
        q = res_of(p)
        for m in ('match', 'match_prefix', 'search'):
            for v in range(18):
                its = 'p' if v in (6, 7, 15) else 'pr' if v == 10 else 'pfr' if k < 4 else 'p'
                for it in its:
                    r.emit(lit_regex(p), q, '/%s/' % p, 'via%d' % v, '', it, 4 if it == 'p' and k < 6 else 3, extra=m)
            r.emit(lit_regex(p), q, '/%s/' % p, 'sv', '', 'p', 4, extra=m)
            for v in range(14):
                if (v + k) % 3 == ('match', 'match_prefix', 'search').index(m) or th:
                    r.emit(lit_regex(p), q, '/%s/' % p, 'own_%d' % v, '', 'pfr'[v % 3], 3, extra=m)
                    if v != 11 or 'r' not in 'pfr'[v % 3]:
                        r.emit(lit_regex(p), q, '/%s/' % p, 'read_%d' % v, '', 'p' if v == 11 else 'prb'[v % 3], 3, extra=m)
            for it in 'pfb':
                r.emit(lit_regex(p), q, '/%s/' % p, 'bytes', '', it, 3, extra=m)
                r.emit(lit_regex(p), q, '/%s/' % p, 'owner', '', it, 3, extra=m)
            r.emit(lit_regex(p), q, '/%s/' % p, 'ostream', '', 'p', 3, extra=m)
            for c in ('std::string', 'pr::box', 'pr::span'):
                r.emit(lit_regex(p), q, '/%s/' % p, 'expiring ' + c, '', 'p', 3, extra=m)
            for c in ('std::string', 'std::string const', 'pr::box', 'std::string_view'):
                r.emit(lit_regex(p), q, '/%s/' % p, 'lvalue ' + c, '', 'p', 3, extra=m)
    for p in ['(a*)(b)?', 'a{20}(a*)', '(?:(a)|b)*', '.*']:
        q = res_of(p)
        for m in ('match', 'match_prefix'):
            for v in ('owner', 'bytes', 'expiring std::string', 'expiring pr::box', 'lvalue std::string', 'own_2', 'own_6', 'own_7', 'own_10', 'read_8', 'sv'):
                r.emit(lit_regex(p), q, '/%s/' % p, v, '', 'p', 36 if 'box' not in v else 16, extra=m, form=(13, 1, 'a'))
    core(r, th)


def c20(r, th=False):
    fam = CORE + SEQ[::4] + ALT[::4] + ATOM[::4] + CAP[::4] + BREF[::4] + LOOK[::4] + ANCH[::4] + TERM[::6] + CLASS[::6] + ['a{2}', 'a{2,}', 'a{1,3}?', 'a{3}+', '(?:ab){2}', '(?:ab){1,}?', '(?:a|b){2,}+']
    one = 'extern "C" void I_NAME(char const *b, char const *e) { pr::obs_result<NC>(RE::match(pr::at<IT>(b), pr::at<IT>(e))); pr::obs_result<NC>(RE::match_prefix(pr::at<IT>(b), pr::at<IT>(e))); pr::obs_result<NC>(RE::search(pr::at<IT>(b), pr::at<IT>(e))); }'
    rng = 'extern "C" void I_NAME(char const *b, char const *e) { pr::obs_gen<NC, 2>(RE::tokenizer(pr::at<IT>(b), pr::at<IT>(e))); pr::obs_gen<NC, 2>(RE::searcher(pr::at<IT>(b), pr::at<IT>(e))); pr::obs_range<NC, 2>(RE::tokenize(pr::at<IT>(b), pr::at<IT>(e))); pr::obs_range_iter<NC, 2>(RE::find_all(pr::at<IT>(b), pr::at<IT>(e))); }'
    acc = 'extern "C" void I_NAME(char const *b, char const *e) { [&]<int... K>(std::integer_sequence<int, K...>) { (pr::obs_via<K, NC>(RE::search(std::string_view(b, e - b))), ...); }(std::make_integer_sequence<int, 18>{}); }'
    for k, p in enumerate(fam):
        p, L = pl(p, 3)
        q = res_of(p)
        for it in 'pfbr':
            if it == 'f' and rx.uses_behind(q.ast):
                continue
            for f in ('', 'imsUu'):
                r.emit(lit_regex(p, f), q, '/%s/%s' % (p, f), 'effects', f, it, 3, opts=('--effects',), extra=one)
        r.emit(lit_regex(p), q, '/%s/' % p, 'effects', '', 'p', 3, opts=('--effects',), extra=rng)
        r.emit(lit_regex(p), q, '/%s/' % p, 'effects', '', 'p', 3, opts=('--effects',), extra=acc)
        r.emit(lit_regex(p), q, '/%s/' % p, 'twice', '', 'p', min(L, 3), opts=('--pure',), extra=('match', 'match_prefix', 'search')[k % 3])
        r.emit(lit_regex(p), q, '/%s/' % p, ('tokenizer', 'searcher', 'find_all', 'tokenize')[k % 4], '', 'p', 2, opts=('--pure', '--safety'), n=3)
    k = len(r.units)
    core(r, th)
    for u in r.units[k:]:
        u.opts = ('--pure', '--safety')
