"""Expressions of the expression-based API (meta::xpr) together with the tree each one stands for."""
import random
import rx

NOT = lambda items: ('cls', True, items)
LEAF = [
    ("X::chr<'a'>", rx.lit(97)), ("X::chr<'b'>", rx.lit(98)), ("X::chr<'c'>", rx.lit(99)), ("X::chr<'\\xe9'>", rx.lit(0xe9)), ("X::chr<'\\0'>", rx.lit(0)),
    ("X::wildcard", ('any',)), ("X::digit", ('cls', False, rx.DIGIT)), ("X::word", ('cls', False, rx.WORD)), ("X::whitespace", ('cls', False, rx.SPACE)),
    ("X::lower", ('cls', False, [(97, 122)])), ("X::upper", ('cls', False, [(65, 90)])), ("X::linebreak", ('cls', False, rx.NL)), ("X::nothing", ('cls', False, [])),
    ("X::range<'a', 'c'>", ('cls', False, [(97, 99)])), ("X::range<'0', 'A'>", ('cls', False, [(48, 65)])), ("X::range<'\\x01', '\\x7f'>", ('cls', False, [(1, 127)])),
    ("X::range<'\\x7f', '\\xff'>", ('cls', False, [(127, 255)])),
    ('X::str<"ab">', ('seq', [rx.lit(97), rx.lit(98)])), ('X::str<"a">', ('seq', [rx.lit(97)])), ('X::str<"">', ('empty',)), ('X::str<"a.*">', ('seq', [rx.lit(97), rx.lit(46), rx.lit(42)])),
    ('X::empty', ('empty',)), ('X::begin_line', ('bol',)), ('X::end_line', ('eol',)), ('X::begin_input', ('boi',)), ('X::end_input', ('eoi',)), ('X::word_boundary', ('wb', False)),
    ('!X::word_boundary', ('wb', True)), ("!X::chr<'a'>", NOT([(97, 97)])), ("!X::digit", NOT(rx.DIGIT)), ('X::negate(X::word)', NOT(rx.WORD)), ('!X::whitespace', NOT(rx.SPACE)), ("!X::range<'a', 'c'>", NOT([(97, 99)])),
    ("!X::linebreak", NOT(rx.NL)), ("!X::nothing", NOT([])), ('!!X::digit', ('cls', False, rx.DIGIT)),
]
PATS = ['ab', 'a|b', 'a*', '[a-c]', '(?:ab)+', 'a{2,3}?', '(?=a)', '\\w+', 'a??', '[^\\d]', '(?>a|ab)', 'a++', '^a$']
for p in PATS:
    LEAF.append(('X::regex<%s>' % rx.cstr(p), rx.parse(p).ast))
LEAF = [(e.replace('X::', 'meta::xpr::'), a) for e, a in LEAF]
MODES = ['greedy', 'lazy', 'possessive']


def seq(xs):
    xs = [x for x in xs]
    return xs[0] if len(xs) == 1 else ('seq', xs) if xs else ('empty',)


def alt(xs):
    return xs[0] if len(xs) == 1 else ('alt', xs)


class Gen:
    def __init__(self, rnd, caps=True):
        self.rnd, self.n, self.names, self.caps = rnd, 0, {}, caps

    def leaf(self):
        return self.rnd.choice(LEAF)

    def many(self, d, lo=1, hi=3):
        k = self.rnd.randint(lo, hi)
        r = [self.gen(d) for _ in range(k)]
        return ', '.join(e for e, a in r), [a for e, a in r]

    def gen(self, d):
        rnd = self.rnd
        X = 'meta::xpr::'
        if d == 0 or rnd.random() < .12:
            if self.caps and self.n and rnd.random() < .15:
                i = rnd.randint(1, self.n)
                nm = [k for k, v in self.names.items() if v == i]
                if nm and rnd.random() < .5:
                    return X + 'group_named<"%s">' % nm[0], ('nbref', nm[0])
                return X + 'group<%d>' % i, ('bref', i)
            return self.leaf()
        k = rnd.random()
        if k < .14:
            e, a = self.many(d - 1, 1, 4)
            return X + 'concat(%s)' % e, seq(a)
        if k < .26:
            l, r = self.gen(d - 1), self.gen(d - 1)
            return '(%s >> %s)' % (l[0], r[0]), ('seq', [l[1], r[1]])
        if k < .36:
            l, r = self.gen(d - 1), self.gen(d - 1)
            return '(%s | %s)' % (l[0], r[0]), ('alt', [l[1], r[1]])
        if k < .42:
            e, a = self.many(d - 1, 1, 3)
            return X + 'either(%s)' % e, alt(a)
        if k < .48:
            e, a = self.many(d - 1)
            return X + 'atomic(%s)' % e, ('atom', seq(a))
        if k < .58 and self.caps:
            self.n += 1
            i = self.n
            nm = 'n%d' % i if rnd.random() < .4 else None
            e, a = self.many(d - 1)
            if nm:
                self.names[nm] = i
            return X + 'capture<%d%s>(%s)' % (i, ', "%s"' % nm if nm else '', e), ('grp', i, nm, seq(a))
        if k < .66:
            e, a = self.many(d - 1, 1, 2)
            x = X + rnd.choice(['ahead', 'behind'])
            neg = rnd.random() < .4
            return '%s%s(%s)' % ('!' if neg else '', x, e), ('look', 1 if 'ahead' in x else -1, neg, seq(a))
        # repetition
        if rnd.random() < .2:
            e, a = self.gen(d - 1)
            o = rnd.choice('*+')
            return '(%s%s)' % (o, e), ('rep', 'greedy', 0 if o == '*' else 1, None, a)
        e, a = self.many(d - 1, 1, 2)
        m = rnd.choice(MODES + [None])
        mm = m or 'greedy'
        T = (lambda *t: X + '%s<' + ', '.join(list(map(str, t)) + (['meta::match_mode::' + m] if m else [])) + '>')
        f = rnd.choice(['between', 'at_least', 'exactly', 'zero_or_more', 'one_or_more', 'maybe'])
        lo, hi = rnd.choice([(0, 1), (0, 2), (1, 2), (2, 3), (2, 2), (1, 1), (0, 0), (1, 3)])
        tail = '(%s)' % e
        x = seq(a)
        tmpl = lambda *t: X + f + ('<%s>' % ', '.join(list(map(str, t)) + (['meta::match_mode::' + m] if m else [])) if t or m else '') + tail
        if f == 'between':
            return tmpl(lo, hi), ('rep', mm, lo, hi, x)
        if f == 'at_least':
            return tmpl(lo), ('rep', mm, lo, None, x)
        if f == 'exactly':
            return tmpl(hi), ('rep', mm, hi, hi, x)
        if f == 'zero_or_more':
            return tmpl(), ('rep', mm, 0, None, x)
        if f == 'one_or_more':
            return tmpl(), ('rep', mm, 1, None, x)
        return tmpl(), ('rep', mm, 0, 1, x)


def size(a):
    if not isinstance(a, (tuple, list)):
        return 0
    return (1 if isinstance(a, tuple) else 0) + sum(size(x) for x in a)


def weight(a):
    """how deep repetitions are nested"""
    t = a[0]
    if t in ('seq', 'alt'):
        return max([weight(x) for x in a[1]] + [0])
    if t == 'rep':
        return 1 + weight(a[4])
    if t in ('grp', 'look'):
        return weight(a[3])
    if t == 'atom':
        return weight(a[1])
    return 0


def expressions(seed, count, depth=3, caps=True):
    rnd = random.Random(seed)
    seen = set()
    while count:
        g = Gen(rnd, caps)
        e, a = g.gen(depth)
        if e in seen:
            continue
        seen.add(e)
        count -= 1
        r = rx.Result(ast=a, ncaps=g.n, names=dict(g.names))
        yield e, r


def systematic():
    """every component with every argument count and mode, over simple arguments"""
    A, B, C = ("meta::xpr::chr<'a'>", rx.lit(97)), ("meta::xpr::chr<'b'>", rx.lit(98)), ("meta::xpr::regex<\"c|d\">", rx.parse('c|d').ast)
    X = 'meta::xpr::'
    one = lambda e, a, n=0, names=None: (e, rx.Result(ast=a, ncaps=n, names=names or {}))
    for e, a in LEAF:
        yield one(e, a)
        yield one('(%s >> %s)' % (e, A[0]), ('seq', [a, A[1]]))
        yield one('(%s >> %s)' % (A[0], e), ('seq', [A[1], a]))
        yield one('(%s | %s)' % (e, A[0]), ('alt', [a, A[1]]))
        yield one('(%s | %s)' % (A[0], e), ('alt', [A[1], a]))
        yield one('(*%s)' % e, ('rep', 'greedy', 0, None, a))
        yield one('(+%s)' % e, ('rep', 'greedy', 1, None, a))
        yield one(X + 'maybe(%s)' % e, ('rep', 'greedy', 0, 1, a))
        yield one(X + 'capture<1>(%s)' % e, ('grp', 1, None, a), 1)
        yield one(X + 'capture<1, "nm">(%s)' % e, ('grp', 1, 'nm', a), 1, {'nm': 1})
        yield one(X + 'ahead(%s)' % e, ('look', 1, False, a))
        yield one(X + 'behind(%s)' % e, ('look', -1, False, a))
        yield one('!' + X + 'ahead(%s)' % e, ('look', 1, True, a))
        yield one('!' + X + 'behind(%s)' % e, ('look', -1, True, a))
        yield one(X + 'atomic(%s)' % e, ('atom', a))
    for args in ([A], [B, A], [A, B, C], [C, A], [A, C], [C, C], [A, B, A, B, C]):
        es = ', '.join(e for e, a in args)
        al = [a for e, a in args]
        sq = seq(al)
        yield one(X + 'concat(%s)' % es, sq)
        yield one(X + 'either(%s)' % es, alt(al))
        yield one(X + 'atomic(%s)' % es, ('atom', sq))
        yield one(X + 'capture<1>(%s)' % es, ('grp', 1, None, sq), 1)
        yield one(X + 'capture<1, "x_1">(%s)' % es, ('grp', 1, 'x_1', sq), 1, {'x_1': 1})
        yield one(X + 'ahead(%s)' % es, ('look', 1, False, sq))
        yield one(X + 'behind(%s)' % es, ('look', -1, False, sq))
        for m in ['', 'greedy', 'lazy', 'possessive']:
            t = ', meta::match_mode::' + m if m else ''
            q = '<meta::match_mode::%s>' % m if m else ''
            mm = m or 'greedy'
            for lo, hi in ((0, 1), (0, 3), (1, 2), (2, 3), (2, 2), (0, 0), (1, 1)):
                yield one(X + 'between<%d, %d%s>(%s)' % (lo, hi, t, es), ('rep', mm, lo, hi, sq))
            for n in (0, 1, 2, 3):
                yield one(X + 'at_least<%d%s>(%s)' % (n, t, es), ('rep', mm, n, None, sq))
                yield one(X + 'exactly<%d%s>(%s)' % (n, t, es), ('rep', mm, n, n, sq))
            yield one(X + 'zero_or_more%s(%s)' % (q, es), ('rep', mm, 0, None, sq))
            yield one(X + 'one_or_more%s(%s)' % (q, es), ('rep', mm, 1, None, sq))
            yield one(X + 'maybe%s(%s)' % (q, es), ('rep', mm, 0, 1, sq))
    s2 = X + 'concat(%scapture<1>(%s), %scapture<2, "q">(%s), %sgroup<1>, %sgroup_named<"q">)' % (X, A[0], X, B[0], X, X)
    yield one(s2, ('seq', [('grp', 1, None, A[1]), ('grp', 2, 'q', B[1]), ('bref', 1), ('nbref', 'q')]), 2, {'q': 2})
