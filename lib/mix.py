"""Small patterns that combine the features of a property with everything else (fixed seed: the same on every run)."""
import random
import rx

ATOMS = ['a', 'b', 'c', '.', '[ab]', '[^a]', 'a', 'b', '\\w', '\\n', '[a-c]', 'ab', 'ba']
QUANT = ['*', '+', '?', '{2}', '{1,2}', '{0,2}', '{2,}', '{2,3}', '{0}', '{1}', '{1,}', '{3}']
WRAP = {
    'group': ['(?:%s)'],
    'cap': ['(%s)', '(%s)', '(?<n%d>%%s)'],
    'atomic': ['(?>%s)'],
    'look': ['(?=%s)', '(?!%s)', '(?<=%s)', '(?<!%s)'],
}


class Gen:
    def __init__(self, seed, feature):
        self.rnd = random.Random('%s/%s' % (seed, feature))
        self.feature = feature

    def quant(self, x, allow_possessive=True):
        r = self.rnd
        m = r.random()
        if self.feature == 'atomic' and m < .6:
            suf = '+'
        elif m < .5:
            suf = ''
        elif m < .78:
            suf = '?'
        else:
            suf = '+'
        return x + r.choice(QUANT) + suf

    def atom(self):
        r = self.rnd
        if self.feature == 'anchor' and r.random() < .45:
            return r.choice(['^', '$', '\\A', '\\Z', '\\b', '\\B', '\\n', '[\\r\\n]', '.', '\\w'])
        if self.feature == 'class' and r.random() < .5:
            return r.choice(['[^\\w]', '[\\d-]', '\\D', '\\S', '[\\x80-\\xff]', '[]', '[^]', '\\N', '\\R', '[^\\n]', '[b-y]', '[Z-b]', '\\x41', '_', '[^a-z]', '[\\W\\d]', '\\.', '-'])
        return r.choice(ATOMS)

    def gen(self, d):
        r = self.rnd
        k = r.random()
        if d <= 0 or k < .12:
            return self.atom()
        if k < .42:
            return ''.join(self.gen(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k < .54:
            return '(?:%s)' % '|'.join(self.gen(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k < .78:
            x = self.gen(d - 1)
            if len(x) > 1 and not (x[0] == '[' and x.count('[') == 1 and x[-1] == ']') and not (x[0] == '\\' and len(x) == 2 and x[1] not in 'bBAZ'):
                x = ('(%s)' if r.random() < .3 else '(?:%s)') % x
            elif x in ('^', '$') or x[:2] in ('\\b', '\\B', '\\A', '\\Z'):
                x = '(?:%s)' % x
            return self.quant(x)
        if k < .88:
            return '(%s)' % self.gen(d - 1)
        return r.choice(WRAP[r.choice(['atomic', 'look'])]) % self.gen(d - 1)

    def special(self, d):
        """a part that has the feature"""
        r = self.rnd
        f = self.feature
        g = self.gen
        if f == 'atomic':
            return '(?>%s)' % g(d) if r.random() < .5 else '(?:%s)%s+' % (g(d), r.choice(QUANT))
        if f == 'look':
            return r.choice(WRAP['look']) % g(d)
        if f == 'cap':
            return '(%s)' % g(d) if r.random() < .4 else '(?:%s)%s' % ('|'.join(('(%s)' % g(0)) if r.random() < .6 else g(1) for _ in range(2)), r.choice(['', '*', '+', '?', '{2}', '{1,2}', '*?', '++', '*+']))
        if f == 'bref':
            return '(%s)%s\\1%s' % (r.choice(['a', '.', '[ab]', 'a|b', 'ab', 'a*', 'a?', 'a|ab', '..']), g(0) if r.random() < .6 else '', r.choice(['', '', '*', '?', '+', '{2}', '*?', '?+']))
        if f == 'alt':
            return '(?:%s)' % '|'.join(g(r.choice([0, 0, 1])) for _ in range(r.choice([2, 3])))
        if f == 'rep':
            x = g(r.choice([0, 1]))
            return self.quant('(?:%s)' % x)
        if f == 'empty':
            x = r.choice(['a?', 'a*', '(?:)', '()', '^', '$', '\\b', '(?=a)', 'a{0,2}', 'a|(?:)', '(?:)|a', 'a??', '(a)?', 'a?b?', '(?!a)', '(?<=a)', 'b*a*'])
            return '(?:%s)%s' % (x, r.choice(['*', '+', '{2,}', '*?', '+?', '*+', '++', '{1,}', '{2,3}']))
        if f == 'anchor':
            return r.choice(['^', '$', '\\A', '\\Z', '\\b', '\\B', '(?:^|a)', '(?:$|b)', '(?!^)', '(?<!$)', '\\n^', '$\\n'])
        if f == 'class':
            return self.atom() + self.atom()
        return g(d)

    def pattern(self):
        r = self.rnd
        parts = [self.gen(r.choice([0, 0, 1])), self.special(r.choice([0, 1, 1])), self.gen(r.choice([0, 0, 1]))]
        k = r.random()
        if k < .3:
            parts = parts[1:]
        elif k < .5:
            parts = parts[:2]
        elif k < .6:
            parts = parts[1:2]
        s = ''.join(parts)
        if r.random() < .12:
            s = '(?:%s)%s' % (s, r.choice(['*', '+', '?', '{2}', '*?', '{1,2}']))
        if r.random() < .1:
            s = s + '|' + self.gen(1)
        if r.random() < .05:
            s = r.choice(WRAP['look']) % s + self.gen(0)
        return s


def light(p):
    """the number of partitions stays small"""
    unb = p.count('*') + p.count('+') + p.count(',}')
    opt = p.count('?') - p.count('(?') + p.count(',2}') + p.count(',3}') + p.count('|')
    wide = p.count('\\w') + p.count('\\b') + p.count('\\B')
    return len(p) < 34 and unb <= 4 and unb + opt <= 7 and wide <= 2 and p.count('\\1') < 3 and unb + wide + p.count('\\1') <= 5


def shortest(x):
    t = x[0]
    if t == 'cls':
        return 1
    if t == 'seq':
        return sum(map(shortest, x[1]))
    if t == 'alt':
        return min(map(shortest, x[1]))
    if t == 'grp':
        return shortest(x[3])
    if t == 'atom':
        return shortest(x[1])
    if t == 'rep':
        return x[2] * shortest(x[4])
    return 0


def into(r, feature, count, seed=1, methods=('match', 'prefix', 'search'), iters='pfrb', flags=('', '', '', 'i', 'U', 'u', 'm', 's', 'mU', 'iu'), cap=5):
    """adds one root per pattern, with varying methods, iterators and flags"""
    rnd = random.Random('%s.%s' % (seed, feature))
    for p in patterns(seed, feature, count):
        n = shortest(rx.parse(p).ast)
        m, f, it = rnd.choice(methods), rnd.choice(flags), rnd.choice(iters)
        L = min(max(3, n + 1), cap)
        if heavy(p, f):   # fewer partitions: shorter inputs, and no search where those would not reach a match
            if m == 'search' and n > 3:
                m = 'prefix'
            L = min(L, 3 if m == 'search' else 4)
        elif m == 'search':
            L = min(L, 4)
        r.add(p, m, f, it, L)


def heavy(p, f):
    return 'i' in f or any(x in p for x in ('\\w', '\\W', '\\N', '\\S', '\\D', '\\b', '\\B', '\\1', '[', '\\R'))


def patterns(seed, feature, count):
    g = Gen(seed, feature)
    seen = set()
    tries = 0
    while len(seen) < count and tries < count * 60:
        tries += 1
        p = g.pattern()
        if p in seen or not light(p):
            continue
        q = rx.parse(p)
        if q.error is not None or q.invalid or not rx.usable(q):
            continue
        seen.add(p)
        yield p
