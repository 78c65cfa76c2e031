"""Pattern corpora for the parser properties."""
import itertools, random
import corpus

ALPHA = 'a^$.*+?{}1,|()[]-\\:<>=!bnxkd0'

# one prefix per state of the parser (what has been read so far, in every nesting context)
STATES = ['', 'a', 'ab', 'a*', 'a+', 'a?', 'a*?', 'a*+', 'a|', 'a|b', '^', '$', '.', 'a^', 'a$', '\\', 'a\\', '\\b', '\\B', '\\A', '\\Z', '\\d', '\\w', '\\D', '\\n', '\\x', '\\x4', '\\x41', '\\xF', '\\k', '\\k<', '\\k<n', '\\k<n1', '\\k<n>', '\\1', '\\12', '\\.',
          'a{', 'a{1', 'a{12', 'a{1,', 'a{1,2', 'a{1,23', 'a{1}', 'a{1,}', 'a{1,2}', 'a{1,2}?', 'a{1,2}+', 'a{}', 'a{,', 'a{a', '.{', '(a){', '\\d{', '[a]{', '\\1{', '\\x41{',
          '(', '(a', '(a)', '(a|', '(a|b', '()', '(?', '(?:', '(?:a', '(?:a)', '(?:)', '(?=', '(?=a', '(?=a)', '(?!', '(?!a', '(?!a)', '(?>', '(?>a', '(?>a)', '(?<', '(?<=', '(?<=a', '(?<=a)', '(?<!', '(?<!a', '(?<!a)', '(?<n', '(?<n1', '(?<n>', '(?<n>a', '(?<n>a)', '((', '((a', '((a)', '(a(', '(?:(', '(a*', '(a{', '(a{1', '(^', '(\\', '([', '([a',
          '[', '[^', '[a', '[^a', '[a-', '[^a-', '[a-c', '[a-c-', '[ab', '[-', '[^-', '[a\\', '[\\', '[^\\', '[\\d', '[\\d-', '[\\D', '[\\D-', '[\\n', '[\\n-', '[\\b', '[\\b-', '[\\x', '[\\x4', '[\\x41', '[\\x41-', '[a-\\', '[a-\\x', '[a-\\x7', '[a-\\x7a', '[\\t-\\n', '[]', '[^]', '[a]', '[^a]', '[a-c]', '[-a', '[a-]', '[\\R', '[\\R-', '[.', '[(', '[\\w', '[\\w-', '[^\\w-', '[\\k', '[\\1']
SUFFIX = ['', 'z', ')', ']', '}', 'z)', 'z]', '>z)', '1}', '0', ',}', '*', '|z']


def exhaustive(n, step=1):
    for k in range(0, n):
        for s in itertools.product(ALPHA, repeat=k):
            yield ''.join(s)
    for s in itertools.islice(itertools.product(ALPHA, repeat=n), 0, None, step):
        yield ''.join(s)


def state_byte(bytes_, suffixes):
    for s in STATES:
        for b in bytes_:
            for x in suffixes:
                yield s + chr(b) + x


NUMBERS = ['0', '1', '2', '9', '10', '11', '19', '20', '99', '100', '101', '123', '255', '256', '257', '1000', '65535', '65536', '99999', '4294967295', '4294967296', '18446744073709551614', '007', '00', '010']
HUGE = ['18446744073709551616', '18446744073709551619', '18446744073709551620', '99999999999999999999', '100000000000000000000', '184467440737095516150', '340282366920938463463374607431768211456']


def numbers():
    for n in NUMBERS + HUGE:
        yield 'a{%s}' % n
        yield 'a{%s,}' % n
        yield 'a{0,%s}' % n
        yield 'a{%s,%s}?' % (n, n)
        yield 'a{%s}+b' % n
        yield '(a)\\%s' % n if n[0] != '0' else 'a\\%s' % n
        yield '\\%s{%s}' % (n, n)
        yield 'a{1,%sx' % n
        yield 'a{%s' % n
    for n in range(0, 130):
        yield 'a{%d}' % n
        yield 'a{%d,%d}' % (n, n + 7)
        yield '(a)\\%d' % n
    for b in range(256):
        yield '\\x%02x' % b
        yield '\\x%02X' % b
        yield '[\\x%02x-\\xff]' % b
        yield '[\\x00-\\x%02X]' % b
        yield '[^\\x%02x]' % b


def names():
    for n in ['a', 'b', 'z', 'A', 'Z', '_', 'a1', 'a_', '_1', 'ab', 'aB', 'Name', 'name_2', 'a9z', 'x0123456789', 'averylongcapturegroupname_with_underscores', '__', 'zZ_9']:
        yield '(?<%s>x)' % n
        yield '(?<%s>x)\\k<%s>' % (n, n)
        yield 'q(?<%s>(y)|z)*\\k<%s>+' % (n, n)
    for n in ['', '1', '1a', '-', 'a-', 'a b', ' a', 'a.', 'é', '9', 'a<', '<', '(', 'a(']:
        yield '(?<%s>x)' % n
        yield '\\k<%s>' % n


def trees(seed, count, depth=3):
    """random well-formed patterns (the seed is fixed: the corpus is the same on every run)"""
    rnd = random.Random(seed)
    atoms = ['a', 'b', '.', '[ab]', '[^a-c]', '\\d', '\\n', '\\x41', '\\.', '-', ']', '}', ',', '[-a]', '[\\w-]']
    quants = ['*', '+', '?', '{2}', '{2,}', '{1,3}', '{0}', '*?', '+?', '??', '{2}?', '*+', '++', '?+', '{1,3}+', '{2,}?']

    def gen(d):
        k = rnd.random()
        if d == 0 or k < .25:
            return rnd.choice(atoms)
        if k < .40:
            return ''.join(gen(d - 1) for _ in range(rnd.randint(2, 4)))
        if k < .52:
            return '|'.join(gen(d - 1) for _ in range(rnd.randint(2, 3)))
        if k < .62:
            return rnd.choice(['(%s)', '(?:%s)', '(?<n%d>%%s)' % rnd.randint(0, 99), '(%s)']) % gen(d - 1)
        if k < .80:
            x = gen(d - 1)
            if len(x) > 1 and not (x[0] == '(' and x[-1] == ')' and x.count('(') == 1):
                x = rnd.choice(['(?:%s)', '(%s)', '(?>%s)']) % x
            if x[-1:] in '*+?}' and len(x) > 1:
                x = '(?:%s)' % x
            return x + rnd.choice(quants)
        if k < .92:
            return rnd.choice(['(?=%s)', '(?!%s)', '(?<=%s)', '(?<!%s)', '(?>%s)', '(?>%s)']) % gen(d - 1)
        return rnd.choice(['^', '$', '\\b', '\\B', '\\A', '\\Z', 'a{', 'a{b', '(?:)', '()'])
    for _ in range(count):
        yield gen(depth)


def arity(th=False):
    """structures of every size: how many members stand before, in and after each kind of part"""
    cls = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\R', '\\N', 'x-z', '\\x41', '\\x41-\\x4f', '\\n', '-', '\\-', '\\n-\\r', '\\]', '.', '^', 'q']
    for neg in ('', '^'):
        for i in range(0, 8):
            for j in (0, 1, 2, 5):
                for c in cls:
                    if c == '-' and i and j:
                        continue
                    if c == '^' and not i:
                        continue
                    yield '[%s%s%s%s]' % (neg, 'abcdefgh'[:i], c, 'ijklmn'[:j])
        for c in cls:
            for d in cls:
                if c in '^-.q' or d in '^-.q':
                    continue
                yield '[%s%s%s]' % (neg, c, d)
                yield '[%sab%scd%se]' % (neg, c, d)
                yield '[%sabc-f%s%s0-9]' % (neg, c, d)
    atoms = ['a', 'b', '.', '[cd]', '\\d', 'e', '(?:f|g)', 'h?', 'i', '\\.', 'j', 'k']
    for i in range(0, 7):
        for j in range(0, 7):
            for k in (0, 1, 2, 4):
                for n, (o, c) in enumerate((('(?:', ')'), ('(', ')'), ('(?>', ')'), ('(?=', ')'), ('(?<!', ')'), ('(?<n>', ')'))):
                    q = ['', '*', '+', '?', '{2}', '{1,3}?', '++'][(i + j + k + n) % 7] if n < 3 else ''
                    yield ''.join(atoms[:i]) + o + 'lmnopq'[:j] + c + q + 'rstu'[:k]
                    yield ''.join('vwxyzab'[:i]) + o + '|'.join('lmnopq'[:j] or ['(?:)']) + c + q + ''.join(atoms[5:5 + k])
                    if i and k:
                        yield '|'.join(atoms[:i]) + '|' + o + '|'.join(atoms[i:i + j] or ['(?:)']) + c + q + '|' + '|'.join('rstu'[:k])
                        yield '|'.join(atoms[:i]) + '|x' + o + ''.join(atoms[:j]) + c + q + '|' + 'rstu'[:k]
    for n in range(1, 14):
        yield ''.join('(%s)' % c for c in 'abcdefghijklm'[:n])
        yield '|'.join('(%s)' % c for c in 'abcdefghijklm'[:n])
        yield '(' * n + 'a' + ')' * n
        yield '(?:' * n + 'a' + ')*' * n
        yield '(?:ab' * n + 'c|d)' * n
        yield ''.join('(?<n%d>%s)' % (i, c) for i, c in enumerate('abcdefghijklm'[:n])) + ''.join('\\k<n%d>' % i for i in range(n))
        yield ''.join('(%s)' % c for c in 'abcdefghijklm'[:n]) + ''.join('\\%d' % (i + 1) for i in range(n))
        yield 'a{' * n + 'b'
        yield 'ab' * n + '|' + 'cd' * n
        yield '(?:' + 'a*b?' * n + ')+'
        yield '[a-b]' * n + '[^' + 'abcdefghijklm'[:n] + ']'


def wide(seed, count):
    """random well-formed patterns with more members per part"""
    rnd = random.Random(seed)
    at = ['a', 'b', 'c', '0', '.', '[ab]', '[^\\dx]', '\\w', '\\R', '\\x41', '-', '^', '$', '\\b', '[ab\\sc]']

    def gen(d):
        k = rnd.random()
        if d == 0 or k < .15:
            return rnd.choice(at)
        if k < .55:
            x = ''.join(gen(d - 1 if rnd.random() < .4 else 0) for _ in range(rnd.randint(2, 8)))
            return rnd.choice(['%s', '(?:%s)', '(%s)', '(?:%s)*', '(?:%s){2,3}', '(?>%s)', '(?=%s)', '(?<!%s)']) % x
        x = '|'.join(gen(d - 1 if rnd.random() < .4 else 0) for _ in range(rnd.randint(2, 7)))
        return rnd.choice(['(?:%s)', '(?:%s)', '(%s)', '(?:%s)+?', '(?:%s)?+', '(?>%s)', '(?!%s)', '(?<=%s)']) % x
    for _ in range(count):
        yield gen(rnd.choice([2, 3]))


def mutations(pats, seed, count):
    rnd = random.Random(seed)
    pats = sorted(pats)
    for _ in range(count):
        p = list(rnd.choice(pats))
        for _ in range(rnd.randint(1, 2)):
            i = rnd.randint(0, len(p))
            k = rnd.random()
            if k < .4:
                p.insert(i, rnd.choice(ALPHA))
            elif k < .7 and p:
                del p[min(i, len(p) - 1)]
            elif p:
                p[min(i, len(p) - 1)] = rnd.choice(ALPHA)
        yield ''.join(p)


def families():
    s = set()
    for f in (corpus.SEQ, corpus.ALT, corpus.ATOM, corpus.CAP, corpus.BREF, corpus.LOOK, corpus.ANCH, corpus.CLASS, corpus.TERM, corpus.PREFIXLIKE):
        for p in f:
            s.add(corpus.pl(p, 0)[0])
    return sorted(s)
