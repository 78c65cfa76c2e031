"""Reference reading of the pattern language (written from the README's syntax reference and the
documented LL(1) behaviour, not from the library's rule table).

parse(pattern: bytes) -> Result with either .ast or .error (index of the first character that cannot
continue any valid pattern; len(pattern) if the pattern is incomplete).

AST nodes are tuples:
  ('empty',) ('any',) ('cls', neg, items) with items = [(lo, hi) | ('not', items)]
  ('bol',) ('eol',) ('boi',) ('eoi',) ('wb', neg)
  ('seq', [..]) ('alt', [..]) ('grp', index, name|None, x) ('atom', x)
  ('look', dir, neg, x) ('rep', mode, lo, hi|None, x) ('bref', n) ('nbref', name)
"""
from dataclasses import dataclass, field

DIGIT = [(48, 57)]
WORD = [(97, 122), (65, 90), (48, 57), (95, 95)]
SPACE = [(32, 32), (9, 13)]
NL = [(10, 10), (13, 13)]
SIZE_MAX = 2 ** 64 - 1


class SyntaxErr(Exception):
    def __init__(self, pos):
        self.pos = pos


@dataclass
class Result:
    ast: object = None
    error: object = None
    ncaps: int = 0
    invalid: bool = False     # a range or a quantifier with reversed bounds: never compiles
    names: dict = field(default_factory=dict)


def lit(c):
    return ('cls', False, [(c, c)])


def is_digit(c):
    return 48 <= c <= 57


def is_name0(c):
    return 97 <= (c | 32) <= 122 and c < 128 or c == 95


def is_name(c):
    return is_name0(c) or is_digit(c)


CONTROL = {'0': 0, 'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, 'a': 7, 'e': 27}
CLASSES = {'d': (False, DIGIT), 'D': (True, DIGIT), 'w': (False, WORD), 'W': (True, WORD),
           's': (False, SPACE), 'S': (True, SPACE), 'R': (False, NL), 'N': (True, NL)}


class Parser:
    def __init__(self, p):
        self.p = p
        self.i = 0
        self.n = 0
        self.names = {}
        self.invalid = False

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else None

    def ch(self):
        c = self.peek()
        return None if c is None else chr(c)

    def err(self):
        raise SyntaxErr(self.i)

    def top(self):
        if not self.p:
            return ('empty',)
        x = self.alternatives()
        if self.i != len(self.p):
            self.err()
        return x

    def alternatives(self):
        alts = [self.sequence()]
        while self.ch() == '|':
            self.i += 1
            alts.append(self.sequence())
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def sequence(self):
        items = []
        while True:
            c = self.ch()
            if c is None or c in '|)':
                if not items:
                    self.err()
                break
            if c in '*+?{':
                self.err()
            self.item(items)
        return items[0] if len(items) == 1 else ('seq', items)

    def item(self, items):
        c = self.ch()
        quant = True
        if c == '^':
            self.i += 1
            x, quant = ('bol',), False
        elif c == '$':
            self.i += 1
            x, quant = ('eol',), False
        elif c == '.':
            self.i += 1
            x = ('any',)
        elif c == '[':
            x = self.set()
        elif c == '(':
            x = self.group()
        elif c == '\\':
            self.i += 1
            x, quant = self.escape()
        else:
            self.i += 1
            x = lit(ord(c))
        if not quant:
            items.append(x)
            return
        # quantifiers; a '{' that does not start one is a literal
        while True:
            c = self.ch()
            if c is None or c not in '*+?{':
                items.append(x)
                return
            if c == '{':
                self.i += 1
                d = self.peek()
                if d is None or not is_digit(d):
                    items.append(x)
                    x = lit(ord('{'))
                    continue
                lo, hi = self.bounds()
            else:
                self.i += 1
                lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
            mode = 'greedy'
            if self.ch() == '?':
                mode = 'lazy'
                self.i += 1
            elif self.ch() == '+':
                mode = 'possessive'
                self.i += 1
            items.append(('rep', mode, lo, hi, x))
            return

    def number(self):
        v = 0
        while self.peek() is not None and is_digit(self.peek()):
            v = v * 10 + self.peek() - 48
            if v > SIZE_MAX:
                self.err()
            self.i += 1
        return v

    def bounds(self):
        lo = self.number()
        if self.ch() == '}':
            self.i += 1
            return lo, lo
        if self.ch() != ',':
            self.err()
        self.i += 1
        hi = None
        if self.peek() is not None and is_digit(self.peek()):
            hi = self.number()
        if self.ch() != '}':
            self.err()
        self.i += 1
        if hi is not None and hi < lo:
            self.invalid = True
        return lo, hi

    def group(self):
        self.i += 1
        if self.ch() != '?':
            self.n += 1
            k = self.n
            x = ('empty',) if self.ch() == ')' else None
            if x is None:
                if self.ch() is None:
                    self.err()
                x = self.alternatives()
            self.close()
            return ('grp', k, None, x)
        self.i += 1
        c = self.ch()
        if c == ':':
            self.i += 1
            return self.body()
        if c == '>':
            self.i += 1
            return ('atom', self.body())
        if c in ('=', '!') and c:
            self.i += 1
            return ('look', 1, c == '!', self.body())
        if c == '<':
            self.i += 1
            c = self.ch()
            if c is not None and c in '=!':
                self.i += 1
                return ('look', -1, c == '!', self.body())
            name = self.name()
            self.n += 1
            k = self.n
            self.names.setdefault(name, k)
            return ('grp', k, name, self.body())
        self.err()

    def name(self):
        s = self.i
        if self.peek() is None or not is_name0(self.peek()):
            self.err()
        while self.peek() is not None and is_name(self.peek()):
            self.i += 1
        r = self.p[s:self.i].decode()
        if self.ch() != '>':
            self.err()
        self.i += 1
        return r

    def body(self):
        if self.ch() == ')':
            x = ('empty',)
        else:
            if self.ch() is None:
                self.err()
            x = self.alternatives()
        self.close()
        return x

    def close(self):
        if self.ch() != ')':
            self.err()
        self.i += 1

    def hex(self):
        v = 0
        for _ in range(2):
            c = self.ch()
            if c is None or c not in '0123456789abcdefABCDEF':
                self.err()
            v = v * 16 + int(c, 16)
            self.i += 1
        return v

    def escape(self):
        c = self.ch()
        if c is None:
            self.err()
        self.i += 1
        if c in CONTROL:
            return lit(CONTROL[c]), True
        if c in CLASSES:
            neg, items = CLASSES[c]
            return ('cls', neg, items), True
        if c == 'b':
            self.noquant()
            return ('wb', False), False
        if c == 'B':
            self.noquant()
            return ('wb', True), False
        if c == 'A':
            self.noquant()
            return ('boi',), False
        if c == 'Z':
            self.noquant()
            return ('eoi',), False
        if c == 'x':
            return lit(self.hex()), True
        if c == 'k':
            if self.ch() != '<':
                self.err()
            self.i += 1
            return ('nbref', self.name()), True
        if '1' <= c <= '9':
            self.i -= 1
            return ('bref', self.number()), True
        return lit(ord(c)), True

    def noquant(self):
        c = self.ch()
        if c is not None and c in '*+?{':
            self.err()

    def set_escape(self, bound):
        """after the backslash: (single char, None) or (None, item)"""
        c = self.ch()
        if c is None:
            self.err()
        if c in CLASSES and bound:
            self.err()
        self.i += 1
        if c == 'b':
            return 8, None
        if c in CONTROL:
            return CONTROL[c], None
        if c in CLASSES:
            neg, items = CLASSES[c]
            return None, (('not', items) if neg else ('in', items))
        if c == 'x':
            return self.hex(), None
        return ord(c), None

    def set(self):
        self.i += 1
        neg = False
        if self.ch() == '^':
            neg = True
            self.i += 1
        items = []
        last = None      # the single character a range could start from
        first = True
        after_range = False
        while True:
            c = self.ch()
            if c is None:
                self.err()
            if c == ']':
                self.i += 1
                return ('cls', neg, items)
            if c == '-' and not first and not after_range:
                self.i += 1
                d = self.ch()
                if d is None:
                    self.err()
                if d == ']':
                    items.append((45, 45))
                    continue
                if d == '\\':
                    self.i += 1
                    v, _ = self.set_escape(True)
                else:
                    v = ord(d)
                    self.i += 1
                if last is not None:
                    if last > v:
                        self.invalid = True
                    items[-1] = (last, v)
                else:
                    items += [(45, 45), (v, v)]
                last = None
                after_range = True
                continue
            after_range = False
            first = False
            if c == '\\':
                self.i += 1
                v, item = self.set_escape(False)
                if item is not None:
                    items.append(item)
                    last = None
                    continue
            else:
                v = ord(c)
                self.i += 1
            items.append((v, v))
            last = v


def parse(p):
    if isinstance(p, str):
        p = p.encode('latin-1')
    q = Parser(p)
    r = Result()
    try:
        r.ast = q.top()
        r.ncaps = q.n
        r.names = q.names
    except SyntaxErr as e:
        r.error = e.pos
    r.invalid = q.invalid
    return r


# --- well-formedness beyond the syntax: only such patterns can be matched with -----------------
def usable(r):
    if r.error is not None:
        return False
    ok = True

    def cls(items):
        nonlocal ok
        for it in items:
            if it[0] in ('not', 'in'):
                cls(it[1])
            elif it[0] > it[1]:
                ok = False

    def go(x):
        nonlocal ok
        t = x[0]
        if t == 'cls':
            cls(x[2])
        elif t in ('seq', 'alt'):
            for y in x[1]:
                go(y)
        elif t == 'grp':
            go(x[3])
        elif t == 'atom':
            go(x[1])
        elif t == 'look':
            go(x[3])
        elif t == 'rep':
            if x[3] is not None and x[3] < x[2]:
                ok = False
            go(x[4])
        elif t == 'bref':
            if not 1 <= x[1] <= r.ncaps:
                ok = False
        elif t == 'nbref':
            if x[1] not in r.names:
                ok = False
    go(r.ast)
    return ok


# --- C++ renderings ---------------------------------------------------------------------------
def ref_type(x, names):
    """the reference matcher (namespace R) of an AST"""
    t = x[0]
    if t == 'empty':
        return 'eps'
    if t == 'any':
        return 'any'
    if t == 'cls':
        s = cls_type(x[2])
        return 'notc<%s>' % s if x[1] else s
    if t == 'bol':
        return 'bos<true>'
    if t == 'eol':
        return 'eos<true>'
    if t == 'boi':
        return 'bos<false>'
    if t == 'eoi':
        return 'eos<false>'
    if t == 'wb':
        return 'wordb<%s>' % ('true' if x[1] else 'false')
    if t in ('seq', 'alt'):
        return '%s<%s>' % (t, ', '.join(ref_type(y, names) for y in x[1]))
    if t == 'grp':
        return 'grp<%d, %s>' % (x[1], ref_type(x[3], names))
    if t == 'atom':
        return 'atom<%s>' % ref_type(x[1], names)
    if t == 'look':
        return 'look<%d, %s, %s>' % (x[1], 'true' if x[2] else 'false', ref_type(x[3], names))
    if t == 'rep':
        return 'rep<%s, %d, %s, %s>' % (x[1].upper(), x[2], 'INFTY' if x[3] is None else str(x[3]), ref_type(x[4], names))
    if t == 'bref':
        return 'bref<%d>' % x[1]
    if t == 'nbref':
        return 'bref<%d>' % names[x[1]]
    raise ValueError(t)


def cls_type(items):
    r = []
    for it in items:
        if it[0] == 'not':
            r.append('notc<%s>' % cls_type(it[1]))
        elif it[0] == 'in':
            r.append(cls_type(it[1]))
        else:
            r.append('rng<%d, %d>' % it)
    return r[0] if len(r) == 1 else 'cls<%s>' % ', '.join(r)


def uses_behind(x):
    """needs bidirectional iterators"""
    t = x[0]
    if t == 'look' and x[1] < 0:
        return True
    kids = {'seq': x[1:2], 'alt': x[1:2]}.get(t)
    if kids:
        return any(uses_behind(y) for y in kids[0])
    for y in x:
        if isinstance(y, tuple) and y and isinstance(y[0], str) and t in ('grp', 'atom', 'look', 'rep') and uses_behind(y):
            return True
    return False


def cstr(p):
    """a C++ string literal of a pattern (the pattern may contain any byte but NUL at the end)"""
    if isinstance(p, str):
        p = p.encode('latin-1')
    o = ''
    hexed = False
    for b in p:
        c = chr(b)
        if b < 32 or b > 126:
            o += '\\%03o' % b
        elif c in '"\\?':
            o += '\\' + c
        else:
            o += c
    return '"%s"' % o


# --- normal form (namespace nf of probe/nf.hpp) -------------------------------------------------
def _fold(c):
    return c - 32 if 97 <= c <= 122 else c + 32 if 65 <= c <= 90 else c


def cls_bits(items):
    """(case sensitive, case folding) as 256-bit integers"""
    s = f = 0
    full = (1 << 256) - 1
    for it in items:
        if it[0] in ('not', 'in'):
            a, b = cls_bits(it[1])
            if it[0] == 'not':
                a, b = full & ~a, full & ~b
        else:
            a = b = 0
            for c in range(it[0], it[1] + 1):
                a |= 1 << c
                b |= 1 << c | 1 << _fold(c)
        s |= a
        f |= b
    return s, f


def _words(v):
    return [(v >> (64 * i)) & ((1 << 64) - 1) for i in range(4)]


def nf(x, ids=True):
    t = x[0]
    if t == 'empty':
        return 'nf::eps'
    if t == 'any':
        return 'nf::any'
    if t == 'cls':
        s, f = cls_bits(x[2])
        if x[1]:
            s, f = ((1 << 256) - 1) & ~s, ((1 << 256) - 1) & ~f
        return 'nf::cls<%s>' % ','.join('%#xull' % w for w in _words(s) + _words(f))
    if t in ('bol', 'eol', 'boi', 'eoi'):
        return 'nf::' + t
    if t == 'wb':
        return 'nf::neg<nf::wb>' if x[1] else 'nf::wb'
    if t == 'seq':
        out = []
        def go(y):
            if y[0] == 'seq':
                for z in y[1]:
                    go(z)
            elif y[0] == 'rep' and y[2] == y[3] == 1 and y[1] != 'possessive':
                go(y[4])
            elif y[0] != 'empty':
                out.append(nf(y))
        go(x)
        return 'nf::eps' if not out else out[0] if len(out) == 1 else 'nf::seq<%s>' % ','.join(out)
    if t == 'alt':
        out = []
        def go(y):
            if y[0] == 'alt':
                for z in y[1]:
                    go(z)
            elif y[0] == 'rep' and y[2] == y[3] == 1 and y[1] != 'possessive':
                go(y[4])
            elif y[0] == 'seq' and len([z for z in y[1] if z[0] != 'empty']) == 1:
                go([z for z in y[1] if z[0] != 'empty'][0])
            else:
                out.append(nf(y))
        go(x)
        return 'nf::alt<%s>' % ','.join(out)
    if t == 'grp':
        return 'nf::cap<%d,%s,%s>' % (x[1], 'nf::noname' if x[2] is None else 'nf::name<"%s">' % x[2], nf(x[3]))
    if t == 'atom':
        return 'nf::rep<2,1,1,%s>' % nf(x[1])
    if t == 'look':
        r = 'nf::look<%d,%s>' % (x[1], nf(x[3]))
        return 'nf::neg<%s>' % r if x[2] else r
    if t == 'rep':
        m = {'greedy': 0, 'lazy': 1, 'possessive': 2}[x[1]]
        if x[2] == x[3] and m == 1:
            m = 0
        if x[2] == x[3] == 1 and m == 0:
            return nf(x[4])
        return 'nf::rep<%d,%dull,%s,%s>' % (m, x[2], 'std::size_t(-1)' if x[3] is None else '%dull' % x[3], nf(x[4]))
    if t == 'bref':
        return 'nf::bref<%dull>' % x[1]
    if t == 'nbref':
        return 'nf::nbref<"%s">' % x[1]
    raise ValueError(t)
