"""Compiles probe translation units against /repo's headers, runs the analyser on their IR and
collects the verdicts."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MREGEX_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.path.join(VERIF, '_build')
MRAI = os.path.join(BUILD, 'mrai')
JOBS = os.cpu_count() or 8
CLANG = 'clang++'
BASE = ['-std=c++20', '-I' + INC, '-I' + os.path.join(VERIF, 'probe'), '-ferror-limit=6', '-w',
        '-fconstexpr-steps=100000000', '-ftemplate-depth=4000', '-fbracket-depth=2000']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-finite-loops', '-gline-tables-only', '-S', '-emit-llvm']


class Broken(Exception):
    pass


class Work:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='mregex-verif-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.dir, n)


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace'), 'timeout'


def build_engine():
    rc, o, e = run(['bash', os.path.join(VERIF, 'engine', 'build.sh'), BUILD], timeout=600)
    if rc or not os.path.exists(MRAI):
        raise Broken('cannot build the analyser: ' + e[-2000:])


def first_error(err):
    """the first error, and the first place in the library it points to"""
    msg, place = '', ''
    for l in err.splitlines():
        if not msg and re.search(r'(fatal )?error:', l):
            msg = l.strip()
        if not place:
            m = re.search(r'(include/mregex[^:]*:\d+)', l)
            if m:
                place = m.group(1)
    return short(msg)[:500], place


def short(s):
    """shortens nested template arguments in names"""
    out, depth = [], 0
    for i, c in enumerate(s):
        if c == '<':
            depth += 1
            if depth == 1:
                out.append('<..>')
            continue
        if c == '>' and depth:
            depth -= 1
            continue
        if not depth:
            out.append(c)
    return ''.join(out) if depth == 0 else s


class Unit:
    """one root: a piece of C++ that defines I_<name> (and R_<name>)"""
    def __init__(self, name, code, what='', L=None, public=True, opts=(), expect=None, group=''):
        self.name, self.code, self.what = name, code, what
        self.L, self.public, self.opts, self.expect, self.group = L, public, tuple(opts), expect, group


PRELUDE = '#include "probe.hpp"\nusing namespace R;\n'


def compile_ir(w, units, tag, prelude=PRELUDE):
    src, ll = w.path(tag + '.cpp'), w.path(tag + '.ll')
    with open(src, 'w') as f:
        f.write(prelude)
        for u in units:
            f.write('// %s\n%s\n' % (u.name, u.code))
    rc, o, e = run([CLANG] + BASE + IRFLAGS + [src, '-o', ll], timeout=400)
    return rc, ll, e


def analyse_ir(ll, units, steps, states, timeout):
    res = {}
    todo = [u for u in units]
    by = {}
    for u in todo:
        by.setdefault((u.L, u.opts), []).append(u)
    for (L, opts), us in by.items():
        cmd = [MRAI, '--steps', str(steps), '--states', str(states)]
        if L is not None:
            cmd += ['--L', str(L)]
        cmd += list(opts) + [ll] + [u.name for u in us]
        rc, o, e = run(cmd, timeout=timeout)
        for l in o.splitlines():
            try:
                j = json.loads(l)
                res[j['root']] = j
            except Exception:
                pass
        for u in us:
            if u.name not in res:
                res[u.name] = {'root': u.name, 'status': 'inconclusive', 'inconclusive': {('analyser: ' + (e[-200:] or 'no answer')): 1}}
    return res


def run_units(w, units, batch=10, steps=20000000, states=150000, timeout=300, prelude=PRELUDE, deadline=None):
    """-> {name: result}; a unit that does not compile gets status 'uncompilable'"""
    names = [u.name for u in units]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    batches = [units[i:i + batch] for i in range(0, len(units), batch)]
    res = {}
    left = lambda: None if deadline is None else deadline - time.time()

    def do(tag, us):
        if deadline is not None and left() < 5:
            return {u.name: {'root': u.name, 'status': 'inconclusive', 'inconclusive': {'time budget of the check': 1}} for u in us}
        rc, ll, err = compile_ir(w, us, tag, prelude)
        if rc:
            if len(us) > 1:
                r = {}
                for k, u in enumerate(us):
                    r.update(do('%s_%d' % (tag, k), [u]))
                return r
            msg, place = first_error(err)
            return {us[0].name: {'root': us[0].name, 'status': 'uncompilable', 'detail': msg, 'sites': [place] if place else [], 'raw': err[:3000]}}
        t = timeout if deadline is None else max(5, min(timeout, left()))
        r = analyse_ir(ll, us, steps, states, t)
        os.unlink(ll)
        return r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(lambda p: do('u%d' % p[0], p[1]), enumerate(batches)):
            res.update(r)
    return res


def sanity(w):
    """the headers have to compile at all"""
    p = w.path('sanity.cpp')
    open(p, 'w').write('#include <mregex.hpp>\nusing re = meta::regex<"a">;\n')
    rc, o, e = run([CLANG] + BASE + ['-fsyntax-only', p], timeout=120)
    if rc:
        raise Broken('the library does not compile: ' + first_error(e)[0])


def syntax_only(w, tag, code, extra=()):
    p = w.path(tag + '.cpp')
    open(p, 'w').write(code)
    rc, o, e = run([CLANG] + BASE + ['-fsyntax-only'] + list(extra) + [p], timeout=400)
    return rc, e
