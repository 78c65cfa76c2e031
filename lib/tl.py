"""Type-level obligations: static assertions about the types the library produces, decided by the
compiler's semantic analysis (no code is generated or run)."""
import concurrent.futures as cf
import re, time
import drv


class Ob:
    def __init__(self, name, expr, what, decl=''):
        self.name, self.expr, self.what, self.decl = name, expr, what, decl


def run_obs(w, obs, prelude='#include "nf.hpp"\n#include <string>\n#include <optional>\nusing namespace meta::xpr::operators;\n', batch=250, deadline=None, tag='t'):
    """-> {name: (status, detail, site)}, status in ok | violation | uncompilable | inconclusive"""
    res = {}

    def do(tag, us):
        if deadline is not None and time.time() > deadline - 5:
            return {u.name: ('inconclusive', 'time budget of the check', '') for u in us}
        src = w.path(tag + '.cpp')
        with open(src, 'w') as f:
            f.write(prelude)
            for k, u in enumerate(us):
                f.write('%s\nstatic_assert(%s, "OBL:%d:");\n' % (u.decl, u.expr, k))
        base = [x for x in drv.BASE if not x.startswith('-ferror-limit')]
        rc, o, e = drv.run([drv.CLANG] + base + ['-ferror-limit=0', '-fsyntax-only', src], timeout=300)
        if rc == 0:
            return {u.name: ('ok', '', '') for u in us}
        bad, other = {}, False
        for l in e.splitlines():
            m = re.search(r'error: static assertion failed.*OBL:(\d+):', l)
            if m:
                bad[int(m.group(1))] = drv.short(l.split('error: ', 1)[1])[:300]
            elif 'error:' in l:
                other = True
        if not other and bad:
            return {u.name: (('violation', bad[k], '') if k in bad else ('ok', '', '')) for k, u in enumerate(us)}
        if len(us) == 1:
            msg, place = drv.first_error(e)
            if rc == 124:
                return {us[0].name: ('inconclusive', 'compiler time-out', '')}
            return {us[0].name: ('uncompilable', msg or e[:300], place)}
        h = max(1, len(us) // 8)
        r = {}
        for k in range(0, len(us), h):
            r.update(do('%s_%d' % (tag, k), us[k:k + h]))
        return r

    bs = [obs[i:i + batch] for i in range(0, len(obs), batch)]
    with cf.ThreadPoolExecutor(drv.JOBS) as ex:
        for r in ex.map(lambda p: do('%s%d' % (tag, p[0]), p[1]), enumerate(bs)):
            res.update(r)
    return res


def run_fails(w, fails, deadline=None):
    """-> {name: (status, detail)}: a witness that compiles is a violation"""
    def do(f):
        if deadline is not None and time.time() > deadline - 5:
            return f.name, ('inconclusive', 'time budget of the check', '')
        rc, e = drv.syntax_only(w, 'fail_' + f.name, f.code)
        if rc == 0:
            return f.name, ('violation', 'compiles', '')
        if rc == 124:
            return f.name, ('inconclusive', 'compiler time-out', '')
        return f.name, ('ok', drv.first_error(e)[0], '')
    with cf.ThreadPoolExecutor(drv.JOBS) as ex:
        return dict(ex.map(do, fails))
