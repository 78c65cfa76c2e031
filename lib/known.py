"""Known findings: defects of the library that are recorded rather than repaired.

known-findings.txt holds one entry per line:
    fixed: property=<id> <commit> <what failed>          (suppresses nothing)
    known: property=<id> key=<text that the violation's subject contains> :: <what fails>
A violation is a known finding only if its subject (pattern, method, iterator) contains the key."""
import os, re
import drv

FILE = os.path.join(drv.VERIF, 'known-findings.txt')


def entries():
    out = []
    if os.path.exists(FILE):
        for l in open(FILE, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.rstrip('\n'))
            if m:
                out.append(m.groups())
    return out


ENTRIES = entries()


def match(prop, v):
    for p, key, what in ENTRIES:
        if p == prop and key and key in v['what']:
            return what
    return None
