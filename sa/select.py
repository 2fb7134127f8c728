"""Selection of the functions that carry a property."""
import fnmatch
from . import model

# unused code, test support and code that only formats diagnostics
SKIP_FILES = ('Runtime/Interpreter.', 'Utils/MyUnit/', 'Utils/Logger/')


def name(f):
    n = model.short(f['f']).replace('(anonymous namespace)::', '')
    for ns in ('Runtime::', 'Designtime::', 'Common::', 'Core::', 'System::'):
        if n.startswith(ns):
            n = n[len(ns):]
    return n


def matches(f, pat):
    if '@' in pat:
        n, file = pat.split('@')
        return matches(f, n) and file in f['file']
    if '/' in pat:
        return fnmatch.fnmatchcase(f['file'], 'Projects/' + pat) or fnmatch.fnmatchcase(f['file'], '*/' + pat)
    return fnmatch.fnmatchcase(name(f), pat)


def selector(pats):
    pos = [p for p in pats if not p.startswith('-')]
    neg = [p[1:] for p in pats if p.startswith('-')]

    def select(f):
        file = f['file']
        if any(s in file for s in SKIP_FILES):
            return False
        if not any(matches(f, p) for p in pos):
            return False
        return not any(n in file if '/' in n or n[0].isupper() else matches(f, n) for n in neg)
    return select
