#!/usr/bin/env python3
"""Behaviour preserving edits on which all checks have to stay quiet: refactor.py [NAME...]

Each edit is applied to a scratch copy of /repo; every function is compared with the reference model and the
rules are run, as the checks do. --build also compiles the edited files, --all compares all functions instead of those of the edited files."""
import json, os, subprocess, sys, time, traceback
import multiprocessing
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
W = '/tmp/refactorwork'
from refactorings import EDITS
import check
import refactorings_b, refactorings_c, refactorings_d, refactorings_e, refactorings_f, refactorings_g, refactorings_h, refactorings_i, refactorings_j, refactorings_k, refactorings_l


def apply(root, subs):
    files = []
    for f, a, b in subs:
        p = os.path.join(root, f)
        s = open(p, newline='').read()
        if callable(b):
            b = b(a)
        if '\r\n' in s:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        if s.count(a) != 1:
            raise Exception('%s: %d occurrences of %r' % (f, s.count(a), a[:80]))
        open(p, 'w', newline='').write(s.replace(a, b))
        files.append(f)
    return files


def one(name):
    from sa import model, conform, structure, select, rules
    import props, incremental
    root = os.path.join(W, name)
    subprocess.run(['rm', '-rf', root])
    os.makedirs(root)
    subprocess.run(['cp', '-a', '/repo/Projects', root], check=True)
    try:
        files = apply(root, EDITS[name])
        if '--build' in sys.argv:
            for f in sorted(set(files)):
                if f.endswith('.cpp'):
                    r = subprocess.run(['g++', '-fsyntax-only', '-Wall', '-Wextra', '-Werror', '-Wno-unused-value', '-Wno-endif-labels'] + [x for x in model.flags(root, f.split('/')[1]) if x != '-w'][:-2]
                                       + [os.path.join(root, f)], stderr=subprocess.PIPE, text=True)
                    if r.returncode:
                        return name, 'DOES NOT COMPILE ' + r.stderr[:1500]
        t = time.time()
        ref, cur = model.load_reference(), incremental.load(root, files)
        out = []
        anyf = select.selector(['*'])
        names = {os.path.splitext(f)[0] for f in files}
        sel = anyf if '--all' in sys.argv else lambda f: anyf(f) and os.path.splitext(f['file'])[0] in names
        c = conform.Conformance(ref, cur)
        for x in c.check(sel):
            out.append(conform.describe(*x)[:int(os.environ.get("LEN", 2500))])
        for key, file, line, text in structure.check(ref, cur, c.pairs(sel), c)[0]:
            out.append('structure %s:%s %s' % (file, line, text))
        for p in props.P:
            for r in p['rules']:
                for x in rules.run(r, rules.Context(ref, cur, p))[1]:
                    if (p['id'], x['key']) in KNOWN:
                        continue
                    out.append('%s %s %s' % (p['id'], r, x['text']))
        return name, ('quiet %.0f s' % (time.time() - t)) if not out else 'ALARM %d\n' % len(out) + '\n'.join(out)[:int(os.environ.get("LEN", 6000))]
    except Exception:
        return name, 'BROKEN ' + traceback.format_exc()[-800:]
    finally:
        subprocess.run(['rm', '-rf', root])


KNOWN = {k[:2] for k in check.known_findings()}


def main():
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    names = [n for n in EDITS if not names or any(n.startswith(x) for x in names)]
    bad = 0
    import incremental
    incremental.base()
    with multiprocessing.Pool(7, maxtasksperchild=1) as ex:
        for n, r in ex.imap(one, names, 1):
            print(n, r, flush=True)
            bad += not r.startswith('quiet')
    print('%d edits, %d not quiet' % (len(names), bad))
    return bad != 0


if __name__ == '__main__':
    sys.exit(main())
