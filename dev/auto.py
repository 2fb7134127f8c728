#!/usr/bin/env python3
"""Mechanical refactorings of the whole project at once: auto.py MODE[:inner|:outer] ..., auto.py mix:SEED, auto.py mix:SEED --keep, auto.py again:SEED

Every rewrite of a kind that rewrite.cpp finds is applied to a scratch copy of /repo; rewrites that do not compile are
dropped; all functions are then compared with the reference model, as the checks do.  Nothing may be reported."""
import json, os, random, re, subprocess, sys, time
import multiprocessing
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa import model, conform, structure, select, slang
MODES = ['ifswap', 'elseif', 'elseremove', 'condlocal', 'condsplit', 'ifjoin', 'outlinecond', 'fortowhile', 'forbreak', 'itertorange', 'whiletofor', 'whilebreak', 'whiledo',
         'rangeiter', 'rangeiterdirect', 'rangeindex', 'earlyelse', 'guard', 'declswap', 'stmtswap', 'outline', 'outlinebody', 'extract', 'extractret', 'extracttail',
         'retlocal', 'tern', 'retbool', 'demorgan', 'cmpflip', 'cmpnot', 'opassign', 'rhslocal', 'incr', 'arglocal', 'switchif', 'declsplit']
W = '/tmp/autowork'
NAMES = '|'.join(sorted(set(re.findall(r'fresh\("(\w+)"\)', open(os.path.join(V, 'dev', 'rewrite.cpp')).read()))))
TOOL = '/tmp/rewrite'


def build():
    src = os.path.join(V, 'dev', 'rewrite.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) > os.path.getmtime(src):
        return
    L = model.LLVM
    fl = subprocess.run([L + '/bin/llvm-config', '--cxxflags'], capture_output=True, text=True).stdout.split()
    subprocess.run([L + '/bin/clang++', '-O1', '-fno-rtti', '-w'] + fl + ['-c', src, '-o', '/tmp/rewrite.o'], check=True)
    subprocess.run([L + '/bin/clang++', '/tmp/rewrite.o', '-o', TOOL, L + '/lib/libclang-cpp.so.18.1', L + '/lib/libLLVM.so.1'], check=True)


def project(root, f):
    return os.path.relpath(f, os.path.join(root, 'Projects')).split('/')[0]


def candidates(mode, base='/repo'):
    files = model.source_files(base)

    def one(f):
        out = '/tmp/autocand-%d-%s.jsonl' % (os.getpid(), os.path.relpath(f, base).replace('/', '+'))
        r = subprocess.run([TOOL, base, out, mode, f, '--'] + model.flags(base, project(base, f)), capture_output=True, text=True)
        if r.returncode:
            raise Exception(r.stderr[-1000:])
        with open(out) as i:
            l = [json.loads(x) for x in i]
        os.unlink(out)
        return l
    seen, res = set(), []
    with ThreadPoolExecutor(8) as ex:
        for l in ex.map(one, files):
            for c in l:
                e = c['edits'][0]
                k = (e['file'], e['off'])
                if k not in seen:
                    seen.add(k)
                    res.append(c)
    return res


def mixed(base='/repo'):
    """rewrites of all kinds (a fixed random order of them is tried)"""
    cache = '/tmp/autocand-mix%s.json' % base.replace('/', '+')
    newest = max(os.path.getmtime(f) for f in model.source_files(base) + [TOOL])
    if os.path.exists(cache) and os.path.getmtime(cache) > newest:
        return json.load(open(cache))
    res = []
    for m in MODES:
        if m not in ('whiledo', 'outlinebody'):
            for c in candidates(m, base):
                c['mode'] = m
                for e in c['edits']:
                    # names of helpers and locals: one series per kind
                    e['text'] = re.sub(r'\b(%s)(\d+_)(?!\w)' % NAMES, r'\1%s%s\2' % (m, 'x' if base != '/repo' else ''), e['text'])
                res.append(c)
    json.dump(res, open(cache, 'w'))
    return res


def choose(cands, order, dropped):
    """edits that do not overlap"""
    taken, res = {}, []
    if order.isdigit():
        cands = list(cands)
        random.Random(int(order)).shuffle(cands)
    else:
        cands = sorted(cands, key=lambda c: (sum(e['len'] for e in c['edits']) * (1 if order == 'inner' else -1), c['edits'][0]['file'], c['edits'][0]['off']))
    for c in cands:
        if c['id'] in dropped:
            continue
        ok = True
        for e in c['edits']:
            for a, b in taken.get(e['file'], []):
                if e['len'] and e['off'] < b and a < e['off'] + e['len'] or not e['len'] and a < e['off'] < b:
                    ok = False
        if ok:
            for e in c['edits']:
                if e['len']:
                    taken.setdefault(e['file'], []).append((e['off'], e['off'] + e['len']))
            res.append(c)
    return res


def apply(root, chosen, base='/repo'):
    """-> file -> [(first line, last line, candidate)] in the edited file"""
    per = {}
    for c in chosen:
        for e in c['edits']:
            per.setdefault(e['file'], []).append((e['off'], e['len'], e['text'], c))
    where = {}
    for f, es in per.items():
        s = open(f, 'rb').read()
        out, pos, line = [], 0, 1
        lines = where.setdefault(os.path.relpath(f, base), [])
        for off, n, t, c in sorted(es, key=lambda x: (x[0], x[1])):
            if off < pos:
                continue
            a = s[pos:off]
            out.append(a)
            line += a.count(b'\n')
            t = t.encode()
            out.append(t)
            lines.append((line, line + t.count(b'\n'), c))
            line += t.count(b'\n')
            pos = off + n
        out.append(s[pos:])
        open(os.path.join(root, os.path.relpath(f, base)), 'wb').write(b''.join(out))
    return where


def extract(root):
    tool = model.tool_path()

    def one(f):
        out = os.path.join(root, os.path.relpath(f, root).replace('/', '+'))
        r = subprocess.run([tool, root, out, f, '--', '-ferror-limit=0'] + model.flags(root, project(root, f)), capture_output=True, text=True, cwd='/tmp')
        if r.returncode:
            return None, r.stderr
        with open(out) as i:
            return i.readlines(), ''
    lines, err = [], ''
    with ThreadPoolExecutor(8) as ex:
        for l, e in ex.map(one, model.source_files(root)):
            err += e
            lines += l or []
    return lines, err


STATE = {}


def part(k):
    ref, cur, dbg = STATE['ref'], STATE['cur'], STATE.get('only')
    anyf = select.selector(['*'])
    import zlib
    sel = lambda f: anyf(f) and zlib.crc32(f['id'].encode()) % 32 == k and (not dbg or dbg in f['id'])
    c = conform.Conformance(ref, cur)
    out = []
    for f, g in c.pairs(sel):
        t = time.time()
        try:
            d = 'gone' if g is None else c.differ(f, g)
            if d:
                out.append(f['id'] + ' is gone' if g is None else conform.describe(f, g, d[0], d[1])[:9000])
        except Exception:
            import traceback
            out.append('BROKEN ' + f['id'] + traceback.format_exc()[-1500:])
        if time.time() - t > 20:
            print('   slow: %s %.0f s' % (f['id'][:100], time.time() - t), flush=True)
    for key, file, line, text in structure.check(ref, cur, c.pairs(sel), c)[0]:
        out.append('structure %s:%s %s' % (file, line, text))
    return out


def run(spec, only=None):
    mode, _, order = spec.partition(':')
    order = order or 'inner'
    t = time.time()
    base = '/repo'
    if mode == 'again':
        # rewrites of what mix:... --keep left
        base = os.path.join(W, 'mix')
    cands = mixed(base) if mode in ('mix', 'again') else candidates(mode)
    for i, c in enumerate(cands):
        c['id'] = i
    dropped = set()
    root = os.path.join(W, mode)
    for attempt in range(25):
        subprocess.run(['rm', '-rf', root])
        os.makedirs(root)
        subprocess.run(['cp', '-a', base + '/Projects', root], check=True)
        chosen = choose(cands, order, dropped)
        where = apply(root, chosen, base)
        lines, err = extract(root)
        if not err:
            break
        n = len(dropped)
        for f, l in re.findall(r'%s/(\S+?):(\d+):\d+: (?:error|note)' % re.escape(root), err):
            for a, b, c in where.get(f, []):
                if a <= int(l) <= b:
                    dropped.add(c['id'])
        if len(dropped) == n:
            # nothing at the lines named: give up the file
            for f in set(re.findall(r'%s/(\S+?):\d+:\d+: error' % re.escape(root), err)):
                dropped.update(c['id'] for a, b, c in where.get(f, []))
        if len(dropped) == n:
            print(mode, 'DOES NOT COMPILE', err[:1500])
            return
    else:
        print(mode, 'DOES NOT COMPILE', err[:1500])
        return
    STATE.update(ref=model.load_reference(), cur=model.Program(model.decode(lines) + slang.extract('/repo')), only=only)
    out = []
    with multiprocessing.Pool(8, maxtasksperchild=1) as ex:
        for r in ex.imap_unordered(part, range(32), 1):
            out += r
    if '--keep' not in sys.argv:
        subprocess.run(['rm', '-rf', root])
    print('%s: %d rewrites (%d dropped), %d reports, %.0f s' % (spec, len(chosen), len(dropped), len(out), time.time() - t), flush=True)
    with open('/tmp/auto-%s.log' % spec.replace(':', '-'), 'w') as f:
        for x in sorted(out):
            f.write(x + '\n')
    for x in sorted(out):
        print('   ', x.split('\n')[0][:200])


if __name__ == '__main__':
    build()
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    only = [a[7:] for a in sys.argv[1:] if a.startswith('--only=')]
    for m in names or [x + o for x in MODES for o in (':inner', ':outer')]:
        run(m, only[0] if only else None)
