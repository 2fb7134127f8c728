#!/usr/bin/env python3
"""Development aid: plants small mechanical changes and lists those the conformance comparison does not notice.

    dev/mutate.py COUNT SEED [file pattern]"""
import fnmatch, json, multiprocessing, os, random, re, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import conform, model, select, slang, structure

REPO = '/repo'


def body_lines(recs, file):
    s = set()
    for r in recs:
        if r['kind'] == 'func' and r['file'] == file:
            s.update(range(r['line'] + 1, r['end'] + 1))
    return s


def mutants(text, lines):
    ls = text.split('\n')
    out = []
    for i in sorted(lines):
        if i - 1 >= len(ls):
            continue
        l = ls[i - 1]
        st = l.strip()
        if not st or st.startswith('//') or st.startswith('OS') or 'log' in l.lower() and 'logic' not in l.lower() or st.startswith('assert'):
            continue
        def put(kind, new):
            if new != l:
                out.append((i, kind, l, new))
        if st.endswith(';') and not st.startswith(('return', 'throw', 'case', 'default', '}', 'else')) and not re.match(r'^(const |auto |std::|[A-Z]\w*(::\w+)*[\s\*&<]+\w+\s*[=;(])', st) and st.count('(') == st.count(')'):
            put('delete', l[:len(l) - len(l.lstrip())] + ';' + ('\r' if l.endswith('\r') else ''))
        if st in ('break;', 'continue;'):
            put('delete', l.replace(st, ';'))
        for a, b in (('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), ('&&', '||'), ('||', '&&'),
                     (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), ('true', 'false'), ('false', 'true'), ('++', '--'), ('+=', '-='), ('.empty()', '.size() > 1'),
                     ('begin()', 'end()'), ('break;', 'continue;'), ('left', 'right'), ('right', 'left'), ('lhs', 'rhs'), ('rhs', 'lhs'),
                     ('Public', 'Private'), ('Private', 'Protected'), ('::Const', '::Modify'), ('first', 'second'), ('second', 'first'), ('front()', 'back()'), ('size()', 'size() - 1'),
                     ('auto& ', 'auto '), ('auto* ', 'const auto '), ('int64_t ', 'int '), ('double ', 'float '), ('size_t ', 'int '), ('unsigned ', ''), ('std::set<', 'std::multiset<'),
                     ('dynamic_cast<', 'static_cast<'), ('static_cast<', 'reinterpret_cast<'), ('return ', 'if ( false ) return '), ('find(', 'rfind('), ('find_first_of(', 'find_last_of('),
                     ('push_back(', 'push_front('), ('push_front(', 'push_back('), ('pop_back(', 'pop_front('), ('insert(', 'erase('), ('.second', '.first'), ('Reference()', 'Reference(1)'),
                     ('NULL', '1'), ('nullptr', 'this'), ('toInt()', 'toDouble()'), ('toDouble()', 'toFloat()'), ('toFloat()', 'toInt()'), ('Normal', 'Throw'), ('Throw', 'Normal'),
                     ('Return', 'Normal'), ('Break', 'Continue'), ('Continue', 'Break'), ('Static', 'Instance'), ('Modify', 'Const'), ('Protected', 'Public'), ('Reference', 'Value'), ('Value', 'Reference')):
            for m in re.finditer(re.escape(a), l):
                if a in ('true', 'false', 'left', 'right', 'lhs', 'rhs', 'first', 'second') and (l[m.start() - 1:m.start()].isalnum() or l[m.end():m.end() + 1].isalnum()):
                    continue
                put(a + '>' + b, l[:m.start()] + b + l[m.end():])
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
            put('num', l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():])
        for m in re.finditer(r'!(?=[\w(])(?!=)', l):
            put('not', l[:m.start()] + l[m.end():])
        m = re.match(r'^(\s*(?:else )?if \( )(.*)( \)\s*\{?\s*)$', l)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            put('negate', m.group(1) + '!(' + m.group(2) + ')' + m.group(3))
        m = re.match(r'^(\s*if \( )(.*?)( && | \|\| )(.*)( \)\s*\{?\s*)$', l)
        if m and m.group(2).count('(') == m.group(2).count(')') and m.group(4).count('(') == m.group(4).count(')'):
            put('dropleft', m.group(1) + m.group(4) + m.group(5))
            put('dropright', m.group(1) + m.group(2) + m.group(5))
        m = re.search(r'\b(\w+)\(\s*([\w.>\-]+),\s*([\w.>\-]+)\s*\)', l)
        if m and m.group(1) not in ('if', 'for', 'while'):
            put('swapargs', l[:m.start(2)] + m.group(3) + ', ' + m.group(2) + l[m.end(3):])
    return out


class Slow(Exception):
    pass


def slow(*a):
    raise Slow()


def work(args):
    import signal
    signal.signal(signal.SIGALRM, slow)
    signal.alarm(int(os.environ.get('SLOW', '40')))
    try:
        return work1(args)
    except Slow:
        return ('slow', args, '')
    finally:
        signal.alarm(0)


def work1(args):
    file, i, kind, old, new = args
    path = os.path.join(REPO, file)
    text = open(path, newline='').read()
    ls = text.split('\n')
    ls[i - 1] = new
    # every worker has a copy of the tree of its own
    root = '/tmp/mutants/%d' % os.getpid()
    if not os.path.isdir(root):
        os.makedirs(root)
        subprocess.run(['cp', '-a', REPO + '/Projects', root], check=True)
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        open(os.path.join(root, file), 'w', newline='').write('\n'.join(ls))
        lib = file.startswith('Projects/Library/')
        tus = [] if lib else [file] if file.endswith('.cpp') else TUS[file]
        recs = slang.extract(root) if lib else []
        if any(r['kind'] == 'broken' for r in recs):
            return ('nocompile', args, '')
        out = os.path.join(tmp, 'o')
        for tu in tus:
            proj = tu.split('/')[1]
            r = subprocess.run([EXE, root, out, os.path.join(root, tu), '--'] + model.flags(root, proj), capture_output=True, text=True)
            if r.returncode:
                return ('nocompile', args, '')
            recs += model.decode(open(out))
        new = [r for r in recs if r.get('file') == file]
        cur = model.Program([r for r in RECS if r.get('file') != file] + new)
        c = conform.Conformance(REF, cur)
        c.cache.update(CACHE)
        ch = set()
        byid = {(r['id'], r['file']): r for r in RECS if r['kind'] == 'func'}
        for r in new:
            if r['kind'] == 'func':
                o = byid.get((r['id'], r['file']))
                if o is not None and (conform.strip(o['body']) != conform.strip(r['body']) or conform.strip(o.get('inits')) != conform.strip(r.get('inits'))):
                    ch.add((r['id'], r['file']))
        if not ch:
            return ('same', args, '')
        t = time.time()
        res = c.check(lambda f: (f['id'], f['file']) in ch)
        dt = time.time() - t
        if not res:
            st, _ = structure.check(REF, cur, c.pairs(lambda f: (f['id'], f['file']) in ch), c)
            if not st:
                return ('missed', args, '%.1f' % dt)
        return ('found', args, '%.1f' % dt)
    except model.AnalysisBroken as e:
        return ('broken', args, str(e)[:200])
    except Slow:
        raise
    except Exception as e:
        import traceback
        return ('crash', args, traceback.format_exc()[-600:])
    finally:
        import shutil
        open(os.path.join(root, file), 'w', newline='').write(text)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    global RECS, REF, EXE, TUS, CACHE
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else '*'
    RECS = model.extract(REPO)
    EXE = model.tool_path()
    REF = model.load_reference()
    conform.Conformance(REF, REF)
    CACHE = {}
    files = sorted({r['file'] for r in RECS if r['kind'] == 'func'})
    files = [f for f in files if not any(s in f for s in select.SKIP_FILES) and fnmatch.fnmatch(f, pat)]
    TUS = {}
    for f in files:
        if f.endswith('.h'):
            b = os.path.basename(f)
            l = [p for p in model.source_files(REPO) if b in open(p, errors='replace').read()]
            if not l:
                b2 = os.path.basename(os.path.dirname(f)) + '/' + b
                l = [p for p in model.source_files(REPO)][:1]
            TUS[f] = [os.path.relpath(x, REPO) for x in sorted(l, key=os.path.getsize)[:1]]
    allm = []
    for f in files:
        text = open(os.path.join(REPO, f), newline='').read()
        allm += [(f,) + m for m in mutants(text, body_lines(RECS, f))]
    if os.environ.get('KINDS'):
        allm = [m for m in allm if any(m[2].startswith(k) for k in os.environ['KINDS'].split(','))]
    random.seed(seed)
    random.shuffle(allm)
    print(len(allm), 'possible', flush=True)
    allm = allm[:count]
    n = {}
    with multiprocessing.Pool(8) as pool:
        for k, a, x in pool.imap_unordered(work, allm):
            n[k] = n.get(k, 0) + 1
            if k in ('missed', 'broken', 'crash', 'slow'):
                print('%s %s:%d [%s] %s  %s' % (k, a[0], a[1], a[2], a[4].strip(), x), flush=True)
    print(n)
    subprocess.run(['rm', '-rf', '/tmp/mutants'])


main()
