"""Builds the extractor, runs it over the project and loads the resulting program model."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
from . import slang

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
BUILD = os.path.join(VERIF, '.build')
# Tests are not part of what is judged; everything else that is compiled is.
PROJECTS = ['Core', 'Extensions', 'Utils', 'slang', 'slang-app', 'slang-dbg', 'slang-pkg']


class AnalysisBroken(Exception):
    """The analysis cannot see what it needs; neither a pass nor a violation."""


def tool_path():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='sa-build-')
    try:
        flags = subprocess.run([LLVM + '/bin/llvm-config', '--cxxflags'], check=True, capture_output=True, text=True).stdout.split()
        obj = os.path.join(tmp, 'e.o')
        subprocess.run([LLVM + '/bin/clang++', '-O1', '-fno-rtti', '-w'] + flags + ['-c', src, '-o', obj], check=True)
        out = os.path.join(tmp, 'extract')
        subprocess.run([LLVM + '/bin/clang++', obj, '-o', out, LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.1'], check=True)
        t2 = exe + '.%d' % os.getpid()
        shutil.copy2(out, t2)
        os.replace(t2, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def source_files(repo):
    res = []
    for p in PROJECTS:
        for root, dirs, files in os.walk(os.path.join(repo, 'Projects', p)):
            dirs[:] = sorted(d for d in dirs if d not in ('Tests', 'TestSuite', 'Library'))
            for f in sorted(files):
                if f.endswith('.cpp'):
                    res.append(os.path.join(root, f))
    return res


def flags(repo, project):
    P = os.path.join(repo, 'Projects')
    inc = [P + '/Core', P + '/Extensions', P + '/' + project, P + '/Utils', '/usr/include/jsoncpp']
    return (['-DDEBUG', '-DLOG_LEVEL=3', '-DUSE_LIBC_EXTENSION', '-DUSE_SYSTEM_EXTENSION'] + ['-I' + i for i in inc]
            + ['-std=c++14', '-fPIC', '-w', '-resource-dir', LLVM + '/lib/clang/18'])


def tree_hash(repo, exe):
    h = hashlib.sha256()
    h.update(exe.encode())
    for root, dirs, files in os.walk(os.path.join(repo, 'Projects')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.inl')):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def extract(repo=None):
    """-> list of decoded records for the project's current sources"""
    repo = repo or REPO
    exe = tool_path()
    files = source_files(repo)
    if len(files) < 60:
        raise AnalysisBroken('only %d source files found below %s/Projects' % (len(files), repo))
    cache = os.path.join(BUILD, 'prog-' + tree_hash(repo, exe) + '.jsonl')
    if not os.path.exists(cache):
        n = min(8, os.cpu_count() or 4)
        def project(f):
            return os.path.relpath(f, os.path.join(repo, 'Projects')).split('/')[0]
        groups = []
        for p in PROJECTS:
            fs = sorted((f for f in files if project(f) == p), key=lambda f: -os.path.getsize(f))
            k = max(1, min(n, (len(fs) + 5) // 6))
            groups += [(p, fs[i::k]) for i in range(k) if fs[i::k]]
        tmp = tempfile.mkdtemp(prefix='sa-ext-')
        try:
            def run(i):
                out = os.path.join(tmp, '%d.jsonl' % i)
                r = subprocess.run([exe, repo, out] + groups[i][1] + ['--'] + flags(repo, groups[i][0]), capture_output=True, text=True, cwd=tmp)
                return r.returncode, r.stderr, out
            with ThreadPoolExecutor(n) as ex:
                rs = list(ex.map(run, range(len(groups))))
            bad = [r for r in rs if r[0] != 0]
            if bad:
                raise AnalysisBroken('the project does not parse: ' + bad[0][1][-2000:])
            t2 = cache + '.%d' % os.getpid()
            with open(t2, 'w') as o:
                for _, _, f in rs:
                    with open(f) as i:
                        shutil.copyfileobj(i, o)
            os.replace(t2, cache)
            # keep the cache small
            old = [f for f in glob.glob(os.path.join(BUILD, 'prog-*.jsonl')) if f != cache]
            old = sorted(((os.path.getmtime(f), f) for f in old if os.path.exists(f)))[:-8]
            for _, f in old:
                if os.path.exists(f):
                    os.unlink(f)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(cache) as f:
        recs = decode(f)
    return recs + slang.extract(repo)


_exe_re = re.compile(r'"file": ?"Projects/slang-?(\w*)/')
_collide_re = re.compile(r'(?<![:~\w/])(Settings(?=::|\b)|Slang::Application\b|\(anonymous namespace\)::)|(?<=")(CONFIG_FOLDER|CONFIG_SCRIPTS|TMP|PATH_SEPARATOR|main)(?="|\(int)')


def decode(lines):
    """The executables are programs of their own: names they share are told apart."""
    recs = []
    for l in lines:
        m = _exe_re.search(l)
        if m:
            pre = (m.group(1) or 'slang') + '::'

            def sub(x):
                t = x.group(0)
                if t.startswith('Slang::'):
                    return 'Slang::' + pre + t[7:]
                if t.endswith('::'):
                    return t + pre
                return pre + t
            l = _collide_re.sub(sub, l)
        r = json.loads(l)
        if 'Json::Value::operator[]' in l:
            name_members(r)
        recs.append(r)
    return recs


def name_members(n):
    """the member of a Json value with a name that is written down is treated like a data member"""
    if isinstance(n, list):
        for x in n:
            name_members(x)
    elif isinstance(n, dict):
        for x in n.values():
            name_members(x)
        if n.get('k') == 'ocall' and n.get('f') == 'Json::Value::operator[]':
            key = n['a'][1]
            while key.get('k') in ('ctor', 'copy', 'cast') and (key.get('e') or len(key.get('a', ())) == 1):
                key = key.get('e') or key['a'][0]
            if key.get('k') == 'str' or key.get('k') == 'gl':
                name = '[%s]' % key['v' if key['k'] == 'str' else 'n']
                base = n['a'][0]
                t = n.get('t')
                l = n.get('l')
                n.clear()
                n.update(k='mem', b=base, n=name, q='Json::Value::' + name, t=t, l=l)


def short(q):
    """drops the namespaces of the project from a qualified name"""
    return _short_re.sub('', q)


_short_re = re.compile(r'\b(?:Slang::|AST::|Runtime::(?=[A-Z])|Designtime::(?=[A-Z])|Common::(?=[A-Z])|Extensions::|System::(?=[A-Z])|LIBC::|std::(?:__cxx11::)?|Core::(?=[A-Z])|Utils::|Tools::)')


class Program:
    def __init__(self, recs):
        self.funcs = {}       # id -> func
        self.byq = {}         # qname -> [func]
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.tus = 0
        self.broken = []      # library files which do not parse
        for r in sorted(recs, key=lambda r: r.get('file', '')):
            k = r['kind']
            if k == 'func':
                if r['id'] not in self.funcs:
                    self.funcs[r['id']] = r
                    self.byq.setdefault(r['f'], []).append(r)
                elif self.funcs[r['id']]['file'] != r['file']:
                    # same signature in different files (anonymous namespaces, statics)
                    self.byq.setdefault(r['f'], []).append(r)
                    self.funcs[r['id'] + '@' + r['file']] = r
            elif k == 'class':
                self.classes.setdefault(r['q'], r)
            elif k == 'enum':
                self.enums.setdefault(r['q'], r)
            elif k == 'global':
                self.globals.setdefault(r['q'], r)
            elif k == 'broken':
                self.broken.append((r['file'], r['text']))
            elif k == 'tu':
                self.tus += 1
        # de-duplicate byq (same record seen via several groups)
        for q in self.byq:
            seen, l = set(), []
            for f in self.byq[q]:
                key = (f['id'], f['file'], f['line'])
                if key not in seen:
                    seen.add(key)
                    l.append(f)
            self.byq[q] = l
        self.overriders = {}  # id -> [ids of functions with a body overriding it, transitively]
        direct = {}
        for f in self.funcs.values():
            for o in f.get('ov', []):
                direct.setdefault(o, []).append(f['id'])
        def rec(i, seen):
            for x in direct.get(i, []):
                if x not in seen:
                    seen.add(x)
                    rec(x, seen)
        for i in list(direct):
            s = set()
            rec(i, s)
            self.overriders[i] = s
        for k, f in self.funcs.items():
            f['key'] = k
        self._mut = None
        self._bases = {}

    def derives(self, cls, base):
        if cls == base:
            return True
        c = self.classes.get(cls)
        if not c:
            return False
        return any(self.derives(b, base) for b in c['bases'])

    def subclasses(self, base):
        return sorted(c for c in self.classes if c != base and self.derives(c, base))

    def find(self, suffix, nparams=None, const=None):
        """functions whose qualified name ends in suffix"""
        res = []
        for q, l in self.byq.items():
            if q == suffix or q.endswith('::' + suffix):
                for f in l:
                    if nparams is not None and len(f['p']) != nparams:
                        continue
                    res.append(f)
        return res

    def one(self, suffix, nparams=None, ptype=None, cls=None, file=None):
        fs = self.find(suffix, nparams)
        if file is not None:
            fs = [f for f in fs if file in f['file']]
        if ptype is not None:
            fs = [f for f in fs if f['p'] and ptype in f['p'][0]['t']]
        if cls is not None:
            fs = [f for f in fs if f.get('cls') == cls]
        if len(fs) != 1:
            raise AnalysisBroken('anchor %s: %d definitions found (%s)' % (suffix, len(fs), ', '.join(f['id'] for f in fs)[:300]))
        return fs[0]

    # ---- globals that are never written -------------------------------------------------
    def embedded(self):
        """members that are part of their object, not pointers or references to something else"""
        if not hasattr(self, '_embedded'):
            self._embedded = {short(c['q']) + '::' + x['n'] for c in self.classes.values() for x in c['fields'] if x['t'][-1] not in '*&' and not x['t'].endswith('*const')}
        return self._embedded

    def mutated_globals(self):
        if self._mut is not None:
            return self._mut
        mut = set()

        def gl(e):
            while isinstance(e, dict) and e.get('k') in ('mem', 'idx'):
                e = e.get('b') if e['k'] == 'mem' else e.get('a')
            return e['n'] if isinstance(e, dict) and e.get('k') == 'gl' else None

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                g = gl(n['a'])
                if g: mut.add(g)
            elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--', '&'):
                g = gl(n['e'])
                if g: mut.add(g)
            elif k == 'ocall' and n.get('a'):
                g = gl(n['a'][0])
                if g and n['op'] in ('=', '+=', '-=', '[]', '++', '--', '<<', '>>') and not n.get('c'):
                    mut.add(g)
            elif k == 'mcall':
                g = gl(n.get('o'))
                if g and not n.get('c'):
                    mut.add(g)
            if k in ('call', 'mcall', 'ctor', 'ocall') and n.get('a'):
                pts = param_types(n.get('id', ''))
                off = 1 if (k == 'ocall' and n.get('m')) else 0
                for i, a in enumerate(n['a'][off:]):
                    g = gl(a)
                    if g and i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const '):
                        mut.add(g)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        for f in self.funcs.values():
            walk(f['body'])
            walk(f.get('inits'))
        self._mut = mut
        return mut


_pt_cache = {}


def param_types(fid):
    r = _pt_cache.get(fid)
    if r is not None:
        return r
    i = _open_paren(fid)
    if i < 0:
        _pt_cache[fid] = []
        return []
    s = fid[i + 1:]
    j = s.rfind(')')
    s = s[:j]
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    _pt_cache[fid] = out
    return out


def _open_paren(fid):
    """index of the parenthesis that opens the parameter list"""
    j = fid.rfind(')')
    depth = 0
    while j >= 0:
        if fid[j] == ')':
            depth += 1
        elif fid[j] == '(':
            depth -= 1
            if depth == 0:
                return j
        j -= 1
    return -1


REFERENCE = os.path.join(VERIF, 'reference', 'model.jsonl.xz')


def load_reference():
    """the reviewed model the current tree is compared with"""
    import lzma
    with lzma.open(REFERENCE, 'rt') as f:
        p = Program([json.loads(l) for l in f])
    if len(p.funcs) < 1500:
        raise AnalysisBroken('reference model incomplete')
    return p


def load(repo=None):
    p = Program(extract(repo))
    if p.tus < 60 or len(p.funcs) < 1500:
        raise AnalysisBroken('program model too small: %d translation units, %d functions' % (p.tus, len(p.funcs)))
    return p
