"""Interprocedural effect inference: per function the members/globals it may read, the ones it may
modify, and the exception types that may leave it.  Flow-insensitive closure over the call graph with
virtual dispatch resolved to all overriders."""
from .engine_util import unqual, ASSIGN_OPS, param_types_of, PURE_C, READ_C
from .model import short

IO = '<io>'
FS = '<fs>'


def fname(e):
    q = e.get('q') or e['n']
    return e['n'] if q.startswith('std::') else short(q)


STD_PURE_METHODS = {'begin', 'end', 'find', 'front', 'back', 'top', 'at', 'rbegin', 'rend', 'get', 'cbegin', 'cend', 'lower_bound', 'upper_bound', 'operator[]'}


def is_std(q):
    return q.startswith('std::') or '__gnu_cxx' in q


class Effects:
    def __init__(self, prog):
        self.P = prog
        self.reads, self.mods, self.thr = {}, {}, {}
        self.calls = {}
        self.tryinfo = {}
        for fid, f in prog.funcs.items():
            r, m, c = set(), set(), []
            self._local(f, r, m, c)
            self.reads[fid], self.mods[fid], self.calls[fid] = r, m, c
        # closure for reads/mods
        callers = {}
        for fid, cs in self.calls.items():
            for g in cs:
                callers.setdefault(g, set()).add(fid)
        work = list(prog.funcs)
        inq = set(work)
        while work:
            g = work.pop()
            inq.discard(g)
            for f in callers.get(g, ()):
                a, b = len(self.reads[f]), len(self.mods[f])
                self.reads[f] |= self.reads[g]
                self.mods[f] |= self.mods[g]
                if (len(self.reads[f]), len(self.mods[f])) != (a, b) and f not in inq:
                    work.append(f)
                    inq.add(f)
        # exceptions
        for fid in prog.funcs:
            self.thr[fid] = set()
        changed = True
        while changed:
            changed = False
            for fid, f in prog.funcs.items():
                t = self._throws(f['body'], f) | self._throws(f.get('inits') or [], f)
                if not t <= self.thr[fid]:
                    self.thr[fid] |= t
                    changed = True

    # -------------------------------------------------------------------------------
    def targets(self, n):
        """ids of project functions a call node may reach"""
        fid = n.get('id')
        res = []
        if fid in self.P.funcs:
            res.append(fid)
        if n.get('dv') or n.get('k') == 'ocall':
            res += list(self.P.overriders.get(fid, ()))
        return res

    def _local(self, f, reads, mods, calls):
        loc = set()
        for p in f['p']:
            if not p['t'].endswith(('&', '*')):
                loc.add(p['id'])
        self._decls(f['body'], loc)
        own_ctor = bool(f.get('ctor'))

        def target(e):
            """effect name of a modified lvalue; None for locals"""
            k = e['k']
            if k == 'var':
                return None     # locals; what references point to is handled at the call
            if k == 'gl':
                return e['n']
            if k == 'mem':
                b = e
                while b['k'] == 'mem' and not b['b'].get('t', '').endswith('*'):
                    b = b['b']
                if b['k'] == 'var' and b['id'] in loc:
                    return None
                return fname(e)
            if k == 'idx':
                return target(e['a'])
            if k == 'ocall' and e['a'] and e['op'] in ('*', '[]', '->', '<<', '>>', '=', '+='):
                return target(e['a'][0])
            if k == 'un' and e['op'] == '*':
                t = e['e'].get('t', '')
                return '*' + short(unqual(t).replace(' *', '')) if e['e']['k'] != 'this' else None
            if k == 'cast':
                return target(e['e'])
            if k == 'mcall':
                if is_std(e['f']):
                    return target(e['o'])
                g = self.P.funcs.get(e.get('id'))
                if g is not None and not g['ret'].rstrip().endswith(('&', '*')):
                    return None         # a temporary
                return '*' + short(unqual(e.get('t', '')).replace(' *', ''))
            if k in ('call', 'ctor', 'copy', 'cond'):
                return None
            return None

        def mod(e):
            t = target(e)
            if t and not t.endswith('::mMessage') and t != '*':
                mods.add(t)

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'throw' and isinstance(n.get('e'), dict) and n['e'].get('k') == 'new':
                walk((n['e'].get('i') or {}).get('a'))       # the object thrown is new
                return
            if k == 'mem':
                reads.add(fname(n))
            elif k == 'gl':
                reads.add(n['n'])
                if n['n'] in ('std::cout', 'std::cerr', 'std::cin', 'std::clog'):
                    mods.add(IO)
            elif k == 'bin' and n['op'] in ASSIGN_OPS:
                mod(n['a'])
            elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
                mod(n['e'])
            elif k == 'new':
                mods.add('<alloc>')
            elif k == 'delete':
                mods.add('<free>')
            elif k == 'ocall':
                if n['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '<<', '>>') and n['a']:
                    mod(n['a'][0])
                    if n['op'] == '>>':
                        for x in n['a'][1:]:
                            mod(x)
            elif k == 'mcall':
                if is_std(n['f']):
                    last = n['f'].rsplit('::', 1)[-1]
                    if not n.get('c') and last not in STD_PURE_METHODS:
                        mod(n['o'])
                    if 'stream' in n['f'] and not n.get('c'):
                        own = n['o']['k'] == 'var' and n['o']['id'] in loc
                        if own and 'ifstream' in n['f']:
                            reads.add(FS)
                        elif not (own and 'stringstream' in n['f']):
                            mods.update((IO, FS))
                elif n.get('id') not in self.P.funcs and not self.P.overriders.get(n.get('id')) and not n.get('c'):
                    mod(n['o'])
            elif k == 'call':
                q = n['f']
                if q in READ_C:
                    reads.add(FS)
                elif q != '?' and not n.get('c') and n['id'] not in self.P.funcs and not is_std(q) and q not in PURE_C and not q.startswith('__'):
                    mods.update((IO, FS))
                    reads.add(IO)
            if k in ('call', 'mcall', 'ocall', 'ctor'):
                ts = self.targets(n)
                calls.extend(ts)
                pts = param_types_of(n.get('id', ''))
                a = n.get('a') or []
                if k == 'ocall' and n.get('m'):
                    a = a[1:]
                for i, x in enumerate(a):
                    if i < len(pts) and pts[i].endswith('&') and not pts[i].endswith('&&') and not pts[i].startswith('const '):
                        mod(x)
                    elif i < len(pts) and pts[i].endswith('*') and not pts[i].startswith('const ') and x and x['k'] == 'un' and x['op'] == '&':
                        mod(x['e'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        walk(f['body'])
        walk(f.get('inits'))

    def _decls(self, n, loc):
        if isinstance(n, list):
            for x in n:
                self._decls(x, loc)
        elif isinstance(n, dict):
            if n.get('k') == 'decl':
                for v in n['v']:
                    if not v['t'].endswith(('&', '*')) and not v.get('static'):
                        loc.add(v['id'])
            elif n.get('k') == 'range':
                v = n['v']
                if not v['t'].endswith(('&', '*')):
                    loc.add(v['id'])
            elif n.get('k') == 'lambda':
                for p in n['p']:
                    if not p['t'].endswith(('&', '*')):
                        loc.add(p['id'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self._decls(v, loc)

    # -------------------------------------------------------------------------------
    def catches(self, handler, thrown):
        h = unqual(handler).replace(' *', '')
        t = unqual(thrown).replace(' *', '')
        if h == t or self.P.derives(t, h):
            return True
        if h == 'std::exception' and t not in self.P.enums:
            c = self.P.classes.get(t)
            if c is None:
                return t.startswith('std::')
            return any(self.catches(h, b) for b in c['bases'])
        return False

    def _throws(self, n, f):
        res = set()
        if isinstance(n, list):
            for x in n:
                res |= self._throws(x, f)
            return res
        if not isinstance(n, dict):
            return res
        k = n.get('k')
        if k == 'lambda':
            return res
        if k == 'try':
            for t in self._throws(n['b'], f):
                if not any('t' not in h or self.catches(h['t'], t[0]) for h in n['h']):
                    res.add(t)
            for h in n['h']:
                res |= self._throws(h['b'], f)
            return res
        if k == 'throw':
            if 'e' not in n:
                return res
            e = n['e']
            while e.get('k') == 'copy':
                e = e['e']
            t = unqual(n['t'])
            res.add((t, e['n'] if e.get('k') == 'enum' else None))
        if k in ('call', 'mcall', 'ocall', 'ctor'):
            for g in self.targets(n):
                res |= self.thr.get(g, set())
        for v in n.values():
            if isinstance(v, (dict, list)):
                res |= self._throws(v, f)
        return res


def get(prog):
    e = prog.__dict__.get('_effects')
    if e is None:
        e = prog._effects = Effects(prog)
    return e
