"""Conformance of functions to the reviewed reference model: equal abstract outcomes under every
combination of branch conditions, effects and exits."""
from collections import Counter
import json
from . import engine, model, tables
from .model import AnalysisBroken


PEEL = -1
LITERAL = -2


def key_of(f):
    return f['id']


class Conformance:
    def __init__(self, ref, cur, cfg=None):
        self.ref, self.cur = ref, cur
        self.cfg = cfg or {}
        self.base = tables.Baseline(ref, cur)
        self.cache = {}
        self.stats = {'functions': 0, 'paths': 0, 'calls': 0, 'inlined': set(), 'looked_through': 0}
        self._callers = {}
        self.visited = {}
        self.expanded = set()

    def config(self, extra_inline=(), unroll=0):
        c = dict(self.cfg)
        c['inline'] = set(c.get('inline', ())) | set(extra_inline)
        if extra_inline:
            c.update(maxsteps=15000, maxstates=800)
        if unroll == PEEL:
            c.update(maxsteps=60000, maxstates=1500, peel=True)
        elif unroll == LITERAL:
            c.update(literal=False)
        elif unroll:
            c.update(maxsteps=30000, maxstates=1000, unroll=unroll)
        return engine.Config(**c)

    def outcomes(self, prog, f, extra=frozenset(), unroll=0):
        k = (id(prog), f['key'], extra, unroll)
        r = self.cache.get(k)
        if r == 'broken':
            raise AnalysisBroken('as before')
        if r is None:
            self.cache[k] = 'broken'
            e = engine.Engine(prog, self.config(extra, unroll), self.base)
            outs = tables.summarise(e, e.run(f))
            r = self.cache[k] = outs
            self.visited[k] = e.visited_funcs
            if e.expanded:
                self.expanded.add(k)
            if prog is self.cur:
                self.stats['paths'] += len(outs)
                self.stats['calls'] += e.calls_seen
                self.stats['inlined'] |= e.visited_funcs - {f['id']}
        return r

    def pairs(self, select):
        """(reference function, current function or None) for the selected reference functions"""
        res = []
        for fid, f in self.ref.funcs.items():
            if not select(f):
                continue
            g = self.cur.funcs.get(fid)
            if g is not None and g['file'] != f['file']:
                alt = [x for x in self.cur.byq.get(f['f'], []) if x['id'] == f['id'] and x['file'] == f['file']]
                if alt:
                    g = alt[0]
            if g is None:
                l = [x for x in self.cur.byq.get(f['f'], []) if x['id'] not in self.ref.funcs and len(x['p']) == len(f['p'])]
                rl = [x for x in self.ref.byq.get(f['f'], []) if x['id'] not in self.cur.funcs and len(x['p']) == len(f['p'])]
                if len(l) == 1 and len(rl) == 1:
                    g = l[0]
            res.append((f, g))
        return res

    def callers(self, prog):
        c = self._callers.get(id(prog))
        if c is None:
            c = {}

            def walk(n, f):
                if isinstance(n, list):
                    for x in n:
                        walk(x, f)
                elif isinstance(n, dict):
                    if n.get('k') in ('call', 'mcall', 'ocall', 'ctor', 'func') and n.get('id'):
                        c.setdefault(n['id'], set()).add(f)
                    for v in n.values():
                        if isinstance(v, (dict, list)):
                            walk(v, f)
            for fid, f in prog.funcs.items():
                walk(f['body'], fid)
                walk(f.get('inits'), fid)
            self._callers[id(prog)] = c
        return c

    def check(self, select):
        """-> list of (ref func, cur func, code outcome, spec outcome)"""
        pairs = self.pairs(select)
        self.stats['functions'] = len(pairs)
        diff = []
        gone = []
        for f, g in pairs:
            if g is None:
                gone.append(f)
                continue
            d = self.differ(f, g)
            if d is not None:
                diff.append((f, g, d))
        if not diff and not gone:
            return []
        return self.settle(diff, gone)

    def differ(self, f, g, extra=frozenset()):
        """None when both have the same outcomes, else a pair of outcomes that contradict each other"""
        d = tables.compare(self.outcomes(self.cur, g, extra), self.outcomes(self.ref, f, extra))
        if d is None or strip(f['body']) == strip(g['body']):
            return d
        news = extra | self.newly_called(f, g)
        more = news | self.newly_called(f, g, True)
        for x in [extra] + ([news] if news != extra else []) + ([more] if more != news else []):
            try:
                if x != extra and tables.compare(self.outcomes(self.cur, g, x), self.outcomes(self.ref, f, x)) is None:
                    return None
            except AnalysisBroken:
                pass
            if self.same_unrolled(f, g, x):
                return None
        return d

    def newly_called(self, f, g, often=False):
        """functions only one of the two bodies calls (or calls more often)"""
        if often:
            a, b = calls(f), calls(g)
            differ = {x for x in set(a) | set(b) if a[x] != b[x]}
        else:
            differ = self.called(self.ref, f) ^ self.called(self.cur, g)
        res = set()
        for fid in differ:
            for prog in (self.ref, self.cur):
                h = prog.funcs.get(fid)
                if h is not None and fid not in (f['id'], g['id']) and not prog.overriders.get(fid):
                    res.add(model.short(h['f']))
        return frozenset(res)

    def called(self, prog, f, seen=()):
        """functions a body calls itself or through functions only this program has"""
        res = set()
        for fid in called(f):
            h = prog.funcs.get(fid)
            res.add(fid)
            if h is not None and h['f'] not in self.base and fid not in seen:
                res |= self.called(prog, h, seen + (fid,))
        return res

    def same_unrolled(self, f, g, extra):
        """the first iterations of every loop are the same; a change that starts later needs a number the reference does not have"""
        if not (loops(f['body']) or loops(g['body']) or self.inlines_loops(g, extra)):
            return False
        if (id(self.cur), g['key'], extra, 0) in self.expanded or (id(self.ref), f['key'], extra, 0) in self.expanded:
            # the one side walks through values that are written down, the other may do so in another way
            try:
                if tables.compare(self.outcomes(self.cur, g, extra, LITERAL), self.outcomes(self.ref, f, extra, LITERAL)) is None:
                    return True
            except AnalysisBroken:
                pass
        try:
            if tables.compare(self.outcomes(self.cur, g, extra, PEEL), self.outcomes(self.ref, f, extra, PEEL)) is None:
                return True
        except AnalysisBroken:
            pass
        if not self.numbers(self.cur, g, extra) <= self.numbers(self.ref, f, extra):
            return False
        for k in (3, 2):
            try:
                a, b = self.outcomes(self.cur, g, extra, k), self.outcomes(self.ref, f, extra, k)
            except AnalysisBroken:
                continue
            if tables.compare(a, b) is not None:
                return False
            # what one side is done with after a single iteration, the other does not keep running for
            return tables.finished(self.outcomes(self.cur, g, extra, 1), b) and tables.finished(self.outcomes(self.ref, f, extra, 1), a)
        return False

    def looked_into(self, prog, f, extra):
        v = self.visited.get((id(prog), f['key'], extra, 0), {f['id']})
        return [f] + [prog.funcs[x] for x in v if x in prog.funcs and x != f['id']]

    def inlines_loops(self, g, extra):
        return any(loops(x['body']) for x in self.looked_into(self.cur, g, extra))

    def numbers(self, prog, f, extra):
        res = set()
        for x in self.looked_into(prog, f, extra):
            literals(x['body'], res)
        return res - {0, 1, -1}

    def same_with(self, fid, extra, through=None):
        """equal when the functions named by extra are looked into (and `through` really was, where it is called)"""
        f = self.ref.funcs.get(fid)
        g = self.cur.funcs.get(fid)
        if f is None or g is None:
            return None
        try:
            if self.differ(f, g, extra) is not None:
                return False
            if through is not None:
                for prog, x in ((self.ref, f), (self.cur, g)):
                    if fid in self.callers(prog).get(through, ()) and through not in self.visited[(id(prog), x['key'], extra, 0)]:
                        return False
            return True
        except AnalysisBroken:
            return False

    def settle(self, diff, gone):
        """differences that vanish when the callers are considered as a whole are no differences"""
        # every function that differs, selected or not, may take part in a move of code between functions
        changed = {f['key']: (f, g, d) for f, g, d in diff}
        others = {}
        for fid, f in self.ref.funcs.items():
            g = self.cur.funcs.get(fid)
            if g is None or fid in changed:
                continue
            if strip(f['body']) == strip(g['body']) and strip(f.get('inits')) == strip(g.get('inits')):
                continue
            if self.differ(f, g) is not None:
                others[fid] = f
        allchanged = set(changed) | set(others)
        extra = frozenset(model.short(self.ref.funcs[x]['f']) for x in allchanged)
        # functions that nobody else looks into (entry points) must be equal after looking into the changed callees
        ok = set()
        for fid in allchanged:
            if self.same_with(fid, extra - {model.short(self.ref.funcs[fid]['f'])}):
                ok.add(fid)
        excused = set(ok)
        bad = [x for x in allchanged if x not in ok]
        # a changed callee is fine when all its callers are equal with it looked into
        progress = True
        while progress:
            progress = False
            for x in list(bad):
                f = self.ref.funcs[x]
                cs = (self.callers(self.ref).get(x, set()) | self.callers(self.cur).get(x, set())) - {x}
                if not cs or len(cs) > 25 or f.get('v') or f['name'] == 'main' or not callable_inline(f):
                    continue
                good = True
                for c in cs:
                    if c in bad or not self.same_with(c, extra, x):
                        good = False
                        break
                if good:
                    bad.remove(x)
                    excused.add(x)
                    self.stats['looked_through'] += 1
                    progress = True
        res = [changed[x] for x in bad if x in changed]
        out = [(f, g, d[0], d[1]) for f, g, d in res]
        for f in gone:
            # nobody calls it: an overriding function is compared with what takes its place (structure), others were dead
            cs = self.callers(self.ref).get(f['key'], set())
            # its callers see the difference, if any; they were compared with it looked into
            for c in cs:
                if c in self.cur.funcs and self.same_with(c, extra) is False:
                    cf = self.ref.funcs[c]
                    d = self.differ(cf, self.cur.funcs[c])
                    if d is not None and all(o[0]['key'] != c for o in out):
                        out.append((cf, self.cur.funcs[c], d[0], d[1]))
        return out


def nodes(n):
    if isinstance(n, list):
        for x in n:
            yield from nodes(x)
    elif isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)


def calls(f):
    return Counter(n['id'] for b in (f['body'], f.get('inits')) for n in nodes(b) if n.get('k') in ('call', 'mcall', 'ocall', 'ctor') and n.get('id'))


def called(f):
    return set(calls(f))


def loops(body):
    return any(n.get('k') in ('for', 'while', 'do', 'range') or n.get('k') == 'call' and n.get('f') in ALGORITHMS for n in nodes(body))


ALGORITHMS = ('std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::for_each', 'std::find') + tuple(engine.FILLS)


def literals(body, res):
    for n in nodes(body):
        if n.get('k') == 'int':
            res.add(n['v'])


def callable_inline(f):
    return not f.get('ctor') and not f.get('dtor')


def strip(n):
    """syntax tree without positions"""
    if isinstance(n, list):
        return [strip(x) for x in n]
    if isinstance(n, dict):
        return {k: strip(v) for k, v in n.items() if k != 'l'}
    return n


def describe(f, g, code, spec):
    t = '%s:%d %s\n' % (g['file'], (code or {}).get('line') or g['line'], g['id'])
    if code is not None:
        t += ' current tree:\n' + tables.show(code) + '\n'
    else:
        t += ' current tree: no such outcome\n'
    if spec is not None:
        t += ' required:\n' + tables.show(spec) + '\n'
    else:
        t += ' required: no outcome under these conditions\n'
    return t
