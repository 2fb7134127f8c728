"""Path-sensitive dataflow over a finite abstraction of C++ functions.

The analysis walks the resolved syntax tree of a function and computes the set of abstract
outcomes: which branch conditions were assumed (facts over opaque predicates), which
effects happened (events), what was written and how the function was left.  Values are
constants or opaque terms that are named after where they come from, so renamed locals,
extracted helpers, inverted conditions or rewritten loops lead to the same outcomes.
Loops are solved as fixpoints over the loop head; nothing is executed and no solver is used.
"""
import re

from . import model
from .engine_util import ASSIGN_OPS, PURE_C, READ_C, unqual
from .model import AnalysisBroken, param_types, short

# ----------------------------------------------------------------------------- terms
TRUE, FALSE, NULL = ('b', True), ('b', False), ('null',)
CONST = ('b', 'i', 'fl', 's', 'null', 'e')


def isc(t):
    return t[0] in CONST


def I(n):
    return ('i', n)


def neg(t):
    if t[0] == 'b':
        return FALSE if t[1] else TRUE
    if t[0] == 'o' and t[1] == '!':
        return t[2]
    return ('o', '!', t)


def tstr(t, depth=0):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'b':
        return 'true' if t[1] else 'false'
    if k in ('i', 'fl'):
        return repr(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'null':
        return 'null'
    if k == 'e':
        return short(t[1]).replace('::E::', '::')
    if k == 'p':
        return '$%d' % t[1]
    if k == 'this':
        return 'this'
    if k == 'f':
        return '%s.%s%s' % (tstr(t[1]), t[2].rsplit('::', 1)[-1], tagstr(t[3]) if len(t) > 3 else '')
    if k == 'g':
        return short(t[1]) + (tagstr(t[2]) if len(t) > 2 else '')
    if k == 'c':
        n = '' if len(t) < 4 or not t[3] else '#%d' % t[3]
        d = '' if len(t) < 5 or not t[4] else '{%s}' % ', '.join('%s=%s' % (tstr(a), tstr(b)) if a is not None else tagstr(b) for a, b in t[4])
        return '%s%s(%s)%s' % (t[1], n, ', '.join(tstr(x) for x in t[2]), d)
    if k == 'o':
        if len(t) == 3:
            return '%s%s' % (t[1], tstr(t[2]))
        return '(%s %s %s)' % (tstr(t[2]), t[1], tstr(t[3]))
    if k == 'x':
        return '(%s)%s' % (t[1], tstr(t[2]))
    if k == 'n':
        return 'new %s(%s)' % (t[1], ', '.join(tstr(x) for x in t[2]))
    if k == 'ctor':
        return '%s{%s}' % (t[1], ', '.join(tstr(x) for x in t[2]))
    if k == 'conv':
        return '%s<%s>(%s)' % (t[1], t[2], tstr(t[3]))
    if k in ('el', 'it', 'more'):
        return '%s%s(%s)' % ({'el': 'each', 'it': 'iter', 'more': 'more'}[k], "'" * t[2], tstr(t[1]))
    if k == 'out':
        n = '' if not t[4] else '#%d' % t[4]
        return 'out%d:%s%s(%s)' % (t[2], t[1], n, ', '.join(tstr(x) for x in t[3]))
    if k == 'aft':
        return '%s.%s(%s)' % (tstr(t[2]), t[1], ', '.join(tstr(x) for x in t[3]))
    if k == 'phi':
        return 'loop%s(%s)' % (t[1], tstr(t[2]))
    if k == 'dyn':
        return 'as<%s>(%s)' % (t[1], tstr(t[2]))
    if k == 'at':
        return '%s[%s]' % (tstr(t[1]), tstr(t[2]))
    if k == 'lam':
        return '<lambda>'
    if k == 'throws':
        return 'throws%s(%s(%s), %s)' % ("'" * t[3], t[1], ', '.join(tstr(x) for x in t[2]), tstr(t[4]))
    if k == 'upd':
        return '%s{%s}' % (tstr(t[1]), ', '.join('%s=%s' % (p.rsplit('::', 1)[-1], tstr(v)) for p, v in t[2]))
    return '%s(%s)' % (k, ', '.join(tstr(x) for x in t[1:]))


def updated(t, upd):
    """t with the members written in upd; the later of two writes counts"""
    if t[0] == 'upd':
        old = [(p, v) for p, v in t[2] if not any(p == q or p.startswith(q + '.') for q, _ in upd)]
        if not any(q.startswith(p + '.') for p, _ in old for q, _ in upd):
            return ('upd', t[1], tuple(sorted(old + list(upd), key=repr)))
    return ('upd', t, upd)


def tagstr(t):
    return '@' + t[0] + ("'" * t[1] if len(t) > 1 else '')


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


class State:
    __slots__ = ('loc', 'heap', 'facts', 'tr', 'cnt', 'sig', 'nf', 'line', 'mod', 'pub')

    def __init__(self):
        self.loc, self.heap, self.facts, self.tr, self.cnt = {}, {}, {}, (), {}
        self.mod, self.pub = {}, {}
        self.sig = None
        self.nf = 1
        self.line = 0

    def copy(self):
        s = State.__new__(State)
        s.loc, s.heap, s.facts, s.tr, s.cnt = dict(self.loc), dict(self.heap), dict(self.facts), self.tr, dict(self.cnt)
        s.mod, s.pub = dict(self.mod), dict(self.pub)
        s.sig, s.nf, s.line = self.sig, self.nf, self.line
        return s

    def rest(self):
        return (frozenset(self.loc.items()), frozenset(self.heap.items()), self.tr, self.sig, frozenset(self.cnt.items()),
                frozenset(self.mod.items()), frozenset(self.pub.items()))


class Frame:
    __slots__ = ('no', 'this', 'func', 'depth', 'chain')

    def __init__(self, no, this, func, depth, chain):
        self.no, self.this, self.func, self.depth, self.chain = no, this, func, depth, chain


INT_BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
            'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


class Config:
    """what is opaque, what is looked into, and which effects matter"""

    def __init__(self, inline=(), opaque=(), pure=(), ignore=(), throws=None, unordered=(), heap=None, events=None, models=None,
                 baseline=None, inline_all=False, setevents=None, maxstates=6000, noheap=False, retarg=None, fork_bool_events=True,
                 inline_dtors=(), virtual_this=None, inline_files=(), throw_all=False, streams=True, maxsteps=400000, unroll=0, peel=False, literal=True):
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.ignore = set(ignore)
        self.throws = throws or {}
        self.unordered = set(unordered)
        self.heap = heap
        self.events = events
        self.models = models or {}
        self.inline_all = inline_all
        self.setevents = setevents
        self.maxstates = maxstates
        self.maxsteps = maxsteps
        self.noheap = noheap
        self.inline_dtors = set(inline_dtors)
        self.virtual_this = virtual_this
        self.inline_files = tuple(inline_files)
        self.throw_all = throw_all      # exceptional exits of callees even where nothing catches them
        self.streams = streams
        self.peel = peel                # loops that are not entered are told apart from those that are
        self.literal = literal          # loops over values that are written down visit each of them
        self.unroll = unroll            # iterate loops this often instead of summarising them


STRING = re.compile(r'std::(?:\w+::)*basic_string\b')
NOEFF = (frozenset(), frozenset(), frozenset())
IOSET = frozenset(('<io>',))
UNIQUE = re.compile(r'std::(?:unordered_)?(?:set|map)<')
ASSOCIATIVE = re.compile(r'std::(?:unordered_)?(?:set<(?:std::(?:\w+::)*basic_string<|[^<>,]*\*|(?:unsigned )?(?:int|long|char|short)\b)|map<)')
FSSET = frozenset(('<fs>',))

IGNORED = {
    'printStackTrace', 'Logger', 'ILogger', 'printf', 'fprintf', 'PrintStackTrace',
}

INTEGERS = ('bool', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long')

PRINTS = {'std::cout': 'print', 'std::cerr': 'printerr'}

_names = {}


def std_operator(f):
    return f.startswith(('std::', 'Json::ValueIterator', 'Json::ValueConstIterator')) or '__gnu_cxx' in f or f.startswith('operator') or f == '?' or 'std::' in f.split('(')[0]


def cname(q):
    r = _names.get(q)
    if r is None:
        r = short(q)
        _names[q] = r
    return r


class Engine:
    entry = False
    expanded = False

    def __init__(self, prog, cfg, baseline):
        self.P = prog
        self.cfg = cfg
        self.baseline = baseline
        self.lams = {}
        self.uid = 0
        self.visited_funcs = set()
        self.steps = 0
        self.calls_seen = 0
        self.gconst = {}
        self.aggregates = {}
        self.valued = set()     # containers whose elements are no pointers
        self.eff = baseline.effects
        self.evname = {}        # event name -> (reads, mods, throws)
        self.muts = {}          # member function of a local object -> (reads, mods)
        self.handlers = []      # handler types of the enclosing try blocks

    # ------------------------------------------------------------------ entry point
    def run(self, func):
        self.root = func
        st = State()
        fr = Frame(0, ('this',), func, 0, (func['id'],))
        self.visited_funcs.add(func['id'])
        for i, p in enumerate(func['p']):
            if p['t'].endswith('&') and not p['t'].startswith('const '):
                st.loc[(0, p['id'])] = ('r', ('T', ('p', i)))
            else:
                st.loc[(0, p['id'])] = ('v', ('p', i))
        outs = [st]
        if func.get('ctor'):
            outs = self.ctor_inits(func, st, fr)
        if func.get('ctor') or True:
            nxt = []
            for s in outs:
                nxt += self.exec(func['body'], s, fr) if s.sig is None else [s]
            outs = nxt
        res = []
        for s in outs:
            if s.sig is None:
                s.sig = ('return', None)
            if s.sig[0] == 'return' and func['ret'] == 'void':
                s.sig = ('return', None)
            if s.sig[0] == 'return' and func['ret'] == 'bool' and s.sig[1] is not None and not isc(s.sig[1]):
                for s2, b in self.truth(s, s.sig[1]):
                    s2.sig = ('return', TRUE if b else FALSE)
                    res.append(s2)
            else:
                res.append(s)
        return self.merge(res)

    def member_q(self, func, name):
        return short(func['cls'] + '::' + name)

    def ctor_inits(self, func, st, fr):
        outs = [st]
        for i in func.get('inits', []):
            nxt = []
            for s in outs:
                if s.sig is not None:
                    nxt.append(s)
                    continue
                for s2, v in self.ev(i['e'], s, fr):
                    if s2.sig is None:
                        if 'm' in i:
                            v = self.snap(s2, v)
                            self.write(s2, ('T', ('f', fr.this, self.member_q(func, i['m']))), v)
                        elif 'base' in i:
                            if v and v[0] == 'ctor':
                                self.evname['base:' + cname(i['base'])] = NOEFF[:2] + (False,)
                                self.event(s2, 'base:' + cname(i['base']), v[2], i['e'].get('l', 0) if i['e'] else 0)
                    nxt.append(s2)
            outs = nxt
        return outs

    # ------------------------------------------------------------------ state utilities
    def merge(self, states):
        """joins states that differ only in facts that do not matter"""
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.rest(), []).append(s)
        out = []
        for g in groups.values():
            if len(g) > 1:
                g = merge_facts(g)
            out += g
        if len(out) > self.cfg.maxstates:
            raise AnalysisBroken('too many abstract states in %s' % self.root['id'])
        return out

    def content(self, st, key):
        b = st.loc.get(key)
        if b is None:
            return ('u', 'undef')
        if b[0] == 'v':
            return b[1]
        return self.read(st, b[1])

    def read(self, st, lv):
        if lv[0] == 'L':
            return self.content(st, lv[1])
        t = lv[1]
        v = st.heap.get(t)
        if v is not None:
            return v
        if t[0] == 'f' and t[1][0] == 'addr':
            c = self.content(st, t[1][1])
            return self.field(c, t[2])
        if t[0] == 'f' and root(t)[0] == 'addr':
            return self.field(self.read(st, ('T', t[1])), t[2])
        return self.tagged(st, t)

    def tagged(self, st, t):
        """members that an earlier opaque call may have changed are told apart from their former value"""
        if t[0] == 'f' and len(t) == 3 and t[2] in st.mod and not self.fixed(t[1]):
            return t + (st.mod[t[2]],)
        if t[0] == 'g' and len(t) == 2 and t[1] in st.mod:
            return t + (st.mod[t[1]],)
        return t

    def fixed(self, b):
        """temporary values, and what is stored in a container itself, do not change under an opaque call"""
        if b[0] in ('ctor', 'aft', 'upd'):
            return True
        if b[0] == 'p' and b[1] < len(self.root['p']):
            t = self.root['p'][b[1]]['t']
            return not t.endswith('*') and (not t.endswith('&') or t.startswith('const '))
        if b[0] == 'el':
            return b[1] in self.valued
        return b[0] == 'f' and len(b) == 3 and b[2] in self.P.embedded() and self.fixed(b[1])

    def element(self, it, valued=True):
        if valued:
            self.valued.add(it[1])
        return ('el', it[1], it[2])

    def hread(self, st, t):
        v = st.heap.get(t)
        return v if v is not None else self.tagged(st, t)

    def field(self, base, name):
        if base[0] == 'ctor' and base[1] in ('pair',):
            if name == 'first' and len(base[2]) > 0:
                return base[2][0]
            if name == 'second' and len(base[2]) > 1:
                return base[2][1]
        if base[0] == 'ctor' and base[2]:
            f = self.aggregate(base[1])
            n = name.rsplit('::', 1)[-1]
            if f is not None and n in f and f.index(n) < len(base[2]):
                return base[2][f.index(n)]
        if base[0] == 'c' and base[1] == 'find' and name == 'second':
            return ('at', base[2][0], base[2][1])
        if base[0] == 'c' and base[1] == 'find' and name == 'first' and len(base[2]) == 2:
            return base[2][1]
        if base[0] == 'c' and base[1] == 'found' and base[2][0][0] == 'ctor':
            return self.field(base[2][0], name)
        if base[0] == 'upd':
            deeper = []
            for p, v in base[2]:
                if p == name:
                    return v
                if p.startswith(name + '.'):
                    deeper.append((p[len(name) + 1:], v))
            inner = self.field(base[1], name)
            return updated(inner, tuple(deeper)) if deeper else inner
        return ('f', base, name)

    def aggregate(self, name):
        """members of a new structure without constructors"""
        if name not in self.aggregates:
            self.aggregates[name] = None
            for c, d in self.P.classes.items():
                if cname(c) == name and c not in self.baseline and not d.get('bases'):
                    own = c + '::' + c.rsplit('::', 1)[-1] + '('
                    if not any(i.startswith(own) for i in self.P.funcs):
                        self.aggregates[name] = [x['n'] for x in d['fields']]
        return self.aggregates[name]

    def write(self, st, lv, val, line=0):
        if lv[0] == 'L':
            b = st.loc.get(lv[1])
            if b is not None and b[0] == 'r':
                self.write(st, b[1], val, line)
            else:
                st.loc[lv[1]] = ('v', val)
                for h in [h for h in st.heap if root(h) == ('addr', lv[1])]:
                    del st.heap[h]
            return
        t = lv[1]
        if t[0] == 'addr':
            self.write(st, ('L', t[1]), val, line)
            return
        if val == t and t not in st.pub:
            st.heap.pop(t, None)
        else:
            st.heap[t] = val
            if t in st.pub:
                st.pub[t] = None
        if self.cfg.setevents and self.cfg.setevents(t):
            st.tr = st.tr + (('set', t, val, line),)

    def snap(self, st, t, deep=0):
        """value of a term independent of local storage"""
        if not isinstance(t, tuple):
            return t
        if t[0] == 'addr':
            c = self.content(st, t[1])
            c = self.snap(st, c, deep + 1) if deep < 6 else c
            upd = tuple(sorted(((path(h), self.snap(st, v, deep + 1)) for h, v in st.heap.items() if h[0] == 'f' and root(h) == t), key=repr)) \
                if deep < 6 else ()
            if upd:
                return updated(c, upd)
            return c
        if deep < 12 and any(isinstance(x, tuple) for x in t) and contains(t, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] == 'addr'):
            return tuple(self.snap(st, x, deep + 1) if isinstance(x, tuple) else x for x in t)
        return t

    def event(self, st, name, args, line):
        st.tr = st.tr + (('call', name, tuple(self.snap(st, a) for a in args), line),)

    # ------------------------------------------------------------------ conditions
    def truth(self, st, t):
        k = t[0]
        if k == 'b':
            return [(st, t[1])]
        if k == 'i':
            return [(st, t[1] != 0)]
        if k == 'fl':
            return [(st, t[1] != 0)]
        if k == 'null':
            return [(st, False)]
        if k == 'e':
            return [(st, t[2] != 0)]
        if k in ('s', 'n', 'addr', 'lam', 'this'):
            return [(st, True)]
        if k == 'o':
            if t[1] == '!':
                return [(s, not b) for s, b in self.truth(st, t[2])]
            if t[1] == '==':
                return self.eqtest(st, t[2], t[3])
            if t[1] == '<' and tied(t[2], t[3]):
                out = []
                a, b = t[2][2], t[3][2]
                for x, y in list(zip(a, b))[:-1]:
                    nxt = None
                    for s, v in self.eqtest(st, x, y):
                        if v:
                            nxt = s
                        else:
                            out += self.truth(s, self.less(x, y, s))
                    if nxt is None:
                        return out
                    st = nxt
                return out + self.truth(st, self.less(a[-1], b[-1], st))
        if k == 'c' and t[1] in ('count', 'erased') and len(t[2]) == 2:
            t = ('c', 'has', t[2])
        if t[:2] == ('c', 'has') and self.cfg.literal and len(t[2]) == 2:
            keys = table(t[2][0])
            if keys is not None:
                return [(s, v is not None) for s, v in self.lookup(st, keys, t[2][1])]
        if k == 'more' and self.entry:
            return [(s, not b) for s, b in self.truth(st, ('c', 'empty', (t[1],)))]
        if self.cfg.unroll:
            if k == 'c' and t[1] == 'empty' and len(t[2]) == 1:
                return [(s, not b) for s, b in self.truth(st, ('more', t[2][0], 0))]
            if k == 'more' and t[1][0] == 'ctor' and not t[1][2]:
                return [(st, False)]
        return self.atom(st, ('b', t))

    def lookup(self, st, entries, key):
        """the entry of a table that is written down, None if there is none"""
        self.expanded = True
        out = []
        for e in entries:
            nxt = None
            for s, v in self.eqtest(st, key, e[2][0] if e[0] == 'ctor' else e):
                if v:
                    out.append((s, e))
                else:
                    nxt = s
            if nxt is None:
                return out
            st = nxt
        return out + [(st, None)]

    def atom(self, st, a):
        v = st.facts.get(a)
        if v is None:
            v = self.implied(st, a[1])
        if v is not None:
            return [(st, v)]
        s2 = st.copy()
        st.facts[a] = True
        s2.facts[a] = False
        return [(st, True), (s2, False)]

    def implied(self, st, t):
        """bounds: x < c follows from other bounds and equalities on x"""
        if t[0] == 'more' and self.cfg.unroll:
            for k, v in st.facts.items():
                if k[0] == 'b' and k[1][0] == 'more' and k[1][1] == t[1] and (k[1][2] >= t[2] if v else k[1][2] <= t[2]):
                    return v
            return None
        if t[0] == 'o' and t[1] == '<' and t[3][0] == 'i':
            x, c = t[2], t[3][1]
            f = st.facts.get(('q', x))
            if f is not None and f[0] == 'eq' and f[1][0] in ('i', 'e'):
                return f[1][-1] < c
            for k, v in st.facts.items():
                if k[0] == 'b' and k[1][0] == 'o' and k[1][1] == '<' and k[1][2] == x and k[1][3][0] == 'i':
                    d = k[1][3][1]
                    if v and d <= c:
                        return True
                    if not v and d >= c:
                        return False
        return None

    def eqtest(self, st, a, b):
        if a == b:
            return [(st, True)]
        if tied(a, b):
            out = []
            for x, y in zip(a[2], b[2]):
                nxt = None
                for s, v in self.eqtest(st, x, y):
                    if v:
                        nxt = s
                    else:
                        out.append((s, False))
                if nxt is None:
                    return out
                st = nxt
            return out + [(st, True)]
        if isc(a) and isc(b):
            return [(st, consteq(a, b))]
        if isc(a):
            a, b = b, a
        if isc(b):
            if a[0] in ('n', 'addr', 'this') and b == NULL:
                return [(st, False)]
            if a[0] == 'conv' and len(a) == 4 and a[1] in ('string',) :
                a = a[3]
            if b[0] == 'b':
                r = self.truth(st, a)
                return [(s, v == b[1]) for s, v in r]
            # emptiness
            if a[0] == 'c' and a[1] == 'size' and b == I(0):
                return self.truth(st, ('c', 'empty', a[2]))
            if a[0] == 'c' and a[1] == 'size' and b[0] == 'i' and b[1] > 0 and self.cfg.unroll:
                out = []
                for s, v in self.truth(st, ('more', a[2][0], b[1] - 1)):
                    out += [(s2, not w) for s2, w in self.truth(s, ('more', a[2][0], b[1]))] if v else [(s, False)]
                return out
            if b == ('s', '') and a[0] != 'i':
                return self.truth(st, ('c', 'empty', (a,)))
            if a[0] == 'c' and a[1] in ('count', 'erased') and b == I(0):
                return [(s, not v) for s, v in self.truth(st, ('c', 'has', a[2]))]
            if a[0] == 'c' and a[1] == 'erased' and b == I(1):
                return self.truth(st, ('c', 'has', a[2]))
            if a[0] == 'x' and b[0] in ('i', 'e') and a[1] in INT_BITS:
                pass
            if b[0] == 'e':
                key_b = b
            else:
                key_b = b
            q = ('q', a)
            f = st.facts.get(q)
            if f is not None:
                if f[0] == 'eq':
                    return [(st, consteq(f[1], b))]
                if key_b in f[1]:
                    return [(st, False)]
            if key_b[0] == 'i':
                for k, v in st.facts.items():
                    if k[0] == 'b' and k[1][0] == 'o' and k[1][1] == '<' and k[1][2] == a and k[1][3][0] == 'i' and (key_b[1] < k[1][3][1]) != v:
                        return [(st, False)]
            ne = (f[1] if f else frozenset()) | {key_b}
            if key_b[0] == 'e' and self.exhausted(ne):
                st.facts[q] = ('eq', key_b)
                return [(st, True)]
            s2 = st.copy()
            st.facts[q] = ('eq', key_b)
            s2.facts[q] = ('ne', ne)
            return [(st, True), (s2, False)]
        # iterators
        for x, y in ((a, b), (b, a)):
            if y[0] == 'c' and y[1] in ('end', 'rend'):
                if x[:2] == ('c', 'found'):
                    return [(st, False)]
                C = y[2][0] if y[1] == 'end' else ('rev', y[2][0])
                if x[0] == 'c' and x[1] == 'find' and x[2][0] == C:
                    return [(s, not v) for s, v in self.truth(st, ('c', 'has', x[2]))]
                if x[0] == 'it' and untag(x[1]) == untag(C):
                    return [(s, not v) for s, v in self.truth(st, ('more', x[1], x[2]))]
                if x[0] == 'c' and x[1] == 'begin' and x[2][0] == C:
                    return self.truth(st, ('c', 'empty', (C,)))
        x, y = sorted((a, b), key=repr)
        return self.atom(st, ('b', ('o', '==', x, y)))

    def exhausted(self, ne):
        q = next(iter(ne))[1]
        en = self.P.enums.get(q.rsplit('::', 1)[0])
        if en is None:
            en = self.P.enums.get(q.rsplit('::', 1)[0] + '::E')
        if en is None:
            return False
        return {v for _, v in en['c']} <= {x[2] for x in ne if x[0] == 'e'}

    def cond(self, e, st, fr):
        """-> [(state, bool)] (states with a pending signal are passed through with None)"""
        if st.sig is not None:
            return [(st, None)]
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, None if b is None else not b) for s, b in self.cond(e['e'], st, fr)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st, fr):
                if b is None:
                    out.append((s, None))
                elif b == (e['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(e['b'], s, fr)
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st, fr):
                if b is None:
                    out.append((s, None))
                else:
                    out += self.cond(e['a'] if b else e['b'], s, fr)
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if s.sig is not None:
                out.append((s, None))
            else:
                out += self.truth(s, self.snap(s, v))
        return out

    # ------------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        """evaluates a list of expressions -> [(state, [terms])]"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                if s.sig is not None:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def lv(self, e, st, fr):
        """-> [(state, lvalue or None)]"""
        k = e['k']
        if k == 'var':
            key = (fr.no, e['id'])
            b = st.loc.get(key)
            if b is None:
                # variable of an enclosing frame (lambda bodies share the frame) or static local
                st.loc[key] = ('v', ('g', 'static:' + e['n']))
                b = st.loc[key]
            if b[0] == 'r':
                return [(st, b[1])]
            return [(st, ('L', key))]
        if k == 'gl':
            return [(st, ('T', ('g', e['n'])))]
        if k == 'mem':
            return [(s, ('T', self.memterm(s, b, e))) for s, b in self.base(e['b'], st, fr)]
        if k == 'un' and e['op'] == '*':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                out.append((s, self.ptr_lv(s, v)))
            return out
        if k == 'idx':
            out = []
            for s, vs in self.evs([e['a'], e['b']], st, fr):
                out.append((s, ('T', ('at', vs[0], vs[1])) if s.sig is None else None))
            return out
        if k == 'ocall' and e['f'] == 'Json::Value::operator[]':
            m = self.json_member(e, st, fr)
            if m is not None:
                return self.lv(m, st, fr)
        if k == 'ocall' and e['op'] == '*' and len(e['a']) == 1 or k == 'ocall' and e['op'] == '[]':
            out = []
            for s, v in self.ev(e, st, fr):
                out.append((s, ('T', v) if s.sig is None else None))
            return out
        if k == 'cast' and e['ck'] in ('BaseToDerived', 'NoOp'):
            return self.lv(e['e'], st, fr)
        if k == 'un' and e['op'] in ('++', '--'):
            out = []
            for s, v in self.ev(e, st, fr):
                for s2, l in self.lv(e['e'], s, fr) if s.sig is None else [(s, None)]:
                    out.append((s2, l))
            return out
        if k == 'ocall' and e['a'] and (e['op'] in ('++', '--') and len(e['a']) == 1 or e['op'] in ASSIGN_OPS) and std_operator(e['f']):
            out = []
            for s, v in self.ev(e, st, fr):
                for s2, l in self.lv(e['a'][0], s, fr) if s.sig is None else [(s, None)]:
                    out.append((s2, l))
            return out
        if k == 'bin' and e['op'] in ASSIGN_OPS:
            out = []
            for s, v in self.ev(e, st, fr):
                for s2, l in self.lv(e['a'], s, fr) if s.sig is None else [(s, None)]:
                    out.append((s2, l))
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st, fr):
                if b is None:
                    out.append((s, None))
                else:
                    out += self.lv(e['a'] if b else e['b'], s, fr)
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            out.append((s, self.ptr_lv(s, v) if s.sig is None else None))
        return out

    def ptr_lv(self, st, v):
        if v is None:
            return None
        if v[0] == 'addr':
            b = st.loc.get(v[1])
            if b is not None and b[0] == 'r':
                return b[1]
            return ('L', v[1])
        if v[0] == 'it':
            return ('T', ('el', v[1], v[2]))
        if v[0] == 'c' and v[1] == 'begin':
            return ('T', ('c', 'front', v[2]))
        return ('T', v)

    def base(self, e, st, fr):
        """base object of a member access -> [(state, term)] ; locals are kept as ('addr', key)"""
        if e['k'] == 'var':
            r = self.lv(e, st, fr)
            out = []
            for s, l in r:
                if l and l[0] == 'L' and '*' not in e['t']:
                    out.append((s, ('addr', l[1])))
                else:
                    out.append((s, self.read(s, l)))
            return out
        return self.ev(e, st, fr)

    def memterm(self, st, b, e):
        if b is None:
            return ('u', 'x')
        if b[0] == 'it':
            b = self.element(b)
        if b[0] == 'c' and b[1] == 'find' and fname(e) == 'second':
            return ('at', b[2][0], b[2][1])
        return ('f', b, fname(e))

    def ev(self, e, st, fr):
        if st.sig is not None:
            return [(st, None)]
        if e is None:
            return [(st, NULL)]
        m = getattr(self, 'ev_' + e['k'], None)
        if m is None:
            return self.ev_unknown(e, st, fr)
        return m(e, st, fr)

    def ev_unknown(self, e, st, fr):
        return [(st, ('u', e['k']))]

    def ev_unk(self, e, st, fr):
        return [(st, ('u', e.get('c', '')))]

    def ev_int(self, e, st, fr):
        return [(st, I(e['v']))]

    def ev_char(self, e, st, fr):
        return [(st, I(e['v']))]

    def ev_bool(self, e, st, fr):
        return [(st, TRUE if e['v'] else FALSE)]

    def ev_float(self, e, st, fr):
        return [(st, ('fl', float(e['v'])))]

    def ev_str(self, e, st, fr):
        return [(st, ('s', e['v']))]

    def ev_null(self, e, st, fr):
        return [(st, NULL)]

    def ev_this(self, e, st, fr):
        return [(st, fr.this)]

    def ev_enum(self, e, st, fr):
        return [(st, ('e', e['n'], e['v']))]

    def ev_sizeof(self, e, st, fr):
        return [(st, ('c', 'sizeof', (('s', e['t']),)))]

    def ev_zero(self, e, st, fr):
        t = e['t']
        if t == 'bool':
            return [(st, FALSE)]
        if t in INT_BITS:
            return [(st, I(0))]
        if t.endswith('*'):
            return [(st, NULL)]
        return [(st, ('ctor', cname(t), ()))]

    def ev_typeid(self, e, st, fr):
        return [(st, ('u', 'typeid'))]

    def ev_func(self, e, st, fr):
        return [(st, ('fn', e['id']))]

    def ev_var(self, e, st, fr):
        out = []
        for s, l in self.lv(e, st, fr):
            v = self.read(s, l)
            if l[0] == 'L' and any(root(h) == ('addr', l[1]) for h in s.heap):
                # a local object whose members were assigned one by one
                v = self.snap(s, ('addr', l[1]))
            out.append((s, v))
        return out

    def ev_gl(self, e, st, fr):
        t = ('g', e['n'])
        v = st.heap.get(t)
        if v is not None:
            return [(st, v)]
        c = self.global_const(e['n'])
        return [(st, c if c is not None else self.tagged(st, t))]

    def global_const(self, q):
        if q in self.gconst:
            return self.gconst[q]
        self.gconst[q] = None
        g = self.P.globals.get(q)
        if g is not None and q not in self.P.mutated_globals():
            t = unqual(g['t'])
            if t in INT_BITS or t in ('char *', 'std::basic_string<char>', 'float', 'double') or g['t'] in ('const char *', 'const char *const') \
                    or t.startswith('Slang::') and t.endswith('::E') or t in self.P.enums:
                r = self.ev(g['i'], State(), Frame(0, ('this',), None, 0, ()))
                if len(r) == 1 and r[0][1] is not None and isc(r[0][1]):
                    self.gconst[q] = r[0][1]
            elif g['t'].startswith('const ') and q not in self.baseline.ref.globals and g.get('i') is not None:
                # a new table
                r = self.ev(g['i'], State(), Frame(0, ('this',), None, 0, ()))
                if len(r) == 1 and r[0][1] is not None and items(r[0][1]) is not None:
                    self.gconst[q] = r[0][1]
        return self.gconst[q]

    def ev_mem(self, e, st, fr):
        out = []
        for s, b in self.base(e['b'], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            if b[0] == 'it':
                b = self.element(b)
            if b[0] == 'addr':
                t = ('f', b, fname(e))
                out.append((s, self.read(s, ('T', t))))
            else:
                t = self.field(b, fname(e))
                out.append((s, self.hread(s, t)))
        return out

    def ev_dyncast(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            out.append((s, ('dyn', cname(unqual(e['t']).replace(' *', '')), self.snap(s, v)) if s.sig is None else None))
        return out

    def ev_cast(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            out.append((s, self.convert(s, v, e['ck'], e['t'], e['ft'])))
        return out

    def convert(self, st, v, ck, to, frm):
        to, frm = unqual(to), unqual(frm)
        if ck == 'IntegralCast':
            if v[0] == 'e' or v[0] == 'i':
                if v[0] == 'i' and to in INT_BITS:
                    n, b = v[1], INT_BITS[to]
                    n &= (1 << b) - 1
                    if not to.startswith('unsigned') and to != 'bool' and n >> (b - 1):
                        n -= 1 << b
                    return I(n)
                return v
            if frm not in INT_BITS or to not in INT_BITS:
                return v
            if INT_BITS[to] > INT_BITS[frm]:
                return v
            if v[0] == 'b':
                return I(1 if v[1] else 0)
            if INT_BITS[to] == INT_BITS[frm]:
                return v if v[0] != 'x' else v
            return ('x', to, self.snap(st, v))
        if ck in ('IntegralToBoolean',):
            return neg(('o', '==', self.snap(st, v), I(0))) if not isc(v) else (TRUE if self.truth(st, v)[0][1] else FALSE)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            v = self.snap(st, v) if v[0] != 'addr' else v
            if v[0] in ('n', 'addr', 'this', 's', 'fn'):
                return TRUE
            return neg(('o', '==', v, NULL)) if not isc(v) else (TRUE if self.truth(st, v)[0][1] else FALSE)
        if ck == 'FloatingToBoolean':
            return neg(('o', '==', self.snap(st, v), ('fl', 0.0)))
        if ck == 'IntegralToFloating':
            if v[0] == 'i':
                return ('fl', float(v[1]))
            return ('x', to, self.snap(st, v))
        if ck == 'FloatingCast':
            if v[0] == 'fl':
                return v
            if to == 'double' and frm == 'float':
                return v
            return ('x', to, self.snap(st, v))
        if ck == 'FloatingToIntegral':
            return ('x', to, self.snap(st, v))
        return v

    def ev_copy(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            out.append((s, self.snap(s, v) if s.sig is None else None))
        return out

    def ev_list(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['a'], st, fr):
            if s.sig is not None:
                out.append((s, None))
            elif len(vs) == 1 and (unqual(e['t']) in INT_BITS or e['t'].endswith(('*', '::E')) or unqual(e['t']) in ('double', 'float')):
                out.append((s, vs[0]))
            elif not vs and unqual(e['t']) in INT_BITS:
                out.append((s, FALSE if unqual(e['t']) == 'bool' else I(0)))
            else:
                out.append((s, ('ctor', cname(unqual(e['t'])), tuple(self.snap(s, v) for v in vs))))
        return out

    def ev_ctor(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['a'], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            out.append((s, self.make_ctor(s, e, vs)))
        return out

    def make_ctor(self, s, e, vs):
        vs = [self.snap(s, v) for v in vs]
        t = cname(unqual(e['t']))
        if t.startswith('basic_string<char'):
            if not vs:
                return ('s', '')
            if len(vs) >= 1 and (vs[0][0] == 's' or True) and (len(vs) == 1 or (len(vs) == 2 and vs[1][0] == 'ctor' and 'allocator' in vs[1][1])):
                return vs[0]
        if t.startswith('pair<'):
            return ('ctor', 'pair', tuple(vs))
        if '_iterator' in t and len(vs) == 1:
            return vs[0]
        pts = param_types(e['id'])
        if len(vs) == 1 and pts:
            return ('conv', t, cname(unqual(pts[0])), vs[0])
        return ('ctor', t, tuple(vs))

    def ev_new(self, e, st, fr):
        if not e.get('i'):
            return [(st, ('n', cname(e['t']), ()))]
        i = e['i']
        if i['k'] == 'ctor':
            out = []
            for s, vs in self.evs(i['a'], st, fr):
                out.append((s, ('n', cname(e['t']), tuple(self.snap(s, v) for v in vs)) if s.sig is None else None))
            return out
        out = []
        for s, v in self.ev(i, st, fr):
            out.append((s, ('n', cname(e['t']), (self.snap(s, v),)) if s.sig is None else None))
        return out

    def ev_delete(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if s.sig is None:
                if self.want('delete'):
                    self.evname['delete'] = (frozenset(('<free>',)), frozenset(('<free>',)), False)
                    self.event(s, 'delete', [v], e.get('l', 0))
            out.append((s, NULL))
        return out

    def want(self, name):
        if name in self.cfg.ignore:
            return False
        if self.cfg.events is not None:
            return self.cfg.events(name)
        base = name.split('::')
        return not any(b in IGNORED for b in base)

    def ev_throw(self, e, st, fr):
        if 'e' not in e:
            cur = st.loc.get('curexc')
            st.sig = ('throw',) + (cur[1:] if cur else ('?', ('u', '?')))
            st.line = e.get('l', 0)
            return [(st, None)]
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if s.sig is None:
                s.sig = ('throw', unqual(e['t']), self.snap(s, v))
                s.line = e.get('l', 0)
            out.append((s, None))
        return out

    def ev_lambda(self, e, st, fr):
        self.lams[id(e)] = (e, fr)
        return [(st, ('lam', id(e)))]

    def ev_stmtexpr(self, e, st, fr):
        return [(s, ('u', 'stmtexpr')) for s in self.exec(e['s'], st, fr)]

    def ev_cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e['c'], st, fr):
            if b is None:
                out.append((s, None))
            else:
                out += self.ev(e['a'] if b else e['b'], s, fr)
        return out

    def ev_idx(self, e, st, fr):
        out = []
        for s, vs in self.evs([e['a'], e['b']], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            t = self.index(s, self.snap(s, vs[0]), self.snap(s, vs[1]))
            out.append((s, self.hread(s, t)))
        return out

    def index(self, s, a, i, f=''):
        if 'basic_string' in f or 'vector' in f:
            if i == I(0) and not self.cfg.unroll:
                return ('c', 'front', (a,))
            if i == addc(('c', 'size', (a,)), -1):
                return ('c', 'back', (a,))
        if self.cfg.unroll and i[0] == 'i' and i[1] >= 0:
            return ('el', a, i[1])
        if i[0] == 'ix':
            return ('el', a, self.loop_no(s, a, i))
        return ('at', a, i)

    def loop_no(self, st, C, tag):
        """number of the loop over C on this path"""
        m = st.cnt.get(('lo', C), ())
        if tag not in m:
            m = m + (tag,)
            st.cnt[('lo', C)] = m
        return m.index(tag)

    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '!':
            return [(s, None if b is None else (TRUE if b else FALSE)) for s, b in self.cond(e, st, fr)]
        if op == '&':
            out = []
            for s, l in self.lv(e['e'], st, fr):
                if s.sig is not None or l is None:
                    out.append((s, None if s.sig is not None else ('u', 'addr')))
                elif l[0] == 'L':
                    out.append((s, ('addr', l[1])))
                else:
                    out.append((s, self.hread(s, l[1])))
            return out
        if op == '*':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if s.sig is not None:
                    out.append((s, None))
                    continue
                l = self.ptr_lv(s, v)
                out.append((s, self.read(s, l)))
            return out
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                if s.sig is not None:
                    out.append((s, None))
                    continue
                old = self.read(s, l)
                new = self.step(s, old, '+' if '++' in op else '-')
                self.write(s, l, new, e.get('l', 0))
                out.append((s, old if op[0] == 'p' else new))
            return out
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            v = self.snap(s, v)
            if op == '-':
                v = I(-v[1]) if v[0] == 'i' else (('fl', -v[1]) if v[0] == 'fl' else ('o', 'neg', v))
            elif op == '~':
                v = ('o', '~', v)
            elif op == '+':
                pass
            else:
                v = ('o', op, v)
            out.append((s, v))
        return out

    def step(self, s, old, d):
        old = self.snap(s, old)
        if old[0] == 'i':
            return I(old[1] + (1 if d == '+' else -1))
        if old[0] == 'it' and self.cfg.unroll and (d == '+' or old[2] > 0):
            return ('it', old[1], old[2] + (1 if d == '+' else -1))
        if old[0] == 'it' or old[0] == 'c' and old[1] in ('begin', 'rbegin'):
            return ('next', old) if d == '+' else ('prev', old)
        return addc(old, 1 if d == '+' else -1)

    def ev_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, None if b is None else (TRUE if b else FALSE)) for s, b in self.cond(e, st, fr)]
        if op == ',':
            out = []
            for s, _ in self.ev(e['a'], st, fr):
                out += self.ev(e['b'], s, fr)
            return out
        if op == '=':
            return self.assign(e['a'], e['b'], st, fr, e.get('l', 0))
        if op in ASSIGN_OPS:
            out = []
            for s, v in self.ev(e['b'], st, fr):
                if s.sig is not None:
                    out.append((s, None))
                    continue
                v = self.snap(s, v)
                for s2, l in self.lv(e['a'], s, fr):
                    if s2.sig is not None:
                        out.append((s2, None))
                        continue
                    old = self.snap(s2, self.read(s2, l))
                    ct, lt = e.get('ct'), e.get('lt', '')
                    if ct:
                        old = self.convert(s2, old, conversion(lt, ct), ct, lt)
                    new = self.binop(op[:-1], old, v, ct or lt)
                    if ct:
                        new = self.convert(s2, new, conversion(ct, lt), lt, ct)
                    self.write(s2, l, new, e.get('l', 0))
                    out.append((s2, new))
            return out
        out = []
        for s, vs in self.evs([e['a'], e['b']], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            out.append((s, self.binop(op, self.snap(s, vs[0]), self.snap(s, vs[1]), e.get('lt', ''), s)))
        return out

    def assign(self, a, b, st, fr, line):
        out = []
        for s, v in self.ev(b, st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            if v[0] != 'addr':
                v = self.snap(s, v)
            for s2, l in self.lv(a, s, fr):
                if s2.sig is None:
                    self.write(s2, l, v, line)
                out.append((s2, v if s2.sig is None else None))
        return out

    def binop(self, op, a, b, lt='', st=None):
        fl = unqual(lt) in ('float', 'double', 'long double')
        if op == '==':
            return eqterm(a, b)
        if op == '!=':
            return neg(eqterm(a, b))
        if a[0] in ('i', 'fl') and b[0] in ('i', 'fl') and a[0] == b[0]:
            r = constbin(op, a[1], b[1], a[0])
            if r is not None:
                return r
        if fl:
            if op == '>':
                return ('o', '<', b, a)
            if op == '<':
                return ('o', '<', a, b)
            if op == '<=':
                return ('o', '<=', a, b)
            if op == '>=':
                return ('o', '<=', b, a)
        if op in ('<', '>', '<=', '>=') and unqual(lt) in ('int', 'long', 'short'):
            if b == I(0) and a[0] == 'o' and a[1] == '-' and len(a) == 4:
                a, b = a[2], a[3]
            elif a == I(0) and b[0] == 'o' and b[1] == '-' and len(b) == 4:
                a, b = b[3], b[2]
            # signed numbers: summands go to the side of the constant
            if a[0] == 'o' and a[1] == '+' and len(a) == 4 and a[3][0] == 'i':
                a, b = a[2], addc(b, -a[3][1])
            elif a[0] == 'i' and b[0] == 'o' and b[1] == '+' and len(b) == 4 and b[3][0] == 'i':
                a, b = addc(a, -b[3][1]), b[2]
        if unqual(lt).startswith('unsigned '):
            # nothing is less than zero
            if a[0] == 'i' and op in ('<', '>', '<=', '>='):
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if op in ('>', '<=') and b == I(0) or op in ('<', '>=') and b == I(1):
                r = ('c', 'empty', a[2]) if a[:2] == ('c', 'size') else eqterm(a, I(0))
                return r if op in ('<', '<=') else neg(r)
        if op == '>':
            return self.less(b, a, st)
        if op == '<':
            return self.less(a, b, st)
        if op == '<=':
            return neg(self.less(b, a, st))
        if op == '>=':
            return neg(self.less(a, b, st))
        if op == '+' and 'string' in lt:
            return cat(a, b)
        if op in ('+', '-') and b[0] == 'i' and 'string' not in lt:
            return addc(a, b[1] if op == '+' else -b[1])
        if op in ('+', '*', '&', '|', '^') and 'string' not in lt and '*' not in lt:
            a, b = sorted((a, b), key=repr)
        return ('o', op, a, b)

    def less(self, a, b, st=None):
        if a[0] == 'i' and b[0] == 'i':
            return TRUE if a[1] < b[1] else FALSE
        if a == I(0) and b[0] == 'c' and b[1] == 'size':
            return neg(('c', 'empty', b[2]))
        if self.cfg.unroll:
            if b[0] == 'c' and b[1] == 'size' and a[0] == 'i' and a[1] >= 0:
                return ('more', b[2][0], a[1])
            if a[0] == 'c' and a[1] == 'size' and b[0] == 'i' and b[1] > 0:
                return neg(('more', a[2][0], b[1] - 1))
        if b[0] == 'c' and b[1] == 'size' and a[0] == 'ix' and st is not None:
            return ('more', b[2][0], self.loop_no(st, b[2][0], a))
        if b == I(1) and a[0] == 'c' and a[1] == 'size':
            return ('c', 'empty', a[2])
        if a[0] == 'e' and b[0] == 'e':
            return TRUE if a[2] < b[2] else FALSE
        if a[0] == 'i':
            # c < x  ==  !(x < c + 1)
            return neg(self.less(b, I(a[1] + 1), st))
        if a[0] == 'o' and a[1] == '+' and len(a) == 4 and a[3][0] == 'i' and a[3][1] > 0 and b[:2] == ('c', 'size') and st is not None \
                and self.implied(st, ('o', '<', b, a[3])) is False:
            # x + n < size  ==  x < size - n, where the size is known not to be less than n
            return self.less(a[2], addc(b, -a[3][1]), st)
        return ('o', '<', a, b)

    # ------------------------------------------------------------------ calls
    def json_member(self, e, st, fr):
        """the member of a Json value with a known name, as a data member (see model.name_members)"""
        key = e['a'][1]
        while key['k'] in ('ctor', 'copy', 'cast') and (key.get('e') or len(key.get('a', ())) == 1):
            key = key.get('e') or key['a'][0]
        if key['k'] != 'var':
            return None
        b = st.loc.get((fr.no, key['id']))
        if b is None:
            return None
        v = self.read(st, b[1]) if b[0] == 'r' else b[1]
        if v[0] not in ('s', 'g'):
            return None
        name = '[%s]' % v[1]
        return {'k': 'mem', 'b': e['a'][0], 'n': name, 'q': 'Json::Value::' + name, 't': e.get('t'), 'l': e.get('l')}

    def ev_ocall(self, e, st, fr):
        op, a = e['op'], e['a']
        f = e['f']
        isstd = std_operator(f)
        if f == 'Json::Value::operator[]':
            m = self.json_member(e, st, fr)
            if m is not None:
                return self.ev_mem(m, st, fr)
        if op == '()' and a:
            out = []
            for s, v in self.ev(a[0], st, fr):
                if s.sig is None and v[0] == 'lam':
                    for s2, vs in self.evs(a[1:], s, fr):
                        out += self.call_lambda(v, vs, s2) if s2.sig is None else [(s2, None)]
                elif s.sig is not None:
                    out.append((s, None))
                else:
                    for s2, vs in self.evs(a[1:], s, fr):
                        out += self.call(e, v, vs, s2, fr) if s2.sig is None else [(s2, None)]
            return out
        if op == '=' and len(a) == 2:
            pts = param_types(e['id'])
            cls = cname(f.rsplit('::', 1)[0])
            pt = cname(unqual(pts[0])) if pts else ''
            plain = isstd or pt == cls
            if not plain and not self.should_inline_id(e['id']):
                out = []
                for s, v in self.ev(a[1], st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                        continue
                    v = ('conv', cls, pt, self.snap(s, v))
                    for s2, l in self.lv(a[0], s, fr):
                        if s2.sig is None:
                            self.write(s2, l, v, e.get('l', 0))
                        out.append((s2, v))
                return out
            if plain:
                return self.assign(a[0], a[1], st, fr, e.get('l', 0))
        if isstd:
            if op in ('==', '!=', '<', '>', '<=', '>=', '+') and len(a) == 2:
                out = []
                for s, vs in self.evs(a, st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                    else:
                        out.append((s, self.binop(op, self.snap(s, vs[0]), self.snap(s, vs[1]), 'string' if op == '+' and f == 'std::operator+' else '')))
                return out
            if op in ('*', '->') and len(a) == 1:
                out = []
                for s, v in self.ev(a[0], st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                        continue
                    l = self.ptr_lv(s, v)
                    if v[0] == 'it' and not pointers(f):
                        self.element(v)
                    if l == ('T', v) and v[0] != 'c' and 'terator' in f:
                        # the place where the iterator is kept is not what it points to
                        l = ('T', ('f', v, '*'))
                    out.append((s, self.read(s, l)))
                return out
            if op in ('++', '--'):
                out = []
                for s, l in self.lv(a[0], st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                        continue
                    old = self.read(s, l)
                    new = self.step(s, old, '+' if op == '++' else '-')
                    self.write(s, l, new, e.get('l', 0))
                    out.append((s, old if len(a) == 2 else new))
                return out
            if op == '[]':
                out = []
                for s, vs in self.evs(a, st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                        continue
                    t = self.index(s, self.snap(s, vs[0]), self.snap(s, vs[1]), f)
                    out.append((s, self.hread(s, t)))
                return out
            if op == '+=' and len(a) == 2:
                out = []
                for s, v in self.ev(a[1], st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                        continue
                    for s2, l in self.lv(a[0], s, fr):
                        if s2.sig is None:
                            new = self.binop('+', self.snap(s2, self.read(s2, l)), self.snap(s2, v), 'string' if 'basic_string' in f else '')
                            self.write(s2, l, new, e.get('l', 0))
                        out.append((s2, new if s2.sig is None else None))
                return out
            if op == '!' and len(a) == 1:
                return [(s, None if s.sig is not None else neg(('c', 'operator bool', (self.snap(s, v),)))) for s, v in self.ev(a[0], st, fr)]
            if op == '<<':
                root, args = e, []
                while root['k'] == 'ocall' and root['op'] == '<<' and root.get('f', '').startswith('std::') and len(root['a']) == 2:
                    args.insert(0, root['a'][1])
                    root = root['a'][0]
                out = []
                for s, vs in self.evs([root] + args, st, fr):
                    if s.sig is not None:
                        out.append((s, None))
                        continue
                    texts = [x for v, t in zip(vs[1:], args) for x in pieces(streamed(self.snap(s, v), t.get('t', '')))]
                    if vs[0][0] == 'g' and vs[0][1] in PRINTS:
                        name = PRINTS[vs[0][1]]
                        self.evname[name] = (IOSET, IOSET, False)
                        for x in texts:
                            s.tr = s.tr + (('call', name, (x,), e.get('l', 0)),)
                        out.append((s, vs[0]))
                    elif root['k'] in ('var', 'mem'):
                        for s2, l in self.lv(root, s, fr):
                            v = self.snap(s2, vs[0])
                            for x in texts:
                                v = ('aft', '<<', v, (x,))
                            self.write(s2, l, v, e.get('l', 0))
                            out.append((s2, vs[0]))
                    else:
                        out.append((s, vs[0]))
                return out
            if op == '>>':
                out = []
                for s, vs in self.evs(a, st, fr):
                    if s.sig is None:
                        # stream state is not tracked; extracted values are opaque
                        for x in a[1:]:
                            for s2, l in self.lv(x, s, fr):
                                self.write(s2, l, ('c', '>> ' + unqual(x.get('t', '')), (self.snap(s2, vs[0]),)), 0)
                        if a[0]['k'] == 'var':
                            for s2, l in self.lv(a[0], s, fr):
                                self.write(s2, l, ('aft', op, self.snap(s2, vs[0]), (self.snap(s2, vs[1]),)), 0)
                    out.append((s, vs[0] if s.sig is None else None))
                return out
        # project operators
        recv_first = e.get('m')
        out = []
        if recv_first:
            for s, b in self.base(a[0], st, fr):
                if s.sig is not None:
                    out.append((s, None))
                    continue
                for s2, vs in self.evargs(e, a[1:], s, fr):
                    out += self.call(e, b, vs, s2, fr) if s2.sig is None else [(s2, None)]
        else:
            for s2, vs in self.evargs(e, a, st, fr):
                out += self.call(e, None, vs, s2, fr) if s2.sig is None else [(s2, None)]
        return out

    def evargs(self, e, args, st, fr):
        """arguments; those bound to non-const references keep their storage"""
        pts = param_types(e.get('id', ''))
        res = [(st, [])]
        for i, a in enumerate(args):
            nxt = []
            pt = pts[i] if i < len(pts) else ''
            for s, vs in res:
                if s.sig is not None:
                    nxt.append((s, vs))
                    continue
                if pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('&&'):
                    for s2, l in self.lv(a, s, fr):
                        if s2.sig is not None or l is None:
                            nxt.append((s2, vs + [None]))
                        elif l[0] == 'L':
                            nxt.append((s2, vs + [('addr', l[1])]))
                        else:
                            nxt.append((s2, vs + [('lvt', l[1])]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_call(self, e, st, fr):
        f = e['f']
        if f in ('std::move', 'std::forward', 'std::ref', 'std::cref') and len(e['a']) == 1:
            return self.ev(e['a'][0], st, fr)
        if f in ('std::make_pair',):
            out = []
            for s, vs in self.evs(e['a'], st, fr):
                out.append((s, ('ctor', 'pair', tuple(self.snap(s, v) for v in vs)) if s.sig is None else None))
            return out
        if f in ('isdigit', 'std::isdigit') and len(e['a']) == 1:
            out = []
            for s, vs in self.evs(e['a'], st, fr):
                if s.sig is not None:
                    out.append((s, None))
                    continue
                c = self.snap(s, vs[0])
                while c[0] == 'x':
                    c = c[-1]
                for s2, b in self.truth(s, ('o', '<', c, I(48))):
                    if b:
                        out.append((s2, I(0)))
                    else:
                        out += [(s3, I(1 if b3 else 0)) for s3, b3 in self.truth(s2, ('o', '<', c, I(58)))]
            return out
        if f in ('__assert_fail', 'abort', 'std::abort', 'std::terminate'):
            st.sig = ('abort',)
            st.line = e.get('l', 0)
            return [(st, None)]
        if f in ('exit', 'std::exit', '_exit'):
            out = []
            for s, vs in self.evs(e['a'], st, fr):
                if s.sig is None:
                    s.sig = ('exit', self.snap(s, vs[0]))
                    s.line = e.get('l', 0)
                out.append((s, None))
            return out
        if f in ('std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::for_each', 'std::find') and len(e['a']) == 3 \
                or FILLS.get(f) == len(e['a']) and filled(e['a'][2]) is not None:
            r = self.algorithm(e, st, fr)
            if r is not None:
                return r
        if f == '?' and 'fe' in e:
            out = []
            for s, v in self.ev(e['fe'], st, fr):
                if s.sig is None and v[0] == 'lam':
                    for s2, vs in self.evs(e['a'], s, fr):
                        out += self.call_lambda(v, vs, s2) if s2.sig is None else [(s2, None)]
                else:
                    for s2, vs in self.evs(e['a'], s, fr):
                        out += self.call(e, v, vs, s2, fr) if s2.sig is None else [(s2, None)]
            return out
        out = []
        for s, vs in self.evargs(e, e['a'], st, fr):
            out += self.call(e, None, vs, s, fr) if s.sig is None else [(s, None)]
        return out

    def ev_mcall(self, e, st, fr):
        out = []
        for s, b in self.base(e['o'], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            if b[0] == 'it' and not e['f'].startswith('std::'):
                b = self.element(b)
            for s2, vs in self.evargs(e, e['a'], s, fr):
                out += self.call(e, b, vs, s2, fr) if s2.sig is None else [(s2, None)]
        return out

    # --- lambdas and algorithms
    def call_lambda(self, lam, args, st):
        e, fr = self.lams[lam[1]]
        for p, a in zip(e['p'], args):
            self.bind(st, (fr.no, p['id']), p['t'], a)
        out = []
        for s in self.exec(e['body'], st, fr):
            if s.sig is not None and s.sig[0] == 'return':
                v = s.sig[1]
                s.sig = None
                out.append((s, v if v is not None else NULL))
            elif s.sig is None:
                out.append((s, NULL))
            else:
                out.append((s, None))
        return out

    def bind(self, st, key, ptype, a):
        if a[0] == 'lvt':
            st.loc[key] = ('r', ('T', a[1]))
        elif a[0] == 'addr' and ptype.endswith('&'):
            st.loc[key] = ('r', ('L', a[1]))
        elif a[0] == 'addr' and not ptype.endswith('*'):
            st.loc[key] = ('v', self.snap(st, a))
        elif ptype.startswith('const ') and ptype.endswith('&') and a[0] in ('el', 'at', 'f', 'p') and a not in st.heap:
            st.loc[key] = ('r', ('T', a))
        else:
            st.loc[key] = ('v', a)

    def algorithm(self, e, st, fr):
        f = e['f']
        out = []
        fills = f in FILLS
        for s, vs in self.evs(e['a'][:2] + e['a'][3:] if fills else e['a'], st, fr):
            if s.sig is not None:
                out.append((s, None))
                continue
            a, b = self.snap(s, vs[0]), self.snap(s, vs[1])
            if a[0] == 'it' and self.cfg.unroll and a[2] == 0:
                a = ('c', 'begin', (a[1],))
            if not (a[0] == 'c' and a[1] == 'begin' and b[0] == 'c' and b[1] == 'end' and a[2] == b[2]):
                return None
            C = a[2][0]
            k = None if self.cfg.unroll else self.loop_no(s, C, ('alg', len(s.cnt.get(('lo', C), ()))))
            pred = vs[2] if len(vs) > 2 else None
            if f not in ('std::find', 'std::copy') and pred[0] != 'lam':
                return None
            pos = ('pos', id(e))

            def at(x):
                return x.loc[pos][1][1] if k is None else k
            if k is None:
                s.loc[pos] = ('v', I(0))

            def body(s1):
                if fills:
                    el = ('el', C, at(s1))
                    rs, res = [(s1, TRUE)], []
                    if pred is not None:
                        rs = self.call_lambda(pred, [el], s1)
                    for s2, v in rs:
                        if s2.sig is not None:
                            res.append(s2)
                            continue
                        for s3, t in self.truth(s2, self.snap(s2, v)) if f == 'std::copy_if' else [(s2, True)]:
                            if t:
                                res += self.put(e['a'][2], v if f == 'std::transform' else self.hread(s3, el), s3, fr)
                            else:
                                res.append(s3)
                    return res
                if f == 'std::find':
                    rs = self.eqtest(s1, ('el', C, at(s1)), self.snap(s1, pred))
                else:
                    rs = []
                    for s2, v in self.call_lambda(pred, [('el', C, at(s1))], s1):
                        if s2.sig is not None:
                            rs.append((s2, None))
                        elif f == 'std::for_each':
                            rs.append((s2, False))
                        else:
                            rs += self.truth(s2, self.snap(s2, v))
                res = []
                for s2, t in rs:
                    if t is None:
                        res.append(s2)
                        continue
                    hit = (not t) if f == 'std::all_of' else t
                    if f == 'std::for_each':
                        hit = False
                    if hit:
                        s2.sig = ('break',)
                    res.append(s2)
                return res
            key = ('alg', id(e))
            s.loc[key] = ('v', ('b', False))

            def body2(s1):
                r = body(s1)
                for x in r:
                    if x.sig == ('break',):
                        x.loc[key] = ('v', ('b', True))
                return r
            def inc(s1):
                s1.loc[pos] = ('v', I(s1.loc[pos][1][1] + 1))
                return [s1]
            for s2 in self.loop(s, lambda s1: self.truth(s1, ('more', C, at(s1))), body2, inc if k is None else None, fr):
                if s2.sig is not None:
                    out.append((s2, None))
                    continue
                hit = s2.loc.pop(key)[1] == TRUE
                i = at(s2)
                s2.loc.pop(pos, None)
                if f == 'std::find_if' or f == 'std::find':
                    out.append((s2, ('it', C, i) if hit else ('c', 'end', (C,))))
                elif f == 'std::any_of':
                    out.append((s2, TRUE if hit else FALSE))
                elif f in ('std::all_of', 'std::none_of'):
                    out.append((s2, FALSE if hit else TRUE))
                else:
                    out.append((s2, NULL))
        return out

    def put(self, e, v, st, fr):
        """stores a value through an insert iterator"""
        x, name = filled(e)
        out = []
        for s, b in self.base(x, st, fr):
            c = {'k': 'mcall', 'f': unqual(x['t']) + '::' + name, 'id': '', 'l': e.get('l', 0), 't': 'void', 'o': x, 'a': []}
            out += [s2 for s2, _ in self.std_model(c, name, b, [v], s)]
        return out

    # --- decision: look into the callee?
    def should_inline_id(self, fid, virt=False):
        f = self.P.funcs.get(fid)
        return f is not None and self.should_inline(f)

    def should_inline(self, f):
        n = cname(f['f'])
        if n in self.cfg.opaque or f['name'] in self.cfg.opaque:
            return False
        if n in self.cfg.inline or f['name'] in self.cfg.inline:
            return True
        if f['f'] not in self.baseline:
            return True
        if self.cfg.inline_files and any(f['file'].endswith(x) for x in self.cfg.inline_files):
            return True
        if f['id'] in self.baseline.accessors:
            return True
        return self.cfg.inline_all

    def resolve_target(self, e, fr, recv):
        """function body a call refers to, or None when it is not unique"""
        fid = e.get('id')
        f = self.P.funcs.get(fid)
        if f is None:
            return None
        if e.get('dv'):
            ov = self.P.overriders.get(fid, set())
            if ov:
                if self.cfg.virtual_this and recv == ('this',):
                    for c in (self.cfg.virtual_this,):
                        for o in ov | {fid}:
                            if self.P.funcs[o].get('cls') == c:
                                return self.P.funcs[o]
                return None
        if f['file'] != '' and fr.func is not None:
            # same signature in several files: prefer the caller's file
            alt = self.P.funcs.get(fid + '@' + fr.func['file'])
            if alt is not None:
                return alt
        return f

    def call(self, e, recv, args, st, fr):
        self.calls_seen += 1
        name = cname(e['f'])
        line = e.get('l', 0)
        mod = self.cfg.models.get(name)
        if mod is not None:
            r = mod(self, e, recv, args, st, fr)
            if r is not None:
                return r
        r = self.std_model(e, name, recv, args, st)
        if r is not None:
            return r
        f = self.resolve_target(e, fr, recv)
        if f is not None and f['id'] not in fr.chain and fr.depth < 8 and self.should_inline(f):
            return self.inline(f, recv, args, st, fr, e)
        return self.opaque(e, name, recv, args, st, fr, line)

    def inline(self, f, recv, args, st, fr, e):
        self.visited_funcs.add(f['id'])
        no = st.nf
        st.nf += 1
        st.loc[('frame',)] = ('v', I(no))
        nfr = Frame((no, f['id']), recv if recv is not None else ('this',) if not f.get('cls') else ('u', 'static'), f, fr.depth + 1, fr.chain + (f['id'],))
        if recv is not None and recv[0] == 'lvt':
            nfr.this = recv[1]
        for i, (p, a) in enumerate(zip(f['p'], args)):
            x = e['a'][i] if len(e.get('a', ())) == len(args) else None
            if a[0] not in ('addr', 'lvt') and x is not None and x['k'] == 'var' and st.loc.get((fr.no, x['id']), ' ')[0] == 'v':
                st.loc[(nfr.no, p['id'])] = ('v', a)    # a copy of its own, wherever it came from
            else:
                self.bind(st, (nfr.no, p['id']), p['t'], a)
        out = []
        for s in self.exec(f['body'], st, nfr):
            for k in [k for k in s.loc if k[0] == nfr.no]:
                del s.loc[k]
            if s.sig is not None and s.sig[0] == 'return':
                v = s.sig[1]
                s.sig = None
                if v is None:
                    v = NULL
                out.append((s, v))
            elif s.sig is None:
                out.append((s, NULL))
            else:
                out.append((s, None))
        # join what became indistinguishable
        return self.merge_vals(out)

    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        groups = {}
        order = []
        for s, v in pairs:
            s.nf = max(x[0].nf for x in pairs)
            k = (s.rest(), v)
            if k not in groups:
                order.append(k)
            groups.setdefault(k, []).append(s)
        out = []
        for k in order:
            for s in merge_facts(groups[k]) if len(groups[k]) > 1 else groups[k]:
                out.append((s, k[1]))
        return out

    def occurrence(self, st, key):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def effect_of(self, e):
        """-> (reads, mods, throws) of a call, from the recorded interfaces of known functions"""
        fid = e.get('id', '')
        r = self.eff.get(fid)
        if r is not None:
            return r
        q = e['f']
        if self.P.funcs.get(fid) is None and not self.P.overriders.get(fid):
            if e.get('c') or (q.startswith('std::') or '__gnu_cxx' in q) and e['k'] != 'mcall' or q in PURE_C or q.startswith('__') or q == '?':
                return NOEFF
            if e['k'] == 'mcall':
                return (frozenset(), frozenset(('<ext>',)), frozenset())
            if q in READ_C:
                return (FSSET, frozenset(), frozenset())
            return (IOSET, IOSET | FSSET, frozenset())
        return self.baseline.derive(self.P, e)

    def opaque(self, e, name, recv, args, st, fr, line):
        pts = param_types(e.get('id', ''))
        reads, mods, throws = self.effect_of(e)
        # the reviewed form, however the function is written now: it is compared by itself
        fdecl = self.baseline.ref.funcs.get(e.get('id')) or self.P.funcs.get(e.get('id'))
        void = e.get('t') == 'void' or e.get('t') is None
        pure = not mods or name in self.cfg.pure
        ra = []
        if recv is not None:
            ra.append(self.snap(st, recv[1] if recv[0] == 'lvt' else recv))
        for i, a in enumerate(args):
            if a is None:
                a = ('u', 'arg')
            if a[0] == 'lvt':
                a = self.hread(st, a[1])
            if fdecl is not None and i < len(fdecl['p']) and fdecl['p'][i]['n'] == 'result' and i < len(pts) and pts[i].endswith('*') and not pts[i].startswith('const '):
                ra.append(('u', 'result'))      # only written by the callee
            else:
                ra.append(self.snap(st, a))
        ra = tuple(ra)
        n = 0
        deps = ()
        if pure:
            deps = self.deps(st, reads)
        if pure and void and throws and self.passes(fdecl, e, recv, args, st, fr):
            return [(st, NULL)]
        if not pure or throws:
            ev = ('call', name, ra, line)
            if not pure:
                n = self.occurrence(st, (name, ra))
                m = self.occurrence(st, ('tag', name))
            if self.want(name) and not (recv is not None and recv[0] == 'addr' and not throws and fdecl is not None and setter(fdecl)):
                o = self.evname.get(name)
                th = bool(throws) and (void or not pure)
                self.evname[name] = (reads, mods, th) if o is None else (o[0] | reads, o[1] | mods, o[2] or th)
                if not pure:
                    self.publish(st, reads, mods, line)
                    st.tr = st.tr + (ev,)
                elif not any(x[:3] == ev[:3] for x in st.tr):
                    st.tr = st.tr + (ev,)
        res = []
        # exceptional completion: where something catches it
        if throws and (self.handlers or self.cfg.throw_all):
            for typ, val in sorted(throws, key=repr):
                if not self.cfg.throw_all and not any(h is None or self.catches(h, typ) for hs in self.handlers for h in hs):
                    continue
                v = ('e', val, self.enum_value(val)) if val else ('exc', short(typ))
                a = ('b', ('throws', name, ra, n, v))
                if st.facts.get(a) is not None:
                    if st.facts[a] and st.sig is None:
                        st.sig = ('throw', typ, v)
                        st.line = line
                        return [(st, None)]
                    continue
                s2 = st.copy()
                s2.facts[a] = True
                st.facts[a] = False
                if not pure:
                    self.havoc(s2, mods, (name, m))
                s2.sig = ('throw', typ, v)
                s2.line = line
                res.append((s2, None))
        if e.get('nr'):
            st.sig = ('abort',)
            st.line = line
            return res + [(st, None)]
        if not pure:
            self.havoc(st, mods, (name, m))
        # storage handed out to the callee
        for i, a in enumerate(args):
            if a is None or i >= len(pts):
                continue
            pt = pts[i]
            if pt.startswith('const ') or not (pt.endswith('&') or pt.endswith('*')):
                continue
            if pure and fdecl is not None and pt.endswith('*'):
                continue        # nothing is written through pointers
            if a[0] == 'addr':
                self.write(st, ('L', a[1]), ('out', name, i, ra, n))
            elif a[0] == 'lvt':
                self.write(st, ('T', a[1]), ('out', name, i, ra, n))
            elif pt.endswith('*') and 'Runtime::Object *' in pt and a[0] in ('p',):
                st.heap[a] = ('out', name, i, ra, n)
        if recv is not None and recv[0] == 'addr' and not e.get('c') and not e.get('st') and not (pure and name in self.cfg.pure):
            self.write(st, ('L', recv[1]), self.after(name, ra[0], ra[1:], reads, mods))
        t = ('c', name, ra)
        if n or deps:
            t = t + (n,)
        if deps:
            t = t + (deps,)
        res.append((st, t))
        return res

    def passes(self, f, e, recv, args, st, fr):
        """a check of something known already"""
        if f is None or e.get('dv') or f['id'] in fr.chain or fr.depth >= 8 or not brief(f):
            return False
        r = self.inline(f, recv, args, st.copy(), fr, e)
        return len(r) == 1 and r[0][0].sig is None and r[0][0].facts == st.facts and r[0][0].tr == st.tr

    def after(self, name, recv, args, reads, mods):
        """object after a call of a member function; independent calls in the order of their names"""
        self.muts[name] = (reads, mods)
        if recv[0] == 'aft' and recv[1] in self.muts and recv[1] > name:
            r, m = self.muts[recv[1]]
            if mods and m and not (mods & m or mods & r or reads & m) and not any(x.startswith('<') for x in mods | m):
                return ('aft', recv[1], self.after(name, recv[2], args, reads, mods), recv[3])
        return ('aft', name, recv, args)

    def enum_value(self, q):
        for en in self.P.enums.values():
            for c, v in en['c']:
                if c == q:
                    return v
        return 0

    def deps(self, st, reads):
        """what the result of a pure call depends on besides its arguments: members changed before"""
        d = []
        tags = set()
        for n, tag in st.mod.items():
            if n in reads:
                tags.add(tag)
        for tag in sorted(tags):
            d.append((None, tag))
        for T, v in st.heap.items():
            nm = T[2] if T[0] == 'f' else T[1] if T[0] == 'g' else None
            if nm in reads and not (T[0] == 'f' and root(T)[0] == 'addr'):
                d.append((T, self.snap(st, v)))
        return tuple(sorted(d, key=repr))

    def publish(self, st, reads, mods, line):
        """writes a callee may observe happen before the call"""
        for T in sorted((T for T in st.heap), key=repr):
            if T[0] == 'f' and root(T)[0] == 'addr':
                continue
            nm = T[2] if T[0] == 'f' else T[1] if T[0] == 'g' else None
            if nm is None or (nm not in reads and nm not in mods):
                continue
            v = st.heap[T]
            if st.pub.get(T) == v:
                continue
            if T not in st.pub and (v == self.tagged(st, T) or st.facts.get(('q', self.tagged(st, T))) == ('eq', v)):
                continue        # it has that value already
            st.pub[T] = v
            st.tr = st.tr + (('set', T, self.snap(st, v), line),)

    def havoc(self, st, mods, tag):
        for n in mods:
            if n[0] not in '<*' or n == '<fs>':
                st.mod[n] = tag
        for T in [T for T in st.heap if (T[0] == 'f' and T[2] in mods and root(T)[0] != 'addr') or (T[0] == 'g' and T[1] in mods)]:
            del st.heap[T]
            st.pub.pop(T, None)

    def defaults(self, f, args):
        """the default arguments of the constructor that an element is constructed in place with"""
        m = re.match(r'std::(?:\w+::)*\w+<((?:\w+::)*(\w+))[,>]', f)
        if not m or not args or len(args) == 1 and args[0][0] not in ('e', 'i', 'b', 's'):
            return ()  # (a copy)
        cs = [c for c in self.P.byq.get(m.group(1) + '::' + m.group(2), []) if len(c['p']) > len(args) and all('d' in p for p in c['p'][len(args):])]
        if len(cs) != 1:
            return ()
        ds = [p['d'] for p in cs[0]['p'][len(args):]]
        if any(d['k'] not in ('bool', 'int', 'null', 'enum') for d in ds):
            return ()
        return tuple(getattr(self, 'ev_' + d['k'])(d, None, None)[0][1] for d in ds)

    def std_model(self, e, name, recv, args, st):
        f = e['f']
        if not (f.startswith('std::') or '__gnu_cxx' in f or f in ('Json::Value::begin', 'Json::Value::end')):
            return None
        last = f.rsplit('::', 1)[-1]
        if recv is None:
            if last in ('to_string',) and len(args) == 1:
                return [(st, ('c', 'to_string', (self.snap(st, args[0]),)))]
            if last == 'swap' and len(args) == 2:
                ls = [('L', a[1]) if a[0] == 'addr' else ('T', a[1]) for a in args if a and a[0] in ('addr', 'lvt')]
                if len(ls) == 2:
                    x, y = self.read(st, ls[0]), self.read(st, ls[1])
                    self.write(st, ls[0], y)
                    self.write(st, ls[1], x)
                    return [(st, NULL)]
            if last in ('next', 'prev', 'advance', 'distance', 'begin', 'end', 'min', 'max', 'abs'):
                a = tuple(self.snap(st, x[1] if x[0] == 'lvt' else x) for x in args)
                if last in ('next', 'prev') and len(a) == 1 or len(a) == 2 and a[1] == I(1):
                    return [(st, self.step(st, a[0], '+' if last == 'next' else '-'))]
                if self.cfg.unroll and last == 'begin' and len(a) == 1:
                    return [(st, ('it', a[0], 0))]
                return [(st, ('c', last, a))]
            return None
        rt = self.snap(st, recv if recv[0] != 'lvt' else recv[1])
        a = tuple(self.snap(st, self.hread(st, x[1]) if x[0] == 'lvt' else x) for x in args if x is not None)
        if last in ('c_str', 'data', 'str', 'get', 'str_'):
            if last == 'get' and 'unique_ptr' not in f and 'shared_ptr' not in f:
                pass
            else:
                return [(st, rt if last != 'str' else streamtext(rt))]
        if last in ('cbegin', 'rbegin', 'crbegin'):
            last = 'begin' if last == 'cbegin' else 'rbegin'
        if last in ('cend', 'rend', 'crend'):
            last = 'end' if last == 'cend' else 'rend'
        if last == 'length':
            last = 'size'
        if last in ('begin', 'end', 'rbegin', 'rend', 'size', 'empty', 'find', 'front', 'back', 'top', 'count', 'at', 'compare', 'substr', 'find_first_of',
                    'find_last_of', 'find_first_not_of', 'find_last_not_of', 'rfind', 'what', 'is_open', 'good', 'eof', 'fail', 'get', 'lower_bound', 'upper_bound'):
            if last == 'empty' and rt[0] == 's':
                return [(st, TRUE if rt[1] == '' else FALSE)]
            if last == 'fail':
                return [(st, neg(('c', 'operator bool', (rt,))))]
            if last.endswith('_of') and a and a[0][0] == 's':
                a = (('s', ''.join(sorted(set(a[0][1])))),) + a[1:]
            if last == 'find' and self.cfg.literal and len(a) == 1 and UNIQUE.match(f):
                entries = table(rt)
                if entries is not None:
                    return [(x, ('c', 'end', (rt,)) if v is None else ('c', 'found', (v,))) for x, v in self.lookup(st, entries, a[0])]
            if last == 'empty' and rt[0] == 'conv' and isc(rt[3]):
                return [(st, TRUE if rt[3] == ('s', '') else FALSE)]
            if self.cfg.unroll and last in ('begin', 'rbegin') and not a:
                return [(st, ('it', rt if last == 'begin' else ('rev', rt), 0))]
            if self.cfg.unroll and last == 'front':
                return [(st, self.hread(st, ('el', rt, 0)))]
            if last == 'count' and len(a) == 1 and 'multi' not in f:
                return [(x, I(1 if b else 0)) for x, b in self.truth(st, ('c', 'has', (rt,) + a))]
            if last == 'at' and len(a) == 1:
                t = self.index(st, rt, a[0], f)
                return [(st, self.hread(st, t))]
            if last == 'back' or last == 'front' or last == 'top':
                t = ('c', last, (rt,))
                return [(st, self.hread(st, t))]
            return [(st, ('c', last, (rt,) + a))]
        if e.get('c'):
            return [(st, ('c', last, (rt,) + a))]
        # mutation of a container / string
        new = ('aft', last, rt, a)
        if last in ('append', 'push_back') and STRING.match(f) and len(a) == 1:
            new = cat(rt, a[0])
        if last == 'clear' or last == 'reset' and not a:
            new = ('s', '') if STRING.match(f) else ('ctor', 'empty', ())
        if last.startswith('emplace'):
            a += self.defaults(f, a)
        last, a = canon_insert(last, a)
        if new[0] == 'aft':
            new = ('aft', last, rt, a)
            if last == 'erase' and len(a) == 1 and a[0][:2] == ('c', 'find') and len(a[0][2]) == 2 and a[0][2][0] == rt:
                new = ('aft', last, rt, (a[0][2][1],))
            elif last == 'insert' and a and ASSOCIATIVE.match(f):
                new = inserted(rt, a, 'set<' in f[:20])
        if recv[0] == 'addr':
            self.write(st, ('L', recv[1]), new)
        else:
            # the storage the receiver was read from
            key = self.storage_of(st, rt, recv)
            if key is not None:
                st.heap[key] = new
                if key in st.pub:
                    st.pub[key] = None
            elif self.want('std::' + last):
                nm = 'std::' + last
                self.evname[nm] = (frozenset(('<ext>',)), frozenset(('<ext>',)), False)
                st.tr = st.tr + (('call', nm, (rt,) + a, e.get('l', 0)),)
        if last == 'erase' and len(a) == 1 and UNIQUE.match(f) and 'iterator' not in f.split('::erase(')[-1]:
            return [(st, ('c', 'erased', (rt,) + a))]
        if last in ('insert', 'emplace', 'erase', 'release'):
            return [(st, ('c', last, (rt,) + a))]
        return [(st, ('u', 'void'))]

    def storage_of(self, st, rt, recv):
        """location whose current content is rt"""
        t = rt
        while t[0] == 'aft' or t[:2] == ('o', '+'):
            t = t[2]
        if t[0] == 'f' and len(t) == 4:
            t = t[:3]
        if t[0] == 'g' and len(t) == 3:
            t = t[:2]
        if t[0] in ('f', 'g', 'at', 'el', 'p'):
            if self.hread(st, t) == rt:
                return t
        for k, v in st.heap.items():
            if v == rt:
                return k
        return None

    # ------------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if st.sig is not None or s is None:
            return [st]
        k = s['k']
        self.steps += 1
        if self.steps > self.cfg.maxsteps:
            raise AnalysisBroken('too many steps in %s' % self.root['id'])
        m = getattr(self, 'ex_' + k, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s in %s' % (s.get('c', k), self.root['id']))
        return m(s, st, fr)

    def ex_nop(self, s, st, fr):
        return [st]

    def ex_block(self, s, st, fr):
        return self.block(s['b'], st, fr)

    def block(self, stmts, st, fr):
        states = [st]
        declared = []
        fetch = None
        for n, x in enumerate(stmts):
            loop = None
            if x is not None and x['k'] in ('decl', 'expr') and n + 1 < len(stmts) and stmts[n + 1] is not None and \
                    (stmts[n + 1]['k'] == 'while' and rotated(x, stmts[n + 1]) or
                     stmts[n + 1]['k'] == 'for' and not stmts[n + 1].get('init') and fetched(x, stmts[n + 1].get('inc'))):
                loop = stmts[n + 1]
            nxt = []
            for t in states:
                if t.sig is not None:
                    nxt.append(t)
                elif loop is not None:
                    nxt += self.unset(x, t, fr)
                elif fetch is not None:
                    nxt += self.fetching(rotated(fetch, x) or x, t, fr)
                else:
                    nxt += self.exec(x, t, fr)
            states = self.merge(nxt)
            fetch = x if loop is not None else None
            if x is not None and x['k'] == 'decl':
                for v in x['v']:
                    declared.append((v, fr))
        states = self.leave(states, declared, fr)
        return states

    def leave(self, states, declared, fr):
        """end of scope: guards run their destructor, locals disappear"""
        for v, f in reversed(declared):
            key = (f.no, v['id'])
            d = self.dtor_for(v['t'])
            if d is not None:
                nxt = []
                for s in states:
                    b = s.loc.get(key)
                    if b is None:
                        nxt.append(s)
                        continue
                    sig = s.sig
                    s.sig = None
                    for s2, _ in self.inline(d, ('addr', key), [], s, fr, {}):
                        if s2.sig is None:
                            s2.sig = sig
                        nxt.append(s2)
                states = nxt
            for s in states:
                b = s.loc.get(key)
                if b is None:
                    continue
                if s.sig is not None and s.sig[0] == 'return' and s.sig[1] is not None and contains(s.sig[1], lambda x: x == ('addr', key)):
                    s.sig = ('return', self.snap(s, s.sig[1]))
                if not self.referenced(s, key):
                    del s.loc[key]
                    for h in [h for h in s.heap if contains(h, lambda x: x == ('addr', key))]:
                        del s.heap[h]
        return self.merge(states)

    def referenced(self, s, key):
        a = ('addr', key)
        for v in s.loc.values():
            if v == ('r', ('L', key)) or v[0] == 'v' and contains(v[1], lambda x: x == a):
                return True
        for v in s.heap.values():
            if contains(v, lambda x: x == a):
                return True
        return False

    def dtor_for(self, t):
        t = unqual(t)
        c = self.P.classes.get(t)
        if c is None:
            return None
        if t in self.baseline and cname(t) not in self.cfg.inline_dtors:
            return None
        last = t.rsplit('::', 1)[-1]
        return self.P.funcs.get('%s::~%s()' % (t, last))

    def ex_decl(self, s, st, fr):
        states = [st]
        for v in s['v']:
            nxt = []
            for t in states:
                if t.sig is not None:
                    nxt.append(t)
                    continue
                nxt += self.declare(v, t, fr)
            states = nxt
        return states

    def declare(self, v, st, fr):
        key = (fr.no, v['id'])
        if v.get('static'):
            i = v.get('i')
            if i is not None and (v['t'].startswith('const ')):
                out = []
                for s, val in self.ev(i, st, fr):
                    s.loc[key] = ('v', val)
                    out.append(s)
                return out
            st.loc[key] = ('v', ('g', 'static:' + v['n']))
            return [st]
        if 'i' not in v or v['i'] is None:
            st.loc[key] = ('v', ('u', 'uninit'))
            return [st]
        if v['t'].endswith('&') and not v['t'].endswith('&&'):
            out = []
            for s, l in self.lv(v['i'], st, fr):
                if s.sig is None:
                    if l is None:
                        s.loc[key] = ('v', ('u', 'ref'))
                    elif l[0] == 'L':
                        s.loc[key] = ('r', l)
                    else:
                        # a reference to opaque storage; a const reference to a value is that value
                        s.loc[key] = ('r', l)
                out.append(s)
            return out
        # objects of classes that did not exist before are looked into
        i = v['i']
        c = unqual(v['t'])
        if i['k'] == 'ctor' and c in self.P.classes and c not in self.baseline and i['id'] in self.P.funcs:
            f = self.P.funcs[i['id']]
            out = []
            for s, vs in self.evargs(i, i['a'], st, fr):
                if s.sig is not None:
                    out.append(s)
                    continue
                s.loc[key] = ('v', ('ctor', cname(c), ()))
                no = s.nf
                s.nf += 1
                nfr = Frame((no, f['id']), ('addr', key), f, fr.depth + 1, fr.chain + (f['id'],))
                for p, a in zip(f['p'], vs):
                    self.bind(s, (nfr.no, p['id']), p['t'], a)
                for ini in f.get('inits', []):
                    if 'm' not in ini:
                        continue
                    ft = next((x['t'] for x in self.P.classes[c]['fields'] if x['n'] == ini['m']), '')
                    if ft.endswith('&'):
                        for s2, l in self.lv(ini['e'], s, nfr):
                            s.heap[('f', ('addr', key), self.member_q(f, ini['m']))] = ('addr', l[1]) if l[0] == 'L' else self.hread(s, l[1])
                    else:
                        for s2, x in self.ev(ini['e'], s, nfr):
                            s.heap[('f', ('addr', key), self.member_q(f, ini['m']))] = x
                for s2 in self.exec(f['body'], s, nfr):
                    if s2.sig is not None and s2.sig[0] == 'return':
                        s2.sig = None
                    out.append(s2)
            return out
        out = []
        for s, val in self.ev(i, st, fr):
            if s.sig is None:
                s.loc[key] = ('v', val if val[0] == 'addr' and v['t'].endswith('*') else self.snap(s, val))
            out.append(s)
        return out

    def ex_expr(self, s, st, fr):
        return [x for x, _ in self.ev(s['e'], st, fr)]

    def ex_return(self, s, st, fr):
        if s.get('e') is None:
            st.sig = ('return', None)
            st.line = s.get('l', 0)
            return [st]
        out = []
        for x, v in self.ev(s['e'], st, fr):
            if x.sig is None:
                if fr.func is not None and fr.func['ret'] == 'bool' and v is not None and v[0] == 'o' and not isc(v):
                    for y, b in self.truth(x, self.snap(x, v)):
                        y.sig = ('return', TRUE if b else FALSE)
                        y.line = s.get('l', 0)
                        out.append(y)
                    continue
                keep = v is not None and v[0] == 'addr' and fr.func is not None and fr.func['ret'].endswith(('*', '&'))
                x.sig = ('return', v if keep else self.snap(x, v))
                x.line = s.get('l', 0)
            out.append(x)
        return out

    def ex_break(self, s, st, fr):
        st.sig = ('break',)
        return [st]

    def ex_continue(self, s, st, fr):
        st.sig = ('continue',)
        return [st]

    def ex_if(self, s, st, fr):
        states = [st]
        declared = []
        if s.get('init'):
            states = self.exec(s['init'], st, fr)
            if s['init']['k'] == 'decl':
                declared += [(v, fr) for v in s['init']['v']]
        if s.get('cv'):
            nxt = []
            for t in states:
                nxt += self.declare(s['cv'], t, fr) if t.sig is None else [t]
            states = nxt
            declared.append((s['cv'], fr))
        out = []
        for t in states:
            for x, b in self.cond(s['c'], t, fr):
                if b is None:
                    out.append(x)
                elif b:
                    out += self.exec(s['a'], x, fr)
                elif s.get('b') is not None:
                    out += self.exec(s['b'], x, fr)
                else:
                    out.append(x)
        if declared:
            return self.leave(out, declared, fr)
        return self.merge(out)

    def ex_switch(self, s, st, fr):
        items = s['items']
        pre = [st]
        if s.get('cv'):
            pre = self.declare(s['cv'], st, fr)
        out = []
        for st0 in pre:
            for x, v in self.ev(s['c'], st0, fr):
                if x.sig is not None:
                    out.append(x)
                    continue
                v = self.snap(x, v)
                rest = [x]
                default = None
                for i, it in enumerate(items):
                    if 'default' in it:
                        default = i
                        continue
                    if 'case' not in it:
                        continue
                    nxt = []
                    for y in rest:
                        if v == TRUE:
                            tests = self.cond(it['case'], y, fr)
                        else:
                            tests = []
                            for y2, cv in self.ev(it['case'], y, fr):
                                tests += [(y2, None)] if y2.sig is not None else self.eqtest(y2, v, cv)
                        for z, b in tests:
                            if b is None:
                                out.append(z)
                            elif b:
                                out += self.run_items(items, i, z, fr)
                            else:
                                nxt.append(z)
                    rest = nxt
                for y in rest:
                    if default is not None:
                        out += self.run_items(items, default, y, fr)
                    else:
                        out.append(y)
        for y in out:
            if y.sig == ('break',):
                y.sig = None
        return self.merge(out)

    def run_items(self, items, i, st, fr):
        return self.block([it['s'] for it in items[i:] if 's' in it], st, fr)

    def ex_try(self, s, st, fr):
        out = []
        self.handlers.append([h.get('t') for h in s['h']])
        try:
            body = self.exec(s['b'], st, fr)
        finally:
            self.handlers.pop()
        for x in body:
            if x.sig is None or x.sig[0] != 'throw':
                out.append(x)
                continue
            handled = False
            for h in s['h']:
                if 't' not in h or self.catches(h['t'], x.sig[1]):
                    sig = x.sig
                    x.sig = None
                    if 'v' in h:
                        x.loc[(fr.no, h['v']['id'])] = ('v', sig[2])
                    outer = x.loc.get('curexc')
                    x.loc['curexc'] = ('v',) + sig[1:]
                    for y in self.exec(h['b'], x, fr):
                        if 'v' in h:
                            y.loc.pop((fr.no, h['v']['id']), None)
                        if outer is not None:
                            y.loc['curexc'] = outer
                        else:
                            y.loc.pop('curexc', None)
                        out.append(y)
                    handled = True
                    break
            if not handled:
                out.append(x)
        if 'fin' in s:
            res = []
            for x in self.merge(out):
                sig, x.sig = x.sig, None
                for y in self.exec(s['fin'], x, fr):
                    if y.sig is None:
                        y.sig = sig
                    res.append(y)
            out = res
        return self.merge(out)

    def catches(self, handler, thrown):
        h = unqual(handler).replace(' *', '')
        t = unqual(thrown).replace(' *', '')
        if h == t or self.P.derives(t, h):
            return True
        if h == 'std::exception' and t not in self.P.enums:
            c = self.P.classes.get(t)
            if c is None:
                return t.startswith('std::')
            return any(self.catches(h, b) for b in c['bases'])
        return False

    # ------------------------------------------------------------------ loops
    def ex_while(self, s, st, fr):
        def cond(x):
            if s.get('cv'):
                r = []
                for y in self.declare(s['cv'], x, fr):
                    r += self.cond(s['c'], y, fr)
                return r
            return self.cond(s['c'], x, fr)
        return self.loop(st, cond, lambda x: self.exec(s['b'], x, fr), None, fr)

    def ex_do(self, s, st, fr):
        # do body while(c)  ==  loop { body; if (!c) break; }
        def body(x):
            out = []
            for y in self.exec(s['b'], x, fr):
                if y.sig is not None and y.sig[0] != 'continue':
                    out.append(y)
                    continue
                y.sig = None
                for z, b in self.cond(s['c'], y, fr):
                    if b is False:
                        z.sig = ('break',)
                    out.append(z)
            return out
        return self.loop(st, lambda x: [(x, True)], body, None, fr)

    def unset(self, x, st, fr):
        """the variable is set when the loop starts"""
        if x['k'] == 'decl':
            st.loc[(fr.no, x['v'][0]['id'])] = ('v', ('u', 'uninit'))
        return [st]

    def fetching(self, s, st, fr):
        """x = f(); for ( ; c; x = f() ) b   ==   while ( x = f(), c ) b"""
        def cond(x):
            out = []
            for y, _ in self.ev(s['inc'], x, fr):
                out += [(y, None)] if y.sig is not None else self.cond(s['c'], y, fr) if s.get('c') else [(y, True)]
            return out
        return self.loop(st, cond, lambda x: self.exec(s['b'], x, fr), None, fr)

    def ex_for(self, s, st, fr):
        states = [st]
        declared = []
        if s.get('init') and fetched(s['init'], s.get('inc')):
            out = []
            for t in self.unset(s['init'], st, fr):
                out += self.fetching(s, t, fr)
            return self.leave(out, [(v, fr) for v in s['init']['v']] if s['init']['k'] == 'decl' else [], fr)
        if s.get('init'):
            states = self.exec(s['init'], st, fr)
            if s['init']['k'] == 'decl':
                declared = [(v, fr) for v in s['init']['v']]
        out = []
        for t in states:
            if t.sig is not None:
                out.append(t)
                continue
            cond = (lambda x: self.cond(s['c'], x, fr)) if s.get('c') else (lambda x: [(x, True)])
            inc = (lambda x: [y for y, _ in self.ev(s['inc'], x, fr)]) if s.get('inc') else None
            out += self.loop(t, cond, lambda x: self.exec(s['b'], x, fr), inc, fr)
        return self.leave(out, declared, fr)

    def ex_range(self, s, st, fr):
        out = []
        for x, C in self.ev(s['r'], st, fr):
            if x.sig is not None:
                out.append(x)
                continue
            C = self.snap(x, C)
            key = (fr.no, s['v']['id'])
            k, then = searched(s) if self.cfg.literal else (None, None)
            if k is not None:
                # a search for a key
                self.expanded = True
                for y, v in self.ev(k, x, fr):
                    if y.sig is not None:
                        out.append(y)
                        continue
                    v = self.snap(y, v)
                    for z, b in self.truth(y, ('c', 'has', (C, v))):
                        if b:
                            z.loc[key] = ('v', ('c', 'find', (C, v)))
                            for w in self.exec(then, z, fr):
                                w.loc.pop(key, None)
                                if w.sig == ('break',):
                                    w.sig = None
                                out.append(w)
                        else:
                            out.append(z)
                continue
            known = items(C)
            if known is not None and len(known) <= 64 and self.cfg.literal:
                self.expanded = True
                out += self.each_of(known, s, x, fr, key)
                continue
            k = None if self.cfg.unroll else self.loop_no(x, C, ('range', len(x.cnt.get(('lo', C), ()))))
            pos = ('pos', fr.no, id(s))
            if k is None:
                x.loc[pos] = ('v', I(0))

            def at(y, k=k):
                return y.loc[pos][1][1] if k is None else k

            def inc(y):
                y.loc[pos] = ('v', I(y.loc[pos][1][1] + 1))
                return [y]

            def body(y, C=C, at=at):
                el = self.element(('it', C, at(y)), not unqual(s['v']['t']).endswith('*'))
                if s['v']['t'].endswith('&') and not s['v']['t'].startswith('const '):
                    y.loc[key] = ('r', ('T', el))
                else:
                    y.loc[key] = ('v', self.hread(y, el))
                r = self.exec(s['b'], y, fr)
                for z in r:
                    if z.sig is not None and z.sig[0] == 'return' and z.sig[1] is not None and z.sig[1] == ('addr', key):
                        z.sig = ('return', el)
                    z.loc.pop(key, None)
                return r
            for y in self.loop(x, lambda y, C=C, at=at: self.truth(y, ('more', C, at(y))), body, inc if k is None else None, fr):
                y.loc.pop(pos, None)
                out.append(y)
        return self.merge(out)

    def each_of(self, known, s, st, fr, key):
        """a loop over values that are written down"""
        heads, out = [st], []
        for v in known:
            nxt = []
            for h in heads:
                h.loc[key] = ('v', v)
                for z in self.exec(s['b'], h, fr):
                    z.loc.pop(key, None)
                    if z.sig is not None and z.sig[0] == 'continue':
                        z.sig = None
                    if z.sig is None:
                        nxt.append(z)
                    else:
                        if z.sig == ('break',):
                            z.sig = None
                        out.append(z)
            heads = self.merge(nxt)
        return out + heads

    def loop(self, st, cond, body, inc, fr):
        if self.cfg.unroll:
            return self.unrolled(st, cond, body, inc)
        if not self.cfg.peel:
            return self.fixpoint(st, cond, body, inc, fr)
        self.entry = True
        probe = cond(st.copy())
        self.entry = False
        skipped = [s for s, b in probe if b is False]
        entered = [s for s, b in probe if b]
        if len(skipped) + len(entered) < len(probe) or len(skipped) > 1 or len(entered) > 1 or \
                any(k[0] != 'b' or k[1][:2] != ('c', 'empty') for s in skipped + entered for k in s.facts if k not in st.facts):
            return self.fixpoint(st, cond, body, inc, fr)
        out = skipped
        if entered:
            st.facts.update(entered[0].facts)
            out = out + self.fixpoint(st, cond, body, inc, fr)
        mx = max([x.nf for x in out], default=0)
        for x in out:
            x.nf = mx
        return self.merge(out)

    def fixpoint(self, st, cond, body, inc, fr):
        """fixpoint over the loop head"""
        base_tr = st.tr
        base_facts = dict(st.facts)
        base_cnt = dict(st.cnt)
        base_nf = st.nf
        st.pub = dict.fromkeys(st.pub)

        def once(head, flags=()):
            """one iteration from a head state -> (exits, continues)"""
            h = head.copy()
            h.tr = ()
            h.facts.update(flags)
            exits, conts = [], []
            for s, b in cond(h):
                if b is None:
                    exits.append(s)
                elif not b:
                    s.sig = ('loopexit',)
                    exits.append(s)
                else:
                    for y in body(s):
                        if y.sig is not None and y.sig[0] == 'continue':
                            y.sig = None
                        if y.sig is None and inc is not None:
                            for z in inc(y):
                                (conts if z.sig is None else exits).append(z)
                        elif y.sig is None:
                            conts.append(y)
                        else:
                            exits.append(y)
            return exits, conts

        # 1. find out what changes from iteration to iteration
        widened = {}
        mods = {}
        dropped = set()

        def make_head(src):
            n = st.copy()
            if src is not None:
                n.loc = {k: v for k, v in src.loc.items() if k in st.loc}
                n.heap = dict(src.heap)
            for T in dropped:
                n.heap.pop(T, None)
            for (kind, k), w in widened.items():
                if kind == 'loc':
                    n.loc[k] = ('v', w)
                else:
                    n.heap[k] = w
            n.mod = dict(st.mod)
            n.mod.update(mods)
            n.facts = dict(base_facts)
            n.cnt = dict(base_cnt)
            n.tr = ()
            n.pub = dict(st.pub)
            return n
        def key(s):
            return (frozenset((k, v) for k, v in s.loc.items() if k in head.loc), frozenset(s.heap.items()))

        def carried(head, conts):
            """values that change without bound from here -> is any of them new?"""
            # (locals first: a place is not the same one before and after what points to it is known to change)
            return carried1(head, conts, 'loc') or carried1(head, conts, 'heap')

        def carried1(head, conts, what):
            changed = False
            for c in conts:
                for n, tag in c.mod.items():
                    if head.mod.get(n) != tag and mods.get(n) is None:
                        mods[n] = ('loop',)
                        changed = True
                for T in c.heap:
                    # the next iteration has an element of its own
                    r = root(T)
                    if r[0] == 'el' and T not in dropped and ('b', ('more',) + r[1:]) in c.facts and ('b', ('more',) + r[1:]) not in base_facts:
                        dropped.add(T)
                        widened.pop(('heap', T), None)
                        changed = True
                for T in head.heap:
                    if T not in c.heap and T not in dropped:
                        dropped.add(T)
                        widened.pop(('heap', T), None)
                        changed = True
                for kind, d, hd in ((what, getattr(c, what), getattr(head, what)),):
                    for k in list(d):
                        if kind == 'loc' and k not in st.loc:
                            continue
                        if kind == 'heap' and k in dropped:
                            continue
                        ov = hd.get(k)
                        nv = d[k]
                        if ov == nv:
                            continue
                        if kind == 'loc' and (nv[0] != 'v' or (ov is not None and ov[0] != 'v')):
                            continue
                        old = (st.loc.get(k) or ('v', ('u', 'x')))[1] if kind == 'loc' else self.hread(st, k)
                        new = nv[1] if kind == 'loc' else nv
                        w = widened.get((kind, k))
                        if w is not None:
                            if (ov[1] if kind == 'loc' else ov) == w and (w[0] == 'it' and new != ('next', w) or w[0] == 'ix' and new != addc(w, 1)):
                                widened[(kind, k)] = ('phi', sum(1 for x in widened.values() if x[0] == 'phi' and x[2] == old), self.snap(st, old))
                                changed = True
                            continue
                        if finite(old) and finite(new):
                            continue
                        widened[(kind, k)] = self.widen(st, old, new, widened)
                        changed = True
                        base_cnt.update(st.cnt)
            return changed

        # 2. heads that differ in finitely many constants
        for rnd in range(40):
            head = make_head(None)
            heads = {}
            work = [head]
            changed = False
            while work:
                h = work.pop()
                hk = key(h)
                if hk in heads:
                    continue
                heads[hk] = h
                if len(heads) > 64:
                    # too many: give up on telling constants apart
                    hs = list(heads.values())
                    for kind in ('loc', 'heap'):
                        for k in {k for x in hs for k in getattr(x, kind) if k in getattr(st, kind) or kind == 'heap'}:
                            vs = {getattr(x, kind).get(k) for x in hs}
                            if len(vs) > 2 and (kind, k) not in widened:
                                old = (st.loc[k][1] if st.loc[k][0] == 'v' else None) if kind == 'loc' else self.hread(st, k)
                                if old is not None:
                                    widened[(kind, k)] = self.widen(st, old, ('u', 'many'), widened)
                                    changed = True
                    if not changed:
                        raise AnalysisBroken('too many loop heads in %s' % self.root['id'])
                    break
                exits, conts = once(h)
                if carried(h, conts):
                    changed = True
                    break
                for c in conts:
                    work.append(make_head(c))
            if not changed:
                break
        else:
            raise AnalysisBroken('loop does not stabilise in %s' % self.root['id'])
        all_exits, all_conts = [], []
        turned = {}
        first = []
        if len(heads) == 1:
            all_exits, all_conts = once(head)
        else:
            # values that tell the heads apart become part of the path condition
            hs = list(heads.values())
            var = sorted({('loc', k) for h in hs for k in h.loc if any(x.loc.get(k) != h.loc[k] for x in hs)}
                         | {('heap', k) for h in hs for k in h.heap if any(x.heap.get(k) != h.heap[k] for x in hs)},
                         key=lambda v: (v[0], repr((st.loc if v[0] == 'loc' else st.heap).get(v[1])), repr(v[1])))
            no = st.cnt.get('fl', 0)
            for i, (kind, k) in enumerate(var):
                v = (head.loc.get(k) or ('v', ('u', '?')))[1] if kind == 'loc' else self.hread(head, k)
                first.append(('init', ('flag', no, i), v))
            base_cnt['fl'] = no + 1
            for h in hs:
                h.cnt['fl'] = no + 1
                flags = {}
                for i, (kind, k) in enumerate(var):
                    v = (h.loc.get(k) or ('v', ('u', '?')))[1] if kind == 'loc' else self.hread(h, k)
                    flags[('q', ('flag', no, i))] = ('eq', v)
                e, c = once(h, flags.items())
                all_exits += e
                all_conts += c
                for x in c:
                    for i, (kind, k) in enumerate(var):
                        v = (x.loc.get(k) or ('v', ('u', '?')))[1] if kind == 'loc' else self.hread(x, k)
                        if flags[('q', ('flag', no, i))] != ('eq', v):
                            turned.setdefault(id(x), []).append(('upd', ('flag', no, i), v))
        # 3. summary of the iterations that go on
        iters = {}

        def shown(x):
            """writes to members that calls of the loop change, too"""
            return tuple(('set', T, self.snap(x, x.heap[T]), 0) for T in sorted(dropped, key=repr)
                         if T in x.heap and not (T[0] == 'f' and root(T)[0] == 'addr'))
        base_tr = base_tr + tuple(y for y in shown(st) if ('set', y[1], y[2]) not in [z[:3] for z in base_tr])
        for c in all_conts:
            c.tr = c.tr + shown(c)
            delta = tuple(sorted(((k, v) for k, v in c.facts.items() if base_facts.get(k) != v), key=repr))
            upd = turned.get(id(c), [])
            for (kind, k), w in widened.items():
                if w[0] != 'phi':
                    continue
                v = c.loc[k][1] if kind == 'loc' and k in c.loc else c.heap.get(k)
                if v is not None and v != w:
                    upd.append(('upd', w, self.snap(c, v)))
            iters.setdefault(c.tr + tuple(sorted(upd, key=repr)), set()).add(delta)
        if iters:
            # what ends the iteration
            for x in all_exits:
                delta = tuple(sorted(((k, v) for k, v in x.facts.items() if base_facts.get(k) != v), key=repr))
                iters.setdefault((('exit',),), set()).add(delta)
        marker = canon_iters(iters)
        if marker:
            base_tr = base_tr + tuple(first)
        out = []
        for x in all_exits:
            if x.sig == ('loopexit',) or x.sig == ('break',):
                x.sig = None
            mk = (('loop', marker),) if marker else ()
            x.tr = base_tr + mk + x.tr
            x.pub = dict.fromkeys(set(x.pub) | set(st.pub))
            out.append(x)
        mx = max([x.nf for x in out] + [base_nf])
        for x in out:
            x.nf = mx
        return self.merge(out)

    def unrolled(self, st, cond, body, inc):
        """the first iterations one by one; what goes on longer is cut off"""
        out, heads = [], [st]
        for i in range(self.cfg.unroll + 1):
            nxt = []
            for h in heads:
                for s, b in cond(h):
                    if b is None or not b:
                        out.append(s)
                    elif i == self.cfg.unroll:
                        s.sig = ('cut',)
                        out.append(s)
                    else:
                        for y in body(s):
                            if y.sig is not None and y.sig[0] == 'continue':
                                y.sig = None
                            if y.sig is None and inc is not None:
                                for z in inc(y):
                                    (nxt if z.sig is None else out).append(z)
                            elif y.sig is None:
                                nxt.append(y)
                            else:
                                if y.sig == ('break',):
                                    y.sig = None
                                out.append(y)
            heads = self.merge(nxt)
            if not heads:
                break
        mx = max(x.nf for x in out) if out else 0
        for x in out:
            x.nf = mx
        return self.merge(out)

    def widen(self, st, old, new, widened):
        o = self.snap(st, old)
        if o[0] == 'c' and o[1] in ('begin', 'rbegin'):
            C = o[2][0] if o[1] == 'begin' else ('rev', o[2][0])
            return ('it', C, self.loop_no(st, C, ('it', len(st.cnt.get(('lo', C), ())))))
        if o == I(0) and new == I(1):
            n = st.cnt.get('ix', 0)
            st.cnt['ix'] = n + 1
            return ('ix', n)
        return ('phi', sum(1 for x in widened.values() if x[0] == 'phi' and x[2] == o), o)


def untag(t):
    """location regardless of when it is read"""
    if t[0] == 'f':
        return ('f', untag(t[1]), t[2])
    if t[0] == 'g':
        return t[:2]
    return t


def canon_insert(name, args):
    """constructing an element in place is the same as inserting a constructed one"""
    n = {'emplace_back': 'push_back', 'emplace_front': 'push_front', 'emplace': 'insert'}.get(name, name)
    if n in ('push_back', 'push_front', 'insert', 'push') and len(args) == 1:
        while len(args) == 1 and args[0][0] in ('ctor', 'conv') and not (args[0][0] == 'ctor' and not args[0][2]):
            args = args[0][2] if args[0][0] == 'ctor' else (args[0][3],)
    return n, args


def inserted(c, a, unit):
    """associative container with one more element: the order in which different ones were inserted does not matter"""
    if c[:2] == ('aft', 'insert') and len(c[3]) == len(a) <= 2:
        k, o = a[0], c[3][0]
        if unit and k == o:
            return c
        if repr(k) < repr(o) and (unit or k[0] in ('s', 'i', 'e', 'g') and o[0] in ('s', 'i', 'e', 'g')):
            return ('aft', 'insert', inserted(c[2], a, unit), c[3])
    return ('aft', 'insert', c, a)


def root(t):
    """object a member (of a member ...) belongs to"""
    while t[0] == 'f':
        t = t[1]
    return t


def path(t):
    return t[2] if t[1][0] != 'f' else path(t[1]) + '.' + t[2]


def fname(e):
    q = e.get('q') or e['n']
    return e['n'] if q.startswith('std::') else cname(q)


def pointers(f):
    """does an iterator, named by a function of it, point to pointers"""
    m = re.match(r'(?:std::|__gnu_cxx::)(\w+)<(.*)', f)
    if not m:
        return False
    d, n = 0, 0
    for n, ch in enumerate(m.group(2)):
        d += (ch == '<') - (ch == '>')
        if d < 0 or d == 0 and ch == ',':
            break
    t = m.group(2)[:n].strip()
    if m.group(1) == '__normal_iterator':
        t = t[:-1].strip()
    return unqual(t).endswith('*') or t.endswith('*const')


def items(t):
    """the elements of a container that was built from a list"""
    if t[0] == 'ctor' and t[1].endswith(']'):
        return t[2]
    if t[0] == 'ctor' and t[2] and t[2][0][0] == 'ctor' and t[2][0][1].endswith(']'):
        return t[2][0][2]
    return None


FILLS = {'std::copy': 3, 'std::copy_if': 4, 'std::transform': 4}


def filled(e):
    """container and member function behind an insert iterator"""
    while e['k'] in ('copy', 'cast') and 'e' in e:
        e = e['e']
    if e['k'] == 'call' and e['f'] == 'std::back_inserter':
        return e['a'][0], 'push_back'
    if e['k'] == 'call' and e['f'] == 'std::inserter' and re.match(r'std::(?:unordered_)?(?:set|map)<', unqual(e['a'][0].get('t', ''))):
        return e['a'][0], 'insert'
    return None


def tied(a, b):
    """both are made of the same number of values by std::tie and the like"""
    return a[0] == b[0] == 'c' and a[1] == b[1] and a[1] in ('tie', 'make_tuple', 'forward_as_tuple') and len(a[2]) == len(b[2]) > 0


def table(t):
    """entries of a map or set with constant keys that was built from a list"""
    r = items(t)
    if r is None or not r or len(r) > 64:
        return None
    def fixed(x):
        return isc(x) or x[0] == 'g'
    if all(fixed(x) for x in r) or all(x[0] == 'ctor' and x[1] == 'pair' and len(x[2]) == 2 and fixed(x[2][0]) for x in r):
        return r
    return None


def addc(t, n):
    """t + n in normal form"""
    if t[0] == 'i':
        return I(t[1] + n)
    if t[0] == 'o' and t[1] == '+' and len(t) == 4 and t[3][0] == 'i':
        n += t[3][1]
        t = t[2]
    return t if n == 0 else ('o', '+', t, I(n))


def finite(t):
    return t[0] in ('b', 'e', 'null') or t[0] == 'u'


def conversion(frm, to):
    """kind of arithmetic conversion"""
    frm, to = unqual(frm), unqual(to)
    if frm == to:
        return ''
    if frm in INT_BITS:
        return 'IntegralCast' if to in INT_BITS else 'IntegralToFloating'
    return 'FloatingToIntegral' if to in INT_BITS else 'FloatingCast'


def cat(a, b):
    """concatenated strings, from left to right"""
    a, b = [('s', chr(x[1])) if x[0] == 'i' and 0 < x[1] < 128 else x for x in (a, b)]
    if a == ('s', ''):
        return b
    if b == ('s', ''):
        return a
    if b[:2] == ('o', '+') and len(b) == 4 and b[3][0] != 'i':
        return cat(cat(a, b[2]), b[3])
    if b[0] == 's' and a[0] == 's':
        return ('s', a[1] + b[1])
    if b[0] == 's' and a[:2] == ('o', '+') and a[3][0] == 's':
        return ('o', '+', a[2], ('s', a[3][1] + b[1]))
    return ('o', '+', a, b)


def streamed(v, t):
    """the text an output stream makes of a value"""
    t = unqual(t)
    if t in INTEGERS:
        return ('s', str(v[1])) if v[0] == 'i' else ('c', 'to_string', (v,))
    if v[0] == 'i' and t in ('char', 'signed char', 'unsigned char') and 0 < v[1] < 128:
        return ('s', chr(v[1]))
    return v


def streamtext(v):
    """the text in a string stream"""
    parts, x = [], v
    while x[0] == 'aft' and x[1] == '<<':
        parts.insert(0, x[3][0])
        x = x[2]
    if x[0] == 'ctor' and 'stringstream' in x[1] and not x[2]:
        t = ('s', '')
        for p in parts:
            t = cat(t, p)
        return t
    return ('c', 'str', (v,))


def pieces(v):
    """the parts of a printed text"""
    if v[:2] == ('o', '+') and len(v) == 4 and (v[3][0] == 's' or v[2][0] == 's' or v[2][:2] == ('o', '+') and v[2][3][0] == 's'):
        return pieces(v[2]) + pieces(v[3])
    if v[0] == 'fn' and 'endl' in v[1]:
        return [('s', '\n')]
    return [v]


def consteq(a, b):
    if a[0] in ('e', 'i') and b[0] in ('e', 'i'):
        return a[-1] == b[-1]
    if a[0] == b[0]:
        return a[1:] == b[1:]
    if {a[0], b[0]} == {'i', 'b'}:
        return int(a[1]) == int(b[1])
    if {a[0], b[0]} == {'i', 'fl'}:
        return a[1] == b[1]
    return False


def constbin(op, x, y, k):
    try:
        if op == '+': return (k, x + y)
        if op == '-': return (k, x - y)
        if op == '*': return (k, x * y)
        if op == '<': return TRUE if x < y else FALSE
        if op == '>': return TRUE if x > y else FALSE
        if op == '<=': return TRUE if x <= y else FALSE
        if op == '>=': return TRUE if x >= y else FALSE
        if k == 'i':
            if op == '&': return (k, x & y)
            if op == '|': return (k, x | y)
            if op == '<<' and 0 <= y < 64: return (k, x << y)
    except Exception:
        pass
    return None


def eqterm(a, b):
    if isc(a) and isc(b):
        return TRUE if consteq(a, b) else FALSE
    if isc(a):
        a, b = b, a
    if b[0] == 'b':
        return a if b[1] else neg(a)
    if not isc(b):
        a, b = sorted((a, b), key=repr)
    return ('o', '==', a, b)


def merge_facts(g):
    """greedy joining of fact sets that cover each other"""
    items = {frozenset(s.facts.items()): s for s in g}
    changed = True
    while changed:
        changed = False
        keys = list(items)
        idx = {}
        for k in keys:
            if k not in items:
                continue
            for it in k:
                rest = k - {it}
                other = idx.get((rest, it[0]))
                if other is None:
                    idx.setdefault((rest, it[0]), []).append((it, k))
                    continue
                for it2, k2 in other:
                    if k2 not in items or k not in items or k == k2:
                        continue
                    j = join(it[1], it2[1])
                    if j is None:
                        continue
                    s = items.pop(k)
                    items.pop(k2)
                    nf = dict(rest)
                    if j != 'any':
                        nf[it[0]] = j
                    s.facts = nf
                    items[frozenset(nf.items())] = s
                    changed = True
                    break
                else:
                    other.append((it, k))
                    continue
                break
        # subsumption
        keys = sorted(items, key=len)
        for i, a in enumerate(keys):
            if a not in items:
                continue
            for b in keys[i + 1:]:
                if b in items and a < b:
                    del items[b]
                    changed = True
    return list(items.values())


def join(a, b):
    """union of two fact values on one key: 'any', a value, or None when not representable"""
    if isinstance(a, bool) and isinstance(b, bool):
        return 'any' if a != b else a
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == 'eq' and b[0] == 'ne':
            a, b = b, a
        if a[0] == 'ne' and b[0] == 'eq':
            if b[1] in a[1]:
                r = a[1] - {b[1]}
                return ('ne', r) if r else 'any'
            return a
        if a[0] == 'ne' and b[0] == 'ne':
            r = a[1] & b[1]
            return ('ne', r) if r else 'any'
        if a == b:
            return a
    return None


def canon_iters(iters):
    """canonical form of {trace: set of fact tuples}; None when nothing observable happens"""
    if not iters:
        return None
    res = []
    anything = False
    for tr, fs in iters.items():
        g = []
        for f in fs:
            s = State()
            s.facts = dict(f)
            g.append(s)
        g = merge_facts(g) if len(g) > 1 else g
        cf = frozenset(frozenset(s.facts.items()) for s in g)
        trn = strip_lines(tr)
        if trn:
            anything = True
        if any(cf_ for cf_ in cf):
            anything = True
        res.append((trn, cf))
    if not anything:
        return None
    return frozenset(res)


def strip_lines(tr):
    out = []
    for x in tr:
        if x[0] in ('call', 'set'):
            out.append(x[:3])
        else:
            out.append(x)
    return tuple(out)


_triv = {}


def trivial(f):
    """accessor: the body is a single return of a member/constant"""
    r = _triv.get(id(f))
    if r is not None and r[0] is f:
        return r[1]
    r = False
    b = f['body']
    if b and b['k'] == 'block' and len(b['b']) == 1 and b['b'][0] and b['b'][0]['k'] == 'return' and not f.get('v'):
        e = b['b'][0].get('e')
        if e is not None:
            r = simple_expr(e)
    _triv[id(f)] = (f, r)
    return r


_brief = {}


def brief(f):
    """no loops, handlers or large bodies: cheap to look into"""
    r = _brief.get(id(f))
    if r is None or r[0] is not f:
        b = f['body']
        r = _brief[id(f)] = (f, bool(b) and b['k'] == 'block' and 0 < statements(b) <= 12)
    return r[1]


def statements(n):
    """statements below a node, many if there are loops or handlers"""
    if isinstance(n, list):
        return sum(statements(x) for x in n)
    if not isinstance(n, dict):
        return 0
    if n.get('k') in ('for', 'while', 'do', 'range', 'try', 'switch'):
        return 100
    return (n.get('k') in ('if', 'decl', 'expr', 'return')) + sum(statements(v) for v in n.values() if isinstance(v, (dict, list)))


def same_tree(a, b):
    """equal apart from where it is written"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(k == 'l' or same_tree(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return a == b


def assigned(e):
    """local variable and value of an assignment"""
    if e and e['k'] == 'bin' and e['op'] == '=' and e['a']['k'] == 'var':
        return e['a']['id'], e['b']
    if e and e['k'] == 'ocall' and e['op'] == '=' and len(e['a']) == 2 and e['a'][0]['k'] == 'var' and e['f'].startswith('std::'):
        return e['a'][0]['id'], e['a'][1]
    return None


def fetched(first, again):
    """is a variable set before a loop the way it is set at the end of every iteration?"""
    y = assigned(again)
    if y is None or y[1]['k'] not in ('call', 'mcall', 'copy'):
        return False
    if first['k'] == 'decl' and len(first['v']) == 1:
        v = first['v'][0]
        return not v.get('static') and v['id'] == y[0] and v.get('i') is not None and not v['t'].endswith('&') and same_tree(v['i'], y[1])
    x = assigned(first['e']) if first['k'] == 'expr' else None
    return x is not None and x[0] == y[0] and same_tree(x[1], y[1])


def repeats(n):
    """continue statements of the loop with this body"""
    if isinstance(n, list):
        return any(repeats(x) for x in n)
    if not isinstance(n, dict) or n.get('k') in ('for', 'while', 'do', 'range', 'lambda'):
        return False
    return n.get('k') == 'continue' or any(repeats(v) for v in n.values() if isinstance(v, (dict, list)))


def rotated(first, loop):
    """x = f(); while ( c ) { b; x = f(); } as the loop for ( ; c; x = f() ) { b } would be"""
    if loop['k'] != 'while' or loop.get('cv') or loop['b'] is None or loop['b']['k'] != 'block' or not loop['b']['b']:
        return None
    last = loop['b']['b'][-1]
    if last and last['k'] == 'expr' and fetched(first, last['e']) and not repeats(loop['b']['b']):
        return dict(loop, k='for', init=None, inc=last['e'], b=dict(loop['b'], b=loop['b']['b'][:-1]))
    return None


_set = {}


def searched(s):
    """key and consequence of a loop that does nothing but look for one key of a map"""
    if not re.match(r'(?:const )?std::map<', s['r'].get('t', '')):
        return None, None
    b = s['b']
    while b and b['k'] == 'block' and len(b['b']) == 1:
        b = b['b'][0]
    if not b or b['k'] != 'if' or b.get('b') or b.get('init') or b.get('cv'):
        return None, None
    c, v = b['c'], s['v']['id']
    if c['k'] == 'ocall' and c['op'] == '==' and c['f'].startswith('std::') and len(c['a']) == 2:
        x, y = c['a']
    elif c['k'] == 'bin' and c['op'] == '==':
        x, y = c['a'], c['b']
    else:
        return None, None

    def first(e):
        return e['k'] == 'mem' and e['n'] == 'first' and e['b']['k'] == 'var' and e['b']['id'] == v
    if first(y):
        x, y = y, x
    if not first(x) or y['k'] != 'var' or y['id'] == v:
        return None, None
    last = b['a']
    while last and last['k'] == 'block' and last['b']:
        last = last['b'][-1]
    if not last or last['k'] not in ('return', 'break'):
        return None, None
    return y, b['a']


def setter(f):
    """does the function only store its parameters in members of its own object?"""
    r = _set.get(id(f))
    if r is not None and r[0] is f:
        return r[1]

    def stores(n):
        if not n or n['k'] == 'nop':
            return True
        if n['k'] == 'block':
            return all(stores(x) for x in n['b'])
        if n['k'] != 'expr':
            return False
        e = n['e']
        if e['k'] == 'bin' and e['op'] == '=':
            a, b = e['a'], e['b']
        elif e['k'] == 'ocall' and e['op'] == '=' and len(e['a']) == 2 and e['f'].startswith('std::'):
            a, b = e['a']
        else:
            return False
        return a['k'] == 'mem' and a['b']['k'] == 'this' and simple_expr(b)
    r = bool(f['body']) and not f.get('v') and stores(f['body'])
    _set[id(f)] = (f, r)
    return r


def simple_expr(e):
    k = e['k']
    if k in ('this', 'int', 'bool', 'null', 'enum', 'str', 'gl', 'var'):
        return True
    if k == 'mem':
        return simple_expr(e['b'])
    if k == 'copy':
        return simple_expr(e['e'])
    if k == 'mcall' and e['f'].startswith('std::') and not e['a'] and e['f'].rsplit('::', 1)[-1] in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
        return simple_expr(e['o'])
    if k == 'bin' and e['op'] in ('==', '!='):
        return simple_expr(e['a']) and simple_expr(e['b'])
    if k == 'un' and e['op'] in ('!',):
        return simple_expr(e['e'])
    if k == 'cast' and e['ck'] in ('IntegralCast', 'PointerToBoolean', 'IntegralToBoolean'):
        return simple_expr(e['e'])
    return False
