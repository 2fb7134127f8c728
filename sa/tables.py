"""Outcome summaries in plain (text) form, their canonical order and their comparison."""
import itertools
import json
import re
from . import effects, engine, model
from .engine import contains, tstr

class Baseline:
    """names and effect interfaces of the functions both programs have; functions that only one of them
    has are looked into instead of being treated as a unit"""

    def __init__(self, ref, cur=None):
        cur = cur or ref
        self.names = (set(ref.byq) | set(ref.classes)) & (set(cur.byq) | set(cur.classes))
        self.ref = ref
        self.effects = ref.__dict__.get('_iface')
        if self.effects is None:
            self.effects = ref._iface = interfaces(ref)
        self.accessors = ref.__dict__.get('_accessors')
        if self.accessors is None:
            self.accessors = ref._accessors = {f['id'] for f in ref.funcs.values() if engine.trivial(f)}

    def __contains__(self, q):
        return q in self.names

    def derive(self, prog, e):
        ef = effects.get(prog)
        r, m, t = set(), set(), set()
        for g in ef.targets(e):
            r |= ef.reads[g]
            m |= ef.mods[g]
            t |= ef.thr[g]
        return frozenset(r), frozenset(m), frozenset(t)


BUILDERS = ('TreeGenerator', 'TreeOptimizer', 'TreeLineBuffer', 'Parser', 'Tokenizer', 'Analyser', 'Token', 'Operator', 'SanityChecker', 'PreProcessor')


def interfaces(prog):
    """effects of a call by callee id, virtual dispatch included"""
    ef = effects.get(prog)
    eff, pool = {}, {}
    # syntax trees and tokens are finished when others get to see them: whatever else runs builds new ones
    built = {c.rsplit('::', 1)[-1] for c in prog.classes if c.startswith('Slang::AST::') and not c.rsplit('::', 1)[-1].startswith('Tree')} | {'Token'}

    def seen(fid, names):
        c = (prog.funcs[fid].get('cls') if fid in prog.funcs else None) or ''
        c = c.rsplit('::', 1)[-1]
        if c in BUILDERS or c in built:
            return names
        return {n for n in names if n.split('::')[0] not in built}

    def put(s):
        k = frozenset(s)
        return pool.setdefault(k, k)
    for fid in sorted(set(prog.funcs) | set(prog.overriders)):
        r, m, t = set(), set(), set()
        for g in ([fid] if fid in prog.funcs else []) + sorted(prog.overriders.get(fid, ())):
            r |= ef.reads[g]
            m |= ef.mods[g]
            t |= ef.thr[g]
        if fid.startswith('os::') and fid.endswith(' const') and fid in prog.funcs:
            # reading methods of library objects: what is allocated or asked from outside stays inside
            m -= {'<io>', '<fs>', '<alloc>'} - ef.mods[fid]
            if not prog.funcs[fid]['ret'].endswith('*'):
                m.discard('<alloc>')
        eff[fid] = (put(r), put(seen(fid, m)), put(t))
    return eff


# ------------------------------------------------------------------------------ canonical traces
# registrations: entries of different keys do not influence each other (arguments that are the key)
KEYED = {'TypeSystem::define': (1, 2, 3)}
# each of them registers entries of a left operand type of its own
APART = {'TypeSystem::init' + x for x in ('Bool', 'Double', 'Float', 'Int16', 'Int32', 'Int64', 'String', 'Enumeration', 'Object')}


def distinct(a, b, at):
    return any(i < len(a) and i < len(b) and a[i] != b[i] and a[i][0] in ('s', 'e', 'i', 'g') and b[i][0] in ('s', 'e', 'i', 'g') for i in at)


def independent(eng, a, b):
    """may the two neighbouring events swap?"""
    if a[0] in ('loop', 'upd', 'exit', 'init') or b[0] in ('loop', 'upd', 'exit', 'init'):
        return False

    def info(x):
        if x[0] == 'set':
            T = x[1]
            n = T[2] if T[0] == 'f' else T[1] if T[0] == 'g' else '<mem>'
            return frozenset(), frozenset((n,)), False, None
        r, m, t = eng.evname.get(x[1], (frozenset(), frozenset(('<io>',)), False))
        return r, m, t, x[1]
    ra, ma, ta, na = info(a)
    rb, mb, tb, nb = info(b)
    if a[0] == b[0] == 'call' and (na in APART and nb in APART or na == nb and na in KEYED and distinct(a[2], b[2], KEYED[na])):
        return True
    # a check (nothing but a possible exception) stays where it is; two changes of unrelated things may swap
    if ta and not ma and mb or tb and not mb and ma:
        return False
    if ma & (rb | mb) - {'<alloc>'} or mb & (ra | ma) - {'<alloc>'}:
        return False
    if a[0] == 'set' and b[0] == 'set' and a[1] == b[1]:
        return False
    # data dependence: one uses the result of the other
    for x, n in ((b, na), (a, nb)):
        if n is not None and contains(x[1:], lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] in ('c', 'out') and t[1] == n):
            return False
    return True


def canon_trace(eng, tr):
    """smallest linearisation under the dependence relation"""
    tr = list(tr)
    if len(tr) < 2:
        return tr
    keys = [repr(x[:3]) if x[0] != 'loop' else 'zz' for x in tr]
    n = len(tr)
    dep = [[j for j in range(i) if not independent(eng, tr[j], tr[i])] for i in range(n)]
    done, out = set(), []
    while len(out) < n:
        best = None
        for i in range(n):
            if i in done or any(j not in done for j in dep[i]):
                continue
            if best is None or keys[i] < keys[best]:
                best = i
        done.add(best)
        out.append(tr[best])
    return out


# ------------------------------------------------------------------------------ plain form
TERMS = {}      # text of a condition -> its term


def plain_facts(facts):
    d = {}
    for k, v in facts.items():
        x = tstr(k[1])
        TERMS[x] = k[1]
        if k[0] == 'b':
            d[x] = v
        elif v[0] == 'eq':
            d[x] = tstr(v[1])
        else:
            d[x] = sorted(tstr(y) for y in v[1])
    return d


def live_phis(states):
    """loop-carried values that are visible in some outcome"""
    live = set()

    def scan(t):
        for x in engine.subterms(t):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'phi':
                live.add(x)

    def events(tr, upd):
        for x in tr:
            if x[0] == 'loop':
                for t, fs in x[1]:
                    for f in fs:
                        for k, v in f:
                            scan(k)
                    events(t, upd)
            elif x[0] == 'exit':
                pass
            elif x[0] == 'upd':
                upd.setdefault(x[1], set()).add(x[2])
            else:
                scan(x[1:])
    upd = {}
    for s in states:
        for k in s.facts:
            scan(k)
        for k, v in s.heap.items():
            scan(k)
            scan(v)
        if s.sig:
            scan(s.sig)
        events(s.tr, upd)
    changed = True
    while changed:
        n = len(live)
        for p, vs in list(upd.items()):
            if p in live:
                for v in vs:
                    scan(v)
        changed = len(live) != n
    return live


def plain_trace(eng, tr, live):
    out = []
    for x in canon_trace(eng, [x for x in tr if x[0] != 'upd']):
        if x[0] == 'call':
            out.append('%s(%s)' % (x[1], ', '.join(tstr(a) for a in x[2])))
        elif x[0] == 'set':
            out.append('%s := %s' % (tstr(x[1]), tstr(x[2])))
        elif x[0] == 'exit':
            out.append('leave')
        elif x[0] == 'init':
            out.append('%s starts %s' % (tstr(x[1]), tstr(x[2])))
        elif x[0] == 'loop':
            its = []
            for t, fs in x[1]:
                pt = plain_trace(eng, t, live)
                pu = sorted('%s := %s' % (tstr(u[1]), tstr(u[2])) for u in t if u[0] == 'upd' and (u[1][0] == 'flag' or u[1] in live))
                for f in fs:
                    its.append({'when': plain_facts(dict(f)), 'do': pt + pu})
            its = join_plain(its, lambda i: json.dumps(i['do']))
            if all(not i['do'] or i['do'] == ['leave'] for i in its) and all(only_bounds(i['when']) for i in its):
                # nothing happens while iterating, and nothing can end it early
                continue
            out.append({'loop': sorted(its, key=lambda i: json.dumps(i, sort_keys=True))})
    return out


def only_bounds(when):
    """nothing but the bound of the loop is tested"""
    return len(when) <= 1


def join_plain(items, label):
    """joins entries with equal label whose conditions complement each other"""
    g = {}
    for i in items:
        g.setdefault(label(i), []).append(i)
    res = []
    for l in g.values():
        changed = True
        while changed and len(l) > 1:
            changed = False
            for a in range(len(l)):
                for b in range(a + 1, len(l)):
                    w = join_when(l[a]['when'], l[b]['when'])
                    if w is not None:
                        l[a] = dict(l[a], when=w)
                        del l[b]
                        changed = True
                        break
                if changed:
                    break
        res += l
    return res


def join_when(a, b):
    if a == b:
        return a
    ka, kb = set(a), set(b)
    if all(k in b and b[k] == a[k] for k in a):
        return a
    if all(k in a and a[k] == b[k] for k in b):
        return b
    if ka != kb:
        return None
    d = [k for k in a if a[k] != b[k]]
    if len(d) != 1:
        return None
    x, y = a[d[0]], b[d[0]]
    r = dict(a)
    if isinstance(x, bool) and isinstance(y, bool):
        del r[d[0]]
        return r
    if isinstance(x, str) and isinstance(y, list):
        x, y = y, x
    if isinstance(x, list) and isinstance(y, str):
        z = [v for v in x if v != y]
        if z:
            r[d[0]] = z
        else:
            del r[d[0]]
        return r
    if isinstance(x, list) and isinstance(y, list):
        z = [v for v in x if v in y]
        if z:
            r[d[0]] = z
        else:
            del r[d[0]]
        return r
    return None


def sigstr(s):
    if s[0] == 'return':
        return 'return' + (' ' + tstr(s[1]) if s[1] is not None else '')
    if s[0] == 'throw':
        v = s[2] if len(s) > 2 else None
        return 'throw ' + model.short(engine.unqual(s[1])) + (' ' + tstr(v) if v is not None and (v[0] == 'e' or s[1].endswith('::E')) else '')
    return ' '.join(tstr(x) if isinstance(x, tuple) else str(x) for x in s)


def summarise(eng, states):
    """-> list of plain outcomes {when, do, set, end, line}"""
    cfg = eng.cfg
    live = live_phis(states)
    res = []
    for s in states:
        sig = s.sig
        if sig[0] == 'return' and sig[1] is not None:
            sig = ('return', eng.snap(s, sig[1]))
        hp, old = {}, {}
        if not cfg.noheap:
            for k, v in s.heap.items():
                if contains(k, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] == 'addr'):
                    continue
                if cfg.heap is not None and not cfg.heap(k):
                    continue
                before = eng.tagged(s, k)
                if k not in s.pub:
                    if v == before:
                        continue
                    old[tstr(k)] = tstr(before)
                hp[tstr(k)] = tstr(eng.snap(s, v))
        res.append({'when': plain_facts(s.facts), 'do': plain_trace(eng, s.tr, live), 'set': hp, 'end': sigstr(sig), 'line': s.line, 'old': old})
    res = drop_flags(join_outcomes(res))
    return sorted(res, key=lambda o: json.dumps([o['when'], o['do'], o['set'], o['end']], sort_keys=True))


def join_outcomes(res):
    return join_plain(res, lambda o: json.dumps([o['do'], o['set'], o['end']], sort_keys=True))


FLAG = re.compile(r'flag\((\d+), (\d+)\)')


def drop_flags(outs):
    """loop-carried constants that make no difference to anything else are of no interest"""
    text = json.dumps(outs)
    flags = sorted({(int(a), int(b)) for a, b in FLAG.findall(text)})
    if not flags:
        return outs
    kept = {}
    for fl in flags:
        n = 'flag(%d, %d)' % fl
        less = without_flag(outs, n)
        if functional(less):
            outs = join_outcomes(less)
        else:
            kept.setdefault(fl[0], []).append(fl[1])
    text = json.dumps(outs)
    return json.loads(FLAG.sub(lambda m: 'flag(%s, %d)' % (m.group(1), kept[int(m.group(1))].index(int(m.group(2)))), text))


def without_flag(rows, n):
    res = []
    for r in rows:
        do = []
        for x in r['do']:
            if isinstance(x, dict):
                l = join_plain(without_flag(x['loop'], n), lambda i: json.dumps(i['do']))
                do.append({'loop': sorted(l, key=lambda i: json.dumps(i, sort_keys=True))})
            elif not x.startswith((n + ' := ', n + ' starts ')):
                do.append(x)
        res.append(dict(r, do=do, when={k: v for k, v in r['when'].items() if k != n}))
    return res


def functional(rows):
    """do the conditions decide the label?"""
    for i, a in enumerate(rows):
        for x in a['do']:
            if isinstance(x, dict) and not functional(x['loop']):
                return False
        for b in rows[i + 1:]:
            if consistent(a['when'], b['when']) and not (same_label(a, b) if 'end' in a else same_do(a['do'], b['do'])):
                return False
    return True


def sort_rows(rows):
    """restores the order of the entries that are about loop-carried values"""
    for r in rows:
        do = r['do']
        i = 0
        while i < len(do):
            if isinstance(do[i], dict):
                sort_rows(do[i]['loop'])
                i += 1
                continue
            j = i
            while j < len(do) and isinstance(do[j], str) and re.match(r'flag\(|loop\d+\(', do[j]):
                j += 1
            do[i:j] = sorted(do[i:j])
            i = max(j, i + 1)
    return rows


def renumberings(outs):
    """the same outcomes with the loop-carried values of equal start value numbered differently"""
    text = json.dumps(outs)
    groups = {}
    for a, b in FLAG.findall(text):
        groups.setdefault(('flag', a), set()).add('flag(%s, %s)' % (a, b))
    for m in re.finditer(r'loop(\d+)\(', text):
        d, j = 1, m.end()
        while d and j < len(text):
            d += {'(': 1, ')': -1}.get(text[j], 0)
            j += 1
        groups.setdefault(('loop', text[m.end():j]), set()).add(text[m.start():j])
    groups = [sorted(g) for g in groups.values() if 1 < len(g) <= 4]
    total = 1
    for g in groups:
        total *= len(list(itertools.permutations(g)))
    if total > 150:
        return
    for c in itertools.product(*[itertools.permutations(g) for g in groups]):
        ren = {a: b for g, p in zip(groups, c) for a, b in zip(g, p) if a != b}
        if ren:
            yield sort_rows(json.loads(re.sub('|'.join(re.escape(x) for x in ren), lambda m: ren[m.group(0)], text)))


# ------------------------------------------------------------------------------ comparison
def consistent(a, b):
    for k, x in a.items():
        y = b.get(k)
        if y is None:
            continue
        if isinstance(x, list) and isinstance(y, list):
            continue
        if isinstance(x, list):
            if y in x:
                return False
        elif isinstance(y, list):
            if x in y:
                return False
        elif x != y:
            return False
    return True


def same_do(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, dict) != isinstance(y, dict):
            return False
        if isinstance(x, dict):
            if not same_loop(x['loop'], y['loop']):
                return False
        elif x != y:
            return False
    return True


def same_loop(a, b):
    for i in a:
        hit = False
        for j in b:
            if consistent(i['when'], j['when']):
                if not same_do(i['do'], j['do']):
                    w = joint(i['when'], j['when'])
                    if impossible(w):
                        continue
                    sim = Simplify(w)
                    if not same_do(sim.do(i['do']), sim.do(j['do'])):
                        return False
                hit = True
        if not hit and not impossible(i['when']):
            return False
    for j in b:
        if not any(consistent(i['when'], j['when']) for i in a) and not impossible(j['when']):
            return False
    return True


def same_label(a, b):
    return a['end'] == b['end'] and a['set'] == b['set'] and same_do(a['do'], b['do'])


CONST = r"(?:-?\d+|null|true|false|(?:\w+::)+\w+|'(?:[^'\\]|\\.)*')"
EQ = re.compile(r'\((%s) == (%s)\)' % (CONST, CONST))
NUMBER = re.compile(r'(AtomicValue<(?:int|long|short)>)\((true|false)\)')
NOT = re.compile(r'!(true|false)\b')


def joint(a, b):
    """conjunction of two consistent conditions"""
    d = dict(a)
    for k, v in b.items():
        x = d.get(k)
        if x is None or isinstance(x, list) and not isinstance(v, list):
            d[k] = v
        elif isinstance(x, list) and isinstance(v, list):
            d[k] = sorted(set(x) | set(v))
    return d


class Simplify:
    """rewrites text under a condition: what is known to equal a constant is replaced by it"""

    def __init__(self, facts, skip=None):
        self.facts = facts
        sub = {}
        for k, v in facts.items():
            if k == skip:
                continue
            if isinstance(v, list):
                for c in v:
                    sub['(%s == %s)' % (k, c)] = sub['(%s == %s)' % (c, k)] = 'false'
                continue
            if v is True:
                t = TERMS.get(k)
                if t is not None and t[0] == 'o' and t[1] == '==':
                    x, y = sorted((tstr(t[2]), tstr(t[3])), key=lambda z: (len(z), z))
                    if x != y:
                        sub[y] = x
            sub[k] = ('true' if v else 'false') if isinstance(v, bool) else v
        self.sub = sub
        self.gone = [x for k, v in facts.items() if v is True and k.startswith('empty(') for x in (k[6:-1],) if k != skip]
        # removing what is not there changes nothing
        self.absent = [('%s.erase(%s)' % (tstr(t[2][0]), tstr(t[2][1])), tstr(t[2][0])) for k, v in facts.items() if v is False and k.startswith('has(')
                       for t in (TERMS.get(k),) if t is not None and t[:2] == ('c', 'has') and len(t[2]) == 2]
        self.re = None
        if sub:
            keys = sorted(sub, key=lambda z: (-len(z), z))
            self.re = re.compile(r'(?<![\w.@$:>#])(?:%s)(?![\w@{\'(])' % '|'.join(re.escape(k) for k in keys))

    def text(self, t):
        if self.re is None:
            return t
        for _ in range(4):
            n = self.re.sub(lambda m: self.sub[m.group(0)], t)
            n = EQ.sub(lambda m: 'true' if m.group(1) == m.group(2) else 'false', n)
            n = NOT.sub(lambda m: 'false' if m.group(1) == 'true' else 'true', n)
            for k in self.gone:
                n = unjoined(n, k)
            for k, v in self.absent:
                n = n.replace(k, v)
            n = NUMBER.sub(lambda m: m.group(1) + ('(1)' if m.group(2) == 'true' else '(0)'), n)
            if n == t:
                break
            t = n
        return t

    def do(self, l):
        res = []
        for x in l:
            if isinstance(x, dict):
                # what the last iteration found says nothing about the others
                own = keys_of(x['loop'])
                if any(self.facts.get('empty(%s)' % c) is True for c in walked(x['loop'])):
                    continue
                sim = Simplify({k: v for k, v in self.facts.items() if k not in own and not ITERATION.search(k)})
                rows = [(sim.when(r['when']), r) for r in x['loop']]
                res.append({'loop': [{'when': w, 'do': sim.do(r['do'])} for w, r in rows if w is not None]})
            else:
                x = self.text(x)
                if x != 'delete(null)':
                    res.append(x)
        return res

    def when(self, w):
        res = {}
        for k, v in w.items():
            n = self.text(k)
            if n in ('true', 'false') and isinstance(v, bool):
                if (n == 'true') != v:
                    return None
            else:
                res[n] = v
        return res

    def outcome(self, o):
        st = {}
        for k, v in o['set'].items():
            v = self.text(v)
            if k in o.get('old', ()) and self.text(o['old'][k]) == v:
                continue
            st[self.text(k)] = v
        end = self.text(o['end'])
        if end.startswith('return ') and end[7:] in self.gone:
            end = "return ''"
        return {'end': {'return true': 'return 1', 'return false': 'return 0'}.get(end, end), 'set': st, 'do': self.do(o['do']), 'when': o['when']}


def unjoined(t, k):
    """text in which an empty operand is not added to others"""
    for a, b in (('(' + k + ' + ', 1), (' + ' + k + ')', -1)):
        i = t.find(a)
        while i >= 0:
            j, d = (i + len(a), 1) if b > 0 else (i - 1, 1)
            while 0 <= j < len(t):
                d += b * {'(': 1, ')': -1}.get(t[j], 0)
                if not d:
                    break
                j += b
            else:
                break
            t = t[:i] + t[i + len(a):j] + t[j + 1:] if b > 0 else t[:j] + t[j + 1:i] + t[i + len(a):]
            i = t.find(a)
    return t


ITERATION = re.compile(r"\b(?:each|more|iter|flag|loop\d+)'*\(|@loop")


def keys_of(rows):
    r = set()
    for i in rows:
        r |= set(i['when'])
        for x in i['do']:
            if isinstance(x, dict):
                r |= keys_of(x['loop'])
    return r


def walked(rows):
    """containers without which the loop does nothing"""
    res = None
    for r in rows:
        if r['do'] != ['leave']:
            c = {k[5:-1] for k, v in r['when'].items() if v is True and k.startswith('more(')}
            res = c if res is None else res & c
    return res or ()


def same_under(a, b):
    """equal labels wherever both conditions hold?"""
    s = Simplify(joint(a['when'], b['when']))
    return same_label(s.outcome(a), s.outcome(b))


_deref = {}


def dereferenced(text, t):
    """texts of the pointers whose members are read in a condition"""
    r = _deref.get(text)
    if r is None:
        r = set()
        for x in engine.subterms(t):
            if isinstance(x, tuple) and len(x) > 2 and x[0] == 'f' and isinstance(x[1], tuple):
                r.add(tstr(x[1]))
        _deref[text] = r
    return r


def impossible(w):
    """no execution satisfies the condition"""
    null = {k for k, v in w.items() if v == 'null'}
    less = []
    for k, v in w.items():
        t = TERMS.get(k)
        if t is None:
            continue
        if null and dereferenced(k, t) & null:
            return True
        if t[0] == 'dyn' and tstr(t[2]) in null and v != 'null':
            return True
        if t[0] == 'more' and v is True and w.get('empty(%s)' % tstr(t[1])) is True:
            return True
        if t[0] == 'o' and t[1] == '<':
            less.append((t, v))
            if t[3][0] == 'i' and t[2][:2] == ('c', 'size'):
                e = w.get('empty(%s)' % tstr(t[2][2][0]))
                if e is True and (0 < t[3][1]) != v or e is False and t[3][1] == 1 and v:
                    return True
        if t[:2] == ('o', '==') and v is False:
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                # nothing is found in an empty string
                if x[0] == 'c' and (x[1].startswith('find_') or x[1] in ('find', 'rfind') and x[2][1][0] == 's' and x[2][1][1]) \
                        and tstr(y).endswith('::npos') and w.get('empty(%s)' % tstr(x[2][0])) is True:
                    return True
        if t[:2] == ('c', 'size') and isinstance(v, str):
            e = w.get('empty(%s)' % tstr(t[2][0]))
            if e is True and v != '0' or e is False and v == '0':
                return True
    for t, v in less:
        a, b = tstr(t[2]), tstr(t[3])
        x, y = sorted((t[2], t[3]), key=repr)
        e = w.get('(%s == %s)' % (tstr(x), tstr(y)))
        if v and (e is True or w.get('(%s < %s)' % (b, a)) is True):
            return True
        if not v and e is False and w.get('(%s < %s)' % (b, a)) is False:
            return True
        if t[3][0] == 'i':
            c = t[3][1]
            k = w.get(a)
            if isinstance(k, str) and re.fullmatch(r'-?\d+', k) and (int(k) < c) != v:
                return True
            if v and isinstance(k, list) and t[2][:2] == ('c', 'size') and c <= 64:
                low = 1 if w.get('empty(%s)' % tstr(t[2][2][0])) is False else 0
                if {str(n) for n in range(low, c)} <= set(k):
                    return True
            for t2, v2 in less:
                if v and not v2 and t2[2] == t[2] and t2[3][0] == 'i':
                    low = t2[3][1]
                    if low >= c or isinstance(k, list) and c - low <= 64 and {str(n) for n in range(low, c)} <= set(k):
                        return True
    # what the equalities make of the other conditions
    seen = {}
    for k, v in w.items():
        n = Simplify({x: y for x, y in w.items() if x != k}).text(k)
        if n == k:
            continue
        if n in ('true', 'false') and isinstance(v, bool) and (n == 'true') != v:
            return True
        if isinstance(v, str) and re.fullmatch(CONST, n) and n != v:
            return True
        if isinstance(v, list) and n in v:
            return True
        if n in w and not consistent({n: v}, {n: w[n]}) or n in seen and not consistent({n: v}, {n: seen[n]}):
            return True
        seen[n] = v
    return False


def compare(code, spec):
    """-> None or (code outcome, spec outcome) that contradict each other"""
    d = compare1(code, spec)
    if d is not None:
        for c in renumberings(code):
            if compare1(c, spec) is None:
                return None
    return d


def compare1(code, spec):
    bad = {}

    def nothing(o):
        r = bad.get(id(o))
        if r is None:
            r = bad[id(o)] = impossible(o['when'])
        return r

    def partner(c, s):
        """None: never together; True: they agree; False: they do not"""
        if not consistent(c['when'], s['when']):
            return None
        if c['end'] == 'cut' or s['end'] == 'cut' or same_label(c, s) or same_under(c, s):
            return True
        if nothing(c) or nothing(s) or impossible(joint(c['when'], s['when'])):
            return None
        return False
    met = set()
    for c in code:
        hit = False
        for s in spec:
            r = partner(c, s)
            if r is False:
                return c, s
            if r:
                hit = True
                met.add(id(s))
        if not hit and not nothing(c):
            return c, None
    for s in spec:
        if id(s) not in met and not nothing(s):
            return None, s
    return None


def finished(short, long):
    """every outcome of one side that comes to an end has a counterpart that comes to an end"""
    return all(o['end'] == 'cut' or impossible(o['when']) or
               any(p['end'] != 'cut' and consistent(o['when'], p['when']) for p in long) for o in short)


def show(o):
    def w(x):
        r = []
        for k, v in sorted(x.items()):
            if v is True:
                r.append(k)
            elif v is False:
                r.append('!' + k)
            elif isinstance(v, str):
                r.append('%s == %s' % (k, v))
            else:
                r.append('%s not in {%s}' % (k, ', '.join(v)))
        return ' & '.join(r) or 'always'

    def d(x, ind):
        t = ''
        for e in x:
            if isinstance(e, dict):
                t += ind + 'loop\n'
                for i in e['loop']:
                    t += ind + '  each time ' + w(i['when']) + '\n' + d(i['do'], ind + '      ')
            else:
                t += ind + e + '\n'
        return t
    t = '  when ' + w(o['when']) + '\n' + d(o['do'], '      do ')
    for k, v in sorted(o['set'].items()):
        t += '      set %s := %s\n' % (k, v)
    return t + '      -> ' + o['end'] + ('   (line %d)' % o['line'] if o.get('line') else '')
