"""Declarations behind the selected functions: constant tables, virtual dispatch, class hierarchy."""
import re
from . import engine, model
from .conform import strip


def used(prog, funcs):
    """names of the globals the functions refer to, transitively through initialisers"""
    names, todo = set(), []

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            if n.get('k') == 'gl' and n.get('n') not in names:
                names.add(n['n'])
                todo.append(n['n'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
    for f in funcs:
        walk(f['body'])
        walk(f.get('inits'))
    while todo:
        g = prog.globals.get(todo.pop())
        if g:
            walk(g.get('i'))
    return names


def plain(prog, n, depth=0):
    """initialiser with constants replaced by their value and casts dropped"""
    if isinstance(n, list):
        return [plain(prog, x, depth) for x in n]
    if not isinstance(n, dict):
        return n
    k = n.get('k')
    if k in ('cast', 'copy') and 'e' in n:
        return plain(prog, n['e'], depth)
    if k == 'gl' and depth < 8:
        g = prog.globals.get(n['n'])
        if g and g.get('i') is not None and g.get('t', '').startswith('const'):
            return plain(prog, g['i'], depth + 1)
    return {x: plain(prog, v, depth) for x, v in n.items() if x not in ('l', 't', 'ft', 'ck')}


def inherited(prog, cls, suffix):
    """the implementation a class has from its bases"""
    c = prog.classes.get(cls)
    for b in (c['bases'] if c else ()):
        f = prog.funcs.get(b + suffix) or inherited(prog, b, suffix)
        if f is not None:
            return f
    return None


NUMBERS = set(engine.INT_BITS) | {'float', 'double', 'long double'}


def kind(t):
    """the part of a type that decides what is stored: numbers by their type, containers by how they treat order and duplicates"""
    t = t.replace('const ', '')
    if t in NUMBERS:
        return t
    for k in ('unordered_multimap', 'unordered_multiset', 'unordered_map', 'unordered_set', 'multimap', 'multiset', 'map', 'set'):
        if t.startswith('std::%s<' % k):
            return k + ('>' if 'std::greater<' in t else '')
    return ''


def kept(n):
    """static local variables which can differ from call to call: variables, and constants computed from the inputs of the first call"""
    known, out = set(), []

    def visit(n):
        if isinstance(n, dict):
            if n.get('static'):
                table = n.get('t', '').startswith('std::') and (n.get('i') or {}).get('a')
                if (CONSTANT.search(n.get('t', '')) or table) and not depends(n.get('i'), known):
                    known.add(n['id'])
                else:
                    out.append(n)
            for v in n.values():
                visit(v)
        elif isinstance(n, list):
            for v in n:
                visit(v)
    visit(n)
    return out


CONSTANT = re.compile(r'^const\b(?!.*\*$)|\bconst$|^const\b.*&$')


def depends(n, known):
    """does the expression read anything that belongs to a call?"""
    if isinstance(n, dict):
        return n.get('k') in ('var', 'this') and n.get('id') not in known or any(depends(v, known) for v in n.values())
    return isinstance(n, list) and any(depends(v, known) for v in n)


def check(ref, cur, pairs, c=None):
    """-> (findings, counts); a finding is (key, file, line, text)"""
    out = []
    rf = [f for f, g in pairs]
    names = used(ref, rf)
    n = 0
    for q in sorted(names):
        a, b = ref.globals.get(q), cur.globals.get(q)
        if a is None or b is None or a.get('i') is None:
            continue
        n += 1
        if strip(a.get('i')) != strip(b.get('i')) and plain(ref, a.get('i')) != plain(cur, b.get('i')):
            out.append((q, b['file'], b['line'], 'the constant %s has a different value' % model.short(q)))
    v = 0
    for f, g in pairs:
        if g is None:
            continue
        if f.get('v') or ref.overriders.get(f['id']):
            v += 1
            if f.get('v') and not g.get('v') and (ref.overriders.get(f['id']) or f.get('ov')):
                out.append((f['id'], g['file'], g['line'], '%s is no longer dispatched virtually' % model.short(f['f'])))
    for f, g in pairs:
        if g is None:
            continue
        x, y = kept(f.get('body')), kept(g.get('body'))
        if len(y) > len(x):
            out.append((f['id'], g['file'], y[-1]['l'], '%s: the local variable %s keeps its value from one call to the next' % (model.short(f['f']), y[-1]['n'])))
    cl = 0
    for q in sorted({f['cls'] for f in rf if f.get('cls')}):
        a, b = ref.classes.get(q), cur.classes.get(q)
        if not a or not b:
            continue
        cl += 1
        for base in a['bases']:
            if not cur.derives(q, base):
                out.append((q, b['file'], b['line'], '%s no longer derives from %s' % (model.short(q), model.short(base))))
        am = {m['id']: m for m in a['methods']}
        for m in b['methods']:
            x = am.get(m['id'])
            if x is None and m.get('v') is False:
                continue
            if x is not None and x.get('del') != m.get('del'):
                out.append((m['id'], b['file'], b['line'], '%s: deletion of the function changed' % model.short(m['id'])))
        bf = {x['n']: x for x in b['fields']}
        for x in a['fields']:
            y = bf.get(x['n'])
            if y is not None and kind(x['t']) != kind(y['t']):
                out.append((q + '::' + x['n'], b['file'], b['line'], 'the member %s::%s has another kind of type: %s instead of %s' % (model.short(q), x['n'], y['t'][:60], x['t'][:60])))
    # new overriding functions change what a virtual call does, removed ones too
    if c is not None:
        mine = {f['cls'] for f in rf if f.get('cls')}
        ids = {f['id'] for f in rf}
        for fid, g in cur.funcs.items():
            if not g.get('ov') or g.get('dtor') or fid in ref.funcs or g.get('cls') not in ref.classes:
                continue
            f = inherited(ref, g['cls'], g['id'][len(g['cls']):])
            if f is not None and (f['id'] in ids or g['cls'] in mine) and c.differ(f, g) is not None:
                out.append((fid, g['file'], g['line'], '%s replaces %s and behaves differently' % (model.short(fid), model.short(f['id']))))
        for f, g in pairs:
            if g is None and f.get('ov') and not f.get('dtor') and f.get('cls') in cur.classes:
                h = inherited(cur, f['cls'], f['id'][len(f['cls']):])
                if h is not None and c.differ(f, h) is not None:
                    out.append((f['id'], h['file'], h['line'], '%s takes the place of %s and behaves differently' % (model.short(h['id']), model.short(f['id']))))
    return out, {'constants': n, 'virtual_functions': v, 'classes': cl}
