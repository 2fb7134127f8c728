#!/usr/bin/env python3
"""Decides one property on the current sources of the project.

    check.py PROPERTY [--tier quick|thorough]

exit 0: holds; exit 1 and a VIOLATION line: broken; exit 2: the analysis could not be carried out."""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import props
from sa import conform, model, rules, select, structure
from sa.model import AnalysisBroken

VERIF = os.path.dirname(os.path.abspath(__file__))


def known_findings():
    res = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for l in f:
            l = l.strip()
            if l.startswith('known:'):
                w = l.split(None, 3)
                res.append((w[1].split('=', 1)[1], w[2].split('=', 1)[1], w[3]))
    return res


def closure(prog, ids):
    """functions reachable by calls from the given ones, virtual calls included"""
    seen, todo = set(ids), list(ids)

    def walk(n, acc):
        if isinstance(n, list):
            for x in n:
                walk(x, acc)
        elif isinstance(n, dict):
            if n.get('k') in ('call', 'mcall', 'ocall', 'ctor', 'func') and n.get('id'):
                acc.add(n['id'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v, acc)
    while todo:
        f = prog.funcs.get(todo.pop())
        if not f:
            continue
        acc = set()
        walk(f['body'], acc)
        walk(f.get('inits'), acc)
        for a in list(acc):
            acc |= set(prog.overriders.get(a, ()))
        for a in acc:
            if a in prog.funcs and a not in seen:
                seen.add(a)
                todo.append(a)
    return seen


def run(pid, tier):
    p = props.BYID[pid]
    ref = model.load_reference()
    cur = model.load()
    sel = select.selector(p['fns'])
    cfg = {}
    if tier == 'thorough':
        cfg = {'throw_all': True, 'maxstates': 20000}
    findings = []
    # property specific rules on the current tree
    ctx = rules.Context(ref, cur, p)
    counts = {}
    for r in p['rules']:
        n, found = rules.run(r, ctx)
        counts[r] = n
        findings += [dict(rule=r, **x) for x in found]
    # conformance of the mechanism
    c = conform.Conformance(ref, cur, cfg)
    chosen = [f['id'] for f in ref.funcs.values() if sel(f)]
    if len(chosen) < 15:
        raise AnalysisBroken('only %d functions carry %s' % (len(chosen), pid))
    if cur.broken and any(f['file'].startswith('Projects/Library/') for f in map(ref.funcs.get, chosen)):
        raise AnalysisBroken('the library does not parse: %s' % '; '.join('%s: %s' % x for x in cur.broken))
    for x in c.check(sel):
        f, g = x[0], x[1]
        findings.append(dict(rule='outcomes', key='outcomes:' + f['id'], file=g['file'], line=(x[2] or {}).get('line') or g['line'],
                             func=model.short(g['f']), text=conform.describe(*x)))
    st, stc = structure.check(ref, cur, c.pairs(sel), c)
    for key, file, line, text in st:
        findings.append(dict(rule='structure', key='structure:' + key, file=file, line=line, func='', text=text))
    cov = {'functions': c.stats['functions'], 'outcomes': c.stats['paths'], 'call_sites': c.stats['calls'],
           'helpers_looked_into': len(c.stats['inlined']), 'translation_units': cur.tus, 'rule_instances': counts}
    cov.update(stc)
    if tier == 'thorough':
        # everything the mechanism calls, directly or through virtual calls
        ids = closure(ref, chosen)
        rest = [i for i in ids if i not in set(chosen)]
        c2 = conform.Conformance(ref, cur, {})
        sids = set(rest)
        sk = select.selector(['*'])
        for x in c2.check(lambda f: f['id'] in sids and sk(f)):
            f, g = x[0], x[1]
            findings.append(dict(rule='outcomes', key='outcomes:' + f['id'], file=g['file'], line=(x[2] or {}).get('line') or g['line'],
                                 func=model.short(g['f']), text=conform.describe(*x)))
        cov['functions_called_by_the_mechanism'] = c2.stats['functions']
        cov['outcomes_of_those'] = c2.stats['paths']
    return p, findings, cov


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence'))
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(a.evidence, exist_ok=True)
    try:
        p, findings, cov = run(a.property, a.tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.property)
        return 2
    known = [k for k in known_findings() if k[0] == a.property]
    new, seen = [], []
    for x in findings:
        k = [k for k in known if k[1] == x['key']]
        if k:
            seen += [y for y in k if y not in seen]
        else:
            new.append(x)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k[2]))
    cov['explanation'] = ('The sources were parsed with the compiler front end. The outcomes (branch conditions, effects, exits) of every function '
                          'that carries the property were enumerated and compared with the reviewed reference model; '
                          'the property specific rules (%s) were decided on the current tree.' % (', '.join(p['rules']) or 'none'))
    cov['known_findings'] = len(seen)
    ev = {'property': a.property, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ['the C++ standard library behaves as documented', 'functions outside of the project have the effects their declaration allows',
                          'the reference model was reviewed by hand'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(a.evidence, a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %s' % (a.property, p['title']))
    print('analysed %d functions, %d outcomes, %d call sites, %d constants; rules %s; %.1f s' % (
        cov['functions'], cov['outcomes'], cov['call_sites'], cov['constants'],
        ', '.join('%s=%d' % x for x in sorted(cov['rule_instances'].items())) or '-', ev['wall_s']))
    if not new:
        print('holds')
        return 0
    rp = os.path.join(a.evidence, a.property + '.replay.txt')
    with open(rp, 'w') as f:
        for x in new:
            f.write('rule %s  %s:%s %s\n%s\n\n' % (x['rule'], x['file'], x['line'], x['func'], x['text']))
    for x in new[:20]:
        print('%s:%s: [%s] %s' % (x['file'], x['line'], x['rule'], x['func']))
        print('\n'.join('    ' + l for l in x['text'].splitlines()[:30]))
    print('VIOLATION property=%s replay=%s' % (a.property, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main())
