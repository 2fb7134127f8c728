#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
import props
from sa import rules

V = os.path.dirname(os.path.abspath(__file__))
TECH = 'static analysis: path sensitive outcome analysis of the syntax tree against the reviewed reference model%s'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in props.P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks = []
    for p in props.P:
        r = p['rules']
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': TECH % ((', plus the rules ' + ', '.join(r)) if r else ''), 'level': 'other',
            'level_note': 'Decides on the parsed sources, without running them, that every function which carries the property has the reviewed outcomes '
                          '(conditions, effects and exits) on all of its paths' + (', and that the property specific rules hold on the current tree' if r else '')
                          + '. Trusts the reviewed reference model, the front end and the stated models of the standard library; values are compared symbolically.'})
    m = {'version': 1, 'setup_cmd': 'python3 -m sa.setup', 'checks': checks, 'not_applicable': [],
         'notes': 'check.py builds the extractor (tool/extract.cpp) if it is missing and parses /repo on every run. No hooks in /repo.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design()


def design():
    out = [open(os.path.join(V, 'DESIGN.in.md')).read()]
    for p in props.P:
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('%s\n' % p['statement'])
        out.append('*Decided over:* %s. %s\n' % (p['qtext'], p['why']))
        out.append('*Mechanism:* ' + '; '.join('%s (`%s`)' % x for x in p['mech']) + '.\n')
        out.append('*Analysed:* the outcomes of ' + ', '.join('`%s`' % x for x in p['fns']) + '.\n')
        if p['rules']:
            out.append('*Rules:* ' + '; '.join('%s: %s' % (r, ' '.join((rules.RULES[r][0].__doc__ or '').split())) for r in p['rules']) + '\n')
    tail = open(os.path.join(V, 'DESIGN.tail.md')).read()
    fl = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith(('known:', 'fixed:'))]
    tail = tail.replace('@FINDINGS@', '\n'.join('* ' + l for l in fl))
    rows = ['| bug | property | needs | breaks |', '|---|---|---|---|']
    for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks']))
    tail = tail.replace('@SEEDS@', 'All of them are caught by the check of their property:\n\n' + '\n'.join(rows))
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + tail)


main()
