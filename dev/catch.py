#!/usr/bin/env python3
"""Runs the check of its property against each planted change: catch.py [ID...] (scratch copies, bind-mounted over /repo)."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/catchwork'


def sh(cmd):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(i):
    d = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    w = '%s/%s' % (W, i)
    sh('rm -rf %s; mkdir -p %s; git clone -q /repo %s' % (w, W, w))
    p = sh('git -C %s apply %s/patch.diff' % (w, d))
    if p.returncode:
        return i, meta['property'], 'patch does not apply: ' + p.stdout
    r = sh("unshare -m bash -c 'mount --bind %s /repo && cd %s && python3 check.py %s --tier quick --evidence %s/evidence'" % (w, VERIF, meta['property'], w))
    v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
    sh('rm -rf %s' % w)
    if r.returncode == 1 and v:
        return i, meta['property'], 'caught'
    return i, meta['property'], 'MISSED (exit %d) %s' % (r.returncode, r.stdout[-400:])


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(4) as ex:
        for i, p, r in ex.map(one, ids):
            print(i, p, r, flush=True)


main()
