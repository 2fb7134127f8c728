#!/usr/bin/env python3
"""Confirms planted changes: seed.py ID...  (builds, tests and demonstrates each in a scratch copy of /repo)."""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork/%d'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(w, cmd):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (w, cmd))


def demo(w, d):
    c = '/tmp/seedwork/demo%d' % os.getpid()
    sh('rm -rf %s; cp -r %s %s; rm -f %s/patch.diff %s/meta.json' % (c, d, c, c, c))
    r = inside(w, 'timeout 300 bash %s/demo.sh' % c)
    sh('rm -rf %s' % c)
    return r


def tests(w):
    o = '/tmp/seedwork/t%d.json' % os.getpid()
    r = inside(w, 'bash /opt/vp/test.sh %s' % o)
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(o))
    return [t for t in base['stable'] if t not in got['passed']] if 'passed' in got else r.stdout[-300:]


def main():
    w = W % os.getpid()
    sh('mkdir -p /tmp/seedwork; rm -rf %s; cp -a /repo %s' % (w, w))
    r = inside(w, 'bash /opt/vp/build.sh')
    for i in sys.argv[1:]:
        d = os.path.join(VERIF, 'seeded', i)
        a = demo(w, d)
        p = sh('git -C %s apply %s/patch.diff' % (w, d))
        if p.returncode:
            print(i, 'patch does not apply', p.stdout)
            continue
        b = inside(w, 'bash /opt/vp/build.sh')
        if b.returncode:
            print(i, 'BUILD FAILS', b.stdout[-1500:])
        else:
            t = tests(w)
            c = demo(w, d)
            print(i, 'OK' if a.returncode == 0 and c.returncode and not t else 'NOT OK', 'clean demo', a.returncode, 'tests failing', t, 'demo with patch', c.returncode)
            if a.returncode:
                print(a.stdout[-800:])
            print('   ', c.stdout[-300:].replace('\n', '\n    '))
        sh('git -C %s checkout -- .' % w)
        inside(w, 'bash /opt/vp/build.sh')
    sh('rm -rf %s' % w)


main()
