"""debug aid: prints the abstract outcomes of a function:  python3 -m sa.dump NAME [inline,..]"""
import sys
from . import model, engine, tables


def main():
    p = model.load()
    base = tables.Baseline(p)
    cfg = engine.Config(inline=(sys.argv[2].split(',') if len(sys.argv) > 2 else ()))
    for f in p.find(sys.argv[1]):
        e = engine.Engine(p, cfg, base)
        outs = tables.summarise(e, e.run(f))
        print('==', f['id'], f['file'], f['line'], '%d outcomes' % len(outs))
        for o in outs:
            print(tables.show(o))


main()
