"""developer driver: t.py module.Func [index...] """
import sys, importlib, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vcgen import engine, verify as V
a = [x for x in sys.argv[1:] if not x.startswith('-')]
engine.DEBUG = '-d' in sys.argv
m, fn = a[0].split('.')
cts = getattr(importlib.import_module('specs.' + m), fn)()
idx = [int(x) for x in a[1:]] or range(len(cts))
for i in idx:
    r = V.verify(cts[i], True)
    print(i, r.summary(), {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r.stats.items()}, flush=True)
    if '-l' in sys.argv:
        for l in r.loops:
            print('   ', l)
        for o in r.obligs:
            print('   ', o['name'], o['where'], o['result'], o['solver'], o['time'])
