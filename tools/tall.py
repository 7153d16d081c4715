"""developer driver: verify all contracts of the given properties (default: all), one line each"""
import sys, os, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def run(a):
    from vcgen import verify as V
    from specs.registry import PROPS
    from vcgen import engine
    engine.Engine.seed = int(os.environ.get('SEED', '0'))
    p, i = a
    r = V.verify(PROPS[p]['contracts']()[i], True)
    return '%s.%d %s %s' % (p, i, r.summary()[:150], {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r.stats.items()})
if __name__ == '__main__':
    from specs.registry import PROPS
    ps = sys.argv[1:] or list(PROPS)
    jobs = [(p, i) for p in ps for i in range(len(PROPS[p]['contracts']()))]
    t = time.time()
    with ProcessPoolExecutor(2) as ex:
        for x in ex.map(run, jobs):
            print(x, flush=True)
    print('total', time.time() - t)
