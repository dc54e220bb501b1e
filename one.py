"""debug: explore one harness in-process.  one.py C13 harness idx [maxpaths]"""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sx import explore, load, stubs, driver
def main():
    pid, hn, ix = sys.argv[1], sys.argv[2], int(sys.argv[3])
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 1000
    mod = driver.load_check(pid)
    h = [h for h in mod.HARNESSES if h['name'] == hn][0]
    params = h['quick'][ix]
    print(params)
    ext = stubs.externals()
    st = explore.new_stats()
    stack = [()]
    n = 0
    while stack and n < mx:
        pre = stack.pop(); n += 1
        t = time.time()
        alts, res = explore.run_path(h['fn'], params, lambda: load.Program(ext), pre, st, 8000, time.time() + 100, 1)
        stack.extend(alts)
        if time.time() - t > 0.5 or res['candidates'] or res['notes']:
            print(n, f'{time.time() - t:.2f}s', res['status'], res['notes'], [(c['label'], c['what'], c['inputs'], c['draws']) for c in res['candidates'][:3]], len(stack))
    print(st)
if os.environ.get('PROF'):
    import cProfile, pstats
    p = cProfile.Profile(); p.runcall(main); pstats.Stats(p).sort_stats('cumtime').print_stats(45)
else:
    main()
