"""Replays solver assignments against the real package (JSON lines on stdin/stdout), each in a process of its own that
starts from the package as imported."""
import sys, os, json, signal, io, traceback, warnings, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['NUMBA_DISABLE_PERFORMANCE_WARNINGS'] = '1'


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run(giddy, fn, params, rec, drawing):
    from sx import conc
    c = conc.ConcCtx(giddy, rec)
    out = dict(failed=[], skipped=False, error=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    try:
        import numpy as np
        np.random.seed(12345)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            with conc.patched(c, giddy, drawing):
                fn(c, **params)
    except conc.Skip:
        out['skipped'] = True
    except Timeout:
        out['error'] = 'timeout'
        out['timeout'] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb if '/giddy/' in f.filename]
        out['error'] = f'{type(e).__name__}: {str(e)[:200]} {loc[-1:] }'
        out['in_giddy'] = bool(loc)
    finally:
        signal.alarm(0)
    out['failed'] = sorted(set(c.failed))
    out['nchecks'] = c.nchecks
    return out


def answer(giddy, req):
    try:
        mod = importlib.import_module('checks.' + req['check'])
        h = [h for h in mod.HARNESSES if h['name'] == req['harness']][0]
        res = run(giddy, h['fn'], req['params'], req['rec'], h.get('drawing', False))
        if not res['failed'] and not res['error'] and h.get('variants') and req.get('variants'):
            for rec, params in h['variants'](req['rec'], req['params']):
                r = run(giddy, h['fn'], params, rec, h.get('drawing', False))
                if r['failed'] or r['error']:
                    res = r
                    res['rec'], res['params'] = rec, params
                    break
    except BaseException as e:
        res = dict(failed=[], skipped=True, error=None, server=f'{type(e).__name__}: {e}')
    return res


def main():
    real_out = os.fdopen(os.dup(1), 'w')
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1)
    sys.stdout = devnull
    sys.stderr = devnull
    warnings.simplefilter('ignore')
    import giddy
    assert os.path.realpath(giddy.__file__).startswith(os.path.realpath(REPO)), giddy.__file__
    real_out.write(json.dumps(dict(ready=True)) + '\n')
    real_out.flush()
    import numpy as np
    import quantecon
    try:
        # compiled before the first replay
        quantecon.MarkovChain(np.array([[.5, .5], [.5, .5]])).stationary_distributions
    except Exception:
        pass
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                with os.fdopen(w, 'w') as f:
                    json.dump(answer(giddy, json.loads(line)), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            out = f.read()
        os.waitpid(pid, 0)
        try:
            json.loads(out)
        except ValueError:
            out = json.dumps(dict(failed=[], skipped=True, error=None, server='the replay ended early'))
        real_out.write(out + '\n')
        real_out.flush()


if __name__ == '__main__':
    main()
