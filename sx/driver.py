"""Runs the harnesses of one check: exploration, solver verdicts, replays on the real package, evidence."""
import os, sys, time, json, importlib, subprocess, traceback, collections, signal, select, hashlib, gc
import multiprocessing as mp
import multiprocessing.connection

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
KNOWN = os.path.join(HERE, 'known_findings.json')
TIERS = {'quick': dict(budget=75, deepen=12, path=40, z3=8000, replays=40, samples=12),
         'thorough': dict(budget=700, path=200, z3=30000, replays=120, samples=60)}


# ------------------------------------------------------------------ symbolic worker
def worker_main(conn, mod, tasks, cfg, seed):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    from . import explore, load, stubs
    ext = stubs.externals()
    fns = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'sx')
    pk = os.path.join(load.REPO, 'giddy') + os.sep

    def start(code, off):
        if code.co_filename.startswith(pk):
            n = code.co_qualname
            if '<locals>' not in n and n != '<module>' and not n.endswith('<listcomp>'):
                fns.add(os.path.basename(code.co_filename) + ':' + n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        tid, prefixes, slice_s, deadline = msg
        h, params = tasks[tid]
        st = explore.new_stats()
        out = []
        stack = list(prefixes)
        t0 = time.time()
        fns.clear()
        mon.restart_events()
        while stack and time.time() - t0 < slice_s and time.time() < deadline:
            pre = stack.pop()
            try:
                alts, res = explore.run_path(h['fn'], params, lambda: load.Program(ext), pre, st, cfg['z3'],
                                             min(deadline, time.time() + cfg['path']), seed)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                alts, res = [], dict(candidates=[], sample=None, status='engine',
                                     notes=[f'engine: {type(e).__name__}: {str(e)[:120]} ' + explore.where(e)])
                st['unsupported'] += 1
            stack.extend(alts)
            res.pop('exception', None)
            out.append(res)
        try:
            conn.send((tid, stack, st, out, sorted(fns)))
        except Exception:
            conn.send((tid, stack, st, [], []))


class Pool:
    def __init__(self, n, mod, tasks, cfg, seed):
        self.args = (mod, tasks, cfg, seed)
        self.ctx = mp.get_context('fork')
        self.w = []
        for _ in range(n):
            self.w.append(self.spawn())

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker_main, args=(b,) + self.args, daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, job=None)

    def close(self):
        for w in self.w:
            if w['job'] is not None:
                w['p'].kill()
            else:
                try:
                    w['c'].send(None)
                except Exception:
                    pass
        for w in self.w:
            w['p'].join(2)
            if w['p'].is_alive():
                w['p'].kill()


# ------------------------------------------------------------------ replay client
class Replayer:
    def __init__(self):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.setdefault('OMP_NUM_THREADS', '1')
        env.setdefault('OPENBLAS_NUM_THREADS', '1')
        self.p = subprocess.Popen([PY, '-u', os.path.join(HERE, 'sx', 'replay_server.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)
        self.ready = False
        self.n = 0

    def wait(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('the real package cannot be imported')
            self.ready = True

    def run(self, check, harness, params, rec, variants=True):
        self.wait()
        self.n += 1
        self.p.stdin.write(json.dumps(dict(check=check, harness=harness, params=params, rec=rec, variants=variants)) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('replay process ended')
        return json.loads(line)

    def close(self):
        try:
            self.p.kill()
            self.p.wait(5)
        except Exception:
            pass


def fails(r):
    """labels that fail on the real code"""
    out = list(r.get('failed') or [])
    if r.get('error') and not r.get('timeout') and r.get('in_giddy') and not r.get('skipped'):
        out.append('no error')
    return out


def load_known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [e for e in d.get('findings', []) if e['property'] == pid]


def load_check(pid):
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    return importlib.import_module('checks.' + pid.lower())


def run_check(pid, tier, budget=None, only=None, verbose=False, workers=None, stop=True):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = dict(TIERS[tier])
    mod = load_check(pid)
    cfg.update(getattr(mod, 'CFG', {}).get(tier, {}))
    if budget:
        cfg['budget'] = budget
    rp = Replayer()
    from . import core, load, stubs       # import before forking
    tasks = []
    for h in mod.HARNESSES:
        if only and h['name'] not in only:
            continue
        ps = h.get(tier) if h.get(tier) is not None else h.get('quick')
        for params in ps:
            tasks.append((h, params))
    # time left over in the quick tier goes to larger inputs
    nmain = len(tasks)
    if tier == 'quick' and cfg.get('deepen'):
        for h in mod.HARNESSES:
            if not only or h['name'] in only:
                tasks += [(h, params) for params in h.get('thorough') or () if params not in (h.get('quick') or ())]
    check = pid.lower()
    nw = workers or int(os.environ.get('SX_WORKERS') or 0) or min(8, os.cpu_count() or 8)
    stats = [None] * len(tasks)
    from .explore import new_stats
    stats = [new_stats() for _ in tasks]
    queues = [collections.deque([()]) for _ in tasks]
    busy = [0] * len(tasks)
    tfirst = [None] * len(tasks)
    tlast = [None] * len(tasks)
    samples = [[] for _ in tasks]
    notes = collections.Counter()
    functions = set()
    known = load_known(pid)
    knownkeys = {(e['harness'], e['label']) for e in known}
    deadline = t0 + cfg['budget']
    deepen = min(deadline, t0 + cfg.get('deepen', 0))
    pool = Pool(nw, mod, tasks, cfg, seed)
    cands = collections.deque()
    replayed = collections.Counter()
    seenrec = set()
    inconcl = []
    violation = None
    known_hit = {}
    nrep = 0
    nsample = 0
    rr = rr2 = 0

    def replay_some():
        nonlocal violation, nrep
        while cands and violation is None:
            tid, cand = cands.popleft()
            h, params = tasks[tid]
            key = (tid, cand['label'])
            if replayed[key] >= 4 or nrep >= cfg['replays'] * 4:
                continue
            rec = dict(inputs=cand['inputs'], draws=cand['draws'])
            rk = (h['name'], json.dumps(params, sort_keys=True), json.dumps(rec, sort_keys=True))
            if rk in seenrec:
                continue
            seenrec.add(rk)
            replayed[key] += 1
            nrep += 1
            r = rp.run(check, h['name'], params, rec)
            fl = fails(r)
            new = [l for l in fl if (h['name'], l) not in knownkeys]
            for l in fl:
                if l not in new:
                    known_hit[(h['name'], l)] = True
            if new:
                violation = dict(property=pid, check=check, harness=h['name'], params=r.get('params', params),
                                 rec=r.get('rec', rec), label=new[0], failed=fl, error=r.get('error'), what=cand.get('what'))
            elif not fl:
                inconcl.append(dict(harness=h['name'], params=params, label=cand['label'], what=cand.get('what'),
                                    rec=rec, real=r.get('error') or ('assumption not met' if r.get('skipped') else 'holds')))

    try:
        while True:
            now = time.time()
            # hand out work, round robin over tasks
            idle = [w for w in pool.w if w['job'] is None]
            if now < deadline and violation is None:
                for w in idle:
                    got = None
                    for d in range(nmain):
                        q = (rr + d) % nmain
                        if queues[q]:
                            got = q
                            rr = q + 1
                            break
                    if got is None and now < deepen:
                        for d in range(len(tasks) - nmain):
                            q = nmain + (rr2 + d) % (len(tasks) - nmain)
                            if queues[q]:
                                got = q
                                rr2 = q - nmain + 1
                                break
                    if got is None:
                        break
                    n = len(queues[got])
                    take = max(1, min(32, n // (2 * nw)))
                    pre = [queues[got].popleft() for _ in range(take)]
                    young = tfirst[got] is None or n < 2 * nw
                    if tfirst[got] is None:
                        tfirst[got] = now
                    w['c'].send((got, pre, 0.15 if young else 1.0, deadline if got < nmain else deepen))
                    w['job'] = (got, pre)
                    busy[got] += 1
            running = [w for w in pool.w if w['job'] is not None]
            if not running:
                break
            if now > deadline + 20 or (violation is not None):
                break
            if now > deepen + 5 and all(w['job'][0] >= nmain for w in running) and not any(queues[:nmain]):
                break
            rs = mp.connection.wait([w['c'] for w in running], timeout=0.5)
            for w in running:
                if w['c'] in rs:
                    tid, pre = w['job']
                    try:
                        _, left, st, out, fns = w['c'].recv()
                    except (EOFError, OSError):
                        notes['worker ended unexpectedly'] += 1
                        stats[tid]['unsupported'] += 1
                        busy[tid] -= 1
                        i = pool.w.index(w)
                        pool.w[i] = pool.spawn()
                        continue
                    w['job'] = None
                    busy[tid] -= 1
                    tlast[tid] = time.time()
                    queues[tid].extend(left)
                    for k, v in st.items():
                        stats[tid][k] += v
                    functions.update(fns)
                    for res in out:
                        for n in res['notes']:
                            notes[f"{tasks[tid][0]['name']}: {n}"] += 1
                        for c in res['candidates']:
                            key = (tid, c['label'])
                            if replayed[key] < 4:
                                cands.append((tid, c))
                        if res['sample'] and res['status'] == 'ok' and len(samples[tid]) < 200:
                            samples[tid].append(res['sample'])
            if cands and stop:
                # wait for the real package only when there is something to replay
                replay_some()
        pool.close()
        if violation is None:
            replay_some()
        # validation of the encoding on path samples
        mism = []
        if violation is None:
            pick = []
            per = max(1, cfg['samples'] // max(1, len(tasks)))
            for tid in range(len(tasks)):
                s = samples[tid]
                if s:
                    step = max(1, len(s) // per)
                    pick += [(tid, x) for x in s[::step][:per]]
            for tid, s in pick[:cfg['samples'] * 2]:
                h, params = tasks[tid]
                r = rp.run(check, h['name'], params, s, variants=False)
                if r.get('skipped'):
                    continue
                nsample += 1
                fl = [l for l in fails(r) if (h['name'], l) not in knownkeys]
                if fl or (r.get('error') and not r.get('timeout')) or r.get('server'):
                    mism.append(dict(harness=h['name'], params=params, failed=fl, error=r.get('error') or r.get('server'), rec=s))
        # listed findings
        for e in known:
            if violation is not None:
                break
            r = rp.run(check, e['harness'], e['params'], e['rec'], variants=False)
            fl = fails(r)
            if e['label'] in fl:
                print(f"KNOWN-FINDING: property={pid} {e['what']}")
    finally:
        try:
            pool.close()
        except Exception:
            pass
        rp.close()

    tot = new_stats()
    for s in stats:
        for k, v in s.items():
            tot[k] += v
    incomplete = [dict(harness=tasks[i][0]['name'], params=tasks[i][1], open_prefixes=len(queues[i]) + busy[i])
                  for i in range(nmain) if queues[i] or busy[i]]
    vac = [f"{tasks[i][0]['name']}{tasks[i][1]}" for i in range(nmain)
           if violation is None and not queues[i] and not busy[i] and (stats[i]['feasible'] == 0 or stats[i]['obligations'] == 0)]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot['paths'], transitions=tot['branches'], traces_validated_against_impl=nsample + nrep,
                            samples=[dict(harness=tasks[t][0]['name'], params=tasks[t][1], **samples[t][0])
                                     for t in range(len(tasks)) if samples[t]][:6],
                            functions_encoded=sorted(functions),
                            bounds=[dict(harness=tasks[i][0]['name'], params=tasks[i][1], paths=stats[i]['paths'],
                                         feasible=stats[i]['feasible'], obligations=stats[i]['obligations'],
                                         discharged=stats[i]['discharged'], complete=not (queues[i] or busy[i]),
                                         extension=i >= nmain)
                                    for i in range(len(tasks)) if i < nmain or stats[i]['paths']],
                            outside_bounds=getattr(mod, 'OUTSIDE', 'larger sizes than those listed; floating point rounding'),
                            queries_discharged=tot['queries'], solver_s=round(tot['solver_s'], 2),
                            obligations=tot['obligations'], obligations_discharged=tot['discharged'],
                            discharged_by_rewriting=tot['by_rewriting'], unknown=tot['unknown'],
                            unsupported_paths=tot['unsupported'], path_timeouts=tot['timeouts'],
                            candidates_replayed=nrep, not_reproduced=inconcl[:10],
                            encoding_mismatches=mism[:10] if violation is None else [], incomplete=incomplete,
                            vacuous=vac, notes=[f'{n} x{k}' for n, k in notes.most_common(12)]),
              wall_s=round(time.time() - t0, 2),
              assumptions=['floating point arithmetic is treated as exact real arithmetic',
                           'numpy, scipy, libpysal, esda, mapclassify, quantecon and matplotlib follow their documented '
                           'contracts (modelled in sx/arr.py and sx/stubs.py)',
                           'bounds as listed per harness'] + list(getattr(mod, 'ASSUMPTIONS', [])),
              violations=[])
    rc = 0
    if violation is not None:
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        hsh = hashlib.sha1(json.dumps(violation['rec'], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'out', f'{check}_{violation["harness"]}_{hsh}.json')
        json.dump(violation, open(path, 'w'), indent=1)
        ev['violations'] = [dict(label=violation['label'], harness=violation['harness'], params=violation['params'],
                                 inputs=violation['rec'], replay=path, error=violation['error'])]
        print(f"{violation['harness']} {violation['params']}: '{violation['label']}' fails on the real package "
              f"({violation.get('error') or 'wrong result'}) for {violation['rec']}")
        print(f'VIOLATION property={pid} replay={path}')
        rc = 1
    else:
        for x in inconcl[:5]:
            print(f"INCONCLUSIVE {x['harness']} {x['params']} {x['label']}: {x['what']} ({x['real']})")
        for m in mism[:5]:
            print(f"ENCODING-MISMATCH {m['harness']} {m['params']} failed={m['failed']} error={m['error']} rec={m['rec']}")
        for x in incomplete[:5]:
            print(f"INCOMPLETE {x['harness']} {x['params']}: {x['open_prefixes']} open prefixes when the time ran out")
        for v in vac[:5]:
            print(f'VACUOUS {v}')
        for n, k in notes.most_common(6):
            print(f'NOTE {n} x{k}')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: paths={tot['paths']} feasible={tot['feasible']} branches={tot['branches']} obligations={tot['obligations']} "
          f"discharged={tot['discharged']} (rewriting {tot['by_rewriting']}) queries={tot['queries']} solver={tot['solver_s']:.1f}s "
          f"replays={nrep} samples={nsample} wall={time.time() - t0:.1f}s")
    if verbose:
        for i in range(len(tasks)):
            s = stats[i]
            print(f"   {tasks[i][0]['name']} {tasks[i][1]}: paths={s['paths']} obl={s['obligations']} dis={s['discharged']} "
                  f"rew={s['by_rewriting']} solver={s['solver_s']:.1f}s queries={s['queries']} "
                  f"t={(tlast[i] or t0) - (tfirst[i] or t0):.1f}s open={len(queues[i]) + busy[i]}")
    sys.stdout.flush()
    return rc


def run_replay(path):
    v = json.load(open(path))
    rp = Replayer()
    try:
        r = rp.run(v['check'], v['harness'], v['params'], v['rec'], variants=False)
    finally:
        rp.close()
    fl = fails(r)
    print(json.dumps(r))
    if fl:
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print('holds')
    return 0
