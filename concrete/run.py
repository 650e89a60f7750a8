"""Bounded evaluation of the contracts on the real code (runs under the repository's own python)."""
import sys, os, json, time, signal, argparse, traceback, hashlib, importlib, warnings, multiprocessing as mp
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np
warnings.simplefilter('ignore')

def one(pid, name, seed, limit):
    """run one case with one seed; -> (message or None, n comparisons, digest, description)"""
    import core
    importlib.import_module(pid)
    c = [c for c in core.CASES if c.name == name][0]
    T = core.T(seed, name)
    np.random.seed(seed % (2 ** 31)); import random; random.seed(seed)
    def alarm(*a): raise core.Hang('no result within %d s' % limit)
    signal.signal(signal.SIGALRM, alarm); signal.alarm(limit)
    msg = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.fn(T)
    except core.Skip as e: return (None, 0, '', 'skipped %s' % e)
    except core.Fail as e: msg = str(e)
    except core.Hang as e: msg = 'hang: %s' % e
    except MemoryError as e: return (None, 0, '', 'memory')
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        tb = traceback.extract_tb(e.__traceback__)
        msg = 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:300], ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:])))
    finally: signal.alarm(0)
    return (msg, T.n, T.digest(), T.desc())

def work(job):
    pid, name, seed, limit = job
    devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1)
    t0 = time.time()
    try: r = one(pid, name, seed, limit)
    except BaseException as e: r = ('harness error %r %s' % (e, traceback.format_exc()[-800:]), 0, '', '')
    return name, seed, r, time.time() - t0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--tier', default='quick'); ap.add_argument('--budget', type=float, default=100)
    ap.add_argument('--out'); ap.add_argument('--replay-dir'); ap.add_argument('--case'); ap.add_argument('--case-seed', type=int); ap.add_argument('-v', action='store_true'); ap.add_argument('--procs', type=int, default=4)
    a = ap.parse_args()
    import core
    importlib.import_module(a.pid)
    if a.case_seed is not None:
        r = one(a.pid, a.case, a.case_seed, 600); print(r[3]); print('FAIL: ' + r[0] if r[0] else 'ok (%d comparisons)' % r[1]); sys.exit(1 if r[0] else 0)
    t0 = time.time()
    cases = [c for c in core.CASES if a.case in (None, c.name)]
    mult = 3 if a.tier == 'quick' else 30
    jobs = []
    for c in cases:
        for k in range(c.n * mult):
            jobs.append((k / float(c.n * mult), (a.pid, c.name, core.subseed(a.seed, c.name, k), c.limit)))
    jobs = [j for _, j in sorted(jobs, key=lambda x: x[0])]
    stat = {c.name: {'case': c.name, 'contract': (c.fn.__doc__ or '').strip(), 'runs': 0, 'comparisons': 0, 'skipped': 0, 'seconds': 0.} for c in cases}
    fails, digests, samples = {}, set(), []
    ctx = mp.get_context('fork')
    with ctx.Pool(a.procs, maxtasksperchild=200) as pool:
        it = pool.imap_unordered(work, jobs, chunksize=1)
        for _ in range(len(jobs)):
            try: name, seed, (msg, n, dg, desc), dt = it.next(timeout=max(1., a.budget + 400 - (time.time() - t0)))
            except mp.TimeoutError: break
            st = stat[name]; st['runs'] += 1; st['comparisons'] += n; st['seconds'] = round(st['seconds'] + dt, 3)
            if n == 0 and msg is None: st['skipped'] += 1
            if n and dg not in digests:
                digests.add(dg)
                if len(samples) < 5 and name not in [s['case'] for s in samples]: samples.append({'case': name, 'seed': seed, 'input': desc[:400]})
            if msg is not None and name not in fails: fails[name] = (seed, msg, desc)
            if a.v: print('%-36s seed %-11d %5d  %.2fs %s' % (name, seed, n, dt, msg or ''))
            if time.time() - t0 > a.budget: break
        # every failure is replayed in a fresh process before it is reported
        confirmed = []
        for name, (seed, msg, desc) in fails.items():
            c = [c for c in cases if c.name == name][0]
            try: r = pool.apply_async(work, ((a.pid, name, seed, c.limit),)).get(timeout=c.limit + 60)
            except mp.TimeoutError: r = (name, seed, ('hang', 0, '', desc), 0)
            if r[2][0] is not None: confirmed.append((name, seed, r[2][0], desc))
        pool.terminate()
    res = {'cases': list(stat.values()), 'evaluations': sum(s['runs'] for s in stat.values()), 'distinct': len(digests), 'samples': samples, 'failures': [],
           'bound': '%d runs of %d cases, seed %d' % (sum(s['runs'] for s in stat.values()), len(cases), a.seed), 'functions': sorted(set(f for c in cases for f in c.funcs))}
    for name, seed, msg, desc in confirmed:
        rp = None
        if a.replay_dir:
            rp = os.path.join(a.replay_dir, '%s-%s-%d.json' % (a.pid, name, seed))
            json.dump({'property': a.pid, 'case': name, 'seed': seed, 'message': msg, 'input': desc,
                       'replay': 'cd /verif && PYTHONPATH=/repo /opt/venv/bin/python concrete/run.py %s --case %s --case-seed %d' % (a.pid, name, seed)}, open(rp, 'w'), indent=1)
        res['failures'].append({'case': name, 'seed': seed, 'message': msg, 'replay': rp})
    if a.out: json.dump(res, open(a.out, 'w'), indent=1, default=str)
    if a.v or not a.out:
        for s in stat.values(): print('%-36s runs %4d comparisons %7d skipped %d  %.1fs' % (s['case'], s['runs'], s['comparisons'], s['skipped'], s['seconds']))
        for f in res['failures']: print('FAIL', f['case'], f['seed'], f['message'][:500])
if __name__ == '__main__': main()
