#!/opt/veriftools/pyvenv/bin/python
"""check.py <PROPERTY> : decide one property on /repo's current working tree.

1. every verification target of the property is run (contracts in proofs/, engine in pv/): the obligations are
   generated from /repo's current source and discharged by z3/cvc5;
2. the same contracts are evaluated on the real code over generated inputs (concrete/): the counterexample search
   for undischarged obligations, and the bounded stand-in for functions outside the verifier's reach.
exit 0 / exit 1 with VIOLATION lines.  See DESIGN.md for the decision policy."""
import sys, os, json, time, subprocess, argparse, tempfile, shutil, importlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYREPO = '/opt/venv/bin/python'
PYVT = sys.executable
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
             MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONPATH=REPO)
    return e

def load_targets(pid):
    from pv import verify
    for f in sorted(os.listdir(os.path.join(HERE, 'proofs'))):
        if f.endswith('.py') and f not in ('__init__.py', 'lib.py'): importlib.import_module('proofs.' + f[:-3])
    return [t for t in verify.TARGETS if pid in t.props]

def known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get('property') == pid and k.get('status') == 'known': out.append(k)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--noconcrete', action='store_true'); ap.add_argument('--noproof', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, ('thorough' if a.tier == 'thorough' else 'quick')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    ev_dir = os.path.join(HERE, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ev_dir, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(pid + '-'): os.remove(os.path.join(rep_dir, f))
    total = 780 if tier == 'quick' else 3000
    ttime = 420 if tier == 'quick' else 1500
    qtime = 10000 if tier == 'quick' else 30000
    e = env()
    # ---------------------------------------------------------------- concrete harness (background)
    cproc = None; cout = os.path.join(work, 'concrete.json')
    cmod = os.path.join(HERE, 'concrete', pid + '.py')
    cbudget = 150 if tier == 'quick' else 1200
    if os.path.exists(cmod) and not a.noconcrete:
        clog = open(os.path.join(work, 'concrete.log'), 'w')
        cproc = subprocess.Popen([PYREPO, os.path.join(HERE, 'concrete', 'run.py'), pid, '--seed', str(a.seed), '--tier', tier,
                                  '--budget', str(cbudget), '--out', cout, '--replay-dir', rep_dir], cwd=work, env=e, stdout=clog, stderr=clog, start_new_session=True)
    # ---------------------------------------------------------------- proof targets
    targets = [] if a.noproof else load_targets(pid)
    todo = list(targets); running = []; results = {}
    def start(t, q):
        out = os.path.join(work, t.name + '.json')
        lg = open(os.path.join(work, t.name + '.log'), 'w')
        p = subprocess.Popen([PYVT, os.path.join(HERE, 'pv', 'runner.py'), t.module.split('.')[-1], t.name, REPO, out, str(q)], cwd=work, env=dict(e, PYTHONPATH=HERE),
                             stdout=lg, stderr=lg, start_new_session=True)
        return [t, p, out, time.time()]
    def kill(p):
        try: os.killpg(p.pid, 9)
        except Exception: pass
        p.wait()
    def collect(r, limit_hit=False):
        t, p, out, s = r
        if os.path.exists(out): return json.load(open(out))
        tail = open(os.path.join(work, t.name + '.log')).read()[-800:]
        return {'target': t.name, 'module': t.module, 'props': t.props, 'doc': t.doc, 'functions': list(t.funcs), 'status': 'timeout' if limit_hit else 'error', 'obligations': [],
                'why': 'time limit' if limit_hit else tail, 'paths': 0, 'feasible_paths': 0, 'executed': {}, 'by_contract': {}, 'external': {}, 'queries': 0, 'solver_s': 0., 'wall_s': round(time.time() - s, 1)}
    retried = set()
    while todo or running:
        while todo and len(running) < a.jobs: running.append(start(todo.pop(0), qtime))
        time.sleep(0.05)
        for r in list(running):
            t, p, out, s = r
            lim = time.time() - s > ttime or time.time() - t0 > total
            if p.poll() is not None or lim:
                if lim and p.poll() is None: kill(p)
                running.remove(r); res = collect(r, lim)
                # one retry with a longer solver time-out before an obligation counts as undischarged
                if res['status'] in ('failed', 'error') and t.name not in retried and any(o['status'] == 'unknown' for o in res['obligations']) and time.time() - t0 < 300:
                    retried.add(t.name); os.path.exists(out) and os.remove(out)
                    running.append(start(t, 4 * qtime)); continue
                results[t.name] = res
    # ---------------------------------------------------------------- wait for the harness
    conc = {'cases': [], 'failures': [], 'evaluations': 0, 'status': 'none'}
    if cproc is not None:
        try: cproc.wait(timeout=max(5, total + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired: kill(cproc)
        try: os.killpg(cproc.pid, 9)
        except Exception: pass
        if os.path.exists(cout): conc = json.load(open(cout)); conc['status'] = 'ran'
        else:
            conc['status'] = 'crashed'; conc['log'] = open(os.path.join(work, 'concrete.log')).read()[-3000:]
    # ---------------------------------------------------------------- verdict
    violations, notes = [], []
    kn = known(pid)
    for f in conc['failures']:
        k = [k for k in kn if k['case'] == f['case'] and k.get('match', '') in f['message']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what'])); continue
        violations.append((f['replay'], ''))
        print('  failing input (%s): %s' % (f['case'], f['message'][:600].replace('\n', ' | ')))
    if conc['status'] == 'crashed':
        # the harness imports and drives the real code: a crash of the harness process itself is reported by its log
        notes.append('concrete harness did not finish: ' + conc.get('log', '')[-400:])
        rp = os.path.join(rep_dir, pid + '-harness.json')
        json.dump({'property': pid, 'log': conc.get('log', '')}, open(rp, 'w'), indent=1)
        violations.append((rp, ' no-failing-input-found'))
    nob = nd = 0
    undis = []
    for t in targets:
        r = results[t.name]
        for o in r['obligations']:
            nob += 1
            if o['status'] == 'proved': nd += 1
        if r['status'] == 'failed': undis.append(r)
    fails = bool(violations)
    if undis:
        rp = os.path.join(rep_dir, pid + '-obligations.json')
        json.dump({'property': pid, 'failed_obligations': [{'target': r['target'], 'contract': r['doc'], 'functions': r['functions'], 'obligations': [o for o in r['obligations'] if o['status'] != 'proved']} for r in undis]}, open(rp, 'w'), indent=1, default=str)
        for r in undis:
            for o in r['obligations']:
                if o['status'] != 'proved':
                    print('  undischarged obligation: %s / %s [%s] %s' % (r['target'], o['name'], o['status'], o.get('exc', '')))
        if not fails: violations.append((rp, ' no-failing-input-found'))
    outside = [r for r in results.values() if r['status'] in ('outside', 'timeout', 'error', 'vacuous')]
    for r in outside: print('  not decided by the verifier (bounded stand-in applies): %s: %s %s' % (r['target'], r['status'], str(r.get('why', ''))[:300].replace('\n', ' ')))
    for rp, sfx in violations: print('VIOLATION property=%s replay=%s%s' % (pid, rp, sfx))
    # ---------------------------------------------------------------- evidence
    meta = json.load(open(os.path.join(HERE, 'assumptions.json')))
    man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json'))).get('checks', [])}
    level = man.get(pid, {}).get('level', 'proof')
    fin = lambda d: sorted(d)
    executed, contracts, ext = {}, {}, {}
    for r in results.values():
        for k, v in r['executed'].items(): executed[k] = executed.get(k, 0) + (v if isinstance(v, int) else 1)
        for k, v in r['by_contract'].items(): contracts[k] = contracts.get(k, 0) + (v if isinstance(v, int) else 1)
        for k, v in r['external'].items(): ext[k] = ext.get(k, 0) + (v if isinstance(v, int) else 1)
    back = {}
    for r in results.values():
        for o in r['obligations']: back[o['backend']] = back.get(o['backend'], 0) + 1
    cov = {'obligations': nob, 'discharged': nd,
           'checker_cmd': '%s /verif/check.py %s --tier %s' % ('python3-vt', pid, tier),
           'trusted_base': meta['trusted_base'],
           'functions_under_contract': sorted(set(f for t in targets for f in t.funcs)),
           'functions_executed_symbolically': fin(executed), 'callees_by_assumed_contract': fin(contracts), 'library_functions_by_assumed_contract': fin(ext),
           'discharged_by_backend': back, 'solver_queries': sum(r['queries'] for r in results.values()), 'solver_s': round(sum(r['solver_s'] for r in results.values()), 2),
           'targets': [{'target': r['target'], 'contract': r['doc'], 'status': r['status'], 'obligations': len(r['obligations']), 'paths': r['feasible_paths'], 'wall_s': r['wall_s'], 'why': r.get('why')} for r in results.values()],
           'undecided_by_verifier': [r['target'] for r in outside],
           'bounded': {'what': 'the same contracts evaluated on the real code over generated inputs (counterexample search, stand-in for functions outside the verifier); bounded, not counted as proved',
                       'functions': conc.get('functions', []), 'cases': conc.get('cases', []), 'bound': conc.get('bound')},
           'evaluations': conc.get('evaluations', 0), 'distinct_nontrivial': conc.get('distinct', 0),
           'rule': 'each case draws its dimensions, constraint data and points from the seeded generator named by the case and evaluates the contract on the real code; a case is non-trivial when the contract had at least one comparison to make; distinct = distinct digests of the generated inputs',
           'samples': conc.get('samples', [])[:5]}
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': level, 'coverage': cov,
          'assumptions': meta['common'] + meta.get(pid, []) + notes, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d targets, %d/%d obligations discharged, %d concrete evaluations (%d failing), %.1f s' % (pid, len(targets), nd, nob, conc.get('evaluations', 0), len(conc['failures']), time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if violations else 0)

if __name__ == '__main__': main()
