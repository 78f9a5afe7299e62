#!/opt/venv/bin/python
"""Check one property:  run.py --property C01 [--tier quick|thorough]
                        run.py --replay FILE      (re-run a recorded failing input)

1. the contracts of the property are discharged, function by function, on the source now in /repo;
2. the executable form of the same contracts is evaluated on the real code (failing-input search,
   and the bounded stand-in for anything the verifier could not decide on this source)."""
import os, sys
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PVC_REPO', '/repo')
os.environ['PVC_SRC'] = os.path.join(REPO, 'src', 'direpack')
os.environ['PVC_SRC_ROOT'] = os.path.join(REPO, 'src')
sys.path.insert(0, os.path.join(REPO, 'src'))
import argparse, json, time, warnings, traceback, multiprocessing as mp, hashlib, signal, io, contextlib
warnings.filterwarnings('ignore')

CONTRACT_MODULES = ['preproc', 'weights', 'utils', 'comoments', 'sudire', 'ppdire', 'ppfit', 'snipls', 'robust', 'newdata', 'state']
ORACLE_MODULES = ['preproc', 'comoments', 'regress', 'sdr', 'state']


def known_findings():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else []


def child(task, conn, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if task[0] == 'contract':
                from pvc import contract as C
                r = C.run_contract(task[1], tier)
            else:
                from oracles import base
                r = base.run_oracle(task[1], tier, seed)
        conn.send(r)
    except BaseException as e:
        conn.send({'status': 'error', 'detail': ''.join(traceback.format_exception(e))[-2000:]})
    conn.close()


def run_tasks(tasks, tier, seed, limit, jobs=8, total=600):
    """every task in its own forked process, with a time limit"""
    ctx = mp.get_context('fork')
    pending = list(enumerate(tasks))
    running = {}
    res = [None] * len(tasks)
    start = time.time()
    while pending or running:
        if time.time() - start > total:
            for k, t in pending:
                res[k] = {'status': 'timeout', 'detail': 'not started within the time of the check'}
            pending = []
        while pending and len(running) < jobs:
            k, t = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(t, b, tier, seed))
            p.start()
            b.close()
            running[k] = (p, a, time.time())
        for k in list(running):
            p, a, t0 = running[k]
            if a.poll(0.02):
                try:
                    res[k] = a.recv()
                except EOFError:
                    res[k] = {'status': 'error', 'detail': 'worker died (exit code %s)' % p.exitcode}
                p.join(5)
                del running[k]
            elif not p.is_alive():
                res[k] = {'status': 'error', 'detail': 'worker died (exit code %s)' % p.exitcode} if not a.poll(0) else a.recv()
                del running[k]
            elif time.time() - t0 > limit(tasks[k]):
                p.kill()
                p.join()
                res[k] = {'status': 'timeout', 'detail': 'time limit'}
                del running[k]
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ar = ap.parse_args()
    os.chdir(HERE)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    from pvc import contract as C
    from oracles import base
    for m in CONTRACT_MODULES:
        importlib.import_module('contracts.' + m)
    C.frames('C18', r'is not modified')
    for m in ORACLE_MODULES:
        importlib.import_module('oracles.' + m)
    if ar.replay:
        return base.replay(ar.replay)
    pid, tier = ar.property, ar.tier
    C.PID = pid
    t0 = time.time()
    contracts = [e for e in C.REGISTRY if pid in e[0] and (tier == 'thorough' or not e[4].get('thorough_only'))]
    oracles = [o for o in base.ORACLES if o['property'] == pid and (tier == 'thorough' or not o.get('thorough_only'))]
    if not contracts and not oracles:
        print('no check for', pid)
        return 2
    import_error = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            import direpack
            if not os.path.abspath(direpack.__file__).startswith(os.path.abspath(REPO)):
                raise ImportError('direpack imported from %s' % direpack.__file__)
            for m in ('preprocessing.robcent', 'preprocessing.gsspp', 'sprm.rm', 'sprm.sprm', 'sprm.snipls', 'ppdire.ppdire', 'ppdire.capi',
                      'sudire.sudire', 'dicomo.dicomo', 'cross_validation._cv_support_functions', 'ipopt_temp.jacobian'):
                try:
                    importlib.import_module('direpack.' + m)
                except ImportError:
                    pass
    except BaseException as e:
        import_error = ''.join(traceback.format_exception(e))[-1500:]
    # longest first
    tasks = [('oracle', o) for o in oracles] + [('contract', e) for e in contracts]
    tasks.sort(key=lambda t: -(t[1].get('cost', 1) if t[0] == 'oracle' else t[1][4].get('cost', 1)))
    budget = 240 if tier == 'quick' else 1500
    res = run_tasks(tasks, tier, seed, lambda t: budget, ar.jobs, 560 if tier == 'quick' else 4 * 3600)
    cres = [(t[1], r) for t, r in zip(tasks, res) if t[0] == 'contract']
    ores = [(t[1], r) for t, r in zip(tasks, res) if t[0] == 'oracle']
    return report(pid, tier, seed, cres, ores, import_error, t0, ar.verbose)


def report(pid, tier, seed, cres, ores, import_error, t0, verbose):
    from pvc import prove
    known = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    knames = {k['oracle']: k for k in known}
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rdir, f))
    viol = []
    out = []
    nk = 0
    # failing inputs found on the real code
    for o, r in ores:
        for f in r.get('failures', []):
            if o['name'] in knames and o.get('known'):
                nk += 1
                print('KNOWN-FINDING: property=%s %s' % (pid, knames[o['name']]['what']))
                continue
            fn = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha1((o['name'] + str(f['seed'])).encode()).hexdigest()[:10]))
            json.dump({'property': pid, 'kind': 'oracle', 'oracle': o['name'], 'seed': f['seed'], 'case': f['case'], 'message': f['message'], 'inputs': f.get('inputs'),
                       'reproduce': 'cd /verif && /opt/venv/bin/python run.py --replay %s' % fn}, open(fn, 'w'), indent=1, default=str)
            viol.append((fn, True, '%s: %s' % (o['name'], f['message'][:300])))
    failing_input = bool(viol)
    # refuted obligations
    internal_ref = []
    for e, r in cres:
        if r.get('status') != 'refuted':
            continue
        bad = [x for x in r['obligations'] if x['status'] == 'refuted']
        rep = [x for x in bad if x.get('replayed')]
        fn = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha1(e[1].encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'kind': 'obligation', 'contract': e[1], 'functions': e[2], 'failed_obligations': bad[:10],
                   'note': 'obligation generated from the current source and refuted; "witness" is a numeric instance of the verification condition; '
                           '"replayed" carries the value the real function returned on it'}, open(fn, 'w'), indent=1, default=str)
        if e[4].get('internal') and not rep:
            internal_ref.append((fn, e[1]))
            continue
        viol.append((fn, bool(rep), '%s: %s' % (e[1], bad[0]['name'])))
    # obligations the solver neither proved nor refuted and that could not be sampled either
    for e, r in cres:
        if r.get('status') != 'unproved':
            continue
        bad = [x for x in r['obligations'] if x['status'] == 'unproved' and (x.get('sampled') or 0) < 20]
        if not bad:
            continue
        fn = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha1(e[1].encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'kind': 'obligation', 'contract': e[1], 'functions': e[2], 'failed_obligations': bad[:10],
                   'note': 'obligation generated from the current source and not discharged by the verifier'}, open(fn, 'w'), indent=1, default=str)
        viol.append((fn, False, '%s: %s' % (e[1], bad[0]['name'])))
    obl = [x for e, r in cres for x in r.get('obligations', [])]
    proved = [x for x in obl if x['status'] == 'proved']
    # contracts under a stated bound (on the number of components, slices, directions ...) are counted apart
    free = [x for e, r in cres if e[4].get('bound', 'none') == 'none' for x in r.get('obligations', [])]
    bnd = [x for e, r in cres if e[4].get('bound', 'none') != 'none' for x in r.get('obligations', [])]
    isp = lambda xs: sum(x['status'] == 'proved' for x in xs)
    level = 'proof' if any(e[4].get('bound', 'none') == 'none' for e, r in cres) else ('other' if cres else 'exploration')
    undecided = [(e, r) for e, r in cres if r.get('status') not in ('proved', 'refuted')] + [(e, r) for e, r in cres if r.get('status') == 'refuted' and e[4].get('internal')]
    evals = sum(r.get('evaluations', 0) for o, r in ores)
    oerr = [(o, r) for o, r in ores if r.get('status') in ('error', 'timeout')]
    for e, r in undecided:
        out.append('not discharged on this source: %s [%s] %s' % (e[1], r.get('status'), (r.get('detail') or '')[-200:].replace('\n', ' ')))
    allproved = bool(cres) and not undecided and len(proved) == len(obl)
    # reported once per property, concrete inputs first
    viol.sort(key=lambda x: not x[1])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': sum(r.get('distinct', 0) for o, r in ores),
            'rule': 'inputs drawn at random with ties, outliers, constant columns, containers and settings varied; a case counts when its preconditions hold (degenerate draws are skipped) and its seed is new',
            'samples': [{'check': o['name'], 'case': r.get('sample')} for o, r in ores if r.get('sample') is not None][:6],
            'obligations': len(free), 'discharged': isp(free),
            'obligations_under_a_stated_bound': len(bnd), 'discharged_under_a_stated_bound': isp(bnd),
            'checker_cmd': 'cd /verif && /opt/venv/bin/python run.py --property %s --tier %s' % (pid, tier),
            'trusted_base': sorted({t for e, r in cres for t in r.get('trusted', [])}) + TRUSTED,
            'backends': count([x['backend'] for x in proved]),
            'solver_queries': sum(r.get('queries', 0) for e, r in cres), 'solver_seconds': round(sum(r.get('solver_s', 0) for e, r in cres), 2),
            'functions_under_contract': sorted({f for e, r in cres for f in e[2]}),
            'contracts': [{'contract': e[1], 'functions': e[2], 'status': r.get('status'), 'obligations': len(r.get('obligations', [])),
                           'discharged': sum(x['status'] == 'proved' for x in r.get('obligations', [])), 'paths': r.get('paths'),
                           'cpython_conformance_instances': r.get('conformance'), 'bound': e[4].get('bound', 'none'), 'wall_s': r.get('wall'),
                           'crosscheck': r.get('crosscheck'), 'detail': (r.get('detail') or '')[-400:]} for e, r in cres],
            'bounded_stand_ins_and_replays': [{'check': o['name'], 'evaluations': r.get('evaluations', 0), 'distinct_nontrivial': r.get('distinct', 0),
                                               'status': r.get('status'), 'bound': o.get('bound', 'sampled inputs'), 'sample': r.get('sample'), 'wall_s': r.get('wall'),
                                               'detail': (r.get('detail') or '')[-400:]} for o, r in ores],
            'explanation': 'obligations discharged for all inputs of the contract; obligations of contracts with a stated bound (see "bound" of each '
                           'contract: every input is covered within the bound) are counted apart, and the replays are bounded and never counted as proved',
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol), 'known_findings': nk,
        'all_obligations_discharged': allproved, 'not_discharged': out,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%d contracts), %d replay evaluations, %.1f s' % (pid, len(proved), len(obl), len(cres), evals, time.time() - t0))
    for x in out:
        print('  ' + x)
    for o, r in oerr:
        print('  replay not run: %s [%s] %s' % (o['name'], r['status'], (r.get('detail') or '')[-300:].replace('\n', ' ')))
    if verbose:
        for e, r in sorted(cres, key=lambda z: -(z[1].get('wall') or 0)):
            print('   %-14s %6.1fs %s' % (r.get('status'), r.get('wall') or 0, e[1]))
        for o, r in sorted(ores, key=lambda z: -(z[1].get('wall') or 0)):
            print('   %-14s %6.1fs %d %s' % (r.get('status'), r.get('wall') or 0, r.get('evaluations', 0), o['name']))
    if import_error:
        print(import_error)
        print('the package does not import; nothing can be decided')
        return 2
    if viol:
        for fn, conc, msg in viol[:8]:
            print('  failed: %s' % msg)
        fn, conc, msg = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, fn, '' if conc else ' no-failing-input-found'))
        return 1
    if oerr and not allproved:
        # neither proof nor stand-in decided everything: no verdict
        if all(r.get('status') in ('error', 'timeout') for o, r in ores):
            return 2
    return 0


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


TRUSTED = ['pvc verification-condition generator (executes the real functions on symbolic arrays; checked against CPython on random instances per contract)',
           'z3', 'numpy/scipy/pandas/statsmodels behaviour as stated in pvc/snp.py and pvc/models.py']
ASSUMPTIONS = ['floating-point arithmetic is treated as real arithmetic (rounding, overflow and underflow are not modelled)',
               'library functions meet the contracts stated in pvc/snp.py and pvc/models.py',
               'division by zero and roots of negative numbers are excluded by the stated preconditions']

if __name__ == '__main__':
    sys.exit(main())
