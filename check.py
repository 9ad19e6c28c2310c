"""Check one property: python3-vt check.py P03 [--tier quick|thorough]

1. pyded (this process): the deductive verifier generates the obligations of
   the property's contracts from /repo's current source and discharges them.
2. rac (subprocess, the interpreter dsch is installed for): the same contracts
   executed on the real code; a failing obligation is replayed there.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
import argparse
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
RAC_SEEDS = 4
BUDGET = {'quick': (200, 420), 'thorough': (900, 2400)}


def start_rac(prop, seed, tier, budget, case=None):
    # a local time in which it is not the same day as in UTC
    zone = 'XXX-14' if time.gmtime().tm_hour >= 12 else 'XXX+12'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TZ=zone)
    cmd = [PY, '-W', 'ignore', '-m', 'rac', prop, '--seed', str(seed),
           '--tier', tier, '--budget', str(budget)]
    if case:
        cmd += ['--case', case]
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True)


def finish_rac(proc, timeout):
    try:
        out, err = proc.communicate(timeout=timeout)
        return json.loads(out)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return {'error': 'timeout'}
    except ValueError:
        return {'error': (err or '')[-3000:]}


def search(prop, seed, budget, processes=6):
    """Execute the contracts of prop on further inputs."""
    procs = [(i, start_rac(prop, i, 'thorough', budget))
             for i in range(seed, seed + processes)]
    total, found = {'evaluations': 0, 'vacuous': 0}, seed
    end = time.time() + budget + 60
    while procs and time.time() < end and 'failures' not in total:
        time.sleep(0.5)
        for i, p in [x for x in procs if x[1].poll() is not None]:
            procs.remove((i, p))
            r = finish_rac(p, 10)
            for k in ('evaluations', 'vacuous'):
                total[k] += r.get(k, 0)
            if r.get('failures') and 'failures' not in total:
                total['failures'], found = r['failures'], i
    for _, p in procs:
        p.kill()
        p.communicate()
    return total, found, 'thorough'


def known_findings(prop):
    lines = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            lines.append(line.strip())
    if not lines:
        return []
    keys = [re.search(r'\[(K\d+)\]', x).group(1) for x in lines]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        out = subprocess.run([PY, '-W', 'ignore', '-m', 'rac.known'] + keys,
                             cwd=HERE, env=env, capture_output=True,
                             text=True, timeout=120).stdout
    except subprocess.TimeoutExpired:
        out = ''
    shown = {x.split(' ', 1)[0]: x.split(' ', 1)[1].strip()
             for x in out.splitlines() if ' ' in x}
    return [x for k, x in zip(keys, lines) if shown.get(k, '[]') != '[]']


def run_proofs(prop, tier, budget, seed):
    try:
        from pyded import driver
        return driver.check(prop, tier, budget, seed)
    except Exception:
        return {'error': traceback.format_exc(), 'units': []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--no-rac', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in BUDGET:
        tier = 'quick'
    t0 = time.time()
    rbud, pbud = BUDGET[tier]
    # the contracts are executed with several seeds
    racs = [] if a.no_rac else [(i, start_rac(prop, i, tier, rbud))
                                for i in range(seed, seed + RAC_SEEDS)]
    proofs = {'units': []} if a.no_proof else run_proofs(prop, tier, pbud,
                                                         seed)
    rac, rseed, rtier = {}, seed, tier
    for i, proc in racs:
        r = finish_rac(proc, max(30, t0 + rbud + 200 - time.time()))
        if not rac:
            rac = r
            continue
        for k in ('evaluations', 'vacuous'):
            rac[k] = rac.get(k, 0) + r.get(k, 0)
        for k, n in r.get('kinds', {}).items():
            rac.setdefault('kinds', {})
            rac['kinds'][k] = rac['kinds'].get(k, 0) + n
        if r.get('failures') and not rac.get('failures'):
            rac['failures'], rseed = r['failures'], i
        if r.get('error'):
            rac['error'] = r['error']

    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    violations = []

    def replay(tag, data):
        path = os.path.join(rdir, '%s-%s.json' % (prop, tag))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1, default=repr)
        return os.path.relpath(path, HERE)

    refuted = [o for u in proofs['units'] for o in u['obligations']
               if o['status'] == 'refuted']
    fails = rac.get('failures', [])
    undecided = proofs.get('error') or [
        o for u in proofs['units'] for o in u['obligations']
        if o['status'] != 'proved']
    if undecided and not fails and not (a.no_rac or a.no_proof):
        # look longer for an input on which an obligation that is refuted,
        # or which the verifier could not decide, fails
        longer = 600 if tier != 'quick' else 150 if refuted else 90
        more, rseed, rtier = search(prop, seed + RAC_SEEDS, min(
            longer, max(30, 780 - (time.time() - t0))
            if tier == 'quick' else longer))
        fails = more.get('failures', [])
        for k in ('evaluations', 'vacuous'):
            rac[k] = rac.get(k, 0) + more.get(k, 0)
    if fails:
        p = replay('input', {
            'property': prop, 'failures': fails,
            'replay_cmd': 'cd /verif && %s -m rac %s --seed %d --tier %s '
            "--case '%s'" % (PY, prop, rseed, rtier, fails[0]['case']),
            'failed_obligations': refuted})
        violations.append('VIOLATION property=%s replay=%s' % (prop, p))
    elif refuted:
        p = replay('obligation', {
            'property': prop, 'failed_obligations': refuted,
            'note': 'no failing input was found by executing the contract '
                    'on the real code'})
        violations.append('VIOLATION property=%s replay=%s '
                          'no-failing-input-found' % (prop, p))

    obs = [o for u in proofs['units'] for o in u['obligations']]
    proved = [o for o in obs if o['status'] == 'proved']
    bounded = [o for o in obs if o['status'] == 'bounded']
    counted = [o for o in obs if o['status'] != 'bounded']
    level = 'proof' if proved else 'exploration'
    cov = {
        'obligations': len(counted),
        'discharged': len(proved),
        'bounded_stand_ins': len(bounded),
        'bounded_stand_in_list': [
            {'name': o['name'], 'bound': o.get('bound'),
             'why': o.get('why')} for o in bounded],
        'not_discharged': [
            {'name': o['name'], 'status': o['status'], 'why': o.get('why')}
            for o in obs if o['status'] not in ('proved', 'bounded')],
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': proofs.get('trusted_base', []),
        'functions_under_contract': proofs.get('functions', []),
        'backends': proofs.get('backends', {}),
        'solver_time_s': round(proofs.get('solver_time', 0), 2),
        'obligation_list': [
            {'name': o['name'], 'status': o['status'],
             'conditions': o.get('conditions', 0),
             'paths': o.get('paths', 0)} for o in obs],
        'contract_executions': {
            'evaluations': rac.get('evaluations', 0),
            'kinds': rac.get('kinds', {}),
            'samples': rac.get('samples', []),
            'vacuous': rac.get('vacuous', 0),
            'error': rac.get('error')},
        'evaluations': rac.get('evaluations', 0),
        'distinct_nontrivial': rac.get('evaluations', 0)
        - rac.get('vacuous', 0),
        'rule': 'seeded generation of schemas, values and operation '
                'histories per case kind; a case is counted when it lies '
                'inside the property\'s quantifier (vacuous ones are not)',
        'samples': rac.get('samples', []),
        'verifier_error': proofs.get('error'),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': proofs.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)

    print('%s: %d obligations, %d discharged, %d bounded stand-ins, '
          '%d refuted; %d contract executions, %d failed; %.1f s' % (
              prop, len(counted), len(proved), len(bounded), len(refuted),
              rac.get('evaluations', 0), len(fails), time.time() - t0))
    for o in obs:
        if o['status'] not in ('proved', 'bounded'):
            print('  %s: %s %s' % (o['status'], o['name'],
                                   str(o.get('why') or '')[:300]))
    for e in (proofs.get('error'), rac.get('error')):
        if e:
            print('  note: ' + e.strip().splitlines()[-1][:300])
    for f in fails:
        print('  failing input: %s %s: %s' % (f['case'], f['note'][:300],
                                              f['what'][:500]))
    for line in known_findings(prop):
        print(line)
    for v in violations:
        print(v)
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
