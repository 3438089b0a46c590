#!/usr/bin/env python
"""
Runs the monitors of one property against the bathygrid tree in /repo.

    check.py C01 [--tier quick|thorough] [--seed N] [--replay replays/C01.json] [--cases N] [--procs N]

exit 0: the property held on everything that was observed;  exit 1: refuted, with a line
"VIOLATION property=<id> replay=<path>";  exit 2: inconclusive (too little was observed, or the environment got in the way).
"""
import argparse
import json
import os
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def reexec():
    """pinned interpreter and hash seed, so that a run is a function of the seed only"""
    want = '/opt/venv/bin/python'
    if os.environ.get('BGMON_PINNED') != '1':
        env = dict(os.environ, BGMON_PINNED='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        exe = want if os.path.exists(want) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--procs', type=int)
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'

    from bgmon import core
    core.prepare_environment()
    t0 = time.time()
    known = {}
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        for k in json.load(f)['findings']:
            known[(k['property'], k['key'])] = k['what']

    from bgmon.checks import REGISTRY
    if REGISTRY[args.property].get('before_import'):
        REGISTRY[args.property]['before_import']()
    try:
        core.import_bathygrid()
    except core.Inconclusive as e:
        print('INCONCLUSIVE property={} {}'.format(args.property, e))
        return 2
    check = REGISTRY[args.property]
    prop = args.property

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        if check.get('setup'):
            check['setup']()
        r = core.run_case(check, rep['property'], rep['seed'], rep['index'], rep['tier'])
        if check.get('teardown'):
            check['teardown']()
        print('\n'.join(r['log']))
        print(r['verdict'], r['message'])
        if r['verdict'] == 'violated' and (prop, r['key']) not in known:
            print('VIOLATION property={} replay={}'.format(prop, args.replay))
            return 1
        return 0 if r['verdict'] == 'held' else (0 if r['verdict'] == 'violated' else 2)

    ncases = args.cases or check[tier]
    soft, hard = (check.get('soft_quick', 350), 600) if tier == 'quick' else (check.get('soft_thorough', 600), 820)
    nproc = args.procs or check.get('procs', max(1, min(8, os.cpu_count() or 1)))
    results, lost = core.run_cases(check, prop, args.seed, tier, ncases, soft, hard, nproc)
    results.sort(key=lambda r: r['index'])

    totals, signatures = Counter(), Counter()
    for r in results:
        totals.update(r['counters'])
        for s in r['signature']:
            signatures['/'.join(s)] += 1
    held = [r for r in results if r['verdict'] == 'held']
    inconclusive = [r for r in results if r['verdict'] == 'inconclusive']
    violated = [r for r in results if r['verdict'] == 'violated']
    knowns, fresh = {}, []
    for r in results:
        for key, message in r['known']:
            if (prop, key) in known:
                knowns[key] = message
            else:
                fresh.append(dict(r, message=message, key=key))
    for r in violated:
        if (prop, r['key']) in known:
            knowns[r['key']] = r['message']
        else:
            fresh.append(r)

    # a refutation has to show again when the case is run on its own (one that depends on a schedule gets more attempts)
    confirmed = []
    for r in fresh[:4]:
        for attempt in range(1 if check.get('deterministic', True) else check.get('attempts', 4)):
            again = rerun(core, check, prop, args.seed, tier, r['index'])
            if again is not None and (again['verdict'] == 'violated' or again['known']):
                confirmed.append(r)
                break
        else:
            inconclusive.append(dict(r, verdict='inconclusive', message='not reproduced: ' + r['message']))
        if confirmed:
            break

    replay = ''
    if confirmed:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        r = confirmed[0]
        replay = os.path.join('replays', '{}_{}_{}.json'.format(prop, args.seed, r['index']))
        with open(os.path.join(HERE, replay), 'w') as f:
            json.dump({'property': prop, 'seed': args.seed, 'index': r['index'], 'tier': tier, 'message': r['message'], 'key': r['key'],
                       'history': r['log'], 'how': 'check.py {} --replay {}'.format(prop, replay)}, f, indent=1, default=str)

    short = []
    for name, least in check.get('least', {}).items():
        least = least if tier == 'quick' else least * 2
        if totals.get(name, 0) < least:
            short.append('{}={} (needs {})'.format(name, totals.get(name, 0), least))

    evaluations = int(totals.get('monitor_evaluations', 0))
    nontrivial = {r['digest'] for r in held if r['counters'].get(check['nontrivial'], 0) > 0}
    samples = []
    for r in held[:3]:
        samples.append({'case': r['index'], 'history': [l[:160] for l in r['log'][:25]],
                        'observed': {k: v for k, v in sorted(r['counters'].items())}})
    evidence = {
        'property': prop, 'tier': tier, 'seed': args.seed, 'level': check.get('level', 'exploration'),
        'coverage': {'evaluations': len(results), 'distinct_nontrivial': len(nontrivial), 'rule': check['rule'],
                     'monitor_evaluations': evaluations, 'distinct_situations': len(signatures),
                     'samples': samples or [{'case': r['index'], 'history': r['log'][:25]} for r in results[:1]],
                     'cases_run': len(results), 'cases_held': len(held), 'cases_inconclusive': len(inconclusive), 'workers_lost': lost,
                     'observed': dict(sorted(totals.items())), 'situations': dict(sorted(signatures.items())[:400]),
                     'known_findings_seen': sorted(knowns)},
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    if confirmed:
        evidence['coverage']['violation_details'] = [{'message': r['message'][:2000], 'case': r['index'], 'key': r['key'], 'replay': replay}
                                                     for r in confirmed]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '{}.json'.format(prop)), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for key in sorted(knowns):
        print('KNOWN-FINDING: property={} {}'.format(prop, known[(prop, key)]))
    print('{} {} seed={}: {} cases ({} inconclusive, {} workers lost), {} monitor evaluations, {} distinct situations, {:.1f}s'.format(
        prop, tier, args.seed, len(results), len(inconclusive), lost, evaluations, len(signatures), time.time() - t0))
    if confirmed:
        for r in confirmed[:2]:
            print('  case {}: {}'.format(r['index'], r['message'][:1500]))
        print('VIOLATION property={} replay={}'.format(prop, replay))
        return 1
    for r in inconclusive[:3]:
        print('  inconclusive case {}: {}'.format(r['index'], r['message'][:1500]))
    if short:
        print('INCONCLUSIVE property={} too little was observed: {}'.format(prop, ', '.join(short)))
        return 2
    if lost or len(inconclusive) > max(1, 0.05 * len(results)):
        print('INCONCLUSIVE property={} {} inconclusive cases, {} workers lost'.format(prop, len(inconclusive), lost))
        return 2
    return 0


def rerun(core, check, prop, seed, tier, index):
    """one case, alone, in a process of its own"""
    from multiprocessing import get_context
    mp = get_context('fork')
    mine, theirs = mp.Pipe(duplex=False)
    p = mp.Process(target=core._worker, args=(theirs, check, prop, seed, tier, [index], time.time() + 300))
    p.start()
    theirs.close()
    out = None
    try:
        if mine.poll(300):
            out = mine.recv()
    except (EOFError, OSError):
        pass
    p.terminate()
    p.join(5)
    if p.is_alive():
        p.kill()
    return out


if __name__ == '__main__':
    reexec()
    sys.exit(main())
