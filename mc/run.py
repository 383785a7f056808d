"""
Entry point of every check:  run.py C01 [--replay FILE] [--tier quick|thorough]
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from mc import core  # noqa


def load_known(prop):
    path = os.path.join(core.VERIF, 'known_findings.json')
    with open(path) as f:
        entries = json.load(f)['findings']
    return {e['key']: e for e in entries
            if e['property'] == prop and e.get('status') == 'known'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = args.property
    t0 = time.time()
    out = os.environ.get('MC_OUT') or core.VERIF
    replay_dir = os.path.join(out, 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    evidence = os.path.join(out, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)

    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
        spec = mod.spec(tier)
    except Exception:
        # The package does not even import: nothing it promises holds.
        tb = traceback.format_exc()
        path = os.path.join(replay_dir, prop + '-import.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'import_error': tb}, f, indent=1)
        print(tb)
        with open(evidence, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed,
                       'level': 'model_checking',
                       'coverage': {'states': 0, 'transitions': 0,
                                    'traces_validated_against_impl': 0,
                                    'samples': [tb[-500:]]},
                       'wall_s': time.time() - t0, 'violations': 1}, f)
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    known = load_known(prop)
    bodies = {n: b['body'] for n, b in spec['bodies'].items()}
    bounds = {n: b.get('bound', 99) for n, b in spec['bodies'].items()}

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        body = bodies[rec['body']]
        seen = []
        for _ in range(2):
            ch, _skip = core.execute(body, rec['choices'], bounds[rec['body']])
            seen.append([(v['key'], v['msg']) for v in ch.violations])
        for t in ch.trace:
            print('   ', t[0], '=', t[1])
        for v in ch.violations:
            print(json.dumps(v, indent=1))
        print('same observations twice:', seen[0] == seen[1])
        if ch.violations:
            print('VIOLATION property={} replay={}'.format(prop, args.replay))
            return 1
        return 0

    if args.only:
        bodies = {n: b for n, b in bodies.items() if n in args.only.split(',')}
    budget = args.budget or spec.get('budget_s', 240 if tier == 'quick' else 780)
    total, done = core.explore(bodies, bounds, budget, known=known)

    alarms, listed = {}, {}
    for name, st in total.items():
        for v in st.violations.values():
            v['body'] = name
            pool = listed if v['key'] in known else alarms
            old = pool.get(v['key'])
            if old is None or core.order(v) < old[0]:
                pool[v['key']] = (core.order(v), v)
    for key in sorted(listed):
        print('KNOWN-FINDING: property={} {} [{}]'.format(
            prop, known[key]['what'], key))
    alarms = sorted(alarms.values(), key=lambda t: t[0])
    for i, (_, v) in enumerate(alarms[:5]):
        path = os.path.join(replay_dir, '{}-{}.json'.format(prop, i))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'body': v['body'],
                       'choices': v['choices'], 'trace': v['trace'],
                       'key': v['key'], 'msg': v['msg'],
                       'details': v['details'],
                       'how': './check {} --replay {}'.format(prop, path)},
                      f, indent=1)
        print('-- {}: {} [{}]'.format(v['body'], v['msg'], v['key']))
        for t in v['trace']:
            print('      {} = {}'.format(*t))
        if args.v:
            print(json.dumps(v['details'], indent=1)[:3000].replace('\\n', '\n'))
        print('VIOLATION property={} replay={}'.format(prop, path))

    paths = sum(s.paths for s in total.values())
    coverage = {
        'states': sum(len(s.states) if s.states else s.paths for s in total.values()),
        'transitions': sum(s.transitions + s.ops for s in total.values()),
        'traces_validated_against_impl': paths,
        'evaluations': sum(s.evaluations for s in total.values()),
        'distinct_nontrivial': sum(len(s.outcomes) for s in total.values()),
        'rule': spec['rule'],
        'exhaustive': all(done.values()),
        'spaces': {n: {'paths': s.paths, 'outside_space': s.skipped,
                       'choice_edges': s.transitions,
                       'operations': s.ops, 'oracle_comparisons': s.evaluations,
                       'distinct_outcomes': len(s.outcomes),
                       'distinct_states': len(s.states) if s.states else s.paths,
                       'deviation_bound': bounds[n],
                       'paths_by_deviations': {str(k): v for k, v in sorted(s.costs.items())},
                       'longest_choice_sequence': s.max_len,
                       'completed': done[n]} for n, s in total.items()},
        'samples': [smp for s in total.values() for smp in s.samples[:2]][:10],
    }
    if not all(done.values()):
        coverage['cap'] = ('stopped after {:.0f} s; not completed: {}'.format(
            budget, sorted(n for n in done if not done[n])))
    if hasattr(mod, 'extra'):
        coverage.update(mod.extra(total))
    with open(evidence, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed,
                   'level': 'model_checking', 'coverage': coverage,
                   'assumptions': spec.get('assumptions', []),
                   'wall_s': round(time.time() - t0, 3),
                   'violations': len(alarms),
                   'known_findings': sorted(listed)}, f, indent=1)
    print('{}: {} paths, {} transitions, {} comparisons, {} distinct outcomes, '
          'exhaustive={} in {:.1f} s; violations={} known={}'.format(
              prop, paths, coverage['transitions'], coverage['evaluations'],
              coverage['distinct_nontrivial'], coverage['exhaustive'],
              time.time() - t0, len(alarms), len(listed)))
    if paths == 0:
        # nothing explored is not an answer
        return 3
    return 1 if alarms else 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
