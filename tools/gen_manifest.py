"""Writes MANIFEST.json from the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'data': 'model checking of the implementation: stateless bounded-exhaustive exploration of '
            'a choice tree of inputs (deviation bounded), reference model as oracle',
    'env': 'model checking of the implementation: stateless exploration of all back-end answers, '
           'problems and options within a deviation bound, with a scripted numerical back end '
           'as environment and a reference model as oracle',
    'hist': 'model checking of the implementation: exhaustive exploration of all operation '
            'histories up to a depth against a reference model / a fresh object',
    'sched': 'model checking of the implementation: stateless exploration of all schedules '
             'within a preemption bound under a controlled scheduler, run-alone oracle',
}
KIND = dict(C01='env', C07='data', C08='data', C09='env', C10='env', C11='env', C12='env',
            C13='env', C14='env', C15='env', C16='hist', C17='hist', C18='hist', C19='data',
            C23='hist', C25='sched', C28='env')
NOTE = {
    'data': 'Every element of the stated finite space (grammar of models, points, shapes, names, '
            'definition orders; see the evidence file for the completed deviation bound) was '
            'executed on the real code and compared with an independently written reference. '
            'Nothing is claimed about values outside the alphabet. Trusts numpy, the explorer '
            'and the reference (jets / plain numpy).',
    'env': 'The real code runs with the numerical back end (scipy.optimize) replaced by a script '
           'which inspects the problem at grid points and answers with chosen points; all '
           'combinations within the deviation bound are executed. Trusts the reference, numpy '
           'and that scipy is used through minimize/differential_evolution/basinhopping/'
           'least_squares. Nothing is claimed about values outside the alphabet.',
    'hist': 'All operation sequences up to the stated depth over a small alphabet run on the '
            'real objects; after every step the observable state is compared with a reference '
            'model or with a fresh object. Nothing is claimed beyond the depth or alphabet.',
    'sched': 'All schedules of the harnesses at callback granularity within the preemption bound '
             'run on the real code and are compared with the sequential run. Preemption inside '
             'a callback-free region is not explored.',
}
NOTE['C01'] = ('The real back ends run on every problem of a finite family of strictly convex '
               'problems with known solution (all combinations within the deviation bound). '
               'Convergence for other problems is not claimed.')
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')) and i not in NA:
        k = KIND.get(i, 'data')
        checks.append(dict(property=i, quick_cmd='./check {} --tier quick'.format(i),
                           thorough_cmd='./check {} --tier thorough'.format(i),
                           technique=TECH[k], level='model_checking',
                           level_note=NOTE.get(i, NOTE[k])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import mc.env"',
               checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [n['property'] for n in na])
