"""Writes known_findings.json (committed; never changed by a check)."""
import json, os, subprocess
KNOWN = [
    ('C03', 'low component',
     'a component which no other component uses is reported as interdependent '
     'instead of dependent when it is not at the highest level of the '
     'dependency graph, e.g. Model({y: a*x, z: y+b, w: x*b}).dependent_vars == [z] '
     '(pinned by tests/test_model.py::test_interdependency, so not repaired)'),
    ('C03', 'constant component',
     'a component which is a plain number has no role, e.g. '
     'Model({y: 2, z: a*x}).dependent_vars == [z] (pinned by test_interdependency)'),
    ('C12', 'numerical component',
     'a relation which involves a component of a numerical model, e.g. Fit('
     'CallableNumericalModel({y: f}, ...), constraints=[Ge(y, 1)]), is not turned into a '
     'constraint but raises an AttributeError or TypeError (as_constraint with an explicit '
     'connectivity_mapping works)'),
    ('C12', 'vector with low component',
     'a vector-valued constraint model is accepted if only one of its components is at the '
     'highest level of the dependency graph, because of the C03 finding on such components: '
     'Model.as_constraint({u: a, v: y*b}, model, constraint_type=Eq)'),
    ('C19', 'same name',
     "creating a Parameter changes an existing one of the same name, because sympy's symbol "
     "cache makes them one object: p = Parameter('a', value=2.0); Parameter('a', value=0.0); "
     "p.value == 0.0"),
    ('C15', 'dof of equal shapes',
     'components with data of the same shape are counted once in the number of data points of the '
     'residual variance, e.g. Fit({y: a*x+b, z: c*x+a}, x, y, z) with seven points each divides by '
     '7-3 instead of 14-3 (pinned by existing tests which compare with such values, so not '
     'repaired)'),
    ('C03', 'constant model',
     'a model of constants only, e.g. Model({y: 3}), raises an IndexError'),
]
FIXED = []   # (property, commit subject, what failed)
from fixed import FIXED  # noqa
out = [dict(property=p, key=k, status='known', what=w) for p, k, w in KNOWN]
log = dict(line.split(' ', 1)[::-1] for line in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
for prop, subject, what in FIXED:
    out.append(dict(property=prop, key='', status='fixed', commit=log[subject],
                    what='fixed: property={} {} {}'.format(prop, log[subject], what)))
missing = [s for s in log if s.startswith('fix:') and s not in [f[1] for f in FIXED]]
print('unrecorded fixes:', missing)
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump({'findings': out}, open(path, 'w'), indent=1)
