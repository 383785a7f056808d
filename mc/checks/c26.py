"""C26: objectives are equal exactly when their kind, model and data are."""
import copy
import pickle
from collections import OrderedDict

import numpy as np
from symfit import Fit, Model, CallableModel, CallableNumericalModel, Variable
from symfit.core.models import GradientModel
from symfit.core.objectives import (LeastSquares, LogLikelihood, MinimizeModel,
                                    VectorLeastSquares)

from .. import gen
from ..core import Skip

THOROUGH = False
CLASSES = [LeastSquares, VectorLeastSquares, LogLikelihood, MinimizeModel]


class Own(LeastSquares):
    """A subclass, which is not equal to what it derives from."""


for _c in CLASSES + [Own, Model, GradientModel, CallableModel, CallableNumericalModel]:
    _c.mc_name = _c.__name__

X = np.array([1.0, 2.0, 3.0])
Y = np.array([0.5, 1.5, -2.0])


def line(x, a, b):
    return a * x + b


def other_line(x, a, b):
    return a * x - b


# label, what is compared, function of the symbols
MODELS = [
    ('a*x+b', 'line', lambda s: Model({s['y']: s['a']*s['x'] + s['b']})),
    ('b+x*a', 'line', lambda s: Model({s['y']: s['b'] + s['x']*s['a']})),
    ('a*(x+b/a)', 'line', lambda s: Model({s['y']: s['a']*(s['x'] + s['b']/s['a'])})),
    ('a*x-b', 'minus', lambda s: Model({s['y']: s['a']*s['x'] - s['b']})),
    ('a*x', 'a*x', lambda s: Model({s['y']: s['a']*s['x']})),
    ('two', 'two', lambda s: Model(OrderedDict([(s['y'], s['a']*s['x'] + s['b']),
                                                (s['z'], s['b']*s['x'])]))),
    ('two, other order', 'two', lambda s: Model(OrderedDict([(s['z'], s['b']*s['x']),
                                                             (s['y'], s['a']*s['x'] + s['b'])]))),
    ('two, exchanged', 'exchanged', lambda s: Model({s['z']: s['a']*s['x'] + s['b'],
                                                     s['y']: s['b']*s['x']})),
    ('numerical', 'numerical', lambda s: CallableNumericalModel(
        {s['y']: line}, connectivity_mapping={s['y']: {s['x'], s['a'], s['b']}})),
    ('another function', 'numerical 2', lambda s: CallableNumericalModel(
        {s['y']: other_line}, connectivity_mapping={s['y']: {s['x'], s['a'], s['b']}})),
]
# what is different, sort of value, value; None: as it was
INDEPENDENT = [
    ('given', 'X', X), ('copy', 'X', X.copy()), ('list', 'X', [1.0, 2.0, 3.0]), ('integers', 'X', np.array([1, 2, 3])),
    ('one other', 'X2', np.array([1.0, 2.0, 3.5])), ('first other', 'X3', np.array([0.0, 2.0, 3.0])),
    ('shorter', 'short', X[:2]), ('longer', 'long', np.array([1., 2., 3., 4.])),
    ('column', 'column', X[:, None]), ('row', 'row', X[None]), ('constant', 'ones', np.ones(3)),
    ('scalar', 'scalar', 1.0), ('one', 'one', np.ones(1)), ('zeros', 'zeros', np.zeros(3)),
    ('none', 'none', None)]
DEPENDENT = [
    ('given', 'Y', Y), ('copy', 'Y', Y.copy()), ('list', 'Y', Y.tolist()), ('none', 'none', None),
    ('one other', 'Y2', np.array([0.5, 1.5, -2.5])), ('repeated', 'tile', np.tile(Y, (3, 1))),
    ('short', 'short', Y[1:]), ('constant', 'twos', 2*np.ones(3)), ('scalar', 'two', 2.0),
    ('constant matrix', 'two matrix', 2*np.ones((3, 3))), ('integer', 'two', 2)]
SIGMA = [
    ('ones', 'ones', np.ones(3)), ('list', 'ones', [1, 1, 1]), ('none', 'none', None),
    ('other', 'other', np.array([1.0, 2.0, 1.0])), ('scalar', 'scalar', 1.0),
    ('matrix', 'matrix', np.ones((3, 3)))]


class Side(object):
    def __init__(self, ch, who, dev):
        pick = lambda label, options: ch.pick('{} {}'.format(who, label), options, dev=dev)
        self.cls = pick('class', CLASSES + [Own])
        self.model = pick('model', MODELS)
        self.x = pick('x', INDEPENDENT)
        self.y = pick('y', DEPENDENT)
        self.sigma = pick('sigma', SIGMA)
        self.order = pick('order of the data', ['given', 'reversed'])
        # data for a variable of something else
        self.extra = pick('surplus data', [None, 'number'])

    def build(self, values=(1.0, 1.0)):
        s = {n: Variable(n) for n in 'xyz'}
        for n, v in zip('ab', values):
            s[n] = gen.param(n, v)
        model = self.model[2](s)
        if self.cls is MinimizeModel and len(model.dependent_vars) > 1:
            raise Skip()
        data = OrderedDict()
        for v in model.independent_vars:
            data[v] = self.x[2]
        for v in model.dependent_vars:
            data[v] = self.y[2]
            data[model.sigmas[v]] = self.sigma[2]
        if self.extra:
            data[Variable('q')] = 1.0
        if self.order == 'reversed':
            data = OrderedDict(list(data.items())[::-1])
        return self.cls(model, data)

    @property
    def what(self):
        return (self.cls, self.model[1], self.x[1], self.y[1], self.sigma[1], self.extra)


def judge(ch, one, two, same, label):
    ch.op(4)
    for a, b, way in ((one, two, ''), (two, one, ', exchanged')):
        got = a == b
        ch.expect(got is same or (isinstance(got, (bool, np.bool_)) and bool(got) == same),
                  label + ' equal', 'equality of objectives' + way, got=got, expected=same)
        got = a != b
        ch.expect(isinstance(got, (bool, np.bool_)) and bool(got) != same, label + ' unequal',
                  'inequality of objectives' + way, got=got, expected=not same)


def pairs(ch):
    """All pairs which differ in the number of respects of the bound."""
    left = Side(ch, 'left', True)
    right = Side(ch, 'right', True)
    judge(ch, left.build(), right.build(), left.what == right.what, 'pair')
    ch.obs(left.what[1:], right.what[1:], left.what == right.what)


def one_axis(ch):
    """All pairs of values in one respect."""
    axis = ch.pick('respect', ['class', 'model', 'x', 'y', 'sigma', 'surplus data'], dev=False)
    cls = ch.pick('class', CLASSES, dev=False)
    sides = []
    for who in ('left', 'right'):
        class Fixed(object):
            def pick(self, label, options, dev=True):
                if label == who + ' ' + axis:
                    return ch.pick(label, options, dev=False)
                if label == who + ' class':
                    return cls
                return options[0]
        sides.append(Side(Fixed(), who, False))
    left, right = sides
    judge(ch, left.build(), right.build(), left.what == right.what, 'axis')
    ch.obs(axis, left.what[1:], right.what[1:])


COPIES = ['same object', 'copy', 'deep copy', 'pickled', 'used', 'other guesses', 'through Fit']


def copies(ch):
    """Copies are equal to the original, whatever happened to either."""
    side = Side(ch, 'original', True)
    how = ch.pick('copy', COPIES, dev=False)
    if side.extra:
        raise Skip()
    o = side.build()
    if how == 'same object':
        p = o
    elif how == 'copy':
        p = copy.copy(o)
    elif how == 'deep copy':
        if side.model[0] == 'numerical':
            pass
        p = copy.deepcopy(o)
    elif how == 'pickled':
        if side.cls is Own:
            pass
        p = pickle.loads(pickle.dumps(o))
    elif how == 'used':
        p = side.build()
        if side.x[0] not in ('given', 'integers') or side.y[0] != 'given' or side.sigma[0] != 'ones':
            raise Skip()     # not data which an objective takes
        if side.cls is LogLikelihood:
            raise Skip()
        p(*[[1.5, 2.5][:len(p.model.params)]])
        p.dependent_data, p.independent_data, p.sigma_data
    elif how == 'other guesses':
        p = side.build((2.0, -3.0))
        # the guesses belong to the parameters of the model: one object per name
        gen.param('a', 1.0), gen.param('b', 1.0)
    else:
        if side.cls in (LogLikelihood, MinimizeModel) or side.y[1] != 'Y' or side.x[1] != 'X' \
                or side.sigma[1] != 'ones' or side.cls is Own:
            raise Skip()
        m = side.model[2]({**{n: Variable(n) for n in 'xyz'},
                           **{n: gen.param(n) for n in 'ab'}})
        kw = {'x': X}
        kw.update((v.name, Y) for v in m.dependent_vars)
        p = Fit(m, objective=side.cls, **kw).objective
    judge(ch, o, p, True, 'copy')
    ch.obs(how, side.what[1:])


def foreign(ch):
    """Other things are not equal to an objective."""
    side = Side(ch, 'objective', True)
    thing = ch.pick('thing', [None, 1.0, 'LeastSquares', 'model', 'data', 'method', 'array'], dev=False)
    o = side.build()
    if thing == 'model':
        thing = o.model
    elif thing == 'data':
        thing = dict(o.data)
    elif thing == 'method':
        thing = o.__call__
    elif thing == 'array':
        raise Skip()   # numpy compares its elements
    judge(ch, o, thing, False, 'foreign')
    ch.obs(str(type(thing)), side.what[1:])


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'one axis': {'body': one_axis},
            'pairs': {'body': pairs, 'bound': 4 if t else 3},
            'copies': {'body': copies, 'bound': 3 if t else 2},
            'foreign': {'body': foreign, 'bound': 2 if t else 1},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'all pairs of objectives which differ in one respect (kind, model, data of one '
                'variable, surplus data), and pairs differing in several within the bound; both '
                'directions, == and !=; the truth is known from how they are made',
        'assumptions': ['data count as equal up to the tolerance of numpy.allclose; the shapes '
                        'are part of the data'],
    }
