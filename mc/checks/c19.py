"""C19: Parameters and variables are what was asked for."""
import itertools
import pickle

import numpy as np
import sympy
from sympy.core.cache import clear_cache
from symfit import Parameter, Variable, parameters, variables

from ..core import Skip

OMIT = type('OMIT', (), {'mc_name': 'omitted', '__repr__': lambda s: 'omitted'})()
VALUE = [OMIT, 0.0, -2.5, 3, np.float64(1.5), 0, True]
LOW = [OMIT, None, 0, -1.0, 1.5, 5, np.int64(-2)]
HIGH = [OMIT, None, 0, 2.0, 1.5, -3, np.float64(0.0)]
FIXED = [OMIT, False, True]
NAMES = ['a', 'S', 'beta', 'par_3', 'x_1', 'sigma_y', 'E1', 'lamda', 'Omega']
DEFAULT = dict(value=1.0, min=None, max=None, fixed=False)


def same(x, y):
    if x is None or y is None:
        return x is y
    return x == y and type(bool(x == y)) is bool


def check_parameter(ch, p, name, spec):
    ch.op()
    ch.expect(type(p) is Parameter, 'type', 'type of the object', got=type(p).__name__)
    ch.expect(p.name == name and str(p) == name, 'name', 'name of the parameter',
              got=(p.name, str(p)), expected=name)
    ch.expect(p.is_real is True, 'real', 'parameters are real-valued')
    for k, default in DEFAULT.items():
        exp = spec.get(k, OMIT)
        exp = default if exp is OMIT else exp
        got = getattr(p, k)
        ch.expect(same(got, exp), k, 'attribute of a Parameter', name=name, got=got, expected=exp)
    ch.obs(name, [str(getattr(p, k)) for k in DEFAULT])


def impossible(spec):
    lo, hi = spec.get('min', OMIT), spec.get('max', OMIT)
    return not any(v is OMIT or v is None for v in (lo, hi)) and lo > hi


def history(ch):
    """What was done with parameters of the same name before."""
    return ch.pick('before', ['nothing', 'bounded', 'fixed', 'several', 'refused', 'unpickled'],
                   dev=True)


def prepare(how, names):
    for n in names:
        if how == 'bounded':
            Parameter(n, value=7.0, min=6.0, max=8.0)
        elif how == 'fixed':
            Parameter(n, 9.0, None, None, True)
        elif how == 'refused':
            try:
                Parameter(n, value=7.0, min=8.0, max=6.0)
            except ValueError:
                pass
        elif how == 'unpickled':
            pickle.loads(pickle.dumps(Parameter(n, value=7.0, min=6.0, fixed=True)))
    if how == 'several':
        parameters(' '.join(names), value=[-3.0] * len(names), min=-4, max=-2,
                   fixed=[True] * len(names))
    if how == 'nothing':
        clear_cache()


def single(ch):
    spec = dict(value=ch.pick('value', VALUE, dev=False), min=ch.pick('min', LOW, dev=False),
                max=ch.pick('max', HIGH, dev=False), fixed=ch.pick('fixed', FIXED, dev=False))
    name = ch.pick('name', NAMES)
    how = history(ch)
    style = ch.pick('style', ['keywords', 'positional'])
    prepare(how, [name])
    kw = {k: v for k, v in spec.items() if v is not OMIT}

    def make():
        if style == 'keywords':
            return Parameter(name, **kw)
        args = []
        for k in ('value', 'min', 'max', 'fixed'):
            args.append(DEFAULT[k] if spec[k] is OMIT else spec[k])
        while args and spec[('value', 'min', 'max', 'fixed')[len(args) - 1]] is OMIT:
            args.pop()
        return Parameter(name, *args)
    if impossible(spec):
        if spec['fixed'] is True:
            raise Skip()    # bounds of a fixed parameter have no meaning
        ch.op()
        ch.raises(ValueError, make, 'impossible bounds', 'lower bound above the upper bound')
        return
    check_parameter(ch, make(), name, spec)


FORMATS = [('a, b', ['a', 'b']), ('a b', ['a', 'b']), ('b, a', ['b', 'a']), ('x1:3', ['x1', 'x2']),
           ('q', ['q']), ('k:3', ['k0', 'k1', 'k2']), ('z, S, beta', ['z', 'S', 'beta']),
           ('m3, m1, m2', ['m3', 'm1', 'm2'])]
SEQ = {
    'value': [0.0, -2.5, 3.0],
    'min': [-1.0, 0, None],
    'max': [0.0, None, 4],
    'fixed': [True, False, True],
}
SCALAR = {'value': [0, 2.5], 'min': [0.0, None, -3], 'max': [0, None, 10.0], 'fixed': [True, False]}


def attribute(ch, key, n, dev):
    """(argument, expected values or 'wrong length')."""
    kinds = ['omitted', 'scalar', 'list', 'tuple', 'reversed', 'iterator', 'array', 'short', 'long',
             'empty']
    kind = ch.pick(key, kinds, dev=dev)
    if kind == 'omitted':
        return OMIT, [DEFAULT[key]] * n
    if kind == 'scalar':
        v = ch.pick(key + ' is', SCALAR[key], dev=True)
        return v, [v] * n
    seq = SEQ[key][:n]
    if kind == 'list':
        return list(seq), seq
    if kind == 'tuple':
        return tuple(seq), seq
    if kind == 'reversed':
        return seq[::-1], seq[::-1]
    if kind == 'iterator':
        return iter(list(seq)), seq
    if kind == 'array':
        seq = [s if s is not None else 0.5 for s in seq]
        return np.array(seq), seq
    if kind == 'short':
        return seq[:-1] if n > 1 else [], 'wrong length'
    if kind == 'long':
        return (seq * 2)[:n + 1], 'wrong length'
    return [], 'wrong length'


def several(ch):
    fmt, names = ch.pick('names', FORMATS, dev=False)
    n = len(names)
    first = ch.pick('attribute', ['value', 'min', 'max', 'fixed'], dev=False)
    args, exp = {}, {}
    for k in [first] + [k for k in DEFAULT if k != first]:
        args[k], exp[k] = attribute(ch, k, n, dev=k != first)
    prepare(history(ch), names)
    kw = {k: v for k, v in args.items() if v is not OMIT}
    make = lambda: parameters(fmt, **kw)
    if any(isinstance(e, str) for e in exp.values()):
        ch.op()
        ch.raises(ValueError, make, 'wrong length', 'a sequence of the wrong length')
        return
    specs = [{k: exp[k][i] for k in DEFAULT} for i in range(n)]
    if any(impossible(s) for s in specs):
        if any(impossible(s) and s['fixed'] for s in specs):
            raise Skip()
        ch.op()
        ch.raises(ValueError, make, 'impossible bounds', 'lower bound above the upper bound')
        return
    ps = make()
    if ch.expect(len(ps) == n, 'number', 'number of parameters', got=len(ps)):
        for p, name, s in zip(ps, names, specs):
            check_parameter(ch, p, name, s)


def many_variables(ch):
    fmt, names = ch.pick('names', FORMATS, dev=False)
    before = ch.pick('before', ['nothing', 'same', 'parameter'], dev=False)
    assumption = ch.pick('assumption', [None, 'positive', 'integer', 'real'], dev=False)
    if before == 'nothing':
        clear_cache()
    elif before == 'same':
        variables(fmt)
    else:
        parameters(fmt, value=4.0, fixed=True)
    vs = variables(fmt, **({assumption: True} if assumption else {}))
    ch.expect(len(vs) == len(names), 'number', 'number of variables')
    for v, n in zip(vs, names):
        ch.op()
        ch.expect(type(v) is Variable, 'type', 'type of a variable')
        ch.expect(v.name == n and str(v) == n, 'name', 'name of a variable', got=v.name)
        ch.expect(v.is_real is True, 'real', 'variables are real-valued')
        if assumption:
            ch.expect(getattr(v, 'is_' + assumption) is True, 'assumption', 'assumption')
        w = Variable(n, **({assumption: True} if assumption else {}))
        ch.expect(v == w and hash(v) == hash(w), 'equal', 'variables of the same name are equal')
        ch.expect(v != Variable(n + '2') and v != Parameter(n), 'unequal',
                  'a different variable or a parameter is unequal')
        ch.obs(n, assumption, v.is_positive)


def refused(ch):
    what = ch.pick('name', [1.0, 3, np.float64(2.0), np.int64(1), -1, 2.5j], dev=False)
    cls = ch.pick('class', [Parameter, Variable], dev=False)
    extra = ch.pick('extra', [{}, {'min': 0, 'max': 5}, {'fixed': True}], dev=False)
    if cls is Variable and extra:
        raise Skip()
    ch.op()
    ch.raises(TypeError, lambda: cls(what, **extra), 'value as name', 'a value in place of the name')


def unnamed(ch):
    """Sequences of creations; unnamed ones must be new."""
    used = {Parameter: set(), Variable: set()}
    clear_cache()
    depth = 5
    p0, v0 = Parameter(), Variable()
    used[Parameter].add(p0.name)
    used[Variable].add(v0.name)
    base = {}
    for o in (p0, v0):
        stem, _, k = o.name.rpartition('_')
        base[type(o)] = (stem, int(k) if k.isdigit() else 0)
    events = ['P()', 'V()', 'P(a)', 'V(x)', 'stop', 'parameters', 'P(next)', 'V(next)', 'pickle',
              'P(value)', 'P(after next)']
    for i in range(depth):
        e = ch.pick('event', events, dev=False)
        if e == 'stop':
            break
        ch.op()
        if e in ('P()', 'V()', 'P(value)'):
            cls = Variable if e == 'V()' else Parameter
            o = cls() if e != 'P(value)' else cls(value=2.5, min=-1)
            ch.expect(o.name not in used[cls], 'generated name', 'the generated name is new',
                      name=o.name, used=sorted(used[cls]))
            if cls is Parameter:
                check_parameter(ch, o, o.name, {} if e == 'P()' else dict(value=2.5, min=-1))
            used[cls].add(o.name)
        elif e == 'P(a)':
            Parameter('a', 2.0)
            used[Parameter].add('a')
        elif e == 'V(x)':
            Variable('x')
            used[Variable].add('x')
        elif e == 'parameters':
            used[Parameter].update(p.name for p in parameters('a, b, c'))
        elif e == 'pickle':
            pickle.loads(pickle.dumps([p0, v0]))
        else:
            cls = Parameter if e[0] == 'P' else Variable
            stem, k = base[cls]
            nums = [int(n.rpartition('_')[2]) for n in used[cls]
                    if n.startswith(stem + '_') and n.rpartition('_')[2].isdigit()]
            name = '{}_{}'.format(stem, max(nums + [k]) + (2 if e == 'P(after next)' else 1))
            cls(name)
            used[cls].add(name)
    ch.obs(len(used[Parameter]), len(used[Variable]))


BASE = dict(value=1.0, min=None, max=None, fixed=False)
ALT = dict(value=[0.0, 2, None], min=[0, -1.5], max=[0, 7.5], fixed=[True])


def equality(ch):
    """Two separate objects (the symbol cache of sympy is cleared in between)."""
    def spec(which):
        s = dict(BASE)
        s['name'] = ch.pick(which + ' name', ['a', 'b'])
        s['assume'] = ch.pick(which + ' assumption', [None, 'positive', 'integer'])
        for k in BASE:
            s[k] = ch.pick(which + ' ' + k, [BASE[k]] + ALT[k])
        if impossible(s):
            raise Skip()
        return s

    def make(s):
        kw = {k: s[k] for k in BASE}
        if s['assume']:
            kw[s['assume']] = True
        return Parameter(s['name'], **kw)
    s1, s2 = spec('first'), spec('second')
    later = ch.pick('changed later', [False, True], dev=False)
    clear_cache()
    p = make(s1)
    clear_cache()
    q = make(s2)
    if p is q:
        raise Skip()
    if later:
        q.value = 55.0
        s2 = dict(s2, value=55.0)
    exp = all(same(s1[k], s2[k]) for k in s1)
    ch.op(2)
    ch.expect((p == q) is exp, 'equality', 'equality of two parameters', first=s1, second=s2)
    ch.expect((q == p) is exp and (p != q) is (not exp), 'symmetry', 'equality is symmetric')
    if exp:
        ch.expect(hash(p) == hash(q), 'hash', 'equal parameters have the same hash')
    ch.expect(p == p and not (p == 1.0) and p != Variable(s1['name']), 'other',
              'comparison with something else')
    check_parameter(ch, p, s1['name'], s1)
    ch.obs(sorted((k, str(v)) for k, v in s1.items()), sorted((k, str(v)) for k, v in s2.items()))


def same_name(ch):
    """Two parameters of the same name next to each other."""
    first = dict(BASE, value=2.0)
    key = ch.pick('attribute', list(BASE), dev=False)
    v = ch.pick('value', ALT[key], dev=False)
    clear_cache()
    p = Parameter('a', **first)
    q = Parameter('a', **dict(first, **{key: v}))
    ch.op(2)
    check_parameter(ch, q, 'a', dict(first, **{key: v}))
    if not all(same(getattr(p, k), first[k]) for k in first):
        ch.fail('same name', 'a parameter changed when another one of the same name was created',
                attribute=key)


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'single': {'body': single, 'bound': 3 if t else 1},
            'several': {'body': several, 'bound': 3 if t else 2},
            'variables': {'body': many_variables, 'bound': 0},
            'refused': {'body': refused, 'bound': 0},
            'unnamed': {'body': (unnamed if t else unnamed_short), 'bound': 0},
            'equality': {'body': equality, 'bound': 4 if t else 3},
            'same name': {'body': same_name, 'bound': 0},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'every combination of value, bounds and fixed flag from the alphabet for single '
                'parameters; every kind of sequence per attribute for several; every history of '
                'up to {} creations for generated names; pairs of parameters within the bound; an '
                'outcome is (name, attributes) or a refusal'.format(5 if t else 4),
        'assumptions': ['the symbol cache of sympy is cleared to obtain two objects of one name'],
    }


def unnamed_short(ch):
    class Four(object):
        def __init__(self):
            self.n = 0

        def __getattr__(self, k):
            return getattr(ch, k)

        def pick(self, label, options, **kw):
            self.n += 1
            return 'stop' if self.n > 4 else ch.pick(label, options, **kw)
    unnamed(Four())
