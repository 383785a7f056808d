"""C24: matrix and indexed expressions evaluate to their numpy equivalents."""
import itertools
import warnings

import numpy as np
import sympy
from sympy import (HadamardProduct, HadamardPower, Inverse, MatrixSymbol, Transpose, Rational, Idx,
                   IndexedBase, Sum, Symbol, MatPow)
from symfit import Variable, CallableModel, Eq, Fit
from symfit.core.objectives import LeastSquares, MinimizeModel

from ..env import symfit
from .. import gen
from ..core import Skip

DATA = {
    'A': np.array([[1.0, 2.0], [3.0, 5.0]]), 'B': np.array([[2.0, 0.5], [1.5, 3.0]]),
    'C': np.array([[0.3, 2.0], [1.0, 7.0]]), 'v': np.array([[2.0], [3.0]]),
    'w': np.array([[0.5], [1.25]]),
}
OTHER = {
    'A': np.array([[2.0, -1.0], [0.5, 4.0]]), 'B': np.array([[-1.0, 3.0], [2.5, 1.0]]),
    'C': np.array([[4, 1], [-2, 3]]), 'v': np.array([[-1.0], [2.0]]),
    'w': np.array([[3.0], [-0.5]]),
}
A_VAL = {'plain': 1.5, 'negative': -2.0, 'integer': 3}
PLAIN_NAMES = {}
NAMES = [('plain', PLAIN_NAMES), ('swapped', dict(A='v', v='A', B='w', w='B', a='z', C='a')),
         ('long', dict(A='matrix_2', B='Matrix', C='_c', v='vec', w='E_1', a='alpha'))]


class T(object):
    """A matrix expression together with the same formula in numpy."""

    def __init__(self, name, shape, sym, num, uses):
        self.mc_name, self.shape, self.sym, self.num, self.uses = name, shape, sym, num, uses
        self.powered = False

    def __repr__(self):
        return self.mc_name


def leaf(n, shape):
    return T(n, shape, lambda s: s[n], lambda d: d[n], {n})


LEAVES = {(2, 2): [leaf('A', (2, 2)), leaf('B', (2, 2))], (2, 1): [leaf('v', (2, 1)), leaf('w', (2, 1))]}


def un(name, t, f, g, shape=None, uses=()):
    return T(name.format(t.mc_name), shape or t.shape, lambda s: f(t.sym(s), s),
             lambda d: g(t.num(d), d), t.uses | set(uses))


def bi(name, t, u, f, g, shape):
    return T(name.format(t.mc_name, u.mc_name), shape, lambda s: f(t.sym(s), u.sym(s)),
             lambda d: g(t.num(d), u.num(d)), t.uses | u.uses)


def npinv(x):
    x = np.asarray(x, float)
    if x.ndim != 2 or np.linalg.cond(x) > 1e5:
        raise Skip()
    return np.linalg.inv(x)


def nppow(x, n):
    if x.shape == (1, 1):
        return np.asarray(x, float)**n
    return np.linalg.matrix_power(npinv(x) if n < 0 else x, abs(n))


UNARY = {
    'neg': ('-({})', lambda x, s: -x, lambda x, d: -x, ()),
    'twice': ('2*({})', lambda x, s: 2*x, lambda x, d: 2*x, ()),
    'scaled': ('a*({})', lambda x, s: s['a']*x, lambda x, d: d['a']*x, 'a'),
    'over': ('({})/a**2', lambda x, s: x/s['a']**2, lambda x, d: x/d['a']**2, 'a'),
    'hpow 2': ('({})o**2', lambda x, s: HadamardPower(x, 2), lambda x, d: x**2, ()),
    'hpow 3': ('({})o**3', lambda x, s: HadamardPower(x, 3), lambda x, d: x**3, ()),
    'hpow -1': ('({})o**-1', lambda x, s: HadamardPower(x, -1), lambda x, d: 1/np.asarray(x, float), ()),
    'hpow a': ('({})o**a', lambda x, s: HadamardPower(x, s['a']), lambda x, d: fpow(x, d['a']), 'a'),
    'hpow half': ('({})o**1/2', lambda x, s: HadamardPower(x, Rational(1, 2)),
                  lambda x, d: fpow(x, 0.5), ()),
}
SQUARE = {
    'T': ('({}).T', lambda x, s: x.T, lambda x, d: x.T, ()),
    'inv': ('({}).inv', lambda x, s: Inverse(x), lambda x, d: npinv(x), ()),
    'pow 2': ('({})**2', lambda x, s: x**2, lambda x, d: nppow(x, 2), ()),
    'pow 3': ('({})**3', lambda x, s: x**3, lambda x, d: nppow(x, 3), ()),
    'pow -1': ('({})**-1', lambda x, s: x**-1, lambda x, d: nppow(x, -1), ()),
    'pow -2': ('({})**-2', lambda x, s: x**-2, lambda x, d: nppow(x, -2), ()),
}
SCALAR = {
    'pow half': ('({})**1/2', lambda x, s: x**Rational(1, 2), lambda x, d: fpow(x, 0.5), ()),
    'pow a': ('({})**a', lambda x, s: x**s['a'], lambda x, d: fpow(x, d['a']), 'a'),
    'pow -3/2': ('({})**-3/2', lambda x, s: x**Rational(-3, 2), lambda x, d: fpow(x, -1.5), ()),
}


def fpow(x, n):
    if np.any(np.asarray(x) <= 0):
        raise Skip()
    return np.asarray(x, float)**n


BINARY = {
    'sum': ('({})+({})', lambda x, y: x + y, lambda x, y: x + y),
    'difference': ('({})-({})', lambda x, y: x - y, lambda x, y: x - y),
    'hadamard': ('({})o({})', lambda x, y: HadamardProduct(x, y), lambda x, y: x*y),
}


def unaries(shape):
    u = dict(UNARY)
    if shape in ((2, 2), (1, 1)):
        u.update(SQUARE)
    if shape == (1, 1):
        u.update(SCALAR)
        del u['hpow 3'], u['hpow half']
    return u


def productions(shape):
    """All ways to make an expression of this shape: (name, shapes of its arguments)."""
    out = [('leaf', ())] if shape in LEAVES else []
    if shape != (1, 1):
        out += [(b, (shape, shape)) for b in BINARY]
    if shape == (2, 2):
        out += [('matmul', ((2, 2), (2, 2))), ('outer', ((2, 1), (2, 1))),
                ('hadamard3', ((2, 2), (2, 2)))]
    if shape == (2, 1):
        out += [('matmul', ((2, 2), (2, 1)))]
    if shape == (1, 1):
        out += [('dot', ((2, 1), (2, 1))), ('quadratic', ((2, 1), (2, 2)))]
        out += [(b, (shape, shape)) for b in ('sum', 'difference')]
    out += [(u, (shape,)) for u in unaries(shape)]
    return out


def build(name, shape, args):
    if name in ROOTS and any(t.powered for t in args):
        # sympy itself turns the root of a square into the base, whatever its sign
        raise Skip()
    t = build_(name, shape, args)
    t.powered = 'pow' in name or name in ('inv', 'quadratic', 'hadamard') or any(u.powered for u in args)
    return t


ROOTS = ('pow half', 'pow a', 'pow -3/2', 'hpow half', 'hpow a')


def build_(name, shape, args):
    if name in BINARY:
        f = BINARY[name]
        return bi(f[0], args[0], args[1], f[1], f[2], shape)
    if name == 'matmul':
        return bi('({})*({})', args[0], args[1], lambda x, y: x*y, np.matmul, shape)
    if name == 'outer':
        return bi('({})*({}).T', args[0], args[1], lambda x, y: x*y.T, lambda x, y: x @ y.T, shape)
    if name == 'hadamard3':
        c = leaf('C', (2, 2))
        return un('({})oC', bi('({})o({})', args[0], args[1], lambda x, y: (x, y),
                               lambda x, y: (x, y), shape),
                  lambda xy, s: HadamardProduct(xy[0], xy[1], s['C']),
                  lambda xy, d: xy[0]*xy[1]*d['C'], uses='C')
    if name == 'dot':
        return bi('({}).T*({})', args[0], args[1], lambda x, y: x.T*y, lambda x, y: x.T @ y, shape)
    if name == 'quadratic':
        return bi('({0}).T*({1})*({0})', args[0], args[1], lambda x, y: x.T*y*x,
                  lambda x, y: x.T @ y @ x, shape)
    u = unaries(shape)[name]
    return un(u[0], args[0], u[1], u[2], uses=u[3])


def tree(ch, shape, depth, full=2):
    """Every tree; below the first ``full`` levels every node costs a deviation."""
    dev = full <= 0
    prods = productions(shape)
    if depth <= 0:
        prods = [p for p in prods if p[0] == 'leaf'] or [('dot', ((2, 1), (2, 1)))]
    elif not dev and ('leaf', ()) in prods and full == 2:
        prods = [p for p in prods if p[0] != 'leaf']
    name, shapes = ch.pick('node', prods, dev=dev)
    if name == 'leaf':
        return ch.pick('leaf', LEAVES[shape], dev=dev or full < 2)
    return build(name, shape, [tree(ch, s, depth - 1, full - 1) for s in shapes])


def top(ch, t):
    """What is around the matrix expression."""
    tops = [('nothing', lambda x, s: x, lambda x, d: x, ()),
            ('exp', lambda x, s: s['a']*sympy.exp(-x/s['a']**2), lambda x, d: d['a']*np.exp(-x/d['a']**2), 'a')]
    if t.shape == (1, 1):
        tops += [('sqrt', lambda x, s: sympy.sqrt(x), lambda x, d: fpow(x, 0.5), ())]
    return tops


def symbols(names, dim=2):
    nm = lambda n: names.get(n, n)
    s = {n: MatrixSymbol(nm(n), dim, dim) for n in 'ABC'}
    s.update({n: MatrixSymbol(nm(n), dim, 1) for n in 'vw'})
    s['a'] = gen.param(nm('a'))
    return s, nm


def compare(ch, got, exp, key, msg, **kw):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    size = float(np.max(np.abs(exp))) if exp.size else 0.0
    if not np.all(np.isfinite(exp)) or size > 1e9:
        raise Skip()
    ch.close(got, exp, key, msg, rtol=1e-7, atol=1e-9 * (1 + size), **kw)


def evaluate(ch, t, expr_of, num_of, names, data, a, how, key):
    s, nm = symbols(names)
    d = dict(data, a=a)
    ref = num_of(t.num(d), d)
    if not np.all(np.isfinite(np.asarray(ref, float))):
        raise Skip()
    try:
        expr = expr_of(t.sym(s), s)
    except sympy.matrices.common.NonInvertibleMatrixError:
        # sympy already sees that there is no such matrix
        raise Skip()
    used = sorted(n for n in t.uses | ({'a'} if 'a' in num_of.__defaults__[0] else set()))
    args = {nm(n): d[n] for n in used}
    if not set(map(str, expr.free_symbols)) == set(args):
        # sympy already simplified something away
        args = {n: v for n, v in args.items() if n in set(map(str, expr.free_symbols))}
        if not args:
            raise Skip()
    before = {n: np.array(v) for n, v in args.items()}
    ch.op()
    order = sorted([n for n in args if n != nm('a')]) + sorted(n for n in args if n == nm('a'))
    if how == 'call':
        got = expr(**args)
    elif how == 'call positional':
        got = expr(*[args[n] for n in order])
    else:
        z = Variable('zz') if how != 'matrix component' else MatrixSymbol('zz', *t.shape)
        m = CallableModel({z: expr})
        ch.equal([q.name for q in m.independent_vars] + [p.name for p in m.params], order,
                 'roles', 'order of the arguments of a matrix model')
        if how == 'positional':
            got = m(*[args[n] for n in order]).zz
        else:
            got = m(**args).zz
        if how == 'twice':
            m(**{n: np.asarray(v) * 0.5 + 1 for n, v in args.items()})
            got = m(**args).zz
    compare(ch, got, ref, key, 'value of a matrix expression', expr=str(expr))
    for n, v in args.items():
        ch.expect(np.array_equal(v, before[n]), 'data changed', 'the data are left alone', name=n)
    ch.obs(str(expr), names.get('A'), np.round(np.asarray(ref, float), 6))


HOWS = ['keyword', 'positional', 'call', 'call positional', 'matrix component', 'twice']


def trees(ch, variations=False):
    shape = ch.pick('shape', [(2, 2), (2, 1), (1, 1)], dev=False)
    t = tree(ch, shape, 1 if variations else 2)
    around = ch.pick('around', top(ch, t), dev=True)
    names = ch.pick('names', NAMES)[1]
    data = ch.pick('data', [DATA, OTHER])
    a = ch.pick('a', list(A_VAL.values()))
    how = ch.pick('how', HOWS)
    f = lambda x, d, uses=tuple(around[3]): around[2](x, d)
    evaluate(ch, t, around[1], f, names, data, a, how, 'value')


def variations(ch):
    """Names, data, parameter values and ways of calling, for smaller trees."""
    trees(ch, True)


def deep(ch, four=False):
    """One chain of operations of every kind, three or four deep."""
    shape = ch.pick('shape', [(2, 2), (2, 1), (1, 1)], dev=False)
    base = {(2, 2): ['leaf', 'sum', 'matmul', 'hadamard'], (2, 1): ['leaf', 'matmul', 'hadamard'],
            (1, 1): ['dot', 'quadratic']}[shape]
    prods = dict(productions(shape))
    first = ch.pick('base', base if THOROUGH and not four else base[:1 if four else 2], dev=False)
    if first == 'leaf':
        t = LEAVES[shape][0]
    else:
        t = build(first, shape, [LEAVES[s][0 if i == 0 or s != prods[first][0] else 1]
                                 for i, s in enumerate(prods[first])])
    for _ in range(4 if four else 3):
        step = ch.pick('step', list(unaries(shape)) + (
            [] if shape == (1, 1) else ['hadamard', 'sum', 'matmul left'] + (
                ['matmul right', 'hadamard left'] if shape == (2, 2) else [])), dev=False)
        if step in unaries(shape):
            t = build(step, shape, [t])
        elif step == 'matmul left':
            t = build('matmul', shape, [LEAVES[(2, 2)][1], t])
        elif step == 'matmul right':
            t = build('matmul', shape, [t, LEAVES[(2, 2)][1]])
        elif step == 'hadamard left':
            t = build('hadamard', shape, [LEAVES[shape][1], t])
        else:
            t = build(step, shape, [t, LEAVES[shape][1]])
    evaluate(ch, t, lambda x, s: x, lambda x, d, uses=(): x, PLAIN_NAMES, DATA, 0.75, 'keyword', 'deep')


def deeper(ch):
    deep(ch, True)


def components(ch):
    """The intermediate results as components of a model."""
    s, nm = symbols(PLAIN_NAMES, ch.pick('dimension', [2, Symbol('N', integer=True)], dev=False))
    dim = s['A'].shape[0]
    W, c, z = MatrixSymbol('W', dim, dim), MatrixSymbol('c', dim, 1), Variable('z')
    a = s['a']
    first = ch.pick('W', [
        (Inverse(s['A'] + s['B']/a**2), lambda d: np.linalg.inv(d['A'] + d['B']/d['a']**2)),
        (HadamardProduct(s['A'], s['B'])*a, lambda d: d['A']*d['B']*d['a']),
        (s['A'].T*s['B'] - s['C'], lambda d: d['A'].T @ d['B'] - d['C']),
        (s['A']**2, lambda d: d['A'] @ d['A']),
        (HadamardPower(s['A'], 2) + a*s['B'], lambda d: d['A']**2 + d['a']*d['B'])], dev=False)
    second = ch.pick('c', [
        (-W*s['v'], lambda d, W: -W @ d['v']), (W*s['v'] + a*s['w'], lambda d, W: W @ d['v'] + d['a']*d['w']),
        (HadamardProduct(W*s['v'], s['w']), lambda d, W: (W @ d['v'])*d['w']),
        (W.T*W*s['v'], lambda d, W: W.T @ W @ d['v'])], dev=False)
    third = ch.pick('z', [
        (sympy.sqrt(c.T*c), lambda d, W, c: np.sqrt(c.T @ c)),
        ((c.T*c)**2, lambda d, W, c: (c.T @ c)**2),
        (c.T*W*c, lambda d, W, c: c.T @ W @ c),
        (a*sympy.exp(-HadamardProduct(c, c)/(2*a**2)), lambda d, W, c: d['a']*np.exp(-c*c/(2*d['a']**2))),
        ], dev=False)
    exprs = {W: first[0], c: second[0], z: third[0]}
    order = ch.pick('order', list(itertools.permutations(exprs)))
    vectors = ch.pick('vectors', ['columns', 'one dimensional'])
    data = dict(ch.pick('data', [DATA, OTHER]), a=1.5)
    if vectors != 'columns':
        data['v'], data['w'] = np.ravel(data['v']), np.ravel(data['w'])
    m = CallableModel({k: exprs[k] for k in order})
    nW = first[1](data)
    nc = second[1](data, nW)
    nz = third[1](data, nW, nc)
    names = [v.name for v in m.independent_vars + m.params]
    ch.op()
    out = m(**{n: data[n] for n in names})
    compare(ch, out.W, nW, 'component', 'matrix component of a model')
    compare(ch, np.squeeze(out.c), np.squeeze(nc), 'component', 'vector component of a model')
    compare(ch, np.squeeze(out.z), np.squeeze(nz), 'component', 'scalar component of a model')
    ch.equal([v.name for v in m.dependent_vars], ['z'], 'dependent', 'dependent variables')
    ch.equal(sorted(names), sorted(str(q) for e in (exprs[W], exprs[c], exprs[z])
                                   for q in e.free_symbols - {W, c}) if False else sorted(set(
                                       str(q) for e in exprs.values()
                                       for q in e.free_symbols) - {'W', 'c'}),
             'arguments', 'arguments of the model')
    # the least squares objective of such a model
    if 'a' in names:
        target = np.atleast_1d(np.asarray(nz, float)) * 0.9 + 0.1
        o = LeastSquares(m, data=dict({v: data[v.name] for v in m.independent_vars},
                                      **{}) | {z: target, m.sigmas[z]: np.ones_like(target)})
        compare(ch, o(a=1.5), np.sum((np.asarray(nz) - target)**2) / 2, 'objective',
                'least squares of a matrix model')
    ch.obs(str(exprs), np.round(np.ravel(nz), 6))


def sums(ch):
    """Sums over the entries of indexed data."""
    size = ch.pick('size', [3, 1, 2, 4], dev=False)
    kind = ch.pick('size given', ['symbol', 'number', 'in the sum'], dev=False)
    M = Symbol('M', integer=True)
    n = M if kind != 'number' else size
    if kind == 'in the sum':
        i, j = Symbol('i', integer=True), Symbol('j', integer=True)
        ri, rj = (i, 0, M - 1), (j, 0, M - 1)
    else:
        i, j = Idx('i', n), Idx('j', n)
        ri, rj = i, j
    A, v, w = MatrixSymbol('A', n, n), MatrixSymbol('v', n, 1), MatrixSymbol('w', n, 1)
    X = IndexedBase('X')
    a, x = gen.param('a'), Variable('x')
    d = {'A': np.arange(1.0, size**2 + 1).reshape(size, size)**1.5 / 3,
         'v': np.linspace(0.5, 2, size)[:, None], 'w': np.linspace(3, -1, size)[:, None] + 0.1,
         'X': np.linspace(1, 4, size)**2, 'a': 1.5, 'M': size, 'x': np.array([1.0, 2.0, -0.5])}
    nA, nv, nw, nX, na = d['A'], d['v'][:, 0], d['w'][:, 0], d['X'], d['a']
    forms = [
        (lambda: Sum(v[i, 0]*w[i, 0], ri), lambda: np.sum(nv*nw)),
        (lambda: Sum(a*v[i, 0]**2 + w[i, 0], ri) - 1, lambda: np.sum(na*nv**2 + nw) - 1),
        (lambda: Sum(v[i, 0]*A[i, j]*w[j, 0], ri, rj), lambda: nv @ nA @ nw),
        (lambda: Sum(v[i, 0]*Sum(A[i, j]*w[j, 0], rj), ri), lambda: nv @ nA @ nw),
        (lambda: Sum(A[i, i], ri), lambda: np.trace(nA)),
        (lambda: Sum(A[j, i]*v[i, 0], ri, rj), lambda: np.sum(nA @ nv)),
        (lambda: Sum(X[i]*v[i, 0], ri), lambda: np.sum(nX*nv)),
        (lambda: Sum(X[i]*a, ri), lambda: np.sum(nX*na)),
        (lambda: Sum(x*v[i, 0], ri), lambda: d['x']*np.sum(nv)),
        (lambda: Sum(sympy.exp(-v[i, 0]/a), ri), lambda: np.sum(np.exp(-nv/na))),
        (lambda: Sum(v[i, 0], ri)/Sum(w[i, 0]**2, ri), lambda: np.sum(nv)/np.sum(nw**2)),
        (lambda: Sum(v[i, 0], ri)**2, lambda: np.sum(nv)**2),
        (lambda: a*v[0, 0] + A[0, size - 1], lambda: na*nv[0] + nA[0, -1]),
        (lambda: Sum((v[i, 0] - a*w[i, 0])**2, ri)/2, lambda: np.sum((nv - na*nw)**2)/2),
        (lambda: x - Sum(X[i]**2, ri), lambda: d['x'] - np.sum(nX**2)),
    ]
    k = ch.pick('form', list(range(len(forms))), dev=False)
    expr, ref = forms[k][0](), np.asarray(forms[k][1](), float)
    how = ch.pick('how', ['model', 'call', 'positional', 'component'], dev=False)
    z = Variable('z')
    ch.op()
    if how == 'call':
        if 'X' in str(expr):
            names = [str(q) for q in expr.free_symbols if str(q) in d]
        else:
            names = [q.name for q in expr.free_symbols if q.name in d]
        got = expr(**{q: d[q] for q in names})
        compare(ch, got, ref, 'sum', 'sum over indexed data', expr=str(expr))
    else:
        comps = {z: expr}
        if how == 'component':
            comps = {z: Variable('y') * 2 + a, Variable('y'): expr}
            ref = ref * 2 + na
        m = CallableModel(comps)
        names = [str(q) for q in m.independent_vars + m.params]
        ch.equal([str(q) for q in m.independent_vars], sorted(str(q) for q in m.independent_vars),
                 'order', 'independent variables in alphabetical order')
        ch.equal('i' in names or 'j' in names, False, 'index', 'an index is not an argument')
        got = m(*[d[q] for q in names]) if how == 'positional' else m(**{q: d[q] for q in names})
        compare(ch, got.z, np.atleast_1d(ref), 'sum', 'sum over indexed data', expr=str(expr))
    ch.obs(str(expr), size, np.round(ref, 6))


def constraints(ch):
    """A sum over the entries of a component as constraint."""
    M = Symbol('M', integer=True)
    x, dx, y, I, B = [MatrixSymbol(q, M, 1) for q in ('x', 'dx', 'y', 'I', 'B')]
    Y = MatrixSymbol('Y', 1, 1)
    i = Idx('i', M)
    A, mu, sig = [gen.param(q) for q in ('A', 'mu', 'sig')]
    model = CallableModel({
        y: A*sympy.exp(-HadamardProduct(B, B)/(2*sig**2))/sympy.sqrt(2*sympy.pi*sig**2),
        B: x - mu*I})
    form = ch.pick('constraint', [
        (Sum(y[i, 0]*dx[i, 0], i) - 1, lambda ys, dxs, p: np.sum(ys*dxs) - 1),
        (Sum(y[i, 0]**2, i) - A, lambda ys, dxs, p: np.sum(ys**2) - p['A']),
        (Sum(y[i, 0]*x[i, 0]*dx[i, 0], i), lambda ys, dxs, p: np.sum(ys*XS*dxs)),
    ], dev=False)
    n = ch.pick('points', [4, 1, 7], dev=False)
    XS = np.linspace(-1.0, 2.0, n)[:, None]
    DX = np.linspace(0.2, 0.5, n)[:, None]
    p = ch.pick('values', [dict(A=1.3, mu=0.2, sig=0.8), dict(A=-2.0, mu=1.0, sig=2.0),
                           dict(A=1, mu=0, sig=1)], dev=False)
    con = CallableModel.as_constraint({Y: form[0]}, model=model, constraint_type=Eq)
    extra = {'dx': DX} if dx in form[0].free_symbols else {}
    data = dict(x=XS, y=np.ones_like(XS), I=np.ones_like(XS), M=n, **extra)
    fit = Fit(model, constraints=[con], **data)
    ys = p['A']*np.exp(-(XS - p['mu'])**2/(2*p['sig']**2))/np.sqrt(2*np.pi*p['sig']**2)
    ch.op()
    compare(ch, model(x=XS, I=np.ones_like(XS), **p).y, ys, 'model', 'the model itself')
    got = fit.minimizer.constraints[0](**p)
    compare(ch, np.squeeze(got), np.squeeze(form[1](ys, DX, p)), 'constraint',
            'value of a constraint made of a sum')
    compare(ch, fit.objective(**p), np.sum((ys - 1)**2)/2, 'objective', 'value of the objective')
    ch.obs(str(form[0]), n, p)


class Odd(sympy.Function):
    """Not known to any printer."""


def events():
    s, _ = symbols(PLAIN_NAMES)
    a, x = gen.param('a'), Variable('x')
    A, B, v = s['A'], s['B'], s['v']
    i = Idx('i', 2)
    e = a*x**2 + sympy.sin(x)

    def quiet(f):
        def run():
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    f()
            except Exception:
                pass       # whether other printers support this is not our concern
        return run
    return {
        'latex': quiet(lambda: sympy.latex(HadamardProduct(A, B)*v + A.inv()*v)),
        'str': quiet(lambda: str(HadamardProduct(A, B)**-1) + str(A**2)),
        'ccode': quiet(lambda: sympy.ccode(e)),
        'ccode unsupported': quiet(lambda: sympy.ccode(Odd(x) + e)),
        'ccode matrix': quiet(lambda: sympy.ccode(HadamardProduct(A, B))),
        'fcode': quiet(lambda: sympy.fcode(Odd(x)**sympy.pi)),
        'octave': quiet(lambda: sympy.octave_code(HadamardProduct(A, B)**2)),
        'numpy': quiet(lambda: sympy.printing.pycode(Odd(a)*x)),
        'lambdify unsupported': quiet(lambda: sympy.lambdify([x], Odd(x) + sympy.zeta(x, a))),
        'lambdify math': quiet(lambda: sympy.lambdify([x, a], e, 'math')(0.5, 1.5)),
        'evaluate matrix': quiet(lambda: CallableModel({x: HadamardProduct(A, B)})(
            A=DATA['A'], B=DATA['B'])),
        'evaluate wrongly': quiet(lambda: CallableModel({x: A*v})(A=DATA['A'], v=np.ones((5, 7)))),
        'model repr': quiet(lambda: str(CallableModel({x: A*v})) + CallableModel({x: A*v})._repr_latex_()),
        'sum': quiet(lambda: CallableModel({x: Sum(v[i, 0]*a, i)})(v=DATA['v'], a=1.0)),
    }


PROBES = [
    ('hadamard', lambda s: HadamardProduct(s['A'] + s['B'], s['C']), lambda d: (d['A'] + d['B'])*d['C'], 'ABC'),
    ('inverse', lambda s: Inverse(s['A']*s['B']), lambda d: np.linalg.inv(d['A'] @ d['B']), 'AB'),
    ('hpow', lambda s: HadamardPower(s['A'], 2)*s['v'], lambda d: d['A']**2 @ d['v'], 'Av'),
    ('scalar power', lambda s: (s['v'].T*s['A']*s['v'])**Rational(1, 2),
     lambda d: np.sqrt(d['v'].T @ d['A'] @ d['v']), 'Av'),
    ('power', lambda s: s['A']**2*s['a'], lambda d: d['A'] @ d['A']*d['a'], 'Aa'),
    ('scalar', lambda s: s['a']**2*sympy.sin(s['a']) + sympy.pi, lambda d: d['a']**2*np.sin(d['a']) + np.pi, 'a'),
    ('sum', lambda s: Sum(s['v'][Idx('i', 2), 0]*s['a'], Idx('i', 2)), lambda d: np.sum(d['v'])*d['a'], 'va'),
    ('entry', lambda s: s['A'][0, 1]*s['a'] + sympy.EulerGamma, lambda d: d['A'][0, 1]*d['a'] + np.euler_gamma, 'Aa'),
]


def histories(ch):
    """Whatever was printed or evaluated before."""
    ev = events()
    n = ch.pick('events', [1, 2] + ([3] if THOROUGH else []), dev=False)
    s, _ = symbols(PLAIN_NAMES)
    name, f, g, uses = ch.pick('expression', PROBES, dev=False)
    d = dict(DATA, a=0.75)
    x = Variable('zz')
    early = CallableModel({x: f(s)})
    args = {q: d[q] for q in uses}
    ref = np.atleast_1d(g(d))
    for _ in range(n):
        e = ch.pick('event', list(ev), dev=False)
        ch.op()
        ev[e]()
        compare(ch, np.atleast_1d(f(s)(**args)), ref, 'history', 'value after other work', event=e)
    compare(ch, CallableModel({x: f(s)})(**args).zz, ref, 'history', 'value after other work')
    compare(ch, early(**args).zz, ref, 'history', 'value of an older model after other work')
    ch.obs(name, np.round(ref, 6))


THOROUGH = False


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'trees': {'body': trees, 'bound': 1 if t else 0},
            'variations': {'body': variations, 'bound': 3 if t else 2},
            'deep': {'body': deep, 'bound': 0},
            **({'deeper': {'body': deeper, 'bound': 0}} if t else {}),
            'components': {'body': components, 'bound': 2 if t else 1},
            'sums': {'body': sums},
            'constraints': {'body': constraints},
            'histories': {'body': histories},
        },
        'budget_s': 780 if t else 100,
        'rule': 'all expression trees of two levels over the matrix operations (2x2, column and '
                '1x1 shapes), deeper ones within the deviation bound, all chains of three '
                '(thorough: four) operations, all three-component matrix models from the grammar, '
                'all sums over indexed data from the list, all sequences of at most two '
                '(thorough: three) printing or evaluation events before an evaluation',
        'assumptions': ['singular matrices and roots of non-positive numbers are skipped'],
    }
