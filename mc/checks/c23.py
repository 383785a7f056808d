"""C23: interactive guessing keeps sliders, parameters and plots in step."""
import itertools
import os

os.environ['MPLBACKEND'] = 'Agg'

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.backend_bases import MouseEvent
from matplotlib.collections import LineCollection
import numpy as np

from ..env import symfit
from symfit import (CallableModel, CallableNumericalModel, D, Fit, Model, ODEModel, Parameter,
                    Variable, exp, sin)
from symfit.contrib.interactive_guess import InteractiveGuess
from .. import gen
from ..core import Skip

THOROUGH = False
X = np.linspace(0.5, 3, 7)
W = np.array([0.3, -1.0, 2.0, 0.7, 1.9, -0.4, 1.1])
DATA = {'x': X, 'w': W, 'y': 2*X + np.cos(3*X), 'z': np.array([1.0, 3.0, -2.0, 0.5, 2.5, 4.0, 0.1]),
        't': np.linspace(0, 2, 6), 'A': np.exp(-np.linspace(0, 2, 6)),
        'B': 1 - np.exp(-np.linspace(0, 2, 6))}


class K(object):
    """A kind of model: how to make it and what it is."""

    def __init__(self, name, indep, dep, params, make, ref, time=None, level=0):
        self.mc_name, self.indep, self.dep, self.params = name, indep.split(), dep.split(), params.split()
        self.make, self.ref, self.start, self.level = make, ref, time, level

    def __repr__(self):
        return self.mc_name


def linear(s):
    return Model({s['y']: s['a']*s['x'] + s['b']})


def bare(s):
    return {s['y']: s['b']*s['x']**2 - s['a']}


def two(s):
    return CallableModel({s['y']: s['a']*exp(-s['b']*s['x']), s['z']: s['a'] - s['x']*s['b']})


def constant(s):
    return {s['y']: s['a']*s['x'], s['z']: s['b']}


def between(s):
    return {s['y']: s['a']*s['x'], s['z']: s['y']**2 - s['b']}


def numerical(s):
    return CallableNumericalModel({s['y']: lambda x, a, b: a*x + b**2, s['z']: s['b']*s['x']},
                                  connectivity_mapping={s['y']: {s['x'], s['a'], s['b']}})


def ode(s):
    return ODEModel({D(s['A'], s['t']): -s['a']*s['A']}, {s['t']: 0.0, s['A']: 1.0})


def ode_early(s):
    return ODEModel({D(s['A'], s['t']): -s['a']*s['A']}, {s['t']: -0.5, s['A']: s['b']})


def ode_two(s):
    return ODEModel({D(s['A'], s['t']): -s['a']*s['A'], D(s['B'], s['t']): s['a']*s['A'] - s['b']},
                    {s['t']: 0.0, s['A']: 1.0, s['B']: 0.0})


def plane(s):
    return {s['y']: s['a']*s['x'] + s['b']*s['w']}


def plane_two(s):
    return {s['y']: s['a']*s['x']*s['w'], s['z']: s['b']*s['x']**2}


def plane_one_constant(s):
    return {s['y']: s['a']*s['x'] + s['w'], s['z']: s['b']}


def plane_three(s):
    return {s['y']: s['a']*s['x'] + s['w'] - s['b']*s['t']}


KINDS = [
    K('line', 'x', 'y', 'a b', linear, lambda p, g: {'y': p['a']*g['x'] + p['b']}),
    K('dict', 'x', 'y', 'a b', bare, lambda p, g: {'y': p['b']*g['x']**2 - p['a']}),
    K('two components', 'x', 'y z', 'a b', two,
      lambda p, g: {'y': p['a']*np.exp(-p['b']*g['x']), 'z': p['a'] - g['x']*p['b']}),
    K('constant component', 'x', 'y z', 'a b', constant,
      lambda p, g: {'y': p['a']*g['x'], 'z': p['b'] + 0*g['x']}),
    K('interdependent', 'x', 'z', 'a b', between, lambda p, g: {'z': (p['a']*g['x'])**2 - p['b']}),
    K('numerical', 'x', 'y z', 'a b', numerical,
      lambda p, g: {'y': p['a']*g['x'] + p['b']**2, 'z': p['b']*g['x']}),
    K('ode', 't', 'A', 'a', ode, lambda p, g: {'A': np.exp(-p['a']*g['t'])}, True),
    K('ode with initial parameter', 't', 'A', 'a b', ode_early,
      lambda p, g: {'A': p['b']*np.exp(-p['a']*(g['t'] + 0.5))}, True),
    K('system of odes', 't', 'A B', 'a b', ode_two,
      lambda p, g: {'A': np.exp(-p['a']*g['t']), 'B': 1 - np.exp(-p['a']*g['t']) - p['b']*g['t']}, True),
    K('plane', 'w x', 'y', 'a b', plane, lambda p, g: {'y': p['a']*g['x'] + p['b']*g['w']}),
    K('two surfaces', 'w x', 'y z', 'a b', plane_two,
      lambda p, g: {'y': p['a']*g['x']*g['w'], 'z': p['b']*g['x']**2}),
    K('surface and constant', 'w x', 'y z', 'a b', plane_one_constant,
      lambda p, g: {'y': p['a']*g['x'] + g['w'], 'z': p['b'] + 0*g['x']}),
    K('volume', 't w x', 'y', 'a b', plane_three,
      lambda p, g: {'y': p['a']*g['x'] + g['w'] - p['b']*g['t']}, level=1),
]
N_DIM = [k for k in KINDS if len(k.indep) > 1]

NAMES = [{}, dict(a='z_1', b='a', x='q', y='E'), dict(a='beta', b='S', x='x_10', w='x_9', y='x_1', z='N')]


def data_for(kind, data=DATA):
    return data if len(kind.indep) < 3 else dict(data, t=np.resize(data['t'], 7) + 0.01*np.arange(7))


class Window(object):
    """An interactive guess with what it should look like."""

    def __init__(self, ch, kind, names, attrs, n_points, data, missing=(), draw=False, **options):
        self.ch, self.kind, self.n = ch, kind, n_points
        self.nm = lambda n: names.get(n, n)
        self.syms = {n: Variable(self.nm(n)) for n in kind.indep + kind.dep + ['y', 'z', 'x', 'w', 't', 'A', 'B']}
        self.pars = {n: gen_parameter(self.nm(n), *attrs.get(n, (1.5, None, None, False))) for n in kind.params}
        self.syms.update(self.pars)
        self.data = {n: data[n] for n in kind.indep + kind.dep if n not in missing}
        self.given = {self.nm(n): v for n, v in self.data.items()}
        self.given.update({self.nm(n): None for n in missing})
        self.missing = missing
        self.percentile = options.get('percentile', (5, 95))
        self.before = {n: p.value for n, p in self.pars.items()}
        self.copies = {n: np.array(v) for n, v in self.data.items()}
        kwargs = dict(options)
        if n_points != 50:
            kwargs['n_points'] = n_points
        self.model = kind.make(self.syms)
        kwargs.update(self.given)
        ch.op()
        self.ig = InteractiveGuess(self.model, **kwargs)
        self.fig = self.ig.fig
        self.drawings = 0
        if not draw:
            # Agg draws at once when a slider asks for it
            self.fig.canvas.draw_idle = self.asked
        self.sliders = {n: self.ig._sliders[p] for n, p in self.pars.items()}
        self.at = {n: p.value for n, p in self.pars.items()}

    def asked(self, *args, **kwargs):
        self.drawings += 1

    def close(self):
        plt.close(self.fig)

    def opened(self):
        """What must hold right after opening the window."""
        ch = self.ch
        ch.equal({n: p.value for n, p in self.pars.items()}, self.before, 'guess changed',
                 'opening the window keeps the initial guesses')
        labels = [a.get_label() for a in self.fig.axes]
        ch.equal(sum(str(lab) in [self.nm(n) for n in self.kind.params] for lab in labels),
                 len(self.kind.params), 'sliders', 'one slider per parameter')
        ch.equal(len(self.ig._sliders), len(self.kind.params), 'sliders', 'one slider per parameter')
        for n, p in self.pars.items():
            v = self.before[n]
            lo = p.min if p.min is not None else min(0, 2*v)
            hi = p.max if p.max is not None else max(0, 2*v)
            s = self.sliders[n]
            ch.equal((s.valmin, s.valmax), (lo, hi), 'range', 'range of a slider', parameter=n,
                     guess=v)
            ch.equal(s.val, v, 'initial', 'value of a slider at the start', parameter=n)
            ch.equal(str(s.label.get_text()), self.nm(n), 'label', 'label of a slider')
        self.check('after opening')

    def grid(self):
        out = {}
        for n in self.kind.indep:
            lo, hi = np.min(self.data[n]), np.max(self.data[n])
            r = hi - lo
            out[n] = np.linspace(lo if self.kind.start else lo - 0.1*r, hi + 0.1*r, self.n)
        return out

    def plots(self):
        found = {}
        for ax in self.fig.axes:
            key = (ax.get_xlabel().strip('$'), ax.get_ylabel().strip('$'))
            if all(key):
                found.setdefault(key, []).append(ax)
        return found

    def check(self, when):
        ch, k = self.ch, self.kind
        for n, p in self.pars.items():
            ch.equal(p.value, self.sliders[n].val, 'parameter', 'value of a parameter and its slider',
                     when=when, parameter=n)
            ch.close(p.value, self.at[n], 'moved', 'value of a parameter after the moves', when=when,
                     parameter=n, rtol=1e-9, atol=1e-9*(1 + abs(self.at[n])))
            lo, hi = p.min, p.max
            ch.expect((lo is None or p.value >= lo) and (hi is None or p.value <= hi), 'bounds',
                      'the guess is within the bounds', when=when, parameter=n)
        point = {n: p.value for n, p in self.pars.items()}
        plots = self.plots()
        ch.equal(sorted(plots), sorted((self.nm(x), self.nm(y)) for x in k.indep for y in k.dep),
                 'plots', 'one plot for every pair of variables')
        ch.expect(all(len(v) == 1 for v in plots.values()), 'plots', 'one plot for every pair')
        points = self.grid()
        mesh = np.meshgrid(*[points[n] for n in k.indep], indexing='ij')
        ref = {y: np.broadcast_to(v, mesh[0].shape)
               for y, v in k.ref(point, dict(zip(k.indep, mesh))).items()}
        tol = dict(rtol=1e-9, atol=1e-9) if not k.start else dict(rtol=1e-5, atol=1e-5)
        for (i, x), y in itertools.product(enumerate(k.indep), k.dep):
            ax = plots[(self.nm(x), self.nm(y))][0]
            red = [l for l in ax.lines if matplotlib.colors.to_rgb(l.get_color()) == (1, 0, 0)
                   and len(l.get_xdata()) > 0]
            if not ch.equal(len(red), 1, 'lines', 'one line of the model in a plot', when=when):
                continue
            lx, ly = np.asarray(red[0].get_xdata(), float), np.asarray(red[0].get_ydata(), float)
            ch.close(lx, points[x], 'abscissa', 'the points where the model is plotted', when=when,
                     variable=x, atol=1e-12)
            others = tuple(j for j in range(len(k.indep)) if j != i)
            v = np.moveaxis(ref[y], i, 0).reshape(self.n, -1)
            ch.close(ly, v.mean(axis=1), 'curve', 'the plotted curve is the model at the sliders',
                     when=when, x=x, y=y, point=point, **tol)
            if others:
                self.bars(ax, points[x], np.percentile(v, self.percentile, axis=1).T, when, x, y)
            elif y not in self.missing:
                offs = [np.asarray(c.get_offsets()) for c in ax.collections]
                want = np.column_stack((np.ravel(self.data[x]), np.ravel(self.data[y])))
                ch.expect(any(o.shape == want.shape and np.allclose(o, want) for o in offs), 'data',
                          'the data are shown', x=x, y=y)
            lim = ax.get_xlim()
            ch.close(lim, (points[x][0], points[x][-1]), 'limits', 'horizontal range of a plot')
            if y not in self.missing:
                lo, hi = np.min(self.data[y]), np.max(self.data[y])
                ch.close(ax.get_ylim(), (lo - 0.1*(hi - lo), hi + 0.1*(hi - lo)), 'limits',
                         'vertical range of a plot')
        text = str(self.ig)
        for n, p in self.pars.items():
            ch.expect('{}: {}\n'.format(self.nm(n), p.value) in text, 'text', 'printed guesses',
                      text=text)
        for n, v in self.copies.items():
            ch.expect(np.array_equal(v, self.data[n]), 'data changed', 'the data are left alone')
        ch.state(sorted(point.items()))

    def bars(self, ax, xs, want, when, x, y):
        ch = self.ch
        lines = []
        for c in ax.collections:
            if isinstance(c, LineCollection):
                segs = np.array([s for s in c.get_segments() if len(s) == 2])
                if len(segs) and not np.allclose(segs[:, 0], segs[:, 1]):
                    lines.append(segs)
        if np.allclose(want[:, 0], want[:, 1], rtol=1e-13):
            return ch.equal(len(lines), 0, 'bars', 'no error bars without spread', when=when)
        if not ch.equal(len(lines), 1, 'bars', 'error bars of the model', when=when):
            return
        got = np.array([s[:, 1] for s in lines[0]])
        at = np.array([s[:, 0] for s in lines[0]])
        if not ch.equal(got.shape, want.shape, 'bars', 'number of error bars'):
            return
        ch.close(at, np.column_stack((xs, xs)), 'bars', 'places of the error bars', when=when, atol=1e-12)
        ch.close(got, want, 'bars', 'error bars run from percentile to percentile', when=when, x=x,
                 y=y, rtol=1e-9, atol=1e-9)

    # -- what the user does ------------------------------------------------
    def mouse(self, kind, slider, value):
        px, py = slider.ax.transData.transform((value, 0.5))
        MouseEvent(kind, self.fig.canvas, px, py, button=1)._process()

    def do(self, event):
        what, n = event[0], event[1]
        s = self.sliders[n]
        self.ch.op()
        value = lambda f: s.valmin + f*(s.valmax - s.valmin)
        if what == 'set':
            self.at[n] = value(event[2])
            s.set_val(self.at[n])
        elif what == 'reset':
            self.at[n] = self.before[n]
            s.reset()
        elif what == 'click':
            self.at[n] = value(event[2])
            self.mouse('button_press_event', s, self.at[n])
            self.mouse('button_release_event', s, self.at[n])
        elif what == 'drag':
            self.at[n] = min(max(value(event[3]), s.valmin), s.valmax)
            self.mouse('button_press_event', s, value(event[2]))
            for f in np.linspace(event[2], event[3], 4)[1:]:
                self.mouse('motion_notify_event', s, value(f))
            self.mouse('button_release_event', s, value(event[3]))
        elif what == 'hover':
            self.mouse('motion_notify_event', s, value(event[2]))
        elif what == 'show':
            self.ig.execute(show=False)
        elif what == 'draw':
            self.fig.canvas.draw()
        elif what == 'cycle':
            for p in self.pars:
                q = self.sliders[p]
                for v in (q.valmin, q.valmax, self.at[p]):
                    q.set_val(v)


def gen_parameter(name, value, lo, hi, fixed):
    return Parameter(name, value, min=lo, max=hi, fixed=fixed)


def events(kind):
    out = []
    for n in kind.params:
        out += [('set', n, 0.25), ('set', n, 1.0), ('set', n, 0.0), ('reset', n), ('click', n, 0.8),
                ('drag', n, 0.4, 0.9)]
        if THOROUGH or n == 'a':
            out += [('drag', n, 0.6, -0.2), ('hover', n, 0.3)]
    n = kind.params[0]
    return out + [('show', n), ('cycle', n)]


def moves(ch):
    """Every sequence of what a user can do in the window."""
    kind = ch.pick('kind', KINDS, dev=False)
    attrs = ch.pick('parameters', [
        {}, {'a': (2.0, -1.0, 4.0, False)}, {'b': (-2.5, None, None, False)},
        {'a': (1.5, None, None, True), 'b': (0.75, 0.5, None, False)}][::3 if THOROUGH else 1], dev=False)
    if not set(attrs) <= set(kind.params):
        raise Skip()
    n = 2 if THOROUGH and len(kind.indep) == 1 else 1
    first = [ch.pick('event', events(kind), dev=False) for _ in range(n)]
    win = Window(ch, kind, {}, attrs, 50 if kind is KINDS[0] else 5, data_for(kind))
    try:
        win.opened()
        for e in first:
            win.do(e)
            win.check('after ' + e[0])
        # from here on the window itself is the state: every next event, one after the other
        base = dict(win.at)
        for e in events(kind):
            win.do(e)
            win.check('then ' + e[0])
            for p, v in base.items():
                win.sliders[p].set_val(v)
                win.at[p] = v
            if any(win.at[p] != q.value for p, q in win.pars.items()):
                win.check('going back')
        ch.obs(kind.mc_name, str(first), sorted(win.at.items()))
    finally:
        win.close()


VALUES = [(v, lo, hi, f) for v in (1.5, -2.0, 0.5, 3, -1) for lo in (None, -4, 0, 0.25, -2.0)
          for hi in (None, 5, 0, 3, -0.5) for f in (False, True)
          if (lo is None or lo <= v) and (hi is None or hi >= v) and (lo is None or hi is None or lo < hi)]


def ranges(ch):
    """Guesses and bounds of every sign."""
    kind = ch.pick('kind', [KINDS[0], KINDS[2]] if not THOROUGH else [
        KINDS[i] for i in (0, 8, 9)], dev=False)
    a = ch.pick('a', VALUES, dev=False)
    b = ch.pick('b', [(1.0, None, None, False), (-0.5, None, 2, False)] if not THOROUGH else VALUES[::7],
                dev=False)
    win = Window(ch, kind, {}, {'a': a, 'b': b}, 50, DATA)
    try:
        win.opened()
        for e in [('set', 'a', 1.0), ('set', 'b', 0.0), ('set', 'a', 0.0)]:
            win.do(e)
            win.check('after the move')
        ch.obs(a, b, kind.mc_name)
    finally:
        win.close()


def options(ch):
    """Options, kinds of data, names."""
    kind = ch.pick('kind', KINDS, dev=False)
    names = ch.pick('names', NAMES)
    if (kind.start or kind.mc_name == 'numerical') and names:
        raise Skip()
    n_points = ch.pick('n_points', [7, 50, 2, 13])
    if n_points == 50 and len(kind.indep) > 2:
        raise Skip()
    opts = {}
    pct = ch.pick('percentile', [None, (25, 75), [0, 100], (50, 90)])
    if pct is not None:
        opts['percentile'] = pct
    log = ch.pick('log_contour', [None, False, True])
    if log is not None:
        opts['log_contour'] = log
    if len(kind.indep) == 1 and (opts and not ch.flag('irrelevant options', dev=False)):
        raise Skip()
    data = dict(DATA)
    change = ch.pick('data', ['plain', 'negative', 'integer', 'shuffled', 'large', 'constant'])
    missing = ch.pick('missing', [()] + [(d,) for d in kind.dep] + ([tuple(kind.dep)] if len(
        kind.dep) > 1 else []))
    perm = [3, 0, 5, 1, 4, 2, 6]
    for n in list(data):
        v = data[n]
        timeline = kind.start and n == 't'
        if change == 'negative' and not timeline:
            data[n] = -v - 1
        elif change == 'integer':
            data[n] = np.arange(len(v)) if timeline else np.roll([1, 4, -2, 7, 3, 0, 9], ord(n))[:len(v)]
        elif change == 'shuffled':
            data[n] = v[[i for i in perm if i < len(v)]]
        elif change == 'large' and not timeline:
            data[n] = v * 1e6
        elif change == 'constant' and n in ('y', 'A') and len(kind.indep) == 1:
            data[n] = np.full_like(v, 2.5)
    data = data_for(kind, data)
    if change == 'constant' and len(kind.indep) > 1 or change == 'integer' and len(kind.indep) > 2:
        # no density of such data
        raise Skip()
    win = Window(ch, kind, names, {'b': (0.75, 0.5, 2.0, False)}, n_points, data, missing,
                 draw=n_points == 13, **opts)
    try:
        if change == 'constant':
            # the vertical range of constant data is up to matplotlib
            win.missing = tuple(set(win.missing) | {'y', 'A'})
        win.opened()
        for e in [('set', kind.params[0], 0.8), ('set', kind.params[-1], 0.1), ('set', kind.params[0], 0.3)]:
            win.do(e)
            win.check('after the move')
        ch.obs(kind.mc_name, n_points, str(opts), change, str(missing), names.get('a'))
    finally:
        win.close()


def afterwards(ch):
    """What follows the guessing: a fit, or another window."""
    kind = ch.pick('kind', KINDS[:6] + N_DIM[:2], dev=False)
    script = [ch.pick('event', events(kind)[:8], dev=False)]
    then = ch.pick('then', ['fit', 'window', 'other model', 'earlier fit', 'value'], dev=False)
    win = Window(ch, kind, {}, {'b': (-1.0, None, 2.0, False)}, 5, DATA)
    other = None
    try:
        win.opened()
        fit = Fit(win.ig.model, **win.given) if then == 'earlier fit' else None
        for e in script:
            win.do(e)
            win.check('after')
        now = {n: p.value for n, p in win.pars.items()}
        if then in ('fit', 'earlier fit'):
            fit = fit or Fit(win.ig.model, **win.given)
            ch.equal([float(v) for v in fit.initial_guesses], [now[n] for n in sorted(now)], 'fit',
                     'a fit starts from the guesses')
        elif then == 'value':
            ch.equal(now, {n: win.sliders[n].val for n in now}, 'values', 'values of the sliders')
        else:
            model = win.model if then == 'window' else {
                win.syms['y']: win.pars['a']*win.syms['x'] + win.pars['b']}
            data = win.given if then == 'window' else {'x': X, 'y': DATA['y']}
            other = InteractiveGuess(model, n_points=5, **data)
            ch.equal({n: p.value for n, p in win.pars.items()}, now, 'second window',
                     'a second window starts from the guesses of the first')
            for n, p in win.pars.items():
                ch.equal(other._sliders[p].val, now[n], 'second window', 'sliders of a second window')
            win.check('after opening another window')
            win.do(('set', 'a', 0.5))
            win.check('after moving on in the first window')
        ch.obs(kind.mc_name, then, str(script))
    finally:
        win.close()
        if other is not None:
            plt.close(other.fig)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'moves': {'body': moves},
            'ranges': {'body': ranges},
            'options': {'body': options, 'bound': 2 if t else 1},
            'afterwards': {'body': afterwards},
        },
        'budget_s': 780 if t else 100,
        'rule': 'all sequences of at most two (thorough: three) user actions - setting, clicking, '
                'dragging and resetting each slider - for thirteen kinds of models; all guesses and '
                'bounds from the lists; all options within the deviation bound',
        'assumptions': ['bounded guesses lie within their bounds', 'matplotlib with the Agg canvas'],
    }
