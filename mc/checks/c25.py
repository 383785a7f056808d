"""C25: interleaved fits do not disturb each other."""
import pickle

import numpy as np

from ..core import Skip
from .. import sched
from .. import worlds as W
from ..worlds import *  # noqa
from .c17 import normal
from .c18 import World
from . import c18

THOROUGH = False
ALONE = {}
COUNTS = {}


def own_fit(w):
    return lambda: fit_and_look(w.fit, 0)


def fit_and_look(f, i):
    r, seen = W.run(f, i)
    return [seen, W.observe_result(r)]


def other_data(w):
    kw = dict(w.fit_kw)
    for v in w.model.dependent_vars:
        if v.name in kw:
            kw[v.name] = kw[v.name][::-1] * 2

    def task():
        f = Fit(w.model, minimizer=SLSQP, **{k: v for k, v in kw.items() if k != 'constraints'})
        return fit_and_look(f, 1)
    return task


def constrained(w):
    p = w.model.params

    def task():
        f = Fit(w.model, constraints=[Ge(p[0], p[-1] - 5)],
                **{k: v for k, v in w.fit_kw.items() if k != 'constraints'})
        return fit_and_look(f, 1)
    return task


def chained(w):
    def task():
        f = Fit(w.model, minimizer=[NelderMead, TrustConstr],
                **{k: v for k, v in w.fit_kw.items() if k != 'constraints'})
        return fit_and_look(f, 1)
    return task


def shared_objective(w):
    """A minimizer of one's own for the objective of the other fit."""
    def task():
        m = LBFGSB(w.fit.objective, w.model.params)
        return fit_and_look(m, 1)
    return task


def evaluation(w):
    def task():
        out = []
        for i in (1, 0):
            W.pause()
            out.append(W.op_call(w.model, i))
            W.pause()
            out.append(W.op_jac(w.model, i))
        return out
    return task


def derivatives(w):
    def task():
        out = []
        for i in (1, 0):
            W.pause()
            out.append(W.op_hess(w.model, i))
            W.pause()
            out.append(W.op_fd(w.model, i))
        return out
    return task


def objective(w):
    def task():
        out = []
        for i in (1, 0):
            W.pause()
            out.append(W.oop_value(w.fit.objective, i))
            W.pause()
            out.append(W.oop_jac(w.fit.objective, i))
        return out
    return task


def building(w):
    def task():
        W.pause()
        out = [c18.negation(w)]
        W.pause()
        out.append(c18.same_model(w))
        out.append(c18.dependencies(w))
        W.pause()
        out.append(c18.pickling(w))
        return out
    return task


def stranger(w):
    """A fit which shares nothing but the parameters."""
    s = w.s

    def task():
        m = Model({Variable('q'): s['b'] * Variable('r') + s['a']**2})
        W.pause()
        f = Fit(m, r=np.array([1., 2., 3.]), q=np.array([2., 3., 5.]))
        return fit_and_look(f, 1)
    return task


TASKS = [own_fit, other_data, constrained, chained, shared_objective, evaluation, derivatives,
         objective, building, stranger]
for f in TASKS:
    f.mc_name = f.__name__
KINDS = ['two', 'deep', 'chain', 'constrained', 'numerical', 'ode', 'basin', 'mixed', 'vector',
         'likelihood']


def fits(kind, task):
    if task is constrained and kind in ('ode', 'numerical', 'mixed', 'vector', 'constrained'):
        return False
    if task is other_data and kind in ('vector',):
        return False
    if task in (chained, shared_objective) and kind == 'vector':
        return False
    if task is derivatives and kind in ('ode', 'numerical', 'mixed'):
        return False
    return True


def alone(kind, task, attrs='mixed'):
    key = (kind, task.__name__, attrs)
    if key not in ALONE:
        ALONE[key] = normal(task(World(kind, attrs))())
    return ALONE[key]


def finish(ch, w, chosen, tasks, expected):
    for c, t, exp in zip(chosen, tasks, expected):
        if t.error is not None:
            raise t.error
        got = normal(t.result)
        ch.expect(W.same(got, exp), 'disturbed: ' + c.__name__,
                  '{} gives the result it gives alone'.format(c.__name__), **W.first_difference(got, exp))
    after = w.everything()
    ch.expect(after == w.before, 'user objects', 'objects of the user are not modified',
              **W.first_difference(after, w.before, 0, 0))
    ch.obs([c.__name__ for c in chosen], expected)


def interleaved(ch):
    """All interleavings of the callbacks of two (or three) tasks."""
    kind = ch.pick('world', KINDS if THOROUGH else ['chain', 'constrained', 'mixed'], dev=False)
    able = [t for t in (TASKS if THOROUGH else QUICK_TASKS) if fits(kind, t)]
    n = 2 if not THOROUGH else ch.pick('tasks', [2, 3], dev=False)
    chosen = []
    for i in range(n):
        chosen.append(ch.pick('task {}'.format(i + 1), able[(able.index(chosen[-1]) if i else 0):]
                              if n == 2 else able[:5], dev=False))
    if chosen.count(own_fit) > 1:
        raise Skip()  # one fit object executed twice at the same time
    expected = [alone(kind, t) for t in chosen]
    w = World(kind, 'mixed')
    tasks = sched.start([t(w) for t in chosen])
    current = None
    schedule = []
    while not all(t.done for t in tasks):
        alive = [t for t in tasks if not t.done]
        # the running task first: switching away from it is a preemption
        alive.sort(key=lambda t: (t is not current, t.index))
        i = ch.pick('next', [t.index for t in alive], dev=current is not None and not current.done)
        current = tasks[i]
        current.step()
        ch.op()
        schedule.append(i)
    ch.state(kind, [c.__name__ for c in chosen], schedule)
    finish(ch, w, chosen, tasks, expected)


QUICK_TASKS = [own_fit, other_data, chained, evaluation, objective]


def prepare(pairs, mode):
    for kind, task in pairs:
        key = (kind, task.__name__, mode)
        if key not in COUNTS:
            alone(kind, task)
            # a warmed up process: what sympy has cached is called less often
            COUNTS[key] = sched.count(task(World(kind, 'mixed')), mode)


def preempted(ch, mode, kinds, first, second):
    """The first task is interrupted once, anywhere; the other runs meanwhile."""
    kind = ch.pick('world', kinds, dev=False)
    a = ch.pick('interrupted', [t for t in first if fits(kind, t)], dev=False)
    b = ch.pick('by', [t for t in second if fits(kind, t) and (t is not a or t is not own_fit)], dev=False)
    at = ch.pick('at', range(1, COUNTS[kind, a.__name__, mode] + 1), dev=False)
    expected = [alone(kind, a), alone(kind, b)]
    w = World(kind, 'mixed')
    tasks = sched.start([a(w), b(w)], mode, [[at]])
    tasks[0].step()
    ch.op()
    tasks[1].step()
    ch.op()
    if not tasks[0].done:
        tasks[0].step()
        ch.op()
    ch.state(kind, a.__name__, b.__name__, at)
    finish(ch, w, [a, b], tasks, expected)


def calls(ch):
    preempted(ch, 'calls', CALL_SPACE[0], CALL_SPACE[1], CALL_SPACE[2])


def lines(ch):
    preempted(ch, 'lines', LINE_SPACE[0], LINE_SPACE[1], LINE_SPACE[2])


def nested(ch):
    """Another task is started from within a callback of the first, to any depth."""
    kind = ch.pick('world', KINDS if THOROUGH else ['chain', 'deep', 'numerical', 'ode'], dev=False)
    able = [t for t in TASKS if fits(kind, t)]
    chosen = [ch.pick('outer', [t for t in able if t in (own_fit, other_data, constrained, chained,
                                                         shared_objective)], dev=False)]
    w = World(kind, 'mixed')
    expected = [alone(kind, chosen[0])]
    results = {}

    def start(level, task):
        count = [0]
        at = ch.pick('started at', [0, 1, 2, 3] if THOROUGH else [0, 2], dev=False)

        def hook():
            if count[0] == at:
                count[0] += 1
                inner = ch.pick('inner', [t for t in able if t not in (own_fit,)
                                          and (THOROUGH or t not in (stranger, derivatives, constrained))]
                                if level < 1 else
                                [None, evaluation, other_data, stranger], dev=level > 0)
                if inner is None:
                    return
                chosen.append(inner)
                exp = alone_here(kind, inner)
                old = W.HOOKS.pause
                W.HOOKS.pause = None
                if level < 1:
                    got = start(level + 1, inner)
                else:
                    got = inner(w)()
                W.HOOKS.pause = old
                ch.op()
                got = normal(got)
                ch.expect(W.same(got, exp), 'disturbed: ' + inner.__name__, 'the inner task',
                          **W.first_difference(got, exp))
            else:
                count[0] += 1
        W.HOOKS.pause = hook
        try:
            return task(w)()
        finally:
            W.HOOKS.pause = None

    def alone_here(kind, task):
        old = W.HOOKS.pause
        W.HOOKS.pause = None
        try:
            return alone(kind, task)
        finally:
            W.HOOKS.pause = old
    got = normal(start(0, chosen[0]))
    ch.op()
    ch.expect(W.same(got, expected[0]), 'disturbed: ' + chosen[0].__name__, 'the outer task',
              **W.first_difference(got, expected[0]))
    after = w.everything()
    ch.expect(after == w.before, 'user objects', 'objects of the user are not modified',
              **W.first_difference(after, w.before, 0, 0))
    ch.obs([c.__name__ for c in chosen], expected)


def spec(tier):
    global THOROUGH, CALL_SPACE, LINE_SPACE
    THOROUGH = t = tier == 'thorough'
    if not t:
        CALL_SPACE = (['chain', 'deep'], [own_fit], [evaluation, other_data])
        LINE_SPACE = (['deep', 'mixed'], [objective], [objective, evaluation])
    else:
        CALL_SPACE = (KINDS, [own_fit, other_data, building], [evaluation, other_data])
        LINE_SPACE = (KINDS, [evaluation, objective, own_fit, shared_objective],
                      [objective, other_data])
    for mode, space in (('calls', CALL_SPACE), ('lines', LINE_SPACE)):
        prepare([(k, f) for k in space[0] for f in space[1] if fits(k, f)], mode)
    return {
        'bodies': {
            'nested': {'body': nested, 'bound': 1 if t else 0},
            'interleaved': {'body': interleaved, 'bound': 3 if t else 2},
            'calls': {'body': calls, 'bound': 0},
            'lines': {'body': lines, 'bound': 0},
        },
        'budget_s': 120 if not t else 780,
        'rule': 'real threads under a controlled scheduler: all interleavings of two tasks at the calls '
                'of the back end up to the preemption bound; one preemption at every call and '
                'return, and at every source line, of the package (the first time it is reached); tasks started from within callbacks',
        'assumptions': ['one fit object is not executed twice at the same time',
                        'switches happen between source lines of the package, not within '
                        'numpy, scipy or sympy'],
        'events': {'/'.join(k): v for k, v in COUNTS.items()},
    }
