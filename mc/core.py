"""
Stateless explorer used by every check.

A check is a function ``body(ch)``.  Every source of variation is drawn with
``ch.pick(label, options)``; the explorer executes the body once for every
sequence of choices (depth first, option 0 is the default).  Choices marked
``dev=True`` (the default) cost one deviation when they differ from option 0;
all paths with at most ``bound`` deviations are executed, exhaustively.
Choices marked ``dev=False`` are always enumerated completely.

Nothing is sampled: the set of executed paths is a function of the body and
of the bound only.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Abort(Exception):
    """Ends the current path after a recorded violation."""


class Hang(Exception):
    pass


class Skip(Exception):
    """The path is outside the space (not counted)."""


def _jsonable(obj):
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    if isinstance(obj, np.ndarray):
        return np.asarray(obj).tolist()
    if isinstance(obj, (np.floating, np.integer, np.bool_)):
        return obj.item()
    if isinstance(obj, (list, tuple)):
        return [_jsonable(o) for o in obj]
    if isinstance(obj, dict):
        return {str(k): _jsonable(v) for k, v in obj.items()}
    return repr(obj)


class Ch(object):
    """One execution: the choices made and what was observed."""

    def __init__(self, prefix, bound, known=()):
        self.prefix = list(prefix)
        self.bound = bound
        self.points = []     # (label, n_options, chosen, dev)
        self.trace = []      # (label, repr of option)
        self.evaluations = 0
        self.outcomes = []
        self.states = []
        self.violations = []
        self.ops = 0

    @property
    def cost(self):
        return sum(1 for _, _, c, dev in self.points if dev and c)

    def pick(self, label, options, dev=True):
        options = list(options)
        if not options:
            raise Skip()
        i = len(self.points)
        if i < len(self.prefix):
            choice = self.prefix[i]
            if choice >= len(options):
                raise RuntimeError('Replay diverged at {}: choice {} of {}'
                                   .format(label, choice, len(options)))
        else:
            choice = 0
        self.points.append((label, len(options), choice, dev))
        opt = options[choice]
        self.trace.append((label, _short(opt)))
        return opt

    def flag(self, label, dev=True):
        return self.pick(label, [False, True], dev=dev)

    # -- observations -----------------------------------------------------
    def op(self, n=1):
        """Count operations (transitions) performed on the implementation."""
        self.ops += n

    def obs(self, *things):
        """An observed outcome; used only to count distinct behaviours."""
        self.outcomes.append(_digest(things))

    def state(self, *things):
        self.states.append(_digest(things))

    # -- oracles ----------------------------------------------------------
    def fail(self, key, msg, abort=False, **details):
        self.violations.append({'key': key, 'msg': msg,
                                'details': _jsonable(details)})
        if abort:
            raise Abort()

    def expect(self, cond, key, msg, abort=False, **details):
        self.evaluations += 1
        if not cond:
            self.fail(key, msg, abort=abort, **details)
        return cond

    def equal(self, actual, expected, key, msg, abort=False, **details):
        ok = False
        try:
            ok = bool(actual == expected)
        except Exception:
            ok = False
        return self.expect(ok, key, msg, abort=abort, actual=repr(actual)[:400],
                           expected=repr(expected)[:400], **details)

    def close(self, actual, expected, key, msg, rtol=1e-7, atol=1e-9,
              shape=True, abort=False, **details):
        """Numerical agreement; ``shape`` demands identical shapes."""
        try:
            act = np.asarray(actual, dtype=float)
            exp = np.asarray(expected, dtype=float)
            if shape:
                ok = act.shape == exp.shape
            else:
                act, exp = np.broadcast_arrays(act, exp)
                ok = True
            ok = ok and bool(np.allclose(act, exp, rtol=rtol, atol=atol,
                                         equal_nan=True))
        except Exception as err:
            return self.expect(False, key, '{} ({}: {})'.format(
                msg, type(err).__name__, err), abort=abort,
                actual=repr(actual)[:400], expected=repr(expected)[:400],
                **details)
        return self.expect(ok, key, msg, abort=abort, actual=_jsonable(act),
                           expected=_jsonable(exp), **details)

    def raises(self, exc, func, key, msg):
        """``func`` must be refused with one of ``exc``."""
        self.evaluations += 1
        try:
            res = func()
        except exc as err:
            self.obs('refused', type(err).__name__)
            return True
        except Abort:
            raise
        except Exception as err:
            self.fail(key, '{}: raised {} instead'.format(msg, type(err).__name__),
                      error=str(err))
            return False
        self.fail(key, '{}: was accepted'.format(msg), result=repr(res)[:300])
        return False


def _short(opt):
    r = getattr(opt, 'mc_name', None) or repr(opt)
    return r if len(r) < 160 else r[:157] + '...'


def _canon(o):
    if isinstance(o, (float, np.floating)):
        return '{:.6g}'.format(float(o))
    if isinstance(o, np.ndarray):
        return (o.shape, tuple(_canon(v) for v in np.ravel(o)[:64].tolist()))
    if isinstance(o, (list, tuple)):
        return tuple(_canon(v) for v in o)
    if isinstance(o, dict):
        return tuple((str(k), _canon(v)) for k, v in o.items())
    return str(o)


def _digest(things):
    return hashlib.blake2b(repr(_canon(things)).encode(), digest_size=8).digest()


def _alarm(signum, frame):
    raise Hang()


def execute(body, prefix, bound, limit=120):
    """Run one path.  Returns (ch, skipped)."""
    ch = Ch(prefix, bound)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    skipped = False
    try:
        body(ch)
    except Abort:
        pass
    except Skip:
        skipped = True
    except Hang:
        ch.fail('hang', 'the execution did not terminate within {} s'.format(limit))
    except RuntimeError as err:
        if 'Replay diverged' in str(err):
            raise
        _unexpected(ch, err)
    except Exception as err:
        _unexpected(ch, err)
    finally:
        signal.alarm(0)
    return ch, skipped


def _unexpected(ch, err):
    tb = traceback.extract_tb(err.__traceback__)
    where = [f for f in tb if '/symfit/' in f.filename]
    where = where[-1].name if where else tb[-1].name
    ch.fail('exception:{}:{}'.format(type(err).__name__, where),
            'unexpected {}: {}'.format(type(err).__name__, str(err)[:300]),
            traceback=''.join(traceback.format_exception(
                type(err), err, err.__traceback__))[-3000:])


def children(ch, start, bound):
    """Prefixes of the unexplored siblings behind position ``start``."""
    out = []
    cost = sum(1 for _, _, c, dev in ch.points[:start] if dev and c)
    for i in range(start, len(ch.points)):
        label, n, chosen, dev = ch.points[i]
        extra = 1 if dev else 0
        if cost + extra <= bound:
            head = [p[2] for p in ch.points[:i]]
            for alt in range(chosen + 1, n):
                out.append(head + [alt])
        if dev and chosen:
            cost += 1
    return out


def order(v):
    return (v['cost'], sum(v['choices']), len(v['choices']), v['choices'])


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.skipped = 0
        self.transitions = 0
        self.ops = 0
        self.evaluations = 0
        self.outcomes = set()
        self.states = set()
        self.violations = {}     # key -> the simplest path
        self.violation_count = collections.Counter()
        self.samples = []
        self.max_len = 0
        self.costs = collections.Counter()

    def add(self, ch, skipped, prefix_len):
        if skipped:
            self.skipped += 1
            return
        self.paths += 1
        self.costs[ch.cost] += 1
        # Edges of the choice tree which are new in this path, plus operations
        self.transitions += max(len(ch.points) - max(prefix_len - 1, 0), 0)
        self.ops += ch.ops
        self.evaluations += ch.evaluations
        self.outcomes.update(ch.outcomes)
        self.max_len = max(self.max_len, len(ch.points))
        if ch.states:
            self.states.update(ch.states)
        for v in ch.violations:
            v = dict(v)
            v['choices'] = [p[2] for p in ch.points]
            v['trace'] = ch.trace
            v['cost'] = ch.cost
            self._keep(v)
        if len(self.samples) < 3:
            self.samples.append({'choices': ch.trace, 'oracle_comparisons': ch.evaluations})

    def _keep(self, v):
        self.violation_count[v['key']] += 1
        old = self.violations.get(v['key'])
        if old is None or order(v) < order(old):
            self.violations[v['key']] = v

    def merge(self, o):
        self.paths += o.paths
        self.skipped += o.skipped
        self.transitions += o.transitions
        self.ops += o.ops
        self.evaluations += o.evaluations
        self.outcomes |= o.outcomes
        self.states |= o.states
        self.costs.update(o.costs)
        counts = self.violation_count + o.violation_count
        for v in o.violations.values():
            self._keep(v)
        self.violation_count = counts
        if len(self.samples) < 6:
            self.samples.extend(o.samples[:6 - len(self.samples)])
        self.max_len = max(self.max_len, o.max_len)


_BODIES = None


def _work(args):
    """Explore a few prefixes depth first for a short while."""
    name, prefixes, bound, slice_s = args
    body = _BODIES[name]
    stats = Stats()
    stack = list(prefixes)[::-1]
    t0 = time.time()
    while stack and time.time() - t0 < slice_s:
        prefix = stack.pop()
        ch, skipped = execute(body, prefix, bound)
        stats.add(ch, skipped, len(prefix))
        if not skipped:
            stack.extend(children(ch, len(prefix), bound)[::-1])
        else:
            # A skipped path can still have unskipped siblings
            stack.extend(children(ch, len(prefix), bound)[::-1])
    return name, stats, stack, time.time() - t0


def explore(bodies, bounds, budget_s, jobs=None, max_violations=200, known=()):
    """
    Explore every body in ``bodies`` (name -> function) completely within its
    deviation bound.  Returns (per-body Stats, exhausted: name -> bool).
    """
    global _BODIES
    _BODIES = bodies
    jobs = jobs or int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    t0 = time.time()
    total = {name: Stats() for name in bodies}
    pending = collections.deque((name, []) for name in bodies)
    complete = True
    if jobs == 1:
        while pending and time.time() - t0 < budget_s:
            name, prefix = pending.popleft()
            _, st, left, _ = _work((name, [prefix], bounds[name], 1.0))
            total[name].merge(st)
            pending.extendleft((name, p) for p in left[::-1])
        complete = not pending
        left_names = {n for n, _ in pending}
    else:
        ctx = multiprocessing.get_context('fork')
        # Keep forked children away from the parent's stdio buffers
        sys.stdout.flush()
        sys.stderr.flush()
        pool = ctx.Pool(jobs, maxtasksperchild=None)
        inflight = []
        try:
            while pending or inflight:
                over = time.time() - t0 > budget_s
                nviol = sum(n for s in total.values()
                            for k, n in s.violation_count.items() if k not in known)
                if over or nviol > max_violations:
                    if not inflight:
                        break
                else:
                    while pending and len(inflight) < jobs * 2:
                        name, p = pending.popleft()
                        batch = [p]
                        # hand out more when there is plenty of work
                        while (len(pending) > jobs * 16 and len(batch) < 16 and
                               pending[0][0] == name):
                            batch.append(pending.popleft()[1])
                        inflight.append(pool.apply_async(
                            _work, ((name, batch, bounds[name], 0.4),)))
                done = [r for r in inflight if r.ready()]
                if not done:
                    time.sleep(0.003)
                    if over and time.time() - t0 > budget_s + 150:
                        break
                    continue
                for r in done:
                    inflight.remove(r)
                    name, st, left, _ = r.get()
                    total[name].merge(st)
                    for p in left:
                        pending.append((name, p))
        finally:
            pool.terminate()
            pool.join()
        left_names = {n for n, _ in pending}
        complete = not pending and not inflight
        if inflight:
            left_names |= set(bodies)
    return total, {n: (n not in left_names) for n in bodies}
