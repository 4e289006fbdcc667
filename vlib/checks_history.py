"""Purity: histories of calls against a stateless sequential model.

A history is a sequence of operations on a pool of live, mutable geometry
objects: calls, in-place rewrites by the caller, drops and rebuilds.  The model
keeps plain data only; whatever happened before, each answer has to be the one
of the current contents, and no call may change an object."""
import contextlib
import gc
import io
import sys
import threading

from . import api, dress, gen
from .checks_context import OWN
from .base import (AREAL, LINEAR, Case, admissible, box, describe,
                   expected_relation, inconclusive, name_of, names,
                   random_input, size_of, spell)


class Cell:
    """a live object and its model"""

    def __init__(self, kind, geometry, sequence=list, context=None):
        self.kind, self.geometry = kind, geometry
        self.sequence, self.context = sequence, context
        self.value = self.build(geometry, sequence)

    def build(self, geometry, sequence=list):
        return api.build(self.kind, geometry,
                         self.context or api.DEFAULT_CONTEXT,
                         lambda v: v, sequence)


# contexts of one process; None is for the ambient one
CONTEXTS = (None, None, api.Context(mode=api.Mode.PLAIN),
            api.Context(mode=api.Mode.EXACT),
            api.Context(mode=api.Mode.EXACT, **OWN))


class Interrupted(Exception):
    """thrown in the middle of a call"""


class FaultyContext(api.Context):
    """gives up at some moment"""
    __slots__ = ('_left',)

    def __init__(self, left, **kwargs):
        self._left = left
        super().__init__(**kwargs)

    def __getattribute__(self, name):
        value = object.__getattribute__(self, name)
        if name.startswith('_') or not callable(value) or name.endswith(
                '_cls'):
            return value

        def watched(*args, **kwargs):
            self._left -= 1
            if self._left < 0:
                raise Interrupted
            return value(*args, **kwargs)

        return watched


def rewrite(cell, geometry):
    """the caller changes the contents of lists of a live geometry"""
    fresh = cell.build(geometry)
    value, kind = cell.value, cell.kind
    if cell.sequence is not list or kind in ('point', 'segment'):
        cell.value = fresh
    elif kind in ('contour', 'region'):
        value.vertices[:] = fresh.vertices
    elif kind == 'multisegment':
        value.segments[:] = fresh.segments
    elif kind == 'multiregion':
        rewrite_contours(value, fresh)
    elif kind == 'polygon':
        value.border.vertices[:] = fresh.border.vertices
        rewrite_contours(value.holes, fresh.holes)
    else:
        value.polygons[:] = fresh.polygons
    cell.geometry = geometry


def rewrite_contours(old, new):
    for own, other in zip(old, new):
        own.vertices[:] = other.vertices
    del old[len(new):]
    old.extend(new[len(old):])


class HistoryCheck:
    assumptions = ('inputs satisfy the documented preconditions of '
                   'ground.hints at the moment of each call',
                   'the schedule of threads is chosen by the interpreter '
                   '(switch interval 1 us), so it is not replayed exactly')
    rule = ('histories of 8-24 operations (call, call again, call with the '
            'same objects on both sides, call with parts of the goal, '
            'call stopped by an exception of its context, '
            'in-place rewrite of a live geometry, drop and rebuild, other '
            'calls in between) on pools of live objects made of lists or '
            'tuples, of classes of several contexts, and runs of 2-6 threads '
            'calling on shared objects in these contexts; '
            'every answer is compared with the model, every argument with '
            'its snapshot; non-trivial: at least two different answers '
            'were observed; distinct: by the operations')
    chunk = 20

    def __init__(self, property_id, quick, thorough):
        self.property = property_id
        self.quick, self.thorough = quick, thorough
        self.functions = names(api.ALL_PAIRS)

    def case(self, rng, index, tier):
        case = Case()
        pools = []
        for _ in range(rng.randint(2, 4)):
            probe = Case()
            pair = api.ALL_PAIRS[(index + len(pools) * 7)
                                 % len(api.ALL_PAIRS)]
            for _ in range(rng.randint(2, 3)):
                made = random_input(rng, [pair], probe)
                if made is not None:
                    pools.append(made)
        if len(pools) < 2:
            case.skipped = True
            return case
        case.size = sum(size_of(t, a) + size_of(g, b)
                        for t, a, g, b in pools)
        if index % 6 == 5:
            self.concurrent(rng, case, pools)
        else:
            self.sequential(rng, case, pools)
        return case

    # ------------------------------------------------------------ sequential

    def sequential(self, rng, case, pools):
        live = [self.fresh(rng, made) for made in pools]
        log = []
        answers = set()
        output = io.StringIO()
        with contextlib.redirect_stdout(output), \
                contextlib.redirect_stderr(output):
            for _ in range(rng.randint(8, 24)):
                if case.violation is not None or case.skipped:
                    break
                i = rng.randrange(len(live))
                test, goal = live[i]
                operation = rng.choice(('call', 'call', 'again', 'alias',
                                        'part', 'rewrite', 'rewrite',
                                        'fault',
                                        'rebuild', 'swap'))
                log.append((operation, i))
                case.count('operation', operation)
                if operation == 'again':
                    for _ in range(2):
                        self.call(case, log, answers, test, goal)
                elif operation == 'alias':
                    if ((goal.kind, goal.kind) in api.FUNCTIONS
                            and goal.kind != 'point'):
                        self.call(case, log, answers, goal, goal)
                elif operation == 'fault':
                    self.interrupt(rng, case, test, goal)
                    self.call(case, log, answers, test, goal)
                elif operation == 'part':
                    self.call_part(rng, case, log, answers, goal)
                elif operation == 'rewrite':
                    donors = [m for m in pools
                              if m[0] == test.kind and m[2] == goal.kind]
                    donor = rng.choice(donors)
                    mode = rng.randint(0, 2)
                    if mode != 1:
                        rewrite(test, gen.redress(rng, test.kind, donor[1]))
                    if mode != 0:
                        rewrite(goal, gen.redress(rng, goal.kind, donor[3]))
                    self.call(case, log, answers, test, goal)
                elif operation == 'rebuild':
                    donors = [m for m in pools
                              if m[0] == test.kind and m[2] == goal.kind]
                    live[i] = test = goal = None
                    if rng.random() < 0.2:
                        gc.collect()
                    live[i] = test, goal = self.fresh(rng,
                                                      rng.choice(donors))
                    self.call(case, log, answers, test, goal)
                elif operation == 'swap':
                    # an object of another pair in the same role
                    others = [b for _, b in live
                              if b.kind == goal.kind
                              and b.context is goal.context]
                    other = rng.choice(others)
                    self.call(case, log, answers, test, other)
                else:
                    self.call(case, log, answers, test, goal)
        if output.getvalue():
            case.fail(f'calls wrote {output.getvalue()[:200]!r}')
        case.key = (log, pools)
        case.nontrivial = len(answers) > 1
        case.sample = {'operations': [f'{o} {i}' for o, i in log],
                       'pairs': [name_of((t, g)) for t, _, g, _ in pools],
                       'answers': sorted(answers)}

    def fresh(self, rng, made):
        t, test, g, goal = made
        sequence = rng.choice((list, list, tuple))
        context = rng.choice(CONTEXTS)
        return (Cell(t, test, sequence, context),
                Cell(g, goal, sequence, context))

    def call(self, case, log, answers, test, goal):
        if case.violation is not None or not admissible(
                test.kind, test.geometry, goal.kind, goal.geometry):
            return
        before = (api.snapshot(test.kind, test.value),
                  api.snapshot(goal.kind, goal.value))
        got = api.call(test.kind, test.value, goal.kind, goal.value,
                       goal.context)
        if inconclusive(got):
            case.skipped = True
            return
        after = (api.snapshot(test.kind, test.value),
                 api.snapshot(goal.kind, goal.value))
        case.count('function', name_of((test.kind, goal.kind)))
        case.count('calls', 'total')
        answers.add(got)
        text = describe(test.kind, test.geometry, goal.kind, goal.geometry)
        if before != after:
            case.fail(f'{text} changed its arguments', operations=log,
                      before=before, after=after)
            return
        expected = expected_relation(test.kind, test.geometry, goal.kind,
                                     goal.geometry)
        if got != expected:
            case.fail(f'{text} gives {got} after the operations {log}, the '
                      f'contents are in relation {expected}',
                      operations=log)

    def interrupt(self, rng, case, test, goal):
        """an exception of the context leaves nothing behind"""
        context = goal.context or api.DEFAULT_CONTEXT
        own = OWN if context.point_cls is OWN['point_cls'] else {}
        faulty = FaultyContext(int(2 ** rng.uniform(0, 7)) - 1,
                               mode=context.mode, **own)
        before = (api.snapshot(test.kind, test.value),
                  api.snapshot(goal.kind, goal.value))
        got = api.call(test.kind, test.value, goal.kind, goal.value, faulty)
        case.count('interrupted', got.startswith('!Interrupted'))
        after = (api.snapshot(test.kind, test.value),
                 api.snapshot(goal.kind, goal.value))
        if before != after:
            case.fail(f'{describe(test.kind, test.geometry, goal.kind, goal.geometry)} '
                      f'interrupted by an exception changed its arguments')

    def call_part(self, rng, case, log, answers, goal):
        """a part of the goal, the very same object, against the goal"""
        value, kind, geometry = goal.value, goal.kind, goal.geometry
        if kind == 'polygon':
            part, own = 'region', (value.border, geometry[0])
        elif kind == 'multipolygon':
            i = rng.randrange(len(geometry))
            part, own = 'polygon', (value.polygons[i], geometry[i])
        elif kind == 'multiregion':
            i = rng.randrange(len(geometry))
            part, own = 'region', (value[i], geometry[i])
        elif kind == 'multisegment':
            i = rng.randrange(len(geometry))
            part, own = 'segment', (value.segments[i], geometry[i])
        elif kind == 'region':
            part, own = 'contour', (value, geometry)
        elif kind == 'contour':
            part, own = 'point', (value.vertices[0], geometry[0])
        else:
            return
        cell = Cell.__new__(Cell)
        cell.kind, cell.sequence = part, goal.sequence
        cell.context = goal.context
        cell.value, cell.geometry = own
        self.call(case, log, answers, cell, goal)

    # ------------------------------------------------------------ concurrent

    def concurrent(self, rng, case, pools):
        tasks = []
        for made in pools:
            test, goal = self.fresh(rng, made)
            t, a, g, b = made
            if not admissible(t, a, g, b):
                continue
            tasks.append((test, goal, expected_relation(t, a, g, b),
                          api.snapshot(t, test.value),
                          api.snapshot(g, goal.value)))
            if (g, g) in api.FUNCTIONS:
                tasks.append((goal, goal, expected_relation(g, b, g, b),
                              tasks[-1][4], tasks[-1][4]))
        if not tasks:
            case.skipped = True
            return
        count = rng.randint(2, 6)
        rounds = rng.randint(2, 4)
        orders = []
        for _ in range(count):
            order = [i for i in range(len(tasks)) for _ in range(rounds)]
            rng.shuffle(order)
            orders.append(order)
        barrier = threading.Barrier(count)
        records = [[] for _ in range(count)]

        def work(k):
            barrier.wait(60)
            for i in orders[k]:
                test, goal = tasks[i][:2]
                try:
                    result = api.FUNCTIONS[test.kind, goal.kind](
                            test.value, goal.value, context=goal.context)
                    got = getattr(result, 'name', repr(result))
                except Exception as error:
                    got = f'!{type(error).__name__}: {error}'[:200]
                records[k].append((i, got))

        threads = [threading.Thread(target=work, args=(k,), daemon=True)
                   for k in range(count)]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join(120)
        finally:
            sys.setswitchinterval(interval)
        if any(thread.is_alive() for thread in threads):
            case.skipped = True
            return
        case.key = (count, orders, pools)
        answers = set()
        # how often neighbouring calls of the schedule belong to different
        # threads is the interpreter's choice
        case.count('operation', 'concurrent', sum(map(len, records)))
        case.count('threads', count)
        for k, record in enumerate(records):
            for i, got in record:
                test, goal, expected, *_ = tasks[i]
                answers.add(got)
                case.count('function', name_of((test.kind, goal.kind)))
                case.count('calls', 'total')
                if got != expected:
                    case.fail(f'{describe(test.kind, test.geometry, goal.kind, goal.geometry)} '
                              f'gives {got} in thread {k} of {count}, the '
                              f'point sets are in relation {expected}')
        for test, goal, _, before, before_goal in tasks:
            if (api.snapshot(test.kind, test.value) != before
                    or api.snapshot(goal.kind, goal.value) != before_goal):
                case.fail('concurrent calls changed '
                          + describe(test.kind, test.geometry, goal.kind,
                                     goal.geometry))
        case.nontrivial = len(answers) > 1
        case.sample = {'threads': count, 'calls': sum(map(len, records)),
                       'answers': sorted(answers)}
