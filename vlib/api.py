"""Boundary with the code under test: building geometries, calling, watching.

Everything is observed at the public boundary (``orient.planar``)."""
import importlib
import os
import signal
import sys

sys.dont_write_bytecode = True
# never read stale byte code of the tree under test
sys.pycache_prefix = '/nonexistent-pycache'
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

planar = importlib.import_module('orient.planar')
if not os.path.realpath(planar.__file__).startswith(
        os.path.realpath(REPO) + os.sep):
    raise SystemExit(f'orient imported from {planar.__file__}, not {REPO}')

from ground.base import (Context, Location, Mode, Relation,  # noqa: E402
                         get_context, set_context)

LINEAR = ('segment', 'multisegment', 'contour')
AREAL = ('region', 'multiregion', 'polygon', 'multipolygon')
KINDS = ('point',) + LINEAR + AREAL

PAIRS = [(t, g) for t in KINDS for g in LINEAR + AREAL
         if KINDS.index(t) <= KINDS.index(g)]


def function_name(test_kind, goal_kind):
    return f'{test_kind}_in_{goal_kind}'


FUNCTIONS = {}
for _t, _g in PAIRS:
    _f = getattr(planar, function_name(_t, _g), None)
    if _f is not None:
        FUNCTIONS[_t, _g] = _f
EXPECTED_NAMES = {
    'point': LINEAR + AREAL,
    'segment': LINEAR + AREAL,
    'multisegment': ('multisegment', 'contour') + AREAL,
    'contour': ('contour',) + AREAL,
    'region': AREAL,
    'multiregion': ('multiregion', 'polygon', 'multipolygon'),
    'polygon': ('polygon', 'multipolygon'),
    'multipolygon': ('multipolygon',),
}
ALL_PAIRS = [(t, g) for t, goals in EXPECTED_NAMES.items() for g in goals]
MISSING = [function_name(t, g) for t, g in ALL_PAIRS
           if (t, g) not in FUNCTIONS]

DEFAULT_CONTEXT = get_context()


def build(kind, geometry, context=DEFAULT_CONTEXT, number=int,
          sequence=list):
    """plain data -> objects of the context; ``number`` maps coordinates"""
    point_cls = context.point_cls

    def point(p):
        return point_cls(number(p[0]), number(p[1]))

    def contour(vertices):
        return context.contour_cls(sequence([point(v) for v in vertices]))

    def polygon(p):
        return context.polygon_cls(contour(p[0]),
                                   sequence([contour(h) for h in p[1]]))

    if kind == 'point':
        return point(geometry)
    if kind == 'segment':
        return context.segment_cls(point(geometry[0]), point(geometry[1]))
    if kind == 'multisegment':
        return context.multisegment_cls(sequence([
            context.segment_cls(point(a), point(b)) for a, b in geometry]))
    if kind in ('contour', 'region'):
        return contour(geometry)
    if kind == 'multiregion':
        return sequence([contour(c) for c in geometry])
    if kind == 'polygon':
        return polygon(geometry)
    if kind == 'multipolygon':
        return context.multipolygon_cls(sequence([polygon(p)
                                                  for p in geometry]))
    raise ValueError(kind)


def snapshot(kind, value):
    """structure of a built geometry: identities and exact coordinates"""
    def point(p):
        return ('p', id(p), type(p.x), repr(p.x), type(p.y), repr(p.y))

    def contour(c):
        return ('c', id(c), id(c.vertices), [point(v) for v in c.vertices])

    def polygon(p):
        return ('g', id(p), contour(p.border), id(p.holes),
                [contour(h) for h in p.holes])

    if kind == 'point':
        return point(value)
    if kind == 'segment':
        return ('s', id(value), point(value.start), point(value.end))
    if kind == 'multisegment':
        return ('m', id(value), id(value.segments),
                [(id(s), point(s.start), point(s.end))
                 for s in value.segments])
    if kind in ('contour', 'region'):
        return contour(value)
    if kind == 'multiregion':
        return ('r', id(value), [contour(c) for c in value])
    if kind == 'polygon':
        return polygon(value)
    return ('M', id(value), id(value.polygons),
            [polygon(p) for p in value.polygons])


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang


HANG_SECONDS = 60
HANG_STEPS = 40_000_000
_alarm_ready = False


def _prepare_alarm():
    global _alarm_ready
    if not _alarm_ready:
        signal.signal(signal.SIGALRM, _on_alarm)
        _alarm_ready = True


def outcome(function, *args, steps=HANG_STEPS, **kwargs):
    """runs a call under a watchdog: name of the result or what went wrong"""
    _prepare_alarm()
    signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
    try:
        try:
            result = function(*args, **kwargs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        # wall clock decides nothing: repeat under a step budget
        made, _ = count_steps(function, *args, limit=steps, **kwargs)
        if made is None:
            return f'!no result within {steps} steps'
        return '!inconclusive: too slow'
    except RecursionError as error:
        return '!RecursionError'
    except Exception as error:
        return f'!{type(error).__name__}: {str(error)[:200]}'
    if isinstance(result, (Relation, Location)):
        return result.name
    return f'!returned {result!r:.80}'


def call(test_kind, test, goal_kind, goal, context=None, steps=HANG_STEPS):
    function = FUNCTIONS.get((test_kind, goal_kind))
    if function is None:
        return '!missing function'
    if context is None:
        return outcome(function, test, goal, steps=steps)
    return outcome(function, test, goal, steps=steps, context=context)


class StepLimit(BaseException):
    pass


def count_steps(function, *args, limit=None, **kwargs):
    """(steps, result): deterministic amount of executed Python work:
    function entries and taken jumps everywhere below the call"""
    monitoring = sys.monitoring
    tool = 4
    counter = [0]

    def bump(*_):
        counter[0] += 1
        if limit is not None and counter[0] > limit:
            raise StepLimit

    events = monitoring.events
    monitoring.use_tool_id(tool, 'verif')
    mask = events.PY_START | events.JUMP
    for event in (events.PY_START, events.JUMP):
        monitoring.register_callback(tool, event, bump)
    try:
        monitoring.set_events(tool, mask)
        try:
            result = function(*args, **kwargs)
        finally:
            monitoring.set_events(tool, 0)
    except StepLimit:
        return None, None
    finally:
        monitoring.free_tool_id(tool)
    return counter[0], result
