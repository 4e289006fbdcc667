"""The context given by the caller is the one which works."""
import contextvars
from fractions import Fraction

from . import api, dress, gen
from .base import (Case, admissible, describe, expected_relation,
                   inconclusive, name_of, names, random_input)


# ------------------------------------------- the caller's own geometry classes
# what ground.hints asks for and nothing else, no inheritance from ground

class OwnPoint:
    __slots__ = 'first', 'second'

    def __init__(self, x, y):
        self.first, self.second = x, y

    x = property(lambda self: self.first)
    y = property(lambda self: self.second)

    def _key(self, other):
        if type(other) is not OwnPoint:
            raise TypeError(f'not a point of the context: {other!r}')
        return other.first, other.second

    def __eq__(self, other):
        return type(other) is OwnPoint and (
                (self.first, self.second) == (other.first, other.second))

    def __hash__(self):
        return hash((self.first, self.second))

    def __lt__(self, other):
        return (self.first, self.second) < self._key(other)

    def __le__(self, other):
        return (self.first, self.second) <= self._key(other)

    def __gt__(self, other):
        return (self.first, self.second) > self._key(other)

    def __ge__(self, other):
        return (self.first, self.second) >= self._key(other)

    def __repr__(self):
        return f'OwnPoint({self.first!r}, {self.second!r})'


def own_class(name, *fields):
    """immutable-looking class, positional or keyword construction"""
    slots = tuple('_' + field for field in fields)

    def __init__(self, *args, **kwargs):
        values = dict(zip(fields, args), **kwargs)
        if len(args) > len(fields) or sorted(values) != sorted(fields):
            raise TypeError(f'{name}{fields} got {args} {kwargs}')
        for field in fields:
            setattr(self, '_' + field, values[field])

    body = {'__slots__': slots, '__init__': __init__}
    for field in fields:
        body[field] = property(lambda self, key='_' + field:
                               getattr(self, key))
    return type(name, (), body)


OwnSegment = own_class('OwnSegment', 'start', 'end')
OwnMultisegment = own_class('OwnMultisegment', 'segments')
OwnContour = own_class('OwnContour', 'vertices')
OwnPolygon = own_class('OwnPolygon', 'border', 'holes')
OwnMultipolygon = own_class('OwnMultipolygon', 'polygons')
OwnBox = own_class('OwnBox', 'min_x', 'max_x', 'min_y', 'max_y')
OWN = dict(box_cls=OwnBox, contour_cls=OwnContour,
           multipolygon_cls=OwnMultipolygon,
           multisegment_cls=OwnMultisegment, point_cls=OwnPoint,
           polygon_cls=OwnPolygon, segment_cls=OwnSegment)


class AmbientContextUsed(Exception):
    pass


class WatchedContext(api.Context):
    """counts uses of its members"""
    __slots__ = ('_observed_uses',)

    def __init__(self, **kwargs):
        self._observed_uses = {}
        super().__init__(**kwargs)

    def __getattribute__(self, name):
        if not name.startswith('_'):
            uses = self._observed_uses
            uses[name] = uses.get(name, 0) + 1
        return object.__getattribute__(self, name)


class ForbiddenContext(api.Context):
    """the ambient context while an explicit one is given"""
    __slots__ = ()

    def __getattribute__(self, name):
        if not name.startswith('__'):
            raise AmbientContextUsed(name)
        return object.__getattribute__(self, name)


FORBIDDEN = ForbiddenContext()


def uses_of(context):
    return sum(context._observed_uses.values())


class ContextCheck:
    assumptions = ('inputs satisfy the documented preconditions of '
                   'ground.hints', 'geometries are made of classes of the '
                   'context in use')
    rule = ('a pair of geometries made of classes of a context (own classes '
            'with the members of ground.hints only, or those of ground; '
            'exact or plain arithmetic, the latter on int and Fraction '
            'coordinates) given explicitly while the ambient context raises '
            'on any use, given as the ambient one, and as None; plus float '
            'pairs on which plain and exact arithmetic differ; non-trivial: '
            'the context was used by the call; distinct: by the pair and '
            'the way')

    def __init__(self, property_id, quick, thorough):
        self.property = property_id
        self.quick, self.thorough = quick, thorough
        self.functions = names(api.ALL_PAIRS)

    def case(self, rng, index, tier):
        case = Case()
        made = random_input(rng, api.ALL_PAIRS, case)
        if made is None:
            return case
        t, test, g, goal = made
        if rng.random() < 0.15:
            self.plain_floats(rng, case, t, test, g, goal)
            return case
        own = rng.random() < 0.7
        mode = rng.choice((api.Mode.EXACT, api.Mode.PLAIN))
        dressing = dress.random_dressing(rng)
        if mode is api.Mode.PLAIN and dressing['number'] in ('float',
                                                             'mixed'):
            dressing['number'] = rng.choice(('int', 'cfraction', 'fraction'))
        explicit = WatchedContext(mode=mode, **(OWN if own else {}))
        ambient = WatchedContext(mode=mode, **(OWN if own else {}))
        make = dress.number_maker(dressing)
        sequence = rng.choice((list, tuple))
        built = (api.build(t, dress.apply(dressing, t, test), explicit, make,
                           sequence),
                 api.build(g, dress.apply(dressing, g, goal), explicit, make,
                           sequence))
        explicit._observed_uses.clear()
        expected = expected_relation(t, test, g, goal)
        answers = {
            'explicit': self.call(FORBIDDEN, t, built[0], g, built[1],
                                  context=explicit),
            'ambient': self.call(ambient, t, built[0], g, built[1]),
            'None': self.call(ambient, t, built[0], g, built[1],
                              context=None)}
        if any(inconclusive(a) for a in answers.values()):
            case.skipped = True
            return case
        name = name_of((t, g))
        case.count('function', name, 3)
        case.count('classes', 'own' if own else 'ground')
        case.count('mode', mode.name)
        used, ambient_used = uses_of(explicit), uses_of(ambient)
        case.count('context used by', name if used else 'none')
        for member in explicit._observed_uses:
            case.count('members used', member)
        case.nontrivial = used > 0
        case.key = (case.key, own, mode.name)
        case.sample = {'call': describe(t, test, g, goal, 300),
                       'answers': answers, 'classes': 'own' if own else
                       'ground', 'mode': mode.name,
                       'members used': sorted(explicit._observed_uses)}
        text = describe(t, test, g, goal)
        for way, got in answers.items():
            if got != expected:
                case.fail(f'{text} gives {got} with {mode.name} context of '
                          f'{"own" if own else "ground"} classes given as '
                          f'{way}, the point sets are in relation '
                          f'{expected}')
                return case
        if used and not ambient_used:
            case.fail(f'{text} does not use the ambient context')
        return case

    def call(self, ambient, t, test, g, goal, **kwargs):
        """in a copy of the caller's variables with its own ambient context"""

        def run():
            api.set_context(ambient)
            result = api.outcome(api.FUNCTIONS[t, g], test, goal, **kwargs)
            return result, api.get_context()

        if (t, g) not in api.FUNCTIONS:
            return '!missing function'
        result, left = contextvars.copy_context().run(run)
        return result if left is ambient else '!ambient context replaced'

    def plain_floats(self, rng, case, t, test, g, goal):
        """the arithmetic is the one of the context, right or wrong"""
        scale = rng.choice((0.1, 1 / 3, 1e-3, 0.7))
        angle = rng.choice(((0.6, 0.8), (0.1, 0.3), (1.0, 0.0)))
        offset = rng.choice((0.0, 0.1, 1e6, 12345.678))

        def f(p):
            x, y = p[0] * scale, p[1] * scale
            return (x * angle[0] - y * angle[1] + offset,
                    x * angle[1] + y * angle[0] + offset)

        plain = WatchedContext(mode=api.Mode.PLAIN)
        exact = WatchedContext(mode=api.Mode.EXACT)
        built = (api.build(t, gen.transform(t, test, f), number=lambda v: v),
                 api.build(g, gen.transform(g, goal, f), number=lambda v: v))
        case.count('function', name_of((t, g)), 4)
        case.count('mode', 'PLAIN against EXACT floats')
        answers = {}
        for name, context, other in (('plain', plain, exact),
                                     ('exact', exact, plain)):
            # rounded points may be no valid geometry, so any outcome will
            # do, the same one for each way of giving the context
            explicit = self.call(FORBIDDEN, t, built[0], g, built[1],
                                 context=context)
            crossed = self.call(other, t, built[0], g, built[1],
                                context=context)
            ambient = self.call(context, t, built[0], g, built[1])
            if any(inconclusive(a) or a.startswith('!no result')
                   for a in (explicit, crossed, ambient)):
                case.skipped = True
                return
            answers[name] = explicit
            if not explicit == crossed == ambient:
                case.fail(f'{name_of((t, g))}{built}: {name} context gives '
                          f'{explicit} explicitly, {crossed} over another '
                          f'ambient context, {ambient} as the ambient one')
                return
        case.count('arithmetic', 'differs' if answers['plain']
                   != answers['exact'] else 'agrees')
        case.nontrivial = uses_of(plain) > 0
        case.key = (case.key, 'floats', scale, angle, offset)
        case.sample = {'call': describe(t, test, g, goal, 300),
                       'answers': answers}
