"""Helpers shared by the checks."""
from fractions import Fraction

from . import api, dress, gen, oracle as O
from .engine import Case

LINEAR, AREAL = O.LINEAR, O.AREAL


def name_of(pair):
    return api.function_name(*pair)


def names(pairs):
    return [name_of(pair) for pair in pairs]


def expected_relation(t, test, g, goal):
    return (O.locate(g, goal, test) if t == 'point'
            else O.relate(t, test, g, goal))


def box(kind, geometry):
    points = gen.vertices_of(kind, geometry)
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return min(xs), max(xs), min(ys), max(ys)


def boxes_meet(t, test, g, goal):
    a, b, c, d = box(t, test)
    e, f, h, i = box(g, goal)
    return a <= f and e <= b and c <= i and h <= d


def size_of(kind, geometry):
    return len(repr(geometry))


def literal(value):
    """plain data with readable rationals"""
    if isinstance(value, (list, tuple)):
        return type(value)(literal(v) for v in value)
    if isinstance(value, Fraction):
        return (value.numerator if value.denominator == 1
                else f'{value.numerator}/{value.denominator}')
    return value


def describe(t, test, g, goal, limit=1500):
    text = f'{name_of((t, g))}({literal(test)}, {literal(goal)})'
    return text if len(text) <= limit else text[:limit] + '...'


def pick_pair(rng, pairs, weights=None):
    return rng.choices(pairs, weights)[0] if weights else rng.choice(pairs)


def random_input(rng, pairs, case, weights=None, family=None):
    """(t, test, g, goal) on the integer grid, None when nothing was made"""
    t, g = pick_pair(rng, pairs, weights)
    chosen = family or gen.random_family(rng, t, g)
    pair = gen.generate(rng, chosen, t, g)
    if pair is None:
        case.skipped = True
        return None
    test, goal = pair
    case.count('family', chosen)
    case.key = (t, g, test, goal)
    case.size = size_of(t, test) + size_of(g, goal)
    case.nontrivial = boxes_meet(t, test, g, goal)
    return t, test, g, goal


def dressed_objects(t, test, g, goal, dressing, context=None):
    make = dress.number_maker(dressing)
    context = context or api.DEFAULT_CONTEXT
    return (api.build(t, dress.apply(dressing, t, test), context, make),
            api.build(g, dress.apply(dressing, g, goal), context, make),
            make.used)


def call_plain(t, test, g, goal):
    """plain numbers, default context"""
    return api.call(t, api.build(t, test, number=lambda v: v), g,
                    api.build(g, goal, number=lambda v: v))


def inconclusive(result):
    return result.startswith('!inconclusive')


# ------------------------------------------------- spellings of one point set

def split_segments(rng, segments, probability=0.5):
    """cuts segments at exact interior points"""
    result = []
    for start, end in segments:
        if rng.random() < probability:
            n = rng.randint(2, 5)
            k = rng.randint(1, n - 1)
            middle = tuple(dress.simplify(Fraction(s) + Fraction((e - s) * k,
                                                                 n))
                           for s, e in zip(start, end))
            result += [(start, middle), (middle, end)]
        else:
            result.append((start, end))
    return result


def merge_some(rng, segments):
    return gen.merge_lines(rng, segments, rng.choice((0.5, 1)))


def spellings(kind, geometry):
    """kinds able to spell the same point set"""
    if kind == 'segment':
        return ['segment', 'multisegment']
    if kind == 'contour':
        return ['contour', 'multisegment']
    if kind == 'multisegment':
        return ['multisegment']
    if kind == 'region':
        return list(AREAL)
    if kind == 'multiregion':
        return (list(AREAL) if len(geometry) == 1
                else ['multiregion', 'multipolygon'])
    if kind == 'polygon':
        return (['polygon', 'multipolygon'] if geometry[1] else list(AREAL))
    if kind == 'multipolygon':
        result = ['multipolygon']
        if len(geometry) == 1:
            result.append('polygon')
        if (not any(holes for _, holes in geometry)):
            result.append('multiregion')
            if len(geometry) == 1:
                result.append('region')
        return result
    return [kind]


def spell(rng, kind, geometry, target):
    """the point set as another kind, spelled at random"""
    if target == kind:
        result = geometry
        if kind == 'multisegment' and rng.random() < 0.5:
            result = (split_segments(rng, geometry) if rng.random() < 0.6
                      else merge_some(rng, geometry))
    elif target == 'multisegment':
        result = (split_segments(rng, [geometry], 1) if kind == 'segment'
                  else split_segments(rng, O.ring_edges(geometry),
                                      rng.choice((0, 0.3))))
    else:
        polygons = {'region': lambda: [(geometry, [])],
                    'multiregion': lambda: [(c, []) for c in geometry],
                    'polygon': lambda: [geometry],
                    'multipolygon': lambda: list(geometry)}[kind]()
        result = {'region': lambda: polygons[0][0],
                  'multiregion': lambda: [b for b, _ in polygons],
                  'polygon': lambda: polygons[0],
                  'multipolygon': lambda: polygons}[target]()
    return gen.redress(rng, target, result)


def admissible(t, test, g, goal):
    return ((t, g) in api.FUNCTIONS
            and not (t == 'segment' and g == 'multisegment'
                     and len(goal) < 2))
