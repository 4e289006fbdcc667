"""Totality: every valid input gets an answer from the documented set."""
import sys
from fractions import Fraction

from . import api, dress, gen, oracle as O, shapes as S
from .base import (AREAL, LINEAR, Case, describe, dressed_objects,
                   expected_relation,
                   inconclusive, name_of, names, random_input)
from .checks_cost import LAYOUTS, drafted, LINKS, edges_count, scenario

PLACES = {'INTERIOR', 'BOUNDARY', 'EXTERIOR'}
LINEAR_LINEAR = {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COMPONENT',
                 'COMPOSITE', 'EQUAL'}
LINEAR_AREAL = {'DISJOINT', 'TOUCH', 'CROSS', 'COMPONENT', 'ENCLOSED',
                'WITHIN'}
AREAL_AREAL = {'DISJOINT', 'TOUCH', 'OVERLAP', 'COVER', 'ENCLOSES',
               'COMPOSITE', 'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'}


def vocabulary(t, g):
    if t == 'point':
        return PLACES - {'INTERIOR'} if g in LINEAR else PLACES
    if g in LINEAR:
        return LINEAR_LINEAR
    return LINEAR_AREAL if t in LINEAR else AREAL_AREAL


# exact integers times 2 ** -1074 are all floats
UNIT = 1074


def wild_axis(rng, count):
    """increasing floats of hostile sizes"""
    style = rng.randint(0, 5)
    values = set()
    while len(values) < count:
        if style == 0:
            values.add(rng.choice((-1, 1)) * 2.0 ** rng.randint(-1074, 1023))
        elif style == 1:
            values.add(rng.randint(-30, 30) * 5e-324)
        elif style == 2:
            # neighbouring floats
            base = rng.choice((1.0, 0.1, 1e16, 1 / 3))
            values.add(base + rng.randint(-40, 40) * 2.0 ** -52 * base)
        elif style == 3:
            values.add(rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300))
        elif style == 4:
            values.add(sys.float_info.max * rng.choice((1, -1))
                       * (1 - rng.randint(0, 50) * 2.0 ** -53))
        else:
            values.add(float(rng.randint(-8, 8)) + rng.choice(
                    (0.0, 2.0 ** -40, -2.0 ** -45)))
    return sorted(values)


class TotalityCheck:
    assumptions = ('inputs satisfy the documented preconditions of '
                   'ground.hints', 'a call which needs more than '
                   f'{api.HANG_STEPS} steps and 100000 per edge counts as '
                   'endless')
    rule = ('valid pairs of all functions in four workloads: float '
            'coordinates of hostile sizes (subnormals, neighbours, the '
            'largest ones) put on random pictures by monotone maps of the '
            'axes; very many edges (up to thousands: combs, spirals, saws, '
            'stacks, nests, convex rings; more than a thousand parts for '
            'every function); vertices of high degree; random '
            'pictures of all families; non-trivial: at least one contact or '
            'overlap, i.e. the answer is neither DISJOINT nor EXTERIOR; '
            'distinct: by the pair')
    chunk = 3

    def __init__(self, property_id, quick, thorough):
        self.property = property_id
        self.quick, self.thorough = quick, thorough
        self.functions = names(api.ALL_PAIRS)

    def case(self, rng, index, tier):
        case = Case()
        pair = api.ALL_PAIRS[index % len(api.ALL_PAIRS)]
        roll = rng.random()
        rounds = 1 if tier == 'quick' else 8
        try:
            if index < rounds * len(api.ALL_PAIRS):
                self.masses(rng, case, *pair)
            elif roll < 0.6:
                self.wild(rng, case, *pair)
            elif roll < 0.65:
                self.many(rng, case, *pair, tier)
            elif roll < 0.75:
                self.crowded(rng, case, *pair)
            else:
                self.ordinary(rng, case, pair)
        except gen.Retry:
            case.skipped = True
        return case

    def judge(self, case, workload, t, test, g, goal, built, expected=None,
              edges=None):
        edges = edges or edges_count(t, test) + edges_count(g, goal)
        got = api.call(t, built[0], g, built[1],
                       steps=api.HANG_STEPS + 100_000 * edges)
        if inconclusive(got):
            case.skipped = True
            return
        name = name_of((t, g))
        case.count('function', name)
        case.count('workload', workload)
        case.count('answer', f'{name} {got}')
        case.count('edges', f'<{2 ** edges.bit_length()}')
        case.size = case.size or edges
        case.nontrivial = got not in ('DISJOINT', 'EXTERIOR')
        if case.key is None:
            case.key = (t, g, test, goal)
        text = describe(t, test, g, goal)
        case.sample = {'workload': workload, 'call': text[:400],
                       'edges': edges, 'got': got}
        if got not in vocabulary(t, g):
            case.fail(f'{text} of {edges} edges gives {got}, which is not an '
                      f'answer of {name}: {sorted(vocabulary(t, g))}',
                      workload=workload)
        elif expected is not None and got != expected:
            case.fail(f'{text} of {edges} edges gives {got} instead of '
                      f'{expected}', workload=workload)

    def ordinary(self, rng, case, pair):
        made = random_input(rng, [pair], case)
        if made is None:
            return
        t, test, g, goal = made
        dressing = dress.random_dressing(rng, 0.2)
        *built, _ = dressed_objects(t, test, g, goal, dressing)
        self.judge(case, 'random', t, test, g, goal, built)

    def wild(self, rng, case, t, g):
        made = random_input(rng, [(t, g)], case,
                            family=rng.choice(('cells', 'cells', 'dense',
                                               'derived', 'nested')))
        if made is None:
            return
        _, test, _, goal = made
        points = gen.vertices_of(t, test) + gen.vertices_of(g, goal)
        maps = []
        for axis in (0, 1):
            marks = sorted({p[axis] for p in points})
            maps.append(dict(zip(marks, wild_axis(rng, len(marks)))))

        def wild_map(p):
            return maps[0][p[0]], maps[1][p[1]]

        def exact(p):
            return tuple(int(Fraction(v) * (1 << UNIT)) for v in wild_map(p))

        exact_test = gen.transform(t, test, exact)
        exact_goal = gen.transform(g, goal, exact)
        for kind, x in ((t, exact_test), (g, exact_goal)):
            if kind != 'point' and not O.valid(kind, x):
                raise gen.Retry
        if t == 'segment' and g == 'multisegment' and len(goal) < 2:
            raise gen.Retry
        expected = expected_relation(t, exact_test, g, exact_goal)
        test, goal = (gen.transform(t, test, wild_map),
                      gen.transform(g, goal, wild_map))
        case.key = (t, g, test, goal)
        self.judge(case, 'hostile floats', t, test, g, goal,
                   (api.build(t, test, number=float),
                    api.build(g, goal, number=float)), expected)

    def many(self, rng, case, t, g, tier):
        size = rng.choice((20, 60, 150) if tier == 'quick'
                          else (20, 60, 200, 500))
        cheap = t == 'point' or (t, g) in (('segment', 'contour'),
                                           ('segment', 'region'),
                                           ('segment', 'multisegment'))
        if cheap:
            size *= 6
        known = None
        roll = rng.random()
        if roll < 0.5:
            test, goal = scenario(t, g, rng.choice(LAYOUTS),
                                  rng.choice(LINKS), size)
        else:
            ring = rng.choice((S.spiral, S.saw, S.comb))(size)
            test, goal, known = self.ring_pair(rng, t, g, ring)
        test, goal = gen.redress(rng, t, test), gen.redress(rng, g, goal)
        self.judge(case, 'many edges', t, test, g, goal,
                   (api.build(t, test, number=lambda v: v),
                    api.build(g, goal, number=lambda v: v)), known)

    def masses(self, rng, case, t, g):
        """more parts and vertices than a recursion could stand"""
        rings = ('contour', 'region')
        size = (270 if t in rings and g in rings
                else rng.randint(1030, 1100))
        layout = rng.choice(LAYOUTS)
        link = rng.choice(('equal', 'inside', 'outside', 'shifted'))
        test, goal = scenario(t, g, layout, link, size)
        test, goal = gen.redress(rng, t, test), gen.redress(rng, g, goal)
        self.judge(case, 'masses', t, test, g, goal,
                   (api.build(t, test, number=lambda v: v),
                    api.build(g, goal, number=lambda v: v)),
                   expected_relation(t, test, g, goal)
                   if t in ('point', 'segment')
                   else drafted(t, g, layout, link))

    def ring_pair(self, rng, t, g, ring):
        """whole and parts of one long ring: relations known by construction"""
        edges = S.ring_edges(ring)
        x0, y0, x1, y1 = S.bounds([ring])
        around = S.rect(x0 - 9, y0 - 9, x1 + 9, y1 + 9)
        areal_goal = {'region': ring, 'multiregion': [ring],
                      'polygon': (ring, []), 'multipolygon': [(ring, [])]}
        outside = {'region': around, 'multiregion': [around],
                   'polygon': (around, [ring]),
                   'multipolygon': [(around, [ring])]}
        if g in AREAL:
            inverted = g in ('polygon', 'multipolygon') and rng.random() < 0.5
            goal = (outside if inverted else areal_goal)[g]
            if t == 'point':
                return rng.choice(ring), goal, 'BOUNDARY'
            if t in LINEAR:
                test = {'segment': rng.choice(edges), 'contour': ring,
                        'multisegment': rng.sample(edges, len(edges) * 2 // 3)
                        }[t]
                return test, goal, 'COMPONENT'
            test = areal_goal[t]
            return test, goal, 'TOUCH' if inverted else 'EQUAL'
        goal = {'segment': edges[0], 'multisegment': edges,
                'contour': ring}[g]
        if t == 'point':
            return rng.choice(goal if g == 'segment' else ring), goal, \
                'BOUNDARY'
        if t == 'segment':
            return ((edges[0], goal, 'EQUAL') if g == 'segment'
                    else (rng.choice(edges), goal, 'COMPONENT'))
        if t == 'multisegment' and rng.random() < 0.5:
            return rng.sample(edges, len(edges) * 2 // 3), goal, 'COMPONENT'
        return (edges if t == 'multisegment' else ring), goal, 'EQUAL'

    def crowded(self, rng, case, t, g):
        """dozens of edges or parts at one point"""
        test, goal = gen.crowd(rng, t, g)
        expected = expected_relation(t, test, g, goal)
        dressing = dress.random_dressing(rng, 0.5)
        *built, _ = dressed_objects(t, test, g, goal, dressing)
        self.judge(case, 'crowded vertex', t, test, g, goal, built, expected)
