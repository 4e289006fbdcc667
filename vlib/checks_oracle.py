"""Checks decided by the exact reference model."""
from . import api, dress, gen
from .base import (AREAL, LINEAR, Case, boxes_meet, describe,
                   dressed_objects, expected_relation, inconclusive, names,
                   random_input)
from .checks_cost import LAYOUTS, LINKS, drafted, edges_count, scenario


class OracleCheck:
    """every answer equals the one of the reference model"""

    rule = ('random valid pair from the families cells/dense/wide/fan/derived'
            '/nested/perturbed/collinear/big, respelled, mapped by an exact '
            'affine map and written in int/float/Fraction coordinates; '
            'non-trivial: bounding boxes of both geometries meet; distinct: '
            'by grid coordinates of the pair')
    assumptions = ('inputs satisfy the documented preconditions of '
                   'ground.hints', 'exact predicates of the ground package '
                   'and Python integers are correct')

    def __init__(self, property_id, pairs, quick, thorough, weights=None,
                 family=None):
        self.property, self.pairs = property_id, pairs
        self.quick, self.thorough, self.weights = quick, thorough, weights
        self.functions = names(pairs)
        self.family = family

    def case(self, rng, index, tier):
        case = Case()
        made = random_input(rng, self.pairs, case, self.weights, self.family)
        if made is None:
            return case
        t, test, g, goal = made
        expected = expected_relation(t, test, g, goal)
        dressing = dress.random_dressing(rng)
        built_test, built_goal, used = dressed_objects(t, test, g, goal,
                                                       dressing)
        got = api.call(t, built_test, g, built_goal)
        if inconclusive(got):
            case.skipped = True
            return case
        function = api.function_name(t, g)
        case.count('function', function)
        case.count('answer', f'{function} {expected}')
        case.count('numbers', '+'.join(sorted(used)))
        case.sample = {'call': describe(t, test, g, goal, 400),
                       'expected': expected, 'got': got,
                       'dressing': dressing}
        if got != expected:
            case.fail(
                f'{describe(t, test, g, goal)} gives {got}, the point sets '
                f'are in relation {expected}',
                arguments=[built_test, built_goal], expected=expected,
                got=got, dressing=dressing)
        return case


class ScaleCheck(OracleCheck):
    """the same on inputs of hundreds of edges"""

    rule = ('pairs of the subdivision, star, comb and many-parts families '
            'with 80 to thousands of edges, and scenarios (function, layout '
            'of the parts, link between the arguments) drawn at a random '
            'size, dozens of edges at one point; non-trivial: bounding boxes meet; distinct: by grid '
            'coordinates of the pair')
    chunk = 4
    FEW = 80

    def case(self, rng, index, tier):
        case = Case()
        t, g = self.pairs[index % len(self.pairs)]
        choice = rng.random()
        made = (self.scenario(rng, t, g, tier) if choice < 0.3
                else self.crowded(rng, t, g) if choice < 0.4
                else self.sampled(rng, t, g, tier))
        if made is None:
            case.skipped = True
            return case
        family, test, goal, expected = made
        edges = edges_count(t, test) + edges_count(g, goal)
        case.key = (t, g, test, goal)
        case.size = edges
        case.nontrivial = boxes_meet(t, test, g, goal)
        case.count('family', family)
        case.count('edges', f'<{10 * 2 ** (edges // 10).bit_length()}')
        if expected is None:
            expected = expected_relation(t, test, g, goal)
        dressing = dress.random_dressing(rng, 0.7)
        built_test, built_goal, used = dressed_objects(t, test, g, goal,
                                                       dressing)
        got = api.call(t, built_test, g, built_goal)
        if inconclusive(got):
            case.skipped = True
            return case
        function = api.function_name(t, g)
        case.count('function', function)
        case.count('answer', f'{function} {expected}')
        case.sample = {'call': describe(t, test, g, goal, 300),
                       'edges': edges, 'expected': expected, 'got': got}
        if got != expected:
            case.fail(f'{describe(t, test, g, goal)} of {edges} edges gives '
                      f'{got}, the point sets are in relation {expected}',
                      arguments=[built_test, built_goal], expected=expected,
                      got=got, dressing=dressing)
        return case

    def sampled(self, rng, t, g, tier):
        """the largest of several tries, at least FEW edges when possible"""
        best = None
        for _ in range(6):
            side = rng.choice((8, 10, 12, 14) if tier == 'quick'
                              else (10, 14, 18, 24))
            family = rng.choice(('cells', 'cells', 'star', 'comb', 'many'))
            try:
                test, goal = gen.large(rng, family, t, g, side)
            except gen.Retry:
                continue
            edges = edges_count(t, test) + edges_count(g, goal)
            if best is None or edges > best[0]:
                best = edges, (family, test, goal, None)
            if edges >= self.FEW:
                break
        return None if best is None else best[1]

    def crowded(self, rng, t, g):
        try:
            return ('crowded vertex', *gen.crowd(rng, t, g), None)
        except gen.Retry:
            return None

    def scenario(self, rng, t, g, tier):
        """a picture of any size, in the relation its small draft is in"""
        layout, link = rng.choice(LAYOUTS), rng.choice(LINKS)
        expected = drafted(t, g, layout, link)
        n = int(30 * 10 ** (rng.random() * (1 if tier == 'quick' else 1.5)))
        test, goal = scenario(t, g, layout, link, n)
        if t in ('point', 'segment'):
            # pictures of these are not the same at any size
            expected = None
        return (f'{link} {layout}', gen.redress(rng, t, test),
                gen.redress(rng, g, goal), expected)


def pairs_of(text):
    return [tuple(item.split('_in_')) for item in text.split()]
