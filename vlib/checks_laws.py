"""Checks decided by laws between several observed answers.

No reference model here: two or more executions of the code under test are
compared with one another."""
from fractions import Fraction

from . import api, dress, gen, oracle as O
from .base import (AREAL, LINEAR, Case, admissible, boxes_meet, call_plain,
                   describe, dressed_objects, inconclusive, literal, name_of,
                   names, random_input, spell, spellings)

DISJOINT, TOUCH, CROSS, OVERLAP = 'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP'
COVER, ENCLOSES, COMPOSITE, EQUAL = 'COVER', 'ENCLOSES', 'COMPOSITE', 'EQUAL'
COMPONENT, ENCLOSED, WITHIN = 'COMPONENT', 'ENCLOSED', 'WITHIN'
INSIDE = (EQUAL, COMPONENT, ENCLOSED, WITHIN)
OUTSIDE = (EQUAL, COMPOSITE, ENCLOSES, COVER)
complement = O.complement


class LawCheck:
    assumptions = ('inputs satisfy the documented preconditions of '
                   'ground.hints',)
    pairs = api.ALL_PAIRS
    weights = None

    def __init__(self, property_id, quick, thorough, pairs=None,
                 functions=None):
        self.property = property_id
        self.quick, self.thorough = quick, thorough
        if pairs is not None:
            self.pairs = pairs
        self.functions = names(self.pairs) if functions is None else functions

    def observe(self, case, t, test, g, goal):
        result = call_plain(t, test, g, goal)
        case.count('function', name_of((t, g)))
        case.count('calls', 'total')
        if inconclusive(result):
            case.skipped = True
        return result

    def case(self, rng, index, tier):
        case = Case()
        made = random_input(rng, self.pairs, case, self.weights)
        if made is not None:
            self.law(rng, case, *made)
        return case


def broken(result):
    return result.startswith('!')


class RepresentationCheck(LawCheck):
    """answers depend on the point sets only"""

    rule = ('a pair and four other spellings of it: rotated and reversed '
            'vertices, shuffled components and holes, reversed segments, '
            'split and joined collinear segments, a contour as multisegment, '
            'an areal geometry as any areal kind able to hold it; '
            'non-trivial: bounding boxes meet; distinct: by the base pair')

    def law(self, rng, case, t, test, g, goal):
        base = self.observe(case, t, test, g, goal)
        case.sample = {'call': describe(t, test, g, goal, 300), 'got': base}
        for _ in range(4):
            t2 = rng.choice(spellings(t, test))
            g2 = rng.choice(spellings(g, goal))
            test2, goal2 = spell(rng, t, test, t2), spell(rng, g, goal, g2)
            if not admissible(t2, test2, g2, goal2):
                t2, g2 = t, g
                test2, goal2 = spell(rng, t, test, t), spell(rng, g, goal, g)
                if not admissible(t2, test2, g2, goal2):
                    continue
            got = self.observe(case, t2, test2, g2, goal2)
            case.count('respelled', f'{t}->{t2} in {g}->{g2}')
            if got != base:
                case.fail(f'{describe(t, test, g, goal)} gives {base}, '
                          f'same point sets as '
                          f'{describe(t2, test2, g2, goal2)} give {got}')
                return


class ComplementCheck(LawCheck):
    """swapping the arguments complements the relation"""

    pairs = [(t, g) for t, g in api.ALL_PAIRS
             if t != 'point' and (t in LINEAR) == (g in LINEAR)]
    rule = ('a pair of one dimension and the swapped pair, both possibly in '
            'other spellings and kinds; non-trivial: bounding boxes meet; '
            'distinct: by the base pair')

    def law(self, rng, case, t, test, g, goal):
        base = self.observe(case, t, test, g, goal)
        case.count('answer', base)
        case.sample = {'call': describe(t, test, g, goal, 300), 'got': base}
        options = [(a, b) for a in spellings(g, goal)
                   for b in spellings(t, test) if (a, b) in api.FUNCTIONS]
        rng.shuffle(options)
        for t2, g2 in options[:3]:
            test2, goal2 = spell(rng, g, goal, t2), spell(rng, t, test, g2)
            if not admissible(t2, test2, g2, goal2):
                continue
            got = self.observe(case, t2, test2, g2, goal2)
            case.count('swapped', f'{name_of((t, g))}/{name_of((t2, g2))}')
            if got != complement(base) or broken(got):
                case.fail(f'{describe(t, test, g, goal)} gives {base}, '
                          f'swapped {describe(t2, test2, g2, goal2)} gives '
                          f'{got} instead of {complement(base)}')
                return


class AffineCheck(LawCheck):
    """exact affine maps applied to both arguments change nothing"""

    rule = ('a pair and its images under three exact invertible affine maps '
            '(isometries, mirrors, scales from 2**-900 to 10**40, huge '
            'shears, huge translations, general rational matrices); '
            'non-trivial: bounding boxes meet; distinct: by the base pair')

    def law(self, rng, case, t, test, g, goal):
        base = self.observe(case, t, test, g, goal)
        case.sample = {'call': describe(t, test, g, goal, 300), 'got': base}
        for _ in range(3):
            dressing = dress.random_dressing(rng, 0)
            dressing['number'] = 'int'
            test2 = dress.apply(dressing, t, test)
            goal2 = dress.apply(dressing, g, goal)
            got = self.observe(case, t, test2, g, goal2)
            a, b, c, d = dressing['matrix']
            case.count('map', ('mirror' if a * d - b * c < 0 else 'direct'))
            if got != base or broken(got):
                case.fail(f'{describe(t, test, g, goal)} gives {base}, its '
                          f'affine image {describe(t, test2, g, goal2)} '
                          f'gives {got}', dressing=dressing)
                return


class NumbersCheck(LawCheck):
    """equal coordinates of different numeric types and sizes act the same"""

    rule = ('the same rational coordinates written as int, float (only when '
            'exact; negative zeros included), fractions.Fraction, '
            'cfractions.Fraction and mixtures, magnitudes from 2**-1000 to '
            '10**40; non-trivial: bounding boxes meet and at least two '
            'numeric types took part; distinct: by the base pair')

    def law(self, rng, case, t, test, g, goal):
        dressing = dress.random_dressing(rng, 0.2)
        if rng.random() < 0.5:
            # powers of two keep floats exact
            k = rng.choice((Fraction(1, 1 << 1000), Fraction(1, 1 << 60),
                            Fraction(1, 4), 1, 1, 1 << 40, 1 << 900))
            dressing['matrix'] = rng.choice([
                tuple(k * v for v in m) for m in dress.DIHEDRAL])
            u = rng.choice((0, 0, 1, -5, 1 << 20))
            dressing['offset'] = (k * u, k * rng.choice((0, u)))
        # magnitude plays no role either
        built = [api.build(kind, geometry, number=lambda v: v)
                 for kind, geometry in ((t, test), (g, goal))]
        results, seen = [(api.call(t, built[0], g, built[1]), *built)], set()
        if inconclusive(results[0][0]):
            case.skipped = True
            return
        for number in ('int', 'float', 'cfraction', 'fraction', 'mixed'):
            variant = dict(dressing, number=number,
                           salt=rng.getrandbits(32))
            built_test, built_goal, used = dressed_objects(t, test, g, goal,
                                                           variant)
            got = api.call(t, built_test, g, built_goal)
            if inconclusive(got):
                case.skipped = True
                return
            case.count('function', name_of((t, g)))
            case.count('numbers', '+'.join(sorted(used)))
            seen |= used
            results.append((got, built_test, built_goal))
        case.nontrivial = case.nontrivial and len(seen) > 1
        case.sample = {'call': describe(t, test, g, goal, 300),
                       'got': results[0][0], 'types': sorted(seen)}
        for got, built_test, built_goal in results[1:]:
            if got != results[0][0] or broken(got):
                case.fail(f'{name_of((t, g))}{(built_test, built_goal)} '
                          f'gives {got}, the same picture '
                          f'{results[0][1:]} gives {results[0][0]}')
                return


# --------------------------------------------------------------- part - whole

def linear_parts(kind, geometry):
    return [('segment', edge) for edge in O.edges(kind, geometry)]


def areal_parts(kind, geometry):
    if kind == 'multiregion':
        return [('region', c) for c in geometry]
    if kind == 'multipolygon':
        return [('polygon', p) for p in geometry]
    return [(kind, geometry)]


def join_linear_in_areal(answers):
    """relation of a union of linear pieces, from relations of the pieces"""
    inside = any(a in (CROSS, ENCLOSED, WITHIN) for a in answers)
    outside = any(a in (CROSS, TOUCH, DISJOINT) for a in answers)
    contact = any(a not in (WITHIN, DISJOINT) for a in answers)
    if inside and outside:
        return CROSS
    if outside:
        return TOUCH if contact else DISJOINT
    if inside:
        return ENCLOSED if contact else WITHIN
    return COMPONENT


def allowed_areal_test_union(answers):
    """possible relations of a union of areal parts (which may touch one
    another in finitely many points only) with a goal"""
    if all(a == DISJOINT for a in answers):
        return {DISJOINT}
    if all(a in (DISJOINT, TOUCH) for a in answers):
        return {TOUCH}
    if len(answers) == 1:
        return set(answers)
    if any(a == OVERLAP for a in answers):
        return {OVERLAP, COVER, ENCLOSES, COMPOSITE}
    for whole in (COVER, ENCLOSES, COMPOSITE):
        if whole in answers:
            return {whole}
    if EQUAL in answers:
        return {COMPOSITE}
    if all(a in INSIDE for a in answers):
        if all(a == WITHIN for a in answers):
            return {WITHIN}
        if all(a == COMPONENT for a in answers):
            return {COMPONENT, EQUAL}
        return {ENCLOSED}
    if all(a in (DISJOINT, TOUCH, COMPONENT) for a in answers):
        return {OVERLAP, COMPOSITE}
    return {OVERLAP}


class PartsCheck(LawCheck):
    """relations of compound geometries agree with those of their parts"""

    rule = ('a compound geometry, every part of it and, for goals, every '
            'component are related separately and the answers combined; '
            'non-trivial: bounding boxes meet and more than one part; '
            'distinct: by the pair')
    pairs = [(t, g) for t, g in api.ALL_PAIRS
             if t in ('multisegment', 'contour', 'multiregion',
                      'multipolygon')
             or g in ('multisegment', 'contour', 'multiregion',
                      'multipolygon', 'polygon')]

    def law(self, rng, case, t, test, g, goal):
        got = self.observe(case, t, test, g, goal)
        text = describe(t, test, g, goal)
        case.sample = {'call': text[:300], 'got': got}
        parts = 0
        # parts of the test
        if t in ('multisegment', 'contour') and g in AREAL:
            answers = [self.observe(case, k, p, g, goal)
                       for k, p in linear_parts(t, test)]
            parts = len(answers)
            expected = {join_linear_in_areal(answers)}
            case.count('law', 'linear test parts')
            if got not in expected or any(map(broken, answers)):
                case.fail(f'{text} gives {got}, its segments are in '
                          f'relations {answers}')
                return
        elif t in ('multiregion', 'multipolygon'):
            kinds = areal_parts(t, test)
            if all((k, g) in api.FUNCTIONS for k, _ in kinds):
                answers = [self.observe(case, k, p, g, goal)
                           for k, p in kinds]
                parts = len(answers)
                case.count('law', 'areal test parts')
                if (got not in allowed_areal_test_union(answers)
                        or any(map(broken, answers))):
                    case.fail(f'{text} gives {got}, its parts are in '
                              f'relations {answers}')
                    return
        # parts of the goal
        if t == 'point':
            self.point_in_parts(case, text, test, g, goal, got)
            parts = 2
        elif g in ('multiregion', 'multipolygon'):
            component_kind = ('region' if g == 'multiregion' else 'polygon')
            components = areal_parts(g, goal)
            if (t, component_kind) in api.FUNCTIONS:
                answers = [self.observe(case, t, test, k, p)
                           for k, p in components]
                parts = max(parts, len(answers))
                case.count('law', 'goal components')
                problem = (self.linear_in_components(got, answers)
                           if t in LINEAR
                           else self.areal_in_components(got, answers))
                if problem or any(map(broken, answers)):
                    case.fail(f'{text} gives {got}, relations with '
                              f'components are {answers}')
                    return
        elif g == 'polygon' and goal[1] and t in LINEAR + ('region',):
            border = self.observe(case, t, test, 'region', goal[0])
            holes = self.observe(case, t, test, 'multiregion', list(goal[1]))
            parts = 2
            case.count('law', 'border and holes')
            problem = (self.linear_in_rings(got, border, holes)
                       if t in LINEAR
                       else self.areal_in_rings(got, border, holes))
            if problem:
                case.fail(f'{text} gives {got}, relation with the border is '
                          f'{border}, with the holes {holes}')
                return
        elif g in ('multisegment', 'contour') and t in LINEAR:
            answers = [self.observe(case, a, p, b, q)
                       for a, p in linear_parts(t, test)
                       for b, q in linear_parts(g, goal)]
            parts = len(answers)
            case.count('law', 'segment by segment')
            if self.linear_by_segments(got, answers):
                case.fail(f'{text} gives {got}, segments pairwise are in '
                          f'relations {sorted(set(answers))}')
                return
        case.nontrivial = case.nontrivial and parts > 1

    def point_in_parts(self, case, text, point, g, goal, got):
        if g in ('multisegment', 'contour'):
            answers = [self.observe(case, 'point', point, 'segment', e)
                       for e in O.edges(g, goal)]
            expected = ('BOUNDARY' if 'BOUNDARY' in answers else 'EXTERIOR')
        elif g in ('multiregion', 'multipolygon'):
            answers = [self.observe(case, 'point', point, k, p)
                       for k, p in areal_parts(g, goal)]
            expected = ('INTERIOR' if 'INTERIOR' in answers else
                        'BOUNDARY' if 'BOUNDARY' in answers else 'EXTERIOR')
        elif g == 'polygon':
            border = self.observe(case, 'point', point, 'region', goal[0])
            answers = [self.observe(case, 'point', point, 'region', h)
                       for h in goal[1]]
            expected = ('EXTERIOR' if border == 'EXTERIOR'
                        or 'INTERIOR' in answers else
                        'BOUNDARY' if border == 'BOUNDARY'
                        or 'BOUNDARY' in answers else 'INTERIOR')
        else:
            return
        case.count('law', 'point in parts')
        if got != expected:
            case.fail(f'{text} gives {got}, parts give {answers}')

    @staticmethod
    def linear_in_components(got, answers):
        inside = any(a in (CROSS, ENCLOSED, WITHIN) for a in answers)
        contact = any(a not in (DISJOINT, WITHIN) for a in answers)
        if (got in (CROSS, ENCLOSED, WITHIN)) != inside:
            return True
        if (got not in (DISJOINT, WITHIN, CROSS)) and not contact:
            return True
        if got in (DISJOINT, WITHIN) and contact:
            return True
        subset = [a for a in answers if a in INSIDE]
        # a subset of one component
        return bool(subset) and got not in subset

    @staticmethod
    def areal_in_components(got, answers):
        """complemented union law"""
        allowed = {complement(a) for a in allowed_areal_test_union(
                [complement(a) for a in answers])}
        return got not in allowed

    @staticmethod
    def linear_in_rings(got, border, holes):
        if border in (DISJOINT, TOUCH, COMPONENT):
            return got != border
        if holes in (WITHIN, ENCLOSED, COMPONENT):
            # nothing of the interior is left
            return got != {WITHIN: DISJOINT, ENCLOSED: TOUCH,
                           COMPONENT: COMPONENT}[holes]
        if holes == DISJOINT:
            return got != border
        if border == WITHIN:
            return got != (ENCLOSED if holes == TOUCH else CROSS)
        if border == ENCLOSED and holes == TOUCH:
            return got not in (ENCLOSED, COMPONENT)
        return got not in (CROSS, TOUCH)

    @staticmethod
    def areal_in_rings(got, border, holes):
        if border in (DISJOINT, TOUCH):
            return got != border
        if holes in INSIDE:
            return got != (DISJOINT if holes == WITHIN else TOUCH)
        if border in (OVERLAP, COVER, ENCLOSES):
            return got != border
        if border in (EQUAL, COMPOSITE):
            return got != ENCLOSES
        if holes == DISJOINT:
            return got != border
        if holes == TOUCH:
            return got != ENCLOSED
        return got != OVERLAP

    @staticmethod
    def linear_by_segments(got, answers):
        shared = any(a in (OVERLAP, EQUAL, COMPONENT, COMPOSITE)
                     for a in answers)
        if all(a == DISJOINT for a in answers):
            return got != DISJOINT
        if shared:
            return got not in (OVERLAP, EQUAL, COMPONENT, COMPOSITE)
        if CROSS in answers:
            return got != CROSS
        return got not in (TOUCH, CROSS)


# --------------------------------------------------------- points against sets

class PointwiseCheck(LawCheck):
    """relations agree with locations of points of the test"""

    pairs = [(t, g) for t, g in api.ALL_PAIRS if t != 'point']
    rule = ('vertices, edge midpoints and midpoints between consecutive '
            'contacts of the test are located in the goal (and of the goal '
            'in the test) by the point functions; non-trivial: bounding '
            'boxes meet; distinct: by the pair')

    def sample_points(self, rng, kind, geometry, rival_kind, rival):
        own = O.edges(kind, geometry)
        other = O.edges(rival_kind, rival)
        vertices = gen.vertices_of(kind, geometry)
        if len(vertices) > 14:
            vertices = rng.sample(vertices, 14)
        chosen = list(own)
        if len(chosen) > 10:
            chosen = rng.sample(chosen, 10)
        middles = []
        for edge in chosen:
            params = {Fraction(0), Fraction(1)}
            for e in own + other:
                params.update(O.edge_contacts(edge, e))
            params = sorted(params)
            for a, b in zip(params, params[1:]):
                m = (a + b) / 2
                middles.append(tuple(
                        dress.simplify(s + (e - s) * m)
                        for s, e in zip(*edge)))
        return vertices, middles

    def law(self, rng, case, t, test, g, goal):
        got = self.observe(case, t, test, g, goal)
        text = describe(t, test, g, goal)
        case.sample = {'call': text[:300], 'got': got}
        places = {}
        points = {}
        for role, kind, geometry, rival_kind, rival in (
                ('test', t, test, g, goal), ('goal', g, goal, t, test)):
            vertices, middles = self.sample_points(rng, kind, geometry,
                                                   rival_kind, rival)
            places[role] = set()
            for point in vertices + middles:
                place = self.observe(case, 'point', point, rival_kind, rival)
                places[role].add(place)
                points.setdefault((role, place), point)
                own = self.observe(case, 'point', point, kind, geometry)
                if own != 'BOUNDARY':
                    case.fail(f'point {literal(point)} of the boundary of '
                              f'{kind} {literal(geometry)} is located in '
                              f'{own}')
                    return
        case.count('answer', got)
        for place in places['test']:
            case.count('test points', place)
        problem = self.contradiction(got, places['test'], places['goal'],
                                     t in LINEAR, g in LINEAR)
        if problem:
            case.fail(f'{text} gives {got}, but {problem}: points '
                      + ', '.join(f'{literal(p)} of {role} is {place}'
                                  for (role, place), p
                                  in sorted(points.items())))

    @staticmethod
    def contradiction(got, test, goal, test_linear, goal_linear):
        inside, edge, out = 'INTERIOR', 'BOUNDARY', 'EXTERIOR'
        if broken(got):
            return 'no relation'
        if got == DISJOINT and (inside in test or edge in test
                                or inside in goal or edge in goal):
            return 'they share a point'
        if got in INSIDE and out in test:
            return 'test has a point out of goal'
        if got in OUTSIDE and out in goal:
            return 'goal has a point out of test'
        if got == TOUCH and (inside in test or inside in goal):
            return 'interiors meet'
        if got == WITHIN and (edge in test or edge in goal):
            return 'boundaries meet'
        if got == COVER and (edge in test or edge in goal):
            return 'boundaries meet'
        if got in (COMPONENT, EQUAL) and inside in test:
            return 'boundary of test is not a part of boundary of goal'
        if got in (COMPOSITE, EQUAL) and not test_linear and inside in goal:
            return 'boundary of goal is not a part of boundary of test'
        return None


# ------------------------------------------------------------ order of subsets

class InclusionCheck(LawCheck):
    """subset relations form an order"""

    pairs = [(t, g) for t, g in api.ALL_PAIRS if t != 'point']
    rule = ('geometries A, B, C drawn on one subdivision of the plane: '
            'A related to A, answers of A-B and B-C constrain A-C (strict '
            'inclusion, disjointness inherited by subsets); non-trivial: A-B '
            'and B-C gave a constraint; distinct: by the triple')

    def case(self, rng, index, tier):
        case = Case()
        kinds = [rng.choice(LINEAR + AREAL) for _ in range(3)]
        kinds.sort(key=lambda k: k in AREAL)
        order = {k: i for i, k in enumerate(api.KINDS)}
        if rng.random() < 0.6:
            kinds.sort(key=lambda k: order[k])
        try:
            made = self.triple(rng, kinds)
        except gen.Retry:
            made = None
        if made is None:
            case.skipped = True
            return case
        (a, b, c) = made
        case.key = (kinds, made)
        case.size = len(repr(made))
        ka, kb, kc = kinds
        for kind, x in zip(kinds, made):
            if (kind, kind) in api.FUNCTIONS:
                got = self.observe(case, kind, x, kind,
                                   gen.redress(rng, kind, x))
                if got != EQUAL:
                    case.fail(f'{kind} {literal(x)} is in relation {got} '
                              f'with itself')
                    return case
        ab = self.relation(case, rng, ka, a, kb, b)
        bc = self.relation(case, rng, kb, b, kc, c)
        ac = self.relation(case, rng, ka, a, kc, c)
        if None in (ab, bc, ac):
            case.skipped = True
            return case
        allowed = self.allowed(ka, kb, kc, ab, bc)
        case.sample = {'kinds': kinds, 'A': str(literal(a))[:200],
                       'B': str(literal(b))[:200],
                       'C': str(literal(c))[:200],
                       'answers': [ab, bc, ac]}
        case.nontrivial = allowed is not None
        case.count('premise', f'{ab},{bc}' if allowed else 'none')
        if allowed is not None and ac not in allowed:
            case.fail(f'A={ka} {literal(a)}, B={kb} {literal(b)}, C={kc} '
                      f'{literal(c)}: A in B is {ab}, B in C is {bc}, '
                      f'but A in C is {ac}')
        return case

    def relation(self, case, rng, t, test, g, goal):
        options = [(a, b) for a in spellings(t, test)
                   for b in spellings(g, goal) if (a, b) in api.FUNCTIONS]
        if options:
            t2, g2 = rng.choice(options)
            test2, goal2 = spell(rng, t, test, t2), spell(rng, g, goal, g2)
            if admissible(t2, test2, g2, goal2):
                return self.observe(case, t2, test2, g2, goal2)
            return None
        options = [(a, b) for a in spellings(g, goal)
                   for b in spellings(t, test) if (a, b) in api.FUNCTIONS]
        if not options or (t in LINEAR) != (g in LINEAR):
            return None
        t2, g2 = rng.choice(options)
        test2, goal2 = spell(rng, g, goal, t2), spell(rng, t, test, g2)
        if admissible(t2, test2, g2, goal2):
            return complement(self.observe(case, t2, test2, g2, goal2))
        return None

    def triple(self, rng, kinds):
        for _ in range(20):
            grid = gen.make_grid(rng, 4)
            a, b = gen.cell_sets(rng, grid)
            c, _ = gen.cell_sets(rng, grid)
            mode = rng.randint(0, 4)
            if mode == 0:
                b, c = a | b, a | b | c
            elif mode == 1:
                a, c = a & b or a, b | c
            elif mode == 2:
                b = a | b
                c = (set(range(len(grid.cells))) - b) or c
            k = 2
            result = []
            edges = []
            try:
                for kind, cells in list(zip(kinds, (a, b, c)))[::-1]:
                    if kind in AREAL:
                        x = gen.scale_geometry(
                                kind, gen.as_kind(rng, kind,
                                                  grid.polygons(cells)), k)
                    else:
                        if not edges:
                            edges = [((p[0] * k, p[1] * k),
                                      (q[0] * k, q[1] * k))
                                     for p, q in grid.lines]
                        x = gen.linear_on_grid(rng, kind, grid, cells, edges,
                                               k)
                    if not O.valid(kind, x):
                        raise gen.Retry
                    edges = O.edges(kind, x)
                    result.append(x)
            except gen.Retry:
                continue
            result.reverse()
            if all(kind != 'multisegment' or len(x) > 1
                   for kind, x in zip(kinds, result)):
                return tuple(result)
        return None

    @staticmethod
    def allowed(ka, kb, kc, ab, bc):
        if ab in INSIDE and bc == DISJOINT or ab == DISJOINT and bc in OUTSIDE:
            return {DISJOINT}
        if ab == EQUAL:
            return {bc}
        if bc == EQUAL:
            return {ab}
        if ab in INSIDE and bc in INSIDE:
            if kc in LINEAR:
                return {COMPONENT}
            if bc == WITHIN:
                return {WITHIN}
            if kb in LINEAR:
                return ({COMPONENT} if bc == COMPONENT
                        else {WITHIN, ENCLOSED, COMPONENT})
            if ab == WITHIN:
                return {WITHIN}
            if bc == COMPONENT:
                return {ab}
            return ({ENCLOSED, WITHIN} if ab == ENCLOSED
                    else {WITHIN, ENCLOSED, COMPONENT})
        if ab in INSIDE and bc == TOUCH and kb in AREAL and kc in AREAL:
            return {TOUCH, DISJOINT} if ka in AREAL else {TOUCH, DISJOINT,
                                                          COMPONENT}
        return None
