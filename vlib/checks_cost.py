"""Documented cost: deterministic amounts of executed work at growing sizes.

Work is counted, not timed: entries of Python functions and taken branches and
jumps below the call (``sys.monitoring``).  A scenario is one picture drawn at
several sizes; verdicts come from growth only, so constants do not matter."""
from functools import lru_cache

from . import api, gen, shapes as S
from .base import Case, expected_relation, name_of, names

LINEAR_COST = {('point', g) for g in api.LINEAR + api.AREAL} | {
    ('segment', 'multisegment'), ('segment', 'contour'),
    ('segment', 'region')}
CONSTANT_COST = {('point', 'segment'), ('segment', 'segment')}
LAYOUTS = ('stack', 'row', 'diagonal', 'square')
LINKS = ('equal', 'inside', 'outside', 'shifted', 'framed', 'framing',
         'ringed')
# growth of work when n grows from 32 to 128: linear 4, n log n up to 5.9,
# quadratic 8 and more; with both doublings growing alike, since a jump to
# another path of the code is no growth
QUADRUPLED, FIRST_DOUBLED, LAST_DOUBLED = 7.5, 2.5, 2.75
SUPERQUADRATIC = 20
# linear functions, from 512 to 2048 edges, worth the work per edge
SUPERLINEAR, PER_EDGE = 5, 300
MAX_STEPS = 200_000_000


def picture(kind, layout, n, inset):
    """one of ``kind`` over n parts"""
    parts = S.parts(layout, n, inset)
    if kind == 'point':
        x, y = parts[-1][2]
        return (x + 3, y - 2)
    if kind == 'segment':
        x0, y0, x1, y1 = S.bounds(parts)
        return ((x0 - 3, y0 - 7), (x1 + 5, y1 + 3))
    if kind == 'multisegment':
        return [e for part in parts for e in S.ring_edges(part)]
    if kind in ('contour', 'region'):
        ring = S.comb(n, inset)
        # teeth along the parts
        return ([(y, x) for x, y in ring] if layout == 'row' else ring)
    if kind == 'multiregion':
        return parts
    if kind == 'polygon':
        x0, y0, x1, y1 = S.bounds(parts)
        m = 90 - 5 * inset
        return (S.rect(x0 - m, y0 - m, x1 + m, y1 + m), parts)
    if inset % 4 == 0:
        # parts with holes
        return [(part, [S.rect(part[0][0] + 6, part[0][1] + 6,
                               part[2][0] - 6, part[2][1] - 6)]
                 if part[2][0] - part[0][0] > 12 and
                 part[2][1] - part[0][1] > 12 else [])
                for part in parts]
    return [(part, []) for part in parts]


def scenario(t, g, layout, link, n):
    """(test, goal) of about n parts each"""
    if link in ('framed', 'framing', 'ringed'):
        # rings of n vertices around n parts
        scale = None
        rings = []
        for margin in (40, 400):
            ring, k = S.frame(S.parts(layout, n, 0), margin, n + 2)
            scale = k
            rings.append(ring)
        near, far = rings
        inner, outer = near, far
        if link == 'framing':
            inner, outer = far, near
        elif link == 'ringed':
            inner = outer = near

        def draw(kind, ring, inset):
            if kind in ('contour', 'region', 'polygon'):
                if kind == 'polygon':
                    return (ring, S.scaled(S.parts(layout, n, inset), scale))
                return ring
            return gen.scale_geometry(kind, picture(kind, layout, n, inset),
                                      scale)

        return draw(t, inner, 0), draw(g, outer, 0)
    insets = {'equal': (0, 0), 'inside': (2, 0), 'outside': (0, 2),
              'shifted': (0, 0)}[link]
    test, goal = (picture(t, layout, n, insets[0]),
                  picture(g, layout, n, insets[1]))
    if link == 'shifted':
        test = gen.transform(t, test, lambda p: (p[0] + 5, p[1] + 3))
    return test, goal


@lru_cache(maxsize=None)
def drafted(t, g, layout, link):
    """relation of a scenario by the model; the one of its drafts when these
    agree (then it is found at any size), nothing otherwise"""
    drafts = {expected_relation(t, test, g, goal)
              for test, goal in (scenario(t, g, layout, link, n)
                                 for n in (4, 7))}
    return drafts.pop() if len(drafts) == 1 else None


def edges_count(kind, geometry):
    return 1 if kind == 'point' else len(gen.O.edges(kind, geometry))


class CostCheck:
    assumptions = ('work is counted in Python function entries, branches and '
                   'jumps; work inside C functions is not seen',
                   'vertex degrees are bounded and geometries have a linear '
                   'number of contacts, as the documented bounds tacitly '
                   'assume')
    rule = ('a scenario (function, layout of the parts, link between the '
            'arguments) measured at three sizes, a fourth one when growth '
            'is suspicious; non-trivial: work grew with the size; distinct: '
            'by the scenario, rotation and order of the parts')
    chunk = 1

    def __init__(self, property_id, quick, thorough):
        self.property = property_id
        self.quick, self.thorough = quick, thorough
        self.functions = names(api.ALL_PAIRS)

    def case(self, rng, index, tier):
        case = Case()
        pairs = api.ALL_PAIRS
        t, g = pairs[index % len(pairs)]
        rest = index // len(pairs)
        link = LINKS[rest % len(LINKS)]
        # another layout for each link and round
        layout = LAYOUTS[(rest // len(LINKS) + index) % len(LAYOUTS)]
        case.count('layout', layout)
        case.count('link', link)
        salt = rng.getrandbits(32)
        cost = ('constant' if (t, g) in CONSTANT_COST else
                'linear' if (t, g) in LINEAR_COST else 'linearithmic')
        sizes = (32, 128) if cost == 'linearithmic' else (128, 512)
        if tier == 'thorough':
            sizes = tuple(2 * n for n in sizes)
        measured = [self.measure(case, t, g, layout, link, n, salt)
                    for n in sizes]
        if measured[1][1] > QUADRUPLED * measured[0][1] * 0.9:
            measured.insert(1, self.measure(case, t, g, layout, link,
                                            2 * sizes[0], salt))
        (n0, work0, _), (n1, work1, _) = measured[0], measured[-1]
        case.key = (t, g, layout, link, salt)
        case.nontrivial = work1 > work0
        case.size = n1
        name = name_of((t, g))
        text = (f'{name}, {layout} layout, {link} arguments')
        series = ', '.join(f'{w} at {n} edges' for n, w, _ in measured)
        case.sample = {'scenario': text, 'documented': cost,
                       'work': series,
                       'answers': sorted({r for *_, r in measured})}
        broken = [r for *_, r in measured if r.startswith('!')]
        if broken:
            case.fail(f'{text}: {broken[0]}')
            return case
        ratio = work1 / work0
        case.count('growth of ' + cost, f'{ratio:.0f}')
        if len({r for *_, r in measured}) > 1:
            # another path at another size: growth says nothing
            case.count('growth', 'not comparable')
        elif cost == 'constant':
            if ratio > 20:
                case.fail(f'{text}: work grows: {series}')
        elif cost == 'linear':
            if ratio > SUPERLINEAR and work1 > PER_EDGE * n1:
                case.fail(f'{text}: work grows faster than linearly: '
                          f'{series}')
        elif ratio > QUADRUPLED and len(measured) == 3:
            middle = measured[1][1]
            if (middle > FIRST_DOUBLED * work0
                    and work1 > LAST_DOUBLED * middle):
                degree = ('superquadratically' if ratio > SUPERQUADRATIC
                          else 'superlinearithmically')
                group = ('many-parts-and-a-long-border'
                         if link in ('framed', 'framing', 'ringed')
                         else link)
                case.fail(f'{name}:{group}:{degree} in {layout} layout, '
                          f'{link} arguments, work: {series}')
        return case

    def measure(self, case, t, g, layout, link, n, salt):
        import random
        rng = random.Random(salt)
        test, goal = scenario(t, g, layout, link, n)
        edges = edges_count(t, test) + edges_count(g, goal)
        test, goal = gen.redress(rng, t, test), gen.redress(rng, g, goal)
        name = name_of((t, g))
        case.count('function', name)
        case.count('edges measured', edges.bit_length())
        function = api.FUNCTIONS.get((t, g))
        if function is None:
            return edges, 1, '!missing function'
        try:
            work, result = api.count_steps(
                    function, api.build(t, test, number=lambda v: v),
                    api.build(g, goal, number=lambda v: v), limit=MAX_STEPS)
        except Exception as error:
            return edges, 1, f'!{type(error).__name__}: {error}'[:200]
        if work is None:
            return edges, MAX_STEPS, f'!more than {MAX_STEPS} steps'
        return edges, max(work, 1), getattr(result, 'name', repr(result))
