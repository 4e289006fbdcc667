"""Documented memory: traced allocations of calls at growing sizes, and what
is left of them afterwards.

Everything is counted in bytes by tracemalloc; the cyclic collector runs often
during a call, since cyclic garbage of finished steps is no need of memory.
Verdicts come from growth, not from amounts."""
import gc
import random
import tracemalloc

from . import api, gen
from .base import Case, describe, name_of, names, random_input
from .checks_cost import LAYOUTS, LINKS, edges_count, scenario

CONSTANT = {('point', 'segment'), ('segment', 'segment'),
            ('point', 'multisegment')}
# small temporaries come and go on constant paths
CONSTANT_BYTES = 6000
# from n to 4 n: linear 4, n log n up to 5.3, quadratic 16; early ends at the
# smaller size may add, so that the amount per edge (about 500) counts too
GROWTH, PER_EDGE = 6, 1500
ROUNDS = 20
POINT_BYTES = 300
KEPT_BYTES = 6000


def ring_size(kind, geometry):
    """vertices of the largest ring"""
    if kind in ('contour', 'region'):
        return len(geometry)
    if kind == 'multiregion':
        return max(map(len, geometry))
    if kind == 'polygon':
        return max(map(len, [geometry[0], *geometry[1]]))
    if kind == 'multipolygon':
        return max(len(ring) for border, holes in geometry
                   for ring in [border, *holes])
    return 1


def identity(value):
    return value


class Traced:
    """peak and kept bytes"""

    def __enter__(self):
        gc.collect()
        # all of the rest is out of sight of the collector, which is quick then
        gc.freeze()
        self.threshold = gc.get_threshold()
        gc.set_threshold(2000, 2, 2)
        tracemalloc.start(1)
        return self

    def __exit__(self, *_):
        tracemalloc.stop()
        gc.set_threshold(*self.threshold)
        gc.unfreeze()

    def used(self):
        gc.collect()
        return tracemalloc.get_traced_memory()[0]


def place(rng, kind, goal):
    """a point around the geometry"""
    vertices = gen.vertices_of(kind, goal)
    x, y = rng.choice(vertices)
    choice = rng.randrange(4)
    if choice == 0:
        return x, y
    if choice == 1:
        return x + rng.randint(-9, 9), y + rng.randint(-9, 9)
    if choice == 2:
        z, t = rng.choice(vertices)
        return (x + z) // 2, (y + t) // 2
    return x, rng.choice(vertices)[1]


class MemoryCheck:
    assumptions = ('memory is what Python allocates for objects, as counted '
                   'by tracemalloc, cyclic garbage not counted (but for '
                   'what appears between two runs of the collector)',
                   'vertex degrees are bounded and geometries have a linear '
                   'number of contacts',
                   'ground lists the edges of a contour, which the memory of '
                   'point location includes')
    rule = ('a scenario (function, layout of the parts, link between the '
            'arguments) called at two sizes, one four times the other, with '
            'the peak of traced memory, or a history of small calls; what '
            'stays allocated after the arguments are dropped is measured in '
            'both; non-trivial: memory was allocated; distinct: by the '
            'scenario, rotation and order of the parts, or by the history')
    chunk = 1

    def __init__(self, property_id, quick, thorough):
        self.property = property_id
        self.quick, self.thorough = quick, thorough
        self.functions = names(api.ALL_PAIRS)

    def case(self, rng, index, tier):
        case = Case()
        pairs = api.ALL_PAIRS
        pair = pairs[index % len(pairs)]
        rest = index // len(pairs)
        if rest % 3 == 2:
            self.history(rng, case, pair, 60 if tier == 'quick' else 200)
        else:
            self.growth(rng, case, pair, rest - rest // 3, index, tier)
        return case

    def growth(self, rng, case, pair, rest, index, tier):
        t, g = pair
        link = LINKS[rest % len(LINKS)]
        layout = LAYOUTS[(rest // len(LINKS) + index) % len(LAYOUTS)]
        case.count('layout', layout)
        case.count('link', link)
        salt = rng.getrandbits(32)
        sizes = (32, 128) if tier == 'quick' else (128, 512)
        case.key = (t, g, layout, link, salt)
        case.size = sizes[1]
        name = name_of(pair)
        text = f'{name}, {layout} layout, {link} arguments'
        case.count('function', name)
        measured = [self.measure(case, t, g, layout, link, n, salt)
                    for n in sizes]
        for edges, ring, peak, kept, made, answer in measured:
            if answer.startswith('!'):
                case.fail(f'{text}: {answer}')
                return
            case.count('kilobytes of arguments', (made >> 10).bit_length())
            case.count('bytes kept', kept)
            if kept > KEPT_BYTES:
                case.fail(f'{text}: {kept} bytes stay allocated after the '
                          f'call and dropping of its arguments (which took '
                          f'{made})')
        peaks = [m[2] for m in measured]
        case.nontrivial = peaks[1] > 0
        series = ', '.join(f'{m[2]} bytes at {m[0]} edges' for m in measured)
        ratio = peaks[1] / max(peaks[0], 1)
        case.sample = {'scenario': text, 'memory': series,
                       'kept': [m[3] for m in measured],
                       'answers': [m[5] for m in measured]}
        if pair in CONSTANT:
            case.count('peak when constant', peaks[1] >> 8 << 8)
            if peaks[1] > CONSTANT_BYTES and ratio > 2:
                case.fail(f'{text}: memory grows: {series}')
        elif t == 'point':
            allowed = [CONSTANT_BYTES + POINT_BYTES * m[1] for m in measured]
            case.count('peak of point location, bytes per vertex',
                       peaks[1] // measured[1][1])
            if peaks[1] > allowed[1] and ratio > 2:
                case.fail(f'{text}: memory grows faster than the largest '
                          f'ring of {measured[1][1]} vertices: {series}')
        else:
            case.count('growth of memory', f'{ratio:.0f}')
            case.count('bytes per edge', peaks[1] // measured[1][0]
                       // 100 * 100)
            if measured[0][5] != measured[1][5]:
                # another path at another size: growth says nothing
                case.count('growth', 'not comparable')
            elif ratio > GROWTH and peaks[1] > PER_EDGE * measured[1][0]:
                case.fail(f'{text}: memory grows faster than linearly: '
                          f'{series}')

    def measure(self, case, t, g, layout, link, n, salt):
        rng = random.Random(salt)
        test, goal = scenario(t, g, layout, link, n)
        if t == 'point':
            test = place(rng, g, goal)
        edges = edges_count(t, test) + edges_count(g, goal)
        ring = ring_size(g, goal)
        test, goal = gen.redress(rng, t, test), gen.redress(rng, g, goal)
        function = api.FUNCTIONS.get((t, g))
        if function is None:
            return edges, ring, 0, 0, 0, '!missing function'
        # imports and caches of constant size come first
        small = scenario(t, g, layout, link, 3)
        try:
            function(api.build(t, small[0], number=identity),
                     api.build(g, small[1], number=identity))
            with Traced() as traced:
                base = traced.used()
                left = api.build(t, test, number=identity)
                right = api.build(g, goal, number=identity)
                before = traced.used()
                tracemalloc.reset_peak()
                result = function(left, right)
                peak = tracemalloc.get_traced_memory()[1] - before
                answer = getattr(result, 'name', repr(result))
                del left, right, result
                kept = traced.used() - base
        except Exception as error:
            return (edges, ring, 0, 0, 0,
                    f'!{type(error).__name__}: {error}'[:200])
        return edges, ring, peak, kept, before - base, answer

    def history(self, rng, case, pair, count):
        """many small calls leave nothing behind"""
        t, g = pair
        name = name_of(pair)
        case.count('function', name)
        case.count('link', 'history')
        pictures = []
        for _ in range(count + ROUNDS):
            one = Case()
            made = random_input(rng, [pair], one)
            if made is not None:
                pictures.append((made[1], made[3]))
        if len(pictures) < ROUNDS:
            case.skipped = True
            return
        case.key = (t, g, tuple(map(repr, pictures)))
        case.size = count
        function = api.FUNCTIONS.get(pair)
        if function is None:
            case.fail(f'{name}: missing function')
            return
        try:
            with Traced() as traced:
                base = made_bytes = 0
                for i, (test, goal) in enumerate(pictures):
                    if i == ROUNDS // 2:
                        base = traced.used()
                    before = tracemalloc.get_traced_memory()[0]
                    left = api.build(t, test, number=identity)
                    right = api.build(g, goal, number=identity)
                    made_bytes += (tracemalloc.get_traced_memory()[0]
                                   - before)
                    function(left, right)
                    del left, right
                kept = traced.used() - base
        except Exception as error:
            case.fail(f'{describe(t, test, g, goal)} '
                      f'{type(error).__name__}: {error}'[:1000])
            return
        case.nontrivial = made_bytes > 0
        case.count('bytes kept by histories', kept)
        case.count('calls in histories', 'all', len(pictures))
        case.sample = {'history': name, 'calls': len(pictures),
                       'bytes of arguments': made_bytes, 'kept': kept}
        if kept > KEPT_BYTES:
            case.fail(f'{name}: {kept} bytes stay allocated after '
                      f'{len(pictures)} calls and dropping of their '
                      f'arguments')
