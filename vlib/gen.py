"""Workload generators (pure data, integer grid coordinates).

Everything is a function of a ``random.Random``; everything returned satisfies
the documented preconditions (checked with ``oracle.valid*``)."""
from . import oracle as O

LINEAR, AREAL = O.LINEAR, O.AREAL


class Retry(Exception):
    pass


# ---------------------------------------------------------------- primitives

def clean_ring(vertices):
    """drops collinear vertices"""
    vertices = list(vertices)
    changed = True
    while changed and len(vertices) >= 3:
        changed = False
        for i in range(len(vertices)):
            if not O.orient(vertices[i - 2], vertices[i - 1], vertices[i]):
                del vertices[i - 1]
                changed = True
                break
    return vertices


def untangle(points):
    points = list(points)
    n = len(points)
    for _ in range(4 * n * n):
        swapped = False
        for i in range(n - 1):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                a, b = points[i], points[i + 1]
                c, d = points[j], points[(j + 1) % n]
                if O.edge_contacts((a, b), (c, d)):
                    points[i + 1:j + 1] = points[i + 1:j + 1][::-1]
                    swapped = True
                    break
            if swapped:
                break
        if not swapped:
            break
    return points


def random_contour(rng, width, height, k, pool=()):
    for _ in range(30):
        chosen = set()
        pool = list(pool)
        guard = 0
        while len(chosen) < k and guard < 10 * k:
            guard += 1
            if pool and rng.random() < 0.6:
                chosen.add(rng.choice(pool))
            else:
                chosen.add((rng.randint(0, width), rng.randint(0, height)))
        points = list(chosen)
        points.sort()
        rng.shuffle(points)
        ring = clean_ring(untangle(points))
        if O.valid_contour(ring):
            return ring
    raise Retry


def star_contour(rng, center, radius, k):
    import math
    cx, cy = center
    points = []
    for i in range(k):
        angle = 2 * math.pi * (i + rng.random() * 0.8) / k
        r = radius * (0.3 + 0.7 * rng.random())
        points.append((cx + round(r * math.cos(angle)),
                       cy + round(r * math.sin(angle))))
    ring = clean_ring(points)
    if O.valid_contour(ring):
        return ring
    raise Retry


def comb_contour(rng, teeth, x0, y0, depth, step):
    top, points = y0 + depth, [(x0, y0)]
    points.append((x0 + 2 * step * teeth, y0))
    x = x0 + 2 * step * teeth
    for i in range(teeth):
        h = rng.randint(1, depth)
        points.append((x, top + rng.randint(0, 2)))
        points.append((x - step, y0 + h - (h == depth and 1) if depth > 1
                       else top - 0))
        x -= 2 * step
    points.append((x0, top + 1))
    ring = clean_ring(points)
    if O.valid_contour(ring):
        return ring
    raise Retry


# ---------------------------------------------------------------- cell grids

class Grid:
    """triangulated/quad rectangle grid; a cell is a tuple of CCW vertices"""

    def __init__(self, rng, width, height, style, xs=None, ys=None):
        xs = xs or list(range(width + 1))
        ys = ys or list(range(height + 1))
        self.cells = []
        self.lines = set()
        for i in range(width):
            for j in range(height):
                a, b = (xs[i], ys[j]), (xs[i + 1], ys[j])
                c, d = (xs[i + 1], ys[j + 1]), (xs[i], ys[j + 1])
                cut = rng.randint(0, 2) if style == 'mixed' else (
                    0 if style == 'quad' else 1 + rng.randint(0, 1))
                if cut == 0:
                    self.cells.append((a, b, c, d))
                elif cut == 1:
                    self.cells += [(a, b, c), (a, c, d)]
                else:
                    self.cells += [(a, b, d), (b, c, d)]
        self.neighbours = {}
        owner = {}
        for index, cell in enumerate(self.cells):
            for k in range(len(cell)):
                edge = (cell[k - 1], cell[k])
                owner[edge] = index
                self.lines.add(min(edge, edge[::-1]))
        self.lines = sorted(self.lines)
        for (start, end), index in owner.items():
            other = owner.get((end, start))
            if other is not None:
                self.neighbours.setdefault(index, []).append(other)
        for index in range(len(self.cells)):
            self.neighbours.setdefault(index, []).sort()
        self.points = sorted({p for line in self.lines for p in line})

    def blob(self, rng, size, start=None, avoid=()):
        start = rng.randrange(len(self.cells)) if start is None else start
        result, border = {start}, list(self.neighbours[start])
        while border and len(result) < size:
            index = border.pop(rng.randrange(len(border)))
            if index in result or index in avoid:
                continue
            result.add(index)
            border += [n for n in self.neighbours[index] if n not in result]
        return result

    def components(self, cells):
        cells, result = set(cells), []
        for start in sorted(cells):
            if start not in cells:
                continue
            stack, component = [start], set()
            while stack:
                index = stack.pop()
                if index not in cells:
                    continue
                cells.discard(index)
                component.add(index)
                stack += self.neighbours[index]
            result.append(component)
        return result

    def polygon(self, component):
        directed = set()
        for index in component:
            cell = self.cells[index]
            for k in range(len(cell)):
                edge = (cell[k - 1], cell[k])
                if edge[::-1] in directed:
                    directed.discard(edge[::-1])
                else:
                    directed.add(edge)
        out = {}
        for start, end in sorted(directed):
            out.setdefault(start, []).append(end)
        cycles = []
        while out:
            start = next(iter(out))
            path, seen = [start], {start: 0}
            current = start
            while True:
                ends = out.get(current)
                if not ends:
                    break
                nxt = ends.pop()
                if not ends:
                    del out[current]
                if nxt in seen:
                    cut = seen[nxt]
                    cycle = path[cut:]
                    cycles.append(cycle)
                    for p in cycle[1:]:
                        del seen[p]
                    path = path[:cut + 1]
                    current = nxt
                    if len(path) == 1 and current not in out:
                        break
                else:
                    seen[nxt] = len(path)
                    path.append(nxt)
                    current = nxt
        border, holes = None, []
        for cycle in cycles:
            ring = clean_ring(cycle)
            if O.signed_area2(ring) > 0:
                if border is not None:
                    raise Retry
                border = ring
            else:
                holes.append(ring)
        if border is None:
            raise Retry
        return border, holes

    def polygons(self, cells):
        return [self.polygon(component) for component in self.components(cells)
                if component]


def disjoint_borders(polygons):
    """drops polygons lying in holes of the others once holes are filled"""
    chosen = []
    for border, _ in sorted(polygons, key=lambda p: -abs(
            O.signed_area2(p[0]))):
        edges = O.ring_edges(border)
        if all(O.areal_areal(edges, O.ring_edges(other))
               in (O.DISJOINT, O.TOUCH) for other in chosen):
            chosen.append(border)
    return chosen


def as_kind(rng, kind, polygons):
    """cells' polygons -> an areal geometry of the kind"""
    if not polygons:
        raise Retry
    if kind == 'region':
        return rng.choice(polygons)[0]
    if kind == 'multiregion':
        return disjoint_borders(polygons)
    if kind == 'polygon':
        weights = [1 + 3 * len(holes) for _, holes in polygons]
        return rng.choices(polygons, weights)[0]
    return polygons


def merge_lines(rng, lines, probability):
    """joins collinear adjacent segments"""
    lines = [tuple(line) for line in lines]
    changed = True
    while changed:
        changed = False
        for i in range(len(lines)):
            for j in range(i):
                (a, b), (c, d) = lines[i], lines[j]
                shared = {a, b} & {c, d}
                if len(shared) != 1:
                    continue
                ends = ({a, b} | {c, d}) - shared
                p, q = sorted(ends)
                middle = next(iter(shared))
                if (not O.orient(p, q, middle) and O.on_segment((p, q), middle)
                        and rng.random() < probability):
                    others = [line for k, line in enumerate(lines)
                              if k not in (i, j)]
                    lines = others + [(p, q)]
                    changed = True
                    break
            if changed:
                break
    return lines


def random_segments(rng, count, width, height, pool=(), chords=()):
    """non-crossing non-overlapping segments"""
    result = []
    pool, chords = list(pool), list(chords)
    for _ in range(6 * count):
        if len(result) >= count:
            break
        if chords and rng.random() < 0.4:
            candidate = rng.choice(chords)
        else:
            def pick():
                return (rng.choice(pool) if pool and rng.random() < 0.6
                        else (rng.randint(0, width), rng.randint(0, height)))
            candidate = (pick(), pick())
        if candidate[0] == candidate[1]:
            continue
        if O.valid_multisegment(result + [candidate]):
            result.append(candidate)
    if not result:
        raise Retry
    return result


def pieces(rng, lines, scale, keep, split_probability):
    """sub-segments of lines; coordinates must be multiples of ``scale``"""
    result = []
    for start, end in lines:
        if rng.random() > keep:
            continue
        if rng.random() < split_probability and scale > 1:
            k = rng.randint(1, scale - 1)
            middle = (start[0] + (end[0] - start[0]) // scale * k,
                      start[1] + (end[1] - start[1]) // scale * k)
            halves = [(start, middle), (middle, end)]
            mode = rng.randint(0, 2)
            result += halves if mode == 2 else [halves[mode]]
        else:
            result.append((start, end))
    return result


# ------------------------------------------------------------------ families
# a family: (rng, test_kind, goal_kind) -> (test, goal), integers

def scale_geometry(kind, geometry, k):
    return transform(kind, geometry, lambda p: (p[0] * k, p[1] * k))


def transform(kind, geometry, f):
    if kind == 'point':
        return f(geometry)
    if kind == 'segment':
        return (f(geometry[0]), f(geometry[1]))
    if kind == 'multisegment':
        return [(f(a), f(b)) for a, b in geometry]
    if kind in ('contour', 'region'):
        return [f(p) for p in geometry]
    if kind == 'multiregion':
        return [[f(p) for p in c] for c in geometry]
    if kind == 'polygon':
        return ([f(p) for p in geometry[0]],
                [[f(p) for p in h] for h in geometry[1]])
    return [transform('polygon', p, f) for p in geometry]


def vertices_of(kind, geometry):
    if kind == 'point':
        return [geometry]
    return sorted({p for edge in O.edges(kind, geometry) for p in edge})


def grid_axis(rng, count):
    if rng.random() < 0.7:
        return list(range(count + 1))
    values, current = [0], 0
    for _ in range(count):
        current += rng.choice((1, 1, 2, 3))
        values.append(current)
    return values


def make_grid(rng, max_side=4):
    width, height = rng.randint(1, max_side), rng.randint(1, max_side)
    return Grid(rng, width, height, rng.choice(('quad', 'tri', 'mixed',
                                                'mixed')),
                grid_axis(rng, width), grid_axis(rng, height))


def cell_sets(rng, grid):
    """two related sets of cells"""
    total = len(grid.cells)
    blobs = [grid.blob(rng, rng.randint(1, max(1, total // rng.choice((2, 3,
                                                                      4)))))
             for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.4:
        # everything except something: holes
        whole = set(range(total))
        blobs.append(whole - rng.choice(blobs))
    a = set().union(*rng.sample(blobs, rng.randint(1, min(3, len(blobs)))))
    mode = rng.randint(0, 9)
    if mode == 0:
        b = set(a)
    elif mode == 1:
        b = a | rng.choice(blobs)
    elif mode == 2:
        b = a - rng.choice(blobs)
    elif mode == 3:
        b = set(range(total)) - a
    elif mode == 4:
        components = grid.components(a)
        b = set().union(*rng.sample(components, rng.randint(
                min(1, len(components)), len(components))))
    elif mode == 5:
        outside = set(range(total)) - a
        b = set().union(*(c for c in grid.components(outside)
                          if rng.random() < 0.6), set())
    elif mode == 6:
        # the other's holes and border filled in
        outside = grid.components(set(range(total)) - a)
        b = a.union(*(c for c in outside if rng.random() < 0.5))
    else:
        b = set().union(*rng.sample(blobs, rng.randint(1, min(3,
                                                              len(blobs)))))
    if not b:
        b = set(a) or {0}
    if not a:
        a = {0}
    return (a, b) if rng.random() < 0.5 else (b, a)


def linear_on_grid(rng, kind, grid, cells, goal_edges, k):
    """linear geometry whose pieces run along a grid already scaled by k"""
    scaled = [((a[0] * k, a[1] * k), (b[0] * k, b[1] * k))
              for a, b in grid.lines]
    points = sorted({p for line in scaled for p in line}
                    | {p for edge in goal_edges for p in edge})
    max_x = max(p[0] for p in points)
    max_y = max(p[1] for p in points)
    if kind == 'segment':
        mode = rng.randint(0, 3)
        if mode == 0:
            lines = pieces(rng, goal_edges, k, 1, 0.7)
            return rng.choice(lines)
        if mode == 1:
            return rng.choice(merge_lines(rng, scaled, 0.8))
        segment = (rng.choice(points), rng.choice(points))
        if mode == 3:
            segment = (segment[0], (rng.randint(-1, max_x + 1),
                                    rng.randint(-1, max_y + 1)))
        if segment[0] == segment[1]:
            raise Retry
        return segment
    if kind == 'multisegment':
        mode = rng.randint(0, 4)
        if mode == 0:
            lines = pieces(rng, goal_edges, k, rng.random(), rng.random())
        elif mode == 1:
            lines = [line for line in scaled if rng.random() < rng.choice(
                    (0.2, 0.5))]
            lines = merge_lines(rng, lines, rng.random())
            lines = pieces(rng, lines, k, 1, rng.random() * 0.5)
        elif mode == 2:
            lines = random_segments(rng, rng.randint(1, 6), max_x, max_y,
                                    points, scaled)
        elif mode == 3:
            lines = merge_lines(rng, goal_edges, 1)
            lines = pieces(rng, lines, k, rng.choice((1, 0.8)), 0.5)
            for _ in range(rng.randint(0, 3)):
                candidate = (rng.choice(points), (rng.randint(0, max_x),
                                                  rng.randint(0, max_y)))
                if (candidate[0] != candidate[1]
                        and O.valid_multisegment(lines + [candidate])):
                    lines.append(candidate)
        else:
            start, lines = rng.choice(points), []
            for _ in range(rng.randint(1, 6)):
                end = (rng.choice(points) if rng.random() < 0.7
                       else (rng.randint(0, max_x), rng.randint(0, max_y)))
                if end != start and O.valid_multisegment(lines
                                                         + [(start, end)]):
                    lines.append((start, end))
                    start = end
        if not lines or not O.valid_multisegment(lines):
            raise Retry
        return lines
    # contour
    if rng.random() < 0.5 and cells:
        polygons = grid.polygons(cells)
        rings = [r for border, holes in polygons for r in [border, *holes]]
        return [(x * k, y * k) for x, y in rng.choice(rings)]
    return random_contour(rng, max_x, max_y, rng.randint(3, 7), points)


def family_cells(rng, test_kind, goal_kind, max_side=4):
    """both geometries drawn on the same subdivision of the plane"""
    grid = make_grid(rng, max_side)
    k = rng.choice((1, 2, 4, 12)) if test_kind in LINEAR else 1
    first, second = cell_sets(rng, grid)
    if goal_kind in AREAL:
        goal = scale_geometry(goal_kind, as_kind(rng, goal_kind,
                                                 grid.polygons(second)), k)
        goal_edges = O.edges(goal_kind, goal)
    else:
        base = [((a[0] * k, a[1] * k), (b[0] * k, b[1] * k))
                for border, holes in grid.polygons(second)
                for ring in [border, *holes] for a, b in O.ring_edges(ring)]
        goal = linear_on_grid(rng, goal_kind, grid, second, base, k)
        goal_edges = O.edges(goal_kind, goal)
    if test_kind in AREAL:
        test = scale_geometry(test_kind, as_kind(rng, test_kind,
                                                 grid.polygons(first)), k)
    elif test_kind == 'point':
        test = random_point(rng, goal_kind, goal)
    else:
        test = linear_on_grid(rng, test_kind, grid, first, goal_edges, k)
    return test, goal


def random_point(rng, goal_kind, goal):
    edges = O.edges(goal_kind, goal)
    xs = [p[0] for e in edges for p in e]
    ys = [p[1] for e in edges for p in e]
    mode = rng.randint(0, 4)
    if mode == 0:
        return rng.choice(rng.choice(edges))
    if mode == 1:
        (ax, ay), (bx, by) = rng.choice(edges)
        from math import gcd
        g = gcd(bx - ax, by - ay)
        t = rng.randint(0, g)
        return (ax + (bx - ax) // g * t, ay + (by - ay) // g * t)
    if mode == 2:
        # level with a vertex: the ray-casting corner case
        return (rng.randint(min(xs) - 1, max(xs) + 1), rng.choice(ys))
    if mode == 3:
        return (rng.choice(xs), rng.randint(min(ys) - 1, max(ys) + 1))
    return (rng.randint(min(xs) - 1, max(xs) + 1),
            rng.randint(min(ys) - 1, max(ys) + 1))


def small_areal(rng, kind, width, height, pool=()):
    if kind == 'region':
        return random_contour(rng, width, height, rng.randint(3, 8), pool)
    if kind == 'multiregion':
        result = []
        for _ in range(rng.randint(2, 7)):
            try:
                ring = random_contour(rng, width, height,
                                      rng.choice((3, 3, 4, 5)),
                                      list(pool) + [p for r in result
                                                    for p in r])
            except Retry:
                continue
            if O.valid_multiregion(result + [ring]):
                result.append(ring)
        if not result:
            raise Retry
        return result
    if kind == 'polygon':
        border = random_contour(rng, width, height, rng.randint(3, 8), pool)
        holes = []
        for _ in range(rng.randint(0, 6)):
            try:
                ring = random_contour(rng, width, height,
                                      rng.choice((3, 3, 4, 5)),
                                      list(pool) + border)
            except Retry:
                continue
            if O.valid_polygon((border, holes + [ring])):
                holes.append(ring)
        return border, holes
    result = []
    for _ in range(rng.randint(2, 5)):
        try:
            polygon = small_areal(rng, 'polygon', width, height, pool)
        except Retry:
            continue
        if O.valid_multipolygon(result + [polygon]):
            result.append(polygon)
    if not result:
        raise Retry
    return result


def small_any(rng, kind, width, height, pool=(), chords=()):
    if kind in AREAL:
        return small_areal(rng, kind, width, height, pool)
    if kind == 'segment':
        return random_segments(rng, 1, width, height, pool, chords)[0]
    if kind == 'multisegment':
        return random_segments(rng, rng.randint(1, 7), width, height, pool,
                               chords)
    return random_contour(rng, width, height, rng.randint(3, 8), pool)


def family_dense(rng, test_kind, goal_kind):
    """random geometries on a tiny grid, vertices shared on purpose"""
    width, height = rng.randint(2, 6), rng.randint(2, 6)
    goal = small_any(rng, goal_kind, width, height)
    edges = O.edges(goal_kind, goal)
    pool = vertices_of(goal_kind, goal) if rng.random() < 0.7 else ()
    if test_kind == 'point':
        return random_point(rng, goal_kind, goal), goal
    return small_any(rng, test_kind, width, height, pool, edges), goal


def family_wide(rng, test_kind, goal_kind):
    """sparser, more general position, more vertices"""
    width, height = rng.randint(8, 40), rng.randint(8, 40)

    def build(kind):
        if kind in ('region', 'contour') and rng.random() < 0.7:
            return star_contour(rng, (width // 2 + rng.randint(-4, 4),
                                      height // 2 + rng.randint(-4, 4)),
                                rng.randint(4, max(width, height)),
                                rng.randint(5, 24))
        if kind == 'polygon' and rng.random() < 0.8:
            center = (width // 2, height // 2)
            border = star_contour(rng, center, width, rng.randint(5, 16))
            holes = []
            for _ in range(rng.randint(1, 5)):
                try:
                    hole = star_contour(rng, (rng.randint(0, width),
                                              rng.randint(0, height)),
                                        rng.randint(2, width // 3),
                                        rng.randint(4, 9))
                except Retry:
                    continue
                if O.valid_polygon((border, holes + [hole])):
                    holes.append(hole)
            return border, holes
        return small_any(rng, kind, width, height)

    goal = build(goal_kind)
    if test_kind == 'point':
        return random_point(rng, goal_kind, goal), goal
    if rng.random() < 0.3 and test_kind in LINEAR:
        return (small_any(rng, test_kind, width, height,
                          vertices_of(goal_kind, goal),
                          O.edges(goal_kind, goal)), goal)
    return build(test_kind), goal


DIRECTIONS = [(x, y) for x in range(-3, 4) for y in range(-3, 4)
              if (x, y) != (0, 0) and __import__('math').gcd(x, y) == 1]
DIRECTIONS.sort(key=__import__('functools').cmp_to_key(
        lambda a, b: O.angle_compare((a, 0), (b, 0))))


def fan(rng, kind, directions, length):
    """geometry with several edges meeting in the origin"""
    count = len(directions)

    def tip(i):
        d = directions[i % count]
        l = rng.randint(1, length)
        return (d[0] * l, d[1] * l)

    if kind == 'segment':
        i = rng.randrange(count)
        d = directions[i]
        if rng.random() < 0.6:
            l, m = rng.randint(1, length), rng.randint(1, length)
            return ((d[0] * l, d[1] * l), (-d[0] * m, -d[1] * m))
        return ((0, 0), tip(i))
    if kind == 'multisegment':
        chosen = sorted(rng.sample(range(count), rng.randint(1,
                                                             min(6, count))))
        lines = []
        for i in chosen:
            end = tip(i)
            if rng.random() < 0.15 and rng.random() < 0.8:
                back = (-directions[i][0], -directions[i][1])
                if back not in [directions[j] for j in chosen]:
                    lines.append((back, end))
                    continue
            lines.append(((0, 0), end))
        if not O.valid_multisegment(lines):
            raise Retry
        return lines
    if kind in ('contour', 'region'):
        i, j = sorted(rng.sample(range(count), 2))
        a, b = tip(i), tip(j)
        if O.orient((0, 0), a, b) > 0 and rng.random() < 0.6:
            ring = [(0, 0), a, b]
        else:
            far = 4 * length
            corners = [(far, far), (-far, far), (-far, -far), (far, -far)]
            if rng.random() < 0.5:
                a, b = b, a
            inside = [c for c in corners if between(a, c, b)]
            inside.sort(key=__import__('functools').cmp_to_key(
                    lambda p, q: sector_compare(a, p, q)))
            ring = [(0, 0), a, *inside, b]
        ring = clean_ring(ring)
        if not O.valid_contour(ring):
            raise Retry
        return ring
    if kind == 'multiregion':
        result = []
        for _ in range(rng.randint(2, 6)):
            i = rng.randrange(count)
            j = (i + rng.randint(1, max(1, count // 3))) % count
            a, b = tip(i), tip(j)
            ring = [(0, 0), a, b]
            if (O.orient(*ring) > 0
                    and O.valid_multiregion(result + [ring])):
                result.append(ring)
        if not result:
            raise Retry
        return result
    if kind == 'polygon':
        if rng.random() < 0.5:
            far = 3 * length + rng.randint(1, 3)
            border = [(far, far), (-far, far), (-far, -far), (far, -far)]
        else:
            border = fan(rng, 'region', directions, length + 1)
        holes = []
        for _ in range(rng.randint(0, 4)):
            i = rng.randrange(count)
            j = (i + rng.randint(1, max(1, count // 3))) % count
            ring = [(0, 0), tip(i), tip(j)]
            if (O.orient(*ring) > 0
                    and O.valid_polygon((border, holes + [ring]))):
                holes.append(ring)
        return border, holes
    result = []
    for _ in range(rng.randint(2, 4)):
        try:
            polygon = fan(rng, 'polygon', directions, length)
        except Retry:
            continue
        if O.valid_multipolygon(result + [polygon]):
            result.append(polygon)
    for region in fan(rng, 'multiregion', directions, length):
        if O.valid_multipolygon(result + [(region, [])]):
            result.append((region, []))
    return result


def between(a, c, b):
    """c strictly inside the counterclockwise sector from a to b"""
    if O.cross(*a, *b) > 0 :
        return O.cross(*a, *c) > 0 and O.cross(*c, *b) > 0
    return not (O.cross(*b, *c) >= 0 and O.cross(*c, *a) >= 0)


def sector_compare(a, p, q):
    def key(d):
        value = O.cross(*a, *d)
        dot = a[0] * d[0] + a[1] * d[1]
        return (0 if value > 0 or value == 0 and dot > 0 else 1)
    if key(p) != key(q):
        return key(p) - key(q)
    value = O.cross(*p, *q)
    return -1 if value > 0 else (1 if value < 0 else 0)


def family_fan(rng, test_kind, goal_kind):
    """many edges through one point"""
    directions = sorted(rng.sample(range(len(DIRECTIONS)),
                                   rng.randint(3, 10)))
    directions = [DIRECTIONS[i] for i in directions]
    length = rng.randint(1, 3)
    goal = fan(rng, goal_kind, directions, length)
    if test_kind == 'point':
        return ((0, 0) if rng.random() < 0.3
                else random_point(rng, goal_kind, goal)), goal
    if rng.random() < 0.5:
        extra = [DIRECTIONS[rng.randrange(len(DIRECTIONS))]
                 for _ in range(3)]
        directions = sorted(set(directions + extra), key=DIRECTIONS.index)
    return fan(rng, test_kind, directions, length), goal


def family_derived(rng, test_kind, goal_kind):
    """test obtained from goal by a small edit"""
    source = rng.choice((family_dense, family_cells, family_wide))
    if test_kind == 'point':
        return source(rng, test_kind, goal_kind)
    base_kind = goal_kind
    _, goal = source(rng, 'point', goal_kind)
    goal = scale_geometry(goal_kind, goal, 2)
    if (test_kind in AREAL) != (goal_kind in AREAL):
        # boundary of the goal, edited
        lines = O.edges(goal_kind, goal)
        if test_kind == 'segment':
            lines = pieces(rng, lines, 2, 1, 0.3)
            a, b = rng.choice(lines)
            if rng.random() < 0.5:
                b = (b[0] + rng.randint(-2, 2), b[1] + rng.randint(-2, 2))
            if rng.random() < 0.3:
                a = (2 * a[0] - b[0], 2 * a[1] - b[1])
            if a == b:
                raise Retry
            return (a, b), goal
        if test_kind == 'multisegment':
            lines = pieces(rng, lines, 2, rng.choice((1, 1, 0.7, 0.4)),
                           rng.choice((0, 0, 0.3)))
            if rng.random() < 0.6 and lines:
                i = rng.randrange(len(lines))
                a, b = lines[i]
                b = (b[0] + rng.randint(-2, 2), b[1] + rng.randint(-2, 2))
                lines = lines[:i] + [(a, b)] + lines[i + 1:]
            if not lines or not O.valid_multisegment(lines):
                raise Retry
            return lines, goal
        ring = list(rng.choice(O.rings(goal_kind, goal)))
        return edit_ring(rng, ring), goal
    # same dimension
    if test_kind in AREAL:
        parts = (([(goal, [])] if goal_kind == 'region' else
                  [(c, []) for c in goal] if goal_kind == 'multiregion' else
                  [goal] if goal_kind == 'polygon' else list(goal)))
        parts = [(list(b), [list(h) for h in hs]) for b, hs in parts]
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            i = rng.randrange(len(parts))
            border, holes = parts[i]
            action = rng.randint(0, 6)
            if action == 0 and len(parts) > 1:
                del parts[i]
            elif action == 1:
                parts[i] = (edit_ring(rng, border), holes)
            elif action == 2 and holes:
                j = rng.randrange(len(holes))
                parts[i] = (border, holes[:j] + holes[j + 1:])
            elif action == 3 and holes:
                j = rng.randrange(len(holes))
                parts[i] = (border, holes[:j] + [edit_ring(rng, holes[j])]
                            + holes[j + 1:])
            elif action == 4 and holes:
                # a hole becomes a part
                parts.append((rng.choice(holes), []))
            elif action == 5:
                xs = [p[0] for p in border]
                ys = [p[1] for p in border]
                x, y = min(xs), min(ys)
                try:
                    hole = random_contour(rng, max(xs) - x, max(ys) - y, 3,
                                          [(p[0] - x, p[1] - y)
                                           for p in border])
                except Retry:
                    continue
                hole = [(p[0] + x, p[1] + y) for p in hole]
                if O.valid_polygon((border, holes + [hole])):
                    parts[i] = (border, holes + [hole])
            else:
                dx, dy = rng.randint(-2, 2), rng.randint(-2, 2)
                parts[i] = transform('polygon', parts[i],
                                     lambda p: (p[0] + dx, p[1] + dy))
        if test_kind == 'region':
            test = rng.choice([r for b, hs in parts for r in [b, *hs]])
        elif test_kind == 'multiregion':
            test = [b for b, _ in parts]
            if rng.random() < 0.3:
                test = rng.choice(parts)[1]
        elif test_kind == 'polygon':
            test = rng.choice(parts)
        else:
            test = parts
        if not test or not O.valid(test_kind, test):
            raise Retry
        return test, goal
    lines = O.edges(goal_kind, goal)
    if test_kind == 'contour':
        if goal_kind == 'contour':
            return edit_ring(rng, goal), goal
        return family_dense(rng, test_kind, goal_kind)
    if test_kind == 'segment':
        chosen = merge_lines(rng, lines, 1) if rng.random() < 0.5 else lines
        a, b = rng.choice(pieces(rng, chosen, 2, 1, 0.4))
        if rng.random() < 0.3:
            b = (2 * b[0] - a[0], 2 * b[1] - a[1])
        return (a, b), goal
    lines = pieces(rng, lines, 2, rng.choice((1, 1, 0.7, 0.4)),
                   rng.choice((0, 0.3, 0.6)))
    lines = merge_lines(rng, lines, rng.choice((0, 0.5, 1)))
    if rng.random() < 0.5 and lines:
        i = rng.randrange(len(lines))
        a, b = lines[i]
        lines = lines[:i] + lines[i + 1:]
        candidate = ((a, (2 * b[0] - a[0], 2 * b[1] - a[1]))
                     if rng.random() < 0.5 else
                     (a, (b[0] + rng.randint(-2, 2),
                          b[1] + rng.randint(-2, 2))))
        lines.append(candidate)
    if not lines or not O.valid_multisegment(lines):
        raise Retry
    return lines, goal


def edit_ring(rng, ring):
    for _ in range(20):
        result = list(ring)
        action = rng.randint(0, 4)
        i = rng.randrange(len(result))
        if action == 0:
            x, y = result[i]
            result[i] = (x + rng.randint(-2, 2), y + rng.randint(-2, 2))
        elif action == 1 and len(result) > 3:
            del result[i]
        elif action == 2:
            (ax, ay), (bx, by) = result[i - 1], result[i]
            middle = ((ax + bx) // 2 + rng.randint(-1, 1),
                      (ay + by) // 2 + rng.randint(-1, 1))
            result.insert(i, middle)
        elif action == 3:
            dx, dy = rng.randint(-2, 2), rng.randint(-2, 2)
            result = [(x + dx, y + dy) for x, y in result]
        result = clean_ring(result)
        if O.valid_contour(result):
            return result
    raise Retry


def nest_ring(style, level, turn):
    r = level
    if style == 'square':
        ring = [(-r, -r), (r, -r), (r, r), (-r, r)]
    elif style == 'diamond':
        ring = [(0, -r), (r, 0), (0, r), (-r, 0)]
    elif style == 'mixed':
        # the corners of a diamond may touch the sides of a square
        return nest_ring('square' if level % 2 else 'diamond',
                         (level + 1) // 2 * 2 - level % 2, turn)
    elif style == 'kite':
        # all rings share one vertex
        ring = [(0, 0), (r, -r * r), (3 * r, 0), (r, r * r)]
    else:
        ring = [(-r, -2 * r), (2 * r, -r), (r, 2 * r), (-2 * r, r)]
    return ring[turn:] + ring[:turn]


def family_nested(rng, test_kind, goal_kind):
    """runs of concentric rings, several nests side by side"""
    nests, lines = [], []
    for index in range(rng.choice((1, 1, 1, 2, 2, 3))):
        style = rng.choice(('square', 'diamond', 'kite', 'skew', 'mixed'))
        depth = rng.randint(2, 6)
        shift = (index * 32 * rng.choice((1, 1, 2)), rng.choice((0, 0, 5)))
        nests.append([[(x + shift[0], y + shift[1])
                       for x, y in nest_ring(style, level, 0)]
                      for level in range(1, depth + 1)])
        for ring in nests[-1]:
            lines += O.ring_edges(ring)
        for first, second in zip(nests[-1], nests[-1][1:]):
            lines += [pair for pair in zip(first, second)
                      if pair[0] != pair[1] and rng.random() < 0.4]

    def choose():
        result = []
        for rings in nests:
            keep = [rng.random() < 0.55 for _ in rings]
            result.append(keep)
        return result

    def polygons(choice):
        result = []
        for rings, keep in zip(nests, choice):
            level = 0
            while level < len(rings):
                if not keep[level]:
                    level += 1
                    continue
                start = level
                while level < len(rings) and keep[level]:
                    level += 1
                result.append((rings[level - 1],
                               [rings[start - 1]] if start else []))
        # holes of one polygon from several nests are made elsewhere
        return result

    def with_holes(kind, choice):
        if kind != 'polygon' or rng.random() < 0.5:
            return as_kind(rng, kind, polygons(choice))
        # one big polygon, nests punched out
        xs = [p[0] for rings in nests for p in rings[-1]]
        ys = [p[1] for rings in nests for p in rings[-1]]
        m = rng.choice((1, 1, 0))
        border = [(min(xs) - m, min(ys) - m), (max(xs) + m, min(ys) - m),
                  (max(xs) + m, max(ys) + m), (min(xs) - m, max(ys) + m)]
        return border, [rings[rng.randrange(len(rings))] for rings in nests
                        if rng.random() < 0.8]

    first = choose()
    mode = rng.randint(0, 4)
    if mode == 0:
        second = first
    elif mode == 1:
        second = [[not x for x in keep] for keep in first]
    elif mode == 2:
        second = [[x or rng.random() < 0.3 for x in keep] for keep in first]
    else:
        second = choose()
    if goal_kind in AREAL:
        goal = with_holes(goal_kind, second)
        edges = O.edges(goal_kind, goal)
    else:
        edges = lines
        goal = nested_linear(rng, goal_kind, nests, lines, lines)
    if test_kind == 'point':
        return random_point(rng, goal_kind, goal), goal
    if test_kind in AREAL:
        return with_holes(test_kind, first), goal
    return nested_linear(rng, test_kind, nests, lines, edges), goal


def nested_linear(rng, kind, nests, lines, edges):
    if kind == 'contour':
        return rng.choice(rng.choice(nests))
    points = [p for rings in nests for ring in rings for p in ring]
    if kind == 'segment':
        if rng.random() < 0.4:
            return rng.choice(lines)
        a, b = rng.choice(points), rng.choice(points)
        if a == b:
            raise Retry
        return (a, b)
    source = edges if rng.random() < 0.6 else lines
    probability = rng.choice((0.3, 0.6, 1))
    result = [line for line in source if rng.random() < probability]
    if rng.random() < 0.3:
        result = merge_lines(rng, result, 0.7)
    for _ in range(rng.choice((0, 0, 1, 3))):
        a, b = rng.choice(points), rng.choice(points)
        if a != b and O.valid_multisegment(result + [(a, b)]):
            result.append((a, b))
    if not result:
        raise Retry
    return result


def family_big(rng, test_kind, goal_kind):
    """the subdivision family with more cells and components"""
    return family_cells(rng, test_kind, goal_kind, rng.choice((6, 7, 8)))


def replace_vertex(rng, kind, geometry, step):
    """moves one vertex (all its occurrences, mostly) by a tiny step"""
    vertex = rng.choice(vertices_of(kind, geometry))
    target = (vertex[0] + rng.choice((-step, 0, step)),
              vertex[1] + rng.choice((-step, 0, step)))
    left = [rng.randint(1, 3) if rng.random() < 0.3 else 1 << 30]

    def move(p):
        if p == vertex and left[0]:
            left[0] -= 1
            return target
        return p

    return transform(kind, geometry, move)


def family_perturbed(rng, test_kind, goal_kind):
    """special position, then broken by one unit of a very fine grid"""
    source = rng.choice((family_cells, family_dense, family_fan,
                         family_derived, family_nested))
    test, goal = source(rng, test_kind, goal_kind)
    k = rng.choice((3, 16, 1 << 20, 10 ** 9, 1 << 52, 1 << 60, 10 ** 25))
    test = scale_geometry(test_kind, test, k)
    goal = scale_geometry(goal_kind, goal, k)
    for _ in range(rng.choice((1, 1, 1, 2, 4))):
        if test_kind == 'point' or rng.random() < 0.6:
            if test_kind == 'point':
                test = (test[0] + rng.randint(-1, 1),
                        test[1] + rng.randint(-1, 1))
            elif rng.random() < 0.3:
                dx, dy = rng.randint(-1, 1), rng.randint(-1, 1)
                test = transform(test_kind, test,
                                 lambda p: (p[0] + dx, p[1] + dy))
            else:
                test = replace_vertex(rng, test_kind, test, 1)
        else:
            goal = replace_vertex(rng, goal_kind, goal, 1)
    return test, goal


def line_pieces(rng, marks, direction, origin, keep):
    cuts = sorted(rng.sample(marks, rng.randint(2, len(marks))))
    result = []
    for a, b in zip(cuts, cuts[1:]):
        if rng.random() < keep:
            result.append(tuple((origin[0] + direction[0] * t,
                                 origin[1] + direction[1] * t)
                                for t in (a, b)))
    return result


def single_line(rng, test_kind, goal_kind):
    """nothing but pieces of one line, often of the same stretch of it"""
    direction = rng.choice(DIRECTIONS)
    marks = sorted(rng.sample(range(-8, 9), rng.randint(2, 7)))

    def point(t):
        return direction[0] * t, direction[1] * t

    def build(kind):
        low, high = marks[0], marks[-1]
        if rng.random() < 0.3:
            low += rng.choice((-1, 1, 2))
        if rng.random() < 0.3:
            high += rng.choice((-2, -1, 1))
        if low >= high:
            raise Retry
        if kind == 'segment':
            return point(low), point(high)
        cuts = sorted({low, high} | {t for t in marks if low < t < high
                                     and rng.random() < 0.8})
        keep = rng.choice((1, 0.8, 0.6))
        result = [(point(a), point(b)) for a, b in zip(cuts, cuts[1:])
                  if rng.random() < keep]
        if not result:
            raise Retry
        return result

    goal = build(goal_kind)
    return (random_point(rng, goal_kind, goal) if test_kind == 'point'
            else build(test_kind)), goal


def family_collinear(rng, test_kind, goal_kind):
    """pieces of one or two lines against each other, some transversals"""
    if goal_kind not in ('segment', 'multisegment') or test_kind == 'contour':
        return family_dense(rng, test_kind, goal_kind)
    if rng.random() < 0.4:
        return single_line(rng, test_kind, goal_kind)
    directions = [DIRECTIONS[rng.randrange(len(DIRECTIONS))]
                  for _ in range(rng.choice((1, 1, 1, 2)))]
    marks = sorted(rng.sample(range(-8, 9), rng.randint(3, 8)))

    def build(kind):
        lines = []
        for index, direction in enumerate(directions):
            origin = (0, 0)
            lines += line_pieces(rng, marks, direction, origin,
                                 rng.choice((1, 1, 0.8, 0.5)))
        if kind == 'segment':
            if not lines:
                raise Retry
            if rng.random() < 0.5:
                direction = rng.choice(directions)
                a, b = rng.sample(marks, 2)
                return tuple((direction[0] * t, direction[1] * t)
                             for t in (a, b))
            return rng.choice(lines)
        for _ in range(rng.choice((0, 0, 0, 1, 2, 4))):
            direction = rng.choice(directions)
            t = rng.choice(marks)
            a = (direction[0] * t, direction[1] * t)
            b = (a[0] + rng.randint(-4, 4), a[1] + rng.randint(-4, 4))
            if a != b and O.valid_multisegment(lines + [(a, b)]):
                lines.append((a, b))
        if not lines or not O.valid_multisegment(lines):
            raise Retry
        return lines

    goal = build(goal_kind)
    if test_kind == 'point':
        return random_point(rng, goal_kind, goal), goal
    if rng.random() < 0.4 and goal_kind == 'multisegment':
        whole = merge_lines(rng, goal, rng.choice((1, 1, 0.5)))
        if test_kind == 'segment':
            return rng.choice(whole), goal
        return whole, goal
    return build(test_kind), goal


# kinds whose pictures side by side make up a compound one
PART_KINDS = {'multisegment': ('segment', 'segment', 'contour',
                               'multisegment'),
              'multiregion': ('region', 'region', 'multiregion'),
              'polygon': ('region', 'region', 'multiregion'),
              'multipolygon': ('polygon', 'polygon', 'region',
                               'multipolygon')}


def family_beside(rng, test_kind, goal_kind):
    """small pairs side by side, mostly not overlapping ones, put together;
    for polygons they are holes of a frame"""
    if test_kind not in PART_KINDS and goal_kind not in PART_KINDS:
        return family_derived(rng, test_kind, goal_kind)
    count = rng.choice((1, 2, 2, 2, 3, 3, 4, 6))
    single = rng.randrange(count)
    theme = random_theme(rng)
    x = y = 0
    across = rng.random() < 0.7
    tests, goals = [], []
    for index in range(count):
        t = (rng.choice(PART_KINDS[test_kind]) if test_kind in PART_KINDS
             else test_kind)
        g = (rng.choice(PART_KINDS[goal_kind]) if goal_kind in PART_KINDS
             else goal_kind)
        test, goal = quiet_pair(rng, t, g, theme)
        presence = random_presence(rng, theme)
        with_test = (presence & 1 if test_kind in PART_KINDS
                     else index == single)
        with_goal = (presence & 2 if goal_kind in PART_KINDS
                     else index == single)
        points = ((vertices_of(t, test) if with_test else [])
                  + (vertices_of(g, goal) if with_goal else []))
        if not points:
            continue
        x0, y0 = min(p[0] for p in points), min(p[1] for p in points)
        dx, dy = x - x0, y - y0

        def move(p):
            return (p[0] + dx, p[1] + dy)

        if with_test:
            tests.append((t, transform(t, test, move)))
        if with_goal:
            goals.append((g, transform(g, goal, move)))
        gap = rng.choice((1, 1, 2, 5))
        if across:
            x += max(p[0] for p in points) - x0 + gap
        else:
            y += max(p[1] for p in points) - y0 + gap
        if rng.random() < 0.3:
            across = not across
            x, y = ((max(move(p)[0] for p in points) + gap), y) if across \
                else (x, max(move(p)[1] for p in points) + gap)
    if not tests or not goals:
        raise Retry
    everything = [p for kind, part in tests + goals
                  for p in vertices_of(kind, part)]
    margin = rng.randint(1, 3)
    return (put_together(rng, test_kind, tests, everything, margin),
            put_together(rng, goal_kind, goals, everything,
                         margin if rng.random() < 0.4
                         else rng.randint(1, 3)))


THEMES = {'in': ((O.EQUAL, O.WITHIN, O.ENCLOSED, O.COMPONENT), (2, 3, 3, 3)),
          'out': ((O.EQUAL, O.COVER, O.ENCLOSES, O.COMPOSITE), (1, 3, 3, 3)),
          'apart': ((O.TOUCH, O.DISJOINT), (1, 2, 3, 3)),
          'within': ((O.WITHIN,), (2, 3, 3, 3)),
          'around': ((O.COVER,), (1, 3, 3, 3)),
          'same': ((O.EQUAL,), (1, 2, 3, 3, 3, 3, 3))}


def random_theme(rng):
    """relations of parts which do not contradict one another"""
    return rng.choice((None, None, 'in', 'out', 'apart', 'same', 'within',
                       'around'))


def random_presence(rng, theme):
    """1 - part of the test, 2 - part of the goal, 3 - both"""
    if theme is None or rng.random() < 0.05:
        return rng.choice((1, 1, 2, 3, 3, 3, 3))
    return rng.choice(THEMES[theme][1])


def quiet_pair(rng, t, g, theme=None):
    """a small pair, one of several tries when pieces of it overlap"""
    allowed = None if theme is None else THEMES[theme][0]
    for _ in range(6):
        if t == g and (rng.random() < 0.1 or theme == 'same'):
            geometry = quiet_part(rng, t)
            return geometry, geometry
        source = rng.choice((family_cells, family_dense, family_derived,
                             family_nested, family_fan))
        try:
            test, goal = source(rng, t, g)
        except Retry:
            continue
        if (t != 'point' and not O.valid(t, test)) or not O.valid(g, goal):
            continue
        if t == 'point' or allowed is None and rng.random() < 0.2:
            return test, goal
        relation = O.relate(t, test, g, goal)
        if allowed is None or t not in AREAL:
            if relation not in (O.OVERLAP, O.CROSS, O.DISJOINT):
                return test, goal
        elif relation in allowed:
            return test, goal
        elif t == g and relation not in (O.OVERLAP, O.TOUCH, O.DISJOINT):
            if theme not in ('apart', 'same'):
                return goal, test
    raise Retry


def quiet_part(rng, kind):
    for _ in range(6):
        try:
            _, geometry = family_cells(rng, kind, kind)
        except Retry:
            continue
        if O.valid(kind, geometry):
            return geometry
    raise Retry


def put_together(rng, kind, parts, everything, margin):
    if kind not in PART_KINDS:
        return parts[0][1]
    if kind == 'multisegment':
        return [e for part_kind, part in parts
                for e in O.edges(part_kind, part)]
    regions = [c for part_kind, part in parts if part_kind != 'polygon'
               and part_kind != 'multipolygon'
               for c in (part if part_kind == 'multiregion' else [part])]
    if kind == 'multiregion':
        return regions
    if kind == 'polygon':
        xs = [p[0] for p in everything]
        ys = [p[1] for p in everything]
        return ([(min(xs) - margin, min(ys) - margin),
                 (max(xs) + margin, min(ys) - margin),
                 (max(xs) + margin, max(ys) + margin),
                 (min(xs) - margin, max(ys) + margin)], regions)
    polygons = [(c, []) for c in regions]
    for part_kind, part in parts:
        if part_kind == 'polygon':
            polygons.append(part)
        elif part_kind == 'multipolygon':
            polygons += part
    return polygons


def framed_kind(kind):
    return kind in ('polygon', 'multipolygon')


def family_framed(rng, test_kind, goal_kind):
    """small parts in a row; frames around stretches of the row make holes of
    the parts within, the other parts stay aside"""
    if not (framed_kind(test_kind) or framed_kind(goal_kind)):
        return family_beside(rng, test_kind, goal_kind)
    count = rng.choice((1, 2, 2, 3, 3, 4))
    theme = random_theme(rng)
    x = 0
    cells = []
    for index in range(count):
        test, goal = quiet_pair(rng, 'region' if test_kind in AREAL
                                else test_kind, 'region' if goal_kind in AREAL
                                else goal_kind, theme)
        presence = random_presence(rng, theme)
        items = []
        if presence & 1:
            items.append((True, test_kind if test_kind not in AREAL
                          else 'region', test))
        if presence & 2:
            items.append((False, goal_kind if goal_kind not in AREAL
                          else 'region', goal))
        points = [p for _, kind, part in items
                  for p in vertices_of(kind, part)]
        x0, y0 = min(p[0] for p in points), min(p[1] for p in points)

        def move(p):
            return p[0] + x - x0, p[1] - y0

        cells.append([(is_test, kind, transform(kind, part, move))
                      for is_test, kind, part in items])
        x += max(p[0] for p in points) - x0 + rng.choice((2, 2, 3, 4))
    spans = []
    for cell in cells:
        xs = [p[0] for _, kind, part in cell for p in vertices_of(kind, part)]
        spans.append((min(xs), max(xs)))
    height = max(p[1] for cell in cells for _, kind, part in cell
                 for p in vertices_of(kind, part))

    def frame(start, stop, like=None):
        if like is not None and rng.random() < 0.6:
            low, high, bottom, top = like
        else:
            low = spans[start][0] - rng.choice((1, 1, 2))
            high = spans[stop - 1][1] + rng.choice((1, 1, 2))
            # up to the next part
            if start and rng.random() < 0.4:
                low = spans[start - 1][1]
            if stop < count and rng.random() < 0.4:
                high = spans[stop][0]
            bottom = -rng.choice((0, 1, 1, 2))
            top = height + rng.choice((0, 1, 1, 2))
        return low, high, bottom, top

    def stretch():
        start = rng.choice((0, 0, rng.randrange(count)))
        return start, rng.choice((count, rng.randint(start + 1, count)))

    first = stretch()
    second = first if rng.random() < 0.5 else stretch()
    first_box = frame(*first)
    second_box = frame(*second, first_box if first == second else None)

    def outline(box):
        low, high, bottom, top = box
        corners = []
        for corner in ((low, bottom), (high, bottom), (high, top),
                       (low, top)):
            if rng.random() < 0.12:
                # without the corner
                dx = 1 if corner[0] == low else -1
                dy = 1 if corner[1] == bottom else -1
                pair = [(corner[0] + dx, corner[1]), (corner[0],
                                                      corner[1] + dy)]
                if (dx > 0) is (dy > 0):
                    pair.reverse()
                corners += pair
            else:
                corners.append(corner)
        return corners

    def draw(kind, is_test, span, box):
        own = [[part for flag, _, part in cell if flag is is_test]
               for cell in cells]
        inner = [part for i, parts in enumerate(own)
                 if span[0] <= i < span[1] for part in parts]
        outer = [part for i, parts in enumerate(own)
                 if not span[0] <= i < span[1] for part in parts]
        if kind == 'polygon':
            return outline(box), inner
        if kind == 'multipolygon':
            # some of the holes are not empty
            return [(outline(box), inner)] + [(part, []) for part in outer]
        parts = inner + outer
        if not parts:
            raise Retry
        if kind == 'multiregion':
            if rng.random() < 0.15:
                return [outline(box)] + outer
            return parts
        if kind == 'multisegment':
            return [e for part in parts for e in part]
        if kind == 'region' and rng.random() < 0.15:
            return outline(box)
        return rng.choice(parts)

    boxes = [(first, first_box), (second, second_box)]
    rng.shuffle(boxes)
    return (draw(test_kind, True, *boxes[0]),
            draw(goal_kind, False, *boxes[1]))


FAMILIES = {'cells': family_cells, 'dense': family_dense,
            'wide': family_wide, 'fan': family_fan,
            'derived': family_derived, 'nested': family_nested,
            'perturbed': family_perturbed, 'collinear': family_collinear,
            'big': family_big, 'beside': family_beside,
            'framed': family_framed}
WEIGHTS = {'cells': 20, 'dense': 18, 'wide': 10, 'fan': 16, 'derived': 16,
           'nested': 12, 'perturbed': 12, 'big': 1}
# compound ones are put together of parts too
COMPOUND_WEIGHTS = dict(WEIGHTS, beside=22)
FRAMED_WEIGHTS = dict(COMPOUND_WEIGHTS, framed=30)


LINE_WEIGHTS = dict(WEIGHTS, collinear=25)


def random_family(rng, test_kind, goal_kind):
    weights = (LINE_WEIGHTS if goal_kind in ('segment', 'multisegment')
               and test_kind != 'point' else FRAMED_WEIGHTS
               if framed_kind(test_kind) or framed_kind(goal_kind)
               else COMPOUND_WEIGHTS
               if test_kind in PART_KINDS or goal_kind in PART_KINDS
               else WEIGHTS)
    return rng.choices(list(weights), list(weights.values()))[0]


def redress(rng, kind, geometry):
    """another spelling of the same geometry"""
    if kind == 'point':
        return geometry
    if kind == 'segment':
        return geometry if rng.random() < 0.5 else geometry[::-1]
    if kind == 'multisegment':
        result = [redress(rng, 'segment', s) for s in geometry]
        rng.shuffle(result)
        return result
    if kind in ('contour', 'region'):
        offset = rng.randrange(len(geometry))
        result = geometry[offset:] + geometry[:offset]
        return result if rng.random() < 0.5 else result[::-1]
    if kind == 'multiregion':
        result = [redress(rng, 'region', c) for c in geometry]
        rng.shuffle(result)
        return result
    if kind == 'polygon':
        return (redress(rng, 'region', geometry[0]),
                redress(rng, 'multiregion', geometry[1]))
    result = [redress(rng, 'polygon', p) for p in geometry]
    rng.shuffle(result)
    return result


def generate(rng, family, test_kind, goal_kind):
    """a valid pair, redressed; None when the family gave up"""
    for _ in range(20):
        try:
            test, goal = FAMILIES[family](rng, test_kind, goal_kind)
        except Retry:
            continue
        if test_kind != 'point' and not O.valid(test_kind, test):
            continue
        if not O.valid(goal_kind, goal):
            continue
        if (test_kind == 'segment' and goal_kind == 'multisegment'
                and len(goal) < 2):
            # documented minimum, and the only function which needs it
            continue
        return redress(rng, test_kind, test), redress(rng, goal_kind, goal)
    return None


# ------------------------------------------------------------- large pictures

def large_polygons(rng, family, side):
    """polygons valid by construction (stars are checked)"""
    if family == 'star':
        k = side * rng.choice((8, 15, 25))
        radius = 40 * k
        border = star_contour(rng, (0, 0), radius, k)
        holes = []
        if rng.random() < 0.6:
            step = radius // 12
            for i in range(-2, 2):
                for j in range(-2, 2):
                    if rng.random() < 0.5:
                        holes.append(star_contour(
                                rng, (i * step + step // 2,
                                      j * step + step // 2), step * 2 // 5,
                                rng.randint(5, 20)))
        return [(border, holes)]
    if family == 'comb':
        teeth = side * rng.choice((2, 4))
        depth = rng.randint(2, 9)
        border = comb_contour(rng, teeth, 0, 0, depth, rng.randint(1, 3))
        return [(border, [])]
    # many small components
    result = []
    for i in range(side):
        for j in range(side):
            if rng.random() < 0.25:
                continue
            x, y = 12 * i, 12 * j
            shape = rng.randint(0, 3)
            if shape == 0:
                polygon = ([(x, y), (x + 12, y), (x + 6, y + 11)], [])
            elif shape == 1:
                polygon = ([(x + 6, y), (x + 12, y + 6), (x + 6, y + 12),
                            (x, y + 6)], [])
            elif shape == 2:
                polygon = ([(x + 1, y + 1), (x + 11, y + 1), (x + 11, y + 11),
                            (x + 1, y + 11)],
                           [[(x + 3, y + 3), (x + 9, y + 3), (x + 6, y + 8)]])
            else:
                polygon = (star_contour(rng, (x + 6, y + 6), 6, 7), [])
            result.append(polygon)
    if not result:
        raise Retry
    return result


def merged_borders(polygons):
    return [border for border, _ in polygons]


def large_kind(rng, family, kind, polygons):
    if kind == 'region':
        return max((border for border, _ in polygons), key=len)
    if kind == 'multiregion':
        return [border for border, _ in polygons]
    if kind == 'multipolygon':
        return polygons
    if len(polygons) == 1:
        return polygons[0]
    # pieces become holes of a frame
    xs = [p[0] for b, _ in polygons for p in b]
    ys = [p[1] for b, _ in polygons for p in b]
    m = 5
    border = [(min(xs) - m, min(ys) - m), (max(xs) + m, min(ys) - m),
              (max(xs) + m, max(ys) + m), (min(xs) - m, max(ys) + m)]
    # corners shared by neighbours would disconnect the interior
    holes = []
    used = {}
    for ring, _ in polygons:
        if not any(p in used for p in ring) and not any(
                O.on_segment(edge, p) for hole in holes
                for edge in O.ring_edges(hole) for p in ring) and not any(
                O.on_segment(edge, p) for edge in O.ring_edges(ring)
                for p in used):
            holes.append(ring)
            used.update((p, 1) for p in ring)
    return border, holes


def vary(rng, polygons):
    """a related list of polygons"""
    mode = rng.randint(0, 5)
    if mode == 0:
        return polygons
    if mode == 1 and len(polygons) > 1:
        count = rng.randint(1, len(polygons) - 1)
        return rng.sample(polygons, count)
    if mode == 2 and any(holes for _, holes in polygons):
        return [(b, [h for h in holes if rng.random() < 0.7])
                for b, holes in polygons]
    if mode == 3:
        dx, dy = rng.randint(-3, 3), rng.randint(-3, 3)
        return [transform('polygon', p, lambda v: (v[0] + dx, v[1] + dy))
                for p in polygons]
    result = list(polygons)
    for _ in range(rng.choice((1, 1, 2))):
        i = rng.randrange(len(result))
        border, holes = result[i]
        for _ in range(5):
            ring = list(border)
            j = rng.randrange(len(ring))
            if rng.random() < 0.5:
                ring[j] = (ring[j][0] + rng.randint(-1, 1),
                           ring[j][1] + rng.randint(-1, 1))
            elif len(ring) > 3:
                del ring[j]
            ring = clean_ring(ring)
            if len(ring) >= 3 and O.valid_contour(ring):
                if all(O.areal_areal(O.ring_edges(h), O.ring_edges(ring))
                       in (O.WITHIN, O.ENCLOSED) and
                       finite_ok(h, ring) for h in holes):
                    result[i] = (ring, holes)
                break
    if not O.valid_multipolygon(result):
        return polygons
    return result


def finite_ok(first, second):
    return O.finite_contacts(O.ring_edges(first),
                             O.ring_edges(second)) is not None


def large_linear(rng, kind, polygons, other_edges):
    rings_list = [r for b, hs in polygons for r in [b, *hs]]
    if kind == 'contour':
        return max(rings_list, key=len) if rng.random() < 0.7 else rng.choice(
                rings_list)
    lines = [e for r in rings_list for e in O.ring_edges(r)]
    points = [p for r in rings_list for p in r] + [
        p for e in other_edges for p in e]
    if kind == 'segment':
        if rng.random() < 0.3:
            return rng.choice(lines)
        a, b = rng.choice(points), rng.choice(points)
        if rng.random() < 0.3:
            b = (b[0] + rng.randint(-3, 3), b[1] + rng.randint(-3, 3))
        if a == b:
            raise Retry
        return a, b
    keep = rng.choice((1, 0.9, 0.5))
    result = [line for line in lines if rng.random() < keep]
    if rng.random() < 0.5 and result:
        i = rng.randrange(len(result))
        a, b = result[i]
        c = (b[0] + rng.randint(-1, 1), b[1] + rng.randint(-1, 1))
        if a != c:
            result[i] = (a, c)
    if not result or not O.valid_multisegment(result):
        raise Retry
    return result


def swap_axes(polygons):
    return [transform('polygon', p, lambda v: (v[1], v[0])) for p in polygons]


def large(rng, family, test_kind, goal_kind, side):
    for _ in range(8):
        try:
            return _large(rng, family, test_kind, goal_kind, side)
        except Retry:
            continue
    raise Retry


def _large(rng, family, test_kind, goal_kind, side):
    if family == 'cells':
        grid = Grid(rng, side, side, rng.choice(('quad', 'tri', 'mixed')))
        cells, other = cell_sets(rng, grid)
        k = 2 if test_kind in LINEAR else 1
        first = [transform('polygon', p, lambda v: (v[0] * k, v[1] * k))
                 for p in grid.polygons(cells)]
        second = [transform('polygon', p, lambda v: (v[0] * k, v[1] * k))
                  for p in grid.polygons(other)]
        pick = as_kind
    else:
        second = large_polygons(rng, family, side)
        if family == 'comb' and rng.random() < 0.5:
            first = swap_axes(large_polygons(rng, family, side))
        elif rng.random() < 0.25:
            first = large_polygons(rng, family, side)
        else:
            first = vary(rng, second)

        def pick(rng, kind, polygons):
            return large_kind(rng, family, kind, polygons)
    goal = (pick(rng, goal_kind, second) if goal_kind in AREAL
            else large_linear(rng, goal_kind, second, ()))
    goal_edges = O.edges(goal_kind, goal)
    if goal_kind == 'multisegment' and len(goal) < 2:
        raise Retry
    if test_kind == 'point':
        test = random_point(rng, goal_kind, goal)
    elif test_kind in AREAL:
        test = pick(rng, test_kind, first)
    else:
        test = large_linear(rng, test_kind, first, goal_edges)
    return redress(rng, test_kind, test), redress(rng, goal_kind, goal)


def spread(rng, count):
    """pairwise non-parallel or opposite vectors, counterclockwise"""
    import math
    result = {}
    while len(result) < count:
        x, y = rng.randint(-9, 9), rng.randint(-9, 9)
        if not (x or y):
            continue
        d = math.gcd(x, y)
        result.setdefault((x // d, y // d), (x, y))
    return sorted(result.values(), key=lambda p: math.atan2(p[1], p[0]))


def some_of(rng, items):
    """at random, an arc of them, or all but an arc"""
    choice = rng.random()
    if choice < 0.4:
        return rng.sample(items, rng.randint(1, len(items)))
    start = rng.randrange(len(items))
    turned = items[start:] + items[:start]
    return turned[:rng.randint(1, len(items)) if choice < 0.7
                  else rng.randint(1, min(3, len(items)))]


def crowd(rng, t, g):
    """dozens of edges or parts of both at one point"""
    count = rng.randint(8, 30)
    directions = spread(rng, count)
    petals = []
    first = rng.randint(0, 1)
    for i in range(first, count - 1, 2):
        a, b = directions[i], directions[i + 1]
        if O.cross(a[0], a[1], b[0], b[1]) > 0:
            petals.append([(0, 0), a, b])
    if not petals:
        raise Retry
    # rays of the test mostly not among those of the goal
    chosen = some_of(rng, list(range(count)))
    rays = {True: [directions[i] for i in chosen],
            False: ([directions[i] for i in range(count)
                     if i not in set(chosen)] if rng.random() < 0.7
                    else some_of(rng, directions))}

    def draw(kind, is_test):
        if kind == 'point':
            return rng.choice(((0, 0), rng.choice(directions), (1, 0)))
        if kind == 'segment':
            a = rng.choice(directions)
            b = rng.choice(((0, 0), (-a[0], -a[1])))
            return a, b
        if kind == 'multisegment':
            return [((0, 0), d) for d in rays[is_test]]
        if kind in ('contour', 'region'):
            return rng.choice(petals)
        if kind == 'multiregion':
            return some_of(rng, petals)
        if kind == 'polygon':
            r = 40
            return ([(-r, -r), (r, -r), (r, r), (-r, r)],
                    [rng.choice(petals)])
        return [(p, []) for p in some_of(rng, petals)]

    test, goal = draw(t, True), draw(g, False)
    for kind, x in ((t, test), (g, goal)):
        if kind != 'point' and not (x and O.valid(kind, x)):
            raise Retry
    if t == 'segment' and g == 'multisegment' and len(goal) < 2:
        raise Retry
    return redress(rng, t, test), redress(rng, g, goal)
