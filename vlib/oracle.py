"""Exact reference model of planar relations.

Written from the documented meaning of ``Location`` and ``Relation`` only:
nothing here comes from ``orient`` and nothing here uses a sweep line.
Coordinates are Python ints (callers scale rationals to a common denominator),
every derived point is a homogeneous integer triple, so no rounding exists.

Plain-data geometries:
  point         (x, y)
  segment       ((x, y), (x, y))
  multisegment  [segment, ...]
  contour       [point, ...]            (region: the same)
  multiregion   [contour, ...]
  polygon       (contour, [contour, ...])
  multipolygon  [polygon, ...]
"""
from fractions import Fraction
from functools import cmp_to_key

EXTERIOR, BOUNDARY, INTERIOR = 'EXTERIOR', 'BOUNDARY', 'INTERIOR'
(DISJOINT, TOUCH, CROSS, OVERLAP, COVER, ENCLOSES, COMPOSITE, EQUAL,
 COMPONENT, ENCLOSED, WITHIN) = (
    'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COVER', 'ENCLOSES', 'COMPOSITE',
    'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN')
COMPLEMENT = {COVER: WITHIN, ENCLOSES: ENCLOSED, COMPOSITE: COMPONENT,
              COMPONENT: COMPOSITE, ENCLOSED: ENCLOSES, WITHIN: COVER}


def complement(relation):
    return COMPLEMENT.get(relation, relation)


LINEAR = ('segment', 'multisegment', 'contour')
AREAL = ('region', 'multiregion', 'polygon', 'multipolygon')


def ring_edges(vertices):
    return [(vertices[i - 1], vertices[i]) for i in range(len(vertices))]


def rings(kind, geometry):
    if kind == 'region':
        return [geometry]
    if kind == 'multiregion':
        return list(geometry)
    if kind == 'polygon':
        return [geometry[0], *geometry[1]]
    if kind == 'multipolygon':
        return [ring for border, holes in geometry
                for ring in [border, *holes]]
    raise ValueError(kind)


def edges(kind, geometry):
    if kind == 'segment':
        return [geometry]
    if kind == 'multisegment':
        return list(geometry)
    if kind == 'contour':
        return ring_edges(geometry)
    return [edge for ring in rings(kind, geometry)
            for edge in ring_edges(ring)]


def cross(ax, ay, bx, by):
    return ax * by - ay * bx


def orient(a, b, c):
    value = ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    return (value > 0) - (value < 0)


def on_segment(edge, point):
    """integer point on closed segment"""
    (ax, ay), (bx, by) = edge
    px, py = point
    return ((bx - ax) * (py - ay) == (by - ay) * (px - ax)
            and min(ax, bx) <= px <= max(ax, bx)
            and min(ay, by) <= py <= max(ay, by))


def on_segment_h(edge, point):
    """homogeneous point (w > 0) on closed segment"""
    (ax, ay), (bx, by) = edge
    x, y, w = point
    return ((bx - ax) * (y - ay * w) == (by - ay) * (x - ax * w)
            and min(ax, bx) * w <= x <= max(ax, bx) * w
            and min(ay, by) * w <= y <= max(ay, by) * w)


class Slabs:
    """edges by slabs of one axis they span: candidates, never verdicts"""

    def __init__(self, all_edges, axis, count):
        self.axis = axis
        spans = [(min(a[axis], b[axis]), max(a[axis], b[axis]))
                 for a, b in all_edges]
        self.low = min(low for low, _ in spans)
        high = max(high for _, high in spans)
        self.step = (high - self.low) // count + 1
        self.last = (high - self.low) // self.step
        self.slabs = [[] for _ in range(self.last + 1)]
        for index, (low, high) in enumerate(spans):
            for k in range((low - self.low) // self.step,
                           (high - self.low) // self.step + 1):
                self.slabs[k].append(index)

    def range(self, low, high):
        """slabs of a closed range"""
        first = max(0, (low - self.low) // self.step)
        last = min(self.last, (high - self.low) // self.step)
        return range(first, last + 1)

    def amount(self, slabs):
        return sum(len(self.slabs[k]) for k in slabs)


class Indexed(list):
    """edges with indices; iteration order is the one of the list"""

    def __init__(self, all_edges):
        super().__init__(all_edges)
        count = min(128, max(1, len(self) // 4))
        self.columns = Slabs(self, 0, count)
        self.rows = Slabs(self, 1, count)

    def meeting(self, edge):
        """indices of edges possibly having contacts with the edge"""
        (ax, ay), (bx, by) = edge
        columns = self.columns.range(min(ax, bx), max(ax, bx))
        rows = self.rows.range(min(ay, by), max(ay, by))
        slabs, keys = ((self.columns.slabs, columns)
                       if (self.columns.amount(columns)
                           < self.rows.amount(rows))
                       else (self.rows.slabs, rows))
        if len(keys) == 1:
            return slabs[keys[0]]
        return sorted({index for k in keys for index in slabs[k]})

    def at_row(self, y, w):
        keys = self.rows.range(y // w, y // w)
        return [self[i] for k in keys for i in self.rows.slabs[k]]

    def at_column(self, x, w):
        keys = self.columns.range(x // w, x // w)
        return [self[i] for k in keys for i in self.columns.slabs[k]]


INDEXED_FROM = 40


def indexed(all_edges):
    return (Indexed(all_edges) if len(all_edges) >= INDEXED_FROM
            else all_edges)


def meeting(all_edges, edge):
    """(index, edge) of candidates for a contact"""
    if isinstance(all_edges, Indexed):
        return [(i, all_edges[i]) for i in all_edges.meeting(edge)]
    return enumerate(all_edges)


def level(all_edges, point):
    """candidates crossed by the horizontal line through the point"""
    if isinstance(all_edges, Indexed):
        return all_edges.at_row(point[1], point[2])
    return all_edges


def column(all_edges, point):
    """candidates crossed by the vertical line through the point"""
    if isinstance(all_edges, Indexed):
        return all_edges.at_column(point[0], point[2])
    return all_edges


def parity_h(all_edges, point):
    """even-odd interior test of a homogeneous point not on any edge"""
    x, y, w = point
    inside = False
    for (ax, ay), (bx, by) in all_edges:
        if (ay * w > y) != (by * w > y):
            value = (bx - ax) * (y - ay * w) - (by - ay) * (x - ax * w)
            if (value > 0) == (by > ay):
                inside = not inside
    return inside


def locate_h(all_edges, point, areal):
    all_edges = level(all_edges, point)
    for edge in all_edges:
        if on_segment_h(edge, point):
            return BOUNDARY
    if areal and parity_h(all_edges, point):
        return INTERIOR
    return EXTERIOR


def locate(kind, geometry, point):
    return locate_h(edges(kind, geometry), (point[0], point[1], 1),
                    kind in AREAL)


def edge_contacts(first, second):
    """parameters (on the first) of contacts of two closed segments:
    list of Fractions, one for a point contact, two for an overlap"""
    (ax, ay), (bx, by) = first
    (cx, cy), (dx, dy) = second
    if (max(ax, bx) < min(cx, dx) or max(cx, dx) < min(ax, bx)
            or max(ay, by) < min(cy, dy) or max(cy, dy) < min(ay, by)):
        return []
    rx, ry, sx, sy = bx - ax, by - ay, dx - cx, dy - cy
    denominator = rx * sy - ry * sx
    qx, qy = cx - ax, cy - ay
    if denominator:
        t_numerator = qx * sy - qy * sx
        u_numerator = qx * ry - qy * rx
        if denominator < 0:
            denominator, t_numerator, u_numerator = (
                -denominator, -t_numerator, -u_numerator)
        if 0 <= t_numerator <= denominator and 0 <= u_numerator <= denominator:
            return [Fraction(t_numerator, denominator)]
        return []
    if qx * ry - qy * rx:
        return []
    length = rx * rx + ry * ry
    t0 = Fraction(qx * rx + qy * ry, length)
    t1 = Fraction((dx - ax) * rx + (dy - ay) * ry, length)
    if t0 > t1:
        t0, t1 = t1, t0
    t0, t1 = max(t0, Fraction(0)), min(t1, Fraction(1))
    if t0 > t1:
        return []
    return [t0] if t0 == t1 else [t0, t1]


def at(edge, t):
    (ax, ay), (bx, by) = edge
    n, d = t.numerator, t.denominator
    return normal(ax * d + (bx - ax) * n, ay * d + (by - ay) * n, d)


def normal(x, y, w):
    from math import gcd
    g = gcd(gcd(x, y), w)
    return (x // g, y // g, w // g)


def split(own, other, with_own=False):
    """For each own edge: list of sub-edge midpoints; set of contact points.

    ``with_own`` also splits where the geometry touches itself, so that a
    midpoint has exactly two sides."""
    result, contacts = [], set()
    for index, edge in enumerate(own):
        params = {Fraction(0), Fraction(1)}
        if with_own:
            for rival_index, rival in meeting(own, edge):
                if rival_index != index:
                    params.update(edge_contacts(edge, rival))
        for _, rival in meeting(other, edge):
            for t in edge_contacts(edge, rival):
                params.add(t)
                contacts.add(at(edge, t))
        ordered = sorted(params)
        result.append([at(edge, (ordered[i] + ordered[i + 1]) / 2)
                       for i in range(len(ordered) - 1)])
    return result, contacts


def half(direction):
    x, y = direction
    return 0 if (y > 0 or y == 0 and x > 0) else 1


def angle_compare(first, second):
    (a, _), (b, _) = first, second
    ha, hb = half(a), half(b)
    if ha != hb:
        return ha - hb
    value = cross(*a, *b)
    return -1 if value > 0 else (1 if value < 0 else 0)


def rays_at(point, own, label):
    x, y, w = point
    result = []
    for edge in level(own, point):
        if on_segment_h(edge, point):
            for ex, ey in edge:
                direction = (ex * w - x, ey * w - y)
                if direction != (0, 0):
                    result.append((direction, label))
    return result


def alternations_at(point, first, second):
    rays = sorted(rays_at(point, first, 0) + rays_at(point, second, 1),
                  key=cmp_to_key(angle_compare))
    labels = [label for _, label in rays]
    return sum(labels[i - 1] != labels[i] for i in range(len(labels)))


def linear_linear(test, goal):
    test_mids, contacts = split(test, goal)
    goal_mids, _ = split(goal, test)
    test_on = [locate_h(goal, mid, False) == BOUNDARY
               for mids in test_mids for mid in mids]
    goal_on = [locate_h(test, mid, False) == BOUNDARY
               for mids in goal_mids for mid in mids]
    if not contacts:
        return DISJOINT
    if all(test_on):
        return EQUAL if all(goal_on) else COMPONENT
    if all(goal_on):
        return COMPOSITE
    if any(test_on):
        return OVERLAP
    if any(alternations_at(point, test, goal) >= 4 for point in contacts):
        return CROSS
    return TOUCH


def linear_areal(test, goal):
    test_mids, contacts = split(test, goal)
    places = {locate_h(goal, mid, True) for mids in test_mids for mid in mids}
    if INTERIOR in places and EXTERIOR in places:
        return CROSS
    if EXTERIOR in places:
        return TOUCH if contacts else DISJOINT
    if INTERIOR in places:
        return ENCLOSED if contacts else WITHIN
    return COMPONENT


def interior_side(all_edges, edge, mid):
    """+1 when the interior is to the left of ``edge`` at ``mid``.

    Counted with the vertical (or horizontal) line through ``mid``: parity of
    edges strictly on the left side of ``edge``, half-open on vertices."""
    x, y, w = mid
    (ax, ay), (bx, by) = edge
    inside = False
    if ax != bx:
        # look up
        for (cx, cy), (dx, dy) in column(all_edges, mid):
            if (cx * w > x) != (dx * w > x):
                value = (dx - cx) * (y - cy * w) - (dy - cy) * (x - cx * w)
                # strictly above mid
                if dx > cx and value < 0 or dx < cx and value > 0:
                    inside = not inside
        up_is_left = bx > ax
    else:
        # look to the left
        for (cx, cy), (dx, dy) in level(all_edges, mid):
            if (cy * w > y) != (dy * w > y):
                value = (dx - cx) * (y - cy * w) - (dy - cy) * (x - cx * w)
                # strictly on the left of mid
                if dy > cy and value < 0 or dy < cy and value > 0:
                    inside = not inside
        up_is_left = by > ay
    return 1 if inside == up_is_left else -1


def areal_areal(test, goal):
    test_mids, contacts = split(test, goal, True)
    goal_mids, _ = split(goal, test, True)
    test_places, goal_places = set(), set()
    same = opposite = False
    for edge, mids in zip(test, test_mids):
        for mid in mids:
            place = locate_h(goal, mid, True)
            test_places.add(place)
            if place == BOUNDARY:
                if (interior_side(test, edge, mid)
                        == interior_side(goal, edge, mid)):
                    same = True
                else:
                    opposite = True
    for mids in goal_mids:
        for mid in mids:
            goal_places.add(locate_h(test, mid, True))
    interiors_meet = (same or INTERIOR in test_places
                      or INTERIOR in goal_places)
    if not interiors_meet:
        return TOUCH if contacts else DISJOINT
    test_in_goal = (EXTERIOR not in test_places
                    and INTERIOR not in goal_places and not opposite)
    goal_in_test = (EXTERIOR not in goal_places
                    and INTERIOR not in test_places and not opposite)
    if test_in_goal and goal_in_test:
        return EQUAL
    if test_in_goal:
        return (WITHIN if not contacts
                else COMPONENT if test_places == {BOUNDARY}
                else ENCLOSED)
    if goal_in_test:
        return (COVER if not contacts
                else COMPOSITE if goal_places == {BOUNDARY}
                else ENCLOSES)
    return OVERLAP


def relate(test_kind, test, goal_kind, goal):
    """relation of test ("left") in goal ("right")"""
    test_edges, goal_edges = (indexed(edges(test_kind, test)),
                              indexed(edges(goal_kind, goal)))
    if goal_kind in LINEAR:
        assert test_kind in LINEAR
        return linear_linear(test_edges, goal_edges)
    if test_kind in LINEAR:
        return linear_areal(test_edges, goal_edges)
    return areal_areal(test_edges, goal_edges)


# validity of inputs (the documented preconditions)

def valid_segment(segment):
    return segment[0] != segment[1]


def valid_multisegment(segments):
    if any(start == end for start, end in segments):
        return False
    segments = indexed(segments)
    for i, first in enumerate(segments):
        for j, second in meeting(segments, first):
            if j >= i:
                continue
            contacts = edge_contacts(first, second)
            if len(contacts) == 2:
                return False
            if contacts and 0 < contacts[0] < 1:
                # proper crossing?
                back = edge_contacts(second, first)
                if 0 < back[0] < 1:
                    return False
    return True


def valid_contour(vertices, allow_redundant=False):
    n = len(vertices)
    if n < 3 or len(set(vertices)) != n:
        return False
    if not allow_redundant:
        if any(not orient(vertices[i - 2], vertices[i - 1], vertices[i])
               for i in range(n)):
            return False
    all_edges = indexed(ring_edges(vertices))
    for i in range(n):
        for j, _ in meeting(all_edges, all_edges[i]):
            if j >= i:
                continue
            contacts = edge_contacts(all_edges[i], all_edges[j])
            adjacent = i - j == 1 or (j == 0 and i == n - 1)
            if adjacent:
                if len(contacts) != 1:
                    return False
            elif contacts:
                return False
    return True


def signed_area2(vertices):
    return sum(vertices[i - 1][0] * vertices[i][1]
               - vertices[i - 1][1] * vertices[i][0]
               for i in range(len(vertices)))


def finite_contacts(first, second):
    """contact points of two edge lists, or None if they overlap"""
    contacts = set()
    for edge in first:
        for _, rival in meeting(second, edge):
            found = edge_contacts(edge, rival)
            if len(found) == 2:
                return None
            contacts.update(at(edge, t) for t in found)
    return contacts


def apart(first, second):
    """bounding boxes of two rings are disjoint"""
    return any(max(p[axis] for p in one) < min(p[axis] for p in other)
               for axis in (0, 1)
               for one, other in ((first, second), (second, first)))


def valid_multiregion(contours, allow_redundant=False):
    if not contours or not all(valid_contour(c, allow_redundant)
                               for c in contours):
        return False
    for i, first in enumerate(contours):
        for second in contours[:i]:
            if apart(first, second):
                continue
            if (finite_contacts(ring_edges(first), ring_edges(second)) is None
                    or areal_areal(ring_edges(first), ring_edges(second))
                    not in (DISJOINT, TOUCH)):
                return False
    return True


def acyclic(rings_list):
    """rings touching in points: interior stays connected iff the
    ring/contact-point incidence graph is a forest"""
    parent = {}

    def find(node):
        while parent.setdefault(node, node) != node:
            node = parent[node]
        return node

    incident = {}
    for i, first in enumerate(rings_list):
        for j in range(i):
            if apart(first, rings_list[j]):
                continue
            for point in finite_contacts(ring_edges(first),
                                         ring_edges(rings_list[j])) or ():
                incident.setdefault(point, set()).update((i, j))
    for point, members in incident.items():
        for member in members:
            a, b = find(('p', point)), find(('r', member))
            if a == b:
                return False
            parent[a] = b
    return True


def valid_polygon(polygon, allow_redundant=False):
    border, holes = polygon
    if not valid_contour(border, allow_redundant):
        return False
    if not holes:
        return True
    if not valid_multiregion(holes, allow_redundant):
        return False
    for hole in holes:
        if (finite_contacts(ring_edges(hole), ring_edges(border)) is None
                or areal_areal(ring_edges(hole), ring_edges(border))
                not in (WITHIN, ENCLOSED)):
            return False
    return acyclic([border, *holes])


def valid_multipolygon(polygons, allow_redundant=False):
    if not polygons or not all(valid_polygon(p, allow_redundant)
                               for p in polygons):
        return False
    for i, first in enumerate(polygons):
        for second in polygons[:i]:
            if apart(first[0], second[0]):
                continue
            a, b = edges('polygon', first), edges('polygon', second)
            if (finite_contacts(a, b) is None
                    or areal_areal(a, b) not in (DISJOINT, TOUCH)):
                return False
    return True


def valid(kind, geometry, allow_redundant=False):
    if kind == 'segment':
        return valid_segment(geometry)
    if kind == 'multisegment':
        return valid_multisegment(geometry)
    if kind in ('contour', 'region'):
        return valid_contour(geometry, allow_redundant)
    if kind == 'multiregion':
        return valid_multiregion(geometry, allow_redundant)
    if kind == 'polygon':
        return valid_polygon(geometry, allow_redundant)
    if kind == 'multipolygon':
        return valid_multipolygon(geometry, allow_redundant)
    raise ValueError(kind)
