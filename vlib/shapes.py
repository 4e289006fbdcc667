"""Big valid geometries by construction: no search, no validity test needed.

A layout is n disjoint parts (rectangles) plus rings around or through them;
vertex degrees are bounded and the number of contacts of any two geometries of
one scenario is linear in n."""


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def parts(layout, n, inset=0):
    """n disjoint rectangles, shrunk by ``inset`` < 8"""
    result = []
    m = max(1, round(n ** 0.5))
    for i in range(n):
        if layout == 'stack':
            r = (0, 32 * i, 4000, 32 * i + 16)
        elif layout == 'row':
            r = (32 * i, 0, 32 * i + 16, 4000)
        elif layout == 'diagonal':
            r = (32 * i, 32 * i, 32 * i + 16, 32 * i + 16)
        else:
            x, y = 32 * (i % m), 32 * (i // m)
            r = (x, y, x + 16, y + 16)
        x0, y0, x1, y1 = r
        result.append(rect(x0 + inset, y0 + inset, x1 - inset, y1 - inset))
    return result


def bounds(rings):
    xs = [x for ring in rings for x, _ in ring]
    ys = [y for ring in rings for _, y in ring]
    return min(xs), min(ys), max(xs), max(ys)


def frame(rings, margin, sides):
    """convex ring of about ``sides`` vertices around the rings"""
    x0, y0, x1, y1 = bounds(rings)
    x0, y0, x1, y1 = x0 - margin, y0 - margin, x1 + margin, y1 + margin
    k = max(2, sides - 2)
    # a parabola below: strictly convex, integer after scaling by k
    low = [(x0 + (x1 - x0) * i / k, i * (k - i)) for i in range(k + 1)]
    return [(round(x * k), (y0 - d) * k) for x, d in low] + [
        (x1 * k, y1 * k), (x0 * k, y1 * k)], k


def comb(n, inset=0):
    """a ring of 4 * n + 4 vertices with n long teeth"""
    s = inset
    ring = [(-64 + s, -64 + s), (4000 - s, -64 + s)]
    for i in range(n):
        ring += [(4000 - s, 32 * i + 16 - s), (s, 32 * i + 16 - s),
                 (s, 32 * i + 32 + s), (4000 - s, 32 * i + 32 + s)]
    return ring + [(4000 - s, 32 * n + 64 - s), (-64 + s, 32 * n + 64 - s)]


def spiral(n):
    """a thin spiral corridor of about 4 * n turns"""
    outer, inner = [], []
    for i in range(n):
        a, b = 8 * i, 8 * (2 * n - i) + 3
        nxt = 8 * (i + 1)
        # clockwise square spiral going inwards
        outer += [(a, a), (b, a), (b, b), (nxt, b)]
        inner += [(nxt + 0, a + 3), (b - 3, a + 3), (b - 3, b - 3),
                  (nxt + 3, b - 3)]
    inner[0] = (0, 3)
    return outer + inner[::-1]


def saw(n):
    """monotone ring: slanted teeth above a line"""
    ring = []
    for i in range(n):
        ring += [(8 * i, 0 if i else -8), (8 * i + 5, 40 + i % 7)]
    return ring[:1] + [(8 * n, -8), (8 * n + 1, 30)] + ring[:0:-1]


def nested(n):
    """concentric squares, outermost first"""
    return [rect(4 * i, 4 * i, 8 * n - 4 * i, 8 * n - 4 * i)
            for i in range(n)]


def ring_edges(ring):
    return [(ring[i - 1], ring[i]) for i in range(len(ring))]


def scaled(rings, k):
    return [[(x * k, y * k) for x, y in ring] for ring in rings]


def moved(ring, dx, dy):
    return [(x + dx, y + dy) for x, y in ring]


def transposed(kind, geometry):
    from .gen import transform
    return transform(kind, geometry, lambda p: (p[1], p[0]))
