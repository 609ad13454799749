"""Independent 2-D geometry oracle (pure Python floats, no torch, no code under test).

Polygons are lists of (x, y) in world coordinates, in the orientation the library
requires (counter-clockwise in the mathematical sense).
"""
import math


def rot(v, a):
    c, s = math.cos(a), math.sin(a)
    return (c * v[0] - s * v[1], s * v[0] + c * v[1])


def area_centroid(poly):
    a = cx = cy = 0.0
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        cr = x0 * y1 - x1 * y0
        a += cr
        cx += (x0 + x1) * cr
        cy += (y0 + y1) * cr
    a *= 0.5
    return a, (cx / (6 * a), cy / (6 * a))


def polar_inertia(poly, mass):
    """About the centroid, for uniform density."""
    a, c = area_centroid(poly)
    p = [(x - c[0], y - c[1]) for x, y in poly]
    s = 0.0
    for i in range(len(p)):
        x0, y0 = p[i]
        x1, y1 = p[(i + 1) % len(p)]
        s += (x0 * y1 - x1 * y0) * (x0 * x0 + x0 * x1 + x1 * x1 + y0 * y0 + y0 * y1 + y1 * y1)
    return mass * (s / 12.0) / a


def seg_dist(p, a, b):
    """Distance from p to segment ab, and the closest point."""
    ax, ay = a
    dx, dy = b[0] - ax, b[1] - ay
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((p[0] - ax) * dx + (p[1] - ay) * dy) / l2))
    q = (ax + t * dx, ay + t * dy)
    return math.hypot(p[0] - q[0], p[1] - q[1]), q


def edges(poly):
    n = len(poly)
    for i in range(n):
        yield poly[i], poly[(i + 1) % n]


def outward(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l = math.hypot(dx, dy)
    return (dy / l, -dx / l)


def point_poly(p, poly):
    """Signed distance from point to convex polygon (negative inside)."""
    m = -1e300
    for a, b in edges(poly):
        n = outward(a, b)
        m = max(m, n[0] * (p[0] - a[0]) + n[1] * (p[1] - a[1]))
    if m <= 0:
        return m
    return min(seg_dist(p, a, b)[0] for a, b in edges(poly))


def boundary_dist(p, poly):
    return min(seg_dist(p, a, b)[0] for a, b in edges(poly))


def sat_sep(p, q):
    """Max over p's edges of min over q's vertices of signed separation, and (normal, edge)."""
    best, bn = -1e300, None
    for a, b in edges(p):
        n = outward(a, b)
        d = min(n[0] * (v[0] - a[0]) + n[1] * (v[1] - a[1]) for v in q)
        if d > best:
            best, bn = d, n
    return best, bn


def poly_poly(p, q):
    """(sat, gap): SAT separation (penetration depth negated when overlapping), and the
    Euclidean gap when disjoint (0 when overlapping)."""
    s1, _ = sat_sep(p, q)
    s2, _ = sat_sep(q, p)
    s = max(s1, s2)
    if s <= 0:
        return s, 0.0
    g = min(min(seg_dist(v, a, b)[0] for v in p for a, b in edges(q)),
            min(seg_dist(v, a, b)[0] for v in q for a, b in edges(p)))
    return s, g


def shape_dist(A, B):
    """A, B: ('c', centre, r) or ('p', poly).  Returns (sep, gap): `sep` is the signed separation in
    the measure the library documents (penetration is -sep), `gap` the true Euclidean gap
    (0 if overlapping)."""
    if A[0] == 'c' and B[0] == 'c':
        d = math.hypot(A[1][0] - B[1][0], A[1][1] - B[1][1]) - A[2] - B[2]
        return d, max(d, 0.0)
    if A[0] == 'p' and B[0] == 'p':
        return poly_poly(A[1], B[1])
    if A[0] == 'p':
        A, B = B, A
    d = point_poly(A[1], B[1]) - A[2]
    return d, max(d, 0.0)


def surface_dist(S, p):
    if S[0] == 'c':
        return abs(math.hypot(p[0] - S[1][0], p[1] - S[1][1]) - S[2])
    return boundary_dist(p, S[1])


def bound_radius(S):
    if S[0] == 'c':
        return S[2]
    _, c = area_centroid(S[1])
    return max(math.hypot(v[0] - c[0], v[1] - c[1]) for v in S[1])
