"""Exact rational plane geometry: the oracle of the geometric checks."""
from fractions import Fraction as F
import math

def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])

def sgn(x):
    return (x > 0) - (x < 0)

def on_segment(a, b, p):
    """p on the closed segment ab (a == b allowed)"""
    return (cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))

def segments_meet(a, b, c, d):
    o1, o2, o3, o4 = sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b))
    if a != b and c != d and o1*o2 < 0 and o3*o4 < 0:
        return True
    return on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a) or on_segment(c, d, b)

def line_intersection(p, u, q, v):
    """abscissae (s, t) with p + s u = q + t v, None if parallel"""
    d = u[0]*v[1] - u[1]*v[0]
    if d == 0:
        return None
    w = (q[0]-p[0], q[1]-p[1])
    return (F(w[0]*v[1] - w[1]*v[0])/d, F(w[0]*u[1] - w[1]*u[0])/d)

def dist2_point_segment(a, b, p):
    ux, uy = b[0]-a[0], b[1]-a[1]
    wx, wy = p[0]-a[0], p[1]-a[1]
    n = ux*ux + uy*uy
    if n == 0:
        return F(wx*wx + wy*wy)
    t = F(ux*wx + uy*wy)/n
    if t <= 0:
        return F(wx*wx + wy*wy)
    if t >= 1:
        return F((p[0]-b[0])**2 + (p[1]-b[1])**2)
    c = ux*wy - uy*wx
    return F(c*c)/n

def area2(pts):
    """twice the signed area"""
    n = len(pts)
    return sum(pts[i][0]*pts[(i+1) % n][1] - pts[(i+1) % n][0]*pts[i][1] for i in range(n))

def centroid(pts):
    n = len(pts)
    a2 = area2(pts)
    cx = cy = 0
    for i in range(n):
        (x0, y0), (x1, y1) = pts[i], pts[(i+1) % n]
        c = x0*y1 - x1*y0
        cx += (x0 + x1)*c
        cy += (y0 + y1)*c
    return (F(cx)/(3*a2), F(cy)/(3*a2))

def is_simple(pts):
    """no two edges meet except consecutive ones exactly at their common vertex; no zero-length edge"""
    n = len(pts)
    for i in range(n):
        if pts[i] == pts[(i+1) % n]:
            return False
    for i in range(n):
        a, b = pts[i], pts[(i+1) % n]
        for j in range(i+1, n):
            c, d = pts[j], pts[(j+1) % n]
            if j == i+1 or (i == 0 and j == n-1):
                if n == 2:
                    return False
                # consecutive: common vertex v, other ends p, q
                if j == i+1:
                    p, v, q = a, b, d
                else:
                    p, v, q = c, a, b
                if i == 0 and j == n-1 and j == i+1:
                    return False
                # overlap iff collinear and same direction
                if cross(p, v, q) == 0 and (p[0]-v[0])*(q[0]-v[0]) + (p[1]-v[1])*(q[1]-v[1]) > 0:
                    return False
            elif segments_meet(a, b, c, d):
                return False
    return True

def inside(pts, p):
    """1 inside, 0 on the boundary, -1 outside (simple polygon)"""
    n = len(pts)
    w = False
    for i in range(n):
        a, b = pts[i], pts[(i+1) % n]
        if on_segment(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + F(p[1]-a[1])*(b[0]-a[0])/(b[1]-a[1])
            if p[0] < x:
                w = not w
    return 1 if w else -1

def hull(points):
    """strictly convex counter-clockwise hull (Andrew), vertices from the lowest-left"""
    pts = sorted(set(points))
    if len(pts) <= 2:
        return pts
    def half(it):
        out = []
        for p in it:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, up = half(pts), half(reversed(pts))
    return lo[:-1] + up[:-1]

# polynomials with exact coefficients, lowest degree first

def ptrim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p

def pmul(a, b):
    if not a or not b:
        return []
    r = [F(0)]*(len(a)+len(b)-1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i+j] += x*y
    return r

def padd(a, b, k=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + k*(b[i] if i < len(b) else 0) for i in range(n)]

def pder(p):
    return [i*c for i, c in enumerate(p)][1:]

def peval(p, t):
    r = 0
    for c in reversed(p):
        r = r*t + c
    return r

def pint(p, a, b):
    q = [F(0)] + [F(c)/(i+1) for i, c in enumerate(p)]
    return peval(q, b) - peval(q, a)

def prem(a, b):
    a = ptrim(a); b = ptrim(b)
    while len(a) >= len(b):
        k = F(a[-1])/b[-1]
        d = len(a) - len(b)
        a = [c - (k*b[i-d] if i >= d else 0) for i, c in enumerate(a)]
        a.pop()
        a = ptrim(a)
    return a

def pgcd(a, b):
    a, b = ptrim(a), ptrim(b)
    while b:
        a, b = b, prem(a, b)
    return a

def pdiv(a, b):
    a = ptrim(a); b = ptrim(b)
    q = [F(0)]*max(len(a) - len(b) + 1, 0)
    while len(a) >= len(b):
        k = F(a[-1])/b[-1]
        d = len(a) - len(b)
        q[d] = k
        a = [c - (k*b[i-d] if i >= d else 0) for i, c in enumerate(a)]
        a.pop()
        a = ptrim(a)
    return q

def count_roots(p, lo, hi):
    """number of distinct real roots in the closed interval [lo, hi] (Sturm), None if p is null"""
    p = ptrim([F(c) for c in p])
    if not p:
        return None
    if len(p) == 1:
        return 0
    g = pgcd(p, pder(p))
    p = pdiv(p, g)
    n = 0
    seq = [p, ptrim(pder(p))]
    while seq[-1]:
        r = [-c for c in prem(seq[-2], seq[-1])]
        seq.append(ptrim(r))
    seq.pop()
    def var(t):
        s = [sgn(peval(q, t)) for q in seq]
        s = [x for x in s if x]
        return sum(1 for x, y in zip(s, s[1:]) if x != y)
    # Sturm counts the roots in ]lo, hi] also when lo or hi is a root of p
    n = var(F(lo)) - var(F(hi))
    if peval(p, F(lo)) == 0:
        n += 1
    return n

def bezier_poly(coords):
    """power basis of a Bezier curve given the control values of one coordinate"""
    n = len(coords) - 1
    out = [F(0)]*(n+1)
    for i, c in enumerate(coords):
        # C(n,i) t^i (1-t)^(n-i)
        for k in range(n-i+1):
            out[i+k] += math.comb(n, i)*math.comb(n-i, k)*(-1)**k*F(c)
    return out
