"""Positions: exact rational projections and geometric meshes with integer coordinates."""
from lib import *
import meshes as M
from math import gcd


def point(x, maxden=40000, tol=1e-9):
    """vector of floats -> [D, ints]: the rational vector ints / D"""
    fr = []
    for v in x:
        v = float(v)
        if not np.isfinite(v):
            raise Inexact('not finite')
        f = Fraction(v).limit_denominator(maxden)
        if abs(float(f) - v) > tol * max(1, abs(v)):
            raise Inexact('%r is not a small rational' % v)
        fr.append(f)
    D = 1
    for f in fr:
        D = D * f.denominator // gcd(D, f.denominator)
    if D > maxden:
        raise Inexact('no small common denominator')
    return [D, [int(f * D) for f in fr]]


def points(a, **kw):
    return [point(x, **kw) for x in np.asarray(a)]


def common(a, D):
    """vectors over the common denominator D"""
    b = np.asarray(a) * D
    r = np.rint(b)
    if not np.allclose(b, r, atol=1e-6):
        raise Inexact('denominator is not %d' % D)
    return r.astype(int).tolist()


def det(m):
    m = [[Fraction(x) for x in r] for r in m]
    n, d = len(m), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            m[r] = [a - f * b for a, b in zip(m[r], m[i])]
    return d


def gram(ps):
    v = [[a - b for a, b in zip(p, ps[0])] for p in ps[1:]]
    return det([[sum(a * b for a, b in zip(x, y)) for y in v] for x in v])


def nondegenerate(cells, pos, floor=1):
    pos = [[int(x) for x in p] for p in pos]
    return all(gram([pos[v] for v in c]) >= floor for c in cells)


def place(rng, cells, d, span=3, tries=200, floor=1):
    """distinct integer positions in [0, span]^d under which no cell is flat"""
    V = 1 + max(max(c) for c in cells)
    for _ in range(tries):
        seen = set()
        while (span + 1) ** d < V:
            span += 1
        while len(seen) < V:
            seen.add(tuple(rng.randint(0, span) for _ in range(d)))
        pos = list(seen)
        rng.shuffle(pos)
        if nondegenerate(cells, pos, floor):
            return np.array(pos)
    return None


def permuted(cells, pts, rng):
    """relabel the vertices at random, positions along"""
    V = len(pts)
    p = list(range(V))
    rng.shuffle(p)
    new = [None] * V
    for i, x in enumerate(pts):
        new[p[i]] = list(x)
    return [tuple(p[v] for v in c) for c in cells], np.array(new)


def shear(rng, n):
    m = np.eye(n, dtype=int)
    for i in range(n):
        for j in range(i):
            m[i, j] = rng.choice((0, 0, 1, -1))
    return m


def kuhn(rng, n, shape, p=1., stretch=2):
    """oriented simplicial mesh of a box with integer positions; lumpy spacing, sheared"""
    cells, pts = M.random_box_s(rng, n, shape, p)
    cells, pts = M.used(cells, pts)
    steps = [np.concatenate([[0], np.cumsum([rng.randint(1, stretch) for _ in range(s)])]) for s in shape]
    pos = np.array([[steps[a][int(x)] for a, x in enumerate(pt)] for pt in pts])
    return cells, pos.dot(shear(rng, n))


def boxes(rng, shape, p=1., stretch=3):
    """oriented axis-aligned grid complex with integer coordinates and uneven spacing"""
    cells, pts = M.random_box_c(rng, shape, p)
    cells, pts = M.used(cells, pts)
    steps = [np.concatenate([[0], np.cumsum([rng.randint(1, stretch) for _ in range(s)])]) - rng.randint(0, 2) for s in shape]
    return cells, np.array([[steps[a][int(x)] for a, x in enumerate(pt)] for pt in pts]), steps
