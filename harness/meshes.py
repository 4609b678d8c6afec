"""Input meshes for the recorders, as plain vertex tuples (0-based), independent of the library."""
import itertools, random


def inversions(p):
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])


def relabel(cells, rng=None):
    """compact vertex labels to 0..V-1; with rng, in random order"""
    vs = sorted({v for c in cells for v in c})
    to = list(range(len(vs)))
    if rng:
        rng.shuffle(to)
    m = dict(zip(vs, to))
    return [tuple(m[v] for v in c) for c in cells]


def turn_s(cells, rng):
    """scramble vertex order within simplices and element order, keeping orientation and labels"""
    return _scramble_s(cells, rng, True)


def turn_c(cells, n, rng):
    out = [present(c, n, rng, True) for c in cells]
    rng.shuffle(out)
    return out


def scramble_s(cells, rng, keep_orientation=False):
    return relabel(_scramble_s(cells, rng, keep_orientation), rng)


def _scramble_s(cells, rng, keep_orientation=False):
    """random vertex order inside every simplex, random element order, random labels"""
    out = []
    for c in cells:
        c = list(c)
        d = c[:]
        rng.shuffle(d)
        if keep_orientation and (inversions([c.index(x) for x in d]) % 2) and len(d) > 1:
            d[0], d[1] = d[1], d[0]
        if keep_orientation and len(c) == 2:
            d = c
        out.append(tuple(d))
    rng.shuffle(out)
    return out


# ---- simplicial ------------------------------------------------------------------------------
def kuhn(shape, sel=None):
    """Kuhn triangulation of a box grid: list of oriented simplices over lattice points; coordinates"""
    n = len(shape)
    pts = list(itertools.product(*[range(s + 1) for s in shape]))
    idx = {p: i for i, p in enumerate(pts)}
    cells = []
    for base in itertools.product(*[range(s) for s in shape]):
        if sel is not None and base not in sel:
            continue
        for perm in itertools.permutations(range(n)):
            p = list(base)
            c = [idx[tuple(p)]]
            for ax in perm:
                p[ax] += 1
                c.append(idx[tuple(p)])
            if inversions(perm) % 2 and n > 1:
                c[0], c[1] = c[1], c[0]
            cells.append(tuple(c))
    return cells, pts


def used(cells, pts):
    vs = sorted({v for c in cells for v in c})
    m = {v: i for i, v in enumerate(vs)}
    return [tuple(m[v] for v in c) for c in cells], [pts[v] for v in vs]


def facets_s(c):
    return [frozenset(c[:i] + c[i + 1:]) for i in range(len(c))]


def at_most_two(cells, facets):
    cnt = {}
    for c in cells:
        for f in facets(c):
            cnt[f] = cnt.get(f, 0) + 1
    return all(v <= 2 for v in cnt.values())


def sphere(n):
    """boundary of an (n+1)-simplex, oriented"""
    V = tuple(range(n + 2))
    out = []
    for i in range(n + 2):
        c = list(V[:i] + V[i + 1:])
        if i % 2 and n >= 1:
            c[0], c[1] = c[1], c[0]
        out.append(tuple(c))
    return out


def cross_polytope(n):
    """boundary of the (n+1)-dimensional cross polytope: a triangulated n-sphere"""
    out = []
    for s in itertools.product((0, 1), repeat=n + 1):
        c = [2 * i + b for i, b in enumerate(s)]
        if sum(s) % 2 and n >= 1:
            c[0], c[1] = c[1], c[0]
        out.append(tuple(c))
    return out


def moebius(k=5):
    return relabel([(i, (i + 1) % k, (i + 2) % k) for i in range(k)])


def band(k=6):
    """triangulated cylinder around k segments, oriented"""
    out = []
    for i in range(k):
        j = (i + 1) % k
        out += [(i, j, k + i), (j, k + j, k + i)]
    return out


def torus_s(a=3, b=3):
    g = lambda i, j: (i % a) * b + (j % b)
    out = []
    for i in range(a):
        for j in range(b):
            out += [(g(i, j), g(i + 1, j), g(i, j + 1)), (g(i + 1, j), g(i + 1, j + 1), g(i, j + 1))]
    return out


def klein_s(a=3, b=4):
    def g(i, j):
        if i >= a:
            i, j = i - a, -j
        return i * b + (j % b)
    out = []
    for i in range(a):
        for j in range(b):
            out += [(g(i, j), g(i + 1, j), g(i, j + 1)), (g(i + 1, j), g(i + 1, j + 1), g(i, j + 1))]
    return out


def rp2():
    return [tuple(x - 1 for x in t) for t in
            [(1, 2, 3), (1, 3, 4), (1, 4, 5), (1, 5, 6), (1, 6, 2), (2, 3, 5), (3, 4, 6), (4, 5, 2), (5, 6, 3), (6, 2, 4)]]


def disjoint(*parts):
    out, off = [], 0
    for p in parts:
        out += [tuple(v + off for v in c) for c in p]
        off += 1 + max(v for c in p for v in c)
    return out


def flip_s(c):
    c = list(c)
    c[0], c[1] = c[1], c[0]
    return tuple(c)


def path(n):
    return [(i, i + 1) for i in range(n)]


def ring(n):
    return [(i, (i + 1) % n) for i in range(n)]


def random_pure(rng, n, V, m):
    """m distinct random n-simplices on V vertices, random vertex order (arbitrary, may be non-manifold)"""
    S = list(itertools.combinations(range(V), n + 1))
    pick = rng.sample(S, min(m, len(S)))
    return scramble_s(pick, rng)


def random_stack(rng, n, m):
    """grow a mesh by gluing simplices on free facets or on fresh vertices (at most two per facet)"""
    cells = [tuple(range(n + 1))]
    nv = n + 1
    tries = 0
    while len(cells) < m and tries < 50 * m:
        tries += 1
        base = rng.choice(cells)
        i = rng.randrange(n + 1)
        v = nv if rng.random() < .6 else rng.randrange(nv)
        c = base[:i] + (v,) + base[i + 1:]
        if len(set(c)) < n + 1 or any(set(c) == set(d) for d in cells):
            continue
        if not at_most_two(cells + [c], facets_s):
            continue
        cells.append(c)
        nv = max(nv, v + 1)
    return relabel(cells)


def random_box_s(rng, n, shape, p=.6):
    """random subset of the simplices of a Kuhn triangulation: oriented, embedded"""
    cells, pts = kuhn(shape)
    sel = [c for c in cells if rng.random() < p] or cells[:1]
    return sel, pts


# ---- cubical ---------------------------------------------------------------------------------
def cube_cells(shape, sel=None, periodic=()):
    """corner tuples (C order) of a box grid; axes in `periodic` wrap around"""
    n = len(shape)
    ext = [s if a in periodic else s + 1 for a, s in enumerate(shape)]
    def idx(p):
        r = 0
        for x, e in zip(p, ext):
            r = r * e + (x % e)
        return r
    out = []
    for base in itertools.product(*[range(s) for s in shape]):
        if sel is not None and base not in sel:
            continue
        out.append(tuple(idx([b + o for b, o in zip(base, off)]) for off in itertools.product((0, 1), repeat=n)))
    pts = list(itertools.product(*[range(e) for e in ext]))
    return out, pts


def moebius_c(k=4):
    """k quads in a band with a twist"""
    out = []
    for i in range(k):
        a, b = 2 * i, 2 * i + 1
        c, d = (2 * i + 2, 2 * i + 3) if i < k - 1 else (1, 0)
        out.append((a, b, c, d))
    return out


def klein_c(a=3, b=3):
    def g(i, j):
        if i >= a:
            i, j = i - a, -j
        return i * b + (j % b)
    return [(g(i, j), g(i, j + 1), g(i + 1, j), g(i + 1, j + 1)) for i in range(a) for j in range(b)]


def present(c, n, rng, keep_orientation=False):
    """a random symmetric presentation of the corner tuple c of an n-cube"""
    while True:
        perm = list(range(n))
        rng.shuffle(perm)
        fl = [rng.randrange(2) for _ in range(n)]
        if keep_orientation and (inversions(perm) + sum(fl)) % 2:
            continue
        break
    out = []
    for off in itertools.product((0, 1), repeat=n):
        src = [0] * n
        for i, o in enumerate(off):
            src[perm[i]] = o ^ fl[i]
        k = 0
        for s in src:
            k = k * 2 + s
        out.append(c[k])
    return tuple(out)


def scramble_c(cells, n, rng, keep_orientation=False):
    out = [present(c, n, rng, keep_orientation) for c in cells]
    rng.shuffle(out)
    return relabel(out, rng)


def flip_c(c, n):
    """reverse along the first axis"""
    h = len(c) // 2
    return c[h:] + c[:h]


def cube_faces(c, n):
    out = []
    for ax in range(n):
        low = 2 ** (n - 1 - ax)
        for s in (0, 1):
            out.append(tuple(c[(j // low) * 2 * low + s * low + j % low] for j in range(2 ** (n - 1))))
    return out


def facets_c(n):
    return lambda c: [frozenset(f) for f in cube_faces(c, n)]


def distinct_faces(cells, n):
    """no two different faces of one cube share a vertex set, and no two cubes do"""
    while n >= 1:
        if len({frozenset(c) for c in cells}) < len(cells):
            return False
        nxt = {}
        for c in cells:
            if len(set(c)) < len(c):
                return False
            fs = cube_faces(c, n)
            if len({frozenset(f) for f in fs}) < len(fs):
                return False
            for f in fs:
                nxt.setdefault(frozenset(f), f)
        cells, n = list(nxt.values()), n - 1
    return True


def random_box_c(rng, shape, p=.6, periodic=()):
    sel = [b for b in itertools.product(*[range(s) for s in shape]) if rng.random() < p]
    if not sel:
        sel = [tuple([0] * len(shape))]
    cells, pts = cube_cells(shape, set(sel), periodic)
    return cells, pts
