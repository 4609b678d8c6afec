"""C15 (metrics) and C27 (surface and curve measures)."""
from rec_refine import *
import rec_topology as RT


def nn(a):
    return [rat(x, maxden=30000, tol=1e-9) if np.isfinite(x) else [1, 0] for x in np.asarray(a)]


def close(x):
    """simplest rational within the accuracy of square roots of sums that cancel (1e-8 for a zero)"""
    if not np.isfinite(x) or abs(x) > 1e6:
        return [1, 0]
    for m in (60, 700, 3000):
        try:
            return rat(x, maxden=m, tol=3e-7)
        except Inexact:
            pass
    return rat(x, maxden=30000, tol=3e-7)


def near(a, den=None):
    return [multiple(x, den) if den else close(x) for x in np.asarray(a)]


def inverses(a, den=None):
    """of numbers whose inverses are simple"""
    return [[q * (1 if p > 0 else -1), abs(p)] for p, q in (near([1 / x], den)[0] if x else [0, 1] for x in np.asarray(a))]


def multiple(x, den):
    """the multiple of 1 / den meant, or the number with such an inverse"""
    for y in (x, 1 / x if x else 0):
        if np.isfinite(y) and abs(y) < 1e6 and abs(round(y * den) / den - y) <= 1e-6 * max(1, abs(y)):
            f = Fraction(int(round(y * den)), den)
            return [f.numerator, f.denominator] if y == x else [f.denominator * (1 if f > 0 else -1), abs(f.numerator)] if f else [1, 0]
    return [1, 0]


def regular_class(n):
    import pycomplex.complex.regular as R
    return {1: R.ComplexRegular1, 2: R.ComplexRegular2, 3: R.ComplexRegular3, 4: R.ComplexRegular4}[n]


def away(pos):
    """moved far from the origin, or scaled"""
    pos = np.asarray(pos)
    pos = pos * rng.choice((1, 1, 3))
    return pos + np.array([rng.choice((0, 40, -70, rng.randint(-9, 9))) for _ in range(pos.shape[1])])


def grid_metric(rec, C, T, pos, order, of='T'):
    def get():
        b = T.boundary
        d = {}
        # derived answers first or last: the order of asking must not matter
        for what in order:
            if what == 'closed':
                d['closed'] = [nn(m) for m in C.dual_metric_closed]
            elif what == 'metric':
                d['P'] = [nn(m) for m in C.primal_metric]
                d['D'] = [nn(m) for m in C.dual_metric]
            else:
                d['DP'] = [nn(m) for m in C.hodge_DP]
                d['PD'] = [nn(m) for m in C.hodge_PD]
        d['bidx'] = [] if b is None else [ints(np.asarray(p).reshape(-1) + 1) for p in b.parent_idx]
        return d
    rec.call('gridmetric', get, lambda d: d, of=of, coarse=ints(pos))


def grids(rec):
    k = 4 if THOROUGH else 1
    for n in (1, 2, 3, 4):
        for i in range(k * {1: 12, 2: 30, 3: 22, 4: 2}[n]):
            shape = [rng.randint(1, {1: 6, 2: 4, 3: 2, 4: 1}[n]) for _ in range(n)]
            cs, pos, _ = geo.boxes(rng, shape, rng.choice((.6, 1, 1)))
            if n == 3:
                cs = cs[:8]
            cs, pos = M.used(cs, pos)
            if i % 3:
                cs, pos = geo.permuted(cs, pos, rng)
                cs = M.turn_c(cs, n, rng)
            pos = np.array(pos)
            rec.case('grid%d-%d' % (n, i))
            T = make(rec, 'cubical', n, cs)
            if T is None:
                continue
            C = regular_class(n)(vertices=pos, topology=T)
            order = ['metric', 'hodge', 'closed']
            rng.shuffle(order)
            grid_metric(rec, C, T, pos, order)


def bcc(rng, shape, p):
    """oriented well-centred tetrahedra of the body-centred cubic lattice"""
    cells, index, pts = [], {}, []

    def at(x):
        x = tuple(x)
        if x not in index:
            index[x] = len(pts)
            pts.append(x)
        return index[x]
    for base in itertools.product(*[range(s) for s in shape]):
        for ax in range(3):
            if base[ax] + 1 >= shape[ax] or rng.random() > p:
                continue
            c1 = [2 * b + 1 for b in base]
            c2 = list(c1)
            c2[ax] += 2
            u, v = [a for a in range(3) if a != ax]
            ring = []
            for du, dv in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
                q = list(c1)
                q[ax] += 1
                q[u] += du
                q[v] += dv
                ring.append(q)
            for j in range(4):
                if rng.random() < .85:
                    t = [c1, c2, ring[j], ring[(j + 1) % 4]]
                    d = geo.det([[a - b for a, b in zip(x, t[0])] for x in t[1:]])
                    if d < 0:
                        t[2], t[3] = t[3], t[2]
                    cells.append(tuple(at(x) for x in t))
    return cells, pts


def acute(rng, a, b):
    """oriented acute planar triangulation"""
    pts, cells = [], []
    for j in range(b + 1):
        for i in range(a + 1):
            pts.append((2 * i + j % 2, 2 * j))
    g = lambda i, j: j * (a + 1) + i
    for j in range(b):
        for i in range(a):
            if j % 2 == 0:
                cells += [(g(i, j), g(i + 1, j), g(i, j + 1)), (g(i + 1, j), g(i + 1, j + 1), g(i, j + 1))]
            else:
                cells += [(g(i, j), g(i + 1, j), g(i + 1, j + 1)), (g(i, j), g(i + 1, j + 1), g(i, j + 1))]
    return [c for c in cells if rng.random() < .85] or cells[:1], pts


def wellcentred(rec, C, T, pos, D, of='T'):
    def get():
        P, DM = C.primal_metric, C.dual_metric[::-1]
        return dict(P2=[nn(np.square(m)) for m in P], diamond=[nn(p * d) for p, d in zip(P, DM)],
                    centres=[geo.common(p, D) for p in C.primal_position],
                    volume=[nn([C.primal_metric[-1].sum()])[0], nn([C.dual_metric[-1].sum()])[0]])
    rec.call('wellcentred', get, lambda d: d, of=of, D=D, coarse=ints(pos))


def simplicial(rec):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
    k = 4 if THOROUGH else 1
    for i in range(k * 14):
        cs, pos = bcc(rng, rng.choice(((2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 1))), .7)
        if not cs:
            continue
        cs = cs[:14]
        cs, pos = M.used(cs, pos)
        cs, pos = geo.permuted(cs, pos, rng)
        cs = M.turn_s(cs, rng)
        rec.case('bcc-%d' % i)
        T = make(rec, 'simplicial', 3, cs)
        if T is not None:
            pos = away(pos)
            wellcentred(rec, ComplexSimplicialEuclidian(vertices=pos, topology=T), T, pos, 4)
    for i in range(k * 14):
        cs, pos = acute(rng, rng.randint(1, 4), rng.randint(1, 3))
        cs, pos = M.used(cs, pos)
        cs, pos = geo.permuted(cs, pos, rng)
        cs = M.turn_s(cs, rng)
        rec.case('acute-%d' % i)
        T = make(rec, 'simplicial', 2, cs)
        if T is not None:
            pos = away(pos)
            wellcentred(rec, ComplexSimplicialEuclidian(vertices=pos, topology=T), T, pos, 4)
    for i in range(k * 8):
        cs, pos = geo.kuhn(rng, 1, [rng.randint(1, 6)], 1, 4)
        cs, pos = geo.permuted(cs, pos, rng)
        rec.case('line-%d' % i)
        T = make(rec, 'simplicial', 1, M.turn_s(cs, rng))
        if T is not None:
            pos = away(pos)
            wellcentred(rec, ComplexSimplicialEuclidian(vertices=pos, topology=T), T, pos, 2)
    # planar, obtuse triangles included
    def planar_meshes():
        for i in range(k * 16):
            shape = [rng.randint(1, 3), rng.randint(1, 3)]
            cs, pos = geo.kuhn(rng, 2, shape, rng.choice((.5, 1)), 2)
            yield 'sheared-%d' % i, cs, pos, False
        for i in range(k * 8):
            cs, pts = M.kuhn([rng.randint(1, 3), rng.randint(1, 3)])
            yield 'rect-%d' % i, cs, np.array(pts) * np.array([rng.randint(1, 2), rng.randint(1, 3)]), True
        for id, kind, n, cs in RT.raw_oriented(k):
            if kind == 'simplicial' and n == 2 and len(cs) <= 20:
                pos = geo.place(rng, cs, 2, 3)
                if pos is not None:
                    yield id, cs, pos, False
        # corners that are almost right, on either side
        for i in range(k * 10):
            while True:
                u, v, w = ([rng.randint(-12, 12), rng.randint(-12, 12)] for _ in range(3))
                det, dot = u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]
                if det > 70 and dot in (-1, -1, 0, 1)[i % 4:][:1]:
                    break
            cs, pos = [(0, 1, 2)], [(0, 0), u, v]
            if rng.random() < .6:
                # and its mirror image over the long side
                cs.append((1, 3, 2))
                pos.append((u[0] + v[0], u[1] + v[1]))
            yield 'right-%d' % i, cs, np.array(pos), False, 16 * det
    for id, cs, pos, whole, *den in planar_meshes():
        den = den[0] if den else None
        cs, pos = geo.permuted(cs, pos, rng)
        cs = M.turn_s(cs, rng)
        pos = away(pos)
        rec.case('planar/' + id)
        T = make(rec, 'simplicial', 2, cs)
        if T is None:
            continue
        for K in (ComplexSimplicialEuclidian, ComplexTriangularEuclidian):
            T2 = T if K is ComplexSimplicialEuclidian else tri(cs)
            C = K(vertices=pos, topology=T2)
            def get():
                d = dict(P2=[near(np.square(m), den and 4) for m in C.primal_metric], DP=[near(m, den) for m in C.hodge_DP], PD=[inverses(m, den) for m in C.hodge_PD],
                         volume=[near([C.primal_metric[-1].sum()], den)[0], near([C.dual_metric[-1].sum()], den)[0]])
                if whole:
                    d['closed'] = near(C.dual_metric_closed[1][T2.n_elements[1]:])
                    d['bidx'] = ints(np.asarray(T2.boundary.parent_idx[0]) + 1)
                if K is ComplexTriangularEuclidian:
                    d.update(areas=near(C.compute_triangle_areas, den), vareas=near(C.compute_vertex_areas, den), cotan=near(C.compute_edge_ratio, den))
                return d
            rec.call('planar', get, lambda d: d, of='T', coarse=ints(pos))


def surfaces(rec):
    """C27"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    from pycomplex.complex.cubical import ComplexCubical1Euclidian2
    k = 5 if THOROUGH else 1
    named = {x[0]: x for x in RT.closed_meshes()}
    for id in ('sphere2', 'cross2', 'torus-s', 'band6', 'simplex2'):
        for i in range(k * 12):
            cs = M.turn_s(named[id][3], rng)
            pos = geo.place(rng, cs, 3, rng.choice((2, 4, 6)))
            if pos is None:
                continue
            pos = pos + np.array([rng.randint(-4, 9) for _ in range(3)])
            cs, pos = geo.permuted(cs, pos, rng)
            rec.case('%s-%d' % (id, i))
            surface(rec, ComplexTriangularEuclidian3, cs, pos, id[:4] not in ('band', 'simp'))
    for i in range(k * 14):
        shape = [rng.randint(1, 2) for _ in range(3)]
        sel = {b for b in itertools.product(*[range(s) for s in shape]) if rng.random() < .7} or {(0, 0, 0)}
        cells, pts = M.kuhn(shape, sel)
        seen = {}
        for c in cells:
            sg = geo.det([[a - b for a, b in zip(pts[v], pts[c[0]])] for v in c[1:]])
            for j in range(4):
                f = list(c[:j] + c[j + 1:])
                if (j % 2 == 0) != (sg > 0):
                    f[0], f[1] = f[1], f[0]
                seen.setdefault(frozenset(f), []).append(tuple(f))
        cs = [fs[0] for fs in seen.values() if len(fs) == 1]
        cs, pts = M.used(cs, pts)
        scale = np.array([rng.randint(1, 3) for _ in range(3)])
        cs, pos = geo.permuted(cs, np.array(pts) * scale + np.array([rng.randint(-9, 9) for _ in range(3)]), rng)
        rec.case('boxes-%d' % i)
        C = surface(rec, ComplexTriangularEuclidian3, M.turn_s(cs, rng), pos, True)
        if C is not None:
            rec.call('area', lambda: (rat(C.area()), rats(C.vertex_areas())), lambda a: dict(area=a[0], vareas=a[1]), of='T', coarse=ints(pos))
    for i in range(k * 40):
        parts = [M.ring(rng.randint(3, 7)) for _ in range(rng.randint(1, 2))]
        if i % 5 == 0:
            parts.append(M.path(rng.randint(1, 3)))
        cs = M.disjoint(*parts)
        V = 1 + max(max(c) for c in cs)
        pos = np.array([[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(V)])
        cs, pos = geo.permuted(cs, pos, rng)
        rng.shuffle(cs)
        rec.case('curve-%d' % i)
        T = make(rec, 'cubical', 1, cs)
        if T is not None:
            rec.call('curve', lambda: rat(ComplexCubical1Euclidian2(vertices=pos, topology=T).volume()), lambda v: dict(volume=v), of='T', coarse=ints(pos))


def surface(rec, K, cs, pos, closed):
    T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2, cells=[[v + 1 for v in c] for c in cs])
    if T is None:
        return None
    C = K(vertices=pos.astype(float), topology=T)
    measured(rec, C, pos, closed)
    return C


def measured(rec, C, pos, closed):
    def get():
        d = dict(normals=ints(C.triangle_normals()), vnormals=ints(C.vertex_normals()), volume=rat(C.volume()),
                 centroids=geo.points(C.triangle_centroids()), lengths2=nn(np.square(C.edge_lengths())))
        if closed and abs(C.volume()) > 1e-9:
            d['com'] = geo.point(C.center_of_mass())
        return d
    rec.call('surface', get, lambda d: d, of='T', coarse=ints(pos), closed=closed)


def main(rec):
    if PID == 'C15':
        grids(rec)
        simplicial(rec)
    else:
        surfaces(rec)


if __name__ == '__main__':
    run(main)
