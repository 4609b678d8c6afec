"""C30: spherical complexes - centres, judgments, measures, location, interpolation, refinement, casts."""
from rec_weighted import *
import scipy.spatial

UNITY = 10000


def lattice(R, d=3):
    out = []
    for p in itertools.product(range(-R, R + 1), repeat=d - 1):
        z2 = R * R - sum(x * x for x in p)
        if z2 >= 0:
            z = int(round(z2 ** .5))
            if z * z == z2:
                out += [p + (z,)] + ([p + (-z,)] if z else [])
    return np.array(out)


_lat = {}


def lat(R, d=3):
    if (R, d) not in _lat:
        L = lattice(R, d)
        _lat[R, d] = (L, scipy.spatial.cKDTree(L))
    return _lat[R, d]


def idet(m):
    return geo.det([[int(x) for x in r] for r in m])


def hull(P):
    """outward oriented facets of the convex hull of integer points around the origin, when all are vertices, no
    facet holds more points than it has corners and no facet's plane passes close to the centre; else None"""
    try:
        h = scipy.spatial.ConvexHull(np.asarray(P, float))
    except Exception:
        return None
    if len(h.vertices) != len(P):
        return None
    cs = []
    for s in h.simplices:
        s = [int(v) for v in s]
        o = idet([P[v] for v in s])
        if o == 0:
            return None
        if o < 0:
            s[0], s[1] = s[1], s[0]
        for v in range(len(P)):
            if v not in s:
                side = idet([[int(a) - int(b) for a, b in zip(P[u], P[s[0]])] for u in s[1:] + [v]])
                want = idet([[int(a) - int(b) for a, b in zip(P[u], P[s[0]])] for u in s[1:]] + [[-int(b) for b in P[s[0]]]])
                if side == 0 or want == 0 or (side > 0) != (want > 0):
                    return None
        cs.append(tuple(s))
    return cs


def corner_dots(cs, P):
    P = np.asarray(P)
    return [[int((P[t[i - 2]] - P[t[i]]).dot(P[t[i - 1]] - P[t[i]])) for i in range(3)] for t in cs]


def acute_mesh(cs, P):
    return all(x > 0 for t in corner_dots(cs, P) for x in t)


def spread(rs, n):
    b = rs.normal(size=(n, 3))
    b /= np.linalg.norm(b, axis=1, keepdims=True)
    for _ in range(30):
        d = b[:, None] - b[None]
        dd = (d ** 2).sum(-1) + np.eye(n)
        b = b + 0.02 * (d / dd[..., None] ** 2).sum(1)
        b /= np.linalg.norm(b, axis=1, keepdims=True)
    return b


def turned(rs, b, R):
    """nearest integer points of norm R after a random rotation"""
    q, _ = np.linalg.qr(rs.normal(size=(3, 3)))
    L, t = lat(R)
    i = np.unique(t.query(np.asarray(b).dot(q) * R)[1])
    return None if len(i) != len(b) else [tuple(int(x) for x in L[j]) for j in rs.permutation(i)]


PHI = (1 + 5 ** .5) / 2
ICO = np.array([p for a, b in itertools.product((-1, 1), (-PHI, PHI)) for p in ((0, a, b), (a, b, 0), (b, 0, a))])
ICO = ICO / np.linalg.norm(ICO, axis=1, keepdims=True)
OCT = np.concatenate([np.eye(3), -np.eye(3)])


def ico1():
    D = ((ICO[:, None] - ICO[None]) ** 2).sum(-1)
    e = D[D > 1e-9].min()
    m = [ICO[i] + ICO[j] for i in range(12) for j in range(i) if D[i, j] < e * 1.1]
    b = np.concatenate([ICO, m])
    return b / np.linalg.norm(b, axis=1, keepdims=True)


def classes(n):
    import pycomplex.complex.simplicial.spherical as S
    return {1: (S.ComplexSpherical, S.ComplexCircular), 2: (S.ComplexSpherical2, S.ComplexSpherical2, S.ComplexSpherical), 3: (S.ComplexSpherical, S.ComplexSpherical3)}.get(n, (S.ComplexSpherical,))


def fixed(a):
    a = np.asarray(a, float)
    return [fixed(x) for x in a] if a.ndim else (10 ** 9 if not np.isfinite(a) else int(round(min(max(float(a), -1e5), 1e5) * UNITY)))


def angles(m):
    return [[x, y, z] for x, y, z in zip(fixed(m), fixed(np.cos(m)), fixed(np.sin(m)))]


def uneven_at(cs, P):
    """do edges of rather different lengths meet: then the weights of the pieces may be too large, which is refused"""
    m = {}
    for c in cs:
        for a, b in itertools.combinations(c, 2):
            l = float(((np.asarray(P[a]) - np.asarray(P[b])) ** 2).sum())
            m.setdefault(a, []).append(l)
            m.setdefault(b, []).append(l)
    return any(max(x) > 2.5 * min(x) for x in m.values())


def directions(cs, P, count, inner=True):
    """integer directions within random simplices, on their facets and corners too"""
    P = np.asarray(P)
    out = []
    for _ in range(count):
        c = cs[rng.randrange(len(cs))]
        while True:
            w = [rng.choice((0, 1, 1, 2, 3, 5)) if not inner or rng.random() < .3 else rng.randint(1, 5) for _ in c]
            if any(w):
                break
        q = sum(x * P[v] for x, v in zip(w, c))
        g = int(np.gcd.reduce(np.abs(q)))
        out.append([int(x) for x in q // g])
    return out


def unit(q):
    q = np.asarray(q, float)
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


def build_sphere(rec, cs, P, R, radius, weights=None, h='T'):
    n = len(cs[0]) - 1
    K = rng.choice(classes(n))
    if K.__name__ == 'ComplexSpherical2':
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h=h, kind='simplicial', n=n, cells=[[v + 1 for v in c] for c in cs])
    else:
        T = make(rec, 'simplicial', n, cs, h=h)
    if T is None:
        return None, None
    C = K(vertices=np.asarray(P, float) / R, topology=T, radius=radius, weights=None if weights is None else np.array(weights, float))
    return C, T


def whole(cs, P, R, radius=None, closed=True, delaunay=True, judge_only=False, rec=None, picks=True, fund=True):
    """all questions about one mesh, in random order"""
    n = len(cs[0]) - 1
    radius = radius or rng.choice((1, 1, 2, 3, .5))
    cs, P = geo.permuted(cs, P, rng)
    P = np.asarray(P)
    turn = rng.random() < .3
    if turn:
        cs = [tuple(c[:-2]) + (c[-1], c[-2]) for c in cs]
    cs = [tuple(np.roll(c, rng.randrange(len(c)))) if n == 2 else c for c in cs]
    cs = [tuple(int(v) for v in c) for c in cs]
    C, T = build_sphere(rec, cs, P, R, radius)
    if C is None:
        return
    D = P.shape[1]
    base = dict(of='T', coarse=ints(P))
    right = n == 2 and any(x == 0 for t in corner_dots(cs, P) for x in t)
    well = n == 1 or (n == 2 and acute_mesh(cs, P))
    jobs = []
    if n == 2 and D == 3:
        ne = T.n_elements[1]
        pairs = [rng.sample(range(ne), 2) for _ in range(6)]

        def shapes():
            from pycomplex.geometry import spherical as S
            U = np.asarray(P, float) / R
            e, t = U[np.asarray(T.corners[1])], U[np.asarray(T.corners[2])]
            t = t[:, rng.sample(range(3), 3)]
            how = rng.randrange(3)      # batches of any shape
            f = (lambda g, x: g(x)) if how == 0 else (lambda g, x: g(x[:, None])[:, 0]) if how == 1 else (lambda g, x: np.array([g(y[None])[0] for y in x]))
            a, b = e[[x for x, _ in pairs]], e[[y for _, y in pairs]]
            cuts = S.intersect_edges(a[:, 0], a[:, 1], b[:, 0], b[:, 1])
            circ = S.circumcenter(t) if how == 0 else f(S.circumcenter, t)
            cuts = np.where(np.isfinite(cuts), cuts, 0)
            return dict(arcs=angles(f(S.unsigned_volume, e)), areas=angles(f(S.unsigned_volume, t)), mids=[fixed(x) for x in f(S.circumcenter, e)],
                        centres=[fixed(x) for x in circ], cuts=[fixed(x) for x in cuts])
        jobs.append(lambda: rec.call('sphshapes', shapes, lambda d: d, R=R, pairs=[[x + 1, y + 1] for x, y in pairs], **base))
    jobs.append(lambda: rec.call('sphcentres', lambda: dict(centres=[fixed(p) for p in C.primal_position]), lambda d: d, **base))
    if n == 2:
        jobs.append(lambda: rec.call('sphjudge', lambda: dict(wellcentred=bool(C.is_well_centered), delaunay=bool(C.is_pairwise_delaunay)), lambda d: d, **base))
    if judge_only:
        for j in rng.sample(jobs, len(jobs)):
            j()
        return
    if well:
        def metric():
            pm, dm = C.primal_metric, C.dual_metric
            d = dict(primal=[fixed(pm[0])] + [angles(m / radius ** (k + 1)) for k, m in enumerate(pm[1:])],
                     dual=[fixed(dm[0])] + [angles(m / radius ** (k + 1)) for k, m in enumerate(dm[1:])],
                     totals=[fixed(pm[-1].sum() / radius ** n), fixed(dm[-1].sum() / radius ** n)], whole=bool(closed and n == 2))
            if not closed and n == 2:
                d['closed'] = angles(C.dual_metric_closed[1][T.n_elements[1]:] / radius)
                d['bidx'] = ints(np.asarray(T.boundary.parent_idx[0]) + 1)
            return d
        jobs.append(lambda: rec.call('sphmetric', metric, lambda d: d, R=R, **base))
    everywhere = [p for p in ([rng.randint(-9, 9) for _ in range(D)] for _ in range(12)) if any(p)]

    def boundary():
        B = C.boundary
        if B is None:
            return dict(none=True)
        return dict(none=False, radius=rat(B.radius), fine=ints(np.rint(B.vertices * R)), parent_idx=ints(np.asarray(B.topology.parent_idx[0]) + 1), weights=[],
                    cells=cells(B.topology.elements[-1]))
    jobs.append(lambda: rec.call('sphboundary', boundary, lambda d: d, parent_radius=rat(radius), were=[], **base))
    if delaunay and picks:
        pts = directions(cs, P, 24 if THOROUGH else 12) + (everywhere[:6] if closed else [])
        Q = unit(pts)

        def hints(count):
            return [None, np.zeros(len(pts), dtype=int), np.array([rng.randrange(count) for _ in pts]), 'same']
        for h in hints(len(cs)):
            def pick(h=h):
                g = C.pick_primal(Q)[0] if isinstance(h, str) else h
                r = C.pick_primal(Q) if g is None else C.pick_primal(Q, simplex_idx=g)
                return dict(cell=ints(np.asarray(r[0]) + 1), bary=fixed(r[1]))
            jobs.append(lambda pick=pick: rec.call('sphpick', pick, lambda d: d, pts=pts, **base))
        some = [pts[j] for j in rng.sample(range(len(pts)), min(len(pts), 8))]
        f = [[rng.randint(-9, 9) for _ in range(rng.choice((1, 2)))] for _ in P[:1]]
        f = [[rng.randint(-9, 9) for _ in f[0]] for _ in P]
        single = len(f[0]) == 1 and rng.random() < .7

        def sample0():
            g = np.array(f, float)
            r = C.sample_primal_0(g[:, 0] if single else g, unit(some))
            assert np.shape(r) == (len(some),) + (() if single else (len(f[0]),)), 'shape %s' % (np.shape(r),)
            return dict(out=fixed(np.asarray(r).reshape(len(some), -1)))
        jobs.append(lambda: rec.call('sphsample0', sample0, lambda d: d, pts=some, f=f, **base))
        if well and closed and fund and n <= 2:
            uneven = uneven_at(cs, P)
            for h in hints(len(cs) * (n + 1) * n)[:4 if n == 2 else 1]:
                def fundamental(h=h):
                    g = C.pick_fundamental(Q)[0] if isinstance(h, str) else h
                    r = C.pick_fundamental(Q) if g is None else C.pick_fundamental(Q, domain_idx=g)
                    E = C.subdivide_fundamental(oriented=True).topology.elements[-1]
                    return dict(domain=[ints(x + 1) for x in r[2]], bary=fixed(r[1]), corners=[ints(E[i] + 1) for i in r[0]])
                jobs.append(lambda fundamental=fundamental: rec.call('sphfund', fundamental, lambda d: d, pts=pts, uneven=uneven, **base))
            for plain in (True, False):
                fd = [[rng.randint(-9, 9) for _ in range(rng.choice((1, 1, 2)))]]
                fd = [[rng.randint(-9, 9) for _ in fd[0]] for _ in cs]

                def sampled(plain=plain, fd=fd):
                    g = np.array(fd, float)
                    one = plain and len(fd[0]) == 1
                    r = C.sample_dual_0(g[:, 0] if one else g, np.concatenate([unit(some), C.primal_position[-1]]), weighted=not plain)
                    assert np.shape(r) == (len(some) + len(cs),) + (() if one else (len(fd[0]),)), 'shape %s' % (np.shape(r),)
                    return dict(out=fixed(np.asarray(r).reshape(len(some) + len(cs), -1)))
                jobs.append(lambda sampled=sampled, plain=plain, fd=fd: rec.call('sphsampledual', sampled, lambda d: d, pts=some, f=fd, plain=plain, uneven=uneven, **base))
    jobs.append(lambda: rec.call('sphdual', lambda: dict(vertex=ints(np.asarray(C.pick_dual(unit(everywhere))) + 1)), lambda d: d, pts=everywhere, **base))

    def refined(how, dims):
        def get():
            F = getattr(C, how)()
            d = dict(radius=rat(F.radius), fine=fixed(F.vertices))
            if well and n <= 2 and how != 'subdivide_simplicial':
                try:
                    ok = bool(F.is_well_centered)
                except Exception:
                    ok = False
                if ok:
                    d['totals'] = [fixed(F.primal_metric[-1].sum() / radius ** n), fixed(C.primal_metric[-1].sum() / radius ** n)]
            return d
        jobs.append(lambda: rec.call('sphrefine', get, lambda d: d, parent_radius=rat(radius), dims=dims, how=how, **base))
    if n == 2 and type(C).__name__ == 'ComplexSpherical2':
        refined('subdivide_loop', [0, 1])
        refined('subdivide_loop_direct', [0, 1])
    if n <= 2:
        refined('subdivide_fundamental', list(range(n + 1)))
    refined('subdivide_simplicial', [0, n])
    if n == 1 and type(C).__name__ == 'ComplexCircular':
        refined('subdivide', [0, 1])
    w = [rng.randint(0, 3) for _ in P]

    def casts():
        W = C.copy(weights=np.array(w, float) / 64)
        E = W.as_euclidian()
        d = dict(fine=ints(np.rint(np.asarray(E.vertices) * R)), cells=cells(E.topology.elements[-1]), weights=ints(np.asarray(E.weights) * 64))
        if n == 1 or n == 2:
            S = E.as_spherical()
            same = np.array_equal(np.asarray(S.vertices), np.asarray(E.vertices)) and np.array_equal(np.asarray(S.weights), np.asarray(E.weights))
            if not same or not np.array_equal(S.topology.elements[-1], E.topology.elements[-1]):
                d['fine'] = []
        return d
    jobs.append(lambda: rec.call('sphkept', casts, lambda d: d, were=w, **base))
    if not closed:
        def wb():
            B = C.copy(weights=np.array(w, float) / 64).boundary
            return dict(none=False, radius=rat(B.radius), fine=ints(np.rint(B.vertices * R)), parent_idx=ints(np.asarray(B.topology.parent_idx[0]) + 1),
                        weights=ints(np.asarray(B.weights) * 64), cells=cells(B.topology.elements[-1]))
        jobs.append(lambda: rec.call('sphboundary', wb, lambda d: d, parent_radius=rat(radius), were=w, **base))

    def copied():
        m = np.zeros((D, D))
        perm = list(range(D))
        X = C.transform(np.eye(D)[perm]) if rng.random() < .5 else C.copy()
        return dict(fine=ints(np.rint(X.vertices * R)), cells=cells(X.topology.elements[-1]), weights=[], radius=rat(X.radius))
    jobs.append(lambda: rec.call('sphkept', copied, lambda d: d, were=[], parent_radius=rat(radius), **base))
    for j in rng.sample(jobs, len(jobs)):
        j()


def caps():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('caps-'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def signed(P):
    """a random signed permutation of the coordinates"""
    P = np.asarray(P)
    d = P.shape[1]
    perm = list(range(d))
    rng.shuffle(perm)
    P = P[:, perm] * np.array([rng.choice((-1, 1)) for _ in range(d)])
    return P


def main(rec):
    k = 4 if THOROUGH else 1
    rs = np.random.RandomState(SEED)
    pairs = caps()
    rng.shuffle(pairs)
    for i, x in enumerate(pairs[:260 * k]):
        P = np.array(x['pos'])
        cs = [(0, 1, 2), (1, 0, 3)]
        R = int(round(np.linalg.norm(P[0])))
        up, down = np.cross(P[1] - P[0], P[2] - P[0]), np.cross(P[3] - P[0], P[1] - P[0])
        if up.dot(P[0]) <= 0 or down.dot(P[0]) <= 0:
            continue
        convex = up.dot(P[0] - P[3]) > 0
        rec.case('cap-%d' % i)
        apex = all(np.dot(P[x] - P[v], P[y] - P[v]) > 0 for t in cs for v, x, y in ((0, 1, t[2]), (1, 0, t[2])))
        whole(cs, signed(P), R, closed=False, delaunay=bool(convex and apex), rec=rec)
    jobs = [('oct', OCT, (3, 7, 9, 15)), ('ico', ICO, (7, 9, 15, 21, 33)), ('ico1', ico1(), (33, 45)), ('some', None, (15, 21, 33, 45))]
    for name, b, Rs in jobs:
        done = 0
        for i in range(600 * k):
            if done >= {'oct': 10, 'ico': 14, 'ico1': 2, 'some': 12}[name] * k:
                break
            R = rng.choice(Rs)
            P = turned(rs, spread(rs, rng.randint(6, 16)) if b is None else b, R)
            if P is None:
                continue
            cs = hull(P)
            if cs is None or not acute_mesh(cs, P):
                continue
            done += 1
            rec.case('%s-%d' % (name, i))
            if name == 'ico1' or rng.random() < .65:
                whole(cs, P, R, rec=rec)
            else:       # an open part
                keep = [c for c in cs if rng.random() < .7] or cs[:1]
                c2, p2 = M.used(keep, P)
                closed = len(keep) == len(cs)
                whole(c2, np.array(p2), R, closed=closed, delaunay=closed, rec=rec)
    # a few triangles around all of the sphere, one of them larger than half of a hemisphere
    done = 0
    for i in range(60000 * k):
        if done >= 24 * k:
            break
        R = rng.choice((7, 9, 15, 21))
        L, _ = lat(R)
        P = L[rs.choice(len(L), rng.choice((4, 4, 4, 5)), replace=False)]
        if np.all(P.dot(rs.normal(size=(3, 5))) > 0, axis=0).any():
            continue
        P = [tuple(int(x) for x in p) for p in P]
        cs = hull(P)
        if cs is None or not acute_mesh(cs, P) or (done % 3 and not any(R ** 3 + R * sum(int(np.dot(P[c[j]], P[c[j - 1]])) for j in range(3)) < 0 for c in cs)):
            continue
        done += 1
        rec.case('few-%d' % i)
        whole(cs, P, R, rec=rec, fund=False)
    # any triangulations with empty circles, and spoiled ones
    done = 0
    for i in range(2000 * k):
        if done >= 40 * k:
            break
        R = rng.choice((7, 9, 15, 21))
        L, _ = lat(R)
        P = [tuple(int(x) for x in L[j]) for j in rs.choice(len(L), rng.randint(5, 14), replace=False)]
        cs = hull(P)
        if cs is None:
            continue
        done += 1
        rec.case('hull-%d' % i)
        whole(cs, P, R, rec=rec)
        flipped = flip_edge(cs)
        if flipped is not None and all(idet([P[v] for v in c]) > 0 and np.cross(np.subtract(P[c[1]], P[c[0]]), np.subtract(P[c[2]], P[c[0]])).dot(P[c[0]]) > 0 for c in flipped):
            rec.case('flipped-%d' % i)
            whole(flipped, P, R, delaunay=False, judge_only=True, rec=rec)
    # circles
    for i in range(30 * k):
        R = rng.choice((1, 5, 25, 65))
        L = sorted([tuple(p) for p in lattice(R, 2).tolist()], key=lambda p: np.arctan2(p[1], p[0]))
        m = rng.randint(3, min(len(L), 12))
        P = [L[j] for j in sorted(rng.sample(range(len(L)), m))]
        if any(P[j][0] * P[(j + 1) % m][1] - P[j][1] * P[(j + 1) % m][0] <= 0 for j in range(m)):
            continue
        rec.case('circle-%d' % i)
        arcs = [np.arccos(np.dot(P[j], P[(j + 1) % m]) / R ** 2) for j in range(m)]
        # the weights of the pieces are only small enough when neighbouring arcs are of similar length
        even = all(arcs[j] < 2.2 * arcs[j - 1] and arcs[j - 1] < 2.2 * arcs[j] for j in range(m))
        cs = [(j, (j + 1) % m) for j in range(m)]
        if rng.random() < .7:
            whole(cs, P, R, rec=rec, fund=even)
        else:
            whole(cs[:-1], P, R, closed=False, rec=rec)
    # higher spheres
    done = 0
    for i in range(400 * k):
        if done >= 14 * k:
            break
        R = rng.choice((3, 5))
        d = rng.choice((4, 4, 4, 5)) if R == 3 else 4
        L, _ = lat(R, d)
        P = [tuple(int(x) for x in L[j]) for j in rs.choice(len(L), rng.randint(d + 1, d + 5), replace=False)]
        cs = hull(P)
        if cs is None:
            continue
        done += 1
        rec.case('sphere%d-%d' % (d - 1, i))
        whole(cs, P, R, rec=rec)
    for d in (4, 5):
        for i in range(2):
            P = [tuple(int(x) for x in r) for r in np.concatenate([np.eye(d), -np.eye(d)]).astype(int)]
            cs = hull(P)
            rec.case('cross%d-%d' % (d, i))
            whole(cs, P, 1, rec=rec)


def flip_edge(cs):
    """the other diagonal of two neighbouring triangles, when it is not an edge yet"""
    edges = {}
    for c in cs:
        for j in range(3):
            edges[c[j], c[(j + 1) % 3]] = c
    es = sorted(edges)
    rng.shuffle(es)
    for a, b in es:
        c, d = edges[a, b], edges[b, a]
        x = next(v for v in c if v not in (a, b))
        y = next(v for v in d if v not in (a, b))
        if (x, y) in edges or (y, x) in edges:
            continue
        return [t for t in cs if t not in (c, d)] + [(a, y, x), (y, b, x)]
    return None


if __name__ == '__main__':
    run(main)
