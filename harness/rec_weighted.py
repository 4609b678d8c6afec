"""C29: vertex weights, power duals, judgments of meshes and the quantities behind them."""
from rec_metric import *
from math import lcm


def replayed():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('pairs-'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def klasses(n):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
    return (ComplexSimplicialEuclidian, ComplexTriangularEuclidian) if n == 2 else (ComplexSimplicialEuclidian,)


def exact_centre(ps, ws):
    """Fractions: barycentric coordinates of the power centre of a full set of points"""
    m = len(ps) - 1
    v = [[Fraction(a) - b for a, b in zip(p, ps[0])] for p in ps[1:]]
    G = [[sum(a * b for a, b in zip(x, y)) for y in v] for x in v]
    r = [(G[i][i] - ws[i + 1] + ws[0]) / 2 for i in range(m)]
    D = geo.det(G)
    t = [geo.det([[r[i] if j == k else G[i][j] for j in range(m)] for i in range(m)]) / D for k in range(m)]
    return [1 - sum(t)] + t


def exact_all(cs, pos, w):
    """barycentric coordinates of every element of every cell"""
    out = []
    for c in cs:
        for k in range(2, len(c) + 1):
            for f in itertools.combinations(c, k):
                out.append((f, exact_centre([[int(x) for x in pos[v]] for v in f], [int(w[v]) for v in f])))
    return out


def small(cs, pos, w, limit=200):
    for f, b in exact_all(cs, pos, w):
        x = [sum(bi * int(pos[v][a]) for bi, v in zip(b, f)) for a in range(len(pos[0]))]
        d = 1
        for q in x:
            d = lcm(d, q.denominator)
        if d > limit or max(abs(q) for q in b) > 30:
            return False
    return True


def facets_positive(cs, pos, w):
    """every dual edge strictly positive (exact)"""
    m = {}
    for c in cs:
        at = lambda f: [sum(bi * int(pos[v][a]) for bi, v in zip(exact_centre([[int(x) for x in pos[u]] for u in f], [int(w[u]) for u in f]), f)) for a in range(len(pos[0]))]
        b = exact_centre([[int(x) for x in pos[v]] for v in c], [int(w[v]) for v in c])
        x = at(c)
        for j in range(len(c)):
            f = c[:j] + c[j + 1:]
            y = at(f) if len(f) > 1 else [int(q) for q in pos[f[0]]]
            s = sum((p - q) ** 2 for p, q in zip(x, y)) * (1 if b[j] > 0 else -1)
            m[frozenset(f)] = m.get(frozenset(f), 0) + s
    return all(v > 0 for v in m.values())


def depths(a):
    return [[rat(x, maxden=100000, tol=1e-7) for x in r] for r in np.asarray(a)]


def scaled(a):
    """times 10^4, rounded"""
    return [int(round(min(max(float(x), -2e5), 2e5) * 10000)) if np.isfinite(x) else 10**9 for x in a]


def vec(w):
    """rarely the weights come as integers"""
    return np.array(w, float)


def judge(rec, C, T, pos, w, order):
    def get():
        d = {}
        for what in order:
            if what == 'judge':
                d['wellcentred'] = bool(C.is_well_centered)
                d['delaunay'] = bool(C.is_pairwise_delaunay)
            elif what == 'depth':
                d['excess'] = [depths(C.dual_edge_excess()), depths(C.dual_edge_excess(signed=False))]
            else:
                d['bary'] = [[nn(b) for b in m] for m in C.primal_barycentric]
                d['centres'] = [geo.points(m) for m in C.primal_position]
        return d
    rec.call('weighted', get, lambda d: d, of='T', coarse=ints(pos), weights=ints(w))


def remaps(rec, C, T):
    field = [[rng.randint(-9, 9) for _ in range(T.n_dim + 1)] for _ in range(T.n_elements[-1])]
    f = np.array(field, float)
    rec.call('remap', lambda: dict(around=ints(C.remap_boundary_0(f)), plain=ints(C.remap_boundary_N(f, oriented=False)), signed=ints(C.remap_boundary_N(f))),
             lambda d: d, of='T', field=field)
    rec.emit('kept', what='remap', same=bool(np.array_equal(f, field)))


def planar(rec, C, T, pos, w, whole):
    def get():
        d = dict(positive=bool(C.positive_dual_metric), P2=[near(np.square(m)) for m in C.primal_metric], DP=[scaled(m) for m in C.hodge_DP],
                 volume=[near([C.primal_metric[-1].sum()])[0], near([C.dual_metric[-1].sum()])[0]],
                 bary=[[nn(b) for b in m] for m in C.primal_barycentric], centres=[geo.points(m) for m in C.primal_position])
        if whole:
            d['closed'] = scaled(C.dual_metric_closed[1][T.n_elements[1]:])
            d['bidx'] = ints(np.asarray(T.boundary.parent_idx[0]) + 1)
        return d
    rec.call('weightedplanar', get, lambda d: d, of='T', coarse=ints(pos), weights=ints(w))


def powerpick(rec, C, pos, w):
    q = [[int(rng.randint(int(a) - 3, int(b) + 3)) for a, b in zip(pos.min(0), pos.max(0))] for _ in range(24)]
    rec.call('powerpick', lambda: dict(vertex=ints(np.asarray(C.pick_dual(np.array(q, float))) + 1)), lambda d: d, of='T', coarse=ints(pos), weights=ints(w), pts=q)


def regular(points, w):
    """the regular triangulation of weighted integer points, oriented; None when it is not unique"""
    d = len(points[0])
    lift = [list(p) + [sum(x * x for x in p) - a] for p, a in zip(points, w)]
    cells = []
    for c in itertools.combinations(range(len(points)), d + 1):
        v = geo.det([[a - b for a, b in zip(points[i], points[c[0]])] for i in c[1:]])
        if v == 0:
            continue
        side = []
        for j in range(len(points)):
            if j not in c:
                side.append(geo.det([[a - b for a, b in zip(lift[i], lift[c[0]])] for i in c[1:] + (j,)]) * (1 if v > 0 else -1))
        if any(s == 0 for s in side) and all(s >= 0 for s in side):
            return None
        if all(s > 0 for s in side):
            cells.append(c if v > 0 else (c[1], c[0]) + c[2:])
    return cells or None


def everything(rec, cs, pos, w, whole=False, locate=False):
    """one case: the mesh with its weights (None: unweighted), every question"""
    n, d = len(cs[0]) - 1, len(pos[0])
    perm = list(range(len(pos)))
    rng.shuffle(perm)
    cs = [tuple(perm.index(v) for v in c) for c in cs]
    pos = np.array([pos[v] for v in perm])
    w = None if w is None else [w[v] for v in perm]
    cs = M.turn_s(cs, rng)
    if d <= 2 or rng.random() < .5:
        pos = pos + np.array([rng.choice((0, 0, 7, -13)) for _ in range(d)])
    zero = [0] * len(pos) if w is None else w
    K = rng.choice(klasses(n))
    if K.__name__ == 'ComplexTriangularEuclidian':
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2, cells=[[v + 1 for v in c] for c in cs])
    else:
        T = make(rec, 'simplicial', n, cs)
    if T is None:
        return
    C = K(vertices=pos.astype(float), topology=T, weights=None if w is None else vec(w))
    order = ['judge', 'depth', 'where']
    rng.shuffle(order)
    judge(rec, C, T, pos, zero, order)
    remaps(rec, C, T)
    if n == d:
        powerpick(rec, C, pos, zero)
    if w is not None:
        keep = lambda S, idx: dict(parent_idx=ints(np.asarray(idx) + 1), fine=[[x] for x in ints(S.weights)])
        def subset():
            S = C.select_subset(np.array([rng.randint(0, 1) for _ in cs[1:]] + [1]))
            return keep(S, S.topology.parent_idx[0])
        rec.call('carried', subset, lambda d: d, coarse=[[x] for x in w])
        if T.boundary is not None:
            rec.call('carried', lambda: keep(C.boundary, T.boundary.parent_idx[0]), lambda d: d, coarse=[[x] for x in w])
    if n == 2 and d == 2 and T.is_oriented:
        planar(rec, C, T, pos, zero, whole)
    if locate:
        big = pos * 12
        C2 = K(vertices=big.astype(float), topology=T, weights=vec(w) * 144)
        pts = []
        for c in cs:
            for _ in range(3):
                b = [rng.randint(0, 12) for _ in c]
                if sum(b) and 12 % sum(b) == 0:
                    pts.append([int(sum(bi * 12 // sum(b) * int(pos[v][a]) for bi, v in zip(b, c))) for a in range(d)])
            pts.append([int(sum(12 // len(c) * int(pos[v][a]) for v in c)) for a in range(d)])
        P = np.array(pts, float)
        kw = dict(of='T', coarse=ints(big), pts=pts)
        rec.call('simppick', lambda: C2.pick_primal(P), lambda r: dict(cell=ints(np.asarray(r[0]) + 1), bary=[[rat(x, maxden=30000, tol=1e-7) for x in b] for b in r[1]]), **kw)
        f = [rng.randint(-9, 9) for _ in range(len(pos))]
        rec.call('simpsample0', lambda: dict(out=[rat(x, maxden=30000) for x in C2.sample_primal_0(np.array(f, float), P)]), lambda d: d, f=f, **kw)


def main(rec):
    k = 4 if THOROUGH else 1
    rp = replayed()
    for i, c in enumerate(rp if THOROUGH else rng.sample(rp, min(len(rp), 150))):
        rec.case('pair-%d' % i)
        everything(rec, [tuple(v - 1 for v in x) for x in c['cells']], c['pos'], c['w'])
    wts = lambda m: None if rng.random() < .2 else [rng.choice((0, 0, 1, -1, 2, 3)) for _ in range(m)]
    for i in range(k * 40):
        shape = [rng.randint(1, 3), rng.randint(1, 2)]
        cs, pos = geo.kuhn(rng, 2, shape, rng.choice((.6, 1)), 2)
        rec.case('plane-%d' % i)
        everything(rec, cs, pos, wts(len(pos)))
    for i in range(k * 12):
        cs, pts = M.kuhn([rng.randint(1, 3), rng.randint(1, 3)])
        pos = np.array(pts) * np.array([rng.randint(2, 4), rng.randint(2, 4)])
        rec.case('rect-%d' % i)
        everything(rec, cs, pos, wts(len(pos)), whole=True)
    for i in range(k * 16):
        cs, pos = acute(rng, rng.randint(1, 3), rng.randint(1, 3))
        cs, pos = M.used(cs, pos)
        rec.case('acute-%d' % i)
        everything(rec, cs, 2 * np.array(pos), wts(len(pos)))
    for i in range(k * 10):
        cs, pos = geo.kuhn(rng, 1, [rng.randint(1, 6)], 1, 4)
        rec.case('line-%d' % i)
        everything(rec, cs, pos, wts(len(pos)))
    named = {x[0]: x for x in RT.closed_meshes()}
    for id in ('sphere2', 'cross2', 'torus-s', 'band6'):
        for i in range(k * 5):
            cs = named[id][3]
            pos = geo.place(rng, cs, 3, 2)
            w = None if pos is None else wts(len(pos))
            if pos is not None and small(cs, pos, w or [0] * len(pos), 150):
                rec.case('%s-%d' % (id, i))
                everything(rec, cs, pos, w)
    for i in range(k * 14):
        cs, pos = bcc(rng, rng.choice(((2, 1, 1), (2, 2, 1))), .7)
        if not cs:
            continue
        cs, pos = M.used(cs[:8], pos)
        w = wts(len(pos))
        if small(cs, pos, w or [0] * len(pos), 100):
            rec.case('bcc-%d' % i)
            everything(rec, cs, np.array(pos), w)
    for i in range(k * 14):
        cs, pos = geo.kuhn(rng, 3, [rng.randint(1, 2), 1, 1], 1, 2)
        w = wts(len(pos))
        if small(cs, pos, w or [0] * len(pos), 100):
            rec.case('solid-%d' % i)
            everything(rec, cs, pos, w)
    # regular triangulations: weighted point location
    done = 0
    for i in range(k * 4000):
        if done == k * 30:
            break
        d = rng.choice((2, 2, 2, 3))
        pts = [list(p) for p in {tuple(rng.randint(0, 5 if d == 2 else 3) for _ in range(d)) for _ in range(rng.randint(4, 8 if d == 2 else 6))}]
        w = [rng.choice((0, 0, 1, 2, -1, 3)) for _ in pts]
        cs = regular(pts, w)
        if cs is None:
            continue
        vs = sorted({v for c in cs for v in c})
        cs = [tuple(vs.index(v) for v in c) for c in cs]
        pts, w = [pts[v] for v in vs], [w[v] for v in vs]
        if not facets_positive(cs, pts, w) or not small(cs, pts, w, 100 if d == 3 else 200):
            continue
        done += 1
        rec.case('regular-%d' % i)
        everything(rec, cs, np.array(pts), w, locate=True)


if __name__ == '__main__':
    run(main)
