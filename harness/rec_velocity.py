"""C31: from the flux along dual edges to a velocity in every cell."""
from rec_weighted import *


def flows():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('flows-'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def inward(ps, o):
    """normal of a facet towards the point o, as long as (n - 1)! times its measure"""
    d = len(o)
    raw = [1] if d == 1 else [ps[0][1] - ps[1][1], ps[1][0] - ps[0][0]] if d == 2 else cross([a - b for a, b in zip(ps[1], ps[0])], [a - b for a, b in zip(ps[2], ps[0])])
    return raw if sum(a * (x - y) for a, x, y in zip(raw, o, ps[0])) > 0 else [-a for a in raw]


def cube_inward(ps, cs):
    w = lambda q, a: max(x[a] for x in q) - min(x[a] for x in q)
    d = len(ps[0])
    flat = next(a for a in range(d) if w(ps, a) == 0)
    area = 1
    for a in range(d):
        area *= 1 if a == flat else w(cs, a)
    s = area if ps[0][flat] == min(x[flat] for x in cs) else -area
    return [s if a == flat else 0 for a in range(d)]


def facet_data(T, pos, w):
    """(normals[c][r], reach[r], size2[r]) exactly, from the elements as the topology lists them"""
    n = T.n_dim
    cubes = kind_of(T) == 'cubical'
    E = [np.asarray(T.elements[n - 1]).reshape(T.n_elements[n - 1], -1), np.asarray(T.elements[n]).reshape(T.n_elements[n], -1)]
    B = T.matrices[-1].tocsc()
    at = lambda q: [int(x) for x in pos[q]]

    def centre(el):
        if cubes:
            return [Fraction(sum(at(v)[a] for v in el), len(el)) for a in range(len(pos[0]))]
        b = exact_centre([at(v) for v in el], [int(w[v]) for v in el]) if len(el) > 1 else [1]
        return [sum(bi * at(v)[a] for bi, v in zip(b, el)) for a in range(len(pos[0]))]

    cc, fc = [centre(e) for e in E[1]], [centre(e) for e in E[0]]
    A, reach, size2, sign = [], {}, {}, {}
    for c, cell in enumerate(E[1]):
        A.append({})
        for i in range(B.indptr[c], B.indptr[c + 1]):
            r = int(B.indices[i])
            ps = [at(v) for v in E[0][r]]
            A[c][r] = cube_inward(ps, [at(v) for v in cell]) if cubes else inward(ps, at(next(v for v in cell if v not in E[0][r])))
            sign[c, r] = int(B.data[i])
            reach[r] = reach.get(r, 0) + sum(a * (x - y) for a, x, y in zip(A[c][r], cc[c], fc[r]))
            size2[r] = sum(a * a for a in A[c][r])
    return A, sign, reach, size2


def velocity(rec, C, T, pos, w, ks=None, us=None, shape=(), whole=None):
    """flux given by what passes each facet (ks[component][facet]), or uniform (us[component][axis])"""
    A, sign, reach, size2 = facet_data(T, pos, w)
    nf = T.n_elements[-2]
    if us is not None:
        ks = []
        for u in us:
            k = [0] * nf
            for c, d in enumerate(A):
                for r, a in d.items():
                    k[r] = sign[c, r] * sum(x * y for x, y in zip(u, a))
            ks.append(k)
    phi = [[Fraction(k[r]) * reach[r] / size2[r] for r in range(nf)] for k in ks]
    try:
        flux = [[rat(float(x), maxden=20000, tol=1e-9) for x in p] for p in phi]
    except Inexact:
        return
    S = T.dual.selector_interior[-2]
    full = np.asarray(S.T * np.array([[float(x) for x in p] for p in phi]).T)
    for i in set(range(full.shape[0])) - set(S.tocoo().col.tolist()):
        full[i] = rng.randint(-50, 50)          # fluxes into the boundary are ignored
    x = full.reshape((len(full),) + tuple(shape)) if shape is not None else full
    kw = dict(of='T', coarse=ints(pos), weights=ints(w), flux=flux, vertices=T.dual.n_elements[0])
    if us is not None:
        kw['u'] = ints(us)

    def get():
        before = x.copy()
        v = np.asarray(C.dual_flux_to_dual_velocity(x))
        d = pos.shape[1]
        assert np.array_equal(before, x), 'flux changed'
        g = v.shape[2:]
        ok = v.shape[:2] == (T.dual.n_elements[0], d) and tuple(g) == tuple(x.shape[1:])
        out = np.moveaxis(v.reshape(len(v), d, -1), 2, 0) if ok else np.zeros((0, 0, 0))
        return dict(out=[[scaled(r) for r in m] for m in out], centres=[geo.points(C.primal_position[-2]), geo.points(C.primal_position[-1])])
    rec.call('velocity', get, lambda d: d, **kw)


def questions(rec, C, T, pos, w):
    nf, d = T.n_elements[-2], pos.shape[1]
    some = lambda m: [[rng.randint(-6, 6) for _ in range(nf)] for _ in range(m)]
    jobs = [lambda: velocity(rec, C, T, pos, w, ks=some(1), shape=()), lambda: velocity(rec, C, T, pos, w, ks=some(6), shape=(2, 3)),
            lambda: velocity(rec, C, T, pos, w, ks=some(2), shape=None),
            lambda: velocity(rec, C, T, pos, w, us=[[rng.randint(-5, 5) for _ in range(d)] for _ in range(3)], shape=None)]
    rng.shuffle(jobs)
    for j in jobs:
        j()


def simplicial(rec, cs, pos, w, ks=None):
    n = len(cs[0]) - 1
    K = rng.choice(klasses(n))
    if K.__name__ == 'ComplexTriangularEuclidian':
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2, cells=[[v + 1 for v in c] for c in cs])
    else:
        T = make(rec, 'simplicial', n, cs)
    if T is None or not T.is_oriented:
        return
    zero = [0] * len(pos) if w is None else w
    C = K(vertices=pos.astype(float), topology=T, weights=None if w is None else vec(w))
    if any(x < 0 for x in facet_data(T, pos, zero)[2].values()) and not facets_at_least(cs, pos, zero):
        rec.call('novelocity', lambda: C.dual_flux_to_dual_velocity(np.zeros(T.dual.n_elements[1 if n > 1 else -2])), lambda d: {}, of='T')
        return
    if not facets_positive(cs, pos, zero) or any(min(b) <= 0 for f, b in exact_all(cs, pos, zero) if len(f) == 2 or len(f) <= n):
        return
    if ks is not None:
        velocity(rec, C, T, pos, zero, ks=[ks(T)])
    questions(rec, C, T, pos, zero)


def facets_at_least(cs, pos, w):
    """no dual edge backwards by the signed squares that the mesh is judged by (exact)"""
    m = {}
    for c in cs:
        P = [[int(x) for x in pos[v]] for v in c]
        b = exact_centre(P, [int(w[v]) for v in c])
        x = [sum(bi * p[a] for bi, p in zip(b, P)) for a in range(len(P[0]))]
        for j in range(len(c)):
            f = c[:j] + c[j + 1:]
            bf = exact_centre([[int(q) for q in pos[v]] for v in f], [int(w[v]) for v in f]) if len(f) > 1 else [1]
            y = [sum(bi * int(pos[v][a]) for bi, v in zip(bf, f)) for a in range(len(P[0]))]
            s = sum((p - q) ** 2 for p, q in zip(x, y)) * (1 if b[j] > 0 else -1)
            m[frozenset(f)] = m.get(frozenset(f), 0) + s
    return all(v >= 0 for v in m.values())


def shuffled(cs, pos, w):
    perm = list(range(len(pos)))
    rng.shuffle(perm)
    cs = [tuple(perm.index(v) for v in c) for c in cs]
    pos = np.array([pos[v] for v in perm])
    cs = list(cs)
    rng.shuffle(cs)
    return M.turn_s(cs, rng), pos, None if w is None else [w[v] for v in perm]


def main(rec):
    k = 4 if THOROUGH else 1
    rp = flows()
    for i, c in enumerate(rng.sample(rp, min(len(rp), 2500 if THOROUGH else 150))):
        rec.case('flow-%d' % i)
        cs = [tuple(v - 1 for v in x) for x in c['cells']]

        def ks(T, c=c):
            """what passes each facet, as the topology lists and orients it"""
            E, B = np.asarray(T.elements[1]), T.matrices[-1].tocsc()
            cells = [sorted(x) for x in np.asarray(T.elements[2]).tolist()]
            top = cells.index(sorted(x - 1 for x in c['cells'][0]))
            low = cells.index(sorted(x - 1 for x in c['cells'][1]))
            out = [0] * len(E)
            for j, (e, q) in enumerate(zip(c['edges'], c['k'])):
                r = next(i for i, x in enumerate(E.tolist()) if sorted(x) == sorted(v - 1 for v in e))
                out[r] = int(B[r, top] * q if j == 0 else B[r, top if j < 3 else low] * q)
            return out
        w = None if rng.random() < .5 else [rng.choice((0, 0, 1, 2)) for _ in c['pos']]
        simplicial(rec, cs, np.array(c['pos']), w, ks)
    wts = lambda m: None if rng.random() < .4 else [rng.choice((0, 0, 1, -1, 2, 3)) for _ in range(m)]
    for i in range(k * 24):
        cs, pos = acute(rng, rng.randint(1, 3), rng.randint(1, 3))
        cs, pos = M.used(cs, pos)
        rec.case('acute-%d' % i)
        simplicial(rec, *shuffled(cs, 2 * np.array(pos), wts(len(pos))))
    for i in range(k * 12):
        cs, pos = geo.kuhn(rng, 1, [rng.randint(1, 6)], 1, 4)
        rec.case('line-%d' % i)
        simplicial(rec, *shuffled(cs, pos, wts(len(pos))))
    for i in range(k * 20):
        cs, pos = geo.kuhn(rng, 2, [rng.randint(1, 3), rng.randint(1, 2)], 1, 2)
        rec.case('plane-%d' % i)
        simplicial(rec, *shuffled(cs, pos, wts(len(pos))))
    for i in range(k * 50):
        cs, pos = bcc(rng, rng.choice(((2, 1, 1), (2, 2, 1))), .8)
        if not cs:
            continue
        cs, pos = M.used(cs[:12], pos)
        w = wts(len(pos))
        if small(cs, pos, w or [0] * len(pos), 100):
            rec.case('bcc-%d' % i)
            simplicial(rec, *shuffled(cs, np.array(pos), w))
    done = 0
    for i in range(k * 4000):
        if done == k * 30:
            break
        d = rng.choice((2, 2, 3))
        pts = [list(p) for p in {tuple(rng.randint(0, 5 if d == 2 else 3) for _ in range(d)) for _ in range(rng.randint(4, 8 if d == 2 else 6))}]
        w = [rng.choice((0, 0, 1, 2, -1, 3)) for _ in pts]
        cs = regular(pts, w)
        if cs is None:
            continue
        vs = sorted({v for c in cs for v in c})
        cs = [tuple(vs.index(v) for v in c) for c in cs]
        pts, w = [pts[v] for v in vs], [w[v] for v in vs]
        if not small(cs, pts, w, 100 if d == 3 else 200):
            continue
        done += 1
        rec.case('regular-%d' % i)
        simplicial(rec, *shuffled(cs, np.array(pts), w))
    for n in (1, 2, 3):
        for i in range(k * {1: 8, 2: 24, 3: 16}[n]):
            shape = [rng.randint(1, {1: 6, 2: 4, 3: 2}[n]) for _ in range(n)]
            cs, pos, _ = geo.boxes(rng, shape, rng.choice((.6, 1, 1)))
            cs, pos = M.used(cs[:8] if n == 3 else cs, pos)
            if i % 3:
                cs, pos = geo.permuted(cs, pos, rng)
                cs = M.turn_c(cs, n, rng)
            pos = np.array(pos)
            rec.case('grid%d-%d' % (n, i))
            T = make(rec, 'cubical', n, cs)
            if T is None or not T.is_oriented:
                continue
            questions(rec, regular_class(n)(vertices=pos.astype(float), topology=T), T, pos, [0] * len(pos))


if __name__ == '__main__':
    run(main)
