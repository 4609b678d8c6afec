"""C16 (picking and sampling on uniform grids) and C17 (on simplicial complexes)."""
from rec_metric import *


def rs(a):
    """[n, m] floats -> rationals"""
    a = np.asarray(a)
    return [[rat(x, maxden=30000, tol=1e-7) for x in r] for r in a.reshape(len(a), -1)]


def reflected(c, n, axes):
    """reflect some axes of a cube, its axes staying along the coordinate axes"""
    return tuple(int(x) for x in np.flip(np.array(c).reshape((2,) * n), axes).reshape(-1)) if axes else tuple(c)


def some_axes(n, rng, even):
    while True:
        axes = [a for a in range(n) if rng.random() < .5]
        if not even or len(axes) % 2 == 0:
            return tuple(axes)


def grid_case(rec, shape, steps, sel, pts=None, present=True, oriented=True):
    n = len(shape)
    cs, pos = M.cube_cells(shape, sel)
    cs, pos = M.used(cs, pos)
    full = len(cs) == int(np.prod(shape))
    pos = np.array(pos) * np.array(steps)
    off = np.array([rng.randint(-9, 9) for _ in range(n)])
    pos = pos + off
    if present:
        cs, pos = geo.permuted(cs, pos, rng)
        cs = [reflected(c, n, some_axes(n, rng, oriented)) for c in cs]
        if rng.random() < .3:
            cs = [reflected(c, n, (0,)) for c in cs]
    T = make(rec, 'cubical', n, cs)
    if T is None:
        return
    if pts is None:
        pts = []
        lo, hi = pos.min(0), pos.max(0)
        for _ in range(24 if THOROUGH else 10):
            c = pos[list(rng.choice(cs))]
            p = [rng.randint(int(a), int(b)) for a, b in zip(c.min(0), c.max(0))]
            if rng.random() < .4:
                p = [x if rng.random() < .5 else int(rng.choice((a, b))) for x, a, b in zip(p, c.min(0), c.max(0))]
            pts.append(p)
        if full:
            for _ in range(6):
                pts.append([rng.randint(int(a) - 5, int(b) + 5) for a, b in zip(lo, hi)])
    else:
        pts = (np.array(pts) + off).tolist()
    C = regular_class(n)(vertices=pos.astype(float), topology=T)
    P = np.array(pts, dtype=float)
    kw = dict(of='T', coarse=ints(pos), pts=ints(pts), full=full)
    m = len(pts)
    jobs = []

    def hints(count):
        yield None
        yield np.zeros(m, dtype=int)
        yield np.array([rng.randrange(count) for _ in range(m)])
        yield np.full(m, count - 1)
        yield 'same'
    for h in hints(len(cs)):
        def pick(h=h):
            g = C.pick_primal(P)[0] if isinstance(h, str) else h
            r = C.pick_primal(P) if g is None else C.pick_primal(P, cube=g)
            return dict(cell=ints(np.asarray(r[0]) + 1), bary=rs(r[1]), hint=[] if g is None else ints(np.asarray(g) + 1))
        jobs.append(lambda pick=pick: rec.call('gridpick', pick, lambda d: d, **kw))
    for h in hints(len(cs) * 2 ** n):
        def fund(h=h):
            if isinstance(h, str):
                g = np.array([rng.randrange(len(cs) * 2 ** n)] * m)
            else:
                g = h
            r = C.pick_fundamental(P) if g is None else C.pick_fundamental(P, domain_idx=g)
            return dict(domain=[ints(np.asarray(x).reshape(-1) + 1) for x in r[0]], bary=rs(r[1]), hint=[] if g is None else ints(g + 1))
        jobs.append(lambda fund=fund: rec.call('gridfund', fund, lambda d: d, **kw))
    jobs.append(lambda: rec.call('griddual', lambda: dict(vertex=ints(np.asarray(C.pick_dual(P)) + 1)), lambda d: d, **kw))
    def shaped(v, f):
        # a value of any shape is sampled entry by entry; the entries are listed in order
        v = np.asarray(v)
        assert v.shape == (m,) + f.shape[1:], 'shape %s' % (v.shape,)
        return v if v.ndim == 1 else v.reshape(m, int(np.prod(v.shape[1:])))

    for w in ((), (2,), (2, 3), (1, 2)):
        f = np.array([rng.randint(-9, 9) for _ in range(len(pos) * int(np.prod(w)))]).reshape((-1,) + w)
        jobs.append(lambda f=f: rec.call('gridsample0', lambda: dict(out=rs(shaped(C.sample_primal_0(f.astype(float), P), f))), lambda d: d,
                                         f=ints(f.reshape(len(f), -1)), **kw))
    if T.is_oriented:
        b = T.boundary
        bf = [] if b is None else ints(np.asarray(b.parent_idx[n - 1]) + 1)
        for w in ((), (2,), (2, 3)):
            k = len(cs) + len(bf)
            f = np.array([rng.randint(-9, 9) for _ in range(k * int(np.prod(w)))]).reshape((-1,) + w)
            jobs.append(lambda f=f: rec.call('gridsampledual', lambda: dict(out=rs(shaped(C.sample_dual_0(f.astype(float), P), f))), lambda d: d,
                                             f=ints(f.reshape(k, -1)), bfacets=bf, **kw))
    rng.shuffle(jobs)
    for j in jobs:
        j()


def grid_cases(rec):
    k = 3 if THOROUGH else 1
    d = os.environ.get('VERIF_GEN')
    import glob
    for fn in sorted(glob.glob(os.path.join(d, 'grids-*.ndjson'))) if d else []:
        for line in open(fn):
            g = json.loads(line)
            sel = {tuple(c) for c in g['sel']}
            pts = []
            for c in sorted(sel):
                for a in range(5):
                    for b in range(5):
                        p = [g['hx'] * c[0] + g['hx'] * a // 4, g['hy'] * c[1] + g['hy'] * b // 4]
                        if p not in pts:
                            pts.append(p)
            if not THOROUGH:
                rng.shuffle(pts)
                pts = pts[:20]
            rec.case(g['id'])
            grid_case(rec, [g['nx'], g['ny']], [g['hx'], g['hy']], sel, pts, oriented=rng.random() < .8)
    for n in (1, 2, 3):
        for i in range(k * {1: 10, 2: 16, 3: 8}[n]):
            shape = [rng.randint(1, {1: 6, 2: 4, 3: 2}[n]) for _ in range(n)]
            steps = [rng.choice((2, 4, 6, 10)) for _ in range(n)]
            sel = {b for b in itertools.product(*[range(s) for s in shape]) if rng.random() < .7} or {(0,) * n}
            if rng.random() < .5:
                sel = set(itertools.product(*[range(s) for s in shape]))
            rec.case('grid%d-%d' % (n, i))
            grid_case(rec, shape, steps, sel, present=rng.random() < .7, oriented=rng.random() < .8)


def main16(rec):
    grid_cases(rec)


# ---- simplicial ----
def rows_of(rng):
    """acute rows of triangles whose circumcentres are integer over 2"""
    a, b = rng.randint(1, 3), rng.randint(1, 2)
    cells, pts = acute(rng, a, b)
    w, hs = rng.choice(((4, (8, 16)), (8, (16,)), (2, (4,)), (6, (18, 12))))
    ys = np.concatenate([[0], np.cumsum([rng.choice(hs) for _ in range(b)])])
    return cells, [(p[0] * w, int(ys[p[1] // 2])) for p in pts]


def edge_connected(cells):
    best, left = [], set(range(len(cells)))
    while left:
        comp, todo = [], [left.pop()]
        while todo:
            i = todo.pop()
            comp.append(i)
            for j in [j for j in left if len(set(cells[i]) & set(cells[j])) == len(cells[i]) - 1]:
                left.discard(j)
                todo.append(j)
        best = max(best, comp, key=len)
    return [cells[i] for i in best]


def is_acute(cells, pos):
    pos = np.asarray(pos, dtype=int)
    for c in cells:
        p = pos[list(c)]
        for i in range(3):
            if (p[(i + 1) % 3] - p[i]).dot(p[(i + 2) % 3] - p[i]) <= 0:
                return False
    return True


def globally_delaunay(cells, pos):
    """no vertex strictly inside (or on) the circumcircle of a triangle it does not belong to"""
    for c in cells:
        a = [[int(x) for x in pos[v]] for v in c]
        s = geo.det([[a[1][k] - a[0][k] for k in (0, 1)], [a[2][k] - a[0][k] for k in (0, 1)]])
        for v in range(len(pos)):
            if v in c:
                continue
            d = [int(x) for x in pos[v]]
            m = [[q[0] - d[0], q[1] - d[1], (q[0] - d[0]) ** 2 + (q[1] - d[1]) ** 2] for q in a]
            if geo.det(m) * (1 if s > 0 else -1) >= 0:
                return False
    return True


def jittered(rng):
    for _ in range(200):
        cells, pts = acute(rng, rng.randint(1, 3), rng.randint(1, 3))
        pos = [(p[0] * 5 + rng.randint(-2, 2), p[1] * 5 + rng.randint(-2, 2)) for p in pts]
        cells = edge_connected(cells)
        if is_acute(cells, pos):
            cells, pos = M.used(cells, pos)
            if globally_delaunay(cells, pos):
                return cells, pos


def inside_points(rng, cells, pos, count):
    pos = np.asarray(pos)
    out = []
    for _ in range(count * 20):
        if len(out) >= count:
            break
        c = pos[list(rng.choice(cells))]
        p = np.array([rng.randint(int(a), int(b)) for a, b in zip(c.min(0), c.max(0))])
        d = geo.det([[int(a - b) for a, b in zip(x, c[0])] for x in c[1:]])
        ok = True
        for i in range(len(c)):
            q = c.copy()
            q[i] = p
            e = geo.det([[int(a - b) for a, b in zip(x, q[0])] for x in q[1:]])
            ok = ok and e * d >= 0
        if ok:
            out.append(p.tolist())
    return out


def simp_case(rec, K, cs, pos, D, extra=()):
    n = len(cs[0]) - 1
    cs, pos = geo.permuted(cs, np.array(pos), rng)
    cs = M.turn_s(cs, rng)
    if rng.random() < .3:
        cs = [(c[1], c[0]) + tuple(c[2:]) for c in cs]
    if n == 2 and K.__name__ == 'ComplexTriangularEuclidian':
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2, cells=[[v + 1 for v in c] for c in cs])
    else:
        T = make(rec, 'simplicial', n, cs)
    if T is None:
        return
    C = K(vertices=pos.astype(float), topology=T)
    pts = inside_points(rng, cs, pos, 20 if THOROUGH else 8)
    if not pts:
        return
    P = np.array(pts, dtype=float)
    m = len(pts)
    kw = dict(of='T', coarse=ints(pos), pts=ints(pts))
    jobs = []

    def hints(count):
        return [None, np.zeros(m, dtype=int), np.array([rng.randrange(count) for _ in range(m)]), 'same']
    for h in hints(len(cs)):
        def pick(h=h):
            g = C.pick_primal(P)[0] if isinstance(h, str) else h
            r = C.pick_primal(P) if g is None else C.pick_primal(P, simplex_idx=g)
            return dict(cell=ints(np.asarray(r[0]) + 1), bary=rs(r[1]), hint=[] if g is None else ints(np.asarray(g) + 1))
        jobs.append(lambda pick=pick: rec.call('simppick', pick, lambda d: d, **kw))
    everywhere = pts + [[int(rng.randint(int(a) - 9, int(b) + 9)) for a, b in zip(pos.min(0), pos.max(0))] for _ in range(8)]
    jobs.append(lambda: rec.call('simpdual', lambda: dict(vertex=ints(np.asarray(C.pick_dual(np.array(everywhere, dtype=float))) + 1)), lambda d: d,
                                 of='T', coarse=ints(pos), pts=ints(everywhere)))
    f = [rng.randint(-9, 9) for _ in range(len(pos))]
    jobs.append(lambda: rec.call('simpsample0', lambda: dict(out=[rat(x, maxden=30000) for x in C.sample_primal_0(np.array(f, dtype=float), P)]), lambda d: d, f=f, **kw))
    # a field of two components is two fields, sampled at once
    f2 = [[rng.randint(-9, 9) for _ in range(len(pos))] for _ in range(2)]

    def component(i):
        out = np.asarray(C.sample_primal_0(np.array(f2, dtype=float).T, P))
        assert out.shape == (m, 2), 'shape %s' % (out.shape,)
        return dict(out=[rat(x, maxden=30000) for x in out[:, i]])
    for i in range(2):
        jobs.append(lambda i=i: rec.call('simpsample0', lambda: component(i), lambda d: d, f=f2[i], **kw))
    if D:
        cen = lambda: [geo.common(p, D) for p in C.primal_position]
        for h in hints(len(cs) * int(np.prod(range(1, n + 2)))):
            def fund(h=h):
                g = C.pick_fundamental(P)[0] if isinstance(h, str) else h
                r = C.pick_fundamental(P) if g is None else C.pick_fundamental(P, domain_idx=g)
                E = C.subdivide_fundamental(oriented=True).topology.elements[-1]
                return dict(domain=[ints(x + 1) for x in r[2]], bary=rs(r[1]), corners=[ints(E[i] + 1) for i in r[0]], centres=cen())
            jobs.append(lambda fund=fund: rec.call('simpfund', fund, lambda d: d, D=D, **kw))
        b = T.boundary
        bf = [] if b is None else ints(np.asarray(b.parent_idx[n - 1]) + 1)
        k = len(cs) + len(bf)
        for mode in ('plain', 'const', 'centre'):
            g = np.array([rng.randint(-9, 9) for _ in range(k)])
            if mode == 'const':
                g[:] = g[0]
            PP = pts
            if mode == 'centre':
                c2 = [p for p in np.rint(np.asarray(C.primal_position[n]) * D).astype(int).tolist() if all(x % D == 0 for x in p)]
                PP = [[x // D for x in p] for p in c2][:8]
                if not PP:
                    continue
            def sample(g=g, mode=mode, PP=PP):
                Q = np.array(PP, dtype=float)
                if (len(PP) + int(g[0])) % 2:
                    # a field of two components is two fields, sampled at once
                    both = np.asarray(C.sample_dual_0(np.stack([g, g[::-1]], axis=1).astype(float), Q, weighted=mode != 'plain'))
                    assert both.shape == (len(PP), 2), 'shape %s' % (both.shape,)
                    out = both[:, 0]
                else:
                    out = C.sample_dual_0(g.astype(float), Q, weighted=mode != 'plain')
                r = dict(out=[rat(x, maxden=30000) for x in out], centres=cen())
                if mode != 'plain':
                    r['scaled'] = ints(np.rint(1000 * np.asarray(C.sample_dual_0(g.astype(float), P))))
                return r
            jobs.append(lambda sample=sample, g=g, mode=mode, PP=PP: rec.call('simpsampledual', sample, lambda d: d, D=D, plain=mode == 'plain',
                        f=[[int(x)] for x in g], bfacets=bf, of='T', coarse=ints(pos), pts=PP))
    rng.shuffle(jobs)
    for j in jobs:
        j()


def main17(rec):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian as S, ComplexTriangularEuclidian as T2
    k = 4 if THOROUGH else 1
    for i in range(k * 24):
        cells, pts = rows_of(rng)
        cells = edge_connected(cells)
        cells, pts = M.used(cells, pts)
        rec.case('rows-%d' % i)
        simp_case(rec, (S, T2)[i % 2], cells, pts, 2)
    for i in range(k * 24):
        r = jittered(rng)
        if r:
            rec.case('jitter-%d' % i)
            simp_case(rec, (S, T2)[i % 2], r[0], r[1], 0)
    for i in range(k * 8):
        cs, pos = bcc(rng, rng.choice(((2, 1, 1), (2, 2, 1), (2, 2, 2))), 1)
        cs = edge_connected(cs)
        if not cs:
            continue
        cs, pos = M.used(cs, pos)
        rec.case('bcc-%d' % i)
        simp_case(rec, S, cs, np.array(pos) * 8, 0)


if __name__ == '__main__':
    run(main16 if PID == 'C16' else main17)
