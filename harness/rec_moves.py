"""C32: moving complexes about, and casts between their classes."""
from rec_weighted import *


def programs():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('moves-'):
            out += [json.loads(x)['prog'] for x in open(os.path.join(d, f))]
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def step(C, how):
    name, x = how
    if name == 'translate':
        return C.translate(np.array(x) if rng.random() < .5 else np.array(x, float))
    if name == 'scale':
        return C.scale(x)
    if name == 'linear':
        return C.transform(np.array(x) if rng.random() < .5 else np.array(x, float))
    return C.affine_transform(np.array(x, float))


def exactly(pos, how):
    """Fractions; None where a point goes to infinity"""
    name, x = how
    if name == 'translate':
        return [[a + b for a, b in zip(p, x)] for p in pos]
    if name == 'scale':
        return [[a * x for a in p] for p in pos]
    if name == 'linear':
        return [[sum(a * r[j] for a, r in zip(p, x)) for j in range(len(x[0]))] for p in pos]
    out = []
    for p in pos:
        h = [sum(a * r[j] for a, r in zip(list(p) + [1], x)) for j in range(len(x[0]))]
        if h[-1] == 0:
            return None
        out.append([Fraction(a) / h[-1] for a in h[:-1]])
    return out


def representable(pos, prog, limit=2000, top=10 ** 5):
    """where a program leads, None when it leads too far for small integers"""
    at = [[Fraction(int(a)) for a in p] for p in pos]
    for how in prog:
        at = exactly(at, how)
        if at is None:
            return None
        for p in at:
            d = 1
            for a in p:
                d = lcm(d, a.denominator)
            if d > limit or any(abs(a.numerator) > top for a in p):
                return None
    return at


def fill(C, fns):
    """ask first: what was worked out for the original must not stick to the copies"""
    for f in rng.sample(fns, rng.randint(0, len(fns))):
        try:
            f(C)
        except Exception:
            pass


CACHES = [lambda C: C.box, lambda C: C.n_dim, lambda C: C.primal_position, lambda C: C.boundary, lambda C: C.metric, lambda C: C.dual_position,
          lambda C: C.is_pairwise_delaunay, lambda C: C.primal_barycentric, lambda C: C.topology.dual]


def moves(rec, C, T, pos, prog, weights=None):
    """run the program; the last complex and the positions it should have"""
    at = representable(pos, prog)
    if at is None:
        return None, None
    fill(C, CACHES)
    kind = type(C).__name__
    last = []

    def get():
        cur, d = C, dict(after=[], kinds=[], dims=[], topos=[], keeps=[], origin=[], boxes=[])
        for how in prog:
            new = step(cur, how)
            d['after'].append(geo.points(new.vertices))
            d['kinds'].append(type(new).__name__)
            d['dims'].append(int(new.n_dim))
            d['topos'].append(topo(new.topology))
            w = getattr(new, 'weights', None)
            d['keeps'].append([] if w is None else ints(w))
            d['origin'].append(new.parent is cur)
            d['boxes'].append([[geo.point([x]) for x in r] for r in np.asarray(new.box)])
            cur = new
        d['again'] = geo.points(C.vertices)
        last.append(cur)
        return d
    rec.call('move', get, lambda d: d, of='T', hows=prog, before=[[1, [int(a) for a in p]] for p in pos], kind=kind, weights=[] if weights is None else ints(weights))
    return (last[0], at) if last else (None, None)


def whole(at):
    return at is not None and all(a.denominator == 1 for p in at for a in p)


SIMPLICIAL_CASTS = {'as_cube': 'as_cube', 'as_triangular': 'as_2'}


def casts(rec, C, T, pos, kind, weights=None):
    d = pos.shape[1]
    kw = dict(of='T', coarse=ints(pos), dim=d)
    if weights is not None:
        kw['weights'] = ints(weights)

    def project(D):
        w = getattr(D, 'weights', None)
        return dict([('class', type(D).__name__)], pos=ints(D.vertices), topology=topo(D.topology), keeps=[] if w is None else ints(w))
    if kind == 'cubical':
        from pycomplex.complex.cubical import ComplexCubical
        names = ['as_11', 'as_12', 'as_22', 'as_23', 'as_33', 'as_44']
        rng.shuffle(names)
        for nm in names:
            D = rec.call('cast', lambda: getattr(C, nm)(), project, name=nm, **kw)
            if D is not None and hasattr(D, 'as_regular'):
                rec.call('cast', lambda: D.as_regular(), project, name='as_regular', **kw)
            if D is not None and hasattr(D, 'to_simplicial'):
                rec.call('cast', lambda: D.to_simplicial(), project, name='to_simplicial', **kw)
    else:
        for nm, f in SIMPLICIAL_CASTS.items():
            D = rec.call('cast', lambda: getattr(C, f)(), project, name=nm, **kw)
            if D is None:
                continue
            if nm == 'as_cube':
                rec.emit('adopt', h='Q', topo=topo(D.topology))
                rec.call('cast', lambda: D.to_simplicial(), project, name='to_simplicial', of='Q', coarse=ints(pos), dim=d)
            else:
                for f2 in ('as_2', 'as_3'):
                    rec.call('cast', lambda: getattr(D, f2)(), project, name=f2, **kw)


def some_move(d, allowed=('translate', 'scale', 'linear', 'affine')):
    name = rng.choice(allowed)
    if name == 'translate':
        return ['translate', [rng.randint(-5, 5) for _ in range(d)]], d
    if name == 'scale':
        return ['scale', rng.choice((-2, -1, 2, 3))], d
    if name == 'diagonal':
        s = [rng.choice((1, 2, 3, -1)) for _ in range(d)]
        return ['linear', [[s[i] if i == j else 0 for j in range(d)] for i in range(d)]], d
    e = d if name == 'affine' or rng.random() < .7 else rng.choice((d, d + 1)) if d < 3 else d
    while True:
        Mx = [[rng.choice((0, 0, 1, -1, 2)) for _ in range(e)] for _ in range(d)]
        if geo.det([[sum(a * b for a, b in zip(x, y)) for y in Mx] for x in Mx]) != 0:
            break
    if name == 'linear':
        return ['linear', Mx], e
    w = [0] * d if rng.random() < .5 else [rng.choice((0, 0, 1)) for _ in range(d)]
    return ['affine', [r + [x] for r, x in zip(Mx, w)] + [[rng.randint(-3, 3) for _ in range(d)] + [rng.choice((1, 2, 5, 11))]]], d


def some_program(d, k, **kw):
    out = []
    for _ in range(k):
        how, d = some_move(d, **kw)
        out.append(how)
    return out


def build_s(rec, cs, pos, w, K=None):
    n, d = len(cs[0]) - 1, pos.shape[1]
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
    K = K or rng.choice(klasses(n) + ({2: (ComplexTriangularEuclidian2,), 3: (ComplexTriangularEuclidian3,)}.get(d, ()) if n == 2 else ()))
    if K.__name__.startswith('ComplexTriangular'):
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2, cells=[[v + 1 for v in c] for c in cs])
    else:
        T = make(rec, 'simplicial', n, cs)
    return (None, None) if T is None else (K(vertices=pos.astype(float), topology=T, weights=None if w is None else vec(w)), T)


def judged(rec, C, T, pos, w):
    zero = [0] * len(pos) if w is None else w
    if small(np.asarray(T.elements[-1]).tolist(), pos, zero, 150):
        order = ['judge', 'depth', 'where']
        rng.shuffle(order)
        judge(rec, C, T, pos, zero, order)


def simplicial_case(rec, cs, pos, w, prog):
    cs = M.turn_s(cs, rng)
    pos = about(pos)
    C, T = build_s(rec, cs, pos, w)
    if T is None:
        return
    before = rng.random() < .5
    if before:
        judged(rec, C, T, pos, w)
    D, at = moves(rec, C, T, pos, prog, w)
    if D is not None and whole(at):
        new = np.array([[int(a) for a in p] for p in at])
        if geo.nondegenerate(cs, new):
            judged(rec, D, T, new, w)
            if rng.random() < .3 and new.shape[1] in (2, 3) and w is None and new.shape[1] == len(cs[0]) - 1:
                powerpick(rec, D, new, [0] * len(new))
    if before:
        judged(rec, C, T, pos, w)
    casts(rec, type(C)(vertices=pos.astype(float), topology=T, weights=C.weights) if rng.random() < .5 else C, T, pos, 'simplicial', w) if type(C).__name__ == 'ComplexSimplicialEuclidian' else None


def cubical_classes(n, d):
    import pycomplex.complex.cubical as Q
    out = [Q.ComplexCubical]
    out += {(1, 1): [Q.ComplexCubical1, Q.ComplexCubical1Euclidian1], (1, 2): [Q.ComplexCubical1, Q.ComplexCubical1Euclidian2], (2, 2): [Q.ComplexCubical2, Q.ComplexCubical2Euclidian2],
            (2, 3): [Q.ComplexCubical2, Q.ComplexCubical2Euclidian3], (3, 3): [Q.ComplexCubical3Euclidian3], (4, 4): [Q.ComplexCubical4Euclidian4]}.get((n, d), [])
    return out


def about(pos):
    """now and then with the origin in the middle"""
    x = np.asarray(pos)
    if rng.random() < .6:
        return x
    mean = x.sum(axis=0)
    if (mean % len(x)).any():
        x = x * 2 if not (2 * mean % len(x)).any() else x * len(x) if len(x) < 7 else x
        mean = x.sum(axis=0)
    return x - np.round(mean / len(x)).astype(int)


def cubical_case(rec, n, cs, pos, prog):
    pos = about(pos)
    T = make(rec, 'cubical', n, cs)
    if T is None:
        return
    C = rng.choice(cubical_classes(n, pos.shape[1]))(vertices=pos.astype(float) if rng.random() < .7 else pos, topology=T)
    moves(rec, C, T, pos, prog)
    from pycomplex.complex.cubical import ComplexCubical
    casts(rec, ComplexCubical(vertices=pos, topology=T), T, pos, 'cubical')


def main(rec):
    k = 4 if THOROUGH else 1
    rp = programs()
    shapes = []
    for i in range(6):
        cs, pos = geo.kuhn(rng, 2, [rng.randint(1, 2), rng.randint(1, 2)], 1, 2)
        shapes.append((cs, pos))
    for i, prog in enumerate(rng.sample(rp, min(len(rp), 2000 if THOROUGH else 160))):
        rec.case('program-%d' % i)
        cs, pos = rng.choice(shapes)
        if i % 3 < 2:
            simplicial_case(rec, cs, pos, None if rng.random() < .5 else [rng.choice((0, 1, -1, 2)) for _ in pos], prog)
        else:
            q, p, _ = geo.boxes(rng, [rng.randint(1, 2), rng.randint(1, 3)], .8)
            q, p = M.used(q, p)
            cubical_case(rec, 2, M.turn_c(q, 2, rng), np.array(p), prog)
    for i in range(k * 60):
        n = rng.choice((1, 2, 2, 3))
        cs, pos = geo.kuhn(rng, n, [rng.randint(1, {1: 5, 2: 2, 3: 1}[n]) for _ in range(n)], 1, 2)
        rec.case('solid-%d' % i)
        simplicial_case(rec, cs, pos, None if rng.random() < .5 else [rng.choice((0, 1, -1, 2)) for _ in pos], some_program(n, rng.randint(1, 4)))
    named = {x[0]: x for x in RT.closed_meshes()}
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    for id in ('sphere2', 'cross2', 'torus-s', 'band6'):
        for i in range(k * 5):
            cs = M.turn_s(named[id][3], rng)
            pos = geo.place(rng, cs, 3, 3)
            if pos is None:
                continue
            rec.case('%s-%d' % (id, i))
            C, T = build_s(rec, cs, pos, None, ComplexTriangularEuclidian3)
            if T is None:
                continue
            closed = id != 'band6'
            if rng.random() < .7:
                measured(rec, C, pos, closed)
            D, at = moves(rec, C, T, pos, some_program(3, rng.randint(1, 3), allowed=('translate', 'scale', 'diagonal', 'linear')))
            if D is not None:
                new = np.array([[int(a) for a in p] for p in at])
                if np.abs(new).max() < 60 and geo.nondegenerate(cs, new):
                    measured(rec, D, new, closed)
            measured(rec, C, pos, closed)
    from pycomplex.complex.cubical import ComplexCubical1Euclidian2
    for i in range(k * 15):
        cs = M.disjoint(*[M.ring(rng.randint(3, 6)) for _ in range(rng.randint(1, 2))])
        pos = np.array([[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(1 + max(max(c) for c in cs))])
        cs, pos = geo.permuted(cs, pos, rng)
        rec.case('curve-%d' % i)
        T = make(rec, 'cubical', 1, cs)
        if T is None:
            continue
        C = ComplexCubical1Euclidian2(vertices=pos, topology=T)
        ask = lambda C, p: rec.call('curve', lambda: rat(C.volume()), lambda v: dict(volume=v), of='T', coarse=ints(p))
        ask(C, pos)
        D, at = moves(rec, C, T, pos, some_program(2, rng.randint(1, 3), allowed=('translate', 'scale', 'diagonal')))
        if D is not None and whole(at):
            ask(D, np.array([[int(a) for a in p] for p in at]))
        ask(C, pos)
        from pycomplex.complex.cubical import ComplexCubical
        casts(rec, ComplexCubical(vertices=pos, topology=T), T, pos, 'cubical')
    for n in (1, 2, 3, 4):
        for i in range(k * {1: 8, 2: 16, 3: 8, 4: 2}[n]):
            cs, pos, _ = geo.boxes(rng, [rng.randint(1, {1: 5, 2: 3, 3: 2, 4: 1}[n]) for _ in range(n)], rng.choice((.7, 1)))
            cs, pos = M.used(cs[:8], pos)
            pos = np.array(pos)
            rec.case('grid%d-%d' % (n, i))
            T = make(rec, 'cubical', n, cs)
            if T is None or not T.is_oriented:
                continue
            C = regular_class(n)(vertices=pos.astype(float), topology=T)
            order = ['metric', 'hodge', 'closed']
            if rng.random() < .5:
                grid_metric(rec, C, T, pos, order)
            D, at = moves(rec, C, T, pos, some_program(n, rng.randint(1, 3), allowed=('translate', 'scale', 'diagonal')))
            if D is not None and whole(at) and n < 4:
                new = np.array([[int(a) for a in p] for p in at])
                if np.abs(new).max() < 50:
                    grid_metric(rec, D, T, new, order)
            grid_metric(rec, C, T, pos, order)
    for i in range(k * 40):
        n = rng.choice((1, 2, 2, 3))
        d = rng.choice([e for e in (1, 2, 3) if e >= n])
        cs, pos = M.random_box_c(rng, [rng.randint(1, {1: 5, 2: 2, 3: 1}[n]) for _ in range(n)], .8)
        cs, pos = M.used(cs, pos)
        pos = np.array(pos)
        pos = pos * 2 + np.array([[rng.randint(0, 1) for _ in p] for p in pos])
        pos = np.concatenate([pos, np.array([[rng.randint(-3, 3) for _ in range(d - n)] for _ in pos]).reshape(len(pos), d - n)], axis=1).astype(int)
        cs, pos = geo.permuted(cs, pos, rng)
        cs = M.turn_c(cs, n, rng)
        rec.case('cubes-%d' % i)
        cubical_case(rec, n, cs, pos, some_program(d, rng.randint(1, 3)))


if __name__ == '__main__':
    run(main)
