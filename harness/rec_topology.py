"""C01-C07: construction, orientation, boundary, dual, subsets, connectivity, averaging."""
import sys, os, json, itertools, random
from lib import *
import meshes as M

PID = sys.argv[2]
rng = random.Random(SEED * 1000003 + int(PID[1:]))


def build(kind, n, cells):
    from pycomplex.topology.simplicial import TopologySimplicial
    from pycomplex.topology.cubical import TopologyCubical
    a = np.array(cells)
    if kind == 'simplicial':
        return TopologySimplicial.from_simplices(a)
    return TopologyCubical.from_cubes(a.reshape((len(a),) + (2,) * n))


def scramble(kind, n, cells, r, keep=False):
    return M.scramble_s(cells, r, keep) if kind == 'simplicial' else M.scramble_c(cells, n, r, keep)


def flip(kind, n, c):
    return M.flip_s(c) if kind == 'simplicial' else M.flip_c(c, n)


# ---- mesh families ---------------------------------------------------------------------------
def two_sheeted(kind, n, cells):
    return M.at_most_two(cells, M.facets_s if kind == 'simplicial' else M.facets_c(n))


def rings(k):
    """few cubes in a ring, closed with any twist: neighbours have several facets in common, in the shortest ones"""
    for n in (2, 3):
        F = 2 ** (n - 1)
        for m in (2, 3):
            for i in range(8 * k):
                layers = [tuple(range(F * j, F * j + F)) for j in range(m)]
                cells = [layers[j] + layers[j + 1] for j in range(m - 1)] + [layers[-1] + tuple(M.present(layers[0], n - 1, rng))]
                if i % 3 == 0:
                    cells += [tuple(v + F * m for v in c) for c in cells[:1]]
                yield 'ring%d-%dd-%d' % (m, n, i), 'cubical', n, M.scramble_c(cells, n, rng)


def shared_corners(k):
    """cubes with some corners in common, wherever those are in either cube; the library may have to refuse them"""
    for n in (2, 3):
        F = 2 ** n
        for i in range(25 * k):
            cells = [tuple(range(F))]
            for j in range(rng.randint(1, 2)):
                old = sorted({v for c in cells for v in c})
                if rng.random() < .5:       # all but a few corners of a face
                    f = list(rng.choice(M.cube_faces(cells[0], n)))
                    f[rng.randrange(len(f))] = len(old)
                    c = tuple(f) + tuple(range(len(old) + 1, len(old) + 1 + F - len(f)))
                else:
                    q = rng.randint(1, F - 1)
                    c = rng.sample(old, q) + list(range(len(old), len(old) + F - q))
                    rng.shuffle(c)
                cells.append(tuple(c))
            cells = M.relabel(cells)
            yield 'shared-%dd-%d' % (n, i), 'cubical', n, M.scramble_c(cells, n, rng)


def any_meshes():
    """arbitrary valid inputs, non-manifold included"""
    k = 4 if THOROUGH else 1
    for n in (1, 2, 3, 4):
        for i in range(25 * k):
            V = rng.randint(n + 1, n + 5)
            yield 'random-%dd-%d' % (n, i), 'simplicial', n, M.random_pure(rng, n, V, rng.randint(1, 9 if n < 4 else 6))
    for n in (1, 2, 3, 4):
        for i in range(12 * k):
            shape = [rng.randint(1, {1: 5, 2: 3, 3: 2, 4: 1 + (i % 3 == 0)}[n]) for _ in range(n)]
            if n == 4:
                shape = [1, 1, 1, shape[0]]
            cells, _ = M.random_box_c(rng, shape, .7)
            yield 'boxes-%dd-%d' % (n, i), 'cubical', n, M.scramble_c(cells, n, rng)
    # one to three 5- and 6-simplices sharing vertices
    for i in range(4 * k):
        n = 5 + i % 2
        yield 'random-%dd-%d' % (n, i), 'simplicial', n, M.random_pure(rng, n, n + rng.randint(1, 3), rng.randint(1, 3))
    # several components of unlike compactness (few elements on many vertices and vice versa)
    for n in (1, 2, 3):
        parts = [M.sphere(n), M.cross_polytope(n), [tuple(range(n + 1))]] + ([M.ring(5), M.path(6)] if n == 1 else [])
        for i in range(6 * k):
            mix = [rng.choice(parts) if rng.random() < .6 else M.random_stack(rng, n, rng.randint(2, 7)) for j in range(rng.randint(2, 4))]
            yield 'parts-s-%dd-%d' % (n, i), 'simplicial', n, M.scramble_s(M.disjoint(*mix), rng)
        parts = [M.cube_cells((2,) * n)[0], M.cube_cells((5,) + (1,) * (n - 1))[0], M.cube_cells((3, 3) + (1,) * (n - 2), periodic=(0, 1))[0] if n > 1 else M.ring(4)]
        for i in range(4 * k):
            mix = [rng.choice(parts) for j in range(rng.randint(2, 3))]
            yield 'parts-c-%dd-%d' % (n, i), 'cubical', n, M.scramble_c(M.disjoint(*mix), n, rng)
    # many elements around one vertex, many pages on one facet
    yield 'fan-140', 'simplicial', 2, M.scramble_s([(0, i + 1, (i + 1) % 140 + 1) for i in range(140)], rng, True)
    yield 'star-140', 'simplicial', 1, M.scramble_s([(0, i + 1) for i in range(140)], rng)
    yield 'star-c-140', 'cubical', 1, M.scramble_c([(0, i + 1) for i in range(140)], 1, rng)
    # hundreds of vertices, neighbours in number and not
    for n in (2, 3, 4):
        cells = [tuple(range(i, i + n + 1)) for i in range(0, 300, n + 1)]
        yield 'many-s-%dd' % n, 'simplicial', n, cells
        yield 'many-s-%dd-mixed' % n, 'simplicial', n, M.scramble_s(cells, rng)
    yield 'many-c-3d', 'cubical', 3, [tuple(range(i, i + 8)) for i in range(0, 295, 7)]
    for x in rings(k):
        yield x
    if PID in ('C01', 'C02'):
        for x in shared_corners(k):
            yield x
    # pages glued along one facet: a facet with three or more cofaces
    for n in (1, 2, 3):
        for m in (3, 4):
            cells = [tuple(range(n)) + (n + j,) for j in range(m)]
            yield 'book-s-%d-%d' % (n, m), 'simplicial', n, M.scramble_s(cells, rng)
            F = 2 ** (n - 1)
            cells = [tuple(range(F)) + tuple(range(F * (j + 1), F * (j + 2))) for j in range(m)]
            yield 'book-c-%d-%d' % (n, m), 'cubical', n, M.scramble_c(cells, n, rng)
    # generated by the specification (exhaustive small complexes)
    for c in generated('cells'):
        yield c['id'], c['kind'], c['n'], [tuple(v - 1 for v in t) for t in c['cells']]
    for x in closed_meshes():
        yield x[:4]


def generated(prefix):
    d = os.environ.get('VERIF_GEN')
    out = []
    if d and os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.startswith(prefix) and f.endswith('.ndjson'):
                out += [json.loads(x) for x in open(os.path.join(d, f))]
    return out


def closed_meshes():
    """named meshes: (id, kind, n, cells, orientable, closed), given with a consistent orientation if orientable"""
    for n in (1, 2, 3, 4):
        yield 'sphere%d' % n, 'simplicial', n, M.sphere(n), True, True
    for n in (1, 2, 3):
        yield 'cross%d' % n, 'simplicial', n, M.cross_polytope(n), True, True
    yield 'torus-s', 'simplicial', 2, M.torus_s(3, 3), True, True
    yield 'klein-s', 'simplicial', 2, M.klein_s(3, 4), False, True
    yield 'rp2', 'simplicial', 2, M.rp2(), False, True
    yield 'moebius5', 'simplicial', 2, M.moebius(5), False, False
    yield 'moebius7', 'simplicial', 2, M.moebius(7), False, False
    yield 'band6', 'simplicial', 2, M.band(6), True, False
    yield 'ring5', 'simplicial', 1, M.ring(5), True, True
    yield 'path4', 'simplicial', 1, M.path(4), True, False
    yield 'edge', 'simplicial', 1, M.path(1), True, False
    for n in (2, 3, 4):
        yield 'simplex%d' % n, 'simplicial', n, [tuple(range(n + 1))], True, False
    yield 'ring-c4', 'cubical', 1, M.ring(4), True, True
    yield 'path-c3', 'cubical', 1, M.path(3), True, False
    for n in (1, 2, 3, 4):
        yield 'cube%d' % n, 'cubical', n, [tuple(range(2 ** n))], True, False
    yield 'torus-c', 'cubical', 2, M.cube_cells((3, 3), periodic=(0, 1))[0], True, True
    yield 'torus-c3', 'cubical', 3, M.cube_cells((3, 3, 3), periodic=(0, 1, 2))[0], True, True
    yield 'tube-c', 'cubical', 2, M.cube_cells((3, 2), periodic=(0,))[0], True, False
    yield 'tube-c3', 'cubical', 3, M.cube_cells((3, 1, 2), periodic=(0,))[0], True, False
    yield 'moebius-c4', 'cubical', 2, M.moebius_c(4), False, False
    yield 'moebius-c5', 'cubical', 2, M.moebius_c(5), False, False
    yield 'klein-c', 'cubical', 2, M.klein_c(3, 3), False, True
    # surface of a cube
    cells = []
    for i, f in enumerate(M.cube_faces(tuple(range(8)), 3)):
        ax, s = i // 2, i % 2
        cells.append(f if (ax + s) % 2 else M.flip_c(f, 2))
    yield 'cube-surface', 'cubical', 2, cells, True, True


def raw_oriented(scale=1):
    """(id, kind, n, cells) with consistently oriented cells; not scrambled yet"""
    for c in closed_meshes():
        if c[4]:
            yield c[:4]
    for n in (1, 2, 3, 4):
        for i in range(scale * {1: 3, 2: 8, 3: 5, 4: 2}[n]):
            shape = [rng.randint(1, {1: 6, 2: 3, 3: 2, 4: 1}[n]) for _ in range(n)]
            cells, pts = M.random_box_s(rng, n, shape, rng.choice((.4, .7, 1)))
            if len(cells) > 30:
                cells = cells[:30]
            cells, _ = M.used(cells, pts)
            yield 'kuhn-%dd-%d' % (n, i), 'simplicial', n, cells
        for i in range(scale * {1: 3, 2: 8, 3: 6, 4: 2}[n]):
            shape = [rng.randint(1, {1: 6, 2: 4, 3: 2, 4: 1}[n]) for _ in range(n)]
            if n == 4:
                shape[rng.randrange(4)] = 2
            cells, pts = M.random_box_c(rng, shape, rng.choice((.4, .7, 1)))
            cells, _ = M.used(cells, pts)
            yield 'box-%dd-%d' % (n, i), 'cubical', n, cells
    for a, b in ((3, 1), (4, 2), (5, 3)):
        cells, pts = M.random_box_c(rng, (a, b), .8, periodic=(0,))
        cells, _ = M.used(cells, pts)
        yield 'tube-%d-%d' % (a, b), 'cubical', 2, cells
    # several components, loose elements
    for n in (1, 2, 3):
        S = M.sphere(n)
        one = [tuple(range(n + 1))]
        yield 'loose-first-%d' % n, 'simplicial', n, M.disjoint(one, S)
        yield 'loose-last-%d' % n, 'simplicial', n, M.disjoint(S, one)
        yield 'loose-only-%d' % n, 'simplicial', n, M.disjoint(one, one, one)
        yield 'two-spheres-%d' % n, 'simplicial', n, M.disjoint(S, S)
        q = [tuple(range(2 ** n))]
        two = M.cube_cells((2,) + (1,) * (n - 1))[0]
        yield 'loose-c-%d' % n, 'cubical', n, M.disjoint(q, two, q)
        yield 'loose-c-only-%d' % n, 'cubical', n, M.disjoint(q, q)
        yield 'two-c-%d' % n, 'cubical', n, M.disjoint(two, two)
    yield 'sphere+disc', 'simplicial', 2, M.disjoint(M.sphere(2), M.band(4), [(0, 1, 2)])
    # more elements than fit a small integer
    def renumbered(cells):
        num = list(range(1 + max(map(max, cells))))
        rng.shuffle(num)
        return [tuple(num[v] for v in c) for c in cells]
    yield 'large-torus', 'simplicial', 2, renumbered(M.torus_s(11, 12))
    yield 'large-ring', 'simplicial', 1, renumbered(M.ring(134))
    yield 'large-grid', 'cubical', 2, renumbered(M.cube_cells((9, 15))[0])
    yield 'butterfly', 'simplicial', 2, [(0, 1, 2), (2, 3, 4)]
    yield 'pinch-c', 'cubical', 2, [(0, 1, 2, 3), (3, 4, 5, 6)]


def two_sheet_meshes():
    """pure meshes with at most two top elements per facet, oriented, misoriented and non-orientable"""
    k = 3 if THOROUGH else 1
    for c in closed_meshes():
        if not c[4]:
            for i in range(2):
                yield c[0] + '/%d' % i, c[1], c[2], scramble(c[1], c[2], c[3], rng)
    for id, kind, n, cells in raw_oriented(k):
        yield id + '/oriented', kind, n, scramble(kind, n, cells, rng, True)
        yield id + '/mixed', kind, n, scramble(kind, n, cells, rng)
        j = rng.randrange(len(cells))
        one = [flip(kind, n, c) if i == j else c for i, c in enumerate(cells)]
        yield id + '/oneflipped', kind, n, scramble(kind, n, one, rng, True)
    for n in (1, 2, 3):
        for i in range(10 * k):
            yield 'stack-%d-%d' % (n, i), 'simplicial', n, M.scramble_s(M.random_stack(rng, n, rng.randint(2, 12)), rng)
    for x in rings(2 * k):
        yield x
    for c, d in itertools.permutations(('moebius5', 'band6', 'sphere2', 'simplex2'), 2):
        named = {x[0]: x for x in closed_meshes()}
        yield 'union-%s-%s' % (c, d), 'simplicial', 2, M.scramble_s(M.disjoint(named[c][3], named[d][3]), rng)
    for c in generated('cells'):
        cells = [tuple(v - 1 for v in t) for t in c['cells']]
        if two_sheeted(c['kind'], c['n'], cells):
            yield c['id'], c['kind'], c['n'], cells


def oriented_meshes():
    k = 3 if THOROUGH else 1
    for id, kind, n, cells in raw_oriented(k):
        yield id, kind, n, scramble(kind, n, cells, rng, True)
        yield id + '/asis', kind, n, M.relabel(cells)
    for c in generated('cells'):
        if c['oriented']:
            yield c['id'], c['kind'], c['n'], [tuple(v - 1 for v in t) for t in c['cells']]


def thin(id, k):
    """keep one in k of the spec-generated meshes in the quick tier"""
    return not id.startswith('gen') or THOROUGH or hash_(id) % k == SEED % k


def hash_(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


# ---- actions ---------------------------------------------------------------------------------
def make(rec, kind, n, cells, h='T', log=True):
    """log=False when the construction itself is another property's business"""
    return rec.call('make', lambda: build(kind, n, cells), lambda T: dict(topo=topo(T)),
                    h=h, kind=kind, n=n, cells=[[v + 1 for v in c] for c in cells])


def incidence(rec, T, of='T'):
    def get():
        I = T.incidence
        n = T.n_dim
        verts = [cells(I[k, 0]) if k else cells(np.asarray(T.elements[0])) for k in range(n + 1)]
        facets = [cells(I[k, k - 1]) for k in range(1, n + 1)]
        return dict(verts=verts, facets=facets, corners=[cells(c) for c in T.corners])
    rec.call('incidence', get, lambda d: d, of=of)


def chaincheck(rec, T, rng):
    def mats(X):
        return [sp(m) for m in X.matrices]
    rec.call('chaincheck', lambda: T.check_chain(), lambda r: {}, mats=mats(T))
    # a complex with one flipped incidence sign, through the public constructor
    n = T.n_dim
    for k in range(1, n + 1):
        try:
            I = T.incidence
            B = [np.array(I[j, j - 1]) for j in range(1, n + 1)]
            O = []
            for j in range(1, n + 1):
                m = T.matrices[j - 1].tocsc()
                b = B[j - 1].reshape(len(B[j - 1]), -1)
                O.append(np.array([[m[r, c] for r in row] for c, row in enumerate(b)], dtype=np.int8).reshape(B[j - 1].shape))
            f = O[k - 1].reshape(-1)
            f[rng.randrange(len(f))] *= -1
            X = type(T)(elements=T.elements, boundary=B, orientation=O)
            m = mats(X)
        except Exception:
            continue
        rec.call('chaincheck', lambda: X.check_chain(), lambda r: {}, mats=m)


def complex_of(kind, pos, T, weights=None):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    from pycomplex.complex.cubical import ComplexCubical
    if kind == 'simplicial':
        return ComplexSimplicialEuclidian(vertices=np.array(pos), topology=T, weights=weights)
    return ComplexCubical(vertices=np.array(pos), topology=T)


def carried(rec, coarse, fine, idx):
    """positions inherited by a derived mesh through its parent index"""
    rec.call('carried', lambda: dict(fine=ints(fine()), parent_idx=ints(np.asarray(idx()) + 1)), lambda d: d, coarse=coarse)


def do_boundary(rec, T, of='T', h='D'):
    def get():
        b = T.boundary
        d = dict(none=b is None, closed=bool(T.is_closed))
        if b is not None:
            d['topo'] = topo(b)
            d['parent_idx'] = [ints(np.asarray(p).reshape(-1) + 1) for p in b.parent_idx]
        return d
    rec.call('boundary', get, lambda d: d, of=of, h=h)


def do_selectors(rec, T, of='T'):
    rec.call('selectors', lambda: (T.selector_interior, T.selector_boundary),
             lambda r: dict(interior=[sp(m) for m in r[0]], boundary=[sp(m) for m in r[1]]), of=of)


def do_dual(rec, T, of='T'):
    def get():
        D = T.dual
        n = T.n_dim
        return dict(M=[sp(m) for m in D.matrices], M2=[sp(m) for m in D.matrices_2],
                    n_elements=[int(x) for x in D.n_elements],
                    sel_i=[sp(m) for m in D.selector_interior], sel_b=[sp(m) for m in D.selector_boundary])
    rec.call('dual', get, lambda d: d, of=of)


def do_subset(rec, T, chain, of='T', h='S'):
    return rec.call('subset', lambda: T.select_subset(chain),
                    lambda s: dict(topo=topo(s), parent_idx=[ints(np.asarray(p).reshape(-1) + 1) for p in s.parent_idx]),
                    of=of, h=h, chain=[int(x) for x in np.asarray(chain).tolist()])


def do_connect(rec, T, of='T'):
    def get():
        n, labels = T.label_connections()
        parts = T.split_connected_components()
        return dict(n_components=int(n), labels=ints(labels), connected=bool(T.is_connected),
                    split=[dict(topo=topo(s), parent_idx=[ints(np.asarray(p).reshape(-1) + 1) for p in s.parent_idx]) for s in parts])
    rec.call('connect', get, lambda d: d, of=of)


def do_regions(rec, T, of='T'):
    rec.call('regions', lambda: dict(regions=ints(T.regions_per_vertex), manifold=bool(T.is_manifold)), lambda d: d, of=of)


def do_average(rec, T, of='T'):
    rec.call('average', lambda: dict(A0=[spr(a) for a in T.averaging_operators_0], AN=[spr(a) for a in T.averaging_operators_N],
                                     degree=[ints(d) for d in T.degree]), lambda d: d, of=of)


def do_filled(rec, T, of='T'):
    n = T.n_dim

    def fills():
        for k in range(n + 1):
            m, j = T.n_elements[k], rng.choice((k, k - n - 1))
            at = sorted(rng.sample(range(m), rng.randint(0, m)))
            idx = np.array(rng.sample(at, len(at)), dtype=int)
            if rng.random() < .3:
                idx = np.isin(np.arange(m), at)
            dt = rng.choice((None, None, np.int64, float, bool))
            kw = {} if dt is None else dict(dtype=dt)
            yield dict(k=k, how='at', at=[i + 1 for i in at], out=whole(T.chain(j, fill=idx, **kw)))
            yield dict(k=k, how='all', fill=0, out=whole(T.chain(j)))
            yield dict(k=k, how='all', fill=3, out=whole(T.chain(j, 3)))
            yield dict(k=k, how='all', fill=-2, out=whole(T.form(j, -2)))
            yield dict(k=k, how='all', fill=0, out=whole(T.form(j)))
            yield dict(k=k, how='range', out=whole(T.range(j)))

    def whole(c):
        return [int(x) for x in ints(np.asarray(c).astype(float))]

    def get():
        return dict(V=[sp(T.matrix(k, 0)) for k in range(n + 1)], I=[sp(T.matrix(k, k)) for k in range(n + 1)], last=sp(T.matrix(-1)), fills=list(fills()))
    rec.call('filled', get, lambda d: d, of=of)


def do_dualaverage(rec, T, of='T'):
    def get():
        D = T.dual
        return dict(M=[sp(m) for m in D.matrices], A0=[spr(a) for a in D.averaging_operators_0])
    rec.call('dualaverage', get, lambda d: d)


def main(rec):
    if PID in ('C01', 'C02'):
        want = 'simplicial' if PID == 'C01' else 'cubical'
        for id, kind, n, cells in any_meshes():
            if kind != want:
                continue
            for v in range(1 if id.startswith(('random', 'boxes', 'book', 'gen')) else 3):
                rec.case('%s#%d' % (id, v))
                if v:
                    cells = scramble(kind, n, cells, rng)
                T = make(rec, kind, n, cells)
                if T is not None:
                    incidence(rec, T)
                    if len(cells) < 12:
                        chaincheck(rec, T, rng)
        gaps(rec, want)
        if PID == 'C02':
            invalid_cubes(rec)
    elif PID == 'C03':
        for id, kind, n, cells in two_sheet_meshes():
            rec.case(id)
            T = make(rec, kind, n, cells)
            if T is None:
                continue
            rec.call('is_oriented', lambda: bool(T.is_oriented), lambda v: dict(value=v), of='T')
            rec.call('rel_parity', lambda: ints(np.asarray(T.relative_parity()).astype(int)), lambda v: dict(parity=v), of='T')
            rec.call('fix', lambda: T.fix_orientation(), lambda F: dict(topo=topo(F), says=bool(F.is_oriented)), of='T', h='F')
    elif PID == 'C04':
        for id, kind, n, cells in oriented_meshes():
            rec.case(id)
            T = make(rec, kind, n, cells)
            if T is None:
                continue
            do_boundary(rec, T)
            do_selectors(rec, T)
            b = T.boundary
            if b is not None and len(cells) <= 12:
                pos = [[rng.randint(-99, 99) for _ in range(n)] for _ in range(T.n_elements[0])]
                carried(rec, pos, lambda: complex_of(kind, pos, T).boundary.vertices, lambda: b.parent_idx[0])
        for id, kind, n, cells in two_sheet_meshes():
            if not id.endswith(('/mixed', '/oneflipped', '/0')):
                continue
            rec.case('refuse/' + id)
            T = make(rec, kind, n, cells)
            if T is not None:
                do_boundary(rec, T)
    elif PID == 'C05':
        for id, kind, n, cells in oriented_meshes():
            if id.startswith(('butterfly', 'pinch')):
                continue
            rec.case(id)
            T = make(rec, kind, n, cells)
            if T is not None:
                do_dual(rec, T)
    elif PID == 'C06':
        for id, kind, n, cells in any_meshes():
            if not thin(id, 2):
                continue
            rec.case(id)
            T = make(rec, kind, n, cells)
            if T is None:
                continue
            do_connect(rec, T)
            do_regions(rec, T)
            m = len(cells)
            chains = [np.array([rng.random() < .5 for _ in range(m)]), np.array([int(i == 0) for i in range(m)], dtype=np.int8),
                      [rng.choice((0, 1, -1)) for _ in range(m)]]
            for j, ch in enumerate(chains):
                if np.any(ch):
                    do_subset(rec, T, ch, h='S%d' % j)
            if np.any(chains[0]):
                pos = [[rng.randint(-99, 99) for _ in range(n + 1)] for _ in range(T.n_elements[0])]
                w = [[rng.randint(1, 99)] for _ in pos]
                sub = []
                def subset():
                    sub[:] = [complex_of(kind, pos, T, np.array(w)[:, 0]).select_subset(chains[0])]
                    return sub[0].vertices
                carried(rec, pos, subset, lambda: sub[0].topology.parent_idx[0])
                if kind == 'simplicial' and sub:
                    carried(rec, w, lambda: np.asarray(sub[0].weights)[:, None], lambda: sub[0].topology.parent_idx[0])
            rec.call('subset', lambda: T.select_subset([1] * (m + 1)), lambda s: {}, of='T', chain=[1] * (m + 1))
        for id, kind, n, cells in raw_oriented(1):
            rec.case('o/' + id)
            T = make(rec, kind, n, scramble(kind, n, cells, rng))
            if T is not None:
                do_connect(rec, T)
                do_regions(rec, T)
    elif PID == 'C07':
        for id, kind, n, cells in any_meshes():
            rec.case(id)
            T = make(rec, kind, n, cells)
            if T is not None:
                do_average(rec, T)
                do_filled(rec, T)
        for id, kind, n, cells in oriented_meshes():
            if len(cells) > 30:
                continue
            rec.case('o/' + id)
            T = make(rec, kind, n, cells)
            if T is not None:
                do_average(rec, T)
                do_filled(rec, T)
                do_dualaverage(rec, T)


def gaps(rec, want):
    """vertices left out of the numbering, or numbers below the first"""
    for id, kind, n, cells in any_meshes():
        if kind != want or len(cells) > 12 or rng.random() > (.5 if THOROUGH else .15):
            continue
        V = 1 + max(max(c) for c in cells)
        g = rng.choice((-1, 0, rng.randrange(V), V - 1))
        rec.case('gap-%s' % id)
        if g < 0:
            cs = [tuple(v - 1 for v in c) for c in cells]
        else:
            s = rng.choice((1, 1, 2, 50))
            cs = [tuple(v + s * (v >= g) for v in c) for c in cells]
        make(rec, kind, n, cs)


def invalid_cubes(rec):
    """cubes that disagree on the corner arrangement of a shared face"""
    base = tuple(range(8))
    for i in range(60 if THOROUGH else 20):
        f = list(M.cube_faces(base, 3)[rng.randrange(6)])
        rng.shuffle(f)
        other = tuple(f) + (8, 9, 10, 11)
        cells = [base, M.present(other, 3, rng)]
        cells = M.relabel(cells, rng)
        rec.case('disagree-%d' % i)
        make(rec, 'cubical', 3, cells)
    for i in range(4):
        base = tuple(range(16))
        f = list(M.cube_faces(base, 4)[rng.randrange(8)])
        a, b = rng.sample(range(8), 2)
        f[a], f[b] = f[b], f[a]
        rec.case('disagree4-%d' % i)
        make(rec, 'cubical', 4, [base, tuple(f) + tuple(range(16, 24))])


if __name__ == '__main__':
    run(main)
