"""C08-C11: subdivisions, transfers, products."""
from rec_topology import *
import rec_topology as RT
import geo


def tri(cells):
    from pycomplex.topology.simplicial import TopologyTriangular
    return TopologyTriangular.from_simplices(np.array(cells))


def refine(rec, fn, how, of='T', h='R', keeps=True, alternating=False):
    return rec.call('refine', fn, lambda R: dict(topo=topo(R)), of=of, h=h, how=how, keeps=keeps, alternating=alternating)


def domains(rec, T, of='T'):
    rec.call('domains', lambda: T.fundamental_domains(),
             lambda d: dict(domains=cells(np.asarray(d).reshape(-1, np.asarray(d).shape[-1]))), of=of)


def transfers(rec, fn, how, chainmap, of='T', fine='R'):
    rec.call('transfers', fn, lambda t: dict(tr=[sp(m) for m in t]), of=of, fine=fine, how=how, chainmap=chainmap)


def dual_transfers(rec, T, R, how, of='T', fine='R'):
    """of meshes with a boundary, whole and boundary oriented; the dual of a closed mesh has none of its own"""
    if T.is_oriented and T.boundary is not None and T.boundary.is_oriented:
        rec.call('dualtransfers', lambda: R.dual.transfer_matrices, lambda t: dict(tr=[sp(m) for m in t]), of=of, fine=fine, how=how)


def positions(rec, coarse, fine, dims, centre, of='T'):
    """coarse: integer positions; fine() computed ones, of the elements of the given dimensions"""
    rec.call('positions', fine, lambda f: dict(fine=geo.points(f)), of=of, dims=list(dims), centre=centre, coarse=ints(coarse))


def element_positions(rec, C, pos, centre, of='T'):
    rec.call('elementpositions', lambda: (C.primal_position, C.dual_position),
             lambda r: dict(primal=[geo.points(p) for p in r[0]], dual=[geo.points(p) for p in r[1]]),
             of=of, coarse=ints(pos), centre=centre)


def size_limit(n):
    return {1: 60, 2: 30, 3: 12, 4: 3}.get(n, 0)


def some_meshes(kind_wanted):
    for x in RT.any_meshes():
        id, kind, n, cs = x
        if kind == kind_wanted:
            yield id, kind, n, cs, False
    for id, kind, n, cs in RT.raw_oriented(3 if THOROUGH else 1):
        if kind == kind_wanted:
            yield 'o/' + id, kind, n, scramble(kind, n, cs, rng, True), True
            if not id.startswith('gen'):
                yield 'm/' + id, kind, n, scramble(kind, n, cs, rng), False


def c08(rec):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    for id, kind, n, cs, oriented in some_meshes('simplicial'):
        if len(cs) > size_limit(n) and not id.startswith('o/large') or not thin(id, 4):
            continue
        rec.case(id)
        T = make(rec, kind, n, cs)
        if T is None:
            continue
        refine(rec, lambda: T.subdivide_fundamental(), 'fundamental', h='F')
        domains(rec, T)
        if len(cs) <= 6:
            refine(rec, lambda: T.subdivide_fundamental(oriented=False), 'fundamental', h='G', keeps=False, alternating=True)
        refine(rec, lambda: T.subdivide_simplicial(), 'cone', h='S')
        if n in (2, 3):
            refine(rec, lambda: T.subdivide_cubical(), 'cubical', h='Q', keeps=n == 2)
            if n == 2:
                t2 = tri(cs)
                refine(rec, lambda: t2.subdivide_cubical(), 'cubical', h='Q2')
                refine(rec, lambda: t2.subdivide_fundamental(), 'fundamental', h='F2')


    c08_geometry(rec)


def simplicial_complexes(k=1):
    """(id, n, d, cells, integer positions, oriented)"""
    for n in (1, 2, 3):
        for i in range(k * (10 if n < 3 else 6)):
            shape = [rng.randint(1, {1: 5, 2: 2, 3: 1}[n]) for _ in range(n)]
            cs, pos = geo.kuhn(rng, n, shape, rng.choice((.5, 1)))
            cs, pos = geo.permuted(cs, pos, rng)
            yield 'kuhn%d-%d' % (n, i), n, n, M.turn_s(cs, rng), pos, True
    for id, kind, n, cs, oriented in some_meshes('simplicial'):
        if n <= 3 and len(cs) <= 8 and thin(id, 12):
            d = n if rng.random() < .5 else n + 1
            if d > 3:
                d = 3
            pos = geo.place(rng, cs, d, 3 if d < 3 else 2)
            if pos is not None:
                yield id, n, d, cs, pos, False


def c08_geometry(rec):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
    for id, n, d, cs, pos, oriented in simplicial_complexes(3 if THOROUGH else 1):
        rec.case('geo/' + id)
        T = make(rec, 'simplicial', n, cs)
        if T is None:
            continue
        kinds = [ComplexSimplicialEuclidian] + ([ComplexTriangularEuclidian] if n == 2 else [])
        for K in kinds:
            if K is ComplexTriangularEuclidian:
                C = K(vertices=pos, topology=tri(cs))
            else:
                C = K(vertices=pos, topology=T)
            if oriented:
                element_positions(rec, C, pos, 'circum')
            # a refinement of a complex: the refined mesh and where its vertices are
            for how, dims, fn in (('fundamental', range(n + 1), lambda: C.subdivide_fundamental()),
                                  ('cone', (0, n), lambda: C.subdivide_simplicial()),
                                  ('cubical', range(n + 1), lambda: C.subdivide_cubical())):
                if how == 'cubical' and n == 1:
                    continue
                R = refine(rec, lambda: fn().topology, how, h='R' + how, keeps=not (how == 'cubical' and n == 3))
                positions(rec, pos, lambda: fn().vertices, dims, 'circum')


def big_surface(a, b, shuffle=True):
    """an a x b torus, its vertices numbered at random"""
    num = list(range(a * b))
    if shuffle:
        rng.shuffle(num)
    at = lambda i, j: num[(i % a) * b + j % b]
    cs = []
    for i in range(a):
        for j in range(b):
            cs += [[at(i, j), at(i + 1, j), at(i + 1, j + 1)], [at(i, j), at(i + 1, j + 1), at(i, j + 1)]]
    rng.shuffle(cs)
    return cs


def c09_large(rec):
    """more vertices than fit a small integer: refinement does not depend on numbers being small"""
    for a, b in [(11, 12)] + ([(16, 17)] if THOROUGH else []):
        cs = big_surface(a, b)
        rec.case('large-%d' % (a * b))
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2,
                     cells=[[v + 1 for v in c] for c in cs])
        if T is None:
            continue
        for variant in ('subdivide_loop', 'subdivide_loop_direct'):
            R = refine(rec, lambda: getattr(T, variant)(), 'loop', h=variant)
            if R is not None:
                transfers(rec, lambda: R.transfer_matrices, 'loop', variant.endswith('direct'), fine=variant)


def c09(rec):
    c09_large(rec)
    meshes = [(id, cs) for id, kind, n, cs, o in some_meshes('simplicial') if n == 2]
    for id, cs in meshes:
        if len(cs) > 30 or not thin(id, 3):
            continue
        rec.case(id)
        T = rec.call('make', lambda: tri(cs), lambda T: dict(topo=topo(T)), h='T', kind='simplicial', n=2,
                     cells=[[v + 1 for v in c] for c in cs])
        if T is None:
            continue
        for variant in ('subdivide_loop', 'subdivide_loop_direct'):
            R = refine(rec, lambda: getattr(T, variant)(), 'loop', h=variant)
            if R is not None:
                transfers(rec, lambda: R.transfer_matrices, 'loop', variant.endswith('direct'), fine=variant)
                dual_transfers(rec, T, R, 'loop', fine=variant)
                if len(cs) <= 4:
                    # refining twice: the refined mesh is as good a parent as any
                    R2 = refine(rec, lambda: getattr(R, variant)(), 'loop', of=variant, h='RR')
                    if R2 is not None:
                        transfers(rec, lambda: R2.transfer_matrices, 'loop', variant.endswith('direct'), of=variant, fine='RR')
                        dual_transfers(rec, R, R2, 'loop', of=variant, fine='RR')
        if len(cs) <= 8:
            d = rng.choice((2, 3))
            pos = geo.place(rng, cs, d, 3 if d == 2 else 2)
            if pos is not None:
                from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
                C = ComplexTriangularEuclidian(vertices=pos, topology=T)
                if refine(rec, lambda: C.subdivide_loop().topology, 'loop', h='CR') is not None:
                    positions(rec, pos, lambda: C.subdivide_loop().vertices, (0, 1), 'mean')
        # crossed variants
        if len(cs) <= 4:
            A = T.subdivide_loop_direct()
            rec.emit('adopt', h='A', topo=topo(A))
            refine(rec, lambda: A.subdivide_loop(), 'loop', of='A', h='AB')


def c10(rec):
    from pycomplex.topology.cubical import TopologyCubical
    for id, kind, n, cs, oriented in some_meshes('cubical'):
        if len(cs) > {1: 40, 2: 20, 3: 6, 4: 2}[n] and not id.startswith('o/large') or not thin(id, 2):
            continue
        rec.case(id)
        T = make(rec, kind, n, cs)
        if T is None:
            continue
        R = refine(rec, lambda: T.subdivide_cubical(), 'cubical', h='R')
        if R is not None:
            transfers(rec, lambda: R.transfer_matrices, 'cubical', False)
            dual_transfers(rec, T, R, 'cubical')
        if n < 4 or len(cs) == 1:
            refine(rec, lambda: T.subdivide_fundamental(), 'fundamental', h='F')
            domains(rec, T)
        if n == 2:
            T2 = T.as_2()
            S = refine(rec, lambda: T2.subdivide_simplicial(), 'quadtri', h='S')
            if S is not None:
                rec.call('transfers', lambda: [S.transfer_operators[2]], lambda t: dict(tr=[sp(m) for m in t]), of='T', fine='S', how='quadtri', chainmap=False)
                rec.call('quadtransfer', lambda: S.transfer_operators[0], lambda t: dict(A=spr(t)), of='T')
        if R is not None and len(cs) <= {1: 4, 2: 2, 3: 1, 4: 0}[n]:
            R2 = refine(rec, lambda: R.subdivide_cubical(), 'cubical', of='R', h='RR')
            if R2 is not None:
                transfers(rec, lambda: R2.transfer_matrices, 'cubical', False, of='R', fine='RR')
                dual_transfers(rec, R, R2, 'cubical', of='R', fine='RR')


    c10_geometry(rec)


def c10_geometry(rec):
    from pycomplex.complex.cubical import ComplexCubical, ComplexCubical2
    for n in (1, 2, 3):
        for i in range((3 if THOROUGH else 1) * (12 if n < 3 else 8)):
            shape = [rng.randint(1, {1: 5, 2: 3, 3: 2}[n]) for _ in range(n)]
            cs, pos, _ = geo.boxes(rng, shape, rng.choice((.6, 1)))
            cs = cs[:6 if n == 3 else 12]
            cs, pos = M.used(cs, pos)
            cs, pos = geo.permuted(cs, pos, rng)
            cs = M.turn_c(cs, n, rng)
            pos = np.array(pos)
            rec.case('geo/boxes%d-%d' % (n, i))
            T = make(rec, 'cubical', n, cs)
            if T is None:
                continue
            C = ComplexCubical(vertices=pos, topology=T)
            element_positions(rec, C, pos, 'mean')
            refine(rec, lambda: C.subdivide_cubical().topology, 'cubical', h='R')
            positions(rec, pos, lambda: C.subdivide_cubical().vertices, range(n + 1), 'mean')
            R = refine(rec, lambda: C.subdivide_fundamental().topology, 'fundamental', h='F')
            positions(rec, pos, lambda: C.subdivide_fundamental().vertices, range(n + 1), 'mean')
            if R is not None:
                rec.call('tiling', lambda: C.subdivide_fundamental().vertices, lambda v: dict(fine=geo.common(v, 2 ** n)),
                         of='T', fine_of='F', D=2 ** n, coarse=ints(pos))
            if n == 2:
                Q = ComplexCubical2(vertices=pos, topology=T)
                S = refine(rec, lambda: Q.subdivide_simplicial().topology, 'quadtri', h='S')
                positions(rec, pos, lambda: Q.subdivide_simplicial().vertices, (0, 2), 'mean')
                if S is not None:
                    rec.call('tiling', lambda: Q.subdivide_simplicial().vertices, lambda v: dict(fine=geo.common(v, 4)),
                             of='T', fine_of='S', D=4, coarse=ints(pos))
    # warped meshes: any positions, any abstract mesh
    for id, kind, n, cs, oriented in some_meshes('cubical'):
        if n <= 3 and len(cs) <= 8 and thin(id, 5):
            rec.case('warp/' + id)
            T = make(rec, kind, n, cs)
            if T is None:
                continue
            V = 1 + max(max(c) for c in cs)
            pos = np.array([[rng.randint(-9, 9) for _ in range(n + 1)] for _ in range(V)])
            C = ComplexCubical(vertices=pos, topology=T)
            refine(rec, lambda: C.subdivide_cubical().topology, 'cubical', h='R')
            positions(rec, pos, lambda: C.subdivide_cubical().vertices, range(n + 1), 'mean')


def c11(rec):
    by_dim = {1: [], 2: [], 3: []}
    for id, kind, n, cs, oriented in some_meshes('cubical'):
        # cells over the same vertices would become facets of a product that cannot be told apart
        if n < 4 and len(cs) <= {1: 6, 2: 5, 3: 2}[n] and len({frozenset(c) for c in cs}) == len(cs):
            by_dim[n].append((id, n, cs))
    pairs = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]
    for d1, d2 in pairs:
        k = (60 if d1 + d2 == 2 else 40 if d1 + d2 == 3 else 8) * (4 if THOROUGH else 1)
        for i in range(k):
            a = by_dim[d1][rng.randrange(len(by_dim[d1]))]
            b = by_dim[d2][rng.randrange(len(by_dim[d2]))]
            if len(a[2]) * len(b[2]) > {2: 36, 3: 16, 4: 4}[d1 + d2]:
                continue
            rec.case('%s x %s #%d' % (a[0], b[0], i))
            A = make(rec, 'cubical', a[1], a[2], h='A')
            B = make(rec, 'cubical', b[1], b[2], h='B')
            if A is not None and B is not None:
                rec.call('product', lambda: A.product(B), lambda P: dict(topo=topo(P)), of='A', by='B', h='P')
                if i % 2 == 0:
                    from pycomplex.complex.cubical import ComplexCubical
                    pa = [[rng.randint(-9, 9) for _ in range(rng.randint(1, 1) if i % 4 else d1)] for _ in range(A.n_elements[0])]
                    pb = [[rng.randint(-9, 9) for _ in range(d2)] for _ in range(B.n_elements[0])]
                    # factors at other scales, not always integers
                    sa, sb = rng.choice(((1, 1), (1, .5), (.25, 1), (1, 3.), (.5, .125), (1, 1e-3)))
                    def prod():
                        return ComplexCubical(vertices=np.array(pa) * sa, topology=A).product(ComplexCubical(vertices=np.array(pb) * sb, topology=B))
                    rec.call('product', lambda: prod().topology, lambda P: dict(topo=topo(P)), of='A', by='B', h='CP')
                    rec.call('productpositions', lambda: prod().vertices, lambda v: dict(fine=ints(np.asarray(v) / ([sa] * len(pa[0]) + [sb] * len(pb[0])))), of='A', by='B', a=pa, b=pb)
                if i % 5 == 0:
                    rec.call('product', lambda: A.product(A) if d1 * 2 <= 3 else A.product(B), lambda P: dict(topo=topo(P)), of='A', by='A' if d1 * 2 <= 3 else 'B', h='PP')


def main(rec):
    dict(C08=c08, C09=c09, C10=c10, C11=c11)[PID](rec)


if __name__ == '__main__':
    run(main)
