"""C14: smoothing, creases, subdivision operators."""
from rec_refine import *
import rec_topology as RT


def some_creases(T, n, r, empty=True):
    """random chains in some of the dimensions below the top"""
    out = {}
    for d in range(n):
        if r.random() < .6:
            p = r.choice((.1, .3, .8))
            c = np.array([r.choice((1, -1)) if r.random() < p else 0 for _ in range(T.n_elements[d])])
            if not c.any() and not empty:
                c[r.randrange(len(c))] = 1
            out[d] = c.astype(r.choice((np.int8, np.int64, float)))
    return out


def listed(creases):
    return [[d, [int(i) + 1 for i in np.flatnonzero(c)]] for d, c in sorted((creases or {}).items())]


def smooth_events(rec, C, pos, creases, of='T'):
    kw = {} if creases is None else dict(creases=creases)
    cl = listed(creases)
    rec.call('smooth', lambda: C.smooth(**kw).vertices, lambda v: dict(fine=geo.points(v)), of=of, fine_of=of, how='none', smooth=True, creases=cl, coarse=ints(pos))
    rec.call('smoothop', lambda: C.smooth_operator(**kw), lambda A: dict(A=spr(A)), of=of, fine_of=of, how='none', smooth=True, creases=cl)
    rec.call('smooth', lambda: C.smooth_operator(**kw) * C.vertices, lambda v: dict(fine=geo.points(v)), of=of, fine_of=of, how='none', smooth=True, creases=cl, coarse=ints(pos))


def subdivide_events(rec, C, pos, creases, smooth, how, of='T'):
    sub, op = dict(cubical=('subdivide_cubical', 'subdivide_operator'), loop=('subdivide_loop', 'subdivide_loop_operator'))[how]
    kw = dict(smooth=smooth)
    if creases is not None:
        kw['creases'] = creases
    cl = listed(creases)
    h = 'R%s%s' % (how, smooth)
    R = rec.call('adopt', lambda: getattr(C, sub)(**kw), lambda F: dict(topo=topo(F.topology)), h=h)
    if R is None:
        return
    rec.call('smooth', lambda: R.vertices, lambda v: dict(fine=geo.points(v)), of=of, fine_of=h, how=how, smooth=smooth, creases=cl, coarse=ints(pos))
    rec.call('smoothop', lambda: getattr(C, op)(**kw), lambda A: dict(A=spr(A)), of=of, fine_of=h, how=how, smooth=smooth, creases=cl)


def fan(rec, m=140):
    # more elements around one vertex than an 8 bit counter holds
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
    cs = [(0, i + 1, (i + 1) % m + 1) for i in range(m)]
    rec.case('fan-%d' % m)
    T = make(rec, 'simplicial', 2, cs)
    if T is not None:
        pos = np.array([[0, 0]] + [[rng.randint(-9, 9), rng.randint(-9, 9)] for i in range(m)])
        smooth_events(rec, ComplexTriangularEuclidian(vertices=pos, topology=T.as_2()), pos, None)


def main(rec):
    fan(rec)
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
    from pycomplex.complex.cubical import ComplexCubical
    k = 4 if THOROUGH else 1
    lim = {1: 40, 2: 24, 3: 10, 4: 2}
    for kind in ('simplicial', 'cubical'):
        for id, kind, n, cs, oriented in some_meshes(kind):
            if len(cs) > lim.get(n, 0) or not thin(id, 6):
                continue
            rec.case(id)
            T = make(rec, kind, n, cs)
            if T is None:
                continue
            V = T.n_elements[0]
            if kind == 'simplicial':
                pos = geo.place(rng, cs, max(2, n), 4)
                if pos is None:
                    pos = np.array([[rng.randint(0, 3) for _ in range(n + 1)] for _ in range(V)])
                C = ComplexSimplicialEuclidian(vertices=pos, topology=T)
            else:
                pos = np.array([[rng.randint(-9, 9) for _ in range(n + 1)] for _ in range(V)])
                C = ComplexCubical(vertices=pos, topology=T)
            smooth_events(rec, C, pos, None)
            smooth_events(rec, C, pos, some_creases(T, n, rng))
            if len(cs) <= {1: 8, 2: 6, 3: 2, 4: 0}[n]:
                if kind == 'cubical':
                    subdivide_events(rec, C, pos, None, False, 'cubical')
                    subdivide_events(rec, C, pos, some_creases(T, n, rng), True, 'cubical')
                    subdivide_events(rec, C, pos, None, True, 'cubical')
                elif n == 2:
                    T2 = tri(cs)
                    rec.emit('adopt', h='T2', topo=topo(T2))
                    C2 = ComplexTriangularEuclidian(vertices=pos, topology=T2)
                    subdivide_events(rec, C2, pos, None, False, 'loop', of='T2')
                    subdivide_events(rec, C2, pos, some_creases(T2, n, rng), True, 'loop', of='T2')
                    subdivide_events(rec, C2, pos, None, True, 'loop', of='T2')


if __name__ == '__main__':
    run(main)
