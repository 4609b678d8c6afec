"""C25: the ready-made meshes."""
from lib import *


def boxes():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('boxes-'):
            out += [tuple(json.loads(x)['shape']) for x in open(os.path.join(d, f))]
    return sorted(set(out))


def fixed(v, scale):
    v = np.asarray(v, float) * scale
    if not np.all(np.isfinite(v)) or np.abs(v).max() > 2 ** 20:
        raise Inexact('position out of range')
    return np.rint(v).astype(int).tolist()


def norms(v):
    """squared lengths, in hundred-millionths"""
    return np.rint(np.clip((np.asarray(v, float) ** 2).sum(-1), 0, 9) * 1e8).astype(int).tolist()


def main(rec):
    from pycomplex import synthetic
    rng = random.Random(SEED * 7919 + 25)

    def made(fn, project, limit=120, **kw):
        def f(c):
            d = project(c)
            d['topo'] = topo(c.topology)
            return d
        rec.call('made', fn, f, limit=limit, **kw)

    def grid(shape, centering, mirror, how):
        kw = {}
        default = dict(grid=(True, True), cube=(False, True))[how]
        if centering != default[0] or rng.random() < .5:
            kw['centering'] = centering
        if mirror != default[1] or rng.random() < .5:
            kw['mirror'] = mirror
        made((lambda: synthetic.n_cube_grid(rng.choice((tuple, list))(shape), **kw)) if how == 'grid' else (lambda: synthetic.n_cube(len(shape), **kw)),
             lambda c: dict(pos=ints(np.asarray(c.vertices) * 2)), mesh='grid', shape=list(shape), centering=centering, mirror=mirror)

    bs = boxes()
    if not THOROUGH:
        bs = rng.sample(bs, min(90, len(bs)))
    bs += [(7,), (6, 5), (3, 4, 3), (1, 1, 9), (12, 2)] + ([(2, 2, 2, 2), (9, 11), (4, 5, 4), (2, 1, 2, 1, 2)] if THOROUGH else [(2, 2, 2, 1)])
    for s in bs:
        rec.case('grid-%s' % '-'.join(map(str, s)))
        grid(s, True, True, 'grid')
        grid(s, rng.random() < .5, rng.random() < .5, 'grid')
    for n in range(1, 6 if THOROUGH else 5):
        rec.case('cube-%d' % n)
        for centering in (False, True):
            for mirror in (True, False):
                grid((1,) * n, centering, mirror, 'cube')

    def simplex(c):
        v = np.asarray(c.vertices, float)
        d = ((v[:, None] - v[None]) ** 2).sum(-1)
        return dict(dim=v.shape[1], sq=rats(d), norm=rats((v ** 2).sum(-1)), pos=fixed(v, 1) if np.array_equal(v, np.rint(v)) else [])
    for n in range(1, 8 if THOROUGH else 7):
        rec.case('simplex-%d' % n)
        made(lambda: rng.choice((lambda: synthetic.n_simplex(n), lambda: synthetic.n_simplex(n, True)))(), simplex, mesh='simplex', n=n, equilateral=True)
        made(lambda: synthetic.n_simplex(n, equilateral=False), simplex, mesh='simplex', n=n, equilateral=False)
    for k in range(1, 8 if THOROUGH else 6):
        rec.case('circle-%d' % k)
        made(lambda: synthetic.circle(k), lambda c: dict(pos=fixed(c.vertices, 10000), q=fixed(c.vertices, 1000), norms=norms(c.vertices)), mesh='circle', k=k)
    for k in range(1, 5 if THOROUGH else 4):
        for L, R in ((1, 1), (3, 1.5), (.5, 2), (2.25, .75)):
            rec.case('cylinder-%d-%s-%s' % (k, L, R))
            made(lambda: synthetic.cylinder(L, R, k) if k > 1 else synthetic.cylinder(L, R), lambda c: dict(pos=fixed(c.vertices, 10000)),
                 mesh='cylinder', k=k, length=int(L * 10000), radius=int(R * 10000))

    def sphere(scale):
        return lambda c: dict(pos=fixed(c.vertices, 10000), q=fixed(c.vertices, scale), norms=norms(c.vertices))
    rec.case('icosahedron')
    made(synthetic.icosahedron, sphere(1000), mesh='sphere', how='icosphere', r=0, tol=0)
    made(synthetic.icosphere, sphere(1000), mesh='sphere', how='icosphere', r=0, tol=0)
    for r in range(1, 5 if THOROUGH else 4):
        rec.case('icosphere-%d' % r)
        made(lambda: synthetic.icosphere(r), sphere(1000), mesh='sphere', how='icosphere', r=r, tol=0)
    rec.case('hexacosichoron')
    made(synthetic.hexacosichoron, sphere(100), mesh='sphere', how='hexacosichoron', r=0, tol=0)
    for n in range(2, 7 if THOROUGH else 6):
        rec.case('crosspolytope-%d' % n)
        made(lambda: synthetic.n_cube_dual(n), sphere(1), mesh='sphere', how='crosspolytope', r=n, tol=0)
    for q in range(30 if THOROUGH else 8):
        np.random.seed(SEED * 1000 + q)
        n = rng.randint(14, 60)
        rec.case('spread-%d' % q)
        made(lambda: synthetic.optimal_delaunay_sphere(n, 3, iterations=rng.randint(1, 4), weights=False, condition=rng.choice((None, 'delaunay', 'centered'))), sphere(1000),
             mesh='sphere', how='spread', r=n, tol=30000)
    for q in range(40 if THOROUGH else 12):
        np.random.seed(SEED * 1000 + 500 + q)
        d = rng.randint(1, 8)
        rec.case('delaunay-%d' % q)
        made(lambda: synthetic.delaunay_cube(d, 2, rng.randint(0, 4)), lambda c: dict(q=fixed(c.vertices, 1000)), mesh='delaunay', density=d)


run(main)
