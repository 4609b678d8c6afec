"""C18 (derivatives, metric) and C19 (hierarchy, smoothing, averaging, sampling) of periodic stencil grids."""
from lib import *
from rec_stencil_common import *
import itertools


def gen_shapes():
    out = []
    d = os.environ.get('VERIF_GEN', '')
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('stencil-'):
            out += [tuple(json.loads(x)['shape']) for x in open(os.path.join(d, f))]
    return sorted(set(out))


def layouts(x, rng):
    """the same form in another memory layout / precision"""
    k = rng.randrange(4)
    if k == 0:
        return x.astype(np.float32)
    if k == 1:
        return x.astype(np.float64)
    if k == 2:
        return np.asfortranarray(x.astype(np.float64))
    y = np.zeros(tuple(2 * s for s in x.shape), np.float32)
    v = y[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def any_form(shape, rng):
    return np.array([rng.randint(-9, 9) for _ in range(int(np.prod(shape)))]).reshape(shape)


def periodic_cubes(shape):
    n = len(shape)
    idx = np.arange(int(np.prod(shape))).reshape(shape)
    return [[int(idx[tuple((p + o) % s for p, o, s in zip(pos, off, shape))]) for off in itertools.product((0, 1), repeat=n)]
            for pos in itertools.product(*[range(s) for s in shape])]


def derivatives(rec, shape, rng, scales):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.complex import StencilComplex2D, StencilComplex3D
    cls = {2: StencilComplex2D, 3: StencilComplex3D}.get(len(shape), StencilComplex)
    if rng.random() < .3:
        cls = StencilComplex
    rec.case('grid' + 'x'.join(map(str, shape)))
    c = rec.call('stencil', lambda: cls.from_shape(shape, scale=scales[0]), lambda c: dict(val=val(c.topology)), h='G', shape=list(shape))
    if c is None:
        return
    t = c.topology
    n = len(shape)
    for k in range(n):
        for which in ('D', 'dual'):
            for _ in range(2):
                x = any_form(t.n_elements[k if which == 'D' else k + 1], rng)
                y = layouts(x, rng)
                rec.call('stencilapply', lambda: (t.primal[k] if which == 'D' else t.dual[k])(y), lambda r: dict(y=ints(np.ravel(r)), x_after=ints(np.ravel(y))),
                         of='G', n=k, which=which, x=ints(np.ravel(x)))
    if min(shape) >= 3 and np.prod(shape) <= 64:
        from pycomplex.topology.cubical import TopologyCubical
        rec.call('explicit', lambda: TopologyCubical.from_cubes(np.array(periodic_cubes(shape)).reshape((-1,) + (2,) * n)), lambda T: dict(topo=topo(T)), of='G')
    for s in scales:
        c2 = cls.from_shape(shape, scale=s)

        def project(_):
            hod = []
            for m in range(n + 1):
                one = c2.topology.form(m, dtype=np.float64, init='ones')
                H = c2.hodge[m]
                hod.append(dict(diag=rats(np.ravel(H(one)), maxden=100000), inv=rats(np.ravel(H.inverse()(one)), maxden=100000)))
            return dict(hodge=hod, position=rats(np.asarray(c2.primal_position[0])[0].reshape(-1, n)))
        rec.call('stencilmetric', lambda: c2.hodge, project, of='G', scale=rat(s))


def transfers(rec, shape, rng, scale):
    from pycomplex.stencil.complex import StencilComplex
    rec.case('levels' + 'x'.join(map(str, shape)))
    c = rec.call('stencil', lambda: StencilComplex.from_shape(shape, scale=scale), lambda c: dict(val=val(c.topology)), h='G', shape=list(shape))
    if c is None:
        return
    n = len(shape)
    even = all(s % 2 == 0 for s in shape)
    mats = {}
    if even:
        def project(_):
            t = c.topology
            cc, ff = c.coarse, c.fine
            r = dict(coarse_shape=list(cc.shape), fine_shape=list(ff.shape), roundtrip=list(ff.coarse.shape if rng.random() < .5 else cc.fine.shape),
                     coarse_scale=rat(cc.scale), fine_scale=rat(ff.scale))
            for name, ops in (('bin', t.transfers), ('tile', [x.transpose() for x in t.transfers]), ('coarsen', c.coarsen), ('refine', c.refine)):
                mats[name] = (list(ops), [spr(dense(o)) for o in ops])
                r[name] = mats[name][1]
            return r
        rec.call('hierarchy', lambda: c.coarse, project, of='G', scale=rat(scale))
    for unit in (True, False):
        rec.call('smoothers', lambda: c.smoothers(scale=unit), lambda S: dict(S=[spr(dense(s)) for s in S]), of='G', unit=unit)
    rec.call('stencilaverage', lambda: c.topology.averaging_operators_0, lambda A: dict(A=[spr(dense(a)) for a in A]), of='G')
    for name, (ops, ms) in mats.items():
        for k in range(n + 1):
            x = any_form(ops[k].shape[1], rng)
            y = layouts(x, rng)
            rec.call('transferapply', lambda: ops[k](y), lambda r: dict(y=rats(np.ravel(r))), x=rats(np.ravel(x)), M=ms[k], name=name)
            z = any_form(ops[k].shape[1], rng).astype(float)
            if name in ('coarsen', 'refine'):
                L = ops[k]
                rec.call('transferapply', lambda: L(z + 0), lambda r: dict(y=rats(np.ravel(r))), x=rats(np.ravel(z)), M=ms[k], name=name)


def sampling(rec, shape, rng, scale, count):
    from pycomplex.stencil.complex import StencilComplex
    rec.case('sample' + 'x'.join(map(str, shape)))
    c = rec.call('stencil', lambda: StencilComplex.from_shape(shape, scale=scale), lambda c: dict(val=val(c.topology)), h='G', shape=list(shape))
    if c is None:
        return
    n = len(shape)
    for mode in ('any', 'interior', 'vertices'):
        for rep in range(2):
            x = any_form(c.topology.n_elements[0], rng)
            f = layouts(x, rng)
            if mode == 'any':
                q = [[rng.randint(-4 * s - 3, 8 * s + 3) for s in shape] for _ in range(count)]
                q += [[4 * rng.choice((0, s, -s, 2 * s)) + rng.choice((0, 0, 1, -1)) for s in shape] for _ in range(count)]
            elif mode == 'interior':
                q = [[rng.randint(0, 4 * (s - 1)) for s in shape] for _ in range(count)]
            else:
                q = [[4 * rng.randint(0, s - 1) for s in shape] for _ in range(count)]
            fr = Fraction(scale).limit_denominator(100)
            pts = [[Fraction(a, 4) * fr for a in p] for p in q]
            kw = dict(assume_interior=True) if mode == 'interior' else ({} if rep else dict(assume_interior=False))
            rec.call('stencilsample', lambda: c.sample_0(f, np.array([[float(a) for a in p] for p in pts]), **kw), lambda v: dict(values=rats(v, tol=1e-5)),
                     of='G', scale=rat(scale), f=rats(np.ravel(x)), points=[[[a.numerator, a.denominator] for a in p] for p in pts], mode=mode)


def main(rec):
    pid = sys.argv[2]
    rng = random.Random(SEED * 7919 + int(pid[1:]))
    shapes = gen_shapes()
    extra = [(5,), (7,), (12,), (5, 3), (3, 7), (6, 5), (4, 4), (3, 3, 3), (2, 3, 5), (4, 1, 3), (3, 4, 4), (2, 2, 2, 2), (1, 2, 3, 1), (3, 1, 2, 2), (1, 1, 1, 1), (2, 1, 1, 2, 1)]
    for _ in range(40 if THOROUGH else 6):
        d = rng.choice((1, 2, 2, 3))
        extra.append(tuple(rng.randint(1, {1: 40, 2: 9, 3: 5}[d]) for _ in range(d)))
    if pid == 'C18':
        for s in shapes + extra:
            derivatives(rec, s, rng, rng.sample([1, 2, .5, 3, 1.5, 0.25], 2))
        return
    even = [(2,), (4,), (6,), (10,), (2, 2), (4, 2), (2, 6), (6, 4), (4, 4), (2, 2, 2), (4, 2, 2), (2, 4, 4), (4, 2, 6), (2, 2, 2, 2)]
    for s in sorted(set(shapes + extra[:-1] + even)):
        if int(np.prod(s)) * 2 ** len(s) <= (1200 if THOROUGH else 400):
            transfers(rec, s, rng, rng.choice([1, 2, .5, 3]))
    for s in sorted(set(shapes + extra)):
        sampling(rec, s, rng, rng.choice([1, 2, .5, 3, 0.25]), 24 if THOROUGH else 8)


run(main)
