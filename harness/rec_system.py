"""C22: block systems on periodic grids: canonical, sliced, zeroed, normal, diffusion; and their smoothers (C28)."""
from lib import *
from rec_stencil_common import val
from rec_system_common import *
PID = sys.argv[2] if len(sys.argv) > 2 else 'C22'


def programs():
    d = os.environ.get('VERIF_GEN', '')
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('prog-MC_Systems'):
            out[f[len('prog-MC_Systems_'):-len('.ndjson')]] = [json.loads(x) for x in open(os.path.join(d, f))]
    return out


def index(rows, n, rng):
    """rows (1-based) as a slice where possible, or a list of indices"""
    r = [k - 1 for k in rows]
    if r == list(range(r[0], r[-1] + 1)) and rng.random() < .6:
        if r[0] == 0 and r[-1] == n - 1 and rng.random() < .7:
            return slice(None)
        return slice(r[0], r[-1] + 1)
    return r if rng.random() < .7 else np.array(r)


def grid(rec, shape, scale, label):
    from pycomplex.stencil.complex import StencilComplex, StencilComplex2D, StencilComplex3D
    cls = {2: StencilComplex2D, 3: StencilComplex3D}.get(len(shape), StencilComplex)
    rec.case('%s-%s-%s-%d' % (label, 'x'.join(map(str, shape)), scale, rec.n_cases))
    return rec.call('stencil', lambda: cls.from_shape(shape, scale=scale), lambda c: dict(val=val(c.topology)), h='G', shape=list(shape))


def vectors(rec, s, h, rng, even):
    """what a user does with a system: residuals, allocation, diagonals, transfers"""
    from pycomplex.stencil.equation import Equation, NormalEquation
    size = s.complex.n_elements
    e = (Equation if rng.random() < .5 else NormalEquation)(s)
    x, y = some([size[n] for n in s.R], rng), some([o.shape[1] for o in s.B.block[0]], rng)
    rec.call('sysvec', lambda: e.residual(x, y), vec, of=h, how='residual', x=vec(x)['out'], y=vec(y)['out'])
    rec.call('sysvec', s.allocate_x, vec, of=h, how='allocate_x')
    rec.call('sysvec', s.allocate_y, vec, of=h, how='allocate_y')
    if even and len(s.A.block) == len(s.A.block[0]) and list(s.L) == list(s.R):
        rec.call('sysvec', s.A.diagonal, vec, of=h, how='diagonal')
    if even:
        p, d = some([size[n] for n in s.R], rng), some([size[n] for n in s.L], rng)
        rec.call('sysvec', lambda: s.restrict_primal(p), vec, of=h, how='restrict_primal', y=vec(p)['out'])
        rec.call('sysvec', lambda: s.restrict_dual(d), vec, of=h, how='restrict_dual', y=vec(d)['out'])


def run_program(rec, shape, prog, rng):
    from pycomplex.stencil.linear_system import System
    scale = Fraction(*prog[0]['scale'])
    c = grid(rec, shape, float(scale) if rng.random() < .5 or scale.denominator > 1 else int(scale), 'prog')
    if c is None:
        return
    even = all(k == 1 or k % 2 == 0 for k in shape)
    s = rec.call('system', lambda: System.canonical(c), proj, h='S0', of='G', how='canonical', scale=prog[0]['scale'])
    chain = [('S0', s)]
    for i, st in enumerate(prog[1:]):
        if s is None:
            return
        h, h2 = 'S%d' % i, 'S%d' % (i + 1)
        if st['how'] == 'slice':
            n, m = s.A.block.shape
            a, b = index(st['rows'], n, rng), index(st['cols'], m, rng)
            s = rec.call('system', lambda: s[a, b], proj, h=h2, of=h, how='slice', rows=st['rows'], cols=st['cols'])
        elif st['how'] == 'zero':
            def z():
                q = s[:, :]
                q.A[st['rows'][0] - 1, st['cols'][0] - 1] = 0
                return q
            s = rec.call('system', z, proj, h=h2, of=h, how='zero', i=st['rows'][0], j=st['cols'][0])
        else:
            s = rec.call('system', getattr(s, st['how']), proj, h=h2, of=h, how=st['how'])
        chain.append((h2, s))
    if s is not None:
        vectors(rec, s, chain[-1][0], rng, even and all(k % 2 == 0 for k in shape))
    for h, q in chain[:-1]:
        rec.call('system', lambda: q, proj, of=h, how='same')


def diffusion(rec, shape, rng, scale):
    from pycomplex.stencil.diffusion import Diffusion
    c = grid(rec, shape, scale, 'diffusion')
    if c is None:
        return
    t = c.topology
    even = all(k % 2 == 0 for k in shape)

    def field(n, zero):
        return np.array([rng.choice((1, 2, .5, 1, 3) + ((0,) if zero else ())) for _ in range(int(np.prod(t.n_elements[n])))], float).reshape(t.n_elements[n])
    f = dict(constraint=field(0, True), conductance=field(1, True), resistance=field(1, True), foo=field(1, True))
    fj = {k: rats(np.ravel(v)) for k, v in f.items()}
    kinds = [('first', 'formulate')] + ([('flux', 'formulate_flux_only'), ('all', 'formulate_all')] if len(shape) > 1 else [])
    for kind, name in kinds:
        keep = {k: v.copy() for k, v in f.items()}
        q = rec.call('system', lambda: getattr(Diffusion, name)(c, f), lambda q: proj(q.system), h='D' + kind, of='G', how='diffusion', kind=kind, scale=rat(scale), fields=fj)
        rec.emit('kept', same=all(np.array_equal(keep[k], f[k]) for k in f))
        if q is None:
            continue
        size = t.n_elements
        x, y = some([size[n] for n in q.system.R], rng), some([size[n] for n in q.system.L], rng)
        rec.call('sysvec', lambda: q.residual(x, y), vec, of='D' + kind, how='residual', x=vec(x)['out'], y=vec(y)['out'])
        rec.call('system', lambda: q.normal.system, proj, of='D' + kind, how='normal')
        rec.call('system', lambda: q.normal_ne.system, proj, of='D' + kind, how='normal_ne')
        if not even or kind != 'first':
            continue
        cc = rec.call('stencil', lambda: q.complex.coarse, lambda k: dict(val=val(k.topology)), h='C', shape=[k // 2 for k in shape])
        if cc is None:
            continue
        rec.call('system', lambda: q.coarse.system, proj, of='C', fine='G', how='coarsened', kind=kind, scale=rat(2 * scale), fields=fj)
        if all(k % 4 == 0 for k in shape):
            cc2 = rec.call('stencil', lambda: q.coarse.complex.coarse, lambda k: dict(val=val(k.topology)), h='CC', shape=[k // 4 for k in shape])
            if cc2 is not None:
                rec.call('system', lambda: q.coarse.coarse.system, proj, of='CC', fine='G', how='coarsened2', kind=kind, scale=rat(4 * scale), fields=fj)
        for how, fn in (('restrict_dual', q.restrict_dual), ('restrict_dual', q.restrict), ('restrict_primal', q.restrict_primal)):
            rec.call('sysvec', lambda: fn(y), vec, of='D' + kind, how=how, y=vec(y)['out'])
        z = some([cc.n_elements[n] for n in q.system.R], rng)
        rec.call('sysvec', lambda: q.interpolate(z), vec, of='D' + kind, how='interpolate', x=vec(z)['out'])


# --- C28: relaxation -------------------------------------------------------------------------

def relaxation(rec, shape, rows, cols, rng, scale, kinds):
    from pycomplex.stencil.linear_system import System
    from pycomplex.stencil.equation import NormalSmoothEquation
    c = grid(rec, shape, scale, 'relax')
    if c is None:
        return
    N = len(shape) + 1
    s = rec.call('system', lambda: System.canonical(c)[index(rows, N, rng), index(cols, N, rng)], proj, h='S', of='G', how='relaxed',
                 rows=rows, cols=cols, scale=rat(scale))
    if s is None:
        return
    e = NormalSmoothEquation(s)
    size = c.n_elements
    Ls, Rs = [size[n] for n in s.L], [size[n] for n in s.R]

    def step(how, fn, x, y, fixed, **kw):
        xj, yj = vec(x)['out'], vec(y)['out']

        def go():
            r = fn(x, y)
            return dict(out=fixed_point(r), x_after=vec(x)['out'], y_after=vec(y)['out'])
        rec.call('relax', go, lambda d: d, of='S', how=how, x=xj, y=yj, fixed=fixed, **kw)
    for rep in range(2):
        x, y = some(Rs, rng), some(Ls, rng)
        exact = s.A * x
        for how, fn, kw in [('jacobi', lambda a, b: e.jacobi(a, b), dict(relax=[1, 1])), ('jacobi', lambda a, b: e.jacobi(a, b, 2), dict(relax=[2, 1])),
                            ('jacobi', lambda a, b: e.jacobi(a, b, relaxation=.5), dict(relax=[1, 2])), ('nr', e.NR_BLOCK_GS, {}), ('ne', e.NE_BLOCK_GS, {}),
                            ('overrelax', lambda a, b: e.overrelax(a, b, [1, .5]), dict(knots=[[1, 1], [1, 2]])),
                            ('overrelax', lambda a, b: e.overrelax(a, b, [.5, 1, .5]), dict(knots=[[1, 2], [1, 1], [1, 2]])),
                            ('overrelax', lambda a, b: e.overrelax(a, b, (1, 1)), dict(knots=[[1, 1], [1, 1]])),
                            ('overrelax', lambda a, b: e.smooth(a, b), dict(knots=[[1, 2], [5, 4], [2, 1]])),
                            ('overrelax', lambda a, b: e.smooth(a, b, base=1), dict(knots=[[1, 1], [5, 2], [4, 1]]))]:
            step(how, fn, x, exact, True, **kw)
            if how in kinds:
                step(how, fn, x, y, False, **kw)
                step(how, fn, x * 0, y, False, **kw)


def main(rec):
    rng = random.Random(SEED * 7919 + 22)
    if PID == 'C22':
        for label, ps in programs().items():
            shape = {'a': (2,), 'b': (1, 2), 'w': (2, 2)}[label]
            if not THOROUGH:
                last = [p for p in ps if 'normal' in p[-1]['how']]
                ps = rng.sample(last, min(100, len(last))) + rng.sample(ps, min(150, len(ps)))
            for p in ps:
                run_program(rec, shape, p, rng)
        more = [((4,), 3), ((3,), 3), ((2, 2), 3), ((3, 2), 3), ((1, 2, 2), 4), ((1, 1), 3), ((1,), 2)] + ([((2, 2, 2), 4), ((6,), 2), ((4, 2), 3), ((3, 1, 2), 4)] if THOROUGH else [])
        for shape, _ in more:
            n = len(shape) + 1
            for rep in range(6 if THOROUGH else 2):
                p = [dict(how='canonical', scale=rng.choice(([1, 1], [2, 1], [1, 2])))]
                k, m = n, n
                for _ in range(rng.randint(1, 3)):
                    if rng.random() < .5:
                        r = sorted(rng.sample(range(1, k + 1), rng.randint(max(1, k - 1), k)))
                        q = sorted(rng.sample(range(1, m + 1), rng.randint(max(1, m - 1), m)))
                        p.append(dict(how='slice', rows=r, cols=q))
                        k, m = len(r), len(q)
                    else:
                        p.append(dict(how='zero', rows=[rng.randint(1, k)], cols=[rng.randint(1, m)]))
                if rep % 2 == 0:
                    p.append(dict(how=rng.choice(('normal', 'normal', 'normal_ne'))))
                run_program(rec, shape, p, rng)
        for shape in [(2,), (4,), (3,), (2, 2), (1, 2), (3, 2), (4, 2), (1, 2, 2), (8,), (4, 4)] + ([(6,), (2, 2, 2), (3, 3), (12,), (8, 4)] if THOROUGH else []):
            for scale in (1, 2, .5):
                diffusion(rec, shape, rng, scale)
    else:
        A = [((2,), [1, 2], [1, 2]), ((2,), [1, 2], [1]), ((2,), [1, 2], [2]), ((2,), [1], [1, 2]), ((2,), [2], [1, 2]), ((4,), [1, 2], [1, 2]), ((4,), [2], [2])]
        B = [((1, 2), [1, 2], [1, 2]), ((2, 2), [1, 2], [1, 2]), ((2, 2), [2, 3], [2, 3]), ((2, 2), [1, 2, 3], [1, 2, 3]), ((2, 2), [1, 2, 3], [2]),
             ((4, 2), [1, 2], [1, 2]), ((2, 2), [1, 3], [2]), ((2, 2), [2], [1, 2, 3])]
        C = [((1, 2, 2), [1, 2], [1, 2]), ((1, 2, 2), [2, 3], [2, 3])] + ([((2, 2, 2), [1, 2], [1, 2]), ((2, 2, 2), [2, 3, 4], [3])] if THOROUGH else [])
        for shape, rows, cols in A + B + C:
            for scale in (1, 2, .5):
                for rep in range(3 if THOROUGH else 1):
                    small = len(rows) + len(cols) <= 4 and scale == 1
                    relaxation(rec, shape, rows, cols, rng, scale, ('jacobi', 'nr', 'ne') + (('overrelax',) if small else ()))


run(main)
