"""C23: multigrid cycles over mock equations (spec behaviours replayed, seeded larger ones) and real hierarchies."""
from lib import *
MP = 8191


def programs():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('prog-MC_Multigrid'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    return out


class Mock(object):
    """an abstract equation; every value is an integer vector modulo MP in one of several containers"""
    def __init__(self, level, q, wrap, log):
        self.level, self.wrap, self.log = level, wrap, log
        self.M = {k: np.array(v, dtype=np.int64) for k, v in q.items()}

    def flat(self, v):
        if hasattr(v, 'block'):
            v = np.concatenate([np.ravel(b) for b in v.block])
        return np.mod(np.asarray(v).ravel().astype(np.int64), MP)

    def ap(self, k, v):
        return np.mod(self.M[k] @ self.flat(v), MP)

    def _residual(self, x, y):
        return np.mod(self.ap('A', x) - self.flat(y), MP)

    def residual(self, x, y):
        return self.wrap(self._residual(x, y))

    def smooth(self, x, y):
        self.log.append([self.level, 'smooth'])
        return self.wrap(np.mod(self.flat(x) - np.mod(self.M['S'] @ self._residual(x, y), MP), MP))

    def restrict(self, y):
        self.log.append([self.level, 'restrict'])
        return self.wrap(self.ap('R', y))

    def interpolate(self, x):
        self.log.append([self.level, 'interpolate'])
        return self.wrap(self.ap('P', x))

    def solve(self, y, x=None):
        self.log.append([self.level, 'solve'])
        r = self.ap('C', y)
        if x is not None:
            r = r + self.ap('D', x)
        return self.wrap(np.mod(r, MP))


def wraps(rng):
    from pycomplex.stencil.block import BlockArray

    def blocks(v):
        k = len(v) // 2
        return BlockArray([v[:k].astype(float), v[k:].astype(float)] if k else [v.astype(float)], ndim=1)
    return rng.choice([lambda v: v, lambda v: v.astype(float), lambda v: v.reshape(1, -1), blocks])


def cycle(rec, p, rng, ltype=None):
    from pycomplex.stencil import multigrid as mg
    log = []
    wrap = wraps(rng) if p['how'] != 'precondition' else (lambda v: v)
    hs = [Mock(i + 1, q, wrap, log) for i, q in enumerate(p['h'])]
    y = wrap(np.array(p['y'], dtype=np.int64))
    x = wrap(np.array(p['x'], dtype=np.int64)) if p['x'] else None
    flat = hs[0].flat

    def go():
        how, its = p['how'], p['its']
        if how == 'v':
            r = mg.v_cycle(hs, y, x) if rng.random() < .5 else mg.v_cycle(hierarchy=hs, y=y, x=x)
        elif how == 'repeat':
            r = mg.solve_v_cycle(hs, y, x, its) if rng.random() < .5 else mg.solve_v_cycle(hs, y, x=x, iterations=its)
        elif how == 'full':
            r = mg.solve_full_cycle(hs, y, its) if rng.random() < .5 else mg.solve_full_cycle(hs, y=y, iterations=its)
        else:
            hs[-1].operators = (np.eye(len(p['y'])), None, Times(p['Bi']))
            L = mg.as_preconditioner(hs)
            del log[:]
            r = L.matvec(np.array(p['y'], float))
        return dict(out=[int(k) for k in flat(r)], log=list(log), y_after=[int(k) for k in flat(y)], x_after=[int(k) for k in flat(x)] if p['x'] else [])
    rec.call('cycle', go, lambda d: d, **p)


class Times(object):
    def __init__(self, M):
        self.M = np.array(M)

    def __mul__(self, y):
        return np.mod(self.M @ np.mod(np.asarray(y).ravel().astype(np.int64), MP), MP)


def matrix(r, c, rng):
    return [[rng.choice((0, 1, 1, 2, 3, MP - 1, 5)) for _ in range(c)] for _ in range(r)]


def seeded(rng, levels):
    n = [rng.randint(1, 3) for _ in range(levels)]
    h = []
    for i in range(levels):
        k, c = n[i], n[max(0, i - 1)]
        h.append(dict(A=matrix(k, k, rng), S=matrix(k, k, rng), R=matrix(c, k, rng), P=matrix(k, c, rng), C=matrix(k, k, rng), D=matrix(k, k, rng)))
    return h, n[-1]


def real(rec, shape, levels, rng):
    from pycomplex.stencil.complex import StencilComplex, StencilComplex2D
    from pycomplex.stencil.diffusion import Diffusion
    from pycomplex.stencil import multigrid as mg
    from rec_stencil_common import val
    import rec_system_common as rs
    rec.case('real-%s-%d-%d' % ('x'.join(map(str, shape)), levels, rec.n_cases))
    cls = {2: StencilComplex2D}.get(len(shape), StencilComplex)
    c = rec.call('stencil', lambda: cls.from_shape(shape), lambda c: dict(val=val(c.topology)), h='G', shape=list(shape))
    t = c.topology
    f = dict(constraint=np.ones(t.n_elements[0]) * .5, conductance=np.ones(t.n_elements[1]), resistance=np.ones(t.n_elements[1]), foo=np.ones(t.n_elements[1]))
    f['resistance'].flat[rng.randrange(f['resistance'].size)] = 2
    q = rec.call('system', lambda: Diffusion.formulate(c, f), lambda q: rs.proj(q.system), h='S', of='G', how='diffusion', kind='first', scale=[1, 1],
                 fields={k: rats(np.ravel(v)) for k, v in f.items()})
    if q is None:
        return
    hs = rec.call('levels', lambda: q.hierarchy(levels), lambda hs: dict(levels=[levels + 1 - int(np.log2(shape[0] // e.complex.shape[0])) for e in hs]), n=levels)
    if hs is None:
        return
    size = c.n_elements
    for rep in range(2):
        x = rs.some([size[n] for n in q.system.R], rng)
        y = q.system.A * x
        for how, fn in (('v', lambda: mg.v_cycle(hs, y, x)), ('repeat', lambda: mg.solve_v_cycle(hs, y, x, iterations=2))):
            xj, yj = rs.vec(x)['out'], rs.vec(y)['out']
            rec.call('relax', fn, lambda r: dict(out=rs.fixed_point(r), x_after=rs.vec(x)['out'], y_after=rs.vec(y)['out']), of='S', how='vcycle', x=xj, y=yj, fixed=True)


def main(rec):
    rng = random.Random(SEED * 7919 + 23)
    ps = programs()
    if not THOROUGH:
        ps = rng.sample(ps, min(500, len(ps)))
    for i, p in enumerate(ps):
        if i % 20 == 0:
            rec.case('behaviours-%d' % i)
        cycle(rec, p, rng)
    for i in range(1500 if THOROUGH else 200):
        rec.case('seeded-%d' % i)
        h, n = seeded(rng, rng.randint(1, 5))
        for rep in range(2):
            how = rng.choice(('v', 'v', 'repeat', 'full', 'full', 'precondition'))
            its = rng.randint(0, 3)
            p = dict(h=h, how=how, its=its, y=[rng.randrange(100) for _ in range(n)],
                     x=[rng.randrange(100) for _ in range(n)] if how in ('v', 'repeat') and (rng.random() < .7 or (how == 'repeat' and its == 0)) else [])
            if how == 'precondition':
                p['Bi'] = matrix(n, n, rng)
            cycle(rec, p, rng)
    for shape, levels in [((4,), 1), ((8,), 2), ((4, 4), 1), ((4, 4), 2)] + ([((8, 8), 2), ((16,), 3), ((8, 4), 2)] if THOROUGH else []):
        real(rec, shape, levels, rng)


run(main)
