"""C20: expressions over stencil operators; the expressions come from MC_Algebra plus seeded deeper ones."""
from lib import *
from rec_stencil_common import val


def gen(label):
    f = os.path.join(os.environ.get('VERIF_GEN', ''), 'expr-%s.ndjson' % label)
    return [json.loads(x) for x in open(f)] if os.path.exists(f) else []


def build(c, t, rng):
    from pycomplex.stencil import operator as op
    k = t['k']
    size = c.topology.n_elements
    if k == 'D':
        return c.topology.primal[t['n']]
    if k == 'dual':
        return c.topology.dual[t['n']]
    if k == 'Z':
        return op.ZeroOperator((size[t['n']], size[t['m']]))
    if k == 'I':
        return op.IdentityOperator(size[t['n']])
    if k == 'diag':
        kind = rng.choice((op.DiagonalOperator, op.HodgeOperator))
        return kind(np.array([a / b for a, b in t['values']], dtype=float).reshape(size[t['n']]), size[t['n']])
    if k == 'H':
        return c.hodge[t['n']]
    if k == 'S':
        return c.smoothers(scale=True)[t['n']]
    if k in ('mul', 'add'):
        xs = [build(c, x, rng) for x in t['xs']]
        how = rng.randrange(3)
        if how == 0:
            return (op.ComposedOperator if k == 'mul' else op.CombinedOperator)(xs)
        f = (lambda a, b: a * b) if k == 'mul' else (lambda a, b: a + b)
        if how == 1:
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r
        r = xs[-1]
        for x in xs[-2::-1]:
            r = f(x, r)
        return r
    a = build(c, t['x'], rng)
    if k == 'T':
        return a.transpose() if rng.random() < .5 else a.T
    if k == 'simp':
        return a.simplify()
    if k == 'inv':
        return a.inverse() if rng.random() < .5 else a.I
    raise ValueError(k)


def type_of(t):
    k = t['k']
    if k == 'D':
        return t['n'] + 1, t['n']
    if k == 'dual':
        return t['n'], t['n'] + 1
    if k == 'Z':
        return t['n'], t['m']
    if k in ('I', 'diag', 'H', 'S'):
        return t['n'], t['n']
    if k == 'mul':
        return type_of(t['xs'][0])[0], type_of(t['xs'][-1])[1]
    if k == 'add':
        return type_of(t['xs'][0])
    a = type_of(t['x'])
    return a[::-1] if k == 'T' else a


class Maker(object):
    """random well-typed trees over one grid"""
    def __init__(self, N, sizes, scale, rng):
        self.N, self.sizes, self.scale, self.rng = N, sizes, scale, rng
        self.smooth = 0

    def diag(self, n, kind=None):
        rng = self.rng
        m = int(np.prod(self.sizes[n]))
        kind = kind or rng.choice(['int', 'int', 'dyadic', 'ones', 'zeros', 'sparse'])
        v = {'int': lambda: [rng.randint(-3, 3), 1], 'dyadic': lambda: rng.choice([[1, 2], [2, 1], [-1, 4], [1, 1]]),
             'ones': lambda: [1, 1], 'zeros': lambda: [0, 1], 'sparse': lambda: rng.choice([[0, 1], [0, 1], [1, 1]]),
             'tiny': lambda: rng.choice([[1, 2 ** 27], [-1, 2 ** 27], [0, 1]]), 'alltiny': lambda: [1, 2 ** 27],
             'near': lambda: rng.choice([[131073, 131072], [1, 1]]), 'allnear': lambda: [131073, 131072]}[kind]
        return dict(k='diag', n=n, values=[v() for _ in range(m)])

    def leaf(self, r, c):
        rng = self.rng
        opts = [lambda: dict(k='Z', n=r, m=c)] if rng.random() < .3 else []
        if r == c:
            opts += [lambda: dict(k='I', n=r), lambda: self.diag(r), lambda: self.diag(r), lambda: dict(k='H', n=r, scale=rat(self.scale)),
                     lambda: dict(k='inv', x=self.diag(r, 'dyadic')), lambda: dict(k='inv', x=dict(k='H', n=r, scale=rat(self.scale))),
                     lambda: dict(k='inv', x=dict(k='I', n=r))]
            if self.smooth < 2:
                opts.append(self._smooth(r))
        if r == c + 1:
            opts += [lambda: dict(k='D', n=c)] * 2 + [lambda: dict(k='T', x=dict(k='dual', n=c))]
        if c == r + 1:
            opts += [lambda: dict(k='dual', n=r)] * 2 + [lambda: dict(k='T', x=dict(k='D', n=r))]
        return rng.choice(opts or [lambda: dict(k='Z', n=r, m=c)])()

    def _smooth(self, r):
        def f():
            self.smooth += 1
            return dict(k='S', n=r)
        return f

    def tree(self, r, c, leaves):
        rng = self.rng
        if leaves <= 1:
            t = self.leaf(r, c)
        else:
            x = rng.random()
            if x < .15:
                return dict(k='T', x=self.tree(c, r, leaves))
            if x < .25:
                return dict(k='simp', x=self.tree(r, c, leaves))
            m = min(leaves, rng.choice((1, 2, 2, 3)))
            cut = sorted(rng.sample(range(1, leaves), m - 1)) if m > 1 else []
            parts = [b - a for a, b in zip([0] + cut, cut + [leaves])]
            if m == 1 and rng.random() < .7:
                return self.tree(r, c, leaves)
            if x < .5:
                return dict(k='add', xs=[self.tree(r, c, p) for p in parts])
            # a walk of degrees from r to c
            ds = [r]
            for i in range(m - 1):
                ds.append(rng.choice([d for d in (ds[-1] - 1, ds[-1], ds[-1], ds[-1] + 1) if 0 <= d <= self.N]))
            ds.append(c)
            t = dict(k='mul', xs=[self.tree(a, b, p) for a, b, p in zip(ds[:-1], ds[1:], parts)])
        return t


def as_mat(A, **kw):
    return rats(np.asarray(A.to_dense(), dtype=float), **kw)


def event(rec, c, t, rng, maxden=65536, tol=1e-7):
    def fn():
        return build(c, t, rng)
    ty = type_of(t)
    size = c.topology.n_elements
    x = [[rng.randint(-3, 3), rng.choice((1, 1, 2)) if maxden == 65536 else 1] for _ in range(int(np.prod(size[ty[1]])))]
    xv = np.array([a / b for a, b in x]).reshape(size[ty[1]])

    def project(A):
        kw = dict(maxden=maxden, tol=tol)
        L = A.aslinearoperator()
        r, q = [int(np.prod(s)) for s in A.shape]
        lin = np.array([L.matvec(v) for v in np.eye(q)]).reshape(q, r).T
        linT = np.array([L.rmatvec(v) for v in np.eye(r)]).reshape(r, q).T
        d = getattr(A, 'diagonal', None)
        if d is not None:
            if callable(d):
                d = d()
            d = rats(np.ravel(np.broadcast_to(d, A.shape[0])), **kw)
        return dict(shape=[[int(a) for a in s] for s in A.shape], dense=as_mat(A, **kw), simplified=as_mat(A.simplify(), **kw),
                    denseT=as_mat(A.transpose(), **kw), simplifiedT=as_mat(A.T.simplify(), **kw), denseTT=as_mat(A.transpose().transpose(), **kw),
                    linear=rats(lin, **kw), linearT=rats(linT, **kw), y=rats(np.ravel(A(xv)), **kw), diagonal=d or [])
    rec.call('expr', fn, project, of='G', t=t, x=x)


def refusal(rec, c, mk, rng):
    N = mk.N
    size = c.topology.n_elements
    a = mk.tree(rng.randint(0, N), rng.randint(0, N), rng.choice((1, 1, 2)))
    b = mk.tree(rng.randint(0, N), rng.randint(0, N), rng.choice((1, 1, 2)))
    how = rng.choice(('mul', 'add', 'apply'))
    try:
        A, B = build(c, a, rng), build(c, b, rng)
    except Exception:
        event(rec, c, a, rng)
        event(rec, c, b, rng)
        return
    if how == 'apply':
        good = size[type_of(a)[1]]
        arg = rng.choice([size[rng.randint(0, N)], good, tuple(good) + (1,), good[1:], tuple(s + 1 for s in good), (good[0] + 1,) + good[1:]])
        x = np.zeros(arg)
        rec.call('refuse', lambda: A(x), of='G', a=a, b=b, how=how, arg=[int(q) for q in arg])
    else:
        rec.call('refuse', lambda: A * B if how == 'mul' else A + B, of='G', a=a, b=b, how=how, arg=[])


def main(rec):
    from pycomplex.stencil.complex import StencilComplex
    rng = random.Random(SEED * 7919 + 20)

    def grid(name, shape, scale=1):
        rec.case('%s-%s' % (name, 'x'.join(map(str, shape))))
        return rec.call('stencil', lambda: StencilComplex.from_shape(tuple(shape), scale=scale), lambda c: dict(val=val(c.topology)), h='G', shape=list(shape))

    for label, count in (('a', 500), ('b', 120), ('c', 250), ('w', 600), ('x', 200)):
        es = gen(label)
        if not THOROUGH:
            es = rng.sample(es, min(len(es), count))
        for i in range(0, len(es), 60):
            c = grid('model-%s-%d' % (label, i), es[i]['shape'])
            if c is None:
                continue
            for e in es[i:i + 60]:
                event(rec, c, e['t'], rng)
    for rep in range(120 if THOROUGH else 16):
        shape = rng.choice([(2,), (3,), (4,), (1, 2), (2, 2), (3, 2), (1, 1, 2), (2, 1, 2)])
        scale = rng.choice([1, 2, .5])
        c = grid('deep%d' % rep, shape, scale)
        if c is None:
            continue
        N = len(shape)
        mk = Maker(N, c.topology.n_elements, scale, rng)
        for _ in range(14):
            mk.smooth = 0
            event(rec, c, mk.tree(rng.randint(0, N), rng.randint(0, N), rng.choice((2, 3, 4, 5))), rng)
        # factors that would vanish or cancel if they stood side by side, kept apart by diagonal ones
        for _ in range(8):
            n = rng.randint(0, N - 1)
            m = rng.randint(0, N)
            k = rng.choice(('primal', 'primal', 'dual', 'back', 'inverse', 'zero') if N > 1 else ('back', 'inverse', 'zero'))
            if k in ('primal', 'dual'):
                n = rng.randint(0, N - 2)
                first, between, last = dict(k='D', n=n + 1), n + 1, dict(k='D', n=n)
                if k == 'dual':
                    first, last = dict(k='dual', n=n), dict(k='dual', n=n + 1)
            elif k == 'back':
                first, between, last = dict(k='dual', n=n), n + 1, dict(k='D', n=n)
            elif k == 'inverse':
                d = mk.diag(m, 'dyadic')
                first, between, last = d, m, dict(k='inv', x=d)
            else:
                first, between, last = mk.diag(m, 'zeros'), m, mk.leaf(m, m)
            xs = [first] + [mk.diag(between, rng.choice(('int', 'dyadic', 'sparse', 'ones'))) for _ in range(rng.choice((1, 1, 1, 2)))] + [last]
            t = dict(k='mul', xs=xs)
            t = rng.choice([t, t, dict(k='T', x=t), dict(k='simp', x=t), dict(k='add', xs=[t, t])])
            mk.smooth = 0
            event(rec, c, t, rng)
        for _ in range(12):
            refusal(rec, c, mk, rng)
        # one special factor: nearly zero, or nearly one
        for kind in ('tiny', 'alltiny', 'near', 'allnear'):
            n = rng.randint(0, N)
            s = mk.diag(n, kind)
            others = [rng.choice([dict(k='I', n=n), mk.diag(n, 'ones'), mk.diag(n, 'sparse')])]
            xs = [s] + others * rng.randint(0, 1)
            rng.shuffle(xs)
            if n < N and rng.random() < .5:
                xs = [dict(k='D', n=n)] + xs
            t = rng.choice([s, dict(k='mul', xs=xs), dict(k='simp', x=dict(k='mul', xs=xs)), dict(k='T', x=dict(k='mul', xs=xs))])
            event(rec, c, t, rng, maxden=2 ** 27 if 'tiny' in kind else 131072, tol=2e-10 if 'tiny' in kind else 1e-8)


run(main)
