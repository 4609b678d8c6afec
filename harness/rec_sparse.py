"""C26: the sparse array class and the helpers around sparse matrices and index arrays."""
from lib import *
import scipy.sparse


def tensors():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('tensors-'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    return sorted(out, key=lambda t: json.dumps(t, sort_keys=True))


def uniq(t):
    return len(set(map(tuple, t['k']))) == len(t['k'])


def build(t, dtype=int):
    from pycomplex.sparse import Sparse
    k = np.array(t['k'], int).reshape(-1, t['n'])
    return Sparse([k[:, a] for a in range(t['n'])], np.array(t['d'], dtype=dtype))


def proj(s):
    return dict(out=dict(n=int(s.ndim), k=[list(map(int, r)) for r in zip(*[ints(a) for a in s.axes])], d=ints(s.data)), nnz=int(s.nnz))


def table(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return [] if np.isnan(a) else [ints(a)]
    return [table(b) for b in a]


def random_tensor(rng, n, size, labels, repeat):
    ks = []
    while len(ks) < size:
        k = [rng.choice(labels) for _ in range(n)]
        if repeat or k not in ks:
            ks.append(k)
    return dict(n=n, k=ks, d=[rng.choice((1, -1, 2, -3, 5)) for _ in ks])


def unary(rec, t, rng):
    dt = rng.choice((int, float, np.int8))
    S = lambda: build(t, dt)
    rec.call('tensor', lambda: S().T, proj, how='T', A=t)
    s = rng.choice((2, -3, 0))
    rec.call('tensor', lambda: S() * rng.choice((s, float(s))), proj, how='scale', A=t, s=s)
    rec.call('tensor', lambda: S().astype(rng.choice((float, np.int32))), proj, how='keep', A=t)
    c = rng.randint(-3, 3)
    rec.call('tensor', lambda: S().filter(lambda d: d > c), proj, how='above', A=t, s=c)
    if uniq(t) and t['k']:
        rec.call('totable', lambda: S().todense(), lambda r: dict(axes=[ints(x) for x in r[0]], table=table(r[1])), A=t)


def binary(rec, a, b, rng):
    dt = rng.choice((int, float))
    A, B = (lambda: build(a, dt)), (lambda: build(b))
    if a['n'] == b['n']:
        rec.call('tensor', lambda: A() + B(), proj, how='add', A=a, B=b)
        rec.call('tensor', lambda: A().concatenate(B()), proj, how='concat', A=a, B=b)
        if uniq(a) and uniq(b):
            rec.call('tensor', lambda: A() * B(), proj, how='mul', A=a, B=b)
    if a['n'] <= 2 and b['n'] <= 2 and a['n'] + b['n'] > 2:
        rec.call('tensor', lambda: A().dot(B()), proj, how='dot', A=a, B=b)


def matrices(rec, rng):
    from pycomplex import sparse
    from pycomplex.topology import util
    r, c = rng.randint(1, 6), rng.randint(1, 6)
    M = np.array([[rng.choice((0, 0, 0, 1, -1, 2, -3, 4)) for _ in range(c)] for _ in range(r)])
    rows = [[[j + 1, int(M[i, j])] for j in range(c) if M[i, j]] for i in range(r)]

    def S(kinds=(scipy.sparse.csr_matrix, scipy.sparse.csc_matrix, scipy.sparse.coo_matrix)):
        return rng.choice(kinds)(M.astype(rng.choice((int, float, np.int8))))

    def out(x):
        return dict(out=spr(x))
    for axis in (0, 1):
        rec.call('sparsehelper', lambda: sparse.normalize_l1(S(), axis) if axis == 0 or rng.random() < .5 else sparse.normalize_l1(S()), out, how='normalize', A=rows, axis=axis, shape=[r, c])
    rec.call('sparsehelper', lambda: sparse.ones_like(S()), out, how='ones', A=rows, shape=[r, c])
    k = rng.randint(0, 3)
    rec.call('sparsehelper', lambda: rng.choice((lambda: sparse.sparse_zeros((r, c)), lambda: sparse.zeros_like(S()), lambda: sparse.zeros_like(M)))(), out, how='zeros', shape=[r, c])
    d = [rng.choice((1, 2, -4, 5, -3)) for _ in range(r)]
    rec.call('sparsehelper', lambda: sparse.inv_diag(scipy.sparse.diags(np.array(d, rng.choice((int, float))))), out, how='invert', A=[[[i + 1, v]] for i, v in enumerate(d)], shape=[r, r])
    m = [rng.random() < .5 for _ in range(c)]
    mm = rng.choice((np.array(m), np.array(m, int) * rng.choice((1, 3, -1)), np.array(m, float)))
    rec.call('sparsehelper', lambda: util.selection_matrix(mm), out, how='select', mask=m, shape=[sum(m), c])
    q = rng.randint(1, 12)
    i, j = [rng.randrange(r) for _ in range(q)], [rng.randrange(c) for _ in range(q)]
    rec.call('sparsehelper', lambda: util.transfer_matrix(np.array(i), np.array(j), (r, c)), out, how='transfer', i=[x + 1 for x in i], j=[x + 1 for x in j], shape=[r, c])
    n, w = rng.randint(1, 5), rng.randint(1, 4)
    top = w + rng.randint(0, 3)
    els = [rng.sample(range(top), w) for _ in range(n)]
    sg = [[rng.choice((1, -1)) for _ in range(w)] for _ in range(n)]
    shape = [max(map(max, els)) + 1, n]
    f = rng.choice((lambda a: a, lambda a: a.reshape(n, w, 1)))
    rec.call('sparsehelper', lambda: util.topology_matrix(f(np.array(els)), f(np.array(sg))), out, how='incidence', els=[[x + 1 for x in e] for e in els], sg=sg, shape=shape)
    P = np.zeros((n, top), int)
    for a, e in enumerate(els):
        P[a, e] = sg[a]
    rec.call('aselements', lambda: util.sparse_to_elements(rng.choice((scipy.sparse.csr_matrix, scipy.sparse.csc_matrix, scipy.sparse.coo_matrix))(P)),
             lambda e: dict(out=cells(e)), A=[[[int(x) + 1, int(P[a, x])] for x in range(top) if P[a, x]] for a in range(n)])


def index_arrays(rec, rng):
    from pycomplex.topology import util
    w, top = rng.randint(1, 4), rng.randint(4, 7)
    seen = {}
    for _ in range(rng.randint(1, 9)):
        e = rng.sample(range(top), w)
        seen.setdefault(tuple(sorted(e)), e)
    this = list(seen.values())
    that = [rng.sample(x, w) for x in [rng.choice(this) for _ in range(rng.randint(1, 8))]]
    shaped = rng.choice([lambda a: np.array(a)] + [lambda a: np.array(a).reshape((len(a),) + ((2, 2) if w == 4 else (w, 1) if w > 1 else (1,)))])
    rec.call('lookup', lambda: util.element_indices(shaped(this), shaped(that)), lambda i: dict(out=[int(x) + 1 for x in np.asarray(i).reshape(-1)]),
             this=this, that=that)
    if w > 1 and len(that) > 1:      # a table of elements
        tt = np.array(that * 2).reshape(2, len(that), w)
        rec.call('lookup', lambda: util.element_indices(np.array(this), tt), lambda i: dict(out=[int(x) + 1 for x in np.asarray(i).reshape(-1)], dims=list(np.shape(i))), this=this, that=that * 2)
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    arr = np.array([[rng.randint(-4, 9) for _ in range(m)] for _ in range(n)])
    for axis in (0, 1):
        sw = (lambda a: np.asarray(a).T) if axis == 0 else np.asarray
        rec.call('sortrows', lambda: util.sort_and_argsort(arr, axis), lambda r: dict(out=ints(sw(r[0])), perm=cells(sw(r[1]))), arr=ints(sw(arr)))
    a = [rng.sample(range(m), m) for _ in range(n)]
    b = [rng.sample(range(m), m) for _ in range(n)]
    rec.call('relperm', lambda: util.relative_permutations(np.array(a), np.array(b)), lambda r: dict(out=cells(r)), a=[[x + 1 for x in r] for r in a], b=[[x + 1 for x in r] for r in b])
    shape = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    rec.call('gridindices', lambda: util.indices(tuple(shape)), lambda r: dict(out=[ints(x) for x in r]), shape=shape)
    from pycomplex.util import pairs, accumulate
    import operator
    x = [rng.randint(-3, 4) for _ in range(rng.randint(0, 6))]
    rec.call('iter', lambda: list(pairs(rng.choice((list, tuple, iter))(x))), lambda r: dict(out=[list(p) for p in r]), how='pairs', x=x)
    rec.call('iter', lambda: list(accumulate(x)), lambda r: dict(out=r), how='sums', x=x)
    rec.call('iter', lambda: list(accumulate(iter(x), operator.mul)), lambda r: dict(out=r), how='products', x=x)


def main(rec):
    from pycomplex.sparse import multi_indices, Sparse
    rng = random.Random(SEED * 7919 + 26)
    ts = tensors()
    pairs = [(a, b) for a in ts for b in ts]
    if not THOROUGH:
        pairs = rng.sample(pairs, min(900, len(pairs)))
    for t in ts:
        rec.case('entries-%d' % rec.n_cases)
        unary(rec, t, rng)
    for a, b in pairs:
        rec.case('pair-%d' % rec.n_cases)
        binary(rec, a, b, rng)
    for _ in range(900 if THOROUGH else 150):
        rec.case('larger-%d' % rec.n_cases)
        n = rng.choice((1, 2, 2, 2, 3, 4))
        labels = rng.choice((range(3), range(6), (-2, 0, 7, 11)))
        a, b = [random_tensor(rng, n, rng.randint(0, min(12, len(labels) ** n)), labels, rng.random() < .4) for _ in 'ab']
        unary(rec, a, rng)
        binary(rec, a, b, rng)
        v = random_tensor(rng, 1, rng.randint(0, 3), labels, rng.random() < .4)
        if n == 2:
            binary(rec, a, v, rng)
            binary(rec, v, b, rng)
        i, j = [[rng.choice(labels) for _ in range(rng.randint(1, 7))] for _ in 'ij']
        rec.call('matchpairs', lambda: multi_indices(np.array(i), np.array(j)), lambda r: dict(i=[int(x) + 1 for x in r[0]], j=[int(x) + 1 for x in r[1]]), a=i, b=j)
        shape = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        D = np.array([rng.randint(-4, 4) for _ in range(int(np.prod(shape)))]).reshape(shape)
        rec.call('fromtable', lambda: Sparse.fromdense(D), proj, shape=shape, size=int(D.size), table=ints(D))
        rec.call('fromtable', lambda: Sparse.fromdense(D).T.T, proj, shape=shape, size=int(D.size), table=ints(D))
    for _ in range(600 if THOROUGH else 120):
        rec.case('helpers-%d' % rec.n_cases)
        matrices(rec, rng)
        index_arrays(rec, rng)


run(main)
