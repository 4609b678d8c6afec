"""C21: block arrays, block operators (stencil) and block matrices (sparse) against their flat counterparts."""
from lib import *
import scipy.sparse


def layouts():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('layouts-'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    return sorted(((tuple(x['r']), tuple(x['c'])) for x in out))


def a_matrix(r, c, rng, special=True):
    k = rng.random() if special else 1
    if k < .2:
        return np.zeros((r, c), int)
    if k < .35 and r == c:
        return np.eye(r, dtype=int)
    if k < .5 and r == c:
        return np.diag([rng.randint(-3, 3) for _ in range(r)])
    return np.array([[rng.choice((0, 0, 1, -1, 2, -3)) for _ in range(c)] for _ in range(r)])


def a_blocks(rs, cs, rng):
    return [[a_matrix(r, c, rng) for c in cs] for r in rs]


def a_vec(rs, rng, nonzero=False):
    return [np.array([rng.choice((1, -1, 2, -2, 3, 5)) if nonzero else rng.randint(-5, 5) for _ in range(r)]) for r in rs]


def J(B):
    return [[ints(b) for b in row] for row in B]


def V(x):
    return [ints(b) for b in x]


BLANK = dict(lin=[], linT=[], lshape=[], square='')


# --- stencil ---------------------------------------------------------------------------------

def form_shape(s, rng):
    d = [f for f in range(1, s + 1) if s % f == 0]
    f = rng.choice(d)
    return rng.choice([(s,), (1, s), (f, s // f), (1, f, s // f), (f, 1, s // f)])


def an_operator(M, L, R, rng):
    from pycomplex.stencil import operator as op
    if not M.any() and rng.random() < .6:
        return op.ZeroOperator((L, R))
    if L == R and np.array_equal(M, np.eye(len(M))) and rng.random() < .6:
        return op.IdentityOperator(L)
    if L == R and np.array_equal(M, np.diag(np.diag(M))) and rng.random() < .6:
        return op.DiagonalOperator(np.diag(M).reshape(L).astype(float), L)
    M = M.astype(float)
    return op.StencilOperator(left=lambda y: (M.T @ y.reshape(-1)).reshape(R), right=lambda x: (M @ x.reshape(-1)).reshape(L), shape=(L, R))


def block_operator(B, Ls, Rs, rng):
    from pycomplex.stencil.block import BlockOperator
    ops = [[an_operator(B[i][j], Ls[i], Rs[j], rng) for j in range(len(Rs))] for i in range(len(Ls))]
    k = rng.randrange(3)
    if k == 0:
        return BlockOperator(ops, ndim=2)
    if k == 1:
        return BlockOperator(ops)
    A = BlockOperator.zeros(Ls, Rs)
    for i in range(len(Ls)):
        for j in range(len(Rs)):
            if not B[i][j].any():
                if rng.random() < .5:
                    A[i, j] = 0
            elif Ls[i] == Rs[j] and np.array_equal(B[i][j], np.eye(len(B[i][j]))) and rng.random() < .5:
                A[i, j] = 1
            else:
                A[i, j] = ops[i][j]
    return A


def proj_operator(lin=True):
    def f(A):
        n, m = A.block.shape
        d = dict(out=[[ints(A.block[i, j].to_dense()) for j in range(m)] for i in range(n)], flat=ints(A.to_dense()),
                 lshape=[[int(np.prod(s)) for s in ax] for ax in A.shape], square='yes' if A.is_square else 'no', lin=[], linT=[])
        form = [ax for ax in A.shape]
        if form[0] != form[1] and [int(np.prod(s)) for s in form[0]] == [int(np.prod(s)) for s in form[1]]:
            d['square'] = ''     # equal sizes, different shapes: not square, but the flat matrix is
        if lin:
            L = A.aslinearoperator()
            r, c = np.array(d['flat']).shape
            d['lin'] = ints(np.array([L.matvec(v) for v in np.eye(c)]).reshape(c, r).T)
            d['linT'] = ints(np.array([L.rmatvec(v) for v in np.eye(r)]).reshape(r, c).T)
        return d
    return f


def stencil_case(rec, rs, cs, rng):
    from pycomplex.stencil.block import BlockOperator, BlockArray
    rec.case('stencil-%s-%s-%d' % (','.join(map(str, rs)), ','.join(map(str, cs)), rec.n_cases))
    Ls, Rs = [form_shape(s, rng) for s in rs], [form_shape(s, rng) for s in cs]
    if rs == cs and rng.random() < .6:
        Rs = Ls
    B = a_blocks(rs, cs, rng)
    Bj = J(B)

    def A():
        return block_operator(B, Ls, Rs, rng)
    pj = proj_operator(rng.random() < .5)
    rec.call('blockmat', A, pj, how='build', A=Bj)
    rec.call('blockmat', lambda: A().transpose(), pj, how='transpose', A=Bj)
    rec.call('blockmat', lambda: rng.choice((A().copy, A().simplify))(), pj, how='keep', A=Bj)
    C = a_blocks(rs, cs, rng)
    rec.call('blockmat', lambda: A() + block_operator(C, Ls, Rs, rng), pj, how='add', A=Bj, B=J(C))
    ks = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3)))
    Ks = [form_shape(s, rng) for s in ks]
    D = a_blocks(cs, ks, rng)
    rec.call('blockmat', lambda: A() * block_operator(D, Rs, Ks, rng), pj, how='mul', A=Bj, B=J(D))
    i0, j0 = rng.randrange(len(rs)), rng.randrange(len(cs))
    i1, j1 = rng.randint(i0 + 1, len(rs)), rng.randint(j0 + 1, len(cs))
    rec.call('blockmat', lambda: A().__getslice__((slice(i0, i1), slice(j0, j1))), pj, how='slice', A=Bj,
             rows=list(range(i0 + 1, i1 + 1)), cols=list(range(j0 + 1, j1 + 1)))
    rec.call('blockmat', lambda: BlockOperator.zeros(Ls, Rs), pj, how='zeros', rs=list(rs), cs=list(cs))
    rec.call('blockmat', lambda: BlockOperator.identity(Ls), pj, how='identity', rs=list(rs), cs=list(rs))

    def pv(v):
        return dict(out=[ints(np.ravel(b)) for b in v.block], flat=ints(v.to_dense()))

    def arr(x, shapes):
        bs = [b.reshape(s).astype(rng.choice((float, np.float32))) for b, s in zip(x, shapes)]
        k = rng.randrange(3)
        if k == 0:
            return BlockArray(bs, ndim=1)
        if k == 1:
            return BlockArray(bs)
        o = np.empty(len(bs), object)
        for i, b in enumerate(bs):
            o[i] = b
        return BlockArray(o)
    x, y = a_vec(cs, rng), a_vec(cs, rng)
    rec.call('blockvec', lambda: A() * arr(x, Rs), pv, how='apply', A=Bj, x=V(x))
    rec.call('blockvec', lambda: arr(x, Rs), pv, how='build', x=V(x))
    z = [rng.randint(-9, 9) for _ in range(sum(cs))]
    rec.call('blockvec', lambda: arr(x, Rs).from_dense(np.array(z, float)), pv, how='restore', x=V(x), z=z)
    rec.call('blockvec', lambda: (lambda a: a.from_dense(a.to_dense()))(arr(x, Rs)), pv, how='keep', x=V(x))
    rec.call('blockvec', lambda: arr(x, Rs).copy(), pv, how='keep', x=V(x))
    rec.call('blockvec', lambda: arr(x, Rs) + arr(y, Rs), pv, how='add', x=V(x), y=V(y))
    rec.call('blockvec', lambda: arr(x, Rs) - arr(y, Rs), pv, how='sub', x=V(x), y=V(y))
    rec.call('blockvec', lambda: arr(x, Rs) * arr(y, Rs), pv, how='mul', x=V(x), y=V(y))
    rec.call('blockvec', lambda: arr(x, Rs) * -3, pv, how='scale', x=V(x), s=-3)
    rec.call('blockvec', lambda: arr(x, Rs).abs(), pv, how='abs', x=V(x))
    i = rng.randrange(len(cs))
    new = np.array([rng.choice((0, 1, 1, 0, -2, 7)) for _ in range(cs[i])], float)

    def assign():
        a = arr(x, Rs)
        a[i] = new.reshape(Rs[i])
        return a
    rec.call('blockvec', assign, pv, how='assign', x=V(x), i=i + 1, b=ints(new))
    rec.call('blockscalar', lambda: arr(x, Rs).sum(), lambda s: dict(out=ints(s)), how='sum', x=V(x))
    w = a_vec(cs, rng, nonzero=True)
    rec.call('blockdiv', lambda: arr(w, Rs).invert(), lambda v: dict(out=[rats(np.ravel(b), tol=1e-6) for b in v.block]), x=V(w), num=V([b * 0 + 1 for b in w]))


# --- sparse ----------------------------------------------------------------------------------

def a_sparse(M, rng):
    from pycomplex.sparse import sparse_zeros
    if not M.any() and rng.random() < .5:
        return sparse_zeros(M.shape)
    if M.shape[0] == M.shape[1] and np.array_equal(M, np.diag(np.diag(M))) and rng.random() < .5:
        return scipy.sparse.diags(np.diag(M))
    return rng.choice((scipy.sparse.csr_matrix, scipy.sparse.csc_matrix, scipy.sparse.coo_matrix))(M)


def proj_sparse(S):
    n, m = S.block.shape
    d = dict(BLANK, out=[[ints(S.block[i, j].todense()) for j in range(m)] for i in range(n)], flat=ints(S.merge().todense()),
             lshape=[[int(s) for s in ax] for ax in S.shape], square='yes' if S.square else 'no')
    return d


def proj_dense2(D):
    n, m = D.block.shape
    return dict(BLANK, out=[[ints(D.block[i, j]) for j in range(m)] for i in range(n)], flat=ints(D.merge()),
                lshape=[[int(s) for s in ax] for ax in D.shape])


def pv(v):
    return dict(out=[ints(np.ravel(b)) for b in v.block], flat=ints(np.ravel(v.merge())))


def sparse_case(rec, rs, cs, rng):
    from pycomplex.block import SparseBlockMatrix, DenseBlockArray
    rec.case('sparse-%s-%s-%d' % (','.join(map(str, rs)), ','.join(map(str, cs)), rec.n_cases))
    B = a_blocks(rs, cs, rng)
    Bj = J(B)

    def S(B):
        return SparseBlockMatrix([[a_sparse(b, rng) for b in row] for row in B])
    rec.call('blockmat', lambda: S(B), proj_sparse, how='build', A=Bj)
    rec.call('blockmat', lambda: S(B).transpose(), proj_sparse, how='transpose', A=Bj)
    rec.call('blockmat', lambda: S(B).copy(), proj_sparse, how='keep', A=Bj)
    C = a_blocks(rs, cs, rng)
    rec.call('blockmat', lambda: S(B) + S(C), proj_sparse, how='add', A=Bj, B=J(C))
    ks = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3)))
    D = a_blocks(cs, ks, rng)
    rec.call('blockmat', lambda: S(B) * S(D), proj_sparse, how='mul', A=Bj, B=J(D))
    rec.call('blockmat', lambda: S(B) * DenseBlockArray([[b.astype(float) for b in row] for row in D]), proj_dense2, how='mul', A=Bj, B=J(D))
    i0, j0 = rng.randrange(len(rs)), rng.randrange(len(cs))
    i1, j1 = rng.randint(i0 + 1, len(rs)), rng.randint(j0 + 1, len(cs))
    sel = dict(rows=list(range(i0 + 1, i1 + 1)), cols=list(range(j0 + 1, j1 + 1)))
    rec.call('blockmat', lambda: S(B)[i0:i1, j0:j1], proj_sparse, how='slice', A=Bj, **sel)
    for axis in (0, 1):
        rec.call('blockvec', lambda: S(B).norm_l1(axis=axis), pv, how='norm1', A=Bj, axis=axis)
    x, y = a_vec(cs, rng), a_vec(cs, rng)
    rec.call('blockvec', lambda: S(B) * DenseBlockArray(x), pv, how='apply', A=Bj, x=V(x))
    rec.call('blockmat', lambda: SparseBlockMatrix.as_diagonal(DenseBlockArray(x)), proj_sparse, how='diagonal', v=V(x))
    rec.call('blockmat', lambda: SparseBlockMatrix.diags(DenseBlockArray(x)), proj_sparse, how='diagonal', v=V(x))
    Q = a_blocks(rs, rs, rng)
    rec.call('blockvec', lambda: S(Q).diagonal(), pv, how='diagonalof', A=J(Q))

    rec.call('blockvec', lambda: DenseBlockArray(x), pv, how='build', x=V(x))
    rec.call('blockvec', lambda: DenseBlockArray(x).copy(), pv, how='keep', x=V(x))
    z = [rng.randint(-9, 9) for _ in range(sum(cs))]
    rec.call('blockvec', lambda: DenseBlockArray(x).split(np.array(z)), pv, how='restore', x=V(x), z=z)
    rec.call('blockvec', lambda: DenseBlockArray(x) + DenseBlockArray(y), pv, how='add', x=V(x), y=V(y))
    rec.call('blockvec', lambda: DenseBlockArray(x) * DenseBlockArray(y), pv, how='mul', x=V(x), y=V(y))
    rec.call('blockvec', lambda: DenseBlockArray(x) * 4, pv, how='scale', x=V(x), s=4)
    w = a_vec(cs, rng, nonzero=True)
    rec.call('blockdiv', lambda: DenseBlockArray(x) / DenseBlockArray(w), lambda v: dict(out=[rats(np.ravel(b)) for b in v.block]), x=V(w), num=V(x))
    rec.call('blockdiv', lambda: 1 / DenseBlockArray(w), lambda v: dict(out=[rats(np.ravel(b)) for b in v.block]), x=V(w), num=V([b * 0 + 1 for b in w]))

    def E(B):
        return DenseBlockArray([[b for b in row] for row in B])
    rec.call('blockmat', lambda: E(B), proj_dense2, how='build', A=Bj)
    rec.call('blockmat', lambda: E(B).transpose(), proj_dense2, how='transpose', A=Bj)
    rec.call('blockmat', lambda: (lambda a: a.split(a.merge()))(E(B)), proj_dense2, how='keep', A=Bj)
    rec.call('blockmat', lambda: E(B) + E(C), proj_dense2, how='add', A=Bj, B=J(C))
    rec.call('blockmat', lambda: E(B) * E(C), proj_dense2, how='had', A=Bj, B=J(C))
    rec.call('blockmat', lambda: E(B) * -2, proj_dense2, how='scale', A=Bj, s=-2)
    rec.call('blockmat', lambda: E(B)[i0:i1, j0:j1], proj_dense2, how='slice', A=Bj, **sel)


def main(rec):
    rng = random.Random(SEED * 7919 + 21)
    ls = layouts()
    extra = [((2, 2), (2, 2)), ((1, 1, 1), (1, 1, 1)), ((3, 3), (3,)), ((2, 2, 2), (2, 2)), ((4, 1, 2), (3, 3, 5)), ((5,), (1, 4)), ((1, 2, 3, 4), (4, 3, 2, 1))]
    for _ in range(60 if THOROUGH else 10):
        extra.append((tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 4))), tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 4)))))
    if not THOROUGH:
        ls = rng.sample(ls, min(60, len(ls)))
    for rs, cs in ls + extra:
        stencil_case(rec, rs, cs, rng)
        sparse_case(rec, rs, cs, rng)


run(main)
