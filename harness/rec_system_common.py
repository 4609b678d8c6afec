"""Projections of block systems and block vectors."""
from lib import *
from rec_stencil_common import val


def dense_blocks(A):
    n, m = A.block.shape
    return [[rats(np.asarray(A.block[i, j].to_dense()), maxden=4096, tol=1e-5) for j in range(m)] for i in range(n)]


def proj(s):
    return dict(val=dict(g=val(s.complex.topology), scale=rat(s.complex.scale), A=dense_blocks(s.A), B=dense_blocks(s.B),
                         L=ints(s.L), R=ints(s.R)))


def vec(v):
    return dict(out=[rats(np.ravel(b), maxden=4096, tol=1e-5) for b in v.block])


def fixed_point(v):
    out = []
    for b in v.block:
        b = np.ravel(np.asarray(b, float)) * 1024
        if not np.isfinite(b).all() or np.abs(b).max(initial=0) > 2e6:
            raise Inexact('relaxation left the range of sensible values')
        out.append([int(k) for k in np.rint(b)])
    return out


def some(shapes, rng, lo=-3, hi=3):
    from pycomplex.stencil.block import BlockArray
    return BlockArray([np.array([rng.randint(lo, hi) for _ in range(int(np.prod(s)))], float).reshape(s).astype(rng.choice((np.float32, np.float64)))
                       for s in shapes], ndim=1)
