from lib import *


def dense(A):
    return np.asarray(A.to_dense())


def val(t):
    """what the public interface says about a stencil topology"""
    D = t.primal
    return dict(shape=[int(s) for s in t.shape],
                symbols=[[[int(a) + 1 for a in s] for s in ss] for ss in t.symbols],
                sizes=[[int(x) for x in s] for s in t.n_elements],
                D=[sp(dense(d)) for d in D], dual=[sp(dense(d)) for d in t.dual], DT=[sp(dense(d.transpose())) for d in D])
