"""C33: dense helpers of linear algebra and geometry, one batch at a time."""
from rec_weighted import *
from pycomplex.math import linalg
from pycomplex import solvers
from pycomplex.geometry import euclidian, regular as grid
import itertools


def replay(label, count):
    d = os.environ.get('VERIF_GEN', '')
    f = os.path.join(d, 'matrices-%s.ndjson' % label)
    ms = [json.loads(x)['a'] for x in open(f)] if os.path.exists(f) else []
    ms.sort()
    return ms if len(ms) <= count else rng.sample(ms, count)


def shape_of(n):
    """an array shape holding n entries"""
    opts = [(n,), (1, n), (n, 1)] + [(a, n // a) for a in (2, 3, 4) if n % a == 0]
    if n == 1:
        opts += [(), ()]
    return rng.choice(opts)


def whole(x, tol=1e-6):
    r = int(round(float(x)))
    if not np.isfinite(x) or abs(r - x) > tol * max(1, abs(r)):
        raise Inexact('%r is not an integer' % x)
    if abs(r) > 10 ** 6:
        raise Inexact('%r is far too large' % x)
    return r


def wholes(a, tol=1e-6):
    a = np.asarray(a)
    return whole(a, tol) if a.ndim == 0 else [wholes(b, tol) for b in a]


def qmat(a, **kw):
    """rational matrix -> [D, rows]"""
    a = np.asarray(a)
    D, x = geo.point(a.ravel(), **dict(dict(maxden=500, tol=1e-8), **kw))
    if any(abs(y) > 8000 for y in x):
        raise Inexact('far too large')
    return [D, np.array(x, dtype=object).reshape(a.shape).tolist()]


def ratio(x, maxden=20000):
    return rat(x, maxden=maxden)


def entries(out, s, project):
    out = np.asarray(out)
    if out.shape[:len(s)] != tuple(s):
        raise AssertionError('batch of shape %r became %r' % (s, out.shape))
    out = out.reshape((-1,) + out.shape[len(s):])
    return [project(x) for x in out]


def batch(rec, name, fn, args, project, extra=None, lists=False, key='a', unit=None):
    """fn on a batch of args; args is a list of tuples of arrays, one per entry.
    unit: powers of the unit of length in every argument, and in the answer; entries may come in units of their own"""
    n = len(args)
    s = shape_of(n)
    cols = []
    units = np.array([2. ** rng.choice((0, 0, 7, -7, 20, -20)) for _ in args]) if unit and rng.random() < .5 else None
    for k in range(len(args[0])):
        a = np.array([x[k] for x in args])
        if units is not None:
            a = a * (units ** unit[0][k]).reshape((n,) + (1,) * (a.ndim - 1))
        a = a.reshape(s + a.shape[1:])
        if rng.random() < .6:
            a = a.astype(float)
        if a.ndim and rng.random() < .3:
            a = np.swapaxes(np.swapaxes(a, -1, 0).copy(), -1, 0)
        elif a.ndim and rng.random() < .2:
            a = np.repeat(a, 2, axis=-1)[..., ::2]
        cols.append(a)
    given = [a.copy() for a in cols]
    if lists and rng.random() < .25:
        cols = [a.tolist() for a in cols]

    def get():
        outs = entries(fn(*cols), s, lambda x: x)
        outs = [project(o if units is None else o / u ** unit[1]) for o, u in zip(outs, np.ones(n) if units is None else units)]
        keep = all(np.array_equal(np.asarray(a), b) for a, b in zip(cols, given))
        es = []
        for x, o in zip(args, outs):
            e = dict(zip(key, x)) if extra is None else extra(*x)
            e['out'] = o
            es.append(e)
        return dict(entries=es, kept=keep, batch=n)
    rec.call('dense', get, lambda d: d, name=name)


def chunks(xs):
    xs = list(xs)
    rng.shuffle(xs)
    while xs:
        k = rng.choice([1, 1, 2, 3, 4, 6, 8])
        yield xs[:k]
        xs = xs[k:]


def rint(d, lo=-3, hi=3):
    return [rng.randint(lo, hi) for _ in range(d)]


def vectors(rec, n):
    rec.case('vectors')
    for _ in range(n):
        d = rng.randint(1, 4)
        args = [(rint(d), rint(d)) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
        batch(rec, 'dot', linalg.dot, args, whole, lists=True, key='ab', unit=rng.choice([((1, 0), 1), ((0, 1), 1), ((1, 1), 2)]))
        axis = rng.choice([-1, -1, 0])
        zeros = rng.random() < .5
        vs = [rint(d) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
        if not zeros:
            vs = [v if any(v) else [1] + [0] * (d - 1) for v in vs]
        elif len(vs) > 1:
            vs[0] = [0] * d

        def norms(ord, which):
            def f(a):
                a = np.asarray(a)
                if axis == 0 and a.ndim > 1:
                    r = linalg.normalized(np.moveaxis(a, -1, 0), 0, ord, ignore_zeros=zeros, return_norm=which)
                    return r[1] if which else np.moveaxis(r, 0, -1)
                kw = dict(ord=ord) if ord != 2 or rng.random() < .5 else {}
                r = linalg.normalized(a, ignore_zeros=zeros, return_norm=which, **kw)
                return r[1] if which else r
            return f
        for ord, nm in ((2, '2'), (1, '1'), (np.inf, 'max')):
            sq = (lambda x: x * abs(x)) if ord == 2 else (lambda x: x)
            batch(rec, 'norm' + nm, norms(ord, False), [(v,) for v in vs], lambda x: [ratio(sq(y)) for y in x], lists=True, unit=((1,), 0))
            batch(rec, 'norms' + nm, norms(ord, True), [(v,) for v in vs], lambda x: whole(sq(float(x))), lists=True, unit=((1,), 1))


def sizes(a):
    return any(x for r in a for x in r)


def distinct(a):
    w = np.linalg.eigvals(np.array(a, float))
    return all(abs(x - y) > .2 for i, x in enumerate(w) for y in w[:i])


def matrices(rec, count):
    """matrices of the bounded models"""
    for label in 'lqtr':
        for i, part in enumerate(chunks(replay(label, count[label]))):
            if i % 20 == 0:
                rec.case('matrices-%s-%d' % (label, i // 20))
            flip = label in 'lr' and rng.random() < .4     # tall ones as well
            ms = [np.array(a).T.tolist() for a in part] if flip else part
            nz = [(a,) for a in ms if sizes(a)]
            if nz:
                batch(rec, 'pinv', linalg.pinv, nz, qmat, unit=((1,), -1))
            if label == 't':
                batch(rec, 'adjoint', linalg.adjoint, [(a,) for a in ms], wholes, unit=((1,), len(ms[0]) - 1))
                batch(rec, 'null', linalg.null, [(a,) for a in ms], wholes)
                ok = [(a,) for a in ms if geo.det(a) != 0]
                if ok:
                    batch(rec, 'inverse', linalg.inverse, ok, qmat, unit=((1,), -1))
                    batch(rec, 'inverse_transpose', linalg.inverse_transpose, ok, qmat, unit=((1,), -1))
            if label in 'qt':
                ok = [(a, p) for a in ms if distinct(a) for p in [rng.choice([0, 1, 2, 3, -1, -2])] if p >= 0 or geo.det(a) != 0]
                if ok:
                    if rng.random() < .5:
                        batch(rec, 'power', linalg.power, ok, qmat, key='ap')
                    else:
                        p = ok[0][1]
                        ok = [(a,) for a, q in ok if p >= 0 or geo.det(a) != 0]
                        batch(rec, 'power', lambda a: linalg.power(a, p), ok, qmat, extra=lambda a: dict(a=a, p=p))
                # roots of squares of positive definite matrices; closest rotations
                sym = [np.dot(np.array(a), np.array(a).T) + np.eye(len(a), dtype=int) * rng.choice([0, 1]) for a in ms]
                sym = [b for b in sym if geo.det(b.tolist()) != 0]
                if sym:
                    half = [(b.dot(b).tolist(),) for b in sym]
                    batch(rec, 'root', lambda a: linalg.power(a, .5), half, qmat)
                for b in sym[:2]:
                    near(rec, b)


FRAMES = {1: [[[1]]], 2: [[[3, -4], [4, 3]], [[5, 12], [-12, 5]], [[0, -1], [1, 0]], [[1, 0], [0, 1]]],
          3: [[[2, -1, 2], [2, 2, -1], [-1, 2, 2]], [[3, -4, 0], [4, 3, 0], [0, 0, 5]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[6, 2, 3], [-3, 6, 2], [2, 3, -6]]]}


def frame(n):
    """a rotation with rational entries: D and D R"""
    R = np.array(rng.choice(FRAMES[n]))
    R = R[rng.sample(range(n), n)] * np.array([[rng.choice([1, -1])] for _ in range(n)])
    D = int(round(np.sqrt((R[0] ** 2).sum())))
    if geo.det(R.tolist()) < 0:
        R[0] *= -1
    return D, R


def near(rec, S):
    """orthonormal matrices closest to a turned symmetric one"""
    n = len(S)
    D, Q = frame(n)

    def call(name, A, **kw):
        A = np.array(A)
        given = A if rng.random() < .5 else A.astype(float)
        if rng.random() < .2:
            given = given.tolist()
        was = np.array(given)

        def get():
            o = linalg.orthonormalize(given, **kw)
            return dict(entries=[dict(a=A.tolist(), out=qmat(o, maxden=20))], kept=bool(np.array_equal(np.array(given), was)), batch=1)
        rec.call('dense', get, lambda d: d, name=name)
    if np.abs(Q.dot(S)).max() > 2000:
        return
    call('rotation', Q.dot(S))
    P = Q.copy()
    if rng.random() < .5:
        P[0] *= -1
    call('orthonormal', P.dot(S), demirror=False)
    # a mirror image: the least axis of S turned over
    w, v = np.linalg.eigh(S.astype(float))
    for M in (np.diag([rng.randint(3, 6)] + [rng.randint(3, 6) for _ in range(n - 2)] + [-rng.randint(1, 2)]) if n > 1 else None,
              S - (int(np.floor(w[0])) + 1) * np.eye(n, dtype=int)):
        if M is None:
            continue
        x = np.linalg.eigvalsh(M.astype(float))
        a = sorted(x, key=abs)
        if n > 1 and a[0] < -1e-9 and all(y > 1e-9 for y in a[1:]) and a[1] + a[0] > 1e-6:
            call('rotation', Q.dot(M))
    # fewer axes than dimensions, or more
    if n < 3 and np.abs(S).max() < 100:
        D3, Q3 = frame(3)
        r = Q3[:n]
        if rng.random() < .5:
            call('orthonormal', S.dot(r))
        else:
            call('orthonormal', r.T.dot(S))


def turns(rec, n):
    rec.case('turns')
    for _ in range(n):
        d = rng.randint(2, 3)
        D, R = frame(d)
        i, j = rng.sample(range(d), 2)
        u, v = R[i], R[j]

        def get():
            uu, vv = np.array(u) / D, np.array(v) / D
            a, b = uu.copy(), vv.copy()
            if rng.random() < .3:
                uu, vv = uu.tolist(), vv.tolist()
            o = linalg.rotation_from_plane(uu, vv)
            return dict(entries=[dict(u=[D, u], v=[D, v], out=qmat(o))], kept=bool(np.array_equal(a, uu) and np.array_equal(b, vv)), batch=1)
        rec.call('dense', get, lambda d: d, name='quarter')
        args = [frame(d) for _ in range(rng.choice([1, 2, 4]))]
        s = shape_of(len(args))

        def angle():
            a = np.array([M / E for E, M in args]).reshape(s + (d, d))
            b = a.copy()
            out = entries(linalg.angle_from_rotation(a), s, lambda x: ratio(np.cos(x)) if 0 <= x <= np.pi else [0, 0])
            return dict(entries=[dict(a=[E, M], out=o) for (E, M), o in zip(args, out)], kept=bool(np.array_equal(a, b)), batch=len(args))
        rec.call('dense', angle, lambda d: d, name='angle')


def simplex(m, d, lo=-3, hi=3):
    """m + 1 independent points"""
    while True:
        ps = [rint(d, lo, hi) for _ in range(m + 1)]
        if m == 0 or geo.gram(ps) != 0:
            return ps


def exact(ps, w):
    b = exact_centre(ps, w)
    x = [sum(bi * p[a] for bi, p in zip(b, ps)) for a in range(len(ps[0]))]
    D = E = 1
    for q in b:
        D = lcm(D, q.denominator)
    for q in x:
        E = lcm(E, q.denominator)
    return D, E, max(abs(q) for q in b), b


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def simplices(rec, n):
    rec.case('simplices')
    for it in range(n):
        d = rng.randint(1, 3)
        m = rng.randint(1, d)
        k = rng.choice([1, 2, 3, 4, 6])
        shift = [0] * d if rng.random() < .6 else [rng.choice([-1, 1]) * rng.choice([5, 20, 100]) for _ in range(d)]
        T = [[[a + b for a, b in zip(p, shift)] for p in simplex(m, d)] for _ in range(k)]
        loose = [[rint(d) for _ in range(m + 1)] for _ in range(k)]       # may be flat
        batch(rec, 'unsigned_volume', euclidian.unsigned_volume, [(t,) for t in rng.choice([T, loose])], lambda x: whole((fact(m) * x) ** 2, 1e-5), lists=True, key='p', unit=((1,), m))
        if m == d:
            batch(rec, 'signed_volume', euclidian.signed_volume, [(t,) for t in rng.choice([T, loose])], lambda x: whole(fact(m) * x), lists=True, key='p', unit=((1,), m))
            if all(abs(y) < 50 for y in shift):
                batch(rec, 'simplex_gradients', euclidian.simplex_gradients, [(t,) for t in T], lambda x: wholes(fact(d - 1) * x), lists=True, key='p', unit=((1,), d - 1))
        batch(rec, 'simplex_normals', euclidian.simplex_normals, [(t,) for t in T], lambda x: np.rint(np.clip(np.nan_to_num(x, nan=1.5), -1.5, 1.5) * 1e4).astype(int).tolist(), lists=True, key='p', unit=((1,), 0))
        if d > 1:
            seg = [[rint(d) for _ in range(d)] for _ in range(k)]
            batch(rec, 'segment_normals', euclidian.segment_normals, [(t,) for t in seg], wholes, lists=True, key='p', unit=((1,), d - 1))
            tri = [[[a + b for a, b in zip(p, shift)] for p in simplex(2, d, -2, 2)] for _ in range(k)]
            batch(rec, 'angles', euclidian.triangle_angles, [(t,) for t in tri], lambda x: [ratio(np.cos(y) * abs(np.cos(y))) if 0 <= y <= np.pi else [0, 0] for y in x], lists=True, key='p', unit=((1,), 0))
        # centres
        far = max(abs(a) for a in shift) > 50
        plain = [t for t in T if exact(t, [0] * (m + 1))[1] <= (60 if far else 3000) and exact(t, [0] * (m + 1))[0] <= 3000]
        W = [(t, rint(m + 1, -2, 3)) for t in T]
        W = [(t, w) for t, w in W if exact(t, w)[1] <= (60 if far else 3000) and exact(t, w)[0] <= 3000]
        zero = lambda p: dict(p=p, w=[0] * len(p))

        def centred(x):
            D, y = geo.point(x, maxden=3000, tol=1e-7)
            if any(abs(a) > 10 ** 6 for a in y):
                raise Inexact('far too large')
            return [D, y]
        if plain:
            ps = [(t,) for t in plain]
            batch(rec, 'centre', euclidian.circumcenter, ps, centred, extra=zero, lists=True, unit=((1,), 1))
            batch(rec, 'centre', euclidian.circumcenter_construction, ps, centred, extra=zero, lists=True, unit=((1,), 1))
            batch(rec, 'barycentric', euclidian.circumcenter_barycentric, ps, centred, extra=zero, lists=True, unit=((1,), 0))
            if not far:
                batch(rec, 'barycentric', euclidian.circumcenter_barycentric_weighted, ps, centred, extra=zero, lists=True)
            for t in plain[:2]:
                D, E, top, b = exact(t, [0] * (m + 1))
                if max(abs(a) for a in shift) <= 20:
                    def get():
                        a = np.array(t) if rng.random() < .5 else np.array(t, float)
                        g = a.copy()
                        r = bool(euclidian.is_wellcentered(a))
                        return dict(entries=[dict(p=t, centre=[D, [int(x * D) for x in b]], out=r)], kept=bool(np.array_equal(a, g)), batch=1)
                    rec.call('dense', get, lambda d: d, name='wellcentred')
        if W:
            # weights may be handed as a keyword or not
            kwd = rng.random() < .5
            wf = lambda f: (lambda p, w: f(p, weights=w)) if kwd else f
            batch(rec, 'centre', wf(euclidian.circumcenter_construction), W, centred, key='pw', lists=True)
            batch(rec, 'barycentric', wf(euclidian.circumcenter_barycentric), W, centred, key='pw', lists=True)
            if not far:
                batch(rec, 'barycentric', wf(euclidian.circumcenter_barycentric_weighted), W, centred, key='pw', lists=True)


def shapes(rec):
    """arrays that are no simplices of their space are turned away"""
    rec.case('shapes')
    for d in range(1, 4):
        for k in range(1, 6):
            pts = np.array([rint(d) for _ in range(k)], float)
            if rng.random() < .5:
                pts = pts[None].repeat(2, axis=0)
            if k - 1 != d:
                rec.call('misshapen', lambda: euclidian.signed_volume(pts), lambda r: {}, name='signed_volume', shape=[k, d])
            if k - 1 > d:
                rec.call('misshapen', lambda: euclidian.unsigned_volume(pts), lambda r: {}, name='unsigned_volume', shape=[k, d])
            if k == 1:
                rec.call('dense', lambda: dict(entries=[dict(p=np.atleast_2d(pts.reshape(-1, d)[0]).astype(int).tolist(), out=whole(o)) for o in np.asarray(euclidian.unsigned_volume(pts)).ravel()],
                                               kept=True, batch=int(np.prod(pts.shape[:-2]))), lambda d: d, name='unsigned_volume')


def boxes(rec, n):
    rec.case('boxes')
    for _ in range(n):
        d = rng.randint(1, 4)
        k = rng.randint(1, 6)
        a = np.array([rint(d) for _ in range(k)])
        b = np.array([rint(d) for _ in range(k)])
        m = rng.randint(1, d)
        f = rng.random() < .5
        x, y = (a.astype(float), b.astype(float)) if f else (a.copy(), b.copy())
        full = rng.random() < .3

        def get(fn, n):
            def g():
                o = entries(fn(x, y), (k,), whole)
                return dict(entries=[dict(a=p, b=q, n=n, out=v) for p, q, v in zip(a, b, o)], kept=bool(np.array_equal(x, a) and np.array_equal(y, b)), batch=k)
            return g
        if full:
            rec.call('dense', get(lambda p, q: grid.hypervolume(p, q), d), lambda d: d, name='hypervolume')
        else:
            rec.call('dense', get(lambda p, q: grid.hypervolume(p, q, m) if rng.random() < .5 else grid.hypervolume(p, q, n=m), m), lambda d: d, name='hypervolume')
        rec.call('dense', get(grid.edge_length, d), lambda d: d, name='regular_edge')

def systems(rec, n):
    """symmetric systems, over all of space or over the vectors that sum to zero"""
    rec.case('systems')
    for _ in range(n):
        d = rng.randint(1, 5)
        F = np.array([rint(d, -2, 2) for _ in range(d)])
        for name in ('cg', 'cgmean', 'minres'):
            if name == 'cg':
                A = F.dot(F.T) + np.diag([rng.randint(1, 3) for _ in range(d)])
            elif name == 'cgmean':
                W = np.triu(np.array([rint(d, 0, 3) for _ in range(d)]), 1)
                W[np.arange(d - 1), np.arange(1, d)] += 1
                W = W + W.T
                A = np.diag(W.sum(axis=1)) - W
                if d == 1:
                    continue
            else:
                A = F + F.T
                if round(np.linalg.det(A)) == 0:
                    continue
            b = np.array(rint(d), dtype=float)
            if name == 'minres' and not b.any():
                b[0] = 1.
            if name != 'cgmean' and np.abs(np.linalg.solve(A, b)).max() > 50:
                continue
            x0 = np.array(rint(d), dtype=float) if rng.random() < .5 else None
            if rng.random() < .2 and name != 'cgmean':
                x0 = np.linalg.solve(A, b)
            given = [A * 1., b.copy(), None if x0 is None else x0.copy()]

            def mean(x):
                x -= x.mean()

            def get():
                mine = [a if a is None else a.copy() for a in given]
                M, r, g = mine
                if name == 'minres':
                    x = solvers.solve_minres(M, r, **dict(x0=g) if g is not None else {}, tol=1e-9)
                else:
                    x = solvers.solve_cg(mean if name == 'cgmean' else (lambda x: None), M.dot, r, *([] if g is None else [g]))
                if np.shape(x) != (d,):
                    raise AssertionError('solution of shape %r' % (np.shape(x),))
                keep = all(p is q or np.array_equal(p, q) for p, q in zip(mine, given))
                return dict(entries=[dict(a=A.tolist(), b=b.astype(int).tolist(), g=[0] * d if x0 is None else np.rint(x0).astype(int).tolist(), out=[int(y) for y in np.rint(np.asarray(x) * 10000)])], kept=bool(keep), batch=1)
            rec.call('dense', get, lambda d: d, name=name)


def main(rec):
    systems(rec, 400 if THOROUGH else 60)
    matrices(rec, dict(l=200, q=625, t=6000, r=729) if THOROUGH else dict(l=125, q=400, t=500, r=400))
    vectors(rec, 200 if THOROUGH else 30)
    turns(rec, 200 if THOROUGH else 30)
    simplices(rec, 900 if THOROUGH else 120)
    shapes(rec)
    boxes(rec, 200 if THOROUGH else 30)


if __name__ == '__main__':
    run(main)
