"""C13: programs over a growing pool.  After every step everything held is compared with what it was, and every
answer with the one the same thing gives when made afresh in a process that has done nothing else."""
import os
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from lib import *
import pickle, struct, zlib, tempfile, shutil, time
import scipy.sparse
import meshes as M
import geo

LIMIT = 70          # top elements beyond which nothing more is made from a thing
TMP = None


# --- what a thing looks like -----------------------------------------------------------------

def digest_topology(T):
    return ('topology', type(T).__name__, [np.array(e) for e in T.elements], [T.matrix(i).toarray() for i in range(T.n_dim)] if T.n_dim else [])


def canon(x, depth=0):
    """the public contents of a result; does not fill any cache of a complex"""
    from pycomplex.topology.base import BaseTopology
    from pycomplex.topology.dual import Dual, ClosedDual
    from pycomplex.complex.base import BaseComplex
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.operator import StencilOperator
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.topology import StencilTopology
    from pycomplex.stencil.linear_system import System
    from pycomplex.stencil.equation import Equation
    from pycomplex.sparse import Sparse
    if x is None or isinstance(x, (str, bytes, bool, int, float, complex, np.bool_, np.number)):
        return x
    if isinstance(x, np.ndarray):
        return ['list'] + [canon(y) for y in x.ravel()] if x.dtype == object else np.array(x)
    if scipy.sparse.issparse(x):
        return x.toarray()
    if isinstance(x, (list, tuple)):
        return ['list'] + [canon(y, depth) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[str(k), canon(x[k])] for k in sorted(x, key=str)]
    if isinstance(x, BaseComplex):
        return ['complex', np.array(x.vertices), canon(getattr(x, 'weights', None)), digest_topology(x.topology)]
    if isinstance(x, (Dual, ClosedDual)):
        return ['dual', canon(x.matrices), canon(x.matrices_2)]
    if isinstance(x, BaseTopology):
        return digest_topology(x)
    if isinstance(x, System):
        return ['system', canon(x.A), canon(x.B), list(map(int, x.L)), list(map(int, x.R)), canon(x.complex)]
    if isinstance(x, Equation):
        return ['equation', canon(x.system)]
    if isinstance(x, BlockArray):
        return ['blocks', list(np.shape(x.block)), [canon(b) for b in np.ravel(x.block)]]     # also block operators
    if isinstance(x, StencilOperator):
        return ['operator', np.asarray(x.to_dense())]
    if isinstance(x, StencilComplex):
        return ['stencil', list(x.topology.shape), float(x.scale)]
    if isinstance(x, StencilTopology):
        return ['stencil', list(x.shape)]
    if isinstance(x, Sparse):
        return ['sparse', [np.array(a) for a in x.axes], np.array(x.data)]
    if callable(x):
        return 'callable'
    return type(x).__name__


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            s = np.nanmax(np.abs(a[np.isfinite(a)]), initial=0) if a.size else 0
            return bool(np.allclose(a, b, rtol=1e-7, atol=1e-8 * max(1, s), equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(np.isclose(a, b, rtol=1e-7, atol=1e-8, equal_nan=True))
    return type(a) == type(b) and a == b


def number(x, known):
    """the number of an answer among those already seen"""
    for i, k in enumerate(known):
        if same(k, x):
            return i
    known.append(x)
    return len(known) - 1


# --- operations --------------------------------------------------------------------------------

class Args(object):
    """arguments of one call: the same for the same operation on equal things, and watched"""
    def __init__(self, name):
        self.r = np.random.RandomState(zlib.crc32(name.encode()) & 0x7fffffff)
        self.given = []

    def watch(self, a):
        self.given.append((a, canon(a)))
        return a

    def unaltered(self):
        return all(same(canon(a), c) for a, c in self.given)

    def points(self, o, n=9):
        v = o.vertices
        if np.shape(v)[1] == 3 and type(o).__name__.startswith('ComplexSpherical'):
            p = self.r.normal(size=(n, 3))
            return self.watch(p / np.linalg.norm(p, axis=1, keepdims=True))
        lo, hi = v.min(0), v.max(0)
        return self.watch(lo + (hi - lo) * (.13 + .74 * self.r.rand(n, np.shape(v)[1])))

    def form(self, shape):
        return self.watch(self.r.randint(-4, 5, size=shape).astype(float))

    def creases(self, o):
        T = o.topology
        c = {}
        for d in range(T.n_dim):
            a = (self.r.rand(T.n_elements[d]) < .3).astype(np.int8)
            a[self.r.randint(len(a))] = 1
            c[d] = a
        return self.watch(c)

    def keep(self, o):
        n = o.topology.n_elements[-1]
        k = self.r.rand(n) < .7
        k[self.r.randint(n)] = True
        return self.watch(k)

    def blocks(self, shapes):
        from pycomplex.stencil.block import BlockArray
        return self.watch(BlockArray([self.r.randint(-3, 4, size=s).astype(float) for s in shapes], ndim=1))


def fields(o, K):
    t = o.topology
    return K.watch({k: .5 + K.r.rand(*t.n_elements[n]) for k, n in (('constraint', 0), ('conductance', 1), ('resistance', 1), ('foo', 1))})


def diffusion(o, K):
    from pycomplex.stencil.diffusion import Diffusion
    return Diffusion.formulate(o, fields(o, K))


def zeroed(s, K):
    q = s[:, :]
    q.A[0, 0] = 0
    return q


def multigrid(e, K, fn):
    from pycomplex.stencil import multigrid as mg
    h = e.hierarchy(1)
    y = K.blocks([e.system.complex.n_elements[n] for n in e.system.L])
    return getattr(mg, fn)(h, y)


def xs(e, K):
    s = e.system
    return K.blocks([s.complex.n_elements[n] for n in s.R])


def ys(e, K):
    s = e.system
    return K.blocks([o.shape[1] for o in s.B.block[0]])


def stl(o, K):
    path = os.path.join(TMP, '%d.stl' % os.getpid())
    o.save_STL(path)
    return type(o).load_STL(path)


def extruded(o, K):
    other = o.translate(K.watch(np.array([.5, .25, 2.])))
    K.watch(other)
    return o.extrude(other)


def interval(o, K):
    from pycomplex.complex.cubical import ComplexCubical
    return K.watch(ComplexCubical(vertices=np.array([[0.], [1.], [3.]]), cubes=np.array([[0, 1], [1, 2]])))


def tensor(K, n):
    from pycomplex.sparse import Sparse
    return K.watch(Sparse([K.watch(K.r.randint(0, 4, size=5)) for _ in range(n)], K.watch(K.r.randint(1, 5, size=5))))


def unique_tensor(K, n):
    from pycomplex.sparse import Sparse
    ks = K.r.permutation(4 ** n)[:5]
    return Sparse([(ks // 4 ** i) % 4 for i in range(n)], K.r.randint(1, 5, size=len(ks)))


def primal(o):
    return o.topology.n_elements[0]


def corner_map(o, K):
    d = np.shape(o.vertices)[1]
    return K.watch(np.eye(d) + np.diag([.5] * (d - 1), 1))


Q = {
    # structure
    't_matrices': lambda o, K: o.topology.matrices,
    't_corners': lambda o, K: o.topology.corners,
    't_incidence': lambda o, K: o.topology.incidence,
    't_matrix': lambda o, K: [o.topology.matrix(o.topology.n_dim, 0), o.topology.matrix(-1), o.topology.matrix(0), o.topology.matrix(1, 1)],
    't_oriented': lambda o, K: o.topology.is_oriented,
    't_flags': lambda o, K: [o.topology.is_closed, o.topology.is_connected],
    't_averaging': lambda o, K: [o.topology.averaging_operators_0, o.topology.averaging_operators_N],
    't_degree': lambda o, K: o.topology.degree,
    't_selectors': lambda o, K: [o.topology.selector_interior, o.topology.selector_boundary],
    't_dual': lambda o, K: [o.topology.dual.n_elements, o.topology.dual.matrices, o.topology.dual.matrices_2, o.topology.dual.selector_interior, o.topology.dual.selector_boundary],
    't_parity': lambda o, K: o.topology.relative_parity(),
    't_labels': lambda o, K: o.topology.label_connections(),
    't_components': lambda o, K: o.topology.split_connected_components(),
    't_subset': lambda o, K: o.topology.select_subset(K.keep(o)),
    't_boundary': lambda o, K: o.topology.boundary,
    't_chain': lambda o, K: [o.topology.chain(0, fill=1), o.topology.chain(-1), o.topology.range(0), o.topology.form(1)],
    't_fix': lambda o, K: o.topology.fix_orientation(),
    't_domains': lambda o, K: o.topology.fundamental_domains(),
    't_multigrid': lambda o, K: [o.topology.subdivide_cubical().transfer_matrices],
    # geometry
    'box': lambda o, K: o.box,
    'primal_position': lambda o, K: o.primal_position,
    'dual_position': lambda o, K: o.dual_position,
    'metric': lambda o, K: [o.primal_metric, o.dual_metric, o.dual_metric_closed],
    'hodge': lambda o, K: [o.hodge_PD, o.hodge_DP],
    'centered': lambda o, K: [o.is_well_centered, o.is_pairwise_delaunay, o.positive_dual_metric],
    'averages': lambda o, K: o.weighted_average_operators,
    'smooth_operator': lambda o, K: o.smooth_operator(),
    'creased_operator': lambda o, K: o.smooth_operator(K.creases(o)),
    'loop_operator': lambda o, K: o.subdivide_loop_operator(smooth=True, creases=K.creases(o)),
    'operator': lambda o, K: o.subdivide_operator(smooth=True, creases=K.creases(o)),
    'smooth_subdivision': lambda o, K: o.subdivide_cubical(creases=K.creases(o), smooth=True),
    'regions': lambda o, K: o.topology.regions_per_vertex,
    'excess': lambda o, K: [o.dual_edge_excess(), o.dual_edge_excess(signed=False)],
    'angles': lambda o, K: o.compute_triangle_angles,
    'areas': lambda o, K: [o.compute_triangle_areas, o.compute_vertex_areas, o.compute_edge_ratio],
    'remap': lambda o, K: (lambda f: [o.remap_boundary_N(f), o.remap_boundary_N(f, oriented=False), o.remap_boundary_0(f)])(K.form(np.shape(o.topology.elements[-1]))),
    'pick_primal': lambda o, K: o.pick_primal(K.points(o)),
    'pick_hinted': lambda o, K: o.pick_primal(K.points(o), K.watch(K.r.randint(o.topology.n_elements[-1], size=9))),
    'pick_corner_hinted': lambda o, K: o.pick_fundamental(K.points(o), K.watch(K.r.randint(o.topology.n_elements[-1], size=9))),
    'pick_dual': lambda o, K: o.pick_dual(K.points(o)),
    'pick_fundamental': lambda o, K: o.pick_fundamental(K.points(o)),
    'brute': lambda o, K: o.pick_primal_brute(o.augment(K.points(o))),
    'sample_primal': lambda o, K: o.sample_primal_0(K.form(primal(o)), K.points(o)),
    'sample_dual': lambda o, K: o.sample_dual_0(K.form(o.topology.dual.n_elements[0]), K.points(o)),
    'average_dual': lambda o, K: o.average_dual(K.form(o.topology.dual.n_elements[0])),
    'normals': lambda o, K: [o.triangle_normals(), o.triangle_centroids()],
    'vertex_normals': lambda o, K: o.vertex_normals(),
    'vertex_areas': lambda o, K: o.vertex_areas(),
    'edge_lengths': lambda o, K: o.edge_lengths(),
    'volume': lambda o, K: o.volume(),
    'center': lambda o, K: o.center_of_mass(),
    'area': lambda o, K: o.area(),
    # new meshes
    'translate': lambda o, K: o.translate(K.watch(np.arange(1., 1 + np.shape(o.vertices)[1]))),
    'scale': lambda o, K: o.scale(1.5),
    'transform': lambda o, K: o.transform(corner_map(o, K)),
    'copy': lambda o, K: o.copy(),
    'weigh': lambda o, K: o.copy(weights=K.watch(K.r.rand(len(o.vertices)) * .05)),
    'fix': lambda o, K: o.fix_orientation(),
    'subset': lambda o, K: o.select_subset(K.keep(o)),
    'smooth': lambda o, K: o.smooth(),
    'creased': lambda o, K: o.smooth(K.creases(o)),
    'loop': lambda o, K: o.subdivide_loop(),
    'loop_smooth': lambda o, K: o.subdivide_loop(smooth=True, creases=K.creases(o)),
    'fundamental': lambda o, K: o.subdivide_fundamental(),
    'simplicial': lambda o, K: o.subdivide_simplicial(),
    'cubical': lambda o, K: o.subdivide_cubical(),
    'subdivide': lambda o, K: o.subdivide_cubical(),
    'subdivide_smooth': lambda o, K: o.subdivide_cubical(smooth=True),
    'product': lambda o, K: o.product(interval(o, K)),
    'rim': lambda o, K: o.boundary,
    'clip': lambda o, K: o.clip(K.watch(o.box.mean(axis=0) + .011), K.watch(np.array([1., .37, .21])[:np.shape(o.vertices)[1]])),
    'split': lambda o, K: o.clip(K.watch(o.box.mean(axis=0) + .013), K.watch(np.array([.2, 1., .4])[:np.shape(o.vertices)[1]]), clip=False),
    'extrude': extruded,
    'stl': stl,
    'as_euclidian': lambda o, K: o.as_euclidian(),
    # periodic grids
    's_hodge': lambda o, K: o.hodge,
    's_derive': lambda o, K: [f(K.form(o.topology.n_elements[n])) for n, f in enumerate(o.topology.primal)] + [f(K.form(f.shape[1])) for f in o.topology.dual],
    's_transfers': lambda o, K: [f.right(K.form(o.topology.n_elements[n])) for n, f in enumerate(o.topology.transfers)] + [f.left(K.form(o.coarse.topology.n_elements[n])) for n, f in enumerate(o.topology.transfers)],
    's_smooth': lambda o, K: [f(K.form(o.topology.n_elements[n])) for n, f in enumerate(o.smoothers(True))],
    's_coarsen': lambda o, K: [f(K.form(o.topology.n_elements[n])) for n, f in enumerate(o.coarsen)] + [f(K.form(o.coarse.topology.n_elements[n])) for n, f in enumerate(o.refine)],
    's_average': lambda o, K: [f(K.form(o.topology.n_elements[0])) for f in o.topology.averaging_operators_0],
    's_sample': lambda o, K: o.sample_0(K.form(o.topology.n_elements[0]), K.watch(K.r.rand(7, len(o.topology.shape)) * np.array(o.topology.shape) * o.scale)),
    's_positions': lambda o, K: o.primal_position,
    's_form': lambda o, K: [o.topology.form(0), o.topology.form(1)],
    's_coarse': lambda o, K: o.coarse,
    's_fine': lambda o, K: o.fine,
    's_canonical': lambda o, K: __import__('pycomplex.stencil.linear_system', fromlist=['System']).System.canonical(o),
    's_diffusion': diffusion,
    'y_dense': lambda s, K: [s.A, s.B],
    'y_apply': lambda s, K: [s.A * K.blocks([s.complex.n_elements[n] for n in s.R])],
    'y_alloc': lambda s, K: [s.allocate_x(), s.allocate_y()],
    'y_restrict': lambda s, K: s.restrict_primal(K.blocks([s.complex.n_elements[n] for n in s.R])),
    'y_algebra': lambda s, K: [s.A.transpose(), s.A.transpose() * s.A],
    'y_normal': lambda s, K: s.normal(),
    'y_normal_ne': lambda s, K: s.normal_ne(),
    'y_slice': lambda s, K: s[:2, :2],
    'y_zeroed': zeroed,
    'e_dense': lambda e, K: [e.system.A, e.system.B],
    'e_residual': lambda e, K: e.residual(xs(e, K), ys(e, K)),
    'e_jacobi': lambda e, K: e.jacobi(xs(e, K), ys(e, K)),
    'e_overrelax': lambda e, K: e.overrelax(xs(e, K), ys(e, K), K.watch([1, .5, 2])),
    'e_smooth': lambda e, K: e.smooth(xs(e, K), ys(e, K)),
    'e_blockgs': lambda e, K: e.NR_BLOCK_GS(xs(e, K), ys(e, K)),
    'e_blockne': lambda e, K: e.NE_BLOCK_GS(xs(e, K), ys(e, K)),
    'e_transfer': lambda e, K: [e.restrict(ys(e, K)), e.interpolate(e.coarse.system.allocate_x() + 1)],
    'e_solve': lambda e, K: type(e.solve(ys(e, K), xs(e, K))).__name__,
    'e_cycle': lambda e, K: [type(multigrid(e, K, 'v_cycle')).__name__],
    'e_coarse': lambda e, K: e.coarse,
    'e_normal': lambda e, K: e.normal,
    # sparse arrays
    'a_sum': lambda a, K: [a.data.sum(), a.nnz, a.ndim],
    'a_dense': lambda a, K: a.todense(),
    'a_entries': lambda a, K: [a.axes, a.data],
    'a_dot': lambda a, K: a.dot(tensor(K, 2)),
    'a_find': lambda a, K: a * 2,
    'a_add': lambda a, K: a + tensor(K, a.ndim),
    'a_mul': lambda a, K: a * K.watch(unique_tensor(K, a.ndim)),
    'a_scale': lambda a, K: a * 3,
    'a_transpose': lambda a, K: a.T,
    'a_filter': lambda a, K: a.filter(lambda d: d > 1),
    'a_concat': lambda a, K: a.concatenate(tensor(K, a.ndim)),
}


def lattice(shape):
    """unit cubes cut along their main diagonals"""
    import itertools
    n = len(shape)
    ids, cs = {}, []
    for corner in itertools.product(*map(range, shape)):
        for perm in itertools.permutations(range(n)):
            p, c = list(corner), [tuple(corner)]
            for a in perm:
                p[a] += 1
                c.append(tuple(p))
            odd = sum(perm[i] > perm[j] for i in range(n) for j in range(i + 1, n)) % 2
            cs.append(tuple(c[:n - 1] + [c[n], c[n - 1]] if odd else c))
    for c in cs:
        for v in c:
            ids.setdefault(v, len(ids))
    return [tuple(ids[v] for v in c) for c in cs], [list(map(float, v)) for v in ids]


def base(kind, variant, root):
    """one of two given things of a kind (they differ)"""
    r = random.Random('%s%d%d' % (kind, variant, root))
    if kind == 'tri':
        # nearly equilateral triangles
        from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
        cs, p = lattice((2, 2 + root % 2))
        if variant % 2:
            cs = [c for c in cs if r.random() < .8]
            cs, p = M.used(cs, p)
        p = np.array(p).dot([[1, 0], [-.5, .75 ** .5]]) + np.array([[r.random() * .05 for _ in range(2)] for _ in p])
        return ComplexTriangularEuclidian2(vertices=p, triangles=np.array(cs))
    if kind == 'surface':
        from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
        if (variant + root) % 2:
            cs = [tuple(np.array(c)) for c in OCTA]
            p = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], float) * (1 + variant % 3)
        else:
            cs, p = geo.kuhn(r, 2, (2, 2), 1)
            p = np.concatenate([np.array(p, float), np.array([[r.random()] for _ in p])], axis=1)
        p = p + np.array([[r.random() * .2 for _ in range(3)] for _ in p])
        return ComplexTriangularEuclidian3(vertices=p, triangles=np.array(cs))
    if kind == 'tets':
        # tetrahedra of the body centred cubic lattice
        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
        cs, p = lattice((1, 1, 1 + root % 2))
        if variant % 2:
            cs = cs[1:]
            cs, p = M.used(cs, p)
        p = np.array(p).dot(np.eye(3) * 2 - 1 / 3) + np.array([[r.random() * .03 for _ in range(3)] for _ in p])
        return ComplexSimplicialEuclidian(vertices=p, simplices=np.array(cs))
    if kind in ('quads', 'grid'):
        from pycomplex import synthetic
        shape = ((2, 2), (3, 2), (1, 2, 2), (2, 1, 1))[(variant * 2 + root) % 4]
        c = synthetic.n_cube_grid(shape)
        if kind == 'grid':
            return (c.as_22() if len(shape) == 2 else c.as_33()).as_regular()
        c = c.as_22() if len(shape) == 2 else c
        return c.copy(vertices=c.vertices + np.array([[r.random() * .2 for _ in shape] for _ in c.vertices]))
    if kind == 'sphere':
        from pycomplex import synthetic
        c = synthetic.icosahedron()
        if (variant + root) % 2:
            v = c.vertices + np.array([[r.random() * .2 for _ in range(3)] for _ in c.vertices])
            c = c.copy(vertices=v / np.linalg.norm(v, axis=1, keepdims=True))
        return c
    if kind == 'sten':
        from pycomplex.stencil.complex import StencilComplex, StencilComplex2D, StencilComplex3D
        shape = ((4, 4), (2, 4), (2, 2, 4), (4, 2))[(variant * 2 + root) % 4]
        return {2: StencilComplex2D, 3: StencilComplex3D}[len(shape)].from_shape(shape, scale=(1, .5)[variant % 2])
    if kind == 'array':
        from pycomplex.sparse import Sparse
        k = r.sample([(i, j) for i in range(4) for j in range(4)], 6)
        return Sparse([np.array([x[a] for x in k]) for a in range(2)], np.array([r.choice((1, 2, -3)) for _ in k]))
    raise KeyError(kind)


OCTA = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]


def big(o):
    T = getattr(o, 'topology', None)
    if T is None:
        T = getattr(getattr(getattr(o, 'system', o), 'complex', None), 'topology', None)
    if T is None:
        return len(getattr(o, 'data', ())) > 300
    n = getattr(T, 'n_elements', None)
    return int(np.prod(T.shape)) > 40 if hasattr(T, 'shape') else n[-1] > LIMIT


class Answer(object):
    """what a call gave: its result (kept), and what it looked like when it came"""
    def __init__(self, name, o):
        K = Args(name)
        self.K = K
        self.result = None
        try:
            with quiet(20):
                self.result = Q[name](o, K)
                self.looks = canon(self.result)
        except (Exception, Timeout) as e:
            self.result = None
            self.looks = ['raised', type(e).__name__]
        self.arguments = K.unaltered()


def build(kind, variant, root, term):
    o = base(kind, variant, root)
    for name in term:
        o = Answer(name, o).result
    return o


def rebuilt(o):
    """the same thing, without its history"""
    import inspect
    from pycomplex.complex.base import BaseComplex
    if not isinstance(o, BaseComplex):
        return None
    kw = {}
    for a in inspect.signature(type(o)).parameters:
        if a in ('vertices', 'weights', 'radius') and getattr(o, a, None) is not None:
            kw[a] = np.array(getattr(o, a)) if a != 'radius' else o.radius
    return type(o)(topology=o.topology, **kw)


class Zygote(object):
    """a process that has done nothing, and answers each question in a child of its own"""
    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1]), os.close(b[0])
            self.serve(a[0], b[1])
            os._exit(0)
        os.close(a[0]), os.close(b[1])
        self.out, self.inp = os.fdopen(a[1], 'wb'), os.fdopen(b[0], 'rb')
        self.memo = {}

    def serve(self, i, o):
        i, o = os.fdopen(i, 'rb'), os.fdopen(o, 'wb')
        while True:
            h = i.read(8)
            if len(h) < 8:
                return
            kind, variant, root, term, names = pickle.loads(i.read(struct.unpack('<Q', h)[0]))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    ans = [Answer(n, build(kind, variant, root, term)).looks for n in names]
                    data = pickle.dumps(ans)
                except BaseException as e:
                    data = pickle.dumps([['failed', repr(e)[:200]]] * len(names))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            o.write(struct.pack('<Q', len(data)) + data)
            o.flush()

    def ask(self, kind, variant, root, term, names):
        term = tuple(term)
        todo = [n for n in names if (kind, variant, root, term, n) not in self.memo]
        if todo:
            q = pickle.dumps((kind, variant, root, term, todo))
            self.out.write(struct.pack('<Q', len(q)) + q)
            self.out.flush()
            n = struct.unpack('<Q', self.inp.read(8))[0]
            for name, x in zip(todo, pickle.loads(self.inp.read(n))):
                self.memo[kind, variant, root, term, name] = x
        return [self.memo[kind, variant, root, term, n] for n in names]


def play(zygote, program, queries, variant, case):
    """events of one program"""
    kind = program['kind']
    ev = [dict(op='case', case=case)]

    def emit(op, **kw):
        ev.append(dict(kw, op=op, case=case, kind=kind))
    pool, held = [], {}

    def hold(h, thing):
        held[h] = (thing, [canon(thing)])
        emit('hold', h=h, val=0)

    def look():
        return [[h, number(canon(t), k)] for h, (t, k) in held.items()]
    for root in (1, 2):
        o = base(kind, variant, root)
        pool.append((o, root, ()))
        hold('m%d' % root, o)

    def survey(j):
        o, root, term = pool[j]
        if o is None or big(o):
            return
        names = queries(kind, term)
        fresh = zygote.ask(kind, variant, root, term, names)
        try:
            again = rebuilt(o) if (len(ev) + j) % 2 else None
        except Exception as e:
            again = None
        known = [[f] for f in fresh]
        got = [number(Answer(n, o).looks, k) for n, k in zip(names, known)]
        new = [number(Answer(n, again).looks, k) for n, k in zip(names, known)] if again is not None else [0] * len(names)
        wrong = [n for n, g, b in zip(names, got, new) if g or b]
        emit('observe', of='m%d' % (j + 1), term=list(term), names=names, got=got, rebuilt=new, fresh=[0] * len(names), held=look(), note=','.join(wrong))
    for i, st in enumerate(program['prog']):
        if st['at'] > len(pool):
            break
        o, root, term = pool[st['at'] - 1]
        name = st['op']
        if name == 'everything':
            survey(st['at'] - 1)
            continue
        if o is None or (name in MAKES and big(o)):
            pool.append((None, root, ())) if name in MAKES else None
            continue
        a = Answer(name, o)
        fresh = [zygote.ask(kind, variant, root, term, [name])[0]]
        got = number(a.looks, fresh)
        emit('step', of='m%d' % st['at'], term=list(term), name=name, got=got, fresh=0, held=look(), arguments=a.arguments, note=gist(a.looks, fresh[0]) if got else '')
        if name in MAKES:
            ok = a.result is not None
            pool.append((a.result, root, term + (name,)) if ok else (None, root, ()))
            if ok:
                hold('m%d' % len(pool), a.result)
        elif a.result is not None:
            hold('r%d' % i, a.result)
    for j in range(len(pool)):
        survey(j)
    return ev


def gist(a, b):
    return ('%r / %r' % (a, b))[:300]


MAKES = {}


def menus():
    """the specification's menus, as written by TLC"""
    d = os.environ['VERIF_GEN']
    return json.loads(open(os.path.join(d, 'menus.ndjson')).readline())


def main(rec):
    global TMP
    TMP = tempfile.mkdtemp(prefix='verif-history-')
    try:
        everything(rec)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


def everything(rec):
    rng = random.Random(SEED * 7919 + 13)
    menu = menus()
    for k in menu:
        for m in menu[k]:
            if m['makes'] != 'value':
                MAKES[m['op']] = True
    missing = [m['op'] for k in menu for m in menu[k] if m['op'] not in Q]
    assert not missing, missing

    def kind_of(kind, term):
        for t in term:
            kind = [m for m in menu[kind] if m['op'] == t][0]['makes']
        return kind

    def queries(kind, term):
        k = kind_of(kind, term)
        return sorted(m['op'] for m in menu[k] if m['makes'] == 'value') + sorted(m['op'] for m in menu[k] if m['makes'] not in ('value', 'eq', 'sys'))
    d = os.environ['VERIF_GEN']
    short = [json.loads(x) for x in open(os.path.join(d, 'prog-MC_History_q.ndjson'))]
    long = [json.loads(x) for x in open(os.path.join(d, 'prog-MC_History_long.ndjson'))]
    heads = {}
    for p in long:
        heads.setdefault(json.dumps([p['kind'], p['prog'][:-1]]), []).append(p)
    long = [rng.choice(heads[h]) for h in sorted(heads)]
    by = {}
    for p in short:
        by.setdefault(p['kind'], []).append(p)
    jobs = []
    for k in sorted(by):
        jobs += rng.sample(by[k], min(len(by[k]), 2500 if THOROUGH else 110))
    jobs += rng.sample(long, min(len(long), 2000 if THOROUGH else 200))
    rng.shuffle(jobs)
    # everything asked of a mesh before another is made of it: all makers, in chains of one and of two
    for name, n in (('survey', 80), ('survey4', 400 if THOROUGH else 24)):
        some = [json.loads(x) for x in open(os.path.join(d, 'prog-MC_History_%s.ndjson' % name))]
        jobs[:0] = rng.sample(some, min(len(some), n))
    jobs = [(i, p, rng.randrange(4)) for i, p in enumerate(jobs)]
    limit = time.time() + (2400 if THOROUGH else 330)
    W = 8
    # programs that start alike go to the same worker, which remembers the fresh answers
    groups = {}
    for j in jobs:
        groups.setdefault((j[1]['kind'], j[2]), []).append(j)
    lots = [[] for _ in range(W)]
    for g in sorted(groups, key=lambda g: (-len(groups[g]), g)):
        min(lots, key=len).extend(groups[g])
    for lot in lots:
        lot.sort(key=lambda j: j[1]['prog'][0]['op'] != 'everything')
    pids = []
    for w in range(W):
        path = os.path.join(TMP, 'events%d' % w)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                z = Zygote()
                with open(path, 'w') as f:
                    for i, p, v in lots[w]:
                        if time.time() > limit:
                            break
                        for e in play(z, p, queries, v, '%s-%d' % (p['kind'], i)):
                            f.write(json.dumps(e, default=_np) + '\n')
                code = 0
            except BaseException as e:
                with open(path + '.error', 'w') as f:
                    f.write(traceback.format_exc())
            os._exit(code)
        pids.append(pid)
    failed = [os.waitpid(p, 0)[1] for p in pids]
    for w in range(W):
        for line in open(os.path.join(TMP, 'events%d' % w)):
            e = json.loads(line)
            if e['op'] == 'case':
                rec.case(e['case'])
            else:
                rec._write(e)
        if failed[w]:
            raise RuntimeError(open(os.path.join(TMP, 'events%d.error' % w)).read()[-1500:])


from lib import _np
if __name__ == '__main__':
    run(main)
