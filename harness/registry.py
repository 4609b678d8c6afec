"""What each property's check consists of."""


def cells(*labels, tiers=('quick', 'thorough')):
    return [dict(module='MC_Cells.tla', cfg='MC_Cells_%s.cfg' % x, tiers=tiers, timeout=3000) for x in labels]


S_QUICK = cells('s1', 's2', 's2p', 's3')
C_QUICK = cells('c1', 'c2q')
S_DEEP = cells('s2w', 's3p', 's3w', 's4', tiers=('thorough',))
C_DEEP = cells('c2', 'c2p', tiers=('thorough',))
TOPO_RULE = ('every mesh of the bounded exhaustive models plus seeded random and named meshes; each public call is one '
             'event, judged by the TLA+ verdict operator of its operation')
TOPO_ASSUME = ['vertices are numbered 0..V-1 and all used', 'cells are distinct as arrays of vertices; subdivided ones as vertex sets', 'meshes are pure']
T = dict(recorder='rec_topology.py', rule=TOPO_RULE, assumptions=TOPO_ASSUME, record_timeout=600)
R = dict(T, recorder='rec_refine.py')

REGISTRY = {
 'C01': dict(T, models=S_QUICK + S_DEEP, min_events=400),
 'C02': dict(T, models=C_QUICK + C_DEEP, min_events=400),
 'C03': dict(T, models=S_QUICK + C_QUICK + S_DEEP + C_DEEP, min_events=400),
 'C04': dict(T, models=S_QUICK + C_QUICK + S_DEEP + C_DEEP, min_events=400),
 'C05': dict(T, models=S_QUICK + C_QUICK + S_DEEP + C_DEEP, min_events=100),
 'C06': dict(T, models=S_QUICK + C_QUICK + S_DEEP + C_DEEP, min_events=400),
 'C07': dict(T, models=S_QUICK + C_QUICK + S_DEEP + C_DEEP, min_events=400),
 'C08': dict(R, models=S_QUICK + S_DEEP, min_events=400),
 'C09': dict(R, models=cells('s2', 's2p') + cells('s2w', tiers=('thorough',)), min_events=400),
 'C10': dict(R, models=C_QUICK + C_DEEP, min_events=300),
 'C11': dict(R, models=cells('c1', 'c2q'), min_events=100),
 'C12': dict(recorder='rec_parity.py', rule='every list size, every k, every permutation of simplex corners and every arrangement of cube corners up to the stated dimension; each call is one event judged against Sgn / CubeRel',
             assumptions=['lists have at least one item', 'combinations are asked for k <= length'], record_timeout=600,
             models=[dict(module='MC_Parity.tla', cfg='MC_Parity_1.cfg'), dict(module='MC_Parity.tla', cfg='MC_Parity_2.cfg'),
                     dict(module='MC_Parity.tla', cfg='MC_Parity_3.cfg', tiers=('thorough',))], min_events=100),
 'C14': dict(R, recorder='rec_smooth.py', models=cells('s1', 's2', 'c1', 'c2q') + cells('s2p', 's3', tiers=('thorough',)), min_events=300,
             rule='every call is one event; smoothed positions and operator rows are compared with the exact averaging rule in rational arithmetic'),
 'C15': dict(recorder='rec_metric.py', record_timeout=600, min_events=150, models=[],
             rule='random non-uniform grids (any subset of cells, any presentation), planar triangulations with obtuse triangles, well-centred tetrahedral meshes; all measures compared in rational arithmetic',
             assumptions=['integer vertex positions', 'three-dimensional simplicial meshes are well-centred']),
 'C16': dict(recorder='rec_sample.py', record_timeout=600, min_events=300,
             models=[dict(module='MC_Pick.tla', cfg='MC_Pick_q.cfg'), dict(module='MC_Pick.tla', cfg='MC_Pick_w.cfg', tiers=('thorough',))],
             rule='every subset of the cells of a small grid with every quarter-lattice point (a seeded sample of the points in the quick tier), and random grids of dimension 1..3 with reflected presentations, with no guess, right and wrong guesses; exact rational comparison',
             assumptions=['cells of equal size along each axis', 'the axes of every cube are listed in the order of the coordinate axes', 'dual sampling: oriented grids with manifold boundary']),
 'C17': dict(recorder='rec_sample.py', record_timeout=600, min_events=300, models=[],
             rule='random acute planar triangulations and body-centred tetrahedra; integer query points inside, on edges and on vertices, with and without guesses',
             assumptions=['oriented, well-centred, Delaunay meshes connected through facets']),
 'C27': dict(recorder='rec_metric.py', record_timeout=600, min_events=150, models=[],
             rule='random closed and open surfaces and curves with integer positions; exact rational comparison', assumptions=['integer vertex positions']),
 'C18': dict(recorder='rec_stencil.py', record_timeout=600, min_events=300,
             models=[dict(module='MC_Stencil.tla', cfg='MC_Stencil_q.cfg'), dict(module='MC_Stencil.tla', cfg='MC_Stencil_w.cfg', tiers=('thorough',), timeout=3000)],
             rule='every shape of the bounded model and larger seeded shapes up to five dimensions; every derivative and dual written out as a matrix and compared entry by entry; integer forms in several memory layouts; the explicit periodic cubical complex of the same shape built by the library',
             assumptions=['forms are floating point', 'the explicit complex needs at least three cells per axis']),
 'C19': dict(recorder='rec_stencil.py', record_timeout=600, min_events=300,
             models=[dict(module='MC_Stencil.tla', cfg='MC_Stencil_q.cfg'), dict(module='MC_Stencil.tla', cfg='MC_Stencil_w.cfg', tiers=('thorough',), timeout=3000)],
             rule='every shape of the bounded model and larger seeded shapes; transfer, smoothing and averaging operators written out as matrices and compared entry by entry in rational arithmetic; sampling at quarter-lattice points inside, outside and across the seam',
             assumptions=['forms are floating point', 'coarsening needs even shapes']),
 'C20': dict(recorder='rec_algebra.py', record_timeout=600, min_events=300,
             models=[dict(module='MC_Algebra.tla', cfg='MC_Algebra_%s.cfg' % x) for x in 'abc'] + [dict(module='MC_Algebra.tla', cfg='MC_Algebra_%s.cfg' % x, tiers=('thorough',), timeout=3000) for x in 'wx'],
             rule='the rewriting system of the simplifier explored from every small well-typed expression; those expressions (a seeded sample in the quick tier) and seeded deeper ones built three ways in the code; the dense matrix of the result, its transpose, its simplification, its linear-operator view and its claimed diagonal compared in rational arithmetic',
             assumptions=['derivatives are composed only where the degrees of the forms match', 'coefficients are representable']),
 'C21': dict(recorder='rec_block.py', record_timeout=600, min_events=300,
             models=[dict(module='MC_Blocks.tla', cfg='MC_Blocks_w.cfg')],
             rule='every pair of small block layouts (a seeded sample in the quick tier) and larger seeded ones, with zero, identity, diagonal and general integer blocks in every storage class; every operation judged against the flat one',
             assumptions=['blocks have at least one row and column', 'integer entries']),
 'C22': dict(recorder='rec_system.py', record_timeout=600, min_events=300,
             models=[dict(module='MC_Systems.tla', cfg='MC_Systems_a.cfg', workers=2), dict(module='MC_Systems.tla', cfg='MC_Systems_b.cfg', workers=5),
                     dict(module='MC_Systems.tla', cfg='MC_Systems_w.cfg', tiers=('thorough',), workers=6, timeout=5000)],
             rule='every derivation of systems by selecting, zeroing and normalising up to the bound (a seeded sample is replayed in the quick tier), seeded ones on larger grids and the diffusion formulations; every block compared with the dense meaning in rational arithmetic',
             assumptions=['right hand sides and fields representable', 'diagonals are claimed on grids whose axes have even length']),
 'C28': dict(recorder='rec_system.py', record_timeout=600, min_events=200,
             models=[dict(module='MC_Systems.tla', cfg='MC_Systems_a.cfg', workers=2)],
             rule='one sweep of every smoother on systems of one to three block rows and columns on small grids, from exact solutions and from seeded states, against the update formula in rational arithmetic',
             assumptions=['grids whose axes have even length or length one', 'values compared to 1/512']),
 'C23': dict(recorder='rec_multigrid.py', record_timeout=600, min_events=500,
             models=[dict(module='MC_Multigrid.tla', cfg='MC_Multigrid_q.cfg', workers=2), dict(module='MC_Multigrid.tla', cfg='MC_Multigrid_w.cfg', tiers=('thorough',), workers=4, timeout=3000)],
             rule='every run of the cycle machine up to three levels and two repetitions (four and three in the thorough tier) replayed on mock equations, seeded hierarchies of up to five levels with up to three unknowns; order of callbacks and result compared exactly; exact solutions on real diffusion hierarchies',
             assumptions=['equations are linear in the mocks', 'evaluations of the residual are not counted']),
 'C26': dict(recorder='rec_sparse.py', record_timeout=600, min_events=1000,
             models=[dict(module='MC_Tensors.tla', cfg='MC_Tensors_q.cfg', workers=3), dict(module='MC_Tensors.tla', cfg='MC_Tensors_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='every pair of short entry lists over a small index range, repeated entries and every order included (a seeded sample of the pairs in the quick tier), larger seeded arrays of up to four axes, seeded matrices and index arrays for every helper; compared exactly with the dense meaning',
             assumptions=['products and tables of arrays without repeated entries', 'contractions of arrays with one or two axes, not both with one', 'looked up elements occur', 'no explicitly stored zeros in sparse matrices']),
 'C25': dict(recorder='rec_synthetic.py', record_timeout=600, min_events=150,
             models=[dict(module='MC_Synthetic.tla', cfg='MC_Synthetic_q.cfg', workers=4), dict(module='MC_Synthetic.tla', cfg='MC_Synthetic_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='every box shape of the bounded model, centred or not, mirrored or not; every other constructor for a range of sizes, the random ones from several seeds; combinatorics exact, positions rounded to ten thousandths (thousandths for determinants)',
             assumptions=['rings with at least one subdivision (the zeroth is a square)', 'planar Delaunay squares', 'spread points on the two-dimensional sphere, without weights']),
 'C13': dict(recorder='rec_history.py', record_timeout=700, min_events=2000,
             models=[dict(module='MC_History.tla', cfg='MC_History_q.cfg'),
                     dict(module='MC_History.tla', cfg='MC_History_long.cfg', extra=['-simulate', 'num=400', '-depth', '7', '-seed', '5']),
                     dict(module='MC_History.tla', cfg='MC_History_survey.cfg'),
                     dict(module='MC_History.tla', cfg='MC_History_survey4.cfg'),
                     dict(module='MC_History.tla', cfg='MC_History_w.cfg', tiers=('thorough',), workers=4)],
             rule='seeded selection of all two-step programs of the specification and of random six-step ones; every step is one event, every held thing is looked at after every step, and every public query of every held thing is asked at the end',
             assumptions=['answers are compared up to relative rounding of 1e-7', 'arguments of the operations are fixed per operation']),
 'C29': dict(recorder='rec_weighted.py', record_timeout=600, min_events=800,
             models=[dict(module='MC_Weighted.tla', cfg='MC_Weighted_q.cfg', workers=4), dict(module='MC_Weighted.tla', cfg='MC_Weighted_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='weighted pairs of triangles of the bounded model (a seeded sample in the quick tier); seeded weighted and unweighted lines, planar meshes with obtuse triangles, surfaces and solids; regular triangulations computed by exact lifting; power centres, depths and judgments verified in rational arithmetic, measures to 1e-4',
             assumptions=['integer positions and weights', 'judgments exactly on the border are accepted either way', 'measures of planar meshes whose edge centres lie within their edges', 'location in regular triangulations all of whose dual edges are positive']),
 'C24': dict(recorder='rec_clip.py', record_timeout=600, min_events=500,
             models=[dict(module='MC_Clip.tla', cfg='MC_Clip_q.cfg', workers=4), dict(module='MC_Clip.tla', cfg='MC_Clip_z.cfg', workers=2),
                     dict(module='MC_Clip.tla', cfg='MC_Clip_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='every assignment of small heights (zero included) to the vertices of small meshes, placed in the plane or in space (a seeded sample in the quick tier); seeded planar meshes and surfaces cut by lines and planes through and between their vertices; flat and lumpy extrusions; files written, read back and written by an independent encoder; exact rational comparison',
             assumptions=['integer positions and planes, files with coordinates in eighths', 'something is left of the mesh', 'zero-area pieces are accepted where the plane goes through vertices']),
 'C30': dict(recorder='rec_sphere.py', record_timeout=600, min_events=2000,
             models=[dict(module='MC_Sphere.tla', cfg='MC_Sphere_q.cfg', workers=4), dict(module='MC_Sphere.tla', cfg='MC_Sphere_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='pairs of spherical triangles of the bounded model (a seeded sample in the quick tier); seeded spheres triangulated from integer points of equal norm: acute ones, whole or in part, any others with empty circles and spoiled by a flip, circles, and spheres of dimension three and four; containment by exact determinants, positions and coordinates to 1e-4, angles and areas as unit complex numbers in fixed point',
             assumptions=['measures of acute meshes', 'location where every edge has an empty circle', 'location in pieces of closed acute meshes; very uneven ones may be refused', 'the transfer operator of dual areas between spheres is not claimed (its own test is marked broken)']),
 'C31': dict(recorder='rec_velocity.py', record_timeout=600, min_events=400,
             models=[dict(module='MC_Velocity.tla', cfg='MC_Velocity_q.cfg', workers=4), dict(module='MC_Velocity.tla', cfg='MC_Velocity_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='pairs of triangles of the bounded model with everything that may pass their edges (a seeded sample in the quick tier); seeded lines, planar meshes, solids and regular triangulations, weighted or not, and axis-aligned grids of one to three dimensions, with integer and uniform flows of one or several components; velocities to 1e-4 against exact least squares',
             assumptions=['integer positions and weights, oriented meshes that fill their space', 'elements below the top contain their own centres', 'all dual edges strictly positive; refusal where one of them is strictly negative']),
 'C32': dict(recorder='rec_moves.py', record_timeout=600, min_events=1200,
             models=[dict(module='MC_Moves.tla', cfg='MC_Moves_q.cfg', workers=4), dict(module='MC_Moves.tla', cfg='MC_Moves_w.cfg', tiers=('thorough',), workers=6, timeout=3000)],
             rule='programs of moves of the bounded model (a seeded sample in the quick tier) and seeded programs in one to three dimensions, between dimensions and through projections, on simplicial and cubical meshes, surfaces, curves and grids of every class, asked about before and after; every cast of every complex; exact rational comparison',
             assumptions=['Euclidean complexes', 'positions that stay rational with small denominators; no vertex sent to infinity']),
 'C33': dict(recorder='rec_dense.py', record_timeout=600, min_events=2500,
             models=[dict(module='MC_Dense.tla', cfg='MC_Dense_%s.cfg' % x, workers=2) for x in 'qltr'],
             rule='the matrices of the bounded models (2x2, 1x3, 2x3 and transposed, a sample of 3x3) in batches of every shape, as integers and floats, contiguous or not; seeded vectors, simplices of one to three dimensions far from and near the origin, weights, boxes and rational rotations; exact rational comparison',
             assumptions=['pseudo inverses of matrices other than zero', 'powers of diagonalizable matrices with well separated eigenvalues', 'closest rotations only where unique', 'circumcentres of nondegenerate simplices']),
}
