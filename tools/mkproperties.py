"""Writes /verif/properties.jsonl (single source for ids, titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), ):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

T='pycomplex/topology/'; C='pycomplex/complex/'; S='pycomplex/stencil/'

p('C01','Simplicial meshes form an exact signed chain complex',
 'A simplicial topology built from any list of simplices (any dimension, vertex order, element order, connected or not, manifold or not) keeps the given top simplices in order, and lists every lower-dimensional face of them exactly once and nothing else. Each boundary operator is the signed incidence between an element and precisely its facets, with the sign fixed by the two stored vertex orders (head minus tail for edges, the induced orientation above), and its shape is (number of facets, number of elements). The composition of any two consecutive boundary operators is exactly zero, in every dimension. Cells that leave a gap in the numbering of the vertices are refused with a ValueError.',
 ['inputs'],'every list of distinct simplices over vertices 0..V-1 that uses every vertex, of dimension 1 to 4, in every vertex order',
 'The repository tests print matrices and check a few regular meshes; the built-in chain check compares no pair at all in 1-D/2-D and skips the top pair everywhere.',
 [T+'simplicial.py',T+'primal.py',T+'base.py',T+'util.py'],
 [('from_simplices',T+'simplicial.py'),('generate_simplex_boundary',T+'simplicial.py'),('relative_simplex_parity',T+'simplicial.py'),('check_chain',T+'base.py')],
 [('elements','vertex tuples of every element',T+'primal.py'),('matrices','signed incidence',T+'primal.py')],
 ['TopologySimplicial.from_simplices','elements','corners','incidence','matrices','check_chain'])

p('C02','Cubical meshes form an exact signed chain complex',
 'A cubical topology built from any list of n-cubes (any dimension, any rotation or reflection of the corner arrays, any element order) keeps the given top cubes in order and lists each lower-dimensional face exactly once. Each boundary operator relates an element to precisely its 2n facets, with signs fixed by the stored corner orders, and consecutive boundary operators compose to exactly zero. Corner arrays that disagree about the corner arrangement of a shared face are rejected with an error rather than silently accepted, and so are cells that leave a gap in the numbering of the vertices.',
 ['inputs'],'every list of distinct n-cubes, n = 1..4, over vertices 0..V-1, each cube in any of its 2^n n! symmetric presentations',
 'Tests build grids in one canonical presentation; sign errors appear only for particular rotations of neighbouring cubes.',
 [T+'cubical.py',T+'primal.py',T+'base.py'],
 [('from_cubes',T+'cubical.py'),('generate_cube_boundary',T+'cubical.py'),('relative_cube_parity',T+'cubical.py'),('permutation_map',T+'cubical.py')],
 [('elements','corner arrays of every element',T+'primal.py')],
 ['TopologyCubical.from_cubes','elements','incidence','matrices','relative_cube_parity'])

p('C03','Orientability is judged exactly and orientation can be repaired',
 'A topology (simplicial or cubical) reports itself oriented if and only if, across every facet shared by exactly two top elements, the two induced signs cancel. Repairing the orientation returns a topology with the same top elements in the same order up to reversal, which reports itself oriented; it fails with an error if and only if no such choice of reversals exists. This holds for meshes with several components and with loose elements too.',
 ['inputs','configurations'],'every pure mesh with at most two top elements per facet: orientable or not, with or without boundary, one or several components, with or without isolated elements',
 'Tests check one Moebius band and a few regular meshes; disjoint and loose-element cases carry a FIXME in the code.',
 [T+'base.py',T+'simplicial.py',T+'cubical.py'],
 [('relative_parity',T+'base.py'),('is_oriented',T+'base.py'),('fix_orientation',T+'simplicial.py'),('fix_orientation',T+'cubical.py')],
 [],['is_oriented','fix_orientation','relative_parity'])

p('C04','The boundary is exactly the once-covered facets, closed and linked back',
 'For an oriented mesh, the boundary topology consists of exactly the facets contained in one top element, has as elements exactly their faces, is itself closed, oriented and a valid chain complex, and is absent if and only if the mesh is closed (every facet covered twice). Its parent index maps every boundary element, in every dimension, to the parent element with the same vertices, and the induced orientation is kept: the signed boundary of the mesh maps onto one uniformly signed cycle per component. The boundary/interior selection operators of the mesh pick precisely these elements and their complement, and every boundary facet is kept with the vertices of its parent.',
 ['inputs'],'every oriented simplicial or cubical pure mesh of dimension 1..4',
 'Only spot checks on n-cubes; parent_idx and orientation across the boundary are unchecked (FIXME in code).',
 [T+'primal.py'],[('boundary',T+'primal.py'),('find_correspondence',T+'primal.py'),('selector_boundary',T+'primal.py'),('is_closed',T+'primal.py')],
 [('parent_idx','boundary element to parent element, per dimension',T+'primal.py')],['boundary','boundary.parent_idx','is_closed','selector_interior','selector_boundary'])

p('C05','The dual is a closed chain complex, one-to-one with the primal',
 'For every oriented mesh, dual n-elements correspond one-to-one and in order to primal (N-n)-elements, followed by one extra dual element per primal boundary element of dimension N-1-n. The dual boundary operators restricted to non-boundary elements are the transposes of the primal ones; all consecutive dual boundary operators compose to exactly zero, including the boundary part, and every dual edge has exactly two ends. The dual selection operators separate exactly the elements with a primal counterpart from the appended boundary ones.',
 ['inputs'],'every oriented mesh, closed or bounded, simplicial or cubical, dimension 1..4',
 'The tests check it only by calling a chain check that never looks at the relevant pairs.',
 [T+'dual.py',T+'primal.py',C+'base.py'],[('Dual.matrices',T+'dual.py'),('ClosedDual.matrices',T+'dual.py'),('matrices_2',T+'dual.py'),('dual_position',C+'base.py')],
 [],['topology.dual.matrices','matrices_2','n_elements','selector_interior','selector_boundary','dual_position'])

p('C06','Subsets, components and connectivity are judged faithfully',
 'Selecting a subset of top elements yields a mesh with exactly those elements, in order, whose parent index in every dimension names the parent element with the same vertices (and, for complexes, the same vertex positions). Two top elements get the same region label if and only if they are linked through a chain of shared facets; splitting into components partitions the top elements accordingly, each component connected, sorted from most to least elements. The number of regions reported at a vertex is the number of facet-connected groups among the top elements containing it, and the mesh is judged manifold if and only if that number is one everywhere.',
 ['inputs'],'every pure mesh and every selection of its top elements',
 'Tests exercise one or two hand-made meshes.',
 [T+'base.py',T+'primal.py',C+'base.py'],[('select_subset',T+'primal.py'),('label_connections',T+'base.py'),('regions_per_vertex',T+'base.py'),('split_connected_components',T+'primal.py')],
 [],['select_subset','parent_idx','label_connections','is_connected','split_connected_components','regions_per_vertex','is_manifold'])

p('C07','Averaging and degree operators count exactly what they claim',
 'The operator averaging vertices onto n-elements weights exactly the vertices of each element, all equally and summing to one (for simplices and cubes); the operator averaging top elements onto n-elements weights exactly the top elements containing it, with weights summing to one. The degree of an element is the number of top elements containing it. The matrix between vertices and n-elements has a one for every corner, that between n-elements and themselves is the identity; chains and forms are filled with the value, or with ones at the elements, they are asked for. On a dual topology each averaging operator likewise has rows summing to one, supported exactly on the incident elements.',
 ['inputs'],'every pure mesh, and every oriented mesh for the dual part',
 'No test inspects the operators; they are used only inside plots and interpolations.',
 [T+'base.py','pycomplex/sparse.py'],[('averaging_operators_0',T+'base.py'),('averaging_operators_N',T+'base.py'),('degree',T+'base.py'),('normalize_l1','pycomplex/sparse.py')],
 [],['averaging_operators_0','averaging_operators_N','degree','matrix','chain','form','range'])

p('C08','Simplicial subdivisions refine the mesh without changing its shape',
 'Subdividing a simplicial mesh into fundamental domains, by inserting a vertex per simplex, or into cubes (2-D and 3-D) splits each parent simplex into exactly (n+1)!, n+1 and n+1 pieces respectively: the flags of its faces, the cones over its facets, and one cube per corner spanned by the faces containing it. The result is a valid chain complex with the same Euler characteristic, boundary or closedness and number of components; if the parent is oriented so is the refinement (for fundamental domains when orientation is requested; the three-dimensional cubical refinement is only required to stay orientable, and fundamental pieces without requested orientation alternate as mirror images). On complexes every new vertex sits at the position of the parent element it stands for.',
 ['inputs'],'every pure simplicial manifold mesh of dimension 1..4 (2..3 for the cubical subdivision)',
 'Tests build and print a few subdivisions of regular meshes.',
 [T+'simplicial.py',C+'simplicial/euclidian.py',C+'simplicial/base.py'],[('subdivide_fundamental',T+'simplicial.py'),('fundamental_domains',T+'simplicial.py'),('subdivide_cubical',T+'simplicial.py'),('subdivide_simplicial',T+'simplicial.py')],
 [],['subdivide_fundamental','subdivide_cubical','subdivide_simplicial','fundamental_domains'])

p('C09','Loop subdivision and its transfers are exact in both variants',
 'Both loop-subdivision variants replace each triangle by its central and three corner triangles over the parent vertices plus one new vertex per parent edge, as a valid chain complex whose vertex, edge and triangle descriptions agree with each other, preserving orientation, boundary and Euler characteristic. The transfer operators relate exactly: each parent vertex to itself, each parent edge to its two halves, each parent triangle to its four children. In the direct variant parent edge directions are inherited, so that transfer commutes with the boundary operators on edge chains. On oriented meshes with a boundary the transfers of the dual relate dual elements, those of its boundary included, as the elements they stand for.',
 ['inputs'],'every triangular mesh (closed or bounded, oriented or not, any number of triangles)',
 'Tests subdivide icosahedra and single triangles with the default variant; the transfers are checked on a closed sphere only.',
 [T+'simplicial.py',C+'simplicial/euclidian.py',C+'simplicial/spherical.py'],[('subdivide_loop',T+'simplicial.py'),('subdivide_loop_direct',T+'simplicial.py'),('subdivide_loop_transfer',T+'simplicial.py'),('subdivide_loop_direct_transfer',T+'simplicial.py')],
 [],['subdivide_loop','subdivide_loop_direct','transfer_matrices'])

p('C10','Cubical subdivision and its transfers are exact',
 'Cubical subdivision of an n-D cubical mesh replaces each n-cube by its 2^n corner sub-cubes over one vertex per parent element (placed at the mean of that element\'s corners on complexes), as a valid chain complex preserving orientation, boundary, components and Euler characteristic. The transfer operators relate each parent element to exactly the sub-elements of the same dimension lying inside it, with orientation consistent within each parent; on oriented meshes with a boundary those of the dual relate dual elements, those of its boundary included, as the elements they stand for. Splitting a cubical mesh into fundamental simplices gives 2^n n! oriented flags per cube, and splitting quads gives four oriented triangles each, with matching transfer operators, all geometrically tiling the parent.',
 ['inputs'],'every oriented cubical mesh of dimension 1..4 (quads: 2), in any presentation',
 'Tests look at unit n-cubes; parent/child relations and orientation are only asserted on those.',
 [T+'cubical.py',C+'cubical.py'],[('subdivide_cubical',T+'cubical.py'),('subdivide_cubical_relations',T+'cubical.py'),('subdivide_cubical_transfers',T+'cubical.py'),('subdivide_fundamental',T+'cubical.py'),('cubical_domains',T+'cubical.py'),('TopologyCubical2.subdivide_simplicial',T+'cubical.py')],
 [],['subdivide_cubical','transfer_matrices','subdivide_fundamental','subdivide_simplicial','transfer_operators'])

p('C11','Products of cubical meshes are the cartesian product complex',
 'The product of two cubical meshes has one k-element for each pair of an i-element and a j-element with i+j=k, over pairs of vertices, and its boundary operators satisfy the product rule up to the stored orientations; hence Euler characteristics multiply. The product of oriented meshes is oriented; its boundary is (boundary x whole) union (whole x boundary), and it is closed if and only if both factors are. On complexes the vertex for a pair of vertices is located at the concatenation of the two positions.',
 ['inputs'],'every pair of cubical meshes with total dimension at most 4, including closed (periodic) factors, in which no two cells have the same vertices',
 'Tests build one or two grids.',
 [T+'cubical.py',C+'cubical.py','pycomplex/synthetic.py'],[('product',T+'cubical.py'),('product',C+'cubical.py')],[],['TopologyCubical.product','ComplexCubical.product'])

p('C12','Permutation, combination and symmetry parities are exact',
 'Enumerating permutations or combinations yields every one exactly once, each with its true parity (combinations: the parity of the shuffle that moves the chosen items in front). The parity reported for a rearranged simplex equals that of its permutation, and the parity reported for a rearranged cube is that of the axis permutation plus the number of reflected axes; a rearrangement of cube corners that is not a symmetry of the cube is rejected.',
 ['inputs'],'lists of up to 6 items and every k; simplices up to dimension 5; cubes up to dimension 4 (and every one of the (2^n)! arrangements for n <= 3)',
 'The tests print or count a few of them.',
 ['pycomplex/math/combinatorial.py',T+'simplicial.py',T+'cubical.py'],[('permutations','pycomplex/math/combinatorial.py'),('combinations','pycomplex/math/combinatorial.py'),('relative_simplex_parity',T+'simplicial.py'),('relative_cube_parity',T+'cubical.py')],[],['permutations','combinations','relative_simplex_parity','relative_cube_parity'])

p('C13','No operation alters existing meshes; results do not depend on history',
 'Building, querying, subdividing, transforming, selecting, smoothing, sampling or combining meshes never changes any previously built mesh, array argument or previously returned result. Any query on a mesh, grid, equation or sparse array returns the same answer (up to rounding) whatever operations were performed before on it or on others, in any order, and repeated queries agree; meshes made by transforming, selecting, subdividing, smoothing or copying another answer like one built from scratch from the same vertices and topology.',
 ['histories','programs'],'every sequence of public operations over a growing pool of meshes',
 'Unit tests run each operation once on fresh objects; caching and in-place updates show only under particular call sequences.',
 [T+'primal.py',T+'base.py',C+'base.py',C+'regular.py',C+'cubical.py',C+'simplicial/base.py',C+'simplicial/euclidian.py'],
 [('cached_property caches',T+'primal.py'),('copy',C+'base.py'),('.copy() before in-place writes',C+'base.py')],
 [('cached properties','memoised per object',T+'primal.py'),('parent','back reference set by subdivision and copy',C+'base.py')],['all public queries of topology and complex objects'])

p('C14','Smoothing moves vertices by the exact averaging rule, honouring creases',
 'Smoothing places each vertex at the mean of the centroids of the elements of the governing dimension that contain it: the lowest dimension in which a marked crease element contains it, top elements otherwise; vertices marked as creases themselves do not move. The smoothing operator applied to the vertex positions gives the same result as direct smoothing, its rows sum to one, and it depends only on topology and creases. Subdivision-surface operators (loop and cubical) applied to the coarse vertices give exactly the vertices of the corresponding subdivided complex.',
 ['inputs'],'every pure mesh with rational vertex positions, and every choice of crease chains in each dimension',
 'Tests plot smoothed surfaces and compare operator and direct smoothing on one mesh.',
 [C+'base.py',C+'cubical.py',C+'simplicial/euclidian.py'],[('smooth',C+'base.py'),('smooth_operator',C+'base.py'),('subdivide_operator',C+'cubical.py'),('subdivide_loop_operator',C+'simplicial/euclidian.py')],[],['smooth','smooth_operator','subdivide_cubical(smooth, creases)','subdivide_loop','subdivide_loop_operator'])

p('C15','Metrics tile: primal and dual measures are exact and add up',
 'On regular grids (any spacing, any subset of cells, any presentation) the primal measure of every k-element is the product of its side lengths, and its dual measure the sum, over the cells containing it, of the product of half their transverse widths. On Euclidean simplicial complexes primal measures are counts, lengths, areas, volumes. Where all simplices are well-centred, the product of primal and dual measure of every element is the volume, times N choose k, of the pieces between it and the circumcentres of the elements around it; in planar triangulations, obtuse ones included, each dual edge length is half the sum of the opposite cotangents times the edge length (signed), and vertex dual areas follow. The hodge factors are the ratios of dual to primal measures and inverse to each other. The top-dimensional primal measures and the measures of the dual top cells both add up to the volume of the mesh. The closed dual measures append to the interior ones the dual measures of the boundary mesh, in the order of the boundary elements. The answers do not depend on the order of asking.',
 ['inputs'],'every oriented axis-aligned grid complex (dimension 1..4, non-uniform, any subset of cells), every oriented planar triangulation, every well-centred oriented simplicial mesh of dimension 1..3',
 'Tests check unit cubes and print the rest.',
 [C+'regular.py',C+'base.py',C+'simplicial/euclidian.py',C+'cubical.py','pycomplex/geometry/euclidian.py','pycomplex/geometry/regular.py'],[('metric',C+'regular.py'),('metric',C+'simplicial/euclidian.py'),('hodge_DP',C+'base.py'),('dual_metric_closed',C+'base.py'),('volume',C+'cubical.py')],[],['primal_metric','dual_metric','hodge_DP','hodge_PD','dual_metric_closed','volume'])

p('C16','Regular-grid picking and sampling locate and interpolate correctly',
 'On a grid complex whose cells have equal size along each axis (any subset of the cells of a box), for every point in it primal picking returns a cell containing it with its fractional coordinates along the axes, measured from the first towards the last listed corner; picking a fundamental domain returns the corner sub-cell containing it, as the elements between a vertex and its cell, with fractional coordinates; picking a dual cell returns a nearest vertex of the cell. A supplied initial guess, right or wrong, above or below, mixed over the points, never makes the answer invalid. Sampling a primal 0-form returns the multilinear interpolant of the vertex values; sampling a dual 0-form the multilinear interpolant, over the corner sub-cells, of its averages over the dual elements (boundary values included); both entry by entry for values of any shape. Outside a full box grid both are continued constantly.',
 ['inputs','histories'],'every point (inside, on faces, outside a full box), every initial guess, grids of dimension 1..3 with equal spacing along each axis and cubes listing their axes in coordinate order',
 'Tests plot; guesses are never used in tests.',
 [C+'regular.py'],[('pick_primal',C+'regular.py'),('pick_fundamental',C+'regular.py'),('pick_dual',C+'regular.py'),('sample_dual_0',C+'regular.py'),('sample_primal_0',C+'regular.py')],
 [('pick_primal_precomp','cached search tree',C+'regular.py')],['pick_primal','pick_fundamental','pick_dual','sample_dual_0','sample_primal_0'])

p('C17','Simplicial picking and sampling locate and interpolate correctly',
 'For every point in a well-centred Delaunay mesh connected through its facets (triangulations of any size and placement; tetrahedra for primal picking), primal picking returns a simplex containing it and barycentric weights that are non-negative, sum to one and reproduce the point; picking with an initial guess, right or wrong, gives an equally valid answer. Dual picking returns a vertex nearest to the point. On triangulations, fundamental-domain picking returns a piece containing the point: the weights reproduce it from the corners of that piece of the oriented fundamental subdivision, and the returned domain lists the vertex, edge and triangle of the same piece. Sampling a primal 0-form returns the linear interpolant in each simplex; sampling a dual 0-form with plain averaging returns the linear interpolant over the fundamental domains of its averages over dual elements; with weighted averaging it reproduces constants, the given values at the circumcentres, and stays within the range of the values.',
 ['inputs','histories'],'every interior point (also on edges and vertices) and every initial guess on well-centred Euclidean triangulations, either orientation, any numbering',
 'Tests plot results.',
 [C+'simplicial/base.py',C+'simplicial/euclidian.py',C+'base.py','pycomplex/geometry/euclidian.py'],[('pick_primal',C+'simplicial/base.py'),('pick_dual',C+'simplicial/base.py'),('pick_fundamental',C+'simplicial/base.py'),('sample_dual_0',C+'simplicial/base.py'),('sample_primal_0',C+'simplicial/base.py'),('weighted_average_operators',C+'base.py'),('circumcenter_barycentric','pycomplex/geometry/euclidian.py')],[],['pick_primal','pick_dual','pick_fundamental','sample_dual_0','sample_primal_0'])

p('C18','Stencil derivatives form the periodic grid chain complex',
 'On a periodic stencil grid of any shape and dimension, consecutive primal derivatives compose to zero, consecutive dual derivatives compose to zero, and the dual derivatives are the transposes of the primal ones with respect to the plain inner product. Written as matrices they coincide, up to ordering and orientation of elements, with the coboundary operators of the explicit periodic cubical complex, and the boundary operator is the adjoint. Hodge factors are the ratio of dual to primal cell measures, so each derivative is a difference of neighbouring values with the right pair of neighbours, also across the periodic seam.',
 ['inputs'],'every grid shape with each side >= 1 (dimension 1..4)',
 'Tests check composition on random arrays in a couple of shapes, not equivalence with an explicit complex.',
 [S+'topology.py',S+'complex.py',S+'operator.py',S+'util.py'],[('primal/dual derivatives',S+'topology.py'),('generate symbols',S+'util.py'),('hodge',S+'complex.py')],[],['StencilTopology.primal','StencilTopology.dual','StencilComplex.hodge'])

p('C19','Stencil transfers, refinement and sampling are consistent',
 'Restriction and interpolation of forms between a periodic stencil grid and its coarsening move each value between precisely the parent element and the child elements lying inside it, are transposes of each other up to a factor 2 per axis, and preserve constants. Interpolation and the plain restriction (each coarse element from its children) commute with the derivative, smooth restriction with the adjoint derivative, up to a factor two. Coarsening and refining a stencil complex are inverse on even shapes and keep the physical extent. Forms may be stored in any memory layout and floating point precision. Sampling a 0-form on the periodic grid returns the multilinear periodic interpolant, reproducing the samples at grid points.',
 ['inputs'],'every even grid shape, dimension 1..3, and every sample point including ones across the seam',
 'Tests plot or check one shape.',
 [S+'topology.py',S+'complex.py'],[('coarsen/refine',S+'complex.py'),('transfers',S+'topology.py'),('sample_0',S+'complex.py'),('averaging_operators_0',S+'topology.py')],[],['StencilTopology transfers','StencilComplex.coarse','StencilComplex.fine','sample_0','averaging_operators_0'])

p('C20','Stencil operator algebra preserves meaning',
 'Composing, adding, transposing and simplifying stencil operators never changes what they compute: (A*B)x = A(Bx), (A+B)x = Ax+Bx, <Ax,y> = <x,A^T y>, transposing twice is the identity, and simplification of any expression yields an operator equal to the original on every input. Zero, identity and diagonal operators behave as such in every position of an expression, inverses of diagonal operators are their inverses, the claimed diagonal of an operator equals its true diagonal, views as plain linear operators apply the same map and adjoint, and mismatched shapes are refused.',
 ['programs','inputs'],'every expression tree built from the operator constructors over small grids',
 'Tests try a handful of expressions.',
 [S+'operator.py'],[('simplify',S+'operator.py'),('transpose',S+'operator.py'),('ComposedOperator/CombinedOperator',S+'operator.py')],[],['operators __mul__/__add__/transpose/simplify/__call__'])

p('C21','Block arrays and matrices behave as the dense arrays they stand for',
 'Block arrays and block operators (stencil and sparse versions) are homomorphic to their flat counterparts: flattening and restoring is the identity for any block sizes, and addition, scaling, multiplication, transposition, slicing, taking or making diagonals and application to block vectors commute with flattening. Views as plain linear operators apply the same map and the same adjoint, also for non-square layouts. Assigning to a block stores that value and touches no other.',
 ['inputs','programs'],'every block layout (1..4 blocks per side, blocks of any - also equal - sizes, missing/zero blocks) and every expression over them',
 'Tests use one or two 2x2 layouts.',
 [S+'block.py','pycomplex/block.py'],[('BlockArray/BlockOperator',S+'block.py'),('BlockMatrix/SparseBlockMatrix/DenseBlockArray','pycomplex/block.py')],[],['BlockArray.to_dense/from_dense','BlockOperator.__mul__/transpose/aslinearoperator','BlockMatrix operations'])

p('C22','Assembled block systems have the canonical derivative structure',
 'The canonical system on a periodic stencil grid contains, between forms of adjacent degree, exactly the derivative and codifferential operators weighted by the hodges, the hodges on the diagonal, and nothing elsewhere, so that it is symmetric. Selecting equations and unknowns, zeroing blocks, scaling by material fields (the diffusion formulations, fine and coarsened) and forming normal equations keep equations, unknowns, degrees and right-hand sides aligned: the normal system is the transpose times the system, applied to both sides, and any solution of a system solves its normal system. Residuals, allocated vectors, diagonals, and the restriction and interpolation of block vectors match those degrees. Deriving a system never changes the one it was derived from.',
 ['inputs','programs'],'every grid of dimension 1..3, every selection of rows and columns, zeroed blocks and normal equations, in every order',
 'Tests solve one or two equations and plot.',
 [S+'linear_system.py',S+'diffusion.py',S+'equation.py'],[('System.canonical',S+'linear_system.py'),('normal/normal_ne',S+'linear_system.py'),('__getitem__',S+'linear_system.py'),('Diffusion.formulate',S+'diffusion.py'),('residual',S+'equation.py')],[],['System.canonical','System.__getitem__','normal','normal_ne','residual','allocate_x','allocate_y','restrict_dual','restrict_primal','Diffusion.formulate','Diffusion.coarse'])

p('C23','Multigrid cycles visit levels in the right order and keep exact solutions',
 'A v-cycle on a hierarchy of L levels pre-smooths, restricts the residual, recurses on the coarser level with a zero initial guess, interpolates the correction back, adds it and post-smooths, with the exact (coarsest) solve performed once per descent; a full multigrid cycle solves the coarsest level first and performs v-cycles on every successively finer level, ending on the finest. Repeated cycling performs exactly the requested number of cycles, and the preconditioner view is one cycle from zero on the transformed right-hand side. Hierarchies list the coarsest equation first. An exact solution is left unchanged by every v-cycle, neither right-hand sides nor initial guesses are modified, and the error after a v-cycle depends on the error before it alone.',
 ['histories','configurations'],'every hierarchy depth, every number of cycles, every linear smoother/solver pair',
 'Tests look at final residual plots; order and count of operations are not observed.',
 [S+'multigrid.py'],[('v_cycle',S+'multigrid.py'),('solve_v_cycle',S+'multigrid.py'),('solve_full_cycle',S+'multigrid.py')],[],['equation callbacks: smooth, residual, restrict, interpolate, solve'])

p('C24','Clipping, extrusion and mesh files keep the geometry',
 'Clipping a triangle mesh by a plane (a point on it and a direction, not necessarily a unit vector) returns exactly the part of every triangle on the side the direction points away from, cut where the edges cross the plane and with the orientation of the triangles kept; new points lie on the plane, on the crossed edges, once each. With clip=False both parts are returned, no triangle straddles the plane, and the mesh stays joined along the cut with the same topology. Extruding an oriented mesh with a boundary to a displaced copy of itself gives a closed oriented solid made of the mesh, the reversed copy and two triangles per boundary edge, with the volume of the prism. Writing a surface to an STL file stores every triangle in order with its normal, and reading a file (its own or one from another program) returns the same triangles at the same positions in the same order with shared vertices joined.',
 ['inputs'],'every triangle mesh in the plane or in space, every plane that leaves something (also through vertices), every displacement; every triangulated surface for files',
 'Tests plot or do one example.',
 [C+'simplicial/euclidian.py'],[('clip',C+'simplicial/euclidian.py'),('extrude',C+'simplicial/euclidian.py'),('save_STL/load_STL',C+'simplicial/euclidian.py')],[],['clip','extrude','save_STL','load_STL'])

p('C25','Synthetic constructors build exactly the advertised meshes',
 'Each ready-made mesh has the advertised combinatorics and geometry for every parameter. n_simplex: one simplex, equidistant unit vertices or the canonical corners. n_cube and n_cube_grid: every unit cell of the box exactly once on the lattice points (centred or starting at the origin), oriented unless asked otherwise, with the whole box surface as boundary. n_cube_dual: the 2^n simplices on the signed unit axes, closed and oriented. circle (at least one subdivision): one closed oriented ring of evenly spaced unit vertices going round once; cylinder: an oriented tube of the given length and radius with two rims. Icosahedron and icosphere: closed oriented unit spheres with the right counts at every refinement, twelve vertices of degree five and the rest six; hexacosichoron: the 120, 720, 1200, 600 elements of the regular polytope. delaunay_cube (planar): an oriented triangulation covering the unit square once, keeping all the border points; optimal_delaunay_sphere: a closed oriented triangulation of the sphere using all the points.',
 ['configurations','inputs'],'every valid size parameter and dimension, and every random seed',
 'Tests instantiate one size each and check little.',
 ['pycomplex/synthetic.py'],[('n_cube_grid','pycomplex/synthetic.py'),('icosphere','pycomplex/synthetic.py'),('hexacosichoron','pycomplex/synthetic.py'),('delaunay_cube','pycomplex/synthetic.py'),('n_simplex','pycomplex/synthetic.py'),('circle','pycomplex/synthetic.py')],[],['synthetic.*'])

p('C26','Sparse helpers and the sparse tensor class match dense arithmetic',
 'Normalising a sparse operator makes the absolute row (or column) sums one and keeps its sparsity and ratios; inverting a diagonal, building zero or one matrices, selection, transfer and incidence matrices give exactly the named operators. The sparse array class gives, for every supported operation (sum, elementwise product, scaling, transpose, filtering, concatenation, contraction of the last axis with the first, conversion to and from dense), the same result as the dense arrays the entries stand for, whatever the order of the entries and whether or not the two operands have the same indices. Looking up elements by their corners, sorting with origins, relative permutations and grid indices are exact.',
 ['inputs','programs'],'every small sparse array in every order of entries, including empty arrays, disjoint indices, negative values and repeated entries (for sums and contractions); every sparse matrix without explicitly stored zeros',
 'Two small examples are tested.',
 ['pycomplex/sparse.py','pycomplex/topology/util.py','pycomplex/util.py'],[('normalize_l1','pycomplex/sparse.py'),('inv_diag','pycomplex/sparse.py'),('Sparse','pycomplex/sparse.py'),('multi_indices','pycomplex/sparse.py'),('element_indices','pycomplex/topology/util.py'),('selection_matrix','pycomplex/topology/util.py')],[],['pycomplex.sparse.*','pycomplex.topology.util.*'])

p('C27','Enclosed volume, normals, areas and centre of mass of surfaces and curves',
 'For a triangulated surface in space: each triangle normal is the cross product of its edges in the order of its corners, each vertex normal the sum of those of its triangles, the area the sum of the triangle areas, of which each vertex gets a third of the area of every triangle around it, and the edge lengths the distances. For a closed oriented surface the volume is the signed enclosed volume, wherever the origin lies, and the centre of mass that of the enclosed body, convex or not. For a closed oriented curve in the plane the volume is the signed enclosed area; an open curve is refused. Integer and floating point vertices give the same answers.',
 ['inputs'],'every oriented triangulated surface in space, of any topology and placement, and every oriented planar curve',
 'Tests evaluate the volume of one sphere around the origin.',
 [C+'simplicial/euclidian.py',C+'cubical.py','pycomplex/geometry/euclidian.py'],[('triangle_normals',C+'simplicial/euclidian.py'),('vertex_normals',C+'simplicial/euclidian.py'),('volume',C+'simplicial/euclidian.py'),('center_of_mass',C+'simplicial/euclidian.py'),('ComplexCubical1Euclidian2.volume',C+'cubical.py'),('segment_normals','pycomplex/geometry/euclidian.py')],[],['triangle_normals','vertex_normals','volume','center_of_mass','area','edge_lengths'])

p('C28','Smoothers of block systems take the documented step and keep solutions',
 'One sweep of each smoother of a normal-equation problem A x = B y takes exactly its documented step: Jacobi moves every unknown by half the relaxation times the normal residual over the diagonal of the normal matrix; blockwise Gauss-Seidel on the unknowns does so block by block with updated values; blockwise Gauss-Seidel on the equations corrects along the transposed rows, equation block by equation block; overrelaxation and smoothing apply the Jacobi step for each knot in order. An exact solution is left unchanged, and neither the given state nor the right-hand side is modified.',
 ['inputs','histories'],'every system selected from the canonical one on grids with even (or unit) axes, every state and right-hand side',
 'Tests look at plots of converged solutions.',
 [S+'equation.py'],[('jacobi',S+'equation.py'),('NR_BLOCK_GS',S+'equation.py'),('NE_BLOCK_GS',S+'equation.py'),('overrelax',S+'equation.py'),('smooth',S+'equation.py'),('diagonal',S+'block.py')],[],['NormalSmoothEquation.jacobi','NR_BLOCK_GS','NE_BLOCK_GS','overrelax','smooth'])

p('C29','Weighted duals, mesh quality judgments and their measures are exact',
 'The position of every element of a (weighted) simplicial complex lies in the span of its corners, at equal power (squared distance less weight) from all of them, and its barycentric coordinates sum to one and reproduce it. The depth of a cell centre as seen from each facet, and the plain or signed sums of such values around vertices and facets, are exact; a complex is judged well-centred exactly when every element centre lies inside its element, pairwise Delaunay exactly when every dual edge is positively directed, and of positive dual metric exactly when all dual measures are positive. Planar measures of weighted meshes are those of the weighted dual, boundary included, and add up to the area. A point belongs to the dual cell of the vertex of least power, and in a regular triangulation to the triangle that contains it. Subsets and boundaries keep the weights.',
 ['inputs'],'every simplicial mesh (lines, planar with obtuse triangles, surfaces, solids) with every placement and every assignment of weights, including none',
 'The tests plot weighted meshes and compare one optimised example.',
 [C+'simplicial/base.py',C+'simplicial/euclidian.py','pycomplex/geometry/euclidian.py',C+'base.py'],[('circumcenter_barycentric','pycomplex/geometry/euclidian.py'),('dual_edge_excess',C+'simplicial/base.py'),('remap_boundary_N',C+'simplicial/base.py'),('is_pairwise_delaunay',C+'base.py'),('is_well_centered',C+'base.py'),('pick_dual',C+'simplicial/base.py'),('augment/weights_to_offsets',C+'simplicial/base.py'),('metric',C+'simplicial/euclidian.py')],[],['primal_position','primal_barycentric','is_well_centered','is_pairwise_delaunay','dual_edge_excess','pick_dual','metric'])

p('C30','Spherical complexes measure, locate and refine exactly on the sphere',
 'Every element centre of a spherical complex is the direction at equal angles from its corners. A spherical mesh is judged well-centred exactly when all triangles are acute and pairwise Delaunay exactly when each edge has empty circles. On well-centred meshes arc lengths, triangle areas, dual edges and dual cells are the great-circle measures times the power of the radius; primal and dual areas agree, cover a closed sphere, and boundary dual edges are closed off. A direction is located in the simplex, the fundamental piece or the nearest vertex cell that contains it, whatever guess is passed, with the barycentric coordinates of that simplex, so that sampling of vertex and cell values is the linear interpolation. Subdivision puts new vertices at element centres; subdivision, boundary, copies, subsets and casts keep radius, positions, cells and (where vertices persist) weights.',
 ['inputs'],'every triangulation of a sphere, circle or higher sphere, whole or in part, every radius and every direction',
 'The tests locate ten random directions on the most regular spheres and check totals of one measure.',
 [C+'simplicial/spherical.py','pycomplex/geometry/spherical.py',C+'simplicial/base.py','pycomplex/geometry/euclidian.py'],[('primal_position',C+'simplicial/spherical.py'),('metric',C+'simplicial/spherical.py'),('pick_primal_precomp',C+'simplicial/spherical.py'),('triangle_area_from_corners','pycomplex/geometry/spherical.py'),('pick_fundamental',C+'simplicial/base.py'),('subdivide_loop',C+'simplicial/spherical.py')],[],['primal_position','metric','pick_primal','pick_dual','pick_fundamental','sample_primal_0','sample_dual_0','subdivide_loop','as_euclidian','as_spherical'])

p('C31','Velocities recovered from dual fluxes are the closest ones cell by cell',
 'On a weighted or unweighted simplicial complex that fills its space and on axis-aligned grids, the velocity computed for a cell from the flux along the dual edges is the one whose flow through the facets of the cell comes closest (in least squares) to flux times facet measure over dual edge length; it is exact where the cell neither creates nor loses anything, a uniform flow gives back its own velocity on every mesh, on grids each component is the average of opposite facets. Several components are treated independently, fluxes into the boundary are ignored, boundary dual vertices are at rest, the flux is left as it was, and meshes with a backward dual edge are refused.',
 ['inputs'],'every oriented mesh of dimension one to three with positive dual edges, every vertex weighting, every flux and field shape',
 'The tests push a random flux through one mesh and assert nothing about the result.',
 [C+'base.py','pycomplex/geometry/euclidian.py',C+'regular.py','pycomplex/math/linalg.py'],[('dual_flux_to_dual_velocity',C+'base.py'),('simplex_gradients','pycomplex/geometry/euclidian.py'),('selector_interior','pycomplex/topology/dual.py')],[],['dual_flux_to_dual_velocity'])

p('C32','Moved complexes are exact copies, and casts keep the complex',
 'Translating, scaling, linearly or projectively transforming a Euclidean complex sends every vertex to its image (row vectors, homogeneous coordinates for affine_transform), so that any sequence of moves amounts to the product of their matrices, in any dimension and between dimensions. The result is a complex of the same class, over the same topology, with the same weights and a tight bounding box; it remembers what it was made from, and the original stays as it was. Judgments, volumes and metrics asked of a moved complex are those of its own positions, whatever had been asked of the original before. Casts between classes apply exactly to complexes of the right dimensions and refuse the others, and keep positions, cells, topology and weights.',
 ['inputs','histories'],'every Euclidean complex, every sequence of moves, every cast',
 'The tests use translate and scale in passing and cast complexes only where the cast applies; affine_transform and to_simplicial raised on every call.',
 [C+'base.py',C+'cubical.py',C+'regular.py',C+'simplicial/euclidian.py'],[('copy',C+'base.py'),('affine_transform',C+'base.py'),('transform',C+'base.py'),('as_11 ... as_44',C+'cubical.py'),('as_regular',C+'cubical.py'),('to_simplicial',C+'cubical.py'),('as_cube',C+'simplicial/euclidian.py')],[('vertices','positions',C+'base.py'),('parent','what a complex was made from',C+'base.py')],['translate','scale','transform','affine_transform','copy','box','as_*'])

p('C33','Dense helpers answer entry by entry, and by definition',
 'The helpers of pycomplex.math.linalg and of pycomplex.geometry answer every entry of a batch of any shape as they would on its own, for integers and floats alike, without changing their arguments. Pseudo inverses satisfy the four conditions of Penrose for wide, tall, square and singular matrices; inverses, adjoints, matrix powers and roots multiply out; orthonormalize gives the closest orthonormal matrix, or the closest rotation; normalisation, dot products, rotations in a plane and their angles are by definition. Volumes of simplices are determinants, wrong shapes are refused; normals are perpendicular to the opposing faces and gradients are those of the volume; circumcentres and their barycentric coordinates have equal power to all corners, with and without weights, wherever the simplex lies; well-centredness is the positivity of those coordinates; volumes of boxes are products of their sides. The iterative solvers of pycomplex.solvers solve the symmetric systems they are given, definite ones by conjugate gradients, also within a subspace, and any nonsingular one by minimal residuals.',
 ['inputs'],'every small matrix, simplex and box, of every batch shape',
 'The tests compare a handful of square float matrices and single simplices; wide pseudo inverses, batched centres and orthonormalisation of oblong or mirrored axes were wrong or raised.',
 ['pycomplex/math/linalg.py','pycomplex/geometry/euclidian.py','pycomplex/geometry/regular.py','pycomplex/solvers.py'],[('solve_cg','pycomplex/solvers.py'),('solve_minres','pycomplex/solvers.py'),('pinv','pycomplex/math/linalg.py'),('orthonormalize','pycomplex/math/linalg.py'),('power','pycomplex/math/linalg.py'),('circumcenter_barycentric','pycomplex/geometry/euclidian.py'),('circumcenter_construction','pycomplex/geometry/euclidian.py'),('unsigned_volume','pycomplex/geometry/euclidian.py'),('hypervolume','pycomplex/geometry/regular.py')],[('none','the helpers are pure functions of arrays','pycomplex/math/linalg.py')],['pinv','inverse','adjoint','null','power','normalized','orthonormalize','rotation_from_plane','circumcenter*','signed_volume','unsigned_volume','triangle_angles','segment_normals','simplex_normals','simplex_gradients','hypervolume','solve_cg','solve_minres'])

N = [('N01','Hodge/eigen/Poisson solutions converge to continuum values',
 'Discrete solutions of eigen-, Poisson-, Stokes- and flow problems converge to the continuum solution under refinement, and iterative solvers reach their tolerances.'),
 ('N02','Weight optimisation improves meshes',
 'Optimising vertex weights for the metric or for the pieces of a subdivision yields well-centred meshes when it succeeds, and volumes of spherical elements above dimension two are approximated to working precision.')]
for i,t,s in N:
    p(i,t,s,['inputs'],'every mesh and right-hand side','numerical accuracy over all inputs cannot be sampled',
      ['pycomplex/solvers.py',C+'simplicial/spherical.py','pycomplex/geometry/spherical.py'],[('floating point numerics','pycomplex/')])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for r in P: f.write(json.dumps(r)+'\n')
print(len(P))
