import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["Bembel/src/"+f for f in files],mechanism=[dict(name=a,where="Bembel/src/"+b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","Polynomial shape functions are the Bernstein basis with exact derivatives",
 "For every supported polynomial degree and every point of the unit interval, the local shape functions equal the Bernstein polynomials of that degree: non-negative, summing to one, and with derivative evaluations equal to the derivatives of the values. Evaluating a coefficient vector gives the coefficient-weighted sum of exactly these functions, and the one- and two-dimensional bulk evaluations of values and derivatives agree entry by entry with the products of the one-dimensional functions.",
 ["inputs","configurations"],"all points x,y in [0,1] (reals), all coefficient vectors, every degree the dispatch table offers up to a stated bound",
 "Tests sample a few points and degrees against a reference; the identity must hold on the whole interval for each unrolled recursion and each degree of the dispatch table.",
 ["Spline/Bernstein.hpp","Spline/ShapeFunctions.hpp","Spline/Basis.hpp","Spline/Pascal.hpp"],
 [("recursive template evaluation of Bernstein polynomials","Spline/Bernstein.hpp"),("degree dispatch","Spline/ShapeFunctions.hpp"),("tensor product bases","Spline/Basis.hpp")],
 ["values returned by the shape function and basis evaluation functions"])
p("C02","Spline evaluation equals the B-spline definition everywhere in its domain",
 "For every coefficient vector and every point in the knot range, evaluating a spline or its derivative gives the value of the Cox-de Boor B-spline combination, including at interior knots, at repeated knots and at the right end point. In two directions the result is the tensor product of the one-dimensional ones, with rows and columns of the coefficient grid assigned to the right directions.",
 ["inputs","configurations"],"all evaluation points in [0,1], all control values, for stated degrees and knot vectors",
 "Tests evaluate on a fixed grid of points with random coefficients; knots, end points and derivative at knots are only sampled.",
 ["Spline/DeBoor.hpp","Spline/DeBoorTP.hpp","Spline/Knots.hpp"],
 [("de Boor recursion","Spline/DeBoor.hpp"),("tensor product and directional derivatives","Spline/DeBoorTP.hpp")],
 ["values returned by spline evaluation"])
p("C03","Knot vectors are well formed and every point is located in its own interval",
 "Generated knot vectors are sorted, open, span the unit interval and carry the requested refinement and multiplicity; extracting the unique knots loses no interval. For every double in [0,1] the location step yields an interval of the knot sequence that contains the point and is in range, and rescaling into it gives a local coordinate in [0,1].",
 ["inputs","configurations"],"every IEEE double in [0,1]; stated sizes of knot vectors",
 "Interval location errs only at specific doubles (on or next to a knot, at 0 and 1); tests use a handful of interior samples.",
 ["Spline/Knots.hpp","Spline/Localize.hpp"],
 [("knot generation","Spline/Knots.hpp"),("interval search and rescaling","Spline/Localize.hpp")],
 ["knot vectors, located index, rescaled coordinate"])
p("C04","A patch evaluates its NURBS map, tangents, and normal consistently",
 "For every parameter point, control point and positive weight, evaluating a surface patch gives the NURBS surface defined by its control points, the reported tangents are the exact partial derivatives of that map, and the normal is their cross product. The one-shot evaluation that fills a surface point reports the same parameter coordinates, weight, position and tangents as the separate evaluations.",
 ["inputs","configurations"],"all parameter points, all control points, all positive weights; stated degrees, knot vectors and numbers of elements per direction, also different in the two directions",
 "Tests compare a few random patches at sampled points; they never cover unequal degrees, several elements per direction, or all weights.",
 ["Geometry/Patch.hpp","Geometry/SurfacePoint.hpp"],
 [("homogeneous Bezier evaluation and quotient rule","Geometry/Patch.hpp"),("surface point layout","Geometry/SurfacePoint.hpp")],
 ["values returned by patch evaluation and surface point accessors"])
p("C05","Bezier extraction and patch splitting preserve the surface",
 "Building a patch from B-spline control points and knots, and cutting a multi-element patch into single-element patches, changes only the representation: for every point the original spline surface, the built patch and the corresponding piece evaluate to the same point and tangents up to the affine change of parameter. Every piece is produced exactly once and the pieces tile the original.",
 ["inputs","configurations"],"all control points and weights, all parameter points; stated degrees (equal and unequal per direction) and knot vectors",
 "Tests use symmetric degrees and compare sampled points of loaded example files.",
 ["Spline/Bezierextraction.hpp","Geometry/Patch.hpp","Geometry/PatchVector.hpp","Geometry/Geometry.hpp"],
 [("extraction matrices","Spline/Bezierextraction.hpp"),("patch construction and shredding","Geometry/Patch.hpp")],
 ["points and tangents of original and converted patches"])
p("C06","Refining the element tree keeps a conforming, correctly indexed mesh",
 "After any number of uniform refinement steps, in one go or one after the other, the leaves tile every patch by squares of the right size, neighbour relations are symmetric and exactly those elements sharing a full edge, neighbouring elements share the same vertex numbers, and vertices are numbered without gaps or duplicates. Leaf iteration visits every element once in the order of the element numbering, and the point and index lists handed to users describe the same elements.",
 ["inputs","configurations","histories"],"all identifications of edges between patches within the stated number of patches, stated refinement depths, all sequences of refinement calls within the bound",
 "Tests refine two fixed geometries; every relative orientation of two adjacent patches is a separate case of the index bookkeeping.",
 ["ClusterTree/ElementTree.hpp","ClusterTree/ElementTreeNode.hpp","ClusterTree/ClusterTree.hpp"],
 [("leaf refinement and neighbour update","ClusterTree/ElementTree.hpp"),("node iteration","ClusterTree/ElementTreeNode.hpp")],
 ["leaf iteration, adjacency, vertex ids, point lists"])
p("C07","Patch connectivity is derived exactly from the corner coordinates",
 "Two patches are connected along an edge exactly when the end points of those edges coincide within the comparison tolerance, whatever the position, order or orientation of the patches; corners are merged exactly when they coincide. Every interface is reported once from the coarse topology with the right pair of edge numbers and every edge without a partner is reported as boundary.",
 ["inputs","configurations"],"all corner coordinates of the stated number of patches (real variables), i.e. all coincidence patterns",
 "Tests only see the connectivity of a few shipped geometries.",
 ["ClusterTree/ElementTree.hpp","ClusterTree/ClusterTree.hpp","util/Constants.hpp"],
 [("corner merging and edge matching","ClusterTree/ElementTree.hpp"),("edge information list","ClusterTree/ElementTree.hpp")],
 ["patch topology info, vertex ids, adjacency of patches"])
p("C08","Every parameter point is looked up in the element that contains it",
 "For every double in the unit square and every refinement level, the element chosen for evaluating a function at a point of a patch is one that contains the point, including points on element and patch boundaries and at 1, and the local coordinate handed to the basis lies in the unit square. No admissible point aborts the evaluation or reads outside the element tables.",
 ["inputs"],"every IEEE double in [0,1] per coordinate, refinement levels 0..5",
 "Only individual doubles next to element boundaries expose an off-by-one or a rounding problem; tests never sit on them.",
 ["AnsatzSpace/FunctionEvaluator.hpp","AnsatzSpace/FunctionEvaluatorEval.hpp","ClusterTree/ElementTree.hpp","ClusterTree/ElementTreeNode.hpp"],
 [("reordering vector","ClusterTree/ElementTree.hpp"),("index arithmetic of evaluateOnPatch","AnsatzSpace/FunctionEvaluator.hpp"),("map to reference element","ClusterTree/ElementTreeNode.hpp")],
 ["evaluateOnPatch results"])
p("C09","Cluster bounding balls enclose their elements",
 "The ball computed for the union of two balls contains both balls for every position and radius, including nested and identical balls. Consequently every element of the tree lies, with all its corners and with the balls of all its children, inside its reported ball.",
 ["inputs"],"all centres and radii (real variables); all corner positions of a patch",
 "Tests check a few configurations; the case distinction nested / disjoint / identical depends on unrestricted reals.",
 ["util/GeometryHelper.hpp","ClusterTree/ElementTree.hpp"],
 [("enclosing ball of two balls","util/GeometryHelper.hpp"),("propagation of balls up the tree","ClusterTree/ElementTree.hpp")],
 ["midpoint and radius of elements"])
p("C10","Element pairs are classified and aligned correctly for singular quadrature",
 "For every pair of elements, the classification reports identical, edge-sharing, vertex-sharing or separated exactly as their corner points coincide, and the reported rotations map the shared vertex to the origin corner, respectively the shared edge to the first edge of both reference squares with matching direction. The rotations themselves are the four rigid rotations of the unit square about its centre in every use.",
 ["inputs","configurations"],"all corner positions and all 4x4 (vertex) and 4x4 (edge) combinations as solver variables; all points of the unit square",
 "Shipped geometries realise only some of the 16 edge combinations and the wrong rotation only degrades convergence.",
 ["DuffyTrick/compareElements.hpp","DuffyTrick/tau.hpp"],
 [("corner comparison","DuffyTrick/compareElements.hpp"),("rotation of the unit square","DuffyTrick/tau.hpp")],
 ["case and rotations reported, rotated points"])
p("C11","Regularised quadrature integrates polynomials over element pairs exactly",
 "For every element-pair case (far, separated, identical, common edge in all alignments, common vertex in all alignments) the pair quadrature used for assembling evaluates the integrand only at points inside both elements, and integrates every polynomial integrand up to the degree the rule supports exactly over the product of the two elements. Transposed element pairs give consistent results.",
 ["inputs","configurations"],"all polynomial integrands up to the stated degree (symbolic coefficients), all alignments",
 "An error in one of the sub-simplex maps changes one case and alignment only and shows as a lower convergence order at best.",
 ["DuffyTrick/integrate0.hpp","DuffyTrick/integrate1.hpp","DuffyTrick/integrate2.hpp","DuffyTrick/integrate3.hpp","DuffyTrick/integrate4.hpp","DuffyTrick/evaluateBilinearForm.hpp","DuffyTrick/farFieldQuadratureNodes.hpp"],
 [("Duffy transformations","DuffyTrick/integrate2.hpp"),("Duffy transformations edge","DuffyTrick/integrate3.hpp"),("Duffy transformations vertex","DuffyTrick/integrate4.hpp"),("case dispatch","DuffyTrick/evaluateBilinearForm.hpp")],
 ["accumulated integrals of a polynomial integrand"])
p("C12","Gauss quadrature rules are exact to their full degree",
 "Every one-dimensional rule of order n offered by the library has its points strictly inside the unit interval, positive weights, and integrates every polynomial of degree at most 2n-1 exactly; the two-dimensional rules do the same per direction. The rule returned for an index is the rule of that order.",
 ["inputs","configurations"],"all polynomials up to the exactness degree (symbolic coefficients), all orders in the tables",
 "Tests check a low number of monomials and orders; a single wrong digit in one of some thousand tabulated numbers goes unnoticed.",
 ["Quadrature/GaussLegendreRule.hpp","Quadrature/GaussLegendre.hpp","Quadrature/GaussSquare.hpp","Quadrature/QuadratureVector.hpp","Quadrature/TensorProductQuadratureVector.hpp"],
 [("tabulated rules","Quadrature/GaussLegendreRule.hpp"),("tensor product rules","Quadrature/TensorProductQuadratureVector.hpp")],
 ["points and weights of rules"])
p("C13","The spline space embeds into the elementwise polynomial space",
 "For every coefficient vector of the smooth spline space on a patch, converting it to elementwise coefficients yields element functions whose values coincide with the spline at every point of every element. The number of spline functions per patch equals the dimension given by degree, refinement and knot multiplicity, for scalar and both components of vector-valued spaces.",
 ["inputs","configurations"],"all coefficient vectors and all points of the patch, stated degrees, refinement levels and knot multiplicities, all three kinds of spaces",
 "Tests check a few degrees at sampled points only for the matrix entries.",
 ["AnsatzSpace/Projector.hpp","AnsatzSpace/SuperSpace.hpp","AnsatzSpace/AnsatzSpace.hpp"],
 [("projector assembly","AnsatzSpace/Projector.hpp"),("local-to-global maps","AnsatzSpace/SuperSpace.hpp")],
 ["transformation matrix of an ansatz space, function evaluation"])
p("C14","Global spaces are conforming across patch interfaces",
 "On consistently oriented surfaces, for every coefficient vector of a globally continuous space the function takes the same value from both patches at any point of an interface (hence from all patches around a vertex that are connected through interfaces), and for every coefficient vector of a div-conforming space the normal component is continuous across every interface, whatever edges of the patches are joined and however they are oriented. Degrees of freedom are merged exactly as required: none are lost, none merged wrongly, and the reported dimension is the dimension of the conforming space.",
 ["inputs","configurations"],"all coefficient vectors, all points on the interface, all 4x4 edge identifications of two patches, closed multi-patch surfaces, stated degrees and levels",
 "Shipped test geometries realise few edge pairings; a wrong sign or reversed index on one pairing is invisible elsewhere.",
 ["AnsatzSpace/Glue.hpp","AnsatzSpace/AnsatzSpace.hpp"],
 [("identification of degrees of freedom","AnsatzSpace/Glue.hpp"),("glue matrix","AnsatzSpace/Glue.hpp")],
 ["traces of functions on both sides of interfaces, number of degrees of freedom"])
p("C15","Function evaluation is linear and agrees with the basis it claims to use",
 "The value (and divergence) reported for a function at a point equals the coefficient-weighted sum of the mapped basis functions of the element containing the point, scaled as documented, for scalar and div-conforming spaces on curved patches. It is linear in the coefficients and the same whether the function object was constructed, initialised, copied or assigned.",
 ["inputs","configurations","histories"],"all coefficient vectors, all points, all control points of the carrying patch within the stated sizes; all construct/copy/assign histories within the bound",
 "Tests evaluate a few functions; copies, assignment and divergence on curved elements are not covered.",
 ["AnsatzSpace/FunctionEvaluator.hpp","AnsatzSpace/FunctionEvaluatorEval.hpp","AnsatzSpace/SuperSpace.hpp"],
 [("evaluation kernels","AnsatzSpace/FunctionEvaluatorEval.hpp"),("basis mapping","AnsatzSpace/SuperSpace.hpp")],
 ["evaluate, evaluateOnPatch, evaluateDivergence"])
p("C16","The block cluster tree partitions all element pairs into valid blocks",
 "For every admissibility parameter and refinement level, the leaves of the block partition cover every pair of elements exactly once, a block is compressed only if the two clusters satisfy the admissibility condition, and compressed blocks never occur above the level for which cluster interpolation is available. Row and column ranges of the blocks agree with the element numbering.",
 ["inputs","configurations"],"all admissibility parameters and all cluster positions (real variables) within the stated tree sizes",
 "Tests fix eta and geometry, so only one partition is ever seen.",
 ["H2Matrix/BlockClusterTree.hpp","H2Matrix/TreeLeaf.hpp"],
 [("admissibility test and subdivision","H2Matrix/BlockClusterTree.hpp")],
 ["leaves of the partition, their index ranges and flags"])
p("C17","Multipole interpolation, moments and transfers are mutually exact",
 "Cluster interpolation reproduces every polynomial up to its order on every cluster; transferring from a cluster to its four children agrees with interpolating on the children directly; and moments of element basis functions equal their integrals against the interpolation polynomials. The upward and downward passes are transposes of each other for every input vector.",
 ["inputs","configurations"],"all polynomials up to the interpolation order, all points, all coefficient vectors; stated orders and numbers of levels",
 "Tests compare a few matrices; a swapped child or a wrong moment order only degrades accuracy of compressed products.",
 ["H2Matrix/H2Multipole.hpp"],
 [("Chebyshev interpolation, transfer and moment matrices","H2Matrix/H2Multipole.hpp")],
 ["transfer and moment matrices, upward and downward pass"])
p("C18","Products with a compressed matrix are exactly the products of its blocks",
 "For every vector, applying a compressed matrix equals applying the dense matrix its own blocks, moments and transfers represent, so it is linear; and sums, differences and scalar multiples of compressed matrices act as the same combination of the individual products, including for vector-valued operators, repeated use and blocks of either kind.",
 ["inputs","configurations"],"all vectors, all entries of all stored blocks (symbolic), all scalars, within the stated tree sizes",
 "Tests compare compressed and dense matrices for one operator and random vectors up to the compression error, which hides mistakes below that error.",
 ["H2Matrix/H2Matrix.hpp","H2Matrix/EigenHelper/H2DenseProduct.hpp","H2Matrix/EigenHelper/H2CwiseBinaryOp.hpp","H2Matrix/EigenHelper/H2Assign.hpp","H2Matrix/H2Multipole.hpp"],
 [("product evaluation","H2Matrix/EigenHelper/H2DenseProduct.hpp"),("lazy sums","H2Matrix/EigenHelper/H2CwiseBinaryOp.hpp")],
 ["result vectors of matrix products"])
p("C19","Boundary integral operators implement their kernels for all point pairs",
 "For every pair of distinct surface points with arbitrary tangents, the integrand of the Laplace, Helmholtz and Maxwell operators equals the defining kernel (single layer, double layer, adjoint double layer, hypersingular, electric field) times the mapped basis functions and surface measures. The compressed-block kernel is the same kernel evaluated at the interpolation points, symmetric operators are symmetric under exchange of the points, and the adjoint double layer is the transpose of the double layer.",
 ["inputs","configurations"],"all positions, tangents, weights (reals) of both points, all real wavenumbers / complex wavenumbers where supported, stated degrees",
 "Double layer, hypersingular and complex kernels are only exercised by examples through convergence rates on a sphere, where normals are special.",
 ["Laplace/SingleLayerOperator.hpp","Laplace/DoubleLayerOperator.hpp","Laplace/AdjointDoubleLayerOperator.hpp","Laplace/HypersingularOperator.hpp","Helmholtz/SingleLayerOperator.hpp","Helmholtz/DoubleLayerOperator.hpp","Helmholtz/AdjointDoubleLayerOperator.hpp","Helmholtz/HypersingularOperator.hpp","Maxwell/SingleLayerOperator.hpp","AnsatzSpace/SuperSpace.hpp"],
 [("integrands","Laplace/DoubleLayerOperator.hpp"),("compressed integrands","Helmholtz/DoubleLayerOperator.hpp"),("basis mapping","AnsatzSpace/SuperSpace.hpp")],
 ["values of the integrand and interpolation kernels"])
p("C20","Right-hand sides are the integrals of the data against the basis",
 "Every linear form (Dirichlet, Neumann, tangential and rotated tangential traces) assembles, for all data in the space its quadrature integrates exactly, the integral over the surface of the trace of the user-supplied function against each basis function, with the trace using the outward surface data of the point. Assembly is linear in the data and includes every element exactly once.",
 ["inputs","configurations"],"all polynomial data functions with symbolic coefficients, all positions and tangents of a point for the pointwise trace",
 "Tests only run traces through examples with a single analytic function.",
 ["LinearForm/DirichletTrace.hpp","LinearForm/NeumannTrace.hpp","LinearForm/TangentialTrace.hpp","LinearForm/RotatedTangentialTrace.hpp","LinearForm/DiscreteLinearForm.hpp","LinearForm/LinearForm.hpp"],
 [("trace integrands","LinearForm/NeumannTrace.hpp"),("assembly","LinearForm/DiscreteLinearForm.hpp")],
 ["assembled right-hand side vectors, pointwise integrands"])
p("C21","Local operators are symmetric and have the right energies",
 "The assembled mass matrix represents the surface inner product of any two functions of the space and the Laplace-Beltrami matrix the surface gradient inner product: both are symmetric, depend on each element once, and the latter annihilates constants. The pointwise integrands equal these inner products for every tangent pair.",
 ["inputs","configurations"],"all coefficient vector pairs, all tangents at a point; stated degrees and levels",
 "Tests compare a single eigenproblem or total area.",
 ["Identity/IdentityOperatorBase.hpp","Identity/MassMatrixScalarDisc.hpp","Identity/MassMatrixScalarCont.hpp","LaplaceBeltrami/LaplaceBeltramiOperatorBase.hpp","LaplaceBeltrami/LaplaceBeltramiOperator.hpp","LinearOperator/DiscreteLocalOperator.hpp","LinearOperator/LocalOperatorBase.hpp","AnsatzSpace/SuperSpace.hpp"],
 [("local assembly","LinearOperator/DiscreteLocalOperator.hpp"),("surface gradient","AnsatzSpace/SuperSpace.hpp")],
 ["assembled sparse matrices, pointwise integrands"])
p("C22","Potentials evaluate the surface integral of kernel times density",
 "For every density and every set of evaluation points off the surface, the evaluated potential equals the quadrature sum over all elements of the defining kernel times the density at the surface points, once per element, and is linear in the density; the gradient of the single layer potential is the exact gradient of the single layer potential. Each evaluation point's result is independent of the other points evaluated with it.",
 ["inputs","configurations"],"all densities (coefficients), all evaluation points and surface points/tangents (reals), all wavenumbers",
 "Tests compare with one analytic solution at fixed points within discretisation error.",
 ["Potential/Potential.hpp","Potential/DiscretePotential.hpp","Laplace/SingleLayerPotential.hpp","Laplace/SingleLayerPotentialGradient.hpp","Laplace/DoubleLayerPotential.hpp","Helmholtz/SingleLayerPotential.hpp","Helmholtz/DoubleLayerPotential.hpp","Maxwell/SingleLayerPotential.hpp"],
 [("quadrature loop","Potential/DiscretePotential.hpp"),("kernels","Laplace/SingleLayerPotentialGradient.hpp")],
 ["potential values"])
p("C23","Geometry and matrix files round-trip",
 "Writing a matrix in the binary format and reading it back, or writing a geometry and reading it back, reproduces all sizes, knots, weights and control points of every patch; matrices with any number of rows and columns come back with the same shape and entries. Text output for plotting tools names and orders the entries of the matrix as they are.",
 ["inputs","configurations"],"all matrix entries / control points (symbolic), stated sizes, degrees per direction and patch counts",
 "Tests only read shipped files; non-square or unequal-degree content is not written and read back.",
 ["IO/print2file.hpp","Geometry/GeometryIO.hpp","Geometry/GeometryIGS.hpp"],
 [("binary and text matrix writers","IO/print2file.hpp"),("geometry readers and writers","Geometry/GeometryIO.hpp"),("IGES","Geometry/GeometryIGS.hpp")],
 ["objects read back"])
p("C24","Spherical and solid harmonics and their gradients agree with their definition",
 "For every direction the real spherical harmonics up to the supported degree equal their definition, the solid-harmonic sums weight degree n by the n-th power of the radius, and the reported gradients are the exact gradients of the reported functions. The periodic kernel correction and its gradient used by the homogenised operators are evaluated from these functions consistently.",
 ["inputs","configurations"],"all points of space (reals) off the origin, all coefficient vectors, degrees up to the stated bound",
 "Tests compare sampled points for sums starting at particular degrees; the last degree and gradients are separate code paths.",
 ["util/Sphericals.hpp","HomogenisedLaplace/Coefficients.hpp","HomogenisedLaplace/SingleLayerOperator.hpp","HomogenisedLaplace/SingleLayerPotential.hpp"],
 [("recurrences","util/Sphericals.hpp"),("kernel correction","HomogenisedLaplace/Coefficients.hpp")],
 ["function and gradient values"])
p("C25","Quadrature orders and interpolation limits stay within the tables",
 "For every distance of two elements, polynomial degree P and refinement level L with L(P+2)<100, the quadrature order chosen for the element pair is the larger one of the far field order P-q+1 (q the order of the operator) and the integer part of the documented a-priori estimate for the distance (for touching elements and elements closer than the mesh size, for the mesh size): it lies inside the tables, does not increase with the distance and does not decrease with the polynomial degree. Where it would leave the tables, evaluation stops with an assertion instead of using a rule outside of them.",
 ["inputs","configurations"],"all distances and mesh sizes (reals / doubles) within the stated ranges, all supported degrees and operator orders",
 "Only the distances occurring in shipped geometries are ever used.",
 ["LinearOperator/LinearOperatorBase.hpp","LinearOperator/LinearOperatorTraits.hpp","DuffyTrick/evaluateBilinearForm.hpp","util/Constants.hpp"],
 [("quadrature degree formula","LinearOperator/LinearOperatorBase.hpp")],
 ["quadrature degree used"])
p("C26","Parallel evaluation gives the same result under every schedule",
 "Whatever thread executes which leaf, task or work share, and in whatever order critical sections are entered, assembly of dense and compressed matrices, compressed products and potential evaluation produce the sum of the same contributions with each contributed exactly once. No two threads access the same location without synchronisation when at least one writes.",
 ["schedules"],"all assignments of work items to two threads and orders of critical sections, for the stated small problem sizes",
 "A lost or doubled contribution needs a particular assignment of work to threads.",
 ["LinearOperator/DiscreteOperator.hpp","H2Matrix/H2Matrix.hpp","H2Matrix/EigenHelper/H2DenseProduct.hpp","Potential/DiscretePotential.hpp"],
 [("single/critical/task constructs","H2Matrix/EigenHelper/H2DenseProduct.hpp")],
 ["results of parallel regions"])
p("C27","The stopwatch reports elapsed times for every sequence of calls",
 "For every monotone clock and every legal sequence of start, lap and stop calls, each reported lap is the time since the previous lap or start, stopping reports the total time since start, and a stopped watch can be started again.",
 ["histories","inputs"],"all non-decreasing clock readings, all call sequences within the bound",
 "Tests cannot control the clock and use one call sequence.",
 ["IO/Stopwatch.hpp"],[("time bookkeeping","IO/Stopwatch.hpp")],["returned durations"])
p("C28","Discrete operators assemble every element pair into the right entry",
 "The assembled dense matrix of an operator equals, entry by entry, the double surface integral of kernel and the two basis functions, including the orientation of test and trial function, for scalar, continuous and vector-valued spaces; symmetric kernels give symmetric matrices, and the compressed matrix with all blocks uncompressed has the same entries.",
 ["inputs","configurations"],"all kernels from a polynomial family with symbolic coefficients, stated geometries, degrees and levels",
 "Tests check a symmetric scalar kernel up to discretisation error; test and trial exchange or misplaced blocks cancel for symmetric operators.",
 ["LinearOperator/DiscreteOperator.hpp","H2Matrix/H2Matrix.hpp","LinearOperator/LinearOperatorBase.hpp","DuffyTrick/evaluateBilinearForm.hpp"],
 [("dense assembly","LinearOperator/DiscreteOperator.hpp"),("dense leaf assembly","H2Matrix/H2Matrix.hpp")],
 ["assembled matrices"])
p("C29","Copies of library objects are independent and equal",
 "Copying, moving or assigning geometries, spaces, block partitions, compressed matrices and dense block containers yields an object that behaves like the original did and is unaffected by later changes to, or destruction of, the original. Container accessors address the element with the given row and column.",
 ["histories","inputs"],"all operation sequences within the bound, symbolic contents and indices",
 "Tests use each object once, mostly without copies.",
 ["util/GenericMatrix.hpp","AnsatzSpace/AnsatzSpace.hpp","H2Matrix/BlockClusterTree.hpp","H2Matrix/TreeLeaf.hpp","Geometry/Geometry.hpp","AnsatzSpace/SuperSpace.hpp"],
 [("copy and move operations","AnsatzSpace/AnsatzSpace.hpp"),("matrix container","util/GenericMatrix.hpp")],
 ["behaviour of copies"])
p("C30","Visualisation output describes the evaluated mesh",
 "Exported surface, point and volume data list exactly the points at which data was evaluated, every cell refers to existing points in the right order, and each attached data value belongs to the point or cell it is listed for.",
 ["inputs","configurations"],"all control points and data functions (symbolic values), stated refinement levels",
 "Tests write no export files.",
 ["IO/VTKSurfaceExport.hpp","IO/VTKPointExport.hpp","IO/VTKDomainExport.hpp"],
 [("mesh and data export","IO/VTKSurfaceExport.hpp")],["exported lists"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
