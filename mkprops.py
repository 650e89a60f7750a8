import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], **({'observe_at': observe} if observe else {})}})
D = 'psdr/domains/'
p('C01', 'Membership test equals the constraint set',
  'For every domain and every point of matching dimension, the membership test answers true exactly when the point satisfies every bound, linear inequality, linear equality and quadratic constraint of the domain (for a convex hull: is also a convex combination of its points; for a product: every factor contains its block; for a single-point domain: equals that point) within the tolerance. Batch answers agree row by row with single-point answers, and a point of another dimension is never inside.',
  ['inputs', 'configurations'], 'all domains built from any constraint data (including infinite and coinciding bounds), all points, all tolerances',
  'tests probe a few points of a few fixed domains; a constraint that is dropped or mis-signed only shows at points violating exactly that constraint',
  [D + 'euclidean.py', D + 'linquad.py', D + 'linineq.py', D + 'box.py', D + 'tensor.py', D + 'convexhull.py', D + 'normal.py', D + 'point.py', D + 'unbounded.py'],
  [('isinside and the per-constraint-class helpers', D + 'euclidean.py'), ('_isinside of each domain', D + '*.py')])
p('C02', 'Normalization is an invertible affine map onto [-1,1]',
  'Mapping points to normalized coordinates and back (in either order) returns the original points, for single points and for batches; a coordinate with two distinct finite normalization bounds is scaled so the bounds map to -1 and 1, and any other coordinate keeps unit scale. The reported derivative matrices of the two maps are exactly the Jacobians of those maps and are inverse to each other, and a product domain normalizes block by block.',
  ['inputs', 'configurations'], 'all domains (bounded, unbounded, partly bounded, degenerate) and all points',
  'tests use symmetric fully bounded boxes where many wrong formulas agree',
  [D + 'euclidean.py', D + 'tensor.py', D + 'normal.py', D + 'unbounded.py'], [('normalize/unnormalize and their derivatives, center, normalization bounds', D + 'euclidean.py')])
p('C03', 'Normalized domain describes the same set',
  'A point is in a domain exactly when its normalized coordinates are in the normalized domain, up to the tolerance of the membership tests: normalized bounds, linear inequality and equality constraints and quadratic constraints each hold at normalized coordinates exactly when their originals hold at the original coordinates. Infinite bounds stay infinite and finite bounds stay finite, whatever the other bounds are.',
  ['inputs', 'configurations'], 'all domains and points',
  'needs off-center, anisotropic and partly unbounded domains with every kind of constraint; tests normalize a few symmetric ones',
  [D + 'euclidean.py', D + 'linquad.py', D + 'linineq.py', D + 'box.py', D + 'tensor.py', D + 'normal.py', D + 'lognormal.py'], [('*_norm properties and _normalized_domain', D + 'euclidean.py')])
p('C04', 'Adding constraints yields exactly the intersection',
  'Adding constraints to a domain, or intersecting two domains, produces a domain containing exactly the points that satisfy both the original constraints and the added ones, for every kind of constraint and every kind of domain that supports the operation. Neither operand is changed, and names are kept.',
  ['inputs', 'configurations', 'histories'], 'all pairs of domains / constraint sets, any order and number of operations',
  'tests intersect two or three fixed domains and probe corners only',
  [D + 'linquad.py', D + 'convexhull.py', D + 'tensor.py'], [('add_constraints, __and__, __rand__', D + 'linquad.py')])
p('C05', 'Tensor product is the blockwise product of its factors',
  'The tensor product of domains has the concatenated dimension, names and bounds, and its inequality, equality and quadratic constraints are those of the factors acting on their own block of coordinates and nothing else. A point is inside exactly when each block is inside its factor, the extent along a direction is the smallest of the factors\' extents, samples consist of samples of the factors, and nested products flatten to the same set in the same order.',
  ['inputs', 'configurations'], 'all lists of factors of any dimensions, nested arbitrarily',
  'block offsets only matter with several factors of different sizes and asymmetric constraints',
  [D + 'tensor.py'], [('constraint assembly, slices, sampling, extent', D + 'tensor.py')])
p('C06', 'Extent is the largest feasible step',
  'From a point inside a domain and any direction, the returned extent is nonnegative, stepping by any amount up to it stays inside the domain, and stepping further leaves the domain (up to tolerance); it is infinite exactly when one can move forever. This holds for bounds, inequality, equality and quadratic constraints and convex hulls, including starting points on the boundary.',
  ['inputs', 'configurations'], 'all domains implementing extent, all feasible points (interior and boundary), all directions',
  'tests only check random interior points of a few domains; active constraints, zero direction entries and infinite bounds are special cases',
  [D + 'euclidean.py', D + 'linquad.py', D + 'linineq.py', D + 'box.py', D + 'tensor.py', D + 'convexhull.py', D + 'point.py'], [('_extent_bounds/_extent_ineq/_extent_quad', D + 'euclidean.py'), ('_Extent', D + 'convexhull.py')])
p('C07', 'Samples lie in the domain and have the promised shape',
  'Random samples, grid samples, boundary samples and sweeps of a domain return points inside the domain, in the promised number and shape (a single draw is a flat vector, a nonpositive number of draws an empty array). A grid sample is the part of the full linearly spaced product grid that lies inside; a sweep runs along one line through the given point between the two ends of the domain, is evenly spaced, and leaves the given point and direction unmodified; a random direction can be followed a positive distance and respects equality constraints.',
  ['inputs', 'configurations', 'schedules'], 'all bounded domains, all draw counts and random states',
  'random sampling escapes show up only for particular random streams and constraint shapes',
  [D + 'euclidean.py', D + 'box.py', D + 'normal.py', D + 'lognormal.py', D + 'convexhull.py', D + 'tensor.py', D + 'point.py'], [('sample, _hit_and_run, sample_grid, sample_boundary, sweep, random_direction', D + 'euclidean.py')])
p('C08', 'Optimization over a domain solves the stated problem',
  'The closest-point, farthest-corner, constrained least-squares and Chebyshev-center queries return a point of the domain, and no other point of the domain has a better value of the stated objective (weighted distance to the query, inner product with the direction, residual norm, radius of the inscribed ball), up to solver accuracy. A query point already inside is its own closest point; an empty domain is reported as empty and an unbounded query as unbounded.',
  ['inputs', 'configurations'], 'all domains, weightings, directions and right-hand sides',
  'the problem is posed in normalized coordinates; a wrong shift or scale is invisible on centered, unit-scaled examples',
  [D + 'euclidean.py', D + 'linquad.py', D + 'linineq.py', D + 'box.py', D + 'tensor.py', D + 'convexhull.py'], [('_closest_point, _corner, _constrained_least_squares, chebyshev_center, _build_constraints*', D + 'euclidean.py')])
p('C09', 'Random domains have the stated densities',
  'The density of a uniform, normal (full or truncated) and log-normal domain equals the stated probability density at every point of the domain and zero outside it; it is nonnegative and integrates to one. The truncated normal contains exactly the ball of the stated probability in the metric of its covariance, and samples are drawn from the stated distribution (mean, covariance and support).',
  ['inputs', 'configurations'], 'all parameters (mean, covariance, offset, truncation) and all points',
  'tests evaluate the density at a few points and never against the closed form with general parameters',
  [D + 'random.py', D + 'uniform.py', D + 'normal.py', D + 'lognormal.py'], [('_pdf, _sample, truncation radius', D + 'normal.py')])
p('C10', 'Function wrapper returns the user\'s values and derivatives',
  'A wrapped function is evaluated at normalized coordinates of its domain and returns the user functions\' values at the corresponding application point, for one or many functions, single points or batches, vectorized or not. Its gradient is with respect to the normalized coordinates: the user gradient at the application point multiplied by the derivative of the coordinate map, in whichever of the supported ways the gradient is supplied (separately, jointly with the values, as one or several functions), and a finite-difference approximation of it when none is given. Results have the documented shapes, agree row by row with single-point evaluation, and the points passed in are not modified.',
  ['inputs', 'configurations'], 'all numbers and kinds of user functions, domains and evaluation points',
  'combinations of vectorization, multiple outputs, gradients returned jointly and normalization are sampled sparsely by tests',
  ['psdr/function.py'], [('Function.eval / grad / hessian / __call__ / fd_grad', 'psdr/function.py')])
p('C11', 'Polynomial bases enumerate and differentiate correctly',
  'A total-degree basis in m variables of degree d enumerates every multi-index of total degree at most d exactly once. The basis matrix entries are the products of the univariate basis polynomials (rescaled to the domain), multiplying by coefficients agrees with the matrix form, and first and second derivative arrays are the exact derivatives of the basis matrix; the Arnoldi basis is orthonormal on its sample points and spans the same space.',
  ['inputs', 'configurations'], 'all dimensions, degrees, bases, scalings and points',
  'tests use a couple of dimensions and degrees and finite-difference tolerances',
  ['psdr/basis.py', 'psdr/vandermonde.py'], [('PolynomialTensorBasis V/VC/DV/DDV, index set, scaling', 'psdr/basis.py')])
p('C12', 'Polynomial and ridge functions are consistent with their derivatives',
  'A fitted polynomial or ridge function evaluates to its basis expansion, its gradient and Hessian are the exact derivatives of that expansion, a ridge function is constant along directions orthogonal to its subspace, and its derivatives in full space are the reduced ones pulled back through the subspace. Fitting data generated by a polynomial of that degree reproduces the data.',
  ['inputs', 'configurations'], 'all coefficients, subspaces, degrees and points',
  'tests check a few random instances by finite differences',
  ['psdr/poly.py', 'psdr/ridge.py', 'psdr/polyridge.py'], [('PolynomialFunction, RidgeFunction, PolynomialRidgeFunction', 'psdr/poly.py')])
p('C13', 'Demo gradients are the derivatives of the demo functions',
  'For every demonstration function shipped with an analytic gradient, the gradient equals the derivative of the function at every point of its domain, and both are given in the same coordinates; the function itself equals the published formula with the published parameter ranges.',
  ['inputs'], 'all points of the domains of the demo functions',
  'tests compare finite differences at random points with loose tolerances',
  ['psdr/demos/borehole.py', 'psdr/demos/golinski.py', 'psdr/demos/hartmann.py', 'psdr/demos/otl_circuit.py', 'psdr/demos/piston.py', 'psdr/demos/robot_arm.py', 'psdr/demos/wing_weight.py', 'psdr/demos/polynomial.py'], [('*_func and *_grad', 'psdr/demos/')])
p('C14', 'Fitted Lipschitz constants and matrices satisfy the data',
  'After fitting, the Lipschitz matrix bounds the data: every pair of samples differs in value by at most the Lipschitz distance between them plus the allowed epsilon, and every gradient is dominated by the squared matrix; the squared matrix is symmetric positive semidefinite, consistent with its factor, and of the requested structure (scalar, diagonal, full or partially fixed subspace). The scalar constant is the smallest one that satisfies the data, and a fit is equivariant under rescaling the values.',
  ['inputs', 'configurations'], 'all sample sets, gradient sets and epsilons',
  'tests check a single random data set per class',
  ['psdr/lipschitz.py', 'psdr/lipschitz_partial.py', 'psdr/lipschitz_utils.py', 'psdr/lipschitz_approx.py'], [('LipschitzMatrix/Constant/Diagonal/Partial fit and constraints', 'psdr/lipschitz.py')])
p('C15', 'Lipschitz uncertainty bounds enclose every consistent function',
  'At any point, the lower and upper uncertainty bounds equal the largest lower cone and smallest upper cone of the data, so they enclose the value of every function consistent with the data and the Lipschitz matrix, coincide with the data at sample points up to epsilon, and the lower one never exceeds the upper one when the data are consistent. The interval reported for a sub-domain is made of values of the pointwise bounds at points of that sub-domain (each end is attained there, the allowed epsilon included).',
  ['inputs', 'configurations'], 'all data sets consistent with a Lipschitz matrix, all points and epsilons',
  'tests check only that lower <= upper on a few samples',
  ['psdr/lipschitz.py', 'psdr/lipschitz_utils.py'], [('uncertainty, uncertainty_domain, bounds_domain', 'psdr/lipschitz.py')])
p('C16', 'Active subspaces are orthonormal and diagonalize the gradient covariance',
  'The subspace returned for gradient samples has orthonormal columns ordered by decreasing influence and diagonalizes the weighted sum of outer products of the gradients (equal weights summing to one when none are given); orienting it only flips signs so average slopes are nonnegative, and never changes the spanned spaces. The projected samples used for shadow plots are the inner products with those directions.',
  ['inputs', 'configurations'], 'all gradient sets (including rank-deficient and zero-mean ones) and weights',
  'tests compare with a function of known structure only',
  ['psdr/subspace.py', 'psdr/opg.py'], [('ActiveSubspace.fit, _fix_subspace_signs*', 'psdr/subspace.py')])
p('C17', 'Optimizers never return a worse or infeasible iterate',
  'The Gauss-Newton, minimax and sequential linear programming optimizers return a point whose objective is no larger than that of the starting point, that satisfies the domain constraints when a domain is given, and the accepted step satisfies the sufficient-decrease test; supplied trajectories are used for every trial step. Reported residuals and objective values are those of the returned point. The reported status does not depend on whether progress is printed.',
  ['inputs', 'configurations'], 'all residual functions, starting points and options',
  'tests run one or two well-behaved problems',
  ['psdr/gn.py', 'psdr/minimax.py', 'psdr/seqlp.py'], [('gauss_newton, minimax, sequential_lp', 'psdr/gn.py')])
p('C18', 'Quadrature rules integrate exactly as promised',
  'A one-dimensional Gauss rule with n nodes integrates every polynomial of degree at most 2n-1 over the interval exactly; on a box the tensor rule integrates products of such polynomials exactly and uses at most the requested number of points. All nodes lie in the domain, weights are nonnegative, and Monte Carlo rules weight equally with total the volume of the domain.',
  ['inputs', 'configurations'], 'all intervals, domains and numbers of points',
  'tests integrate one function on one domain',
  ['psdr/quadrature.py', D + 'euclidean.py'], [('gauss', 'psdr/quadrature.py'), ('quadrature_rule, volume', D + 'euclidean.py')])
p('C19', 'Experimental designs have their defining structure',
  'A Latin hypercube on a box has exactly one sample in each of the N equal strata of each coordinate; Poisson-disk samples keep pairwise distance at least the radius; coffeehouse (sequential maximin) designs choose each new point, among the candidate points, as far as possible from the earlier ones; stretching keeps the coordinates of a point of the domain in the given directions and projected designs have evenly spread projections. All designs stay inside the domain and have the requested number of points.',
  ['inputs', 'configurations', 'schedules'], 'all boxes or domains, sample counts, metrics and random states',
  'random designs are sampled once or twice by tests; stratification mistakes show at particular counts',
  ['psdr/sample/latin.py', 'psdr/sample/poisson.py', 'psdr/sample/seqmaximin.py', 'psdr/sample/stretch.py', 'psdr/sample/projection.py', 'psdr/sample/maximin_coffeehouse.py', 'psdr/sample/util.py'], [('latin_hypercube_*', 'psdr/sample/latin.py')])
p('C20', 'Geometry helpers compute the stated quantities',
  'Pairwise distances equal the weighted Euclidean distances between the given points; removing duplicates keeps exactly one representative of each distinct point, in place; Voronoi vertices are equidistant to their generating points, lie in the domain and no sample is closer; the reported fill distance is attained at a point of the domain; the minimum enclosing ball contains all points.',
  ['inputs', 'configurations'], 'all point sets, weightings and domains',
  'tests use a few generic point sets without ties, duplicates or rank deficiency',
  ['psdr/geometry/cdist.py', 'psdr/geometry/geometry.py', 'psdr/geometry/vertex.py', 'psdr/geometry/fill.py', 'psdr/geometry/miniball.py'], [('cdist, unique_points, voronoi_vertex, fill_distance', 'psdr/geometry/')])
p('C21', 'Gaussian process predictions and gradients are consistent',
  'The prediction of a fitted Gaussian process is the kernel-weighted sum of its coefficients plus its polynomial part; with no nugget it interpolates its data, its posterior variance is nonnegative and zero at the data, and the hyperparameter objective and its gradient are those of the log marginal likelihood (the gradient being the exact derivative of the objective).',
  ['inputs', 'configurations'], 'all data sets and hyperparameters',
  'tests check one data set by finite differences',
  ['psdr/gp.py'], [('GaussianProcess.fit/eval/_log_marginal_likelihood', 'psdr/gp.py')])
p('C22', 'Local linear models reproduce affine functions',
  'For data sampled from an affine function the local linear fit returns its intercept and slope at every query point for any positive weights and bandwidth, with one row per query point; perplexity bandwidths give the requested effective number of neighbours; outer-product-of-gradients estimates for such data span the true direction.',
  ['inputs', 'configurations'], 'all affine functions, sample sets, query points and bandwidth choices',
  'tests fix one configuration in which the number of query and data points coincide',
  ['psdr/local_linear.py', 'psdr/opg.py'], [('local_linear, perplexity_bandwidth', 'psdr/local_linear.py')])
p('C23', 'Plot data files keep the data',
  'Writing columns to a plot data file and reading it back gives the same column names in the same order and the same values; a column of a different length is rejected; columns are added in the order given.',
  ['inputs', 'histories'], 'all column names, lengths and values',
  'tests only check that files are written',
  ['psdr/pgf.py'], [('PGF.add / write / read', 'psdr/pgf.py')])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
import sys
for x in P:
    if len(x['title']) > 80: print(x['id'], len(x['title']))
