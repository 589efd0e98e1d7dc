"""Single source of properties.jsonl and MANIFEST.json: python3 props.py"""
import json
import os

M = "src/pymanopt/manifolds/"
O = "src/pymanopt/optimizers/"
GEO = [M + f for f in ("euclidean.py", "sphere.py", "oblique.py", "complex_circle.py", "stiefel.py", "grassmann.py",
                       "group.py", "positive.py", "positive_definite.py", "hyperbolic.py", "psd.py", "fixed_rank.py",
                       "product.py")]
TEST = ("The tests draw one or a few random points per manifold (fixed sizes, tolerances near 1e-6) and compare a handful of "
        "identities; ")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na,
                  observe=observe))


prop("C01", "The metric is an inner product and the norm is induced by it",
     "On every manifold, at every point, the inner product of tangent vectors is real, symmetric, bilinear over the reals and "
     "strictly positive on nonzero vectors, equals the documented metric, and the norm of a vector is the square root of its inner "
     "product with itself.",
     ["inputs", "configurations"], "all points, all tangent vectors, every manifold class and metric variant (small sizes)",
     TEST + "symmetry, bilinearity and positivity are universally quantified over vectors and points.",
     GEO, [("inner_product / norm of every manifold", M)])
prop("C02", "Projection is the orthogonal projection onto the tangent space",
     "On every manifold, projecting (or mapping to the tangent space) any ambient vector yields a vector satisfying the tangent-space "
     "equation of the point, leaves tangent vectors unchanged, is linear, and the removed part is orthogonal to every tangent vector "
     "(for quotient manifolds: to every horizontal vector, the vertical part being removed).",
     ["inputs", "configurations"], "all points, all ambient vectors, every manifold class (small sizes)",
     TEST + "idempotence, linearity and orthogonality hold for every ambient vector or are wrong on a set tests may miss.",
     GEO, [("projection / to_tangent_space of every manifold", M)])
prop("C03", "Retractions stay on the manifold and are first-order exact",
     "The retraction of any tangent vector at any point returns a point of the manifold, the retraction of the zero vector returns the "
     "point itself, and the derivative at zero of the curve it traces along any tangent vector is that tangent vector.",
     ["inputs", "configurations"], "all points, all tangent vectors within the stated radius, every retraction variant (small sizes)",
     TEST + "the retraction tests only check a single small step numerically.",
     GEO, [("retraction of every manifold", M), ("RetrAsExpMixin", M + "manifold.py")])
prop("C04", "Exponential, logarithm and distance are mutually consistent",
     "Wherever they are implemented, the exponential map returns a point of the manifold, the logarithm inverts it inside the "
     "injectivity radius, the length of the logarithm equals the distance, the distance is symmetric, nonnegative and zero exactly on "
     "equal points, and the exponential follows a geodesic of constant speed.",
     ["inputs", "configurations"], "all point pairs inside the injectivity radius, all tangent vectors, every manifold class (small sizes)",
     TEST + "exp/log/dist round trips are checked at one random pair.",
     GEO, [("exp, log, dist of every manifold", M)])
prop("C05", "Riemannian gradient conversion represents the differential",
     "For every ambient gradient vector, the converted Riemannian gradient is a tangent vector whose inner product with each tangent "
     "vector equals the Euclidean inner product of the ambient gradient with that (embedded) tangent vector.",
     ["inputs", "configurations"], "all points, all Euclidean gradients, all tangent vectors, every manifold class and metric",
     TEST + "gradient checks sample one cost function per manifold.",
     GEO, [("euclidean_to_riemannian_gradient", M)])
prop("C06", "Riemannian Hessian conversion is the covariant derivative",
     "For every cost with given Euclidean gradient and Hessian, the converted Hessian along a tangent vector is tangent, linear and "
     "self-adjoint, and equals the covariant derivative of the Riemannian gradient field along that vector.",
     ["inputs", "configurations"], "all points, all quadratic cost models (gradient and symmetric Hessian arbitrary), all tangent vectors",
     TEST + "the Hessian tests compare one random problem against second-order finite differences, and several manifolds are skipped.",
     GEO, [("euclidean_to_riemannian_hessian / weingarten", M)])
prop("C07", "Transport, pair mean and zero vector behave as documented",
     "Transporting a tangent vector between two points returns a tangent vector at the destination, linearly (and isometrically where "
     "documented as parallel or isometric), transporting from a point to itself is the identity, the pair mean is a manifold point "
     "equidistant from both arguments, and the zero vector is a tangent vector of norm zero.",
     ["inputs", "configurations"], "all point pairs, all tangent vectors, every manifold class that implements the operation",
     TEST + "transport and pair mean are tested on one random pair, or only for shape.",
     GEO, [("transport, pair_mean, zero_vector", M)])
prop("C08", "Random points and tangent vectors always lie on the manifold",
     "For every outcome of the random number generator (up to null sets), a random point satisfies the manifold's defining equations "
     "and a random tangent vector satisfies the tangent-space equation at the given point, with unit norm where documented.",
     ["inputs", "configurations"], "all draws of the random generator, every manifold class (small sizes)",
     TEST + "a few seeds are drawn.",
     GEO, [("random_point, random_tangent_vector", M)])
prop("C09", "Reported dimension equals the dimension of the tangent space",
     "For every constructor argument accepted, the reported dimension equals the real dimension of the tangent space (the rank of the "
     "projection), and constructor arguments outside the documented range are rejected with an error.",
     ["configurations"], "all constructor arguments up to size 4 (dimension formula against tangent-space rank)",
     "Tests compare the dimension with the same closed formula for one size.",
     GEO, [("__init__ of every manifold", M)])
prop("C10", "Distances, logarithms and maps stay finite despite rounding",
     "At coincident, near-coincident or slightly denormalised points (rounding-size perturbation), distances, logarithms, exponentials "
     "and retractions return finite values and never leave the domain of the inverse trigonometric, root or logarithm functions used.",
     ["inputs"], "all points perturbed by any rounding-size error, including equal points and zero tangent vectors",
     "Rounding-size perturbations at coincident points have measure zero under random sampling.",
     GEO, [("clipping of arccos / root arguments", M)])
prop("C11", "Product manifolds act component by component",
     "Every operation of a product manifold equals applying the corresponding operation of each factor to the corresponding component, "
     "inner products and squared distances add up, the dimension is the sum of dimensions, and layouts group arrays per factor.",
     ["inputs", "configurations"], "all points and tangent vectors of products of arbitrary factor manifolds (1-3 factors)",
     "Tests exercise one product of three fixed factors at one random point.",
     [M + "product.py"], [("Product", M + "product.py")])
prop("C12", "Composite tangent vectors form a vector space",
     "Composite (product and fixed-rank) tangent vectors support addition, subtraction, negation, scalar multiplication and division "
     "component by component, in-place and reflected forms included, with the usual vector-space laws and without changing operands.",
     ["inputs"], "all component arrays and scalars; lengths 1 to 3",
     "Tests evaluate a few operators on fixed arrays.",
     [M + "manifold.py", M + "product.py", M + "fixed_rank.py"],
     [("_ProductTangentVector", M + "product.py"), ("_FixedRankTangentVector", M + "fixed_rank.py")])
prop("C13", "Manifold operations never modify their arguments",
     "No manifold operation changes the points, tangent vectors or ambient vectors passed to it.",
     ["inputs", "configurations"], "all points and vectors, every operation of every manifold class",
     "No test compares arguments before and after a call.",
     GEO, [("all manifold operations", M)])
prop("C14", "Batched operations equal slice-wise operations",
     "On manifolds with a number-of-copies parameter (or independent columns or entries: oblique, complex circle), every operation on a batch equals the same operation applied to each copy "
     "separately, metric and squared distance being sums over copies; the batched matrix helpers equal the per-matrix operation for "
     "every batch size including one.",
     ["inputs", "configurations"], "all arrays; batch sizes 1 to 3, matrix sizes 1 to 3",
     "Tests use one batch shape with random entries and mostly compare against the same numpy routine.",
     ["src/pymanopt/tools/multi.py"] + GEO, [("multi* helpers", "src/pymanopt/tools/multi.py")])
prop("C15", "Problem derives gradients and Hessians consistently",
     "A problem returns exactly the cost, gradients and Hessians the user supplied, derives a missing Riemannian gradient or Hessian "
     "from the Euclidean ones by the manifold's conversion at the same point and vector, embeds the tangent vector before Euclidean "
     "Hessian evaluation, and groups arguments and results by the manifold's point layout.",
     ["inputs", "configurations"], "all points and vectors, all point layouts, all combinations of supplied derivatives",
     "Tests exercise a few layouts and mostly one backend.",
     ["src/pymanopt/core/problem.py"], [("Problem", "src/pymanopt/core/problem.py")])
prop("C16", "Problem and cost-function construction reject invalid combinations",
     "Building a problem or a decorated cost function fails with an error for undecorated callables, for both a Euclidean and a "
     "Riemannian version of the same derivative, for unsupported signatures and for unavailable backends, and succeeds otherwise; the "
     "manifold and preconditioner of a problem cannot be replaced afterwards.",
     ["configurations"], "all combinations of supplied/missing/undecorated derivatives, all callable signatures up to 3 parameters",
     "Tests cover a few combinations.",
     ["src/pymanopt/core/problem.py", "src/pymanopt/autodiff/__init__.py"],
     [("Problem.__init__", "src/pymanopt/core/problem.py"), ("backend_decorator_factory", "src/pymanopt/autodiff/__init__.py")])
prop("C17", "Backend gradients equal the gradient of the cost",
     "For each autodiff backend, the generated gradient operator returns the true gradient of the cost with respect to every argument, "
     "in argument order and shape, with the numpy convention for complex arguments, for one and for several arguments.",
     ["inputs", "configurations", "programs"], "all points, polynomial costs with symbolic coefficients, 1 to 3 arguments, real and complex",
     "Tests compare at one random point per backend.",
     ["src/pymanopt/autodiff/backends/"], [("generate_gradient_operator", "src/pymanopt/autodiff/backends/")])
prop("C18", "Backend Hessian-vector products equal the second derivative",
     "For each autodiff backend, the generated Hessian operator returns the directional derivative of the gradient along the given "
     "vectors, in argument order and shape, linear in the vectors, zero along zero vectors and for linear costs.",
     ["inputs", "configurations", "programs"], "all points and vectors, polynomial costs with symbolic coefficients, 1 to 3 arguments",
     "Tests compare at one random point per backend.",
     ["src/pymanopt/autodiff/backends/"], [("generate_hessian_operator", "src/pymanopt/autodiff/backends/")])
prop("C19", "Optimizers stop exactly at their limits and say why",
     "An optimizer run ends if and only if one of its limits (time, iterations, gradient norm, step size, cost evaluations) is reached at "
     "a check, never exceeds the iteration limit, and the reported reason names a limit that has really been reached.",
     ["inputs", "histories"], "all limit values, all clock readings, all cost/gradient histories over 1-3 iterations",
     "Tests trigger one limit at a time with a friendly cost function.",
     [O + "optimizer.py", O + "steepest_descent.py", O + "conjugate_gradient.py", O + "trust_regions.py", O + "nelder_mead.py",
      O + "particle_swarm.py"], [("stopping criteria check", O + "optimizer.py")])
prop("C20", "Line searches never increase the cost and meet sufficient decrease",
     "Along any descent direction, for any cost function, a line search uses a bounded number of evaluations at points on the "
     "retraction curve with contracting steps, takes the first trial with sufficient decrease, never returns a point of higher cost "
     "(returning the start point with step zero instead), and reports the length of the step actually taken.",
     ["inputs", "histories"], "all cost values, step parameters, slopes; up to 5 backtracks, up to 3 consecutive searches",
     "There is no direct test of the line searches; runs use friendly cost functions whose first trials succeed.",
     [O + "line_search.py"], [("BackTrackingLineSearcher", O + "line_search.py"), ("AdaptiveLineSearcher", O + "line_search.py")])
prop("C21", "Steepest descent follows the negative gradient and never ascends",
     "Every steepest-descent iteration searches along the negative Riemannian gradient at the current iterate with its true slope, "
     "continues from the point the line search returned, and reports the final point with its true cost, so the cost never increases "
     "from the initial to the returned point.",
     ["inputs", "histories"], "all gradients, costs and line-search outcomes over 1-3 iterations",
     "Tests run to convergence on one problem.",
     [O + "steepest_descent.py"], [("SteepestDescent.run", O + "steepest_descent.py")])
prop("C22", "Conjugate gradient builds its directions by the documented rules",
     "Every conjugate-gradient search direction is the negative preconditioned gradient plus the chosen rule's multiple of the "
     "transported previous direction, falls back to the negative preconditioned gradient when that is not a descent direction or "
     "consecutive gradients lose orthogonality, and the line search always receives the true slope of its direction.",
     ["inputs", "histories", "configurations"], "all gradients and costs over 1-3 iterations, all rules and restart thresholds",
     "Tests run each rule to convergence on one problem, which succeeds for many wrong formulas.",
     [O + "conjugate_gradient.py"], [("ConjugateGradient.run and beta rules", O + "conjugate_gradient.py")])
prop("C23", "The trust-region subproblem solver decreases the model within the radius",
     "For every gradient, symmetric Hessian and radius, the inner solver returns a step inside the trust region with its exact Hessian "
     "image, a model value no worse than the Cauchy point, stops on the boundary at negative curvature, and labels its stopping reason "
     "truthfully.",
     ["inputs"], "all gradients, symmetric Hessians, radii; dimension 1-2, up to 2-3 inner iterations",
     "Tests only run the whole optimizer on one convex-like problem.",
     [O + "trust_regions.py"], [("truncated conjugate gradient", O + "trust_regions.py")])
prop("C24", "Trust-region steps are accepted and radii updated by actual reduction",
     "A trust-region iteration accepts a proposal exactly when the regularised ratio of actual to predicted reduction exceeds the "
     "threshold and the model decreased, keeps the iterate otherwise, shrinks the radius on poor agreement, enlarges it only on good "
     "agreement at the boundary, never beyond the maximal radius, and never reports a cost higher than at the start.",
     ["inputs", "histories"], "all cost values, gradients, Hessians over 1-2 outer iterations, dimension 1",
     "Tests only run the optimizer to convergence on one problem.",
     [O + "trust_regions.py"], [("TrustRegions.run", O + "trust_regions.py")])
prop("C25", "Derivative-free optimizers return the best point they evaluated",
     "Nelder-Mead and particle swarm return a point they evaluated together with its true cost, that cost is the lowest of all "
     "evaluations retained by the method (never worse than the best initial point), reported evaluation counts match the "
     "evaluations made, and trial points follow the documented rules (reflection, expansion, contraction or shrinkage of a simplex of "
     "dimension + 1 points; inertia plus bounded attraction to the personal and global best, evaluated at the new positions).",
     ["inputs", "histories"], "all cost histories over 1-3 iterations, populations of 1-3 points, dimension 1-2",
     "Tests only check convergence on one problem with a tolerance.",
     [O + "nelder_mead.py", O + "particle_swarm.py"], [("NelderMead.run", O + "nelder_mead.py"), ("ParticleSwarm.run", O + "particle_swarm.py")])
prop("C26", "Optimizer results are truthful and independent of earlier runs",
     "The returned cost is the cost of the returned point, the log (where the method keeps one) lists exactly the visited iterations, the "
     "iteration count equals the iterations made, the user's initial point is left unchanged, and running the same optimizer object again (on the same or "
     "another problem) gives the result a fresh optimizer would give unless reuse was requested.",
     ["histories", "configurations"], "all cost/gradient histories of two consecutive runs, every optimizer class",
     "Tests create a fresh optimizer for every run.",
     [O + "optimizer.py", O + "steepest_descent.py", O + "conjugate_gradient.py", O + "trust_regions.py", O + "nelder_mead.py",
      O + "particle_swarm.py"], [("Optimizer.run and result construction", O)])
prop("C27", "Diagnostic and helper tools report what they claim",
     "The Taylor-error diagnostics compute the true first/second-order remainder of the given problem and identify the slope of an "
     "exactly polynomial error curve, and the sequence, gradient- and Hessian-conversion helpers of the test tools "
     "return what they document for all inputs.",
     ["inputs"], "all points and directions, polynomial costs with symbolic coefficients",
     "Tests only run the diagnostics without checking their numbers.",
     ["src/pymanopt/tools/diagnostics.py", "src/pymanopt/tools/testing.py", "src/pymanopt/tools/__init__.py"],
     [("check_gradient / check_hessian / identify_linear_piece", "src/pymanopt/tools/diagnostics.py")])

prop("C28", "Retractions documented as second order agree with geodesics to second order",
     "For every retraction the library documents as second order (positive numbers, positive definite matrices, polar Stiefel, "
     "SVD-based rotation and unitary groups) or that has that order by construction (exponentials, normalisation on spheres, oblique and circle manifolds, "
     "polar Grassmann), the curve traced along any tangent vector has the acceleration of the geodesic; the fixed-rank retraction "
     "returns the closest matrix of that rank, hence is of second order.",
     ["inputs"], "all points and tangent vectors, every such retraction (small sizes)",
     "The tests only require first-order agreement at one random point, which a first-order retraction satisfies as well.",
     [M + f for f in ("positive.py", "positive_definite.py", "stiefel.py", "group.py", "fixed_rank.py", "grassmann.py", "sphere.py", "oblique.py")],
     [("retraction / _retraction_polar", M)])

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("symbolic execution of the real sources (exact rational/algebraic normal form + z3 over all values within bounds); "
        "counterexamples replayed on real numpy")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        h = os.path.join(HERE, "harness", p["id"].lower() + ".py")
        if p["na"] or not os.path.exists(h):
            na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                           technique=TECH, level="model_checking",
                           level_note="bounded: holds for all real-number values at the sizes, path lengths and assumptions listed in "
                                      "the evidence file; floating point rounding is outside unless the check says otherwise"))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python selftest.py", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "claimed", len(na), "not")


if __name__ == "__main__":
    main()
