"""Writes properties.jsonl (source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',),
         observe=(), state=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text),
             why_tests_cant=why,
             anchors=dict(files=['src/sparse_ir/' + f for f in files],
                          mechanism=[dict(name=n, where='src/sparse_ir/' + w)
                                     for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m,
                                      where='src/sparse_ir/' + w)
                                 for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)


prop('C01', 'Kernel values equal their closed-form definition everywhere',
     "For every cutoff Λ > 0 and every x, y in [-1, 1], calling LogisticKernel(Λ) "
     "returns exp(-Λy(x+1)/2)/(1+exp(-Λy)) and calling RegularizedBoseKernel(Λ) "
     "returns y·exp(-Λy(x+1)/2)/(1-exp(-Λy)), with the limit 1/Λ at y = 0, never "
     "overflowing or returning NaN. Values are non-negative (and at most 1 for the "
     "logistic kernel) and centrosymmetric, K(-x,-y) = K(x,y). Supplying x-xmin and "
     "xmax-x as optional arguments, or calling with scalars or broadcast arrays, "
     "does not change the function computed; close to the ends it is these "
     "distances that decide.",
     "all real Λ > 0 and all points of the square, including its edges, y = 0, and "
     "products Λy far beyond the range of exp",
     "test_kernel compares single against double precision at a handful of Λ and "
     "Gauss points; both share the same formula, so a wrong branch, sign or "
     "limit that shows only in a part of the square or for other Λ passes",
     ['kernel.py'],
     [('LogisticKernel._compute', 'kernel.py:172'),
      ('RegularizedBoseKernel._compute', 'kernel.py:270'),
      ('_compute_uv', 'kernel.py:519')],
     observe=['kernel(x, y, x_plus, x_minus)'])

prop('C02', 'Symmetrized kernels equal K(x,y) ± K(x,-y) on the positive square',
     "For a centrosymmetric kernel K and sign ±1, the symmetrized kernel evaluates "
     "to K(x,y) + sign·K(x,-y) for every x, y in [0, 1] and every Λ, whichever "
     "internal formula is used for small or large arguments and whether or not "
     "the optional offsets are supplied; for small x·y the odd kernel is accurate "
     "relative to x·y. Its domain is [0, 1] in both variables, it "
     "inherits ypower and convergence radius, and it refuses to be symmetrized "
     "again; a non-centrosymmetric kernel or a sign other than ±1 is rejected.",
     "all Λ, all points of the unit square, both signs, both kernels",
     "tests compare float and double-double evaluation at a few Λ; the switch-over "
     "between explicit and subtracted form is only hit at the sampled points",
     ['kernel.py'],
     [('ReducedKernel.__call__', 'kernel.py:361'),
      ('_LogisticKernelOdd.__call__', 'kernel.py:448'),
      ('_RegularizedBoseKernelOdd.__call__', 'kernel.py:472')])

prop('C03', 'Kernel discretisation hints are valid; bad arguments are rejected',
     "For every Λ, the kernel hints give strictly increasing segment edges that "
     "start and end exactly at the ends of the kernel's domain, are symmetric and "
     "contain 0 for the full kernel, and for the symmetrized kernel are exactly the "
     "non-negative half. Evaluating any kernel at a point that is outside its domain, "
     "infinite or NaN raises ValueError. The boson weight function of the logistic "
     "kernel is 1/tanh(Λy/2) and that of the regularized one is 1/y, the fermion one "
     "is 1, and an unsupported statistics is a ValueError.",
     "all Λ in a range that covers every number of segments up to the bound, all "
     "non-domain floats including NaN and infinities",
     "only a few Λ are ever discretised and no test passes NaN to a kernel",
     ['kernel.py'],
     [('_SVEHintsLogistic', 'kernel.py:211'),
      ('_SVEHintsRegularizedBose', 'kernel.py:318'),
      ('_symm_segments', 'kernel.py:509'), ('_check_domain', 'kernel.py:495')])

prop('C04', 'Quadrature rule transformations preserve the integral',
     "Moving a quadrature rule to an interval [a, b], scaling its weights, repeating "
     "it on consecutive segments, or joining rules of adjacent intervals yields a rule "
     "whose weighted sum equals the correspondingly transformed integral of the "
     "original rule, for arbitrary nodes and weights. The distances to "
     "the two ends stored with each node always equal x - a and b - x of the whole "
     "interval, and none of these operations modifies its operands. "
     "Unordered segments and non-adjacent rules are rejected.",
     "all nodes, weights and interval ends (real), up to three nodes, three segments "
     "and compositions of two operations",
     "tests check one rule on two fixed sets of edges",
     ['_gauss.py'],
     [('Rule.reseat/scale/piecewise/join/astype', '_gauss.py:40'),
      ('NestedRule', '_gauss.py:195')])

prop('C05', 'Gauss rules of order n integrate degree 2n-1 exactly',
     "For every order, the Gauss-Legendre rule has n distinct ascending nodes inside "
     "(-1, 1), positive weights, and integrates every polynomial of degree at most "
     "2n-1 exactly; on every interval it is moved to, it does so as well, and "
     "the distances of the nodes from the ends keep their relative precision when "
     "rules are moved, scaled or joined. The matrix "
     "of Legendre collocation maps the values of any polynomial of degree below n to "
     "its Legendre coefficients. The nested 31-point rule and the rule embedded in it "
     "integrate polynomials up to the degree they claim to rounding accuracy.",
     "all polynomials (symbolic coefficients) and intervals (symbolic ends) for "
     "orders 1 to 5, and all polynomials for the nested rule",
     "tests probe orders 20 to 200 with fixed integrands, so low orders and single "
     "wrong entries of the nested tables are never touched (orders 1 and 2 used to "
     "crash)",
     ['_gauss.py'],
     [('rule_from_recurrence', '_gauss.py:128'),
      ('legendre_collocation', '_gauss.py:114'),
      ('kronrod_31_15', '_gauss.py:224')])

prop('C06', 'Piecewise polynomial evaluation picks the right piece, everywhere',
     "Evaluating a piecewise Legendre polynomial at any x in its domain gives the "
     "normalised Legendre sum of the segment containing x (at an interior knot, the "
     "segment to its right; at the last knot, the last segment), for "
     "any data, knots, number of functions and shape of x, with function axes first. "
     "Selecting functions by index, slice or list commutes with evaluation, and "
     "value(l, x) equals broadcasting single evaluations. Any x outside the domain or "
     "NaN raises ValueError, as do NaN data, unordered knots or mismatched shapes.",
     "all coefficients, knots (strictly increasing; repeated evaluation on the knots included) and x, up "
     "to three segments, order three and rank-two function axes",
     "tests evaluate the singular functions of one kernel at fixed points, where the "
     "functions are continuous, so the choice of the segment is invisible",
     ['poly.py', '_util.py'],
     [('PiecewiseLegendrePoly.__call__/value/_split/__getitem__', 'poly.py:76'),
      ('check_range', '_util.py:64')])

prop('C07', 'deriv(n) is the n-th derivative on every segment',
     "For every piecewise polynomial and every n >= 0, deriv(n) evaluates at every "
     "point of the domain to the n-th derivative of the function, and is zero when n "
     "exceeds the order. Its parity is that of the original times (-1)^n, it "
     "is itself a full piecewise polynomial that can be evaluated, differentiated, "
     "Fourier transformed and integrated, and taking it leaves the original "
     "unchanged.",
     "all coefficients, knots and points; up to three segments, order four, n up to "
     "four",
     "tests compare to reference values for one Λ and loose tolerances",
     ['poly.py'],
     [('PiecewiseLegendrePoly.deriv', 'poly.py:150')])

prop('C08', 'Root finding returns all sign changes and only roots',
     "For a function on a grid of points, the root finder returns in ascending order "
     "exactly one point per sign change between neighbouring grid points, within "
     "rounding of a sign change of the function, and every grid point where the "
     "function is zero, and nothing else. For a function of the integers it returns the "
     "last integer before each sign change. The roots of a continuous piecewise polynomial flagged even or odd, and in the even case not zero at the centre, are symmetric about the centre of its domain, "
     "contain the centre exactly once if it is odd, and are complete whenever each "
     "refined interval has at most one root.",
     "all functions that are piecewise linear or quadratic with symbolic roots; all "
     "integer functions given by symbolic tables",
     "tests look for roots of a few fixed functions",
     ['_roots.py', 'poly.py'],
     [('find_all', '_roots.py:9'), ('_bisect_cont', '_roots.py:52'),
      ('_bisect_discr', '_roots.py:73'),
      ('PiecewiseLegendrePoly.roots', 'poly.py:159')])

prop('C09', 'overlap() is the integral of polynomial times function',
     "overlap(f) of a piecewise polynomial equals the integral of f times the "
     "polynomial over its domain, for every f that is polynomial between break points "
     "when these break points are handed in, with result shape function axes followed "
     "by the shape of f. It is linear in f and in the polynomial, and the overlap with "
     "itself follows from the normalisation of the pieces. Neither operand is modified.",
     "all coefficients, knots, break points and polynomial integrands within stated "
     "degrees",
     "tests take overlaps of one set of orthonormal functions",
     ['poly.py', '_gauss.py'],
     [('_compute_overlap', 'poly.py:471'), ('kronrod_31_15', '_gauss.py:224')])

prop('C10', 'Fourier transform of pieces equals the exact integral',
     "For a piecewise polynomial p on [-1, 1] and every admissible integer frequency "
     "n, the transform without high-frequency model equals 1/√2 times the integral of "
     "exp(iπn(x+1)/2)·p(x). Consequently the value at -n is the complex conjugate of "
     "that at n, an even or odd polynomial gives purely real or imaginary values up to "
     "the phase of its statistics, and indexing functions or reshaping n commutes "
     "with the transform. Domains other than [-1, 1] are refused.",
     "all coefficients and knots, all integer frequencies within the bound, up to "
     "three segments and order three",
     "tests compare with reference data for a handful of basis functions and "
     "frequencies, all from symmetric smooth functions",
     ['poly.py', '_util.py'],
     [('_compute_unl_inner', 'poly.py:376'), ('_phase_stable', 'poly.py:344'),
      ('_get_tnl', 'poly.py:312'), ('ravel_argument', '_util.py:7')])

prop('C11', 'High-frequency model agrees with the exact transform',
     "For a smooth polynomial on [-1, 1] (all derivatives continuous across knots), "
     "the transform with high-frequency model equals the one without, at every "
     "frequency, positive or negative, below, at and above the threshold n_asymp, for "
     "both statistics and regardless of the function's parity or its position in a set. "
     "Selecting functions by index or slice commutes with it.",
     "all coefficients up to order four, all frequencies within bounds and all positive thresholds",
     "tests only look at two large frequencies for one basis",
     ['poly.py'],
     [('_power_moments', 'poly.py:431'), ('_PowerModel.giw', 'poly.py:405'),
      ('PiecewiseLegendreFT.__call__', 'poly.py:242')])

prop('C12', 'Invalid Matsubara indices are always rejected, valid ones kept',
     "Any frequency argument that contains a non-integer, NaN or infinite number, or "
     "an integer of the wrong parity for the statistics, raises ValueError wherever "
     "a frequency is accepted: the basis functions on the Matsubara axis of IR and "
     "augmented bases and of discrete Lehmann representations, the augmentation "
     "terms, and the construction of sampling. Integers of the right parity, given "
     "as integers of any type or as floats, positive or negative, scalars or "
     "arrays, are accepted and give the same result.",
     "all real and special float values, all integers in the bound, both parities",
     "tests try two invalid values",
     ['_util.py', 'poly.py', 'augment.py', 'sampling.py', 'dlr.py'],
     [('check_reduced_matsubara', '_util.py:42')])

prop('C13', 'Default Matsubara points: right parity, sorted, symmetric, complete',
     "The discrete extrema finder returns exactly the strict local extrema of a sequence sampled on consecutive integers, with neighbouring values distinct and non-zero, together with outer points that "
     "qualify, and the "
     "sampling frequencies derived from extrema or sign changes are distinct, sorted "
     "integers of the parity of the statistics. Without positive_only the set is "
     "symmetric under n -> -n; with it, it is the non-negative half of that set. "
     "Bosonic default points always include zero when built from extrema.",
     "all sequences on grids within the bound, both statistics, both modes",
     "tests only check the number of points for a few cutoffs",
     ['_roots.py', 'poly.py', 'basis.py'],
     [('discrete_extrema', '_roots.py:97'),
      ('_symmetrize_matsubara', 'poly.py:456'),
      ('PiecewiseLegendreFT.extrema/sign_changes', 'poly.py:258'),
      ('_default_matsubara_sampling_points', 'basis.py:265')])

prop('C14', 'Sampling: evaluate is the basis sum, fit its least-squares inverse',
     "For every sampling object and all real or complex data of any rank, evaluate "
     "along an axis gives the sum of coefficients times basis functions at the n-th "
     "sampling point, and fit gives the coefficients that minimise the norm of the "
     "residual; so fit undoes evaluate whenever the sampling matrix has full column "
     "rank. Both act independently on all other axes and are linear; with points given "
     "they act as sampling on these points in the order given.",
     "all sampling matrices of full or deficient rank within the bound, all data, all "
     "axes, all orders of points",
     "tests use the well-conditioned default points of a few bases and random data, "
     "always in sorted order",
     ['sampling.py'],
     [('AbstractSampling.evaluate/fit', 'sampling.py:25'),
      ('DecomposedMatrix', 'sampling.py:209'),
      ('_matop_along_axis', 'sampling.py:386'),
      ('TauSampling, MatsubaraSampling', 'sampling.py:108')])

prop('C15', 'positive_only fits return the real least-squares solution',
     "With positive_only, fit returns real coefficients that minimise the norm of the "
     "complex residual on the non-negative frequencies, where the "
     "imaginary part at zero frequency carries no information; fit undoes evaluate "
     "for real coefficients whether or not, or wherever, zero is among the points. "
     "Negative frequencies are rejected, and complex coefficients warn on matrix "
     "multiplication. The stored factors reproduce the matrix.",
     "all complex sampling matrices and data within the bound, with and without zero "
     "frequency at any position",
     "tests use default points only",
     ['sampling.py'],
     [('SplitDecomposedMatrix', 'sampling.py:289'),
      ('_split_complex', 'sampling.py:399')])

prop('C16', 'SVE truncation keeps exactly the significant singular triples',
     "Truncation by relative tolerance keeps exactly those singular values, of all "
     "symmetry blocks taken together, above the tolerance times the largest one, and "
     "with a maximum number it never keeps more than this number nor splits a set of "
     "equal values; singular functions and values stay paired. "
     "Selecting a part by eps and max_size returns the leading triples with value at "
     "least eps times the first, at most max_size of them. Invalid tolerances or sizes given to the truncation are rejected.",
     "all non-increasing sequences of singular values in up to two blocks, including "
     "ties, all tolerances and sizes",
     "tests truncate one kernel at one or two thresholds",
     ['sve.py'],
     [('_truncate', 'sve.py:346'), ('SVEResult.part', 'sve.py:135')])

prop('C17', 'SVE of any kernel reproduces the discretised kernel',
     "For every kernel, segments and Gauss order, the computed singular functions are "
     "orthonormal piecewise polynomials on the kernel's domain, the singular values "
     "non-increasing and non-negative, and the sum of s·u(x)·v(y) equals the kernel at "
     "all Gauss nodes when nothing is cut off. For centrosymmetric kernels the even and "
     "odd blocks yield functions with the parity they are flagged with, "
     "ordered by singular value, equal to the expansion without using symmetry. The sign is fixed by u > 0 at the upper end of the domain, unless u vanishes there.",
     "all kernel values at the Gauss nodes and all segment edges of kernels on [-1, 1], with distinct singular values in the two parities, one to two Gauss "
     "nodes and up to two segments per axis",
     "tests run three kernels at fixed Λ and check accuracy of the result only",
     ['sve.py', 'kernel.py', '_gauss.py'],
     [('SamplingSVE', 'sve.py:151'), ('CentrosymmSVE', 'sve.py:229'),
      ('_canonicalize', 'sve.py:330'), ('matrix_from_gauss', 'kernel.py:484')])

prop('C18', 'Basis in physical units: sum of s·u·v is the kernel, uhat is FT of u',
     "For every β, ωmax and SVE, the basis functions u live on [0, β] and v on "
     "[-ωmax, ωmax], are orthonormal there whenever the SVE is, and sum_l s_l u_l(τ) "
     "v_l(ω) equals the dimensionless expansion at x = 2τ/β-1, y = ω/ωmax times ωmax "
     "to the kernel's power of y. uhat_l(n) is the integral of exp(iπnτ/β) u_l(τ) over "
     "[0, β] for every reduced frequency n of the statistics. Invalid β, ωmax, "
     "statistics or a kernel whose cutoff is not β·ωmax are rejected.",
     "all β, ωmax > 0, all SVE data within the bound, all τ, ω and n",
     "tests fix β and ωmax to a handful of values; a scaling that is wrong only for "
     "ωmax ≠ 1 or for kernels with power passes (and did)",
     ['basis.py'],
     [('FiniteTempBasis.__init__', 'basis.py:45'), ('_get_kernel', 'basis.py:307')])

prop('C19', 'Truncating and rescaling a basis agree with building it directly',
     "basis[:k] consists of exactly the first k functions and singular values of that "
     "basis for every k, with the slice read relative to the basis itself, and "
     "rescale(β') keeps the size, the product β·ωmax and the dimensionless functions. "
     "Significance is s_l/s_0, never exceeds 1 and does not increase; accuracy is the "
     "relative size of the first discarded singular value, or of the last one kept if "
     "none is discarded. Other kinds of index are rejected.",
     "all slices, sizes, eps relative to the SVE, all β'",
     "tests slice once",
     ['basis.py', 'sve.py'],
     [('FiniteTempBasis.__getitem__/rescale', 'basis.py:95'),
      ('_slice_to_size', 'basis.py:327')])

prop('C20', 'Augmented basis prepends its terms consistently everywhere',
     "u, uhat, size, significance and slices of an augmented basis list the augmenting "
     "functions first, in the order given, followed by the functions of the underlying "
     "basis, for arrays, scalars and single indices alike, including derivatives and domain. "
     "The frequency form of each term is the Fourier integral of its time form over "
     "[0, β], where the frequency constant is 1; terms reject τ outside [0, β] and "
     "frequencies of wrong parity. Terms for bosons refuse to be created for a fermionic basis.",
     "all β > 0, τ, n, underlying functions, combinations and order of terms",
     "tests cover one combination of terms for one basis (and left half of the "
     "interface unexecuted)",
     ['augment.py'],
     [('AugmentedBasis', 'augment.py:11'), ('_AugmentedFunction', 'augment.py:123'),
      ('TauConst/TauLinear/MatsubaraConst', 'augment.py:206')])

prop('C21', 'DLR: poles, their transforms, and conversion to IR are consistent',
     "For every non-empty set of poles, the DLR functions in frequency are 1/(iν-ω) for fermions "
     "and tanh(βω/2)/(iν-ω) for bosons (with the limit at ω = ν = 0), their time form "
     "is the inverse transform on all of [0, β], i.e. minus the logistic kernel. "
     "to_IR maps each pole to -s_l v_l(ω) so that both bases "
     "give the same Green's function, and from_IR is its least-squares inverse along "
     "any axis. τ outside [0, β] and other kernels are rejected.",
     "all poles including zero and coinciding signs, all τ, n and β",
     "tests use the default poles of two bases and random coefficients",
     ['dlr.py', 'sampling.py'],
     [('MatsubaraPoles', 'dlr.py:127'), ('TauPoles', 'dlr.py:144'),
      ('DiscreteLehmannRepresentation', 'dlr.py:33')])

prop('C22', 'Basis sets share one expansion and stay mutually consistent',
     "The fermionic and bosonic bases of a basis set, or of the pair constructor, are "
     "built from the same singular value expansion with the same β, ωmax and eps, "
     "whether the expansion is supplied or computed. Every sampling object belongs to "
     "the basis of its own statistics, and the properties of the set return those of "
     "its members.",
     "all β, ωmax, eps and expansions, given or computed",
     "tests construct one set and compare shapes",
     ['basis_set.py', 'basis.py'],
     [('FiniteTempBasisSet', 'basis_set.py:31'),
      ('finite_temp_bases', 'basis.py:225')])

prop('C23', 'irbasis adapter returns the documented irbasis quantities',
     "For every basis and index, ulx, vly, their derivatives, sl and compute_unl of the "
     "adapter equal the singular functions, derivatives, values and transforms of the "
     "expansion, for single indices, index arrays and all functions at once, with "
     "integer Matsubara indices meaning 2n+1 for fermions and 2n for bosons. The "
     "sampling points in x and y interlace the roots and those in frequency are "
     "symmetric about zero frequency for either statistics.",
     "all expansions within the bound, all indices, points and frequencies",
     "test_compare needs reference data of irbasis for three Λ",
     ['adapter.py', 'poly.py'],
     [('Basis', 'adapter.py:49'), ('_sampling_points', 'adapter.py:186'),
      ('_full_interval', 'adapter.py:197')])

prop('C24', 'No call changes the result of another: objects are immutable in use',
     "No method of a kernel, rule, polynomial, transform, basis, sampling or "
     "representation modifies its arguments or itself, so repeating "
     "a call gives the same result whatever calls on the same or other objects come in "
     "between. In particular, methods obtained from one object keep acting on that "
     "object, and derived objects (slices, derivatives, rescaled bases) do not share "
     "mutable results with their parents.",
     "all interleavings of two calls from the listed operations on one or two objects "
     "with symbolic data",
     "tests call each function once on fresh fixtures, so neither aliasing nor hidden "
     "state shows",
     ['_util.py', 'poly.py', '_gauss.py', 'sampling.py', 'basis.py'],
     [('RavelArgumentDecorator', '_util.py:19'),
      ('in-place updates', 'poly.py:78')],
     over=('histories', 'inputs'))

prop('C25', 'SVD driver returns a valid decomposition for every strategy',
     "Whatever the strategy, real floating data type and shape (tall, wide, square), the "
     "returned u, s, v fulfil A = (u·s)·vᵀ with u and v having one column per singular "
     "value and rows of A and its transpose respectively, given that the underlying "
     "library routine meets its contract. An unknown strategy is a ValueError, and the "
     "choice of work precision and strategy follows the requested eps, warning exactly "
     "when it cannot be met.",
     "all matrices with given singular value decomposition within the bound, all "
     "strategies, all eps",
     "tests only see tall or square matrices for each strategy",
     ['svd.py', 'sve.py'],
     [('compute', 'svd.py:28'), ('_dgejsv', 'svd.py:78'), ('_safe_eps', 'sve.py:287')])

prop('C26', 'Default time and frequency sampling points match the basis size',
     "For a basis of size L built from a larger expansion, the default sampling points "
     "in imaginary time are the roots of the first discarded singular function mapped "
     "to [0, β]; without a discarded function they are the extrema of the last one "
     "together with the midpoints between the outermost extrema and the ends of the "
     "interval. Those on the real axis follow likewise from the other functions "
     "on [-ωmax, ωmax]. A request for npoints is treated as a basis of that "
     "size, and a mismatch of the number of points is reported by a warning, never "
     "silently.",
     "all sizes, β, ωmax and all expansions within the bound",
     "tests only check the count for two cutoffs",
     ['basis.py', 'poly.py'],
     [('_default_sampling_points', 'basis.py:241'),
      ('_default_matsubara_sampling_points', 'basis.py:272')])

prop('C27', 'Numerical accuracy of the full expansion at working precision',
     "For every Λ and eps, the computed singular values and functions deviate from "
     "the exact ones by no more than eps relative to the largest singular value, and "
     "default sampling points give well-conditioned fits.",
     "all Λ and eps",
     "tests fix three Λ",
     ['sve.py', 'svd.py', '_gauss.py', 'basis.py'],
     [('compute', 'sve.py:14')], over=('inputs', 'configurations'))

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P))
