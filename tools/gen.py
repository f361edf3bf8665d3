"""Regenerates properties.jsonl and MANIFEST.json (run by hand; no check uses it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FD, ES, IS, BL, MC = ('dppy/finite_dpps.py', 'dppy/exact_sampling.py', 'dppy/intermediate_sampling.py',
                      'dppy/bless.py', 'dppy/mcmc_sampling.py')
EX, EC, BE, RM = ('dppy/exotic_dpps.py', 'dppy/exotic_dpps_core.py', 'dppy/beta_ensembles.py', 'dppy/random_matrices.py')
JO, PP, PC, UT = ('dppy/multivariate_jacobi_ope.py', 'dppy/beta_ensemble_polynomial_potential.py',
                  'dppy/beta_ensemble_polynomial_potential_core.py', 'dppy/utils.py')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=anchors), technique, note))


EXACT = 'the sampler is run on a scripted random source which follows every branch of its entropy, giving its exact output law, which is compared with the determinantal law'

prop('P01', 'Exact DPP samplers draw from the DPP of the given kernel',
     'For every valid description of a finite DPP (marginal kernel, likelihood kernel, their eigendecompositions, Gram/feature factors, projection or not, real or complex) and every exact sampling mode, each subset is returned with exactly the probability that the kernel assigns to it by its determinantal formula. In particular subsets of probability zero are never returned, and all equivalent descriptions and modes give the same law.',
     ['inputs', 'configurations'],
     'for all kernels, spectra (incl. eigenvalues 0 and 1, repeated, rank deficient), ranks, parametrisations and sampling modes',
     'the tests draw a few thousand samples of two or three fixed kernels and use weak chi-square tests on singletons and pairs; they cannot establish joint laws nor exercise degenerate spectra, complex kernels and the mode x parametrisation matrix',
     [FD, ES, UT], [('dispatch on parametrisation', FD + ':FiniteDPP.sample_exact'), ('eigenvector selection and chain rules', ES + ':dpp_eig_vecs_selector, proj_dpp_sampler_*, dpp_sampler_generic_kernel')],
     'exact-law monitor: scripted entropy source + determinantal oracle', 'Exact law of the real code on small ground sets (N<=6), statistical fallback on larger ones; trusts numpy determinants.')
prop('P02', 'Exact k-DPP samplers draw from the k-DPP of the given kernel',
     'For every valid kernel description, size k not exceeding the rank, and exact mode, a k-DPP sample has exactly k distinct items and each size-k subset appears with probability proportional to the determinant of the corresponding submatrix of the likelihood kernel. Equivalent descriptions give the same law.',
     ['inputs', 'configurations'], 'for all likelihood kernels, sizes 1..rank, parametrisations and modes',
     'tests use one fixed kernel and one size with weak statistical adequation; other sizes, degenerate spectra and rank-deficient kernels are never seen',
     [FD, ES], [('elementary symmetric polynomials and eigenvector selection', ES + ':k_dpp_eig_vecs_selector, elementary_symmetric_polynomials, select_eigen_vectors')],
     'exact-law monitor: scripted entropy source + determinantal oracle', 'Exact law on small ground sets; trusts numpy determinants.')
prop('P03', 'Projection DPP samplers follow the projection law with the right cardinality',
     'For every orthogonal projection kernel (given as a matrix or by orthonormal eigenvectors/features), every sampling mode and an optional prescribed size, a sample contains exactly rank (or the prescribed number) distinct items and the joint law is the one prescribed by the kernel. Items with zero remaining conditional probability are never selected.',
     ['inputs', 'configurations'], 'for all projection kernels, ranks 1..N, modes GS/GS_bis/Chol/KuTa12/Schur and sizes',
     'tests draw from a random fixed rank-6 projection; full rank, rank one, coordinate projections and exact ties are not exercised',
     [ES, FD], [('Gram-Schmidt/Cholesky/Schur updates of conditional probabilities', ES + ':proj_dpp_sampler_kernel_*, proj_dpp_sampler_eig_*')],
     'exact-law monitor: scripted entropy source + determinantal oracle', 'Exact law on small ground sets, online conditional checks on larger ones.')
prop('P04', 'Sampling is memoryless: earlier calls never change the law of later ones',
     'Whatever sequence of exact sampling, k-DPP sampling (any sizes), kernel computations, MCMC, display and flush calls was made on a DPP object, the law of the next sample and the values of the kernels equal those of a freshly built object with the same description. Lazily computed and cached quantities are never observable.',
     ['histories', 'configurations'], 'for all histories of public calls on one object and all initial parametrisations',
     'tests build a fresh object per case; cached quantities (eigendecompositions, symmetric polynomials, intermediate sampling constants) are never reused across different requests',
     [FD, IS], [('lazy caches', FD + ':FiniteDPP (attributes computed on demand)')],
     'history fuzzing with exact-law comparison of used vs fresh objects', 'Random histories, sampled not enumerated; the law of the final call is compared exactly.')
prop('P05', 'Marginal and likelihood kernels are converted into each other exactly',
     'Computing the marginal kernel or the likelihood kernel from any valid description yields the matrix defined mathematically: they share eigenvectors, their eigenvalues are related by k=l/(1+l), and factor descriptions give L = Phi^T Phi and K = A^T A. A description for which the other kernel does not exist is refused, and conversion is idempotent and independent of the order of calls.',
     ['inputs', 'configurations', 'histories'], 'for all kernels and parametrisations, real or complex, any rank and spectrum',
     'tests check a single conversion chain on one kernel', [FD], [('kernel computation from available description', FD + ':FiniteDPP.compute_K, compute_L')],
     'differential oracle on conversion histories', 'Randomised matrices within conditioning bounds.')
prop('P06', 'Intermediate samplers (vfx, alpha) target the same DPP and k-DPP',
     'The intermediate-sampling modes, given data, a similarity function and their documented parameters, return samples of the same DPP (respectively k-DPP of the requested size) as direct sampling from the full similarity matrix. Repeated and interleaved requests of different modes, sizes and expected sizes on one object keep targeting the requested law.',
     ['inputs', 'configurations', 'histories'], 'for all data sets, similarity functions, sizes and documented parameters, and histories on one object',
     'tests sample one data set with one kernel and check only singletons/pairs adequation', [IS, FD, BL],
     [('rejection with dictionary based dominating law', IS + ':vfx_sampling_*, alpha_dpp_sampling_*')],
     'statistical law monitor against the enumerated determinantal law', 'Goodness of fit at level 1e-9 on thousands of draws; a bias below about 3% per cell stays invisible.')
prop('P07', 'The DPP is stationary for every MCMC sampler',
     'For every valid kernel, one transition of each MCMC sampler (add-delete, add-exchange-delete, exchange and their fixed-size variants) leaves the targeted DPP or k-DPP law unchanged and can reach every state of positive probability.',
     ['inputs', 'configurations'], 'for all likelihood/marginal kernels, sizes, and current states',
     'tests run one chain with thinning and a weak test; an error in one acceptance ratio is within their noise', [MC],
     [('Metropolis acceptance ratios', MC + ':add_exchange_delete_sampler, add_delete_sampler, basis_exchange_sampler')],
     'exact one-step transition matrix from scripted entropy, invariance oracle', 'Exact transition matrices on N<=6.')
prop('P08', 'MCMC chains are well-formed histories',
     'Every MCMC run returns the sequence of visited states starting with the given (or a valid default) initial state, of the requested length unless the time limit expires first, in which each state is a set of distinct items of positive probability and consecutive states differ by at most one move allowed by the sampler. Fixed-size samplers keep the size constant and time-limited runs stop once, and only once, the limit is exceeded.',
     ['histories', 'schedules', 'configurations'], 'for all kernels, modes, initial states, iteration numbers, time limits and clock behaviours',
     'tests never look at the chain structure, initial states, or time limits', [MC],
     [('chain loop, initialisation and time limit', MC + ':add_exchange_delete_sampler, initialize_*')],
     'online trace checker over recorded chains with a virtual clock', 'Randomised kernels and clocks.')
prop('P09', 'The zonotope sampler moves between bases and targets the projection DPP',
     'For a full-row-rank feature matrix, every state visited by the zonotope sampler is a set of as many distinct columns as rows which form a basis, the chain has the requested length, and its long-run law is the projection DPP of the row space. The result does not depend on an invertible change of the rows.',
     ['inputs', 'histories'], 'for all feature matrices of full row rank, linear objectives and histories',
     'the solver package is absent so no test executes this code', [MC, FD], [('linear programs, basis extraction, hit-and-run acceptance', MC + ':zonotope_sampler, extract_basis')],
     'trace checker and stationary-law monitor on a substitute LP solver', 'The LP solver is replaced by a scipy stand-in with the same interface.')
prop('P10', 'BLESS dictionaries and leverage-score estimates are sound',
     'Leverage scores estimated from a dictionary that is the whole data set with unit weights equal the exact ridge leverage scores, and those from any unit-weight sub-dictionary dominate them. The dictionaries produced by the adaptive procedure contain existing data points matching their indices with inclusion probabilities in (0,1], for the requested regularisation or size, and the procedure always terminates.',
     ['inputs', 'configurations', 'histories'], 'for all data sets, similarity functions, regularisations, oversampling levels and seeds',
     'no test calls these functions', [BL, IS], [('ridge leverage score estimator and dictionary refinement', BL + ':estimate_rls_bless, reduce_lambda, bless, bless_size')],
     'differential oracle + online monitor on intermediate dictionaries', 'Randomised data sets of moderate size.')
prop('P11', 'Elementary symmetric polynomials are exact',
     'For every list of non-negative eigenvalues and size, the table used for fixed-size sampling contains the elementary symmetric polynomials of all prefixes of the eigenvalues.',
     ['inputs'], 'for all eigenvalue lists and sizes, including zeros, repeated and widely spread values',
     'one small list is tested', [ES], [('recursion', ES + ':elementary_symmetric_polynomials')],
     'differential oracle in rational arithmetic', 'Floating-point relative error bound 1e-9.')
prop('P12', 'Invalid requests are refused with an explanatory error, valid ones accepted',
     'Every invalid description or request (asymmetric or non-projection kernel, eigenvalues out of range, mismatched shapes, unknown mode or parametrisation, size exceeding the rank, sizes out of range, kernel that does not exist, empty or inconsistent parameters) raises a value error before any sample is produced or recorded. Every valid one within numerical tolerance is accepted.',
     ['inputs', 'configurations'], 'for all malformed and well-formed descriptions and requests of every public class',
     'a few invalid inputs are tested; boundary and combined cases are not', [FD, ES, MC, EX, BE, JO, UT],
     [('input validation', UT + ':check_*'), ('constructor validation', FD + ':FiniteDPP.__init__')],
     'mutation of valid requests with accept/refuse oracle', 'Randomly generated invalid variants per rule.')
prop('P13', 'Results are a function of the inputs and the given random source only',
     'Calling a sampler twice with equal inputs and the same seed or equal generator states gives identical results, and a generator passed by the caller is the only source of randomness: the global generator is neither read nor advanced. Consecutive calls sharing one generator consume it so that samples are not repeated.',
     ['inputs', 'histories', 'configurations'], 'for all samplers, parametrisations, seeds and interleavings of global generator use',
     'tests never compare two runs nor watch the global generator', [FD, ES, MC, IS, BL, EX, BE, JO, PP, UT],
     [('random source normalisation', UT + ':check_random_state')],
     'entropy-source sanitizer: global-generator tripwire and replay comparison', 'Every public sampler of the library is exercised.')
prop('P14', 'Calls never modify their arguments nor process-wide state',
     'No public call modifies arrays, lists, graphs or dictionaries passed to it (at construction or later), and no call changes process-wide numerical settings such as error handling. Later modification by the user of returned samples does not change the laws sampled subsequently.',
     ['inputs', 'histories'], 'for all public calls, parametrisations and memory layouts (read-only arrays included)',
     'tests do not look at inputs after calls', [FD, ES, MC, IS, BL, EX, EC, BE, RM, JO, PC],
     [('copies made before in-place updates', ES + ':proj_dpp_sampler_*'), ('in-place kernels', PC + ':cdf_equilibrium_*')],
     'memory-write sanitizer: read-only and fingerprinted inputs', 'Every public entry point is exercised.')
prop('P15', 'Recorded samples are exactly the samples that were returned, in order',
     'Each successful sampling call appends exactly one entry (a sample, or a chain for MCMC) to the history of the object, equal to the returned value when one is returned, preserving all earlier entries; failed calls append nothing. Flushing empties the history and the next sample starts a new one, other objects being unaffected.',
     ['histories'], 'for all sequences of successful and failing sampling, display and flush calls on all classes',
     'tests never interleave calls', [FD, EX, BE, PP], [('history list', FD + ':FiniteDPP.list_of_samples, flush_samples')],
     'history monitor: conservation and order of recorded samples', 'Random call histories.')
prop('P16', 'Uniform spanning trees are spanning trees drawn uniformly',
     'On every connected simple graph with at least two nodes, whatever the labels of its nodes, and for every sampling mode and root, the returned graph is a spanning tree on the same nodes using edges of the input graph, and every spanning tree is equally likely. The associated edge kernel is the transfer-current projection of rank number of nodes minus one.',
     ['inputs', 'configurations'], 'for all connected graphs, modes and roots',
     'tests use no graph with known law', [EX, EC, ES], [('Wilson, Aldous-Broder, projection DPP', EC + ':ust_sampler_wilson, ust_sampler_aldous_broder'), ('kernel', EX + ':UST.compute_kernel')],
     'exact-law monitor plus structural trace checker', 'Random-walk samplers have unbounded entropy: exact up to a truncation mass, plus statistical tests.')
prop('P17', 'Uniform permutations and RSK are exact',
     'The permutation generator returns each permutation of the requested size with equal probability, and the insertion correspondence returns a pair of standard tableaux of the same shape from which the sequence can be recovered, its first row length being the length of the longest increasing subsequence.',
     ['inputs'], 'for all sizes and sequences without repetition', 'not tested at all', [EC],
     [('Fisher-Yates and row insertion', EC + ':uniform_permutation, RSK')],
     'exact-law monitor; inverse-correspondence oracle', 'Exact for N<=5; randomised beyond.')
prop('P18', 'Poissonised Plancherel samples follow the law',
     'Sampling returns a partition whose size is Poisson with the given parameter and which, given its size, has Plancherel probability; each recorded partition is weakly decreasing and positive. The limit shape is evaluated correctly for every argument type.',
     ['inputs', 'histories'], 'for all parameters, seeds and histories', 'not tested at all', [EX, EC],
     [('Poisson number of points and RSK', EX + ':PoissonizedPlancherel.sample'), ('limit shape', EC + ':limit_shape')],
     'statistical law monitor plus structural checks', 'Level 1e-9.')
prop('P19', 'Carries and descent processes have their one-dependent determinantal law',
     'The returned positions are increasing indices in range, and their joint law is that of the descents of the corresponding sequence (carries of adding random digits in any base, descents of a uniform permutation, virtual descents with any parameter).',
     ['inputs', 'configurations'], 'for all sizes, bases and parameters', 'only a marginal is displayed, none is tested', [EX],
     [('samplers', EX + ':CarriesProcess.sample, DescentProcess.sample, VirtualDescentProcess.sample')],
     'exact-law monitor for discrete entropy; statistical otherwise', 'Exact on small sizes, level 1e-9 beyond.')
prop('P20', 'Banded matrix models have the announced beta-ensemble density',
     'For every positive beta, size and parameters, the eigenvalues of the tridiagonal/quindiagonal models of the Hermite, Laguerre, Jacobi and circular ensembles follow the joint density announced in the documentation, for all beta including non-integers; beta=0 gives i.i.d. points from the reference law.',
     ['inputs', 'configurations'], 'for all beta, sizes and parameters', 'tests look at histograms of one large sample against the limit; finite-size laws are not checked', [BE, RM],
     [('coefficients and spectra', RM + ':mu_ref_*_sampler_tridiag, mu_ref_unif_unit_circle_sampler_quindiag')],
     'statistical monitors from Selberg-integral moments', 'Level 1e-9 with at least 1e4 draws; distinguishes parameter errors of a few percent.')
prop('P21', 'Full matrix models have the announced beta-ensemble density',
     'For beta=1,2,4 the full matrix models of the Hermite, Laguerre, Jacobi, circular (both Haar options) and Ginibre ensembles return the announced number of points following the joint density of the ensemble, agreeing with the banded models under the documented parameter identification.',
     ['inputs', 'configurations'], 'for all beta in {1,2,4} (2 for Ginibre), sizes and options', 'tests look at histograms of one large sample',
     [BE, RM], [('full matrix samplers', RM + ':hermite_sampler_full, laguerre_sampler_full, jacobi_sampler_full, circular_sampler_full, ginibre_sampler_full')],
     'statistical monitors from Selberg-integral moments', 'Level 1e-9; three known findings recorded for the circular ensemble.')
prop('P22', 'Ensemble points have the right number, support and normalised limit',
     'Every sample of a beta-ensemble has the requested number of finite points inside the support of the ensemble (reals, positives, unit interval, unit circle, plane), and the normalisation rescales them by the documented constants so that large samples follow the displayed limiting density, which integrates to one. Normalising and displaying use the parameters of the last sample and leave recorded samples unchanged.',
     ['inputs', 'histories', 'configurations'], 'for all ensembles, models, parameters and histories alternating models',
     'tests cover one large sample per ensemble with a loose histogram test', [BE, RM],
     [('normalisation maps', BE + ':*.normalize_points'), ('limit densities', RM + ':semi_circle_law, marcenko_pastur_law, wachter_law')],
     'trace checker and sup-norm CDF monitor', 'Threshold 0.06 at N=300.')
prop('P23', 'Jacobi polynomial-ensemble kernel is the Christoffel-Darboux projection kernel',
     'For all parameters, dimension and number of points, the polynomials underlying the multivariate Jacobi ensemble are orthonormal for the Jacobi measure, selected along the documented graded order, and the kernel they define is symmetric, positive and reproducing, with trace equal to the number of points. Point-wise and matrix evaluations for any shape of input agree entry by entry, and the base weight has the announced total mass.',
     ['inputs', 'configurations'], 'for all Jacobi parameters > -1, dimensions, numbers of points and evaluation points (in or at the border of the domain)',
     'tests check a few random points in two configurations', [JO],
     [('ordering, norms and evaluation', JO + ':compute_ordering, compute_norms_1D_polynomials, MultivariateJacobiOPE.K')],
     'differential oracle with Gauss-Jacobi quadrature', 'Floating-point tolerance 1e-8 for degrees up to about 30.')
prop('P24', 'Jacobi polynomial-ensemble samples follow the projection DPP',
     'A sample of the multivariate Jacobi ensemble has exactly the requested number of points inside the hypercube with the joint density given by the squared determinant of the kernel with respect to the Jacobi measure, in every dimension and by every internal route. The rejection constants really dominate the targets they are used for.',
     ['inputs', 'configurations'], 'for all Jacobi parameters in the supported range, dimensions, numbers of points and routes',
     'tests check adequation of a single marginal in one configuration', [JO, RM],
     [('chain rule with rejection', JO + ':MultivariateJacobiOPE.sample, sample_chain_rule_proposal, compute_rejection_bounds')],
     'statistical monitors of determinantal moments + online domination monitor', 'Level 1e-9; domination checked on dense grids.')
prop('P25', 'Polynomial-potential beta-ensembles sample the announced Gibbs conditionals',
     'For every admissible even-dominated polynomial potential and beta, each step of the Gibbs sampler draws the recursion coefficient from its exact conditional law under the joint tridiagonal density, with the tridiagonal spectrum recorded after each pass, so that for a quadratic potential the eigenvalues follow the Hermite ensemble. The exact and approximate conditional samplers agree in law.',
     ['inputs', 'configurations', 'histories'], 'for all admissible potentials up to degree six, beta and sizes',
     'tests of this code are absent', [PP, PC], [('conditional polynomials', PC + ':polynomial_in_negative_log_conditional_*'), ('log-concave and MALA samplers', PC + ':sampler_exact_convex_quartic, sampler_mala')],
     'differential oracle on conditionals, statistical monitors on samplers', 'Level 1e-9.')
prop('P26', 'Equilibrium measures are probability measures solving the variational problem',
     'The equilibrium density displayed for a supported potential is nonnegative, integrates to one, satisfies the Euler-Lagrange condition of the potential on its support, and the associated cumulative function is its primitive, for scalar and array arguments. The rescaling of the largest point is consistent with the right edge of the support.',
     ['inputs', 'configurations'], 'for all supported potentials and parameters and all evaluation points', 'no test', [PC, PP],
     [('densities and cdfs', PC + ':equilibrium_*, cdf_equilibrium_*')],
     'differential oracle by quadrature', 'Tolerance 1e-4 of numerical quadrature.')
prop('P27', 'The Tracy-Widom distribution function is accurate',
     'The Tracy-Widom cumulative distribution function is nondecreasing with values in [0,1], tends to 0 and 1, and agrees with published values to several digits, for scalar arguments of any type and quadrature orders.',
     ['inputs', 'configurations'], 'for all real arguments and quadrature orders above a minimum', 'no test', [PC],
     [('Fredholm determinant of the Airy kernel', PC + ':TracyWidom.cdf')],
     'differential oracle against Painleve integration and tables', 'Tolerance 5e-6.')
prop('P28', 'Displays show exactly what was sampled and its reference law',
     'Every plot and histogram shows exactly the last recorded sample of the object (all of its points, after the documented normalisation when requested), every kernel heatmap shows the mathematical kernel with items in order, every tree or Young diagram drawn is the one which was sampled, with its labels, and the reference curves drawn are the limiting or reference densities of the displayed points. A display succeeds on every sample the object can return, and leaves the object, its samples and the arguments unchanged.',
     ['inputs', 'histories', 'configurations'], 'for all objects, histories of draws, samples (including empty ones) and display options',
     'tests never look at figures; the documented way of assessing samples is by eye on these displays',
     [FD, EX, EC, BE, JO, PP], [('displays', FD + ':FiniteDPP.plot_kernel'), ('displays', EX + ':Descent.plot, PoissonizedPlancherel.plot, plot_diagram, UST.plot, plot_graph, plot_kernel'),
                            ('displays and normalisation', BE + ':*.plot, *.hist'), ('weighted displays', JO + ':MultivariateJacobiOPE.plot'), ('histogram', PP + ':BetaEnsemblePolynomialPotential.hist')],
     'figure monitor: artists actually drawn are read back and compared with the sample and independent references', 'Reads the artists of the installed matplotlib; colours, titles and layout are not judged.')
prop('P29', 'Linear algebra and similarity building blocks compute what they announce',
     'The helper functions on which every sampler relies return exactly what they announce for every shape, type and memory layout of their arguments: sums of products along an axis, minors on arbitrary (possibly empty, unordered or repeated) index collections, the example similarity functions and their diagonals for matrices or single points, and the stable part and inverse square root of an eigendecomposition, keeping every eigenvalue which is numerically non-zero. Matrix predicates return the very array they were given when it satisfies the announced condition up to rounding and raise ValueError otherwise; arguments are never modified.',
     ['inputs', 'configurations'], 'for all shapes, values, types, index collections and spectra',
     'tests exercise a few of these helpers on one or two matrices', [UT],
     [('helpers', UT + ':inner1d, det_ST, is_*, stable_filter, stable_invert_root, evaluate_L_diagonal, example_eval_L_*')],
     'differential oracle: definitions evaluated independently (rational determinants, explicit sums) on every observed call', 'Cheap documented tests of matrices look at the first 20 rows / 5 columns only; defects are placed there.')

NA = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, technique, note in P:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i + '.py')) and i not in NA:
            checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run.py {} --tier quick'.format(i),
                               thorough_cmd='/opt/venv/bin/python run.py {} --tier thorough'.format(i),
                               technique=technique, level='exploration', level_note=note,
                               evidence_file='evidence/{}.json'.format(i)))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, networkx, matplotlib"',
             checks=checks, not_applicable=na,
             notes='Pure Python code base: checks import dppy from the working tree of /repo, nothing has to be built. No hooks in /repo are needed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
