import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","Pole Green's functions are the exact sums over their poles",
 "For any poles, weights and broadcastable batch shapes, the pole functions evaluate exactly the model G(z)=sum_i w_i/(z-p_i): its value, first derivative, high-frequency moments, imaginary-time function on 0<=tau<=beta (real poles), Bose imaginary-time function (poles with positive real part), and retarded real-time function, within floating point rounding and without overflow for extreme poles or temperatures. The object interface (evaluation, tau, ret_t, occupation, moments) and the functional interface agree with the same model.",
 ["inputs"],"every pole/weight set, argument, temperature, order and batch shape",
 "The tests draw a few random pole sets and mostly compare one formulation with another of the same code; the claim is over all inputs including extreme beta*pole, order 0 moments, complex poles and batch layouts.",
 ["gftool/basis/pole.py","gftool/__init__.py"],[("gf_z, gf_d1_z, gf_tau, gf_ret_t, moments, PoleFct, PoleGf","gftool/basis/pole.py"),("pole_gf_tau_b","gftool/__init__.py")],
 observe=["return values of gftool.basis.pole.* and gftool.pole_gf_*"])
p("C02","Fermi and Bose functions, derivative and inverse",
 "The Fermi function is 1/(exp(beta*eps)+1) and the Bose function 1/(exp(beta*eps)-1) for every real or complex eps (integer input included) and beta, with no overflow, nan or loss of accuracy for extreme arguments. The Fermi derivative is the exact derivative (accurate relative to the Fermi function), and the inverse Fermi function inverts it on (0,1).",
 ["inputs"],"every eps (real, complex, integer, huge, tiny), beta and array shape",
 "Tests compare a handful of moderate floats with the naive formula; thresholds for large arguments, tiny Bose arguments, integer dtypes and complex arguments are not sampled.",
 ["gftool/statistics.py"],[("bose_fct, fermi_fct, fermi_fct_d1, fermi_fct_inv","gftool/statistics.py")],observe=["return values"])
p("C03","Matsubara and Pade frequencies are the poles of the statistics",
 "Fermionic (bosonic) Matsubara frequencies are i*pi*(2n+1)/beta (2*i*pi*n/beta) for every requested index array. The Pade frequencies and residues for every number of poles lie on the positive imaginary axis in ascending order with positive residues, and 1/2 - sum_p residue_p*2*eps/(eps^2-izp_p^2)/beta is the Pade approximant of the Fermi function: it matches the Taylor expansion of the Fermi function around eps=0 up to and including eps^(4*num-1), the order guaranteed by the approximant.",
 ["inputs","configurations"],"every index array, beta and number of poles",
 "Tests check specific counts; the defining order condition of the Pade decomposition for every num is not tested.",
 ["gftool/statistics.py"],[("matsubara_frequencies, matsubara_frequencies_b, pade_frequencies","gftool/statistics.py")],observe=["return values"])
p("C04","Fermionic Fourier transforms iw<->tau represent one Green's function",
 "Between Matsubara frequencies and imaginary time the transforms return the documented object for every number of points, batch shape and beta: the discrete transforms are the exact truncated Fourier sum of the (anti-periodically continued) data / the Riemann sum with the jump averaged at the end points, the linear transform integrates the piecewise-linear interpolant exactly, and the tail-corrected transforms are exact for pole models covered by the given high-frequency moments and fitted poles. The imaginary-time mesh has 2*N+1 points including both end points and G(tau=beta)=-m_0-G(tau=0) where a jump m_0 is supplied or assumed.",
 ["inputs","configurations"],"every number of points, parity, moment count, fitted pole count, batch shape and transform variant",
 "Tests compare one Bethe Green's function with loose tolerances and a few pole models; exactness on the whole linear space and every option combination is not covered.",
 ["gftool/fourier.py"],[("iw2tau_dft, iw2tau_dft_soft, iw2tau, tau2iw_dft, tau2iw_ft_lin, tau2iw","gftool/fourier.py")],observe=["return values"])
p("C05","Bosonic Fourier transform tau->iv",
 "For every number of points and batch shape, transforming a bosonic imaginary-time function to Matsubara frequencies gives the exact trapezoidal sum (dft variant) or the exact Fourier integral of the piecewise-linear interpolant (linear variant), including the zero frequency. The general transform subtracts a linear-in-tau part and adds its exact transform, so it is exact for linear functions of tau and, for the linear variant, for every piecewise-linear function.",
 ["inputs"],"every sampled tau function, number of points and beta",
 "Tests use single pole functions and compare approximately.",["gftool/fourier.py"],[("tau2iv_dft, tau2iv_ft_lin, tau2iv","gftool/fourier.py")],observe=["return values"])
p("C06","Laplace transforms from real time to frequency",
 "Transforming an equidistant real-time retarded (t>=0, Im z>=0) or advanced (t<=0, Im z<=0) function to frequencies gives the exact value of the selected quadrature rule: trapezoid, Simpson, or the exact Laplace integral of the piecewise-linear interpolant; the Pade, Hermite-Pade and linear-prediction variants give the exact infinite-time value for sums of decaying exponentials they can represent. Wrong half-planes and non-equidistant meshes are rejected instead of giving numbers.",
 ["inputs","configurations"],"every mesh length and parity, z, batch shape, method and quadrature",
 "Tests use a few fixed meshes; parity and threshold branches over all lengths and small z are not settled.",
 ["gftool/fourier.py"],[("tt2z, tt2z_trapz, tt2z_simps, tt2z_lin, tt2z_pade, tt2z_herm2, tt2z_lpz","gftool/fourier.py")],observe=["return values, raised errors"])
p("C07","Pole fits honour every exact constraint and recover pole models",
 "Fitting pole functions to moments, frequency data or imaginary-time data reproduces the supplied high-frequency moments (and occupation) exactly and is the constrained least-squares optimum for the fixed mesh of poles, for every width (scalar, batched or None), weight, batch shape and pole count, as long as the constraints are independent. Fits of data generated on the fit's own pole mesh recover it, and the derived continuation between Pade frequencies and imaginary time agrees with that model.",
 ["inputs","configurations"],"every data set, number of poles, moments, width (including None), weight and batch shape",
 "Tests check single examples without the optimality and constraint conditions over all option combinations.",
 ["gftool/basis/pole.py","gftool/fourier.py","gftool/linalg.py"],[("gf_from_moments, gf_from_z, gf_from_tau","gftool/basis/pole.py"),("izp2tau, tau2izp","gftool/fourier.py")],observe=["returned poles and residues"])
p("C08","Occupation numbers from Matsubara sums",
 "The density computed from Matsubara or Pade frequencies is the documented weighted sum plus the exact occupation of the high-frequency model, so that it is exact for every pole model covered by the supplied moments and fitted poles and linear in the Green's function. The legacy density, its error estimates and the convergence check return the documented estimate and an upper bound on the truncated tail (of realistic size), in scalar, vector and matrix form.",
 ["inputs","configurations"],"every Green's function, frequency mesh, weights, moments, fit and batch shape",
 "Tests compare a few Green's functions approximately.",["gftool/density.py","gftool/__init__.py"],[("density_iw","gftool/density.py"),("density, density_error, density_error2, check_convergence","gftool/__init__.py")],observe=["return values"])
p("C09","Chemical potential search brackets and finds the root",
 "For every continuous non-decreasing occupation function that crosses the target, the search evaluates only finite chemical potentials, moves in the direction that lowers the error with growing steps until the root is bracketed, and returns a potential whose residual is below tolerance; if the start point is already a root it is returned. If no bracket is found within the step limit or the function misbehaves, a runtime or value error is raised rather than a wrong potential.",
 ["inputs","histories"],"every monotone occupation function, start value, first step and evaluation history",
 "Tests use one or two smooth functions; the bracketing search is a state machine over unbounded histories.",
 ["gftool/density.py"],[("chemical_potential","gftool/density.py")],state=[("bracket","last two evaluated potentials and signs","gftool/density.py")],observe=["sequence of evaluated potentials, return value, raised error"])
p("C10","Lattice DOS moments equal closed-walk counts",
 "For every lattice and order the density-of-states moment equals the average number of closed nearest-neighbour walks of that length on the lattice scaled by the hopping to that order (catalan / uniform moments for Bethe and box), odd moments vanish for bipartite lattices, and moments scale as half_bandwidth**m for any array of half-bandwidths. Orders outside the tabulated range raise NotImplementedError, never a wrong number.",
 ["inputs","configurations"],"every lattice, order and half-bandwidth",
 "Tests integrate the numeric DOS with quadrature tolerance and cannot see a wrong high-order digit.",
 ["gftool/lattice/*.py"],[("dos_moment","gftool/lattice/*.py"),("dos_moment_coefficients","gftool/lattice/*.py")],observe=["return values"])
p("C11","Lattice Green's functions are the Hilbert transforms of their DOS",
 "For every lattice, half-bandwidth and complex frequency off the real axis, the local Green's function is analytic, equals the moment (closed-walk) expansion sum_m M_m/z^(m+1), fulfils G(conj z)=conj G(z), has Im G<0 in the upper half-plane, and scales as G(z;D)=G(z/D;1)/D; bipartite lattices additionally fulfil G(-z)=-G(z) and the algebraic lattices their defining equation. The Hilbert transform and the top-level aliases are the same function.",
 ["inputs","configurations"],"every lattice, complex frequency in either half-plane, half-bandwidth and batch shape",
 "Tests sample symmetry and normalisation; a wrong branch or threshold in a small region of the complex plane is not seen.",
 ["gftool/lattice/*.py","gftool/__init__.py"],[("gf_z, hilbert_transform","gftool/lattice/*.py")],observe=["return values"])
p("C12","Lattice densities of states",
 "For every lattice the density of states is non-negative, zero outside the band (at the band edge zero or the inner limit), equals -Im G(eps+i0)/pi inside, has the lattice's exact moments (apart from the documented flat-band peak), scales as dos(eps;D)=dos(eps/D;1)/D, is even for bipartite lattices, and accepts float, integer and batched energies. The multi-precision versions return the same function.",
 ["inputs","configurations"],"every lattice, real energy including band edges, van-Hove points and outside, half-bandwidth",
 "Tests integrate numerically and sample few points.",["gftool/lattice/*.py"],[("dos, dos_mp","gftool/lattice/*.py")],observe=["return values"])
p("C13","Derived lattice functions: derivatives, inverse, real time, finite Bethe",
 "The Bethe Green's function derivatives are the exact first and second derivatives, its inverse function inverts it, the finite-coordination (>=2) Bethe lattice fulfils its defining recursion and interpolates between the chain and the infinite Bethe lattice, the real-time Bethe and box functions are the Fourier integrals of their DOS shifted by center half-bandwidths, and the square-lattice stress transform fulfils its defining identity. This holds for every frequency in both half-planes, half-bandwidth, coordination and time.",
 ["inputs","configurations"],"every frequency, half-bandwidth, coordination, time",
 "Tests compare few points with numerical derivatives.",["gftool/lattice/bethe.py","gftool/lattice/bethez.py","gftool/lattice/box.py","gftool/lattice/square.py","gftool/lattice/rectangular.py"],
 [("gf_d1_z, gf_d2_z, gf_z_inv, gf_ret_t","gftool/lattice/bethe.py"),("gf_z, dos","gftool/lattice/bethez.py"),("gf_ret_t","gftool/lattice/box.py"),("stress_trafo","gftool/lattice/square.py")],observe=["return values"])
p("C14","Matrix decompositions reconstruct and construct Green's functions",
 "For every stack of matrices, decomposing and reconstructing with the original or a transformed spectrum gives the matrix (or the function of the matrix) in diagonal and full form; Hermitian and symmetric decompositions have unitary / orthogonal vectors and reject matrices of the wrong kind. The decomposition object's inverse-vector and singular-value data describe the represented matrix, sequence access is consistent, and the closed 2x2 Green's function equals the matrix inverse for every non-degenerate Hamiltonian.",
 ["inputs","histories"],"every matrix stack, eigenvalue replacement and access sequence",
 "Tests sample small random matrices with one batch layout.",["gftool/matrix.py"],[("Decomposition, UDecomposition, decompose_*, construct_gf, gf_2x2_z","gftool/matrix.py")],observe=["return values"])
p("C15","Non-interacting impurity model functions agree with its Hamiltonian",
 "For every set of bath energies and hoppings the hybridization function, the local Green's function, the Hamiltonian matrix and the retarded, greater and lesser real-time functions describe the same quadratic Hamiltonian: G=1/(z-e-Delta), the resolvent's corner element, and time functions given by its spectral decomposition with Fermi weights, with ret = greater - lesser. Batch dimensions and integer or complex hopping are supported.",
 ["inputs"],"every bath, time, temperature and batch shape","Tests check a few random baths.",
 ["gftool/siam.py"],[("gf0_loc_z, gf0_loc_ret_t, gf0_loc_gr_t, gf0_loc_le_t, hamiltonian_matrix, hybrid_z","gftool/siam.py")],observe=["return values"])
p("C16","CPA solutions are self-consistent, causal and honour fixed occupation",
 "If it does not raise (the solver may give up on hard cases with RuntimeError), the returned coherent-potential self-energy for concentrations summing to one makes the concentration-weighted component Green's function equal the effective-medium Green's function at every frequency, is causal when requested, and keeps the requested total occupation when the chemical potential is solved for. Component Green's functions, root and fixed-point equations follow their documented formula for every number of components and batch shape, and the pure-component limit gives the component's own on-site energy.",
 ["inputs","configurations"],"every on-site energies, concentrations, frequency mesh, lattice transform and option",
 "Tests use two components at few frequencies.",["gftool/cpa.py"],[("solve_root, solve_fxdocc_root, gf_cmpt_z, self_root_eq, self_fxdpnt_eq, restrict_self_root_eq","gftool/cpa.py")],observe=["return values"])
p("C17","BEB solutions are self-consistent and reduce to CPA",
 "The Blackman-Esterling-Berk local Green's function is the lattice average of the component matrix resolvent for every hopping matrix including rank-deficient ones, the self-energy returned (rather than a RuntimeError) for concentrations summing to one fulfils the self-consistency concentration = diagonal condition at every frequency and is causal when requested, and for component-independent hopping the component Green's functions equal those of CPA. Truncation of the hopping spectrum keeps the partition of the matrix.",
 ["inputs","configurations"],"every hopping matrix, on-site energies, concentrations, frequency",
 "Tests use few hopping matrices.",["gftool/beb.py"],[("SpecDec, gf_loc_z, self_root_eq, restrict_self_root_eq, solve_root","gftool/beb.py")],observe=["return values"])
p("C18","Linear prediction reproduces and continues linear recurrences",
 "For sequences obeying a linear recurrence (sums of exponentials) the covariance method finds coefficients that reproduce it and the prediction continues the sequence exactly for every order, length and batch shape; the Burg method always yields a stable predictor (reflection magnitudes at most one) equal to its defining lattice recursion. The prediction leaves the given data unchanged, its stable variant never grows, and the companion matrix has the predictor polynomial as characteristic polynomial.",
 ["inputs","histories"],"every sequence, order, prediction length, batch shape",
 "Tests check few sequences.",["gftool/linearprediction.py"],[("companion, pcoeff_covar, pcoeff_burg, predict","gftool/linearprediction.py")],observe=["return values"])
p("C19","Thiele Pade continuation: interpolation, iteration and averaging",
 "The continued-fraction coefficients make every truncated continued fraction interpolate the input points it contains, and the iterator yields for every step exactly that truncated fraction. Kind selectors visit exactly the coefficient numbers n_min < N <= n_max of the documented parity, filters and averaging return the documented mean and deviation over exactly the approximants that are valid, and the one-call averages agree with the step-by-step interface.",
 ["inputs","histories","configurations"],"every data set, number range, kind, filter combination and batch shape",
 "Tests check one function with few ranges.",["gftool/pade.py"],[("coefficients, masked_coefficients, calc_iterator, Averager, Mod_Averager, KindGf, KindSelf, Filter*, apply_filter, averaged, avg_no_neg_imag","gftool/pade.py")],state=[("A/B iterates","continued fraction numerator and denominator recursion","gftool/pade.py")],observe=["yielded values, selected indices, returned averages"])
p("C20","Taylor (Hermite-)Pade approximants fulfil their order conditions",
 "For every series and degree pair the Pade approximant p/q has the requested degrees and q*f-p vanishes to order num_deg+den_deg, the robust variant returns the approximant with both degrees reduced by the common defect, and the least-squares variants minimise the residual with the documented normalisation (q[0]=1, or the coefficient selected by fix_qr). Quadratic Hermite-Pade polynomials fulfil p+q*f+r*f^2 = O(x^(sum of degrees+2)) and evaluate to the branch that matches the series at the origin.",
 ["inputs","configurations"],"every Taylor series, degrees including zero, evaluation point",
 "Tests use few named series.",["gftool/hermpade.py"],[("pade, pade_lstsq, pader, hermite2, hermite2_lstsq, Hermite2","gftool/hermpade.py")],observe=["returned polynomials and values"])
p("C21","Pole-based rational continuation recovers rational functions",
 "For data sampled on enough points (two per pole and a few more) from a rational function with few well-separated poles the continuation finds its number of poles, poles, zeros, asymptotic prefactor and residues, and evaluates to that function in pole and zero-pole form and reports its moments; residue fits are the (weighted, moment-constrained) least-squares optimum for the given poles. Prescribed degree and moment constraints are honoured for every weight.",
 ["inputs","configurations"],"every rational function, sample mesh, degree, weight and moments",
 "Tests use one or two pole sets.",["gftool/polepade.py"],[("number_poles, poles, zeros, asymptotic, residues_ols, continuation, PadeApprox","gftool/polepade.py")],observe=["returned model"])
p("C22","Constrained least squares and orthogonal complements",
 "For every full-row-rank constraint system the constrained least-squares solver returns the minimiser of |a x-b| subject to c x=d (constraints satisfied, gradient orthogonal to the constraint null space), for real and complex matrices; constraints that cannot be fulfilled raise LinAlgError. The orthogonal complement is an orthonormal basis of exactly the complement of the column space, and wide matrices are rejected.",
 ["inputs"],"every matrix stack, right-hand side, rank and dtype","Tests check a few random systems.",["gftool/linalg.py"],[("orth_compl, lstsq_ec","gftool/linalg.py")],observe=["return values"])
p("C23","Batched evaluation equals element-wise evaluation",
 "For every vectorised public function, evaluating stacked or broadcast arguments gives the stack of the individual evaluations (within rounding, or the solver tolerance of iterative solvers), with the documented output shape, for scalars, 0-d, 1-d and higher-dimensional, empty (where the underlying linear algebra allows it) and non-contiguous inputs, and for lists where array_like is documented.",
 ["inputs","configurations"],"every public vectorised function, batch shape and memory layout",
 "Tests use one shape per function.",["gftool/*.py","gftool/lattice/*.py"],[("gufunc / broadcast conventions","gftool/_util.py and all modules")],observe=["return values and shapes"])
p("C24","Calls are pure: inputs unchanged, results history independent",
 "No public function modifies the arrays, lists or objects the caller passes in (except documented in-place self-energy restriction), and repeating a call - alone, after any other call, after an error or with read-only inputs - returns the same results.",
 ["histories","inputs"],"every sequence of public calls",
 "Tests call each function once with fresh arrays and do not look at the arguments afterwards.",["gftool/**/*.py"],[("no in-place update of arguments, no module state","all modules")],observe=["arguments before and after, results of repeated calls"])
p("C25","Invalid input is rejected with the documented error",
 "Input outside a function's documented domain raises the documented exception (ValueError, NotImplementedError, TypeError, RuntimeError or LinAlgError as documented, or an assertion) and never returns numbers; valid input at the boundary of the domain does not raise.",
 ["inputs","configurations"],"every guarded entry point with valid and invalid arguments around the boundary",
 "Tests check few of the guards and rarely the valid side of the boundary.",["gftool/**/*.py"],[("argument checks","all modules")],observe=["raised exceptions"])
p("C26","Elementary models and rational-function representations",
 "The surface, Hubbard-dimer and Hubbard-I functions fulfil their defining equations for every argument in both half-planes, and the rational-function objects (zero-pole and polynomial-ratio forms) evaluate, invert and convert into each other without changing the represented function.",
 ["inputs","histories"],"every model parameter, frequency, zeros/poles/amplitude and conversion sequence",
 "Tests check single points.",["gftool/__init__.py","gftool/basis/__init__.py"],[("surface_gf_zeps, hubbard_dimer_gf_z, hubbard_I_self_z","gftool/__init__.py"),("ZeroPole, RatPol","gftool/basis/__init__.py")],observe=["return values"])
p("C27","Chains of representation changes preserve one Green's function",
 "Starting from any pole Green's function, every chain of the library's conversions between poles, complex frequencies, Matsubara and Pade frequencies, imaginary time, real time, moments, Hamiltonian, impurity model, occupation and chemical potential - each step fed the unchanged result of the previous one - ends at the projection of that same Green's function, for every batch shape.",
 ["inputs","histories"],"every composition of transforms, pole fits, Pade and pole continuations, linear prediction and diagonalisations",
 "Tests check single transforms on fixed data, never a composition of several steps.",["gftool/fourier.py","gftool/basis/pole.py","gftool/pade.py","gftool/polepade.py","gftool/hermpade.py","gftool/matrix.py","gftool/siam.py","gftool/linearprediction.py","gftool/density.py"],
 [("iw2tau, tau2iw, izp2tau, tau2izp, tt2z*","gftool/fourier.py"),("PoleFct, PoleGf, gf_from_*","gftool/basis/pole.py"),("calc_iterator, averaging, coefficients","gftool/pade.py"),("predict","gftool/linearprediction.py"),("chemical_potential, density_iw","gftool/density.py")],observe=["return values"])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
