"""Writes properties.jsonl (one-off authoring helper; the .jsonl file is what counts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
V="src/var_bayes/";N="src/numerics/";D="src/dynamics/"
none="No existing test reaches this code at all"
p("P01","Forward sweep propagates the posterior moments by the configured scheme",
 "Given any linear and offset parameters, initial moments and system noise, the forward sweep returns the mean and covariance at every time point, starting exactly at the given initial moments, where each step is the configured scheme (Euler, Heun, midpoint RK2 or classic RK4, with linearly interpolated mid-point parameters) applied to dm/dt = -A m + b and dS/dt = -A S - S A' + Sigma. This holds for scalar systems and for systems of any dimension, for symmetric or asymmetric A, for any number of time points and any positive time step, and the scheme is selected by name regardless of letter case. A scalar system gives the same moments as the same system posed in one-dimensional matrix form.",
 ["inputs","configurations"],"every method, dimension, number of time points, time step, parameter path, initial moment and noise matrix",
 none+" (the solvers are only imported); parameter paths are an infinite space and errors such as swapped operands vanish on symmetric or scalar examples.",
 [N+"euler.py",N+"heun.py",N+"runge_kutta2.py",N+"runge_kutta4.py",N+"ode_solver.py",V+"fwd_ode.py"],
 [("solve_fwd of the four solvers",N),("fun_mt / fun_st",N+"ode_solver.py"),("FwdOde dispatch",V+"fwd_ode.py")],["FwdOde(dt, method, single_dim)(A, b, m0, S0, Sigma)"])
p("P02","Backward sweep propagates the Lagrange multipliers with observation jumps",
 "Given any linear parameters, energy gradients and observation gradients, the backward sweep returns multipliers that are zero after the final time and are propagated backwards by the configured scheme (Euler, Heun, midpoint RK2, classic RK4) of dlam/dt = -dE/dm + A' lam and dPsi/dt = -dE/dS + Psi A + A' Psi. On arriving at each time point (the final one included, where the multipliers are just its observation gradient, zero if there is none) the observation gradient of that point is added, and nowhere else. This holds for scalar and matrix systems, symmetric or asymmetric A, any number of time points and any set of observation times.",
 ["inputs","configurations"],"every method, dimension, number of time points, parameter path, gradient path and placement of observations",
 none+"; the adjoint must match the forward equation for every A(t), and a wrong transposition is invisible for symmetric A.",
 [N+"euler.py",N+"heun.py",N+"runge_kutta2.py",N+"runge_kutta4.py",N+"ode_solver.py",V+"bwd_ode.py"],
 [("solve_bwd of the four solvers",N),("fun_lam / fun_psi",N+"ode_solver.py")],["BwdOde(dt, method, single_dim)(A, dE/dm, dE/dS, dEobs/dm, dEobs/dS)"])
p("P03","Gaussian moments and their derivatives are exact up to order eight",
 "For every mean and every non-negative variance, the moment of order n (0 to 8) equals the non-central moment E[x^n] of that Gaussian, element by element over arrays of any length, and the derivative queries of order 1 to 8 equal its exact derivatives with respect to the mean and the variance. Orders outside the range are rejected with a ValueError and mismatching shapes of means and variances with a RuntimeError.",
 ["inputs"],"all means, variances, array lengths and orders",
 "The tests check orders 0 and 1 (derivatives 1 and 2) only; the polynomials of order 2 to 8 must hold for every mean and variance.",
 [V+"gaussian_moments.py"],[("GaussianMoments.__call__/dm/ds",V+"gaussian_moments.py")],["GaussianMoments(m, v)(n), .dm(n), .ds(n)"])
p("P04","SDE energy is the exact path expectation of the drift mismatch",
 "For the Ornstein-Uhlenbeck, double-well and Lorenz-63 systems with (diagonal) system noise, the SDE energy equals the time integral (composite trapezoid over the whole window) of 1/2 E[(f(x)-g(x))' Sigma^-1 (f(x)-g(x))] under the Gaussian marginals, where f is the system's drift and g(x) = -A x + b, and so it is never negative. The reported average drift and average drift Jacobian equal E[f(x)] and E[df/dx] at every time point. The placement of the observation times (in any order, repeated or not) never changes these values.",
 ["inputs","configurations"],"all variational parameters, marginal means, positive definite covariances, drift parameters, noise levels and observation placements",
 none+"; the energies are polynomials in up to 27 variables, and a wrong coefficient is invisible at special points.",
 [D+"double_well.py",D+"ornstein_uhlenbeck.py",D+"lorenz_63.py",N+"utilities.py"],
 [("energy()",D),("energy_dm_ds",D+"lorenz_63.py"),("my_trapz",N+"utilities.py")],["model.energy(A, b, m, S, obs_t)"])
p("P05","SDE energy gradients are the derivatives of the SDE energy",
 "For the Ornstein-Uhlenbeck, double-well and Lorenz-63 systems with (diagonal) system noise, the gradients that accompany the SDE energy are, at every time point, the exact partial derivatives of its integrand with respect to the marginal mean and the marginal covariance (the covariance gradient being the symmetric matrix G with dE = tr(G dS)), and the exact derivatives of the total energy with respect to the drift parameters and the system noise.",
 ["inputs","configurations"],"all variational parameters, marginal moments, drift parameters and noise levels",
 none+"; derivative mistakes only show for particular combinations of non-zero parameters.",
 [D+"double_well.py",D+"ornstein_uhlenbeck.py",D+"lorenz_63.py"],
 [("energy() gradients",D),("energy_dm_ds / Efg_drift_theta",D+"lorenz_63.py")],["model.energy(A, b, m, S, obs_t)[2]"])
p("P06","Lorenz-96 energy terms treat every ring position alike",
 "For the Lorenz-96 system of any dimension of at least ten, the average drift and its Jacobian equal E[f(x)] and E[df/dx] exactly for f_i = (x_{i+1} - x_{i-2}) x_{i-1} - x_i + theta with indices on a ring, and the energy and its gradients with respect to mean, covariance, theta and noise equal their unscented-transform estimates (sigma points from the Cholesky factor) with that drift applied to each sigma point on its own. Rotating the ring of all inputs with uncorrelated marginals rotates all outputs.",
 ["inputs","configurations"],"all dimensions >= 10, variational parameters, marginal means and covariances, theta and diagonal noise",
 none+"; wrap-around mistakes concern only the first and last ring positions.",
 [D+"lorenz_96.py",V+"variational.py",N+"utilities.py"],
 [("l96 / E96_drift_dx / E96_drift",D+"lorenz_96.py"),("grad_Esde_dm_ds",V+"variational.py"),("ut_approx",N+"utilities.py")],["Lorenz96.energy(A, b, m, S, obs_t)"])
p("P07","Unscented transform is exact where it must be",
 "For every mean and positive definite covariance, the unscented transform returns the exact mean and covariance of every affine function, and the exact mean of every quadratic function, for vector valued functions and extra function arguments, in any dimension. When the covariance is not positive definite it falls back to the transform of the diagonal part of that covariance.",
 ["inputs"],"all dimensions, means, covariances and affine/quadratic functions",
 none+".",
 [N+"utilities.py"],[("ut_approx",N+"utilities.py")],["ut_approx(fun, mean, cov, *args)"])
p("P08","Observation energy is the expected negative log-likelihood",
 "The observation energy equals the sum over the observations of -E[log N(y; H x(t), R)] under the marginals at exactly the observation times, for scalar and vector observations, any positive definite noise R (correlated or not), any observation operator H (identity by default), any observation times (in any order, repeated or not), and after the noise is changed. Its gradients with respect to the marginal means and covariances are the exact derivatives at the observation times and zero at all other times (in one dimension the same holds for the noise gradient).",
 ["inputs","configurations"],"all observation times, values, noise matrices, operators and marginal moments",
 none+"; index mix-ups between observation number and time index vanish when covariances are constant.",
 [V+"gaussian_like.py",V+"likelihood.py"],[("gauss_1d / gauss_nd / gradients_1d / gradients_nd",V+"gaussian_like.py")],["GaussianLikelihood(...)(m, S), .gradients(m, S)"])
p("P09","Initial-state energy is the Gaussian Kullback-Leibler divergence",
 "The initial energy equals KL(N(m0,S0) || N(mu0,tau0)) for scalars and for vectors of any dimension with arbitrary (also correlated) positive definite covariances; it is never negative and is zero exactly when the two Gaussians coincide. Its gradients equal the exact derivatives with respect to m0 and S0, each plus the multiplier passed in.",
 ["inputs"],"all means, positive definite covariances and multipliers",
 none+"; the formula reduces to something simpler for diagonal, equal or one-dimensional cases.",
 [V+"prior_kl0.py"],[("gauss_1d / gauss_nd / gradients_1d / gradients_nd",V+"prior_kl0.py"),("log_det / chol_inv",N+"utilities.py")],["PriorKL0(mu0, tau0, single_dim)(m0, S0), .gradients(m0, S0, lam0, psi0)"])
p("P10","Free energy is the sum of its parts and depends only on its argument",
 "For every system and solver, the variational free energy at a parameter vector is a plain number equal to the initial KL plus the SDE energy plus the observation energy, all evaluated at the moments that the forward sweep yields from those very parameters. The moments, average drifts and multipliers exposed after an evaluation are those of that evaluation. The value never depends on what was evaluated before, and the parameter vector is left unchanged.",
 ["inputs","histories","configurations"],"all parameter vectors, evaluation histories, systems and solvers",
 none+"; history independence quantifies over every sequence of evaluations.",
 [V+"variational.py",V+"fwd_ode.py",V+"bwd_ode.py"],[("VarGP.free_energy",V+"variational.py")],["VarGP.free_energy(x), .arg_out"],
 [("output","moments/multipliers of the last evaluation",V+"variational.py")])
p("P11","Gradient handed to the optimizer is the gradient of the free energy",
 "For every system and solver, the gradient at a parameter vector is dt times the derivative of the Lagrangian with respect to the linear and offset parameters (energy gradient minus lam m' minus 2 Psi S for A, energy gradient plus lam for b), laid out like the parameter vector. For the Ornstein-Uhlenbeck, double-well, Lorenz-63 and user-defined linear systems its inner product with any smooth parameter direction converges to the directional derivative of the free energy as the time step shrinks. Requesting the gradient with re-evaluation gives the gradient of that vector whatever was evaluated before.",
 ["inputs","histories","configurations"],"all parameter vectors and directions, systems, solvers, observation placements and evaluation histories",
 none+"; consistency of energy and adjoint must hold along every direction.",
 [V+"variational.py",N+"ode_solver.py",D+"lorenz_63.py"],[("VarGP.gradient",V+"variational.py"),("backward sweep",V+"bwd_ode.py")],["VarGP.gradient(x, eval_fun)"])
p("P12","Optimizer never returns a worse or inconsistent point",
 "Whatever values and gradients the objective returns (worse, equal, better, infinite or NaN trial values, any curvature), the minimizer stops after at most the configured number of iterations, returns a point it evaluated together with exactly the objective value of that point, never accepts a trial whose value is larger or NaN, and leaves the start vector unchanged. Objective and gradient receive the caller's extra arguments in every call, and an option that is not given has its default (150 iterations, tolerances 1e-6 and 1e-8, nothing displayed). The points it visits are those of the scaled conjugate gradient iteration (finite-difference curvature with step 1e-3, scale adaptation by the comparison ratio, Polak-Ribiere directions kept non-negative, restart after as many successes as there are variables), and it stops early exactly when the gradient vanishes or both the step and the decrease fall to the tolerances. The recorded statistics describe that run: iterations used, evaluations made and the value held after each iteration. The built-in gradient test passes a right gradient, fails one that is wrong by more than its tolerance per variable, and reports their relative difference.",
 ["inputs","histories","fault_sequences"],"every sequence of objective/gradient answers, start points, dimensions and options",
 "Both optimizer tests fail on this tree (they do not accept the re-evaluation flag), and an optimizer's branches depend on adversarial sequences of answers that sampled smooth functions never produce.",
 [N+"optim_scg.py"],[("SCG.__call__",N+"optim_scg.py")],["SCG(f, df, options)(x0), .statistics"],
 [("beta, success, d, f_old","scale parameter, last outcome, direction, best value",N+"optim_scg.py")])
p("P13","Optimizer and objective stay in step",
 "Every gradient the optimizer consumes belongs to the point it asked for, even though the objective keeps moments and multipliers of the last evaluated point: a gradient is only requested right after the value at the same point, or with re-evaluation. When a smoothing run ends, for whatever reason and after whatever sequence of accepted and rejected steps, the reported free energy, posterior moments, average drifts and multipliers are those of the reported variational parameters. The optimizer's own gradient test, too, judges the gradient at the point it is given, whatever was evaluated before.",
 ["histories","fault_sequences","configurations"],"every sequence of accepted/rejected steps, early or late stop, system and solver",
 none+"; a stale state shows only when the last step before stopping was rejected.",
 [N+"optim_scg.py",V+"variational.py",V+"simulation.py"],[("df(x_plus, eval_fun=True)",N+"optim_scg.py"),("state sync after optimization",V+"simulation.py")],["calls made by SCG on f/df","Simulation.output after run()"])
p("P14","Sample paths follow the stochastic dynamics on the requested window",
 "A generated sample path lives on equally spaced time points from the initial time with the given step, ending within half a step of the final time, and each step adds drift times dt plus Gaussian noise of covariance Sigma dt (correlated or not) driven by that process's own random stream. The same non-null seed (zero included) gives the same path, different seeds give different paths. The Ornstein-Uhlenbeck path starts at its mean and the double-well path near one of +-theta; the Lorenz paths start at a point that does not depend on the noise.",
 ["inputs","configurations","histories"],"all systems, windows, steps, parameters, noise matrices and seeds",
 none+"; a wrong noise factor is invisible for uncorrelated noise and a wrong window only appears for some steps.",
 [D+"stochastic_process.py",D+"double_well.py",D+"ornstein_uhlenbeck.py",D+"lorenz_63.py",D+"lorenz_96.py"],[("make_trajectory",D),("seeded generator",D+"stochastic_process.py")],["model.make_trajectory(t0, tf, dt); .sample_path, .time_window, .time_step"])
p("P15","Observations are a noisy subset of the path at sorted interior times",
 "Collecting observations returns floor(duration x density) strictly increasing time indices inside the window, as evenly spread as the grid allows, and the values of the (optionally masked) path at those indices plus Gaussian noise of the requested variance, together with the noise (co)variance actually used (a scalar for one observed component, else a diagonal matrix). The sample path itself is never modified. A density above the sampling rate, or collecting before a path exists, is rejected.",
 ["inputs","configurations","histories"],"all paths, densities, noise forms (scalar, vector, matrix), masks and repeated collections",
 none+".",
 [D+"stochastic_process.py"],[("collect_obs",D+"stochastic_process.py")],["model.collect_obs(density, R, mask)"])
p("P16","Invalid settings are rejected and valid ones take effect consistently",
 "Constructing or updating a system with a non-positive noise, a noise matrix that is not positive definite or has the wrong shape, a non-positive mean-reversion rate, or too few ring dimensions raises an error, and a rejected update leaves the system exactly as it was. After any sequence of accepted and rejected updates the noise, its inverse and the drift parameters agree with the last accepted values, and so do the energies computed from them. Non-positive time steps, unknown solver names and unknown system names are rejected with a ValueError, and reading a path or window before one exists with NotImplementedError. An optional argument that is left out (time step 0.01, ring dimension 40, one-dimensional components, no observation mask) means the same as its default given.",
 ["histories","inputs","configurations"],"all sequences of updates and queries on every system",
 none+"; the invariant quantifies over histories of updates.",
 [D+"stochastic_process.py",D+"double_well.py",D+"ornstein_uhlenbeck.py",D+"lorenz_63.py",D+"lorenz_96.py",V+"fwd_ode.py",V+"bwd_ode.py",V+"simulation.py"],
 [("sigma / theta setters and constructors",D),("dt / method validation",V+"fwd_ode.py")],["constructors, .sigma, .theta, .inverse_sigma, .energy"],
 [("sigma, inverse sigma, theta","must always be in step",D)])
p("P17","Saved results load back unchanged",
 "Saving a simulation writes one file named after it (surrounding blanks removed, inner blanks replaced by underscores) from which loading returns exactly the same set of result names, each with the same values and shape (scalars as one-element arrays). Saving again under the same name replaces the file completely, saving under other names does not touch it, and loading never changes it. Saving without results writes nothing, and loading without a file name is rejected.",
 ["histories","inputs"],"all result sets, names and sequences of saves and loads",
 none+".",
 [V+"simulation.py"],[("Simulation.save / load",V+"simulation.py")],["Simulation.save(), load(filename)"])
p("P18","A smoothing run gives a valid, reproducible posterior for every system",
 "For every supported system (shipped parameter forms included: scalar or per-component noise) and every solver, set-up followed by a run ends with finite results whose free energy is no larger than that of the initial guess, with moments starting at the initial moments and final multipliers that are zero unless the final time is observed, and with a free energy and moments that are those of the configured drift, noises, window, observations and prior; the same seed and parameters give identical results, and observations passed in explicitly are used exactly as if the set-up had sampled them (the same results from the same initial moments). For the linear Ornstein-Uhlenbeck system, and for user-defined linear systems of any dimension, the optimum is the exact answer: up to discretization error, the free energy equals the negative log evidence of the observations (given the initial marginal) and the posterior mean and variance equal those of the Kalman smoother.",
 ["configurations","inputs"],"all systems, solvers, windows, noise forms, seeds and observation sets",
 none+"; the guarantee spans every combination of system, solver and data.",
 [V+"simulation.py",V+"variational.py",N+"optim_scg.py"],[("Simulation.setup / run",V+"simulation.py")],["Simulation.output after run()"])
p("P19","Command line run either saves complete results or fails visibly",
 "A run from a parameter file exits successfully only after writing the results file named in the parameters (a default name if null) with all variational parameters, moments, multipliers and the minimum. If the file is missing or malformed, any required entry is missing, or a value is invalid (unknown system or solver, non-positive step, noise or prior variance, too high density), the process ends with a non-zero status and writes no results file. Observations given in a separate two-column file (time index, value) are the ones that are smoothed.",
 ["inputs","fault_sequences","configurations"],"all parameter files with any missing or invalid entries",
 none+"; every subset of missing keys and each invalid value is a separate case.",
 ["vgpa_main.py",V+"simulation.py"],[("main / validate_input_parameters_file","vgpa_main.py")],["exit status and files written by vgpa_main.py"])
p("P20","Components neither modify their inputs nor remember earlier calls",
 "Every computing component (sweeps, energies, likelihood, initial KL, moments, integrals, transforms, matrix helpers, free energy and gradient) returns the same result for the same arguments no matter which other calls came before, on the same or other instances; arguments count by their contents, also when the caller refills the same arrays. No call changes arrays passed in by the caller, or arrays returned by earlier calls. Instances do not share state, also when calls on different instances overlap in time (threads) or one is made from inside a function passed to another, and after a call that was broken off by an error. Setting up a simulation leaves the parameters it was given unchanged.",
 ["histories","inputs"],"all call sequences over all components and instances",
 "The tests call each helper once on fresh data; independence quantifies over call histories.",
 [V+"fwd_ode.py",V+"bwd_ode.py",V+"gaussian_like.py",V+"prior_kl0.py",V+"variational.py",N+"utilities.py",D+"stochastic_process.py",D+"double_well.py",D+"ornstein_uhlenbeck.py",D+"lorenz_63.py",D+"lorenz_96.py"],
 [("freshly allocated outputs","all modules")],["arguments and return values of all public calls"])
p("P21","Numerical kernels are correct over their whole domain",
 "Splitting the trapezoidal integral at any observation indices (in any order, repeated or not) gives the unsplit composite trapezoid, for scalar, vector and matrix valued functions. For every symmetric positive definite matrix (or positive scalar) the log-determinant, the inverse and the inverse Cholesky factor are correct, with integer or float input, and non-square or indefinite input is rejected. The safe logarithm equals the logarithm inside [1e-300, 1e300] and the logarithm of the nearer bound outside, and the numerical differentiator returns the gradient to central-difference accuracy in any dimension, passing extra arguments through and leaving its argument unchanged.",
 ["inputs"],"all function samples, index sets, positive definite matrices and arguments",
 "The tests sample a few random arrays with one index set, diagonal matrices and single points.",
 [N+"utilities.py"],[("my_trapz, log_det, chol_inv, safe_log, finite_diff",N+"utilities.py")],["my_trapz, log_det, chol_inv, safe_log, finite_diff"])
p("P22","Initial variational parameters interpolate the observations",
 "The starting parameter vector has the layout the objective expects, with the linear part equal to twice the system noise (diagonal, for every time point). The offset part comes from the cubic spline through the observations, with the first and last observation repeated at the ends of the window unless these are observed themselves: in one dimension it is that spline; in higher dimensions the Euler forward sweep started on it follows it exactly, so that its mean passes through every observation. It depends only on window, noise and observations.",
 ["inputs","configurations"],"all systems, windows, noise levels and observation sets",
 none+".",
 [V+"variational.py"],[("VarGP.initialization",V+"variational.py")],["VarGP.initialization()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
