#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, N, V = "src/dynamics/", "src/numerics/", "src/var_bayes/"
ODE = [N + f for f in ("euler.py", "heun.py", "runge_kutta2.py", "runge_kutta4.py", "ode_solver.py")]
SYS = [D + f for f in ("ornstein_uhlenbeck.py", "double_well.py", "lorenz_63.py", "lorenz_96.py")]
T_NONE = "No test touches this; the ten tests cover Gaussian moments at one point, two SCG runs and a few utility calls."

P = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            **({"observe_at": observe} if observe else {})}), note))


prop("C01", "Gaussian moments and their derivatives are exact for every order",
     "For any means and variances of equal length and any order from 0 to 8, the Gaussian moments object returns the uncentered moment "
     "of a normal variable, and its two derivative functions return the exact derivatives with respect to the mean and to the variance. "
     "Orders outside of 0..8 or not whole, and means and variances of different shapes, are rejected with the documented exception.",
     ["inputs"], "all arrays of means and non-negative variances, all orders, and all out-of-range or fractional orders and mismatched shapes",
     "The existing tests sample one mean and one variance per order; signs, zeros, arrays and the error paths are not reached.",
     [V + "gaussian_moments.py"], [("moment table", V + "gaussian_moments.py:GaussianMoments.__call__"),
      ("derivative tables", V + "gaussian_moments.py:GaussianMoments.dM, dS")],
     "Compared with the recurrence of the moments at relative tolerance 1e-11.")
prop("C02", "The forward sweep solves the moment equations with the named method",
     "For any A(t), b(t), initial moments and noise, the forward solver of each integration method returns, at every grid point, the "
     "mean and the covariance of the linear SDE as that Runge-Kutta method integrates dm/dt = -A m + b and dS/dt = -A S - S A' + Sigma, in one "
     "dimension and in many; it converges to the exact moments with the method's order. Inputs are not modified, and unknown methods or non-positive steps are rejected.",
     ["inputs", "configurations"], "all linear/offset parameter paths, initial moments, noises, step sizes, dimensions and the four methods",
     T_NONE, ODE + [V + "fwd_ode.py"], [("steps of each method", N + "*.py:solve_fwd"), ("dispatch", V + "fwd_ode.py:FwdOde")],
     "Compared node by node with the method's tableau on the vectorised equations, and with matrix exponentials. Trusts that values at half steps are means of neighbours.")
prop("C03", "The backward sweep solves the adjoint equations, with a jump at each observation",
     "For any A(t), energy gradients and observation gradients, the backward solver of each method returns the Lagrange multipliers as that method integrates "
     "dlam/dt = A' lam - dE/dm and dPsi/dt = Psi A + A' Psi - dE/dS from the final time to the initial one, adding the observation's gradient on arrival at each observed node. "
     "An observation at the final time is the value from which the sweep starts, and the last and the first nodes are treated like the others. Inputs are not modified, and unknown methods or non-positive steps are rejected.",
     ["inputs", "configurations"], "all paths, gradients, sets of observed nodes, step sizes, dimensions and the four methods",
     T_NONE, ODE + [V + "bwd_ode.py"], [("steps of each method", N + "*.py:solve_bwd"), ("dispatch", V + "bwd_ode.py:BwdOde")],
     "Compared node by node with the method's tableau, and with exact solutions between jumps.")
prop("C04", "Scalar and matrix code agree, and respect changes of coordinates",
     "The scalar code and the matrix code give the same moments, multipliers, likelihood and initial energy for a one-dimensional problem; "
     "independent problems stacked in one block-diagonal problem give the results of its blocks, and their energies add up. Under an invertible linear change of "
     "coordinates the moments and multipliers transform accordingly and the initial and observation energies keep their values.",
     ["inputs", "configurations"], "all problems, block structures and well-conditioned coordinate changes, for each method",
     T_NONE, ODE + [V + "fwd_ode.py", V + "bwd_ode.py", V + "gaussian_like.py", V + "prior_kl0.py"],
     [("single_dim switches", N + "ode_solver.py, " + V + "gaussian_like.py, " + V + "prior_kl0.py")],
     "Metamorphic relations only: no reference solution is involved.")
prop("C05", "The energy of the initial state is the Gaussian KL divergence",
     "For any two Gaussians the initial energy is the Kullback-Leibler divergence from the marginal at t=0 to the prior: never negative, and zero exactly when they are equal. "
     "Its gradients are the derivatives with respect to the initial mean and covariance, plus the Lagrange multipliers at t=0.",
     ["inputs", "histories"], "all means and positive definite covariances of any scale and dimension",
     T_NONE, [V + "prior_kl0.py"], [("closed forms", V + "prior_kl0.py:PriorKL0")],
     "Against closed forms by slogdet and solve, tolerance scaled by the condition numbers.")
prop("C06", "The observation energy is the expected negative log-likelihood",
     "For any distinct observation times (in any order), values, Gaussian noise (full covariance in many dimensions) and linear operator, the likelihood returns the expected negative log-likelihood under the "
     "marginal moments at the observation times. Its gradients with respect to the means and covariances (zero at all other times) and to the noise are the derivatives of that value, also after the noise was changed.",
     ["inputs", "histories"], "all observation sets (end points included), noises, operators, moment paths, and sequences of noise changes",
     T_NONE, [V + "gaussian_like.py", V + "likelihood.py"], [("values and gradients", V + "gaussian_like.py:GaussianLikelihood")],
     "Against closed forms and exact differences of the energy itself.")
prop("C07", "Average drift and average drift Jacobian are Gaussian expectations",
     "For each of the four systems, the average drift and the average Jacobian that come with the energy are the expectations of the drift and of its Jacobian under "
     "the Gaussian marginal at every time (for Lorenz96: under the documented unscented points). They depend on the drift's parameters and on the moments only.",
     ["inputs"], "all moment paths and drift parameters, for each system and dimension",
     T_NONE, SYS, [("closed forms", D + "*.py:energy")], "Against quadrature that is exact for the drift's degree.")
prop("C08", "The SDE energy is the expected weighted squared mismatch of the drifts",
     "For each system the energy is the time integral of half the expected squared difference between the system's drift and the linear drift, weighted by the inverse noise "
     "(for Lorenz96: on the documented unscented points). It is never negative, does not depend on where the observations are, and vanishes when the two drifts are the same.",
     ["inputs", "configurations"], "all paths of parameters and moments, drift parameters and noises, for each system",
     T_NONE, SYS + [N + "utilities.py"], [("energy", D + "*.py:energy"), ("integral in time", N + "utilities.py:my_trapz")],
     "Against exact quadrature in space and the trapezoidal rule in time. A full (correlated) noise matrix is a known finding.")
prop("C09", "SDE energy gradients w.r.t. means and covariances are its derivatives",
     "For each system, the gradients of the energy with respect to the marginal mean and covariance at each time are the derivatives of the integrand at that time (for Lorenz96: "
     "by Stein's identity on the unscented points, as documented), and the covariance gradient is symmetric.",
     ["inputs"], "all paths of parameters and moments, for each system",
     T_NONE, SYS, [("dEsde_dm, dEsde_ds", D + "*.py:energy")], "Against exact quadrature and against differences of the energy itself.")
prop("C10", "SDE energy gradients w.r.t. drift and noise parameters are its derivatives",
     "For each system, the gradients of the energy with respect to the drift's parameters and to the system noise are its derivatives at the current parameters, also after the "
     "parameters were changed through the setters.",
     ["inputs", "histories"], "all paths, drift parameters and diagonal noises, and changes of the parameters, for each system",
     T_NONE, SYS, [("dEsde_dtheta, dEsde_dsig", D + "*.py:energy")], "Against exact quadrature, and exact differences (the energy is quadratic in theta, linear in the inverse noise).")
prop("C11", "The gradient of the free energy is its derivative",
     "For the Ornstein-Uhlenbeck, double-well and Lorenz63 systems, every method and every set of observations, the gradient with respect to A(t) and b(t) is the derivative of the free "
     "energy, up to an error that vanishes with the time step. Each entry is the combination of moments, multipliers and average drifts that the theory prescribes.",
     ["inputs", "configurations"], "all variational parameter paths, directions, observation sets and methods",
     T_NONE, [V + "variational.py"] + ODE + SYS, [("gradient", V + "variational.py:VarGP.gradient"), ("chain", V + "variational.py:VarGP.free_energy")],
     "Differences of the free energy on three grids extrapolated to a step of zero (0.5 %), plus an entry-by-entry comparison at 1e-8. Lorenz96's derivative is a known finding.")
prop("C12", "The free energy is the sum of its three terms, with consistent by-products",
     "For any variational parameters, the free energy is the initial KL divergence plus the SDE energy plus the observation energy, evaluated on the moments of the linear SDE that those parameters define. "
     "The by-products (moments, multipliers, average drifts) belong to the latest evaluation, and results do not depend on earlier evaluations.",
     ["inputs", "histories"], "all problems (system, method, noise, prior, operator, observations) and all sequences of evaluations",
     T_NONE, [V + "variational.py"], [("free energy", V + "variational.py:VarGP.free_energy"), ("by-products", V + "variational.py:VarGP.arg_out")],
     "Against an independent forward sweep, exact quadrature, closed forms and an independent backward sweep.")
prop("C13", "The free energy is an upper bound of the negative log evidence",
     "For any variational parameters the free energy is not below the negative log probability of the observations under the system, up to the discretisation in time. For the "
     "Ornstein-Uhlenbeck process the gap is exactly the KL divergence to the smoothing posterior, and the bound is tight at that posterior.",
     ["inputs", "configurations"], "all Ornstein-Uhlenbeck problems and variational parameters; double-well problems at the optimum",
     "It relates the whole computation to an external quantity; no test computes a free energy.", [V + "variational.py"] + SYS[:2] + ODE,
     [("bound", V + "variational.py:VarGP.free_energy")], "Exact Kalman filter, and a transition matrix on a grid, as the external truth; 0.5 % after extrapolation in the step.")
prop("C14", "The optimiser returns the best point it evaluated, and never gets worse",
     "For any differentiable objective, start, options and additional arguments, the optimiser returns the value of the objective at the point it returns, which is the lowest it evaluated and not above the start. "
     "The recorded history never increases, the statistics count the calls of the latest run, the iteration limit holds, an accepted step that is within both tolerances ends the search, options that are not given are 150 iterations and tolerances of 1e-6 in x and 1e-8 in f, the start is not modified, and well-conditioned convex quadratics are solved in a number of iterations proportional to their dimension.",
     ["inputs", "configurations", "histories"], "all objectives of seven families, starts, dimensions, options and arguments",
     "Two runs on fixed functions; monotonicity, the iteration limit, arguments and the bookkeeping are not looked at.", [N + "optim_scg.py"],
     [("accept / reject", N + "optim_scg.py:SCG.__call__"), ("statistics", N + "optim_scg.py:SCG.statistics")],
     "Every call of the objective is recorded and judged. Convergence: condition numbers up to 50; its speed: up to 20, dimension up to 12, 3 n + 12 iterations.")
prop("C15", "Trajectories follow the model's law on a uniform grid, and seeds reproduce them",
     "For each system, window and parameters, the trajectory is a path of the stochastic equation on a uniform grid from the start to the end of the window: increments less the drift "
     "times dt are independent Gaussians with covariance dt times the noise matrix. It starts where the system is documented to start (OU at its mean, double-well in either well alike, Lorenz systems on their settled noise-free orbit). Equal seeds (zero included) give equal paths, and different seeds different ones.",
     ["inputs", "configurations", "histories"], "all windows, steps, parameters, noise matrices and seeds, for each system",
     "No test makes a trajectory; a law needs many draws to be judged.", SYS + [D + "stochastic_process.py"],
     [("make_trajectory", D + "*.py"), ("generator", D + "stochastic_process.py")], "Statistics with thresholds of 7 standard errors, deterministic for a given seed of the check.")
prop("C16", "Observations are equidistant, inside the window, with the stated noise",
     "For any path, density, noise and mask, the collected observations are at distinct, increasing grid times inside the window, evenly spaced, as many as the density asks for. Their values are the "
     "observed components of the path plus Gaussian noise of the stated covariance; the path is not modified, and a density above that of the grid is rejected.",
     ["inputs", "configurations"], "all paths, windows, densities, noises and masks", T_NONE, [D + "stochastic_process.py"],
     [("collect_obs", D + "stochastic_process.py:StochasticProcess.collect_obs")], "Exact for times, statistical (7 standard errors) for the noise.")
prop("C17", "Drift and noise parameters stay valid and consistent through every update",
     "After any sequence of updates the drift parameters and the noise of a model are the last valid ones that were set, and the inverse noise is the inverse of the current noise. "
     "Noises that are not positive definite (whatever the number of bad directions, in all dimensions), shapes that do not fit and drift parameters outside of their domain raise the documented exception and change nothing.",
     ["inputs", "histories"], "all sequences of valid and invalid updates, all constructor arguments, for each system", T_NONE, SYS,
     [("setters", D + "*.py:sigma, theta"), ("constructors", D + "*.py:__init__")], "A model of the parameters runs beside the object.")
prop("C18", "The initial guess is a finite process that follows the observations",
     "For any observations (one or more, end points included) the initial variational parameters are finite and complete, and describe a stable linear process with the documented stationary variance. "
     "Its offsets follow the observations: in one dimension they take the observed values, in many the mean passes through every observation.",
     ["inputs", "configurations"], "all observation sets, values and windows, for each system", T_NONE, [V + "variational.py"],
     [("initialization", V + "variational.py:VarGP.initialization")], "Exact relations at 1e-9.")
prop("C19", "A simulation stores a consistent optimum, and repeats itself",
     "After setup and run, a simulation's output holds every documented field, finite, and belonging to one point: the stored moments, multipliers, drifts and free energy are those of the stored variational parameters. "
     "The stored free energy is not above that of the initial guess, equal parameters and seed give identical output, and invalid parameters raise and leave no output; also when one object is used again: nothing is computed from a set-up that was rejected, or from what an earlier one left.",
     ["configurations", "histories"], "all parameter sets (system, window, noise as number, list or matrix, density, method, prior, seed), invalid ones, and sequences of set-ups on one object",
     "No test runs a simulation.", [V + "simulation.py", V + "variational.py", N + "optim_scg.py"],
     [("setup", V + "simulation.py:Simulation.setup"), ("run", V + "simulation.py:Simulation.run")],
     "Output recomputed independently. Partial observation and external data are known findings; a 40-dimensional run is too slow for quick checks.")
prop("C20", "What is saved is what is loaded",
     "Saving the output of a simulation and loading that file gives the same fields, bit for bit and of the same types, in one file named after the simulation. Saving again replaces the file as a whole, and an empty output writes nothing.",
     ["inputs", "histories"], "all names, dictionaries of arrays and numbers, and sequences of saves", T_NONE, [V + "simulation.py"],
     [("save, load", V + "simulation.py:Simulation.save, load")], "Round trip, bit for bit, over histories in a scratch directory.")
prop("C21", "The command line program writes the right results, or fails and writes nothing",
     "For a valid parameter file the program leaves exactly one result file, whose fields are those of the simulation for these parameters. For a missing or malformed file or parameter it reports an error "
     "and writes no result, and an earlier result stays as it was; success replaces it.",
     ["inputs", "configurations", "fault_sequences"], "all valid parameter files of DW, OU and L63, and files with one thing missing, malformed or out of range", T_NONE,
     ["vgpa_main.py", V + "simulation.py"], [("validation", "vgpa_main.py:validate_input_parameters_file"), ("main", "vgpa_main.py:main")],
     "Differential against the Simulation class, in process and in processes of its own. A data file is a known finding.")
prop("C22", "Log-determinants, inverses, clipped logs and integrals are what their names say",
     "For any positive definite matrix the utilities return its log-determinant (whatever its size), its inverse and an inverse Cholesky factor; the safe logarithm is the logarithm of the value clipped to 1e-300..1e300. "
     "The trapezoidal integral is the same however it is divided by observation times.",
     ["inputs"], "all positive definite matrices, vectors and numbers, all arrays and all observation sets",
     "A few fixed inputs are tested: no extreme determinants, divided integrals, integers or other layouts.", [N + "utilities.py"],
     [("log_det, chol_inv, safe_log, my_trapz", N + "utilities.py")], "Against eigenvalues, linear algebra and sums.")
prop("C23", "Numerical gradients are accurate and the gradient checker's verdict is right",
     "For any smooth function, point and additional arguments, the numerical gradient agrees with the analytical one to the accuracy of central differences, without modifying its input. The optimiser's gradient "
     "check says PASSED for a right gradient and FAILED for one whose mistake exceeds the tolerance.",
     ["inputs"], "all functions of five families, points, arguments, and mistakes of a gradient above or below the tolerance",
     "One function is tested at one point; the gradient checker's verdict is not tested.", [N + "utilities.py", N + "optim_scg.py"],
     [("finite_diff", N + "utilities.py:finite_diff"), ("check_gradient_function", N + "optim_scg.py:SCG.check_gradient_function")],
     "Analytical gradients as truth; tolerance that one-sided differences do not reach.")
prop("C24", "The unscented transform is exact for affine maps and for means of quadratic ones",
     "For any mean, covariance (numbers of any type) and affine map, the transform returns the exact mean and covariance of the image; for a quadratic map the mean is exact, and the covariance is symmetric without negative variances. A covariance that is "
     "not positive definite counts by its diagonal; the inputs are not modified.",
     ["inputs"], "all means, covariances (also not positive definite ones), maps and arguments",
     "One call is tested; correlated covariances, the fallback and the covariance of the image are not.", [N + "utilities.py"],
     [("ut_approx", N + "utilities.py:ut_approx")], "Algebraic identities at 1e-12 times the dimension, relative to absolute terms.")
prop("C25", "Results depend on arguments and current parameters only, not on the history",
     "Whatever was evaluated or changed before (also new values in the same arrays), each evaluation of free energy, gradient, sweeps, likelihood, initial energy or SDE energy gives what newly built objects with the current parameters give. "
     "No argument, no array handed over earlier, and no result returned earlier is modified by a later call.",
     ["histories", "inputs"], "all histories of evaluations and parameter changes on one set of objects, failing evaluations included", T_NONE,
     [V + "variational.py", V + "likelihood.py", V + "gaussian_like.py", V + "prior_kl0.py"] + SYS,
     [("state of the objects", V + "variational.py, " + D + "*.py"), ("parameter setters", D + "*.py:sigma, theta; " + V + "likelihood.py:noise")],
     "Differential against new objects over generated histories.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --thorough",
               "technique": "property-based testing (Hypothesis): generated inputs and histories against an independent oracle, with shrinking",
               "level": "exploration", "level_note": n} for p, n in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check --self-test", "checks": checks, "not_applicable": [],
                   "notes": "Pure Python: the checks import /repo's working tree directly, nothing is built. No hooks are needed."}, f, indent=1)
        f.write("\n")


main()
