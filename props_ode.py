prop("C07", "Each explicit method has its advertised order of accuracy",
     "One step of every explicit one-step integrator, with any step size, reproduces the exact Taylor expansion of the solution up to the order the integrator reports, in each of its accuracy modes, for autonomous and time-dependent systems alike. The state, time and slopes enter only in the way that makes this hold for every origin of time and state.",
     ["inputs", "configurations"], "all elementary differentials (rooted trees) up to the order, all coefficients, step sizes, initial times and states",
     T_ODE + "A wrong Butcher coefficient keeps every test green.", ["ode/ExplicitRKHelper.h", "ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverDOPRI45.h", "ode/OdeSolverDOPRI56.h", "ode/OdeSolverDOPRI78.h", "ode/OdeSolverRK4.h", "ode/OdeSolverExplicitEuler.h"],
     [("ExplicitRKHelper::compute and coefficient tables", "ode/ExplicitRKHelper.h")],
     files=["c07_order"], bounds="every rooted tree up to the reported order (up to 8: 200 trees), step size in [0,1], tree coefficients, initial state and time in [-1,1] symbolic; deviation from the exact Taylor coefficient at most 1e-12 (order 8: 1e-11); explicit Euler, RK4, DOPRI 4(5), 5(6), 7(8) in both modes, Gragg midpoint",
     outside="deviations below the tolerance; rounding; the size of the error term beyond the order", assumptions=["order conditions over rooted trees characterise the order of a one-step method (Butcher); coefficients are read as the exact rationals of their double values"])
prop("C08", "Step bookkeeping of explicit integrators is exact and history-independent",
     "After an accepted step the time advanced by exactly the step size reported to observers and the state is the method's result from the previous state; a rejected attempt leaves time and state untouched and is reported as such. What one step computes depends only on the current time, state and step size, never on earlier steps or rejected attempts.",
     ["histories", "inputs"], "all right-hand sides (uninterpreted), states, times, sequences of accept/reject answers and proposed step sizes within the bound",
     T_ODE, ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/ExplicitRKHelper.h"],
     [("doStep", "ode/OdeSolverExplicitEmbeddedRK.h"), ("doStep", "ode/OdeSolverExplicitRK.h")],
     files=["c08_steps"], bounds="3 (thorough 4) consecutive fixed steps; 2 consecutive adaptive steps of up to 3 (thorough 4) attempts each with every accept/reject/change answer and any step size; one second-order and one first-order variable; right-hand side an uninterpreted function of time and state; extrapolation with 2 stages of Euler and Gragg",
     outside="longer histories; more variables", assumptions=["the right-hand side is a function (same result for the same arguments)"])
prop("C09", "The step-size controller honours tolerance and step-change limits",
     "A step is accepted exactly when its error norm does not exceed the tolerance (up to the documented epsilon); a rejected step is always retried with a strictly smaller positive step not below the maximal decrease factor, and growth never exceeds the maximal increase factor or the step-size ceiling. Unless limited, the new step is safety factor times (tolerance/error)^(1/(order+1)) times the current one. A NaN error is never accepted.",
     ["inputs", "configurations"], "all step sizes, error norms, tolerances, factors and orders", T_ODE, ["ode/OdeStepSizeSimpleController.h"], [("controlStepSize", "ode/OdeStepSizeSimpleController.h")],
     files=["c09_controller"], bounds="orders 1-5 and 7; every combination of limits present or switched off, with any admissible values; any positive step, error and tolerance; NaN and infinite errors in IEEE doubles for the default-like settings and orders 1 and 4",
     outside="inadmissible settings (decrease factor above 0.9, maximal below minimal increase factor); rounding of the predicted ratio; other orders", assumptions=["square and cube roots are exact, higher roots are any function with the sign and comparison-to-one properties of a power (REAL and FP)"])
prop("C10", "An accepted step passed the error test; control never loops on bad errors",
     "Under adaptive integration, every step that changes the solution had an error estimate, equal to the norm of the difference of the two embedded results, accepted by the controller; otherwise the step is retried with the controller's new size or integration stops with an exception when the size falls to the minimum. A step with a NaN estimate never changes the solution and cannot make a step call spin forever at a NaN step size.",
     ["inputs", "fault_sequences"], "all right-hand sides, states, controller settings; NaN results of the right-hand side", T_ODE, ["ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/ErrorInfNormCalculator.h"], [("doStep", "ode/OdeSolverExplicitEmbeddedRK.h")],
     files=["c10_accept"], bounds="the first attempt of a step with any right-hand side (uninterpreted), state, time and tolerance, step size 1/8, real error norm and controller with default factors, for every embedded Runge-Kutta pair in both modes and extrapolation over Euler (2 stages) and Gragg (3 stages); a NaN right-hand side at any one call of the first attempt in any component, once or for ever, or an infinite one once, one second-order and one first-order variable",
     outside="later attempts and other step sizes (decided by C08 with an arbitrary controller); right-hand sides infinite for ever; the Rosenbrock integrator (its error formula is decided by C16)", assumptions=["roots as in C09"])
prop("C11", "Event detection finds exactly the declared zero crossings",
     "A step is truncated exactly when some event function changes sign in a direction it declares (leaving zero in a declared direction counts); the earliest linearly interpolated crossing is chosen, lies within the step, and the state returned is the interpolated one passed through the model's state switch exactly once with the right index and direction. Directions not declared never trigger, a function already beyond zero does not trigger, and resetting the controller forgets all of this.",
     ["inputs", "histories"], "all event function values at both ends, all direction flags, all sequences of steps within the bound", T_ODE, ["ode/LinearOdeEventController.h"], [("atStepStart/atStepEnd", "ode/LinearOdeEventController.h")],
     files=["c11_events"], bounds="one event function over 3 (thorough 4) steps, two over 1 step (2 steps for one, thorough two, of the nine pairs of directions), every combination of directions and of recompute/interpolate flags, any values, times and step sizes, resets between steps",
     outside="more functions or steps; a recomputed one-directional function that the model's switch leaves beyond zero; rounding", assumptions=["event functions are affine in time and state in the harness (their values at the step ends are arbitrary)"])
prop("C12", "Every integrator applies event truncation consistently",
     "When a step is truncated by an event or by the model, every integrator continues from the truncated time and state, reports the truncation, index and direction to observers, and drops internal data that belonged to the untruncated step. Setting a new initial state forgets pending event data.",
     ["configurations", "histories"], "all integrators, all truncation times and states", T_ODE, ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverGragg.h", "ode/OdeSolverRosenbrock_W1.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverImplicitEuler.h"], [("doStep of each solver", "ode/OdeSolverGragg.h")],
     files=["c12_truncation"], bounds="2-3 consecutive steps of every integrator with an event controller that truncates any of them, by an event or on behalf of the model, at any time and state (or not), up to one rejected attempt per step, restarts with a new initial state between steps, minimal step after a switch on or off; one step of each explicit and implicit integrator with its own event controller and one event function; right-hand side uninterpreted (Rosenbrock: a fixed affine system, any state and time in [-1,1], results equal within 1e-6)",
     outside="longer histories; several event functions (C11)", assumptions=["the right-hand side is a function; implicit Euler's algebraic solver returns an arbitrary vector (C15 decides what it solves)"])
prop("C13", "Extrapolation step sequences produce their defining integers",
     "The Romberg, Bulirsch and harmonic sequences produce their mathematical terms, strictly increasing, from the start and again after a reset at any point.",
     ["histories"], "all reset points and term indices within the bound", T_ODE, ["ode/ExtrapolatorStepSequenceRomberg.h", "ode/ExtrapolatorStepSequenceBulirsch.h", "ode/ExtrapolatorStepSequenceHarmonic.h"], [("next/reset", "ode/ExtrapolatorStepSequenceBulirsch.h")],
     files=["c13_sequences"], bounds="the terms as the extrapolating integrator uses them: 9 (thorough 13) terms of the Romberg, 10 (20) of the Bulirsch and 12 (40) of the harmonic sequence; any number of terms taken before the step or between two steps, with or without a reset; step size, time and state symbolic",
     outside="longer sequences, whose terms eventually overflow an int", assumptions=[])
prop("C14", "The extrapolation integrator reaches its advertised order",
     "The extrapolated result is the polynomial (in h or h squared) extrapolation to zero of the reference integrator's results over the step sequence, so one step matches the exact Taylor expansion up to the order reported; its error estimate is the difference to the next lower extrapolation. Configuration mistakes are reported by exceptions.",
     ["inputs", "configurations"], "all reference results, step sequences, numbers of stages, symmetric or not", T_ODE, ["ode/OdeSolverExtrapolator.h", "ode/OdeSolverGragg.h"], [("doStep", "ode/OdeSolverExtrapolator.h")],
     files=["c14_extrapolation"], bounds="up to 5 (Bulirsch 6) stages of each sequence, symmetric or not, arbitrary stage results in [-1,1], deviation from the Lagrange extrapolation at most 1e-9, first and second step; every rooted tree up to the reported order for Euler (2-4 stages, thorough 5), Gragg (1-2 stages, thorough 3) and RK4 references, deviation at most 1e-11; missing reference solver or sequence, 0-2 stages, raising the number of stages later",
     outside="more stages; a symmetric extrapolation of an integrator that is not symmetric", assumptions=["order conditions over rooted trees characterise the order of a one-step method"])
prop("C15", "Implicit Euler steps satisfy the implicit equations they stand for",
     "A completed implicit Euler step solves the alpha-weighted implicit equations for every implicitness parameter, whatever predictor, variable ordering or start the nonlinear solver used; second-order and first-order variables are both covered. If the nonlinear solver does not converge the step throws and the state stays.",
     ["inputs", "configurations"], "all linear/uninterpreted right-hand sides, states, step sizes, implicitness values; all Newton outcomes", T_ODE, ["ode/OdeSolverImplicitEuler.h", "ode/OdeStepMappingEuler.h", "alg/VectorReorderingMapping.h"], [("OdeStepMappingEuler::map/computeOdeState", "ode/OdeStepMappingEuler.h")],
     files=["c15_implicit"], bounds="1-2 (thorough 3) steps with up to 2 second-order and 2 first-order variables, any right-hand side (uninterpreted), state, time and step size (also changed between steps); implicitness 0, 0.5, 0.625, 1 through the parameters and any value at the mapping; every variable order of 2-3 unknowns; no, Euler or RK4 predictor; every outcome of the algebraic solver, which is replaced by one returning an arbitrary zero of the mapping it was given",
     outside="the algebraic solver itself (C17-C20); more variables", assumptions=["the right-hand side is a function; an algebraic solver that reports convergence returned a zero of its mapping (the tolerance of convergence is C17's)"])
prop("C16", "Rosenbrock W-methods compute their defining formulas at the current step size",
     "One step of each linearly implicit integrator equals its defining formula with the Jacobian of the system at the last refresh and the step size actually used, for first- and second-order variables, after rejections and step-size changes alike; the two-stage method has its advertised order when the Jacobian is exact.",
     ["inputs", "histories"], "all linear systems, states, step sizes and accept/reject histories within the bound", T_ODE, ["ode/OdeSolverRosenbrock_W_base.h", "ode/OdeSolverRosenbrock_W1.h", "ode/OdeSolverRosenbrock_SW2_4.h"], [("initStep/linSolve/updateW", "ode/OdeSolverRosenbrock_W_base.h")],
     files=["c16_rosenbrock"], bounds="one-stage and two-stage method with an arbitrary (uninterpreted) right-hand side in one first-order or one second-order variable: 2 steps (one-stage; any step sizes in [0.1,1], changes and restarts) or one step with up to 2 attempts (two-stage; step sizes 3/8 and 3/4 with error control, any without); with mixed affine systems of 2 and 3 unknowns 2-3 steps with up to 3 attempts and all accept/reject/change answers, states and times in [-1,1] within 1e-6; implicitness parameter 1 and 1/2; order over every rooted tree for three implicitness values and every step size in [0.001,1]",
     outside="nonlinear systems of several unknowns (the linear solves are C03-C05); Jacobian trimming; truncation by events (C12)", assumptions=["the right-hand side is a function; W is not singular"])
prop("C17", "The Newton solver reports what happened",
     "Converged is reported only if the solution returned meets the error or residual tolerance; divergence, termination by an observer and an exceeded iteration limit are reported as such, and never as success; the solution returned is the last iterate. The number of iterations never exceeds the limit, in each of at most two attempts, the second of which starts again from the initial guess if that may help.",
     ["inputs", "fault_sequences"], "all outcome sequences of the iteration performer, all tolerances", "No stable test runs the Newton solver.", ["alg/NewtonSolver.h", "alg/SimpleErrorEstimator.h", "alg/NewtonIterationPerformerImpl.h"], [("NewtonSolver::run", "alg/NewtonSolver.h"), ("SimpleErrorEstimator", "alg/SimpleErrorEstimator.h")],
     files=["c17_newton"], bounds='solver, iteration performer and error estimator as shipped with one equation and 3 iterations (thorough: with a hard reset 2 x 2), two equations and one iteration in each of two attempts, limit 0; mapping uninterpreted, any directions, initial guess and absolute tolerance, relative tolerance 1/4 or 1e-6, divergence thresholds off or any absolute and 2 relative; line search answers 1, 0, -1/2 or the real search with one trial; regularization adjusting or not, termination by an observer, hard reset helpful or not, a second run with or without a new guess, after every iteration; a NaN or infinite residual component at any of 3 evaluations, once or for ever', outside='more iterations and equations; a relative change from the zero vector counts as none (by design)', assumptions=['the mapping is a function; the line search returns the residual at its point (C18)'])
prop("C18", "The line search returns an admissible point or says it failed",
     "The line search tries the steps 1, 1/2, 1/4, ... along the direction up to its limit, and the same in the opposite direction if none of those reduces the residual norm; it stops at the first that reduces the squared norm below 0.8 of the initial one and returns the best step tried together with the residual at exactly that point, or zero with the residual untouched if none reduces it.",
     ["inputs"], "all residual functions (uninterpreted), starting points and directions", "No stable test runs the line search.", ["alg/SimpleNewtonLinearSearch.h"], [("findNextPoint", "alg/SimpleNewtonLinearSearch.h")],
     files=["c18_search"], bounds='mapping uninterpreted in up to 2 unknowns and 3 equations, any point and direction; up to 5 trials in either direction (thorough: 6 with 2 unknowns), the default 10 when no trial reduces the residual only a little; initial residuals of norms 1, sqrt(2), sqrt(8) and 4; repeated searches; NaN or infinite residuals at any trial', outside='other norms of the initial residual (the search only uses ratios to it); small reductions with 10 trials', assumptions=['the mapping is a function'])
prop("C19", "Numerical Jacobians are the difference quotients of the mapping",
     "Dense and sparse Jacobian calculators give, for every entry, the forward difference quotient of the mapping at the point asked for (hence the exact matrix for affine mappings), whatever the sparsity structure and variable grouping and whatever was computed before; entries on which the mapping does not depend are not stored. Trimming removes exactly the off-diagonal entries outside the width or below the threshold (relative to the largest entry), never the diagonal, and adding, removing or hard-resetting does not leave a stale matrix behind.",
     ["inputs", "configurations", "histories"], "all mappings (uninterpreted), points, sparsity structures and provider histories within the bound", "No stable test computes a Jacobian.", ["alg/computeJacobian.h", "alg/SparseJacobianCalculator.h", "alg/DefaultJacobianProvider.h", "alg/SparseJacobianProvider.h", "alg/JacobianWidthBasedTrimmer.h", "alg/JacobianThresholdBasedTrimmer.h"], [("SparseJacobianCalculator", "alg/SparseJacobianCalculator.h")],
     files=["c19_jacobian"], bounds="dense calculator with 1 and 2 variables (thorough 3), every dependency structure; grouped calculator for every structure of 2x2, 2x3, 3x2, 3x3 and 1x4 (thorough 3x4, and 3x3 with structures larger than the dependencies) and for bands, arrows and stripes of 4 and 5 variables (thorough 7), repeated at a second point; both trimmers on every pattern up to 3x3 (threshold 2x2 and 1x3), widths 0 to 4, thresholds 0, 1/4, 1; both providers in 2 variables over 2 (default) and 3 (sparse; thorough 4) evaluations with any hard reset, trimmer set or removed in between",
     outside="entries that are zero at the first evaluation although the mapping depends on the variable: the sparse provider fixes its structure then, by design, until a hard reset; more variables; rounding error of the quotients", assumptions=["the mapping is a function; a mapping's difference in a variable it depends on is not accidentally zero when the sparse provider determines the structure"])
prop("C20", "Descent directions solve the linearized system",
     "Every Newton descent direction d satisfies J d = -f for the matrix J it maintains and shows its observers: the Jacobian of the point of the last refresh, corrected by the secant updates its strategy defines (none; Broyden's rank-one update, also where it fills entries the Jacobian does not have; the same restricted to the Jacobian's structure; Hart's update of the factors; updates collected and applied later), so that strategies with a full update satisfy the secant condition. A hard reset discards the old matrix, a soft reset and further iterations keep it, and refreshes, matrices and directions are announced exactly once.",
     ["inputs", "histories"], "all Jacobians, residuals, points and histories of iterations, resets and success reports within the bound", "No stable test runs them.", ["alg/SimpleNewtonDescentDirection.h", "alg/ConstJacobianNewtonDescentDirection.h", "alg/JacobianBroydenUpdateNewtonDescentDirection.h", "alg/JacobianHartUpdateNewtonDescentDirection.h", "alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h", "alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h"], [("descentDirection", "alg/SimpleNewtonDescentDirection.h")],
     files=["c20_directions"], bounds="all six strategies, 1 and 2 variables, 2 to 4 calls (thorough up to 5) with any soft or hard reset or success report in between; the Jacobian arbitrary (Broyden and Hart updates of two variables: three fixed matrices) with any off-diagonal structure, residuals arbitrary (Hart in two variables: first component one of two values), consecutive points 2 or 3 fixed distances apart from an arbitrary point; with both numerical Jacobian providers one variable, 3 calls, uninterpreted mapping; lazy_iterations 0 and 1",
     outside="more variables (the linear solves are C03 to C06); consecutive points that coincide (the update is undefined); Hart updates for steps whose last component is zero", assumptions=["the matrix is regular and its factorization meets no zero pivot"])
prop("C21", "Mapping adaptors commute with the mappings they wrap",
     "Scaling, reordering, narrowing and normalizing adaptors give results consistent with the wrapped mapping: unordering undoes ordering, a reordered mapping of an ordered argument is the ordered value, a narrowed mapping agrees with the full one on the components kept with the disabled inputs taken from the state given, scaling and its inverse undo each other, and normalization scales argument and value by the same factors, which bring the diagonal of the Jacobian to magnitude one. Sizes and identifiers follow; invalid indices and singular diagonals are refused.",
     ["inputs", "configurations"], "all wrapped mappings (uninterpreted), permutations, masks and vectors within the bound", "No stable test uses adaptors.", ["alg/DiagonalMapping.h", "alg/VectorReorderingMapping.h", "alg/VectorNarrowingMapping.h", "alg/MappingNormalizer.h", "alg/interfaces/VectorBijectiveMapping.h"], [("map/orderInput/unorderInput", "alg/VectorReorderingMapping.h")],
     files=["c21_mappings"], bounds="every permutation and mask of up to 3x3, 3x2 and 1x4 inputs x outputs (thorough 4x4), with index lists reversed and repeated; scaling of up to 3 and normalization of up to 2 components; the wrapped mapping uninterpreted (affine with five diagonal values each for the normalization factors)",
     outside="larger sizes; repeated narrowing beyond two settings", assumptions=["orderings are permutations (the adaptor does not validate them)"])
prop("C22", "Components configured by parameters behave as the parameters say",
     "Reading the parameters of a component and applying them to a fresh component of the same type gives one that reports the same parameters and behaves identically; a parameter set is taken and reported back, numbers unchanged, and parameters not mentioned keep their values; unknown type names, unknown paths and invalid values (negative or too large ones for unsigned parameters included) are rejected by an exception and leave components and configuration as they were; components given by parameters are connected to the integrator they are given to.",
     ["configurations", "inputs"], "all component types registered, all parameters of each, numbers symbolic", "No stable test sets a parameter.", ["infra/OptionalParameters.h", "infra/Factory.h", "infra/ComponentConfiguration.h", "ode/OdeSolverConfiguration.h", "ode/interfaces/OdeSolver.h", "ode/SpecifiedOdeInitState.h", "ode/reg/OdeSolverClassesRegistrator.h", "alg/interfaces/NewtonSolverInterface.h"], [("OptionalParameters, Factory", "infra/OptionalParameters.h")],
     files=["c22_parameters"], bounds="every registered type of 16 interfaces, each of its parameters (nested ones included) set alone, to a symbolic number, 3 values of the other kinds or every registered type; 4 to 12 invalid texts per kind; a configuration of 35 values edited once (thorough 3 times); 8 integrators copied and compared over 1 or 2 steps with 1 variable",
     outside="the text of integers and names is enumerated, not symbolic; infinite and denormal numbers; the effect of the parameter jtrim of the Rosenbrock integrators, which the code does not use", assumptions=[])
prop("C23", "Observers are called once each, in order, and never after removal",
     "Every observer registered is called exactly once per notification, in registration order, with the notification's arguments; a removed observer is never called again, also when removal happens inside a notification, and forwarding passes each notification on exactly once. Terminating observers are all called, whatever the others return, and the result is true exactly when one of them returned true. Properties announce each assignment once, with the value set.",
     ["histories"], "all sequences of add/remove/notify operations within the bound, also from within callbacks", "No stable test uses observers.", ["infra/cxx_observers.h", "infra/def_prop_class.h"], [("Observers", "infra/cxx_observers.h")],
     files=["c23_observers"], bounds="up to 3 observers (thorough 4), of which 2 (thorough 3) add, remove or replace themselves or others or clear the sequence while being called, 3 notifications; nested notifications; chains of 2 forwardings; arguments and results symbolic",
     outside="observers that destroy the sequence itself while it is being notified; concurrent notifications", assumptions=["whether an observer added within a notification is called in that same notification is left open"])
prop("C24", "Error statistics are the statistics of the errors reported",
     "Accumulated error statistics equal their definitions over the samples added, for numbers and componentwise for vectors: the maximum, sum and mean of the magnitudes, the sum of squares, and as mean square deviation the root of the mean square distance of the magnitudes from their mean; a fresh object is empty, and merged statistics are those of all samples. The Richardson calculator reports for each step of the period the difference between two half steps and one whole step from the same point, times 2^p/(2^p-1) for the order p of the integrator; steps that an event truncates give no sample, the next step starts at the time and state the half steps reached, and a changed step size is refused.",
     ["inputs", "histories"], "all samples, merges, integrators (uninterpreted step functions) and histories within the bound", "No stable test computes a statistic.", ["util/ErrorStats.h", "ode/util/RichardsonErrorCalculator.h"], [("ErrorStats", "util/ErrorStats.h")],
     files=["c24_stats"], bounds="up to 3 samples (thorough 4) of up to 2 components, magnitudes up to 4; merges of 2 and 2 samples; Richardson over 1 to 3 steps, 1 and 2 variables, orders 1 to 4, an event, rejection or step-size change in any of the first 6 steps; euler, rk4 and gragg on the monomials they are just not exact for",
     outside="overflow and roundoff of the sums", assumptions=["the integrator's step is a function of time, state and step size"])
prop("C25", "Shared mathematical helpers meet their definitions",
     "The cubic Hermite basis functions and cubic interpolation take the given values and slopes at the ends, their derivative functions are their derivatives, on the unit interval and scaled to any length, and quadratics and cubics are reproduced; remainders lie in the range asked for and differ by whole periods; rounding gives the nearest integer, halves away from zero; minimum, maximum, sign and square are what they are called.",
     ["inputs"], "all inputs", "No stable test.", ["util/m_inline.h", "util/foreachindex.h"], [("utilities", "util/m_inline.h")],
     files=["c25_inline"], bounds="all real arguments of the polynomials; remainders for |x|, |bias| <= 16 and periods 0.5 to 16, integer moduli 1 to 4 of -7 to 7; rounding for |x| <= 4.25; order and sign for all doubles but NaN",
     outside="rounding errors (a remainder of a number just below the bias may round to the end of its range; 0.49999999999999994 rounds to 1); arguments beyond the range of int; the regular expressions of util/lex_idnum.h", assumptions=[])
prop("C26", "Test models implement the mechanics they describe",
     "The models shipped give the right-hand sides, event functions and state switches they describe, for every parameter: the oscillators are Newton's law for unit masses on linear or cubic springs and conserve energy, the sliding point feels the applied forces and friction of the chosen law against its velocity, the stiff equation is the one described, and the bouncing ball falls freely, has its contact at height zero, is reflected with the recovery factor without gaining energy, rests for good after a slow or repeated contact and, integrated with events, stays above the plane. Each evaluation is announced once before and after, depends on its arguments only and gives a result of the size of the state; unknown friction laws are refused.",
     ["inputs", "configurations"], "all states, times and parameters within the bound", "No stable test evaluates a model.", ["ode/test_models/BouncingBall.h", "ode/test_models/Oscillator.h", "ode/test_models/CoupledNonlinearOscillators.h", "ode/test_models/SlidingPoint.h", "ode/test_models/StiffOde1D.h"], [("rhs/zeroFunctions/switchPhaseState", "ode/test_models/BouncingBall.h")],
     files=["c26_models"], bounds="chains of 1 to 3 masses (thorough 5); all parameters, states and times as reals; the ball followed over 3 steps with euler, rk4 and gragg for one set of parameters and all start heights and speeds in a box",
     outside="accuracy of sin, cos and atan (uninterpreted); after a restart of the ball (the model has no reset and keeps resting once it rested)", assumptions=["masses, saturation speeds positive"])
prop("C27", "A restart forgets the past",
     "After a new initial time and state are set, every integrator takes the same steps as a freshly built one with the same settings, whatever it did before.",
     ["histories", "configurations"], "all integrators, right-hand sides, earlier histories within the bound", T_ODE, ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverGragg.h", "ode/OdeSolverRosenbrock_W1.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverImplicitEuler.h"], [("setInitialState", "ode/OdeSolverExtrapolator.h")],
     files=["c27_restart"], bounds="all integrators, the extrapolator over four reference integrators (2 stages); 0 to 2 steps before the restart and 1 or 2 after it, each of up to 2 attempts; the history with another system, another step size, a model failing in any of its first 4 evaluations or a failing algebraic solver; 1 to 3 variables, step sizes of two values, all states, times, function values, error norms and step-size answers after the restart arbitrary (thorough: before it too); with the linear event controller one zero function and one variable",
     outside="longer histories; a Jacobian kept across a soft restart is C18 to C20", assumptions=["the model, the error norm, the step-size controller and the algebraic solver answer equal arguments equally"])

prop("C28", "A configured run integrates what is configured; its reports tell what happened",
     "Applying a configuration connects the configured model to the configured solver and reference solver, starts both from the configured initial state (or the one given), and refuses runs with missing parts or a state of the wrong size; the run makes at least one step, goes on until the configured duration has passed, starts no step at or after its end, and does what the same steps made by hand do. Step reports tell each step once with its number, time, size, error and verdict; solution reports hold the start and every accepted step, or those the output interval asks for, with the selected variables and the values reached; statistics count all, rejected, changed and truncated steps, right-hand side evaluations and Jacobian refreshments, and average the accepted steps. Reports go to their files only, refuse to run when these cannot be written, and end with the run.",
     ["configurations", "inputs", "histories"], "all configurations and step histories within the bound", "No stable test runs a configuration.", ["ode/OdeSolverConfiguration.h", "ode/ode_solver_output.h", "ode/SpecifiedOdeInitState.h", "ode/OdeVarNameGenerator.h", "infra/ComponentConfiguration.h"], [("apply/solveOde", "ode/OdeSolverConfiguration.h"), ("OdeSolverStreamOutputOption and its heirs", "ode/ode_solver_output.h")],
     files=["c28_run"], bounds="runs of up to 5 steps in the duration; reports of up to 3 attempts (thorough 4) with all verdicts, truncations, symbolic sizes, errors, times and states, up to 11 second order and 12 first order variables, output intervals 0, -1 and 0.75; all pairings of the 4 reports in the 3 places; euler and rk4 compared to the same by hand",
     outside="measured times and speeds; the digits of numbers in reports (uninterpreted functions of the number and the precision); a run ended by an exception, which leaves its reports unfinished; the parameter simout_basename, which the code does not use", assumptions=[])
