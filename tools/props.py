SC = 'Random optimal control problems (1-5 states, 0-5 inputs per step, time-varying dimensions, linear-quadratic to nonlinear/nonconvex, horizons 1-36, rarely up to 130, start times on and off 0), random initial guesses, limits and solver settings. '

prop('C01', 'DDP plan is a consistent rollout of the dynamics',
     'After any solve, converged or not, the returned state sequence starts at the given state, follows the problem dynamics under the returned input sequence at the right times, and has one more element than the inputs. Every reported running and terminal cost equals the problem cost at that state, input and time.',
     ['inputs', 'configurations'], 'for every problem, start time and state, initial guess, horizon, solver setting and outcome of the solve',
     'The tests solve three fixed plants and look at the closed loop only; a stale or mixed-up element of the plan after a rejected step, another horizon or start time is not visible to them.',
     [DDP, DDPH], [('candidate trajectory is rolled out and adopted as a whole', DDP + ' forwardPass/procOnce'), ('initial rollout', DDP + ' solve')],
     SC + 'Non-trivial: the solver changed the initial guess.', 'property-based testing: recomputed rollout as oracle',
     'Exploration. Oracle: independent rollout of the generated problem; equality to 1e-13 relative.', ['controlData() after solve()'])
prop('C02', 'DDP never returns a worse plan and traces truthfully',
     'The plan returned by the solver never costs more than the initial guess (projected onto the input limits when those are enabled). The iteration trace starts at the cost of the initial guess, never increases, ends at the cost of the returned plan, and each accepted step reports its actual cost reduction, a ratio above the configured threshold and a configured step size.',
     ['inputs', 'configurations'], 'for every problem, initial guess, solver setting and number of iterations',
     'Tests never compare the cost with the guess and never read the trace; line search acceptance depends on problem, step list and thresholds.',
     [DDP], [('line search acceptance by cost ratio', DDP + ' procOnce'), ('trace data', DDP + ' solve/procOnce')],
     SC + 'Non-trivial: at least two accepted steps.', 'property-based testing: monotonicity invariant over the iteration history, recomputed costs',
     'Exploration. Costs recomputed from the generated problem; 1e-13 relative.', ['traceDataList()', 'controlData().cost_list'])
prop('C03', 'DDP solves unconstrained linear-quadratic problems to the optimum',
     'For linear dynamics and convex quadratic costs the solver reaches the global optimum of the finite-horizon problem from any initial guess, and with zero regularisation a single iteration suffices.',
     ['inputs', 'configurations'], 'for every linear-quadratic problem (time-varying, affine terms, cross terms, varying input dimension), guess and regularisation type',
     'No test compares with an independently computed optimum; three fixed plants cannot settle it for all problems.',
     [DDP], [('Riccati-like backward pass', DDP + ' backwardPass'), ('regularisation schedule', DDP + ' increaseLambda/decreaseLambda')],
     'Random time-varying affine LQ problems; non-trivial: the guess is suboptimal.', 'property-based testing: differential against a dense condensed QP',
     'Exploration. Oracle: condensed dense QP (no recursion shared with the solver); relative gap 1e-8 or tighter.', ['solve()', 'controlData()'])
prop('C04', 'DDP reports convergence only at a stationary plan',
     'When the solver reports success because its update has become small and tight thresholds are configured, the returned plan is a stationary point: the gradient of the total cost with respect to every input vanishes up to the threshold. A solve that starts at an exactly stationary plan of a convex problem reports success and leaves the plan as it is.',
     ['inputs', 'configurations'], 'for every smooth problem, guess and regularisation setting',
     'Tests ignore the return value; a false success is invisible in the closed loop of a forgiving plant.',
     [DDP], [('termination on relative gain norm and small regularisation', DDP + ' procOnce')],
     SC + 'Non-trivial: success with a guess whose gradient was above 1e-2.', 'property-based testing: adjoint gradient as oracle',
     'Exploration. Oracle: adjoint gradient and reference Newton step at the returned plan.', ['return value of solve()', 'controlData().u_list'])
prop('C05', 'DDP inputs respect the configured input limits',
     'With input constraints enabled every input of the returned plan lies within the limits given for its own time step, whatever the initial guess and whether or not the solve converged. Limits that are set but not enabled have no effect on the result.',
     ['inputs', 'configurations'], 'for every problem, time-varying limit (also one-sided, equal or infinite), guess and outcome',
     'One test with constant symmetric limits and a feasible guess.',
     [DDP, BOX], [('limits imposed on rollouts', DDP + ' imposeInputLimits'), ('box-constrained subproblem', DDP + ' backwardPass')],
     SC + 'Non-trivial: a limit is active in a result that differs from the guess.', 'property-based testing: box invariant, metamorphic (disabled limits)',
     'Exploration. 1e-9 relative tolerance on the limits; exact equality for disabled limits.', ['controlData().u_list'])
prop('C06', 'Input-constrained DDP finds the constrained optimum',
     'With input constraints enabled, a reported success with tight thresholds means that the projected gradient of the total cost vanishes. On convex linear-quadratic problems with box limits the solver attains the constrained optimum.',
     ['inputs', 'configurations'], 'for every problem and time-varying box limits, with any mix of active and inactive limits',
     'The only constrained test checks a closed loop bound, not optimality; which limits are active depends on the problem.',
     [DDP, BOX], [('free-subspace gains', DDP + ' backwardPass'), ('projected Newton QP', BOX + ' solve')],
     SC + 'Non-trivial: some limit is active at the optimum.', 'property-based testing: differential against accelerated projected gradient; projected-gradient invariant',
     'Exploration. Oracle shares no code or algorithm with the solver.', ['solve()', 'controlData()'])
prop('C07', 'Box QP returns the constrained minimiser and its active set',
     'For every strictly convex quadratic program with box limits the QP solver returns a feasible global minimiser, reports success, and describes it truthfully: variables not reported free sit on a limit with the gradient pushing outwards, and the returned factorisation is that of the free block. Truncated runs and indefinite problems still give a feasible point that is no worse than the projected guess, and a reused solver answers exactly as a fresh one.',
     ['inputs', 'configurations', 'histories'], 'for every Hessian, gradient, limits (degenerate, one-sided, infinite), initial point and sequence of problems',
     'One test with four fixed problems; active-set changes, jamming and degenerate limits need specific inputs.',
     [BOX], [('projected Newton iteration with Armijo line search', BOX + ' solve'), ('free-set factorisation', BOX + ' llt_free_')],
     'Random strictly convex QPs of size 1-6 with random boxes (equal, zero, infinite limits) and guesses; non-trivial: some limit active at the solution (or objective strictly improved in a truncated run).',
     'property-based testing: enumeration of all active sets as oracle',
     'Exploration. Oracle enumerates the 3^n active sets.', ['solve()', 'retval_', 'free_idxs_', 'llt_free_', 'traceDataList()'])
prop('C08', 'Each DDP iteration is the documented regularised Newton step',
     'One iteration applies exactly the documented update: gains of the regularised Gauss-Newton backward pass (restricted to the free inputs under limits), the first configured step size whose actual-to-predicted reduction ratio exceeds the threshold, and the documented regularisation schedule. The reported regularisation, step size, predicted reduction and convergence flag are those of this step.',
     ['inputs', 'configurations'], 'for every problem, current trajectory, regularisation type and value, step list and thresholds',
     'Wrong gains or schedules still stabilise the fixed plants of the tests.',
     [DDP, DDPH], [('backward pass', DDP + ' backwardPass'), ('line search', DDP + ' procOnce'), ('regularisation schedule', DDP + ' procOnce')],
     SC + 'One iteration from a random trajectory. Non-trivial: a step was accepted or all were rejected after a successful backward pass.', 'property-based testing: differential against a reference model of one iteration',
     'Exploration. Reference iteration on dense matrices; decisions within rounding of a threshold are discarded and counted.', ['controlData()', 'traceDataList()', 'return value'])
prop('C09', 'DDP solves are independent of the history of the solver object',
     'The result of a solve depends only on the problem, the configuration and the arguments: a solver that was used before, with other horizons, start states, failures or exceptions in between, returns bit for bit what a new one returns. Print level does not influence results, and passing the solver its own previous outputs as inputs is equivalent to passing copies.',
     ['histories', 'configurations'], 'for every sequence of configuration changes and solves, including failing and throwing ones',
     'Tests reuse a solver only for a receding horizon of constant length and compare nothing with a fresh one.',
     [DDP, DDPH], [('per-solve initialisation of all working data', DDP + ' solve')],
     'Random histories of 2-6 operations (solve, reconfigure, failing problem, throwing arguments, own outputs as arguments). Non-trivial: at least two solves with an accepted step.', 'stateful property-based testing: reused vs fresh solver, bitwise',
     'Exploration. Exact comparison.', ['controlData()', 'traceDataList()', 'return value'])
prop('C10', 'DDP rejects malformed initial guesses without damage',
     'A guess with the wrong number of inputs or an input of wrong dimension for its time step is rejected with an exception before any iteration, for every horizon and dimension profile; the solver then still works as if nothing had happened. Well-formed guesses are never rejected.',
     ['inputs', 'configurations'], 'for every horizon, dimension profile and position of the defect',
     'No test passes a malformed guess.',
     [DDP, DPR], [('argument checks', DDP + ' solve')],
     'Random malformed guesses (count off by any amount, one wrong dimension at any step). Non-trivial: a malformed guess was passed.', 'property-based testing: generated malformed inputs',
     'Exploration.', ['exceptions of solve()'])
prop('C11', 'DDP contains non-finite values of the problem functions',
     'When a problem function returns NaN or infinity at some call or in some region, the solve still ends within its iteration limit and does not report convergence on a plan whose values are not finite, nor when the derivatives it would need are not available (NaN). A plan that was finite is never replaced by one with a non-finite cost.',
     ['fault_sequences', 'inputs'], 'for every problem function, position, kind of non-finite value and call at which it appears',
     'No test injects non-finite values.',
     [DDP], [('rejection of non-finite costs and gains', DDP + ' procOnce/backwardPass')],
     SC + 'With one injected fault (callback, n-th call or region, NaN/+Inf/-Inf, transient or persistent). Non-trivial: the fault fired.', 'fault-injection property-based testing',
     'Exploration.', ['return value', 'controlData()', 'traceDataList()'])
prop('C12', 'DDP work is bounded and evaluations stay on the horizon grid',
     'A solve makes at most the configured number of iterations, each with at most one rollout per configured step size, and evaluates the problem functions and the limits only at the time steps of the horizon, with inputs of the dimension valid at that time; terminal cost only at its end.',
     ['inputs', 'configurations'], 'for every horizon, start time, time step, dimension profile and solver setting',
     'Tests use time-invariant plants, for which evaluation at a wrong time changes nothing.',
     [DDP, DDPH], [('time passed to the callbacks', DDP + ' procOnce/forwardPass/backwardPass'), ('iteration limit', DDP + ' solve')],
     SC + 'Non-trivial: at least one iteration was made.', 'property-based testing: monitored problem callbacks',
     'Exploration. The generated problem object records every call.', ['calls of the problem object'])
prop('C13', 'Dumped traces reproduce the trace in memory',
     'The trace file written by a solver contains one row per trace entry under the documented header, in order, and its numbers equal those in memory up to the printed precision, for every solve outcome.',
     ['inputs', 'histories'], 'for every history of solves and dumps, with the DDP and FMPC solvers',
     'Tests write the file and never read it.',
     [DDP, FM], [('trace dump', DDP + ' dumpTraceDataList'), ('trace dump', FM + ' dumpTraceDataList')],
     'Random solves, then dump and parse. Non-trivial: more than two rows.', 'property-based testing: round trip through the dump file',
     'Exploration. Files are written below the build directory.', ['dump file'])

prop('C14', 'The trace of the box QP describes its iterations',
     'After every solve of the box QP, whatever its outcome, the trace has one entry per iteration in order, starting with the projected guess: each holds a feasible iterate with its objective value, which never increases; clamped variables sit on a limit with the gradient pushing outwards and do not move, the free ones move along the Newton direction of the free block; each iterate is the projection of the step reported before it, and the returned point is the end of the trace.',
     ['inputs', 'configurations', 'histories'], 'for every quadratic program, guess, limits, settings, iteration limit and outcome, also with a reused solver',
     'No test reads the trace; whether an entry belongs to the iterate it claims depends on the way the solve ended.',
     [BOX], [('trace data of the projected Newton iteration', BOX + ' solve')],
     'Random box QPs (1-6 variables, sequences on one solver object, indefinite ones included, default and random settings). Non-trivial: at least one search step.',
     'property-based testing: the iteration re-derived from consecutive trace entries',
     'Exploration. Every entry is checked against objective, limits, Newton system and its successor; 1e-7 relative.', ['traceDataList()', 'return value and free_idxs_ of solve()'])
prop('C20', 'FMPC success means the KKT conditions hold',
     'When the FMPC solver reports success, the returned states, costates, inputs, multipliers and slacks satisfy the Karush-Kuhn-Tucker conditions of the discretised problem (dynamics, stationarity in states and inputs, constraints g + s = 0, complementarity s*nu = 0) to within the configured threshold, and the start state is the given one. Every reported optimality error equals the norm recomputed at that point.',
     ['inputs', 'configurations'], 'for every smooth problem with or without inequality constraints, guess and solver setting',
     'Tests look at the closed loop of fixed plants; a wrong residual term gives a slightly different plan only.',
     [FM, FMH], [('KKT error', FM + ' calcKktError'), ('termination', FM + ' procOnce')],
     'Random FMPC problems. Non-trivial: success after at least two iterations.', 'property-based testing: recomputed KKT residual as oracle',
     'Exploration. Residual recomputed from the generated problem.', ['variable()', 'traceDataList()', 'status'])
prop('C21', 'FMPC keeps slacks and inequality multipliers positive',
     'From a guess with positive slacks and multipliers every solve, successful or not, leaves all of them strictly positive, and no step reduces one of them by more than the fraction-to-boundary rule allows.',
     ['inputs', 'configurations'], 'for every problem, guess, number of iterations and outcome',
     'Tests never inspect slacks or multipliers.',
     [FM], [('fraction-to-boundary step length', FM + ' procOnce')],
     'Random FMPC problems with constraints. Non-trivial: a step was shortened by the rule.', 'property-based testing: invariant over iterations',
     'Exploration.', ['variable()'])
prop('C22', 'Each FMPC iteration is the Newton step of the KKT system',
     'One iteration changes the variables along the exact solution of the linearised (Gauss-Newton) KKT system of the whole horizon, with the step lengths of the fraction-to-boundary rule, cut further by the backtracking line search when enabled, and the documented barrier parameter. The first iteration starts from the given guess, or, when complementarity variables are initialised by the solver, from s = 1.01 max(-g, 1e-2) and nu = 1.01 max(1e-4/s, 1e-2).',
     ['inputs', 'configurations'], 'for every problem, guess (also infeasible), dimension profile including steps without inputs or constraints',
     'A slightly wrong Riccati recursion still converges on fixed plants.',
     [FM], [('Riccati backward pass', FM + ' backwardPass'), ('forward pass', FM + ' forwardPass'), ('update', FM + ' updateVariables')],
     'Random FMPC problems, one iteration. Non-trivial: constrained problem with at least two steps.', 'property-based testing: differential against a dense KKT solve',
     'Exploration. Oracle: one dense linear system for the whole horizon.', ['variable()'])
prop('C23', 'FMPC solves convex quadratic programs',
     'On strictly convex linear-quadratic problems with feasible linear inequality constraints the solver converges from the default guess, and the result is feasible and optimal.',
     ['inputs'], 'for every strictly convex problem with a strictly feasible point',
     'Three fixed plants.',
     [FM], [('interior-point iteration', FM + ' solve')],
     'Random convex QPs with a known strictly feasible point. Non-trivial: an inequality is active at the solution.', 'property-based testing: optimality certificate',
     'Exploration. Certificate: KKT conditions with duality gap, no reference solver needed.', ['variable()', 'status'])
prop('C24', 'FMPC solves depend only on the arguments and the warm start',
     'With a given initial guess the result is independent of the history of the solver object, of the print level and of unrelated solves, and solving in one call or in several shorter ones continued from the returned variables gives the same iterates when the barrier parameter is kept.',
     ['histories', 'configurations'], 'for every sequence of solves, horizons, failures and exceptions',
     'Tests never compare with a fresh solver.',
     [FM, FMH], [('per-solve initialisation', FM + ' solve')],
     'Random histories. Non-trivial: at least two solves with several iterations.', 'stateful property-based testing: reused vs fresh solver, bitwise',
     'Exploration. Exact comparison.', ['variable()', 'status', 'traceDataList()'])
prop('C25', 'FMPC rejects malformed guesses without damage',
     'A guess with a wrong horizon length, a wrong dimension at some step, or a negative slack or multiplier is rejected with an exception before any iteration, and the solver can be used afterwards as if nothing had happened. Well-formed guesses are never rejected.',
     ['inputs', 'configurations'], 'for every member, position and kind of defect',
     'No test passes a malformed guess.',
     [FM], [('variable check', FM + ' checkVariable')],
     'Random malformed guesses. Non-trivial: a malformed guess was passed.', 'property-based testing: generated malformed inputs',
     'Exploration.', ['exceptions of solve()'])
prop('C26', 'FMPC reports non-finite values instead of returning them silently',
     'When a problem function returns NaN or infinity the solver ends within its iteration limit and never reports success with a non-finite or non-optimal result.',
     ['fault_sequences', 'inputs'], 'for every problem function, position, kind of value and call at which it appears',
     'No test injects non-finite values.',
     [FM], [('NaN checks', FM + ' procOnce')],
     'Random FMPC problems with one injected fault. Non-trivial: the fault fired.', 'fault-injection property-based testing',
     'Exploration.', ['status', 'variable()'])
prop('C27', 'FMPC work is bounded and evaluations stay on the horizon grid',
     'A solve makes at most the configured number of iterations and evaluates the problem functions only at the time steps of the horizon with the dimensions valid there; terminal cost only at its end.',
     ['inputs', 'configurations'], 'for every horizon, start time, time step and dimension profile',
     'Tests use time-invariant plants.',
     [FM], [('time passed to the callbacks', FM + ' backward/forward/update')],
     'Random FMPC problems. Non-trivial: at least one iteration.', 'property-based testing: monitored problem callbacks',
     'Exploration.', ['calls of the problem object'])
prop('C28', 'Fixed-size and dynamic-size solvers agree',
     'A problem posed with compile-time input and constraint dimensions and the same problem posed with run-time dimensions give the same plan, trace and outcome, with the DDP and with the FMPC solver.',
     ['inputs', 'configurations'], 'for every problem with constant dimensions, no inputs and no constraints included',
     'Tests never pose one problem in both ways.',
     [DDP, FM, DPR, FPR], [('dimension-dependent code paths', DDP), ('dimension-dependent code paths', FM)],
     'Random problems with constant dimensions. Non-trivial: at least one accepted step.', 'property-based testing: differential between template instantiations',
     'Exploration. Agreement to rounding over few iterations.', ['results of both solvers'])
prop('C29', 'L1-norm directional derivative is exact',
     'The directional derivative of the l1 norm of a vector function returned by the helper equals the one-sided limit of the difference quotient, in particular at points where components are zero.',
     ['inputs'], 'for every function value, Jacobian and direction, with any pattern of zero components',
     'One test with fixed vectors.',
     [MU], [('l1NormDirectionalDeriv', MU)],
     'Random values, Jacobians and directions with exact zeros. Non-trivial: some component is zero.', 'property-based testing: limit of difference quotients',
     'Exploration.', ['return value'])

prop('C30', 'GMRES returns the Krylov-optimal solution and its true residual',
     'For any nonsingular linear system and start vector, the solver returns the minimiser of the residual over the Krylov space of the number of steps taken, its residual history is non-increasing and ends at the true residual norm, and with as many steps as unknowns it solves the system. Matrix and function interfaces and the solution options agree.',
     ['inputs', 'configurations'], 'for every matrix, right-hand side, start vector, iteration limit and tolerance',
     'Fixed random systems, final accuracy only.',
     [GM], [('Arnoldi / Givens iteration', GM + ' solve')],
     'Random nonsingular systems of size 1-12. Non-trivial: at least two Krylov steps.', 'property-based testing: least-squares over an explicit Krylov basis as oracle',
     'Exploration.', ['solve()', 'err_list_'])
prop('C31', 'ODE integrators implement their schemes exactly',
     'One step of each integrator equals the explicit Euler or classical Runge-Kutta formula for arbitrary right-hand sides, evaluates the right-hand side only at the scheme stages and times, and does not alter its inputs.',
     ['inputs'], 'for every right-hand side, time, state, input and step length',
     'Used on fixed plants only.',
     [OD], [('Euler and RK4 step', OD)],
     'Random nonlinear time-varying systems. Non-trivial: nonlinear and time-varying.', 'property-based testing: differential against textbook formulas and order of accuracy',
     'Exploration.', ['solve()'])
prop('C32', 'C/GMRES optimality residual is the gradient of the discretised problem',
     'The optimality residual the C/GMRES solver drives to zero is dH/du along the states integrated forward from the given state over the documented horizon T(t) = Ts (1 - exp(-alpha t)) and the costates integrated backward from the terminal gradient, each interval with its own input, at the right times. With Euler integration and running terms that do not depend on time it is the exact gradient of the discretised cost divided by the interval length.',
     ['inputs'], 'for every problem, horizon growth, division number, state, time and input sequence',
     'The test checks that closed loops match stored behaviour of fixed plants.',
     [CG, CGH], [('state/costate sweep', CG + ' calcDhDuList')],
     'Random nonlinear problems with adjoint-consistent costate equations. Non-trivial: nonlinear with more than one horizon division.', 'property-based testing: differential against adjoint of discretised problem',
     'Exploration.', ['dhdu list'])
prop('C33', 'C/GMRES starts at a stationary input or reports failure',
     'After setup() every input of the sequence is a stationary point of the Hamiltonian at the initial state with the terminal costate, to the tolerance 1e-6, or the failure is reported; for a strictly convex quadratic Hamiltonian it never fails. A repeated setup, also with another number of divisions, starts afresh.',
     ['inputs'], 'for every problem, initial state, time and guess',
     'Fixed plants only.',
     [CG], [('Newton-type initialisation', CG + ' setup')],
     'Random problems, convex and non-convex. Non-trivial: the guess is not stationary.', 'property-based testing: residual at the result',
     'Exploration.', ['u list after setup()'])
prop('C34', 'C/GMRES continuation contracts the optimality residual',
     'One control step changes the inputs by dt times the (at most k_max-step) Krylov solution of the forward-difference continuation equation dF/dt = -zeta F, warm-started from the previous rate. With enough Krylov steps and a residual affine in the inputs, the residual after delta is exactly (1 - zeta delta) times the current one. The applied input is the first of the sequence.',
     ['inputs', 'histories'], 'for every problem, state, inputs and solver setting with sufficient Krylov dimension',
     'Only closed loops of fixed plants are observed.',
     [CG], [('continuation step', CG + ' calcControlInput')],
     'Random problems. Non-trivial: residual initially nonzero.', 'property-based testing: differential against a reference Krylov step; contraction invariant',
     'Exploration.', ['u list', 'dhdu list'])
prop('C35', 'C/GMRES simulation logs what it does and is repeatable',
     'A simulation run is the loop of plant integration and control step over the simulation duration; every dump_step-th row of the logs holds the time of the step and the state, the input and the residual norm it ended with, the parameter log is consistent with it, and repeating a run gives identical logs.',
     ['histories', 'inputs'], 'for every problem, simulation and control period, duration and logging stride',
     'Tests write logs and never read them.',
     [CG], [('simulation loop and logging', CG + ' run')],
     'Random runs. Non-trivial: at least two logged rows.', 'property-based testing: differential against a stepwise loop, round trip through the log files',
     'Exploration.', ['log files'])
prop('C40', 'Solvers are free of memory errors and uninitialised data',
     'No solve, valid or rejected, reads or writes memory out of bounds, triggers undefined behaviour, or lets uninitialised memory influence a result.',
     ['inputs', 'histories', 'configurations'], 'for every problem, dimension profile, history and outcome, with all three solvers',
     'The tests run without sanitizers and on fixed dimensions.',
     [DDP, FM, CG, GM, BOX], [('resizing of working data', DDP), ('resizing of working data', FM)],
     'Random histories with all solvers. Non-trivial: a history with varying horizon or dimensions.', 'property-based testing under ASan/UBSan and with poisoned heap memory',
     'Exploration. Results compared between differently poisoned heaps.', ['sanitizer reports', 'results'])
prop('C41', 'Solver objects do not influence each other, also nested or in threads',
     'What a solver object (DDP, FMPC, C/GMRES, GMRES, box QP, ODE integrator) returns does not depend on any other solver object: running another solver before, inside a callback of its problem, or at the same time in another thread leaves every output bitwise the same and causes no data race; a solve leaves the caller\'s stream formatting, locale and floating-point environment as they were.',
     ['schedules', 'histories', 'inputs'], 'for all pairs of uses, all callbacks at which a second use is nested, and all interleavings of threads with their own objects',
     'Every test uses one solver in one thread.',
     [DDP, FM, BOX, CG, GM, OD], [('solve', DDP), ('solve', FM), ('solve', BOX), ('calcControlInput', CG), ('solve', GM), ('solve', OD)],
     'Pairs and triples of random uses of the solvers, nested at a random callback or in threads; quick includes a ThreadSanitizer build. Non-trivial: a second use really ran inside a callback, in between, or in parallel.', 'property-based testing: metamorphic (isolated run as oracle), generated nesting points, ThreadSanitizer on generated concurrent uses',
     'Exploration. Bitwise comparison; thread schedules are those of the machine, races are detected by happens-before and so mostly independent of timing. CgmresSolver::run() is not run concurrently (it writes fixed files).', ['all outputs of the solvers'])
prop('C42', 'Reported computation times are those of this solve',
     'After a DDP or FMPC solve that returns, the reported durations (milliseconds) are non-negative, cover this solve only, and account for it: solve is the whole time, setup and opt add up to it, the phases are included in opt and the parts in their phase as documented, phase totals are the sums over the trace, and time spent in problem functions is booked on the phase that calls them (derivatives on derivative/coeff, rollouts on setup/forward, line search on update). This also holds when a phase fails.',
     ['inputs', 'configurations', 'histories'], 'for every solve that returns, with any outcome, and every distribution of time over the problem functions',
     'The tests print durations, which vary from run to run, and check none.',
     [DDP, FM, DDPH, FMH], [('computation_duration_', DDP), ('computation_duration_', FM)],
     'Random solves (also failing ones and reused objects) with a virtual clock behind std::chrono: time passes only in problem functions, by random amounts, plus one tick per reading. Non-trivial: at least two iterations.', 'property-based testing: virtual clock and accounted callback time as oracle',
     'Exploration. If the solver stops reading std::chrono clocks, only the clock-independent relations remain.', ['computationDuration()', 'traceDataList()'])
prop('C43', 'The plotting scripts draw what the trace and log files contain',
     'For every trace file in the format the solvers dump (any number of rows from one, any values, non-finite ones included) the trace plotting script draws each requested column, complete and unaltered, labelled with its key, against the iteration numbers or the index, and draws nothing for an unknown key. The C/GMRES plotting script draws every logged state, input and the residual norm, one diagram each and labelled with its number, against the logged time.',
     ['inputs'], 'for every file content, number of rows and columns, and every sequence of requests',
     'No test runs the scripts.',
     ['nmpc_ddp/scripts/plotDDPTraceData.py', 'nmpc_cgmres/scripts/plotCgmresData.py'], [('load and plot', 'nmpc_ddp/scripts/plotDDPTraceData.py __call__'), ('load and plot', 'nmpc_cgmres/scripts/plotCgmresData.py loadData/plot')],
     'Random trace and log files and requests (hypothesis), scripts run as a user runs them with a recording stand-in for matplotlib. Non-trivial: more than one row.',
     'property-based testing (hypothesis): drawn curves against the file content',
     'Exploration. matplotlib is replaced by a recorder (it is not installed); exact equality.', ['curves handed to matplotlib'])
