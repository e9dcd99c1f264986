#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a check is claimed when its module exists)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "torchdyn/numerics/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


P("C01", "Integration returns exactly the requested times",
  "For every vector field, initial state, solver and strictly monotone list or tensor of request times, integration terminates and returns one solution value per requested time, in the requested order, with the returned times equal to the requested ones and the first value equal to the initial state, in the state's dtype and shape. When all evaluated points are asked for (or by the interpolated adjoint), the returned times are strictly monotone, start and end at the ends of the interval and contain every requested time. The same holds for the model classes, the parallel-in-time solvers and dictionary-valued states.",
  ["inputs", "configurations"], "all vector fields, states of any rank, request-time grids (uniform, irregular, very close points, decreasing, offset), solvers, tolerances, dtypes and calling forms",
  "Tests integrate a few systems on linspace grids and look at the final value; rounding of step ends, irregular and reversed grids and the superset contract are not sampled.",
  [N + "odeint.py", "torchdyn/core/problems.py"],
  [("adaptive step ends exactly at the next requested time", N + "odeint.py:_adaptive_odeint"), ("fixed-step loop over the grid", N + "odeint.py:_fixed_odeint"), ("sign handling of reversed spans", N + "odeint.py:odeint")],
  "generated integrations against an output-contract predicate and a textbook reference",
  "random exploration; request times distinguishable in the working precision")

P("C02", "Fixed-step solvers compute the textbook recurrence on the requested grid",
  "With a fixed-step method (Euler, explicit midpoint, classical fourth-order Runge-Kutta, implicit Euler, or a user-defined stepping rule) the solution at each requested time is obtained from the previous one by exactly one step of the textbook formula with the step size given by the grid, with the vector field evaluated at the textbook stage times and states. This holds for uniform and non-uniform grids, both directions of time, time-dependent fields, both dtypes and for single steps with or without a supplied first stage. Integrating in two pieces gives the same result as integrating at once.",
  ["inputs"], "all vector fields (time-dependent included), grids, states, dtypes and fixed-step methods",
  "Tests compare against loose references on uniform grids of autonomous systems; wrong stage times or step sizes on irregular grids pass.",
  [N + "odeint.py", N + "solvers/ode.py", N + "solvers/_constants.py"],
  [("stepping rules", N + "solvers/ode.py:Euler,Midpoint,RungeKutta4,ImplicitEuler"), ("tableau", N + "solvers/_constants.py:construct_rk4"), ("grid loop", N + "odeint.py:_fixed_odeint")],
  "differential testing against an independent Butcher-tableau implementation",
  "random exploration with rounding-level tolerances; implicit Euler is compared with a contraction fixed point to the optimiser's accuracy")

P("C03", "Adaptive integration honours its tolerances and step-acceptance rule",
  "An adaptive integration only advances over steps whose scaled error estimate (root mean square of the estimate over atol + rtol times the larger of the two states, restricted to the leading components when a seminorm is requested) is at most one, retries rejected steps from the same state with a smaller step, keeps successive step sizes within the solver's limits, and covers the interval without gaps. The returned values are those of the accepted steps and differ from the true solution by no more than a moderate multiple of the tolerances. Tightening the tolerances does not make the result worse.",
  ["inputs", "configurations"], "all vector fields, states, time grids, tolerances, adaptive methods (including user-defined pairs) and seminorms",
  "Tests check a final error at one tolerance; a wrong norm, accepted rejected steps or a stale first stage after a rejection still give small errors on the sampled systems.",
  [N + "odeint.py", N + "utils.py", N + "solvers/ode.py"],
  [("acceptance and step-size control", N + "odeint.py:_adaptive_odeint"), ("error norm, first step, controller", N + "utils.py:hairer_norm,init_step,adapt_step")],
  "history checking of every attempted step plus comparison with an independent high-accuracy integrator",
  "random exploration; accuracy bound is a generous multiple of the tolerance on non-stiff fields")

P("C04", "Runge-Kutta methods have their stated order and honest error estimates",
  "Every explicit solver satisfies the order conditions of its stated order for autonomous and time-dependent systems: a step of size h reproduces the exact solution up to a local error proportional to h to the order plus one. The embedded pairs return an error estimate equal to the difference between a fifth- and a fourth-order result, and a last stage equal to the vector field at the end of the step so that it can be reused as the next first stage. The estimate vanishes to fourth order only and is not systematically smaller than the true error of the step.",
  ["inputs"], "all rooted-tree systems up to the stated order, step sizes, start times and scales; random smooth fields for convergence rates",
  "Tests run one step size and a loose tolerance; a single wrong coefficient lowers the order without failing them.",
  [N + "solvers/ode.py", N + "solvers/_constants.py"],
  [("tableaus", N + "solvers/_constants.py"), ("stage computations", N + "solvers/ode.py")],
  "generated rooted-tree systems (Butcher order conditions) as exact oracles for single steps",
  "all trees up to order five are generated, so each coefficient is exercised; convergence checked on random fields")

P("C05", "Interpolated and dense output agrees with the integrated solution",
  "When an interpolator is used, values at intermediate requested times agree with the true solution to the order of the tolerances, adding or removing intermediate requests does not change the values at the remaining times or the steps taken, and the number of vector field evaluations does not grow with the number of requests. The quartic interpolant passes through both ends and the midpoint of a step, has the given end slopes and reproduces polynomials of degree four. Dense output built from stored solution points passes through the stored points, reproduces straight lines and treats batch elements independently.",
  ["inputs"], "all vector fields, request-time grids, tolerances and stored trajectories",
  "Tests check one interpolated trajectory; correctness at every intermediate time and independence of the requests are not sampled.",
  [N + "interpolators.py", N + "odeint.py", N + "utils.py"],
  [("quartic fit and evaluation", N + "interpolators.py:FourthOrder"), ("interpolated checkpoints", N + "odeint.py:_adaptive_odeint"), ("spline through solution points", N + "utils.py:dense_output")],
  "metamorphic request-set changes, exact polynomial reproduction, high-accuracy reference",
  "random exploration; only the dopri5 method has an interpolant")

P("C06", "Integration backward in time is the mirror of integration forward",
  "Integrating a field over decreasing times returns those decreasing times and the same values as integrating the mirrored field minus f(-t, x) over the negated, increasing times. Going forward and then back over the reversed times returns to the initial state within the accuracy of the method. This holds for every entry point that accepts decreasing times (including save points, extra arguments, interpolation, the model classes, and symplectic integration, where velocities change sign with time).",
  ["inputs", "configurations"], "all time-dependent vector fields, decreasing grids (including ones crossing zero), solvers and options",
  "Tests only look at final values of one reversed autonomous system.",
  [N + "odeint.py"], [("reversal of field, span and save points", N + "odeint.py:odeint,odeint_symplectic")],
  "metamorphic relation between reversed and mirrored integrations, round trips",
  "random exploration; round trip tolerance follows the method's accuracy")

P("C07", "Save points select from the full solution and change nothing else",
  "Asking a fixed-step integration for a list or tensor of save points that are members of the time grid returns exactly those times, in the order asked, and exactly the values the full integration has at them. A save point that is not in the grid, or is repeated, is refused with an assertion error and never answered with another time's value. This holds for ordinary and stochastic equations, in both directions of time and for every sensitivity method of the model classes.",
  ["inputs", "configurations"], "all grids, subsets and orders of save points, solvers, directions and model classes",
  "Tests save one subset on one uniform grid.",
  [N + "odeint.py", N + "sdeint.py", N + "utils.py", "torchdyn/core/problems.py"],
  [("validation and selection", N + "utils.py:save_at_index"), ("collection in the stepping loop", N + "odeint.py:_fixed_odeint"), ("selection with adjoints", "torchdyn/core/problems.py:ODEProblem.odeint")],
  "differential testing of saved against full solutions",
  "random exploration; fixed-step solvers only, adaptive ones document that they ignore save points")

P("C08", "Results do not depend on the history of calls and inputs are never modified",
  "Any sequence of integrations, forward passes, trajectories and backward passes over shared solver, interpolator and model objects gives each call the same result as the same call on freshly built objects. The caller's initial state, times, save points and model parameters keep their values, and evaluation counters count exactly the evaluations performed.",
  ["histories"], "all interleavings of calls with different shapes, grids, directions, solvers and options on shared objects",
  "Tests build fresh objects for each call.",
  [N + "odeint.py", N + "solvers/templates.py", "torchdyn/core/neuralde.py", "torchdyn/core/defunc.py"],
  [("stateless stepping rules", N + "solvers/ode.py"), ("synchronisation of dtypes and devices", N + "solvers/templates.py:sync_device_dtype"), ("preparation before each forward", "torchdyn/core/neuralde.py:_prep_integration")],
  "model-based testing of generated operation histories against fresh objects",
  "random histories of up to ten calls; mixing dtypes on one solver object only to single precision")

P("C09", "Model classes compute what the functional integrator computes",
  "A Neural ODE or ODE problem built from any accepted kind of vector field (function or module, with or without a time argument, with or without extra arguments) returns the same times and values as the functional integrator applied to that field with the same solver, tolerances, times and options, and forwards extra arguments unchanged. The default interval is zero to one, the stored interval is used when none is given, the time output can be switched off for chaining, solver names and their aliases and solver objects are equivalent, and the trajectory equals the forward solution.",
  ["inputs", "configurations"], "all callable kinds, solver names, tolerances, grids, call forms",
  "Tests construct models with one or two callable kinds and check shapes.",
  ["torchdyn/core/neuralde.py", "torchdyn/core/problems.py", "torchdyn/core/utils.py", "torchdyn/core/defunc.py"],
  [("call-signature adaptation", "torchdyn/core/utils.py:standardize_vf_call_signature"), ("wrapping", "torchdyn/core/defunc.py:DEFuncBase,DEFunc"), ("forward and trajectory", "torchdyn/core/neuralde.py:NeuralODE")],
  "differential testing of model classes against the functional API and a reference",
  "random exploration over generated callables and configurations")

P("C10", "Backpropagation through a solver gives the gradient of its result",
  "The gradient obtained by backpropagating any function of the returned solution through the integration equals the derivative of the computed solution with respect to the initial state and to the parameters of the vector field: for fixed-step methods the exact derivative of the textbook recurrence, for adaptive methods the true sensitivity to the accuracy of the tolerances. It covers every requested time, both directions of time, interpolation, and second derivatives.",
  ["inputs"], "all vector fields with parameters, states, grids, solvers, and weightings of the returned values",
  "Tests compare gradients of one loss on one system at loose tolerance.",
  [N + "odeint.py", N + "solvers/ode.py", "torchdyn/core/problems.py"],
  [("differentiable stepping", N + "solvers/ode.py"), ("non-differentiated step size control", N + "utils.py:adapt_step")],
  "differential testing against autograd of an independent implementation",
  "random exploration; implicit Euler is a recorded known finding")

P("C11", "Adjoint sensitivities equal the true gradients",
  "With the adjoint sensitivity method the forward result is the same as without it, and the gradients with respect to the initial state, every parameter (zero for unused ones) and every requested time equal the true gradients of any differentiable function of the returned values to the accuracy of the forward and adjoint tolerances. This holds for time-dependent fields, losses on several times, both directions of time, any pair of forward and adjoint solvers (named or as objects) and save points.",
  ["inputs", "configurations"], "all parametrised fields, batch states, grids, losses over any subset of times, solver pairs and tolerances",
  "Tests compare adjoint with autograd on one system with a terminal loss.",
  [N + "sensitivity.py", "torchdyn/core/problems.py"],
  [("backward integration of the augmented system", N + "sensitivity.py:_gather_odefunc_adjoint")],
  "differential testing of adjoint gradients against an independent differentiable reference",
  "random exploration; tolerance proportional to the solver tolerances")

P("C12", "Interpolated adjoint gradients equal the true gradients",
  "With the interpolated adjoint the forward values at the requested times are those of the plain integration, and the gradients with respect to the initial state and parameters of any differentiable function of the values equal the true gradients to the accuracy of the tolerances and of the stored trajectory. The requested adjoint solver and adjoint tolerances are used for the backward integration, in both directions of time.",
  ["inputs", "configurations"], "all parametrised fields, batch states, grids, losses over any subset of times, solver pairs and tolerances",
  "Tests compare with autograd on one system with a terminal loss.",
  [N + "sensitivity.py"], [("spline of the stored trajectory and backward integration", N + "sensitivity.py:_gather_odefunc_interp_adjoint")],
  "differential testing of gradients against an independent differentiable reference",
  "random exploration; two-dimensional states; spline accuracy bounds the tolerance")

P("C13", "Integral losses are integrated and differentiated along the trajectory",
  "A model with an integral loss and backpropagation carries, in one leading state column, the running integral of the loss along the trajectory while the other columns evolve exactly as without the loss. With the adjoint methods the gradients with respect to initial state and parameters equal those of the terminal function plus the integral of the loss over the trajectory.",
  ["inputs", "configurations"], "all fields, losses depending on time and state, grids, solvers, orders of the equation and sensitivity methods",
  "Tests only check that training with an integral loss runs.",
  ["torchdyn/core/defunc.py", "torchdyn/core/neuralde.py", N + "sensitivity.py"],
  [("augmented field", "torchdyn/core/defunc.py:DEFunc.forward"), ("adjoint source term", N + "sensitivity.py")],
  "comparison with independent quadrature and differentiable references",
  "random exploration")

P("C14", "Parallel-in-time solvers converge to the sequential fine solution",
  "On a uniform grid and an autonomous field, after k iterations a parallel-in-time (parareal or Newton) solver returns the sequential fine solution exactly at the first k+1 shooting points, and at all points once the iterations reach the number of intervals; the Newton variant is exact after one iteration for affine fields. The parareal iterates equal the textbook recurrence for any coarse and fine method, number of fine steps, iteration limit and initial shooting parameters, and the exact solution is a fixed point. The layer class and its gradients agree with the functional solver.",
  ["inputs", "configurations"], "all autonomous fields, states, uniform grids, coarse and fine methods, fine steps, iteration limits and initial guesses",
  "Tests run one field with default settings and a loose tolerance on the final value.",
  [N + "solvers/ode.py", N + "odeint.py", "torchdyn/core/neuralde.py"],
  [("parareal and Newton updates", N + "solvers/ode.py:MSZero,MSBackward,ParallelImplicitEuler"), ("initial guess and dispatch", N + "odeint.py:odeint_mshooting")],
  "differential testing against a textbook parareal / Newton recurrence and the sequential solution",
  "random exploration; non-uniform grids are a recorded known finding")

P("C15", "Symplectic integration is the leapfrog map and conserves its structure",
  "The asynchronous leapfrog method applied to position and velocity computes the textbook drift, reflect, drift step for every position field, grid, batch and time dependence. Integrating back over the reversed times returns to the initial state to rounding, the step has second-order accuracy and the phase space volume of the linearised map is preserved. Fields declared to be of second order are integrated by ordinary fixed or adaptive solvers over exactly the given times, in both directions.",
  ["inputs"], "all fields of the positions, states, grids and directions",
  "Tests run one oscillator and check shapes or loose accuracy.",
  [N + "solvers/ode.py", N + "odeint.py"], [("leapfrog step", N + "solvers/ode.py:AsynchronousLeapfrog"), ("state bookkeeping", N + "odeint.py:odeint_symplectic")],
  "differential testing against a textbook map, exact time reversal and volume preservation",
  "random exploration, fixed-step mode only")

P("C16", "Hybrid integration localises events and applies each jump once",
  "Integrating a hybrid system over a time span and a jump budget follows the flow between events, locates each event within the event tolerance before its condition becomes true, records the state before and after the jump, and applies the jump of the triggering event exactly once per crossing. It never takes more jumps than the budget, visits the requested times, and without events equals the ordinary adaptive integration. If several events trigger together the first in order jumps.",
  ["inputs", "histories"], "all flows with analytically known crossing times (bouncing ball, resets, clocks, threshold switching), several callbacks, tolerances and jump budgets",
  "Tests run one or two hybrid systems and look at the end state.",
  [N + "odeint.py", N + "utils.py"], [("event loop and bisection", N + "odeint.py:odeint_hybrid"), ("event flags", N + "utils.py:EventState")],
  "comparison of generated hybrid histories with analytic event times and an independent simulator",
  "random exploration; crossings separated by more than the step resolution")

P("C17", "Hypersolvers are the base method plus the scaled correction",
  "A hypersolver step equals the step of its base method plus the step size to the power order plus one times the correction network evaluated at the start of the step. With a zero network it is the base method, with the exact residual it gains one order, and gradients reach the parameters of the network.",
  ["inputs"], "all base fields, networks, grids, states and directions",
  "Tests run a hypersolver on one system and check shapes or a loss.",
  [N + "solvers/hyper.py"], [("corrected steps", N + "solvers/hyper.py")],
  "differential testing against base methods",
  "random exploration")

P("C18", "SDE solvers follow their textbook schemes along the given Brownian path",
  "For a given Brownian path and noise that enters componentwise, each stochastic solver computes its textbook recurrence (Euler-Maruyama, Euler-Heun, derivative-free Milstein of Ito and Stratonovich type) on the grid of requested times, uniform or not, with the path increments over exactly the grid intervals. Without diffusion it is Euler's method, with additive noise all schemes add the same increments, results are reproducible for the same path, and returned times and save points follow the same contract as for ordinary equations. Equations of a type the solver does not support are refused.",
  ["inputs", "configurations"], "all drifts and diffusions, grids, Brownian paths, save points, solver types and noise and calculus types",
  "Tests integrate a single geometric Brownian motion on one uniform grid with statistical tolerances.",
  [N + "sdeint.py", N + "solvers/sde.py"], [("schemes and type checks", N + "solvers/sde.py"), ("grid loop", N + "sdeint.py:_fixed_sdeint")],
  "differential testing against textbook recurrences on generated paths",
  "random exploration with generated explicit paths and torchsde paths")

P("C19", "Continuous normalizing flows propagate the exact change of log density",
  "The log-density column of a continuous flow changes at minus the trace of the Jacobian of the state field, while the state columns follow the field itself; the exact estimator equals the trace for every field, and the stochastic estimator equals the noise quadratic form and is exact for diagonal Jacobians with sign noise and on average. Integrating a flow forward gives the log determinant of the flow map, and integrating back cancels it. Noise is sampled once per integration with the batch size of the input.",
  ["inputs"], "all differentiable fields, batches, trace estimators and noise distributions",
  "Tests train or run a flow and check shapes.",
  ["torchdyn/models/cnf.py", "torchdyn/core/neuralde.py"], [("trace estimators and augmented field", "torchdyn/models/cnf.py"), ("noise preparation", "torchdyn/core/neuralde.py:_prep_integration")],
  "comparison with Jacobians and log determinants computed independently",
  "random exploration")

P("C20", "Energy-based fields have the gradient structure of their energy",
  "The gradient flow field is minus the gradient of the energy, the Hamiltonian field is the symplectic gradient, the conservative field is a skew-symmetric matrix times the gradient and the Lagrangian field solves the Euler-Lagrange equations, for every energy, dimension and batch, each sample depending only on itself. Hence energies decrease along gradient flows and are conserved along Hamiltonian, conservative and Lagrangian ones, and the fields are differentiable with respect to the parameters.",
  ["inputs"], "all smooth energies, skew interconnections, dimensions, batches",
  "Tests run the models and check shapes or a loss.",
  ["torchdyn/models/energy.py"], [("field construction by automatic differentiation", "torchdyn/models/energy.py")],
  "comparison with analytic gradients of generated energies and invariants along trajectories",
  "random exploration")

P("C21", "Galerkin layers apply weights expanded in their basis of the depth variable",
  "A Galerkin linear or convolutional layer applies the ordinary layer whose weight and bias are the basis expansion of its coefficients evaluated at the dilated and shifted depth variable, with the bias omitted when disabled, for every basis, degree, size, stride and padding. Basis functions equal their definitions with the configured centres and scales, freshly initialised layers give zero, and output is linear in the coefficients.",
  ["inputs", "configurations"], "all bases, degrees, coefficients, layer sizes, depth values and inputs",
  "Tests build layers and check shapes.",
  ["torchdyn/nn/galerkin.py"], [("basis functions and weight expansion", "torchdyn/nn/galerkin.py")],
  "differential testing against an independent expansion",
  "random exploration on the basis grids the layer uses")

P("C22", "State augmentation, depth concatenation and data control do only that",
  "Augmentation places zeros or the result of the augmenting function before or after the data along the chosen dimension and leaves the data unchanged. Depth concatenation appends the current time at the chosen dimension, and data control appends the initial condition of the current integration; inside a model they always see the time of the current evaluation and the current integration's initial state, also when integrals are carried along and across repeated calls.",
  ["inputs", "histories"], "all shapes, dimensions, orders, augmenting functions, sequences of integrations and solvers",
  "Tests check output shapes of single layers.",
  ["torchdyn/nn/node_layers.py", "torchdyn/core/defunc.py", "torchdyn/core/neuralde.py"],
  [("layers", "torchdyn/nn/node_layers.py"), ("time assignment", "torchdyn/core/defunc.py:DEFunc.forward"), ("control assignment", "torchdyn/core/neuralde.py:_prep_integration")],
  "differential testing of models with the layers against explicit fields",
  "random exploration")

P("C23", "Higher-order equations are integrated as their first-order form",
  "A model of order n over a state that stacks the variable and its first n-1 derivatives evolves each block by the next one and the last by the given field of the full state, for every order, width, batch, solver, direction and sensitivity method. Time, extra arguments and integral losses are passed on as for first-order models.",
  ["inputs", "configurations"], "all fields, orders, widths, solvers, sensitivities",
  "Tests run one second-order model and check shapes.",
  ["torchdyn/core/defunc.py", "torchdyn/core/neuralde.py"], [("block shift", "torchdyn/core/defunc.py:higher_order_forward")],
  "differential testing against an explicit first-order system",
  "random exploration")

P("C24", "Toy datasets have the documented sizes, labels and geometry",
  "Each dataset generator returns the documented number of samples of the documented dimension, with class labels that partition the samples as documented and points that, without noise, lie exactly on the documented shapes (spheres of the two radii, half-moon arcs, mirrored spirals, Gaussians centred on a circle or spiral). Noise only perturbs the points with the requested scale, the dispatcher equals the direct calls, and results are reproducible for a fixed random seed.",
  ["inputs", "configurations"], "all sample counts (odd ones included), dimensions, radii, noise levels, class counts, seeds",
  "Tests generate each dataset once with default sizes.",
  ["torchdyn/datasets/static_datasets.py"], [("generators and dispatcher", "torchdyn/datasets/static_datasets.py")],
  "generated parameters against geometric predicates",
  "random exploration; statistical facts only with wide deterministic margins")

P("C25", "Root finding reaches roots with updates satisfying the secant equation",
  "The root finder solves batches of equations independently: for affine systems a full step reaches the root, and for well-conditioned systems the result satisfies the requested termination tolerances. Each Broyden update makes the inverse Jacobian approximation satisfy the secant equation for the latest step and differ from the previous one by a matrix of rank one. Line searches only accept points that do not increase the residual, or report the smallest step size.",
  ["inputs"], "all affine and mildly nonlinear batched systems, start points, damping, tolerances, methods and line searches",
  "Tests find the root of one function.",
  [N + "solvers/root.py"], [("Broyden updates, line searches, termination", N + "solvers/root.py")],
  "algebraic oracles (secant equation, rank one), generated systems with known roots",
  "random exploration; well-conditioned systems")

P("C26", "Benchmark systems implement their published equations",
  "The built-in benchmark systems evaluate their published equations (Lorenz, Van der Pol, Rabinovich-Fabrikant, exponential growth and decay, linear and Fourier systems) for every state, time and batch shape, each sample independently of the others. Randomising a system changes its parameters but keeps its dimension, and batched times give the same rows as single times.",
  ["inputs"], "all states, times, batch shapes, dimensions and seeds",
  "Tests use the systems only as inputs of other tests.",
  [N + "systems.py"], [("vector fields", N + "systems.py")],
  "differential testing against independent formulas",
  "random exploration")

P("C27", "Batch elements do not influence each other",
  "With fixed-step methods, solving a batch gives for each element exactly the solution of that element alone, and permuting the batch permutes the solution, for every entry point and layer. With adaptive methods the elements share step sizes, so equality holds to the accuracy of the tolerances, replicating one element gives that element's own solution, and permuting the batch still permutes the solution.",
  ["inputs"], "all fields acting per sample, batches, permutations, solvers and model classes",
  "Tests never compare batch with single-element results.",
  [N + "odeint.py", "torchdyn/core/defunc.py"], [("elementwise stepping, norm over the whole state", N + "odeint.py, utils.py:hairer_norm")],
  "metamorphic relations over batch splits, replication and permutations",
  "random exploration")

P("C28", "Models survive copying, serialisation and state loading unchanged",
  "Saving and loading a model's state dictionary, deep-copying it, pickling it or moving it between dtypes gives a model with the same parameters and the same outputs and gradients; copies are independent, so training one does not change the other. Registered optimisable parameters are part of the state and are trained.",
  ["histories", "configurations"], "all model kinds, sensitivity methods, and sequences of forward passes, training steps, copies and reloads",
  "Tests do not copy or reload models.",
  ["torchdyn/core/problems.py", "torchdyn/core/neuralde.py", "torchdyn/core/defunc.py"], [("module structure and parameter registration", "torchdyn/core/problems.py:ODEProblem")],
  "generated life-cycle histories compared with a reference model",
  "random exploration; picklable vector fields")

P("C29", "Neural SDEs compute what the functional SDE integrator computes",
  "A Neural SDE built from drift and diffusion of any accepted form returns the same values as the functional stochastic integrator on the same Brownian path, with the stored or given time span, the time output switchable, the trajectory equal to the forward solution, save points honoured, and gradients equal to those of the textbook recurrence. Orders above one are refused.",
  ["inputs", "configurations"], "all drift and diffusion callables, solvers, grids, paths",
  "Tests check shapes on one configuration.",
  ["torchdyn/core/neuralde.py", "torchdyn/core/problems.py", "torchdyn/core/defunc.py"], [("model class", "torchdyn/core/neuralde.py:NeuralSDE"), ("drift and diffusion adaptation", "torchdyn/core/defunc.py:SDEFunc")],
  "differential testing against textbook recurrences on the same path",
  "random exploration")

P("C30", "Hybrid sequence models alternate jumps and flows over the sequence",
  "A hybrid sequence model starts from a zero latent state, for each element of the sequence applies the jump cell to the element and the latent state and then the flow, and returns the output map of the last or of all latent states in processing order, consuming the sequence backwards when reversed. Cells with an additional memory carry it from element to element; batch elements do not influence each other and a prefix of a sequence gives the prefix of the outputs.",
  ["inputs", "configurations"], "all sequences, batches, cells (recurrent, gated, with memory), flows, directions and output modes",
  "No test runs these models.",
  ["torchdyn/models/hybrid.py"], [("sequence loop", "torchdyn/models/hybrid.py:HybridNeuralDE")],
  "differential testing against an explicit loop",
  "random exploration")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, tech, note in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "vf", "props", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd=f"./run.py {i} --tier quick", thorough_cmd=f"./run.py {i} --tier thorough",
                               technique="property-based testing: " + tech, level="exploration", level_note=note))
        else:
            na.append(dict(property=i, reason="check under construction"))
    m = dict(version=1, setup_cmd="./run.py --selfcheck", checks=checks, not_applicable=na,
             notes="Hypothesis generates plain-data cases; vf/core.py runs, shrinks and records them. No hooks in /repo are needed.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
    print(len(checks), "checks,", len(na), "not claimed")

    # facet table and catch matrix of DESIGN.md
    import re
    d = open(os.path.join(ROOT, "DESIGN.md")).read()
    rows = []
    for p, _, _ in PROPS:
        src = open(os.path.join(ROOT, "vf", "props", p["id"].lower() + ".py")).read()
        rows.append(f"\n**{p['id']} {p['title']}**\n")
        for g in re.finditer(r'^@F\.facet\((.*?)\)\ndef (\w+)\(case, ctx\):\n(?:    "(.*?)"\n)?', src, re.S | re.M):
            q = re.search(r"quick=(\d+), thorough=(\d+)", g.group(1))
            rows.append(f"* `{g.group(2)}` ({q.group(1)} / {q.group(2)} cases){': ' + g.group(3) if g.group(3) else ''}")
    d = d[:d.index("<!-- FACETS -->")] + "<!-- FACETS -->\n" + "\n".join(rows) + "\n"
    cat = os.path.join(ROOT, "tools", "catch.md")
    if os.path.exists(cat):
        a = d.index("<!-- CATCH -->")
        b = d.index("## 7.")
        d = d[:a] + "<!-- CATCH -->\n\n" + open(cat).read() + "\n" + d[b:]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
