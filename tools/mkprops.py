import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S="src/bijx/"
p("C01","Buffered sampling hands out every pre-computed draw once, in order",
 "Single-sample requests to a buffered sampler return, in order and each exactly once, the draws (with their own log densities) of a batch of the configured size produced by the wrapped distribution, and a new batch is produced, with the key and arguments of that request, only by the request that finds all earlier draws handed out. Batch requests and density evaluations go to the wrapped distribution and leave the pending draws untouched. This holds in eager code, under jit, inside scans and after splitting, cloning or checkpointing the sampler.",
 ["histories","schedules","configurations"],"every interleaving of single draws, batch draws, density evaluations, key choices, execution modes, clones and checkpoints; every buffer size and wrapped distribution, including pytree-valued ones",
 "The tests draw a handful of samples with one buffer size and only check that consecutive draws differ; they never identify which pre-computed draw was returned.",
 [S+"samplers.py"],[("refill or advance, then index into the buffer",S+"samplers.py BufferedSampler.sample")],
 [("buffer","pre-computed draws and log densities",S+"samplers.py BufferedSampler.buffer"),("buffer_index","position of the next draw",S+"samplers.py BufferedSampler.buffer_index")],
 ["BufferedSampler.sample return values","nnx state of the sampler"])
p("C02","A failed or interrupted buffered draw never yields garbage or repeated draws",
 "If a request to a buffered sampler fails or is interrupted at any point (the wrapped distribution raises, the process is interrupted or crashes and restarts from a checkpoint), every later successful request still returns a genuine draw of the wrapped distribution with its matching log density, never uninitialised memory and never a draw that was already handed out since the restored state. At most the draws of the interrupted request's batch are lost, and once faults stop the next request succeeds.",
 ["crash_points","fault_sequences","histories"],"every instruction boundary of a request at which it may be interrupted, every subset of requests that fail, every checkpoint/restore placement, every buffer size",
 "No test makes the wrapped distribution fail or interrupts a draw.",
 [S+"samplers.py"],[("order in which the buffer and its index are replaced",S+"samplers.py BufferedSampler.sample")],
 [("buffer/buffer_index","must change together",S+"samplers.py")],["values returned after recovery"])
p("C03","Every Metropolis-Hastings step follows the acceptance rule in every history",
 "In every chain history an independent Metropolis-Hastings step accepts its proposal exactly when the step's uniform draw lies below min(1, p(x')q(x)/(p(x)q(x'))), reports that probability, decision and proposal, and moves to the proposal, or else keeps the previous state bit for bit. The stored target and proposal log probabilities always belong to the stored position; a proposal whose target or ratio is NaN or has zero probability is never accepted, and a faulty proposal never corrupts later steps. The uniform draw is independent of the proposal's randomness and the same in eager, jitted, scanned and vectorised execution.",
 ["histories","fault_sequences","schedules"],"every sequence of proposals, targets (including NaN and infinite values), uniforms (including 0 and values next to 1), execution modes, chain checkpoints, and stateful (buffered) proposal samplers",
 "There is no test of the MCMC module beyond import-level use; acceptance is random, so a handful of seeds cannot separate the right rule from a wrong one.",
 [S+"mcmc.py",S+"samplers.py"],[("Metropolis ratio and branch",S+"mcmc.py IMH.step"),("proposal construction",S+"mcmc.py IMH.propose")],
 [("IMHState","position with cached log probabilities",S+"mcmc.py IMHState")],["IMH.step results"])
p("C04","Checkpoint and restart reproduce the uninterrupted history exactly",
 "All state that influences later results (parameters, buffered draws, buffer position, random streams, chain states) is part of the module state that nnx exposes. Saving it at any moment, crashing, rebuilding the objects from their constructors with different initial randomness and restoring the last intact checkpoint continues with exactly the results an uninterrupted run would have produced from that moment. Torn or lost checkpoint writes only move the resume point back.",
 ["crash_points","histories","fault_sequences"],"every crash point between or inside operations, every placement of checkpoints and of lost or torn checkpoint writes, every kind of distribution, flow, sampler and chain",
 "Tests split and merge a few freshly built modules once; none saves, crashes, rebuilds and continues.",
 [S+"samplers.py",S+"distributions.py",S+"mcmc.py",S+"bijections/coupling.py",S+"bijections/continuous.py",S+"bijections/base.py",S+"utils.py"],
 [("state kept in nnx variables and data leaves",S+"samplers.py, "+S+"bijections/*"),("graph/state split of stored modules",S+"bijections/continuous.py ContFlowDiffrax, "+S+"distributions.py MixtureStack")],
 (),["nnx.state / nnx.update","results after restore"])
p("C05","Explicit keys are pure, implicit draws advance one stream, none is reused",
 "Sampling with an explicit key (except single draws of a buffered sampler, which come from its buffer) is a pure function of that key and the parameters: it neither reads nor advances the object's own random stream nor changes any state, so repeating it at any later time gives the same result. Sampling without a key advances the object's stream so that the sequence of implicit results is unaffected by interleaved explicit draws and density evaluations, and an object with neither key nor stream raises an error. Different keys, different implicit draws, different components of one draw, and different users of a shared stream never see the same randomness twice.",
 ["histories","schedules"],"every interleaving of explicit and implicit draws by several clients sharing distributions and streams, all distribution kinds and compositions, eager and jitted execution",
 "Tests compare two draws per distribution with fixed keys; they do not interleave clients or check what happens to the stream.",
 [S+"distributions.py",S+"samplers.py",S+"lie.py",S+"utils.py",S+"mcmc.py"],
 [("key selection",S+"distributions.py Distribution._get_rng"),("stream shared with the prior",S+"samplers.py Transformed/BufferedSampler"),("stripping hidden streams",S+"distributions.py MixtureStack.__init__"),("key splitting",S+"distributions.py MixtureStack, "+S+"mcmc.py IMH.step")],
 [("rngs","random stream with its counter",S+"distributions.py Distribution.rngs")],["samples","RngCount state","keys seen by jax.random"])
p("C06","Results do not depend on how requests are scheduled, grouped or executed",
 "The forward and reverse results of a bijection and the log density of a distribution for one item do not depend on which other items were processed before, after or together with it: processing items one by one, in batches of any shape and order, under jit, vmap or scan, or with state split off and merged back gives the same values and shapes. Log densities have exactly the batch shape, per-item initial log densities are carried through additively, and per-item parameters or keyword arguments reach the items they belong to.",
 ["schedules","configurations","histories"],"every grouping and ordering of outstanding requests into batches, every execution mode, every kind of bijection and distribution and their compositions",
 "Tests use one batch shape per bijection, usually without jit, and never compare the same item across groupings and modes.",
 [S+"bijections/scalar.py",S+"bijections/coupling.py",S+"bijections/base.py",S+"bijections/splines.py",S+"bijections/radial.py",S+"bijections/meta.py",S+"bijections/fourier.py",S+"bijections/continuous.py",S+"distributions.py",S+"samplers.py",S+"utils.py"],
 [("event/batch separation",S+"utils.py ShapeInfo, "+S+"bijections/scalar.py sum_log_jac"),("automatic vectorisation",S+"bijections/coupling.py AutoVmapReconstructor"),("scan over stacked layers",S+"bijections/base.py ScanChain")],
 (),["forward/reverse/log_density results"])
p("C07","Shared objects are safe to use from concurrent and nested callers",
 "Forward, reverse, density and explicitly keyed sampling calls on objects shared by several threads, preempted anywhere, return exactly what each would return if executed alone, also when a call is entered again from a callback of another call. No call changes the module's state, its parameters, or the arrays, lists and dictionaries its caller passed in, so changing a parameter between calls is always visible to the next call.",
 ["schedules","histories"],"every preemption of concurrent callers at any statement of the library, every nesting of callbacks, every mix of operations, parameter changes between calls, NumPy and JAX inputs",
 "No test uses more than one thread, re-entrancy, or checks that inputs and module state are left alone.",
 [S+"bijections/coupling.py",S+"bijections/base.py",S+"bijections/meta.py",S+"bijections/continuous.py",S+"samplers.py",S+"distributions.py",S+"utils.py"],
 [("modules rebuilt per call instead of mutated",S+"bijections/coupling.py ModuleReconstructor"),("copying of keyword defaults",S+"bijections/meta.py Partial"),("copied shape information",S+"utils.py ShapeInfo")],
 (),["results per thread","nnx state before/after","caller's arrays before/after"])
p("C08","A failing or interrupted call leaves every object as it was",
 "When a user-supplied part (vector field, conditioning network, bijection inside a chain, target density, base distribution) raises, or the process is interrupted at any point inside a library call, the error reaches the caller unchanged and the object's parameters and configuration are exactly as before the call, except that an implicit random stream may have advanced. Every later call on the same objects returns what it would have returned without the failure.",
 ["fault_sequences","crash_points","histories"],"every call, every instruction boundary inside it, every invocation of a user callback, chosen as the point of failure; any number of failures in one history",
 "Tests check a few argument errors but never fail a callback mid-computation or use the object afterwards.",
 [S+"bijections/base.py",S+"bijections/coupling.py",S+"bijections/continuous.py",S+"bijections/radial.py",S+"samplers.py",S+"mcmc.py",S+"distributions.py",S+"solvers.py",S+"cg.py"],
 [("no in-place changes before user code returns",S+"bijections/*.py"),("nnx.cond around the stateful base distribution",S+"samplers.py BufferedSampler.sample")],
 (),["nnx state after the failure","later results"])
p("C09","Continuous flows can be stopped, restarted and reversed at any time",
 "Integrating a continuous flow from a start to an end time gives, within the solver's accuracy, the exact solution of the given vector field and its accumulated log-density change, for any start, end, direction and step count, configured or overridden per call. Stopping at any intermediate times and restarting from the saved state gives the same result as the uninterrupted run, and running back over the same interval, with the same overrides, recovers the starting point and log density. The vector field is only evaluated at times inside the requested interval and receives the call's keyword arguments.",
 ["histories","crash_points","configurations"],"every sequence of stop, checkpoint, crash, restart, continue and reverse, at every intermediate time, all solvers (Runge-Kutta, Crouch-Grossmann, diffrax), intervals of any length and direction, time-dependent fields",
 "Tests integrate over the default unit interval once; they do not segment, override or use intervals of other lengths.",
 [S+"bijections/continuous.py",S+"solvers.py",S+"cg.py"],
 [("time mapping of the fixed-step solver",S+"bijections/continuous.py ContFlowRK4.solve_flow"),("bounded last step",S+"solvers.py odeint_rk4, "+S+"cg.py _bounded_next_time"),("overrides",S+"solvers.py DiffraxConfig.optional_override")],
 (),["final states and log densities","times at which the vector field is called"])
p("C10","Gradients through interrupted integrations equal those of the exact flow",
 "Differentiating a loss of a continuous flow's final state and log density with respect to the initial state, the vector-field parameters, extra arguments and (for the solver functions) the end times gives the derivative of the exact flow within solver accuracy, whether the integration is run in one piece or is stopped, saved and restarted at arbitrary times with the cotangents carried back segment by segment. This holds for Euclidean and matrix-group states, forwards and backwards in time.",
 ["histories","crash_points","configurations"],"every segmentation of the interval, every direction, solvers with custom adjoints and diffrax, time-dependent fields with parameters in modules, closures and arguments",
 "Tests check gradients on single default-interval solves of one or two fields.",
 [S+"solvers.py",S+"cg.py",S+"bijections/continuous.py"],
 [("adjoint integration backwards in time",S+"solvers.py _rk4_odeint_rev, "+S+"cg.py _crouch_grossmann_rev")],(),["gradients"])
p("C11","Group-valued flows stay on the group over long interrupted runs",
 "A matrix-group state integrated with the group integrator remains in the group (unitary, unit determinant when special) to rounding accuracy after arbitrarily many steps, stops, restarts and reversals, and follows the true group flow with the convergence order of the chosen scheme. With projection enabled, a state perturbed by storage or rounding errors is brought back to the group, and group samples drawn with any randomness are exact group elements with invariant distribution.",
 ["histories","fault_sequences","configurations"],"every length and segmentation of a run, every scheme and projection option, bit-level perturbations of saved states, every random draw",
 "Tests run one short trajectory per scheme and sample with a few keys.",
 [S+"cg.py",S+"lie.py",S+"bijections/continuous.py"],
 [("exponential update",S+"cg.py _matrix_reduce"),("projection",S+"cg.py Unitary.project"),("Haar transform",S+"lie.py _haar_transform")],(),["unitarity and determinant defects","reference trajectories"])
p("C12","Stochastic integration is driven exactly by its key's increments",
 "A stochastic solve depends on randomness only through its key: the same key gives the same path whatever ran before, and different keys give independent paths. For the default scheme each step adds drift times the time step plus diffusion times the (optionally transformed) Brownian increment of exactly that step, over the configured interval and step size in either configured save mode. Over many keys, increments have mean zero and variance equal to the step length.",
 ["schedules","histories","configurations"],"every realisation of the Brownian increments, every interval, step size, save grid, drift, diffusion and noise transform; repeated and interleaved solves",
 "Tests check shapes and finiteness plus one seed's determinism.",
 [S+"solvers.py"],[("diagonal noise term and transform",S+"solvers.py DiffraxConfig.solve_sde"),("solver choice",S+"solvers.py DiffraxConfig.solve_sde")],(),["solution paths","increments requested from the Brownian path"])
p("C13","A sample's reported log density is its true density for every random outcome",
 "For every outcome of the underlying randomness, the log density a distribution or flow reports together with a sample equals the density it evaluates for that sample, and equals the density implied by the sampling map itself: the base density of the random draw corrected by the local volume change of the map from draw to sample. Samples and log densities have the batch and event shapes requested, component choices in mixtures follow the normalised weights, and keyword arguments affect sampling and evaluation alike.",
 ["schedules","inputs","configurations"],"every realisation of the random draws (typical, extreme and boundary), all distributions and flows over them, parameters reached by training, batch shapes and keyword arguments",
 "Tests draw a few samples with default parameters and compare only against the library's own density.",
 [S+"distributions.py",S+"samplers.py",S+"bijections/scalar.py",S+"bijections/fourier.py",S+"bijections/splines.py",S+"bijections/coupling.py",S+"bijections/radial.py",S+"bijections/analytic.py",S+"lie.py"],
 [("change of variables",S+"samplers.py Transformed"),("affine sampling maps",S+"distributions.py MultivariateNormal, DiagonalNormal"),("log-Jacobians",S+"bijections/*.py")],(),["sample() and log_density()"])
p("C14","Sessions can reverse on any replica what was forwarded on any other",
 "A value sent forward through a flow and later reversed, possibly by another copy of the flow restored from a checkpoint, in another batch, another execution mode and after arbitrary other requests, comes back to the original value, and the log-density changes of the two directions cancel. The same holds for reversing first and forwarding later, for inverted, conditionally inverted, chained, stacked, frozen, partially applied and reshaped compositions, which equal the composition of their parts.",
 ["histories","schedules","crash_points"],"every interleaving of forward and reverse requests over replicas, batches, modes, crashes and restarts, all bijections and compositions, inputs in the interior and in the tails of the domain",
 "Tests do immediate round trips of single bijections at a few inputs, on the same object in eager mode.",
 [S+"bijections/base.py",S+"bijections/scalar.py",S+"bijections/meta.py",S+"bijections/coupling.py",S+"bijections/splines.py",S+"bijections/analytic.py",S+"bijections/radial.py",S+"bijections/fourier.py",S+"flowjax.py"],
 [("order of application",S+"bijections/base.py Chain/ScanChain"),("direction swap",S+"bijections/base.py Inverse/CondInverse"),("mask split/merge",S+"bijections/coupling.py BinaryMask")],(),["round-trip values and log densities"])
p("C15","Training changes exactly the trainable parameters and calls see the latest",
 "In any training history, gradient updates, noise injection and restoring earlier parameters change only parameters selected as trainable: constants and frozen parts keep their exact values, and selecting trainable parameters covers all others. Every call evaluates with the parameters current at that moment, also for stacked, reconstructed, mixed and continuous-flow modules that store their parts split, and after skipped updates with invalid gradients.",
 ["histories","fault_sequences"],"every interleaving of gradient steps, noise injections, freezes, rollbacks, invalid-gradient faults and evaluations on all module kinds",
 "Tests check filters on freshly constructed modules, not across a training history.",
 [S+"utils.py",S+"bijections/base.py",S+"bijections/continuous.py",S+"distributions.py",S+"bijections/fourier.py",S+"bijections/coupling.py"],
 [("constant and frozen filters",S+"utils.py Const, FrozenFilter"),("noise injection",S+"utils.py noise_model"),("modules stored split",S+"bijections/continuous.py ContFlowDiffrax, "+S+"distributions.py MixtureStack")],(),["parameter values","evaluations after updates"])
# ---- pure functions of their input: not claimed
p("C16","Lie-group calculus and lattice gauge quantities are exact and gauge invariant",
 "Group gradients, tangent projections and traces agree with their definitions, and actions and observables of lattice gauge fields are invariant under gauge and lattice symmetries.",
 ["inputs"],"every group element, field configuration and function","Tests use a few random configurations.",
 [S+"lie.py",S+"lattice/gauge.py"],[("group gradients",S+"lie.py"),("loop observables",S+"lattice/gauge.py")])
p("C17","Scalar lattice actions and observables match their definitions",
 "Actions, correlators and susceptibilities of scalar fields equal their definitions for every field and are invariant under lattice symmetries.",
 ["inputs"],"every field configuration and parameter","Tests use a few random fields.",[S+"lattice/scalar.py",S+"lattice/general.py"],[("action",S+"lattice/scalar.py")])
p("C18","Symmetric convolutions are equivariant and feature maps are as specified",
 "Orbit-shared convolution kernels commute with the symmetry group and nonlinear feature maps and embeddings equal their formulas with correct divergences.",
 ["inputs","configurations"],"every kernel, input and symmetry","Tests check a few inputs and groups.",[S+"nn/conv.py",S+"nn/features.py",S+"nn/embeddings.py",S+"bijections/conv_cnf.py"],[("orbit kernels",S+"nn/conv.py")])
p("C19","Fourier representations convert losslessly",
 "Converting real fields between all Fourier representations and back is lossless and independent components are counted correctly.",
 ["inputs"],"every field and shape","Tests use a few shapes.",[S+"fourier.py"],[("representation conversion",S+"fourier.py FourierData.to")])
p("C20","Statistics and shape utilities equal their definitions",
 "Effective sample size, reverse KL, moving averages and shape inference equal their definitions for all inputs.",
 ["inputs"],"every input","Tests use a few inputs.",[S+"utils.py"],[("estimators",S+"utils.py")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
