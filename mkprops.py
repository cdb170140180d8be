"""One-off generator of properties.jsonl (kept so that the wording has one source)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=s) for s in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
SB="enterprise/signals/signal_base.py"; GP="enterprise/signals/gp_signals.py"; WS="enterprise/signals/white_signals.py"
DS="enterprise/signals/deterministic_signals.py"; PA="enterprise/signals/parameter.py"; UT="enterprise/signals/utils.py"
GB="enterprise/signals/gp_bases.py"; PS="enterprise/pulsar.py"; PI="enterprise/pulsar_inflate.py"; SE="enterprise/signals/selections.py"
GPR="enterprise/signals/gp_priors.py"

prop("C01","Likelihood and prior depend only on the parameters, never on the history",
 "Whatever sequence of evaluations has been made before on a model (by one or many interleaved samplers, moving one, several or no parameters, passing vectors or dictionaries that they may modify in place between calls), each evaluation of its log-likelihood, log-prior and signal delays returns the value that the exact Gaussian model declared by its signals has at the parameters given, the same as a model built afresh. The value does not depend on which of the documented algorithms computes it: kernel or basis ECORR and its solvers, explicit or marginalised timing model, sparse or dense Cholesky, and the methods of inverting the coefficient covariance.",
 ["histories","inputs","configurations"],
 "all finite histories of evaluations by interleaved clients, over all combinations of the white-noise, Gaussian-process, common-process, timing-model and deterministic signals of the library, and all parameter values for which the covariance is well conditioned",
 "The tests evaluate each signal at one or two parameter points on a fresh object; the two-entry caches, the size-one caches with side effects, identity memos, aliased work arrays and the reused symbolic factorisation only matter on the third and later evaluations and when clients interleave.",
 [SB,GP,WS,DS,UT,SE,GB,GPR],
 [("result caches keyed by parameter values","signal_base.cache_call"),("identity memo","signal_base.simplememobyid"),("reused sparse factorisation","signal_base.LogLikelihood"),("per-pulsar assembly of noise, basis, prior","signal_base.SignalCollection"),("coefficient-covariance assembly and inversion","signal_base.PTA.get_phi, get_phiinv_*"),("basis built by side effect","gp_signals.BasisGP, BasisCommonGP"),("white-noise kernels","white_signals.EcorrKernelNoise, signal_base.ShermanMorrison, BlockMatrix, csc_matrix_alt"),("marginalised timing model","gp_signals.MarginalizingNmat")],
 ["per-signal and per-pulsar result caches","cached basis, labels and prior matrix of each Gaussian process","cached Cholesky factor"],
 ["PTA.get_lnlikelihood","PTA.get_lnprior","PTA.get_delay"])

prop("C02","A failed or interrupted evaluation never corrupts later results",
 "When an evaluation of a model is stopped at any point by an exception (from a user-supplied function, a numerical routine, a failed allocation or a keyboard interrupt), the caller gets that exception, or the correct value, or minus infinity if a matrix factorisation failed; never a wrong number. Every later evaluation on the same model, at the same or any other parameters, again returns the correct value, without the model having to be rebuilt.",
 ["fault_sequences","crash_points","histories"],
 "all points, in all evaluations of any history, at which a call made by the library to numerical routines or user functions can fail or be interrupted, and all sequences of such failures",
 "No test injects a failure into an evaluation; the state left behind (half-updated caches, partly overwritten basis, half-factorised matrix) depends on the exact instruction that failed and on what was cached before.",
 [SB,GP,WS,DS,UT],
 [("result caches","signal_base.cache_call"),("basis built by side effect","gp_signals.BasisGP._construct_basis"),("factorisation reuse and failure handling","signal_base.LogLikelihood.__call__"),("lazy column combination","signal_base.SignalCollection")],
 ["caches filled before, during and after the failing call"],["PTA.get_lnlikelihood after a failure"])

prop("C03","Constants set on a model take effect at the next evaluation",
 "After fixed parameters of a model are assigned through its interface for setting default values, at any moment and any number of times between evaluations, every following evaluation of the likelihood, delays and prior uses the values assigned last, exactly as if the model had been built with them. Values assigned for names the model does not contain, and varying parameters, have no effect.",
 ["histories","inputs"],
 "all interleavings of assignments of constants and evaluations on one model, for constants anywhere in it (white noise, priors, bases, deterministic signals, shared between pulsars)",
 "The tests set the constants once, before anything has been evaluated, so stale cached values cannot show.",
 [SB,PA,GP,WS],
 [("setting defaults","PTA/SignalCollection/Signal.set_default_params"),("cache keys that hold only varying parameters","signal_base.cache_call"),("constant lookup","parameter.Function.__call__, Signal.get")],
 ["values of constant parameters","result caches"],["PTA.get_lnlikelihood, get_delay"])

prop("C04","Models that share pulsars and signal descriptions are isolated",
 "Building, evaluating, sampling from or discarding one model never changes the results of another model built from the same pulsars, signal descriptions, selections or parameter objects, in whatever order the models and their per-pulsar parts are created and used. No operation on a model modifies the data of the pulsars, the parameter values passed in, or the arguments the model was built from.",
 ["schedules","histories","configurations"],
 "all orders of construction and interleaved use of several models over shared pulsars, signal classes, selection functions and parameter instances",
 "Each test builds its models in one fixed order and looks at one of them; class-level state, closures that rebind their arguments and shared work arrays show only for other orders and with two live models.",
 [SB,GP,SE,PA,WS,DS],
 [("class factories with class-level state","gp_signals.BasisCommonGP, FourierBasisCommonGP"),("selection closures","selections.custom_backends, by_freq_band"),("shared parameter instances","parameter.Parameter"),("views of pulsar arrays held by models","signal_base.SignalCollection")],
 ["class attributes of generated signal classes","closure variables of selections"],["PTA.get_lnlikelihood of the other models","pulsar arrays"])

prop("C05","Shared pulsars read back bit-identical in every process until destroyed",
 "Once a pulsar has been moved to shared memory and handed to other processes, every process that inflates it, in any order and however the creator and other users exit or are killed, sees exactly the data of the original pulsar, until one process destroys it. After destruction no process can inflate it any more (it gets an error, not other data), while processes that had already inflated it keep their data.",
 ["schedules","crash_points","histories"],
 "all interleavings of one creator, any number of users and one destroyer, their normal or violent termination at any point, and both ways of sharing the system's shared-memory bookkeeping process",
 "The only test needs an uninstalled timing package, uses one process and one order; what happens when a process exits depends on the bookkeeping process that Python starts per process tree.",
 [PI,PS],
 [("copy to a shared segment","pulsar_inflate.PulsarInflater.__init__"),("attach","PulsarInflater.inflate"),("detach from automatic clean-up","resource_tracker.unregister"),("life-cycle state","Tempo2Pulsar.deflate/inflate/destroy")],
 ["shared-memory segments","registrations with the resource tracker","deflated/inflated state of each copy"],["attributes of the pulsar in each process","existence of the segments"])

prop("C06","Failed sharing operations are atomic, and destruction leaves nothing behind",
 "A deflate or inflate that fails for lack of a system resource raises an error, leaves that pulsar object in the state and with the data it had, leaks nothing, and succeeds when repeated once the resource is available. After a successful destroy (repeated if an attempt failed) none of the shared memory the pulsar ever used remains, and no operation of the life cycle leaves segments, mappings or file descriptors behind once the objects that need them are gone.",
 ["fault_sequences","crash_points","histories"],
 "all sequences of life-cycle operations with a failure of any one system call (creating, sizing, opening, mapping, unlinking) inside any of them",
 "Tests never make a system call fail, and leaks have no effect on values.",
 [PI,PS],
 [("all-or-nothing replacement of attributes","Tempo2Pulsar.deflate, inflate"),("clean-up of partly created segments","pulsar_inflate.PulsarInflater"),("repeatable destroy","PulsarInflater.destroy")],
 ["shared-memory namespace","open descriptors and mappings"],["errors raised and pulsar attributes after them","segments that exist"])

prop("C07","Arrays obtained from an inflated pulsar stay valid while referenced",
 "Every array, view, slice or transformed copy obtained from an inflated pulsar keeps its contents for as long as the program holds it, even after the pulsar object has been deleted, garbage collected, pickled or destroyed by another process; access to it never touches unmapped memory. When the last such array is gone its memory mapping is released.",
 ["histories","schedules"],
 "all ways of deriving arrays (views, slices, transposes, field access, conversions to plain arrays, models that keep data) and all orders of deleting the owners and collecting garbage",
 "Reading unmapped memory usually still works by luck or kills the test process; tests keep the pulsar alive throughout.",
 [PI,PS],
 [("array that owns its shared memory","pulsar_inflate.memmap"),("attribute access through sorting","BasePulsar properties"),("attach","PulsarInflater.inflate")],
 ["mappings and the arrays that point into them"],["contents of arrays after their owner is gone"])

prop("C08","All per-TOA data stay aligned through any sequence of operations",
 "After any sequence of loading, sorting, time filtering, setting flags, pickling, exporting to feather and moving to and from shared memory, entry i of every per-TOA quantity of a pulsar (times, observatory times, residuals, errors, frequencies, design-matrix rows, flags and backends, telescope, planet, Sun and pulsar positions) belongs to one and the same observation, and each observation keeps the values it had. The observations present are exactly those that the filters keep, in time order if sorting is requested and in the original order otherwise, and the list of fitted parameters names the design-matrix columns, of which exactly those without any effect on the data kept are dropped by a filter.",
 ["histories","inputs","configurations"],
 "all finite sequences of these operations on pulsars with any order of observations, ties in time, flag layouts, and with sorting and planets switched on or off",
 "The tests check single attributes on one data set that is already in time order, where a missing or doubled permutation has no effect.",
 [PS,PI],
 [("sorting indices","BasePulsar.sort_data and the properties that apply them"),("filtering","BasePulsar.filter_data"),("flag setting","BasePulsar.set_flags"),("export and import","FeatherPulsar.save_feather, read_feather, BasePulsar.to_pickle"),("loading from the timing package","Tempo2Pulsar.__init__, PintPulsar.__init__")],
 ["raw arrays and sorting indices"],["public attributes of the pulsar"])

prop("C09","A saved pulsar reads back equal, a failed save never reads back as another",
 "When saving a pulsar (to a pickle or feather file) returns without an error, loading that file gives a pulsar with equal per-TOA data, flags, position, distance, dispersion data and noise dictionary entries for that pulsar. When saving fails or is cut short by a crash at any point (full disk, I/O error, short write, data lost on closing, too many open files), the error is raised and what is then on disk is either rejected on loading or equal to the pulsar being saved or to what was saved there before, never a mixture or truncation of them, and the pulsar in memory is unchanged and can be saved again.",
 ["fault_sequences","crash_points","histories"],
 "all sequences of saves and loads with failures of any system call involved, and crashes after any prefix of the bytes written",
 "Tests write to a healthy disk, compare one attribute, and the feather export test cannot run here; partial writes never happen in them.",
 [PS],
 [("feather export/import","FeatherPulsar.save_feather, read_feather"),("pickle","BasePulsar.to_pickle"),("dropping what cannot be pickled","drop_not_picklable")],
 ["files on disk"],["loaded pulsars, errors raised"])

prop("C10","Loading reads the named files, restores the working directory, sizes buffers",
 "Loading a pulsar from par and tim files reads exactly the files named by the caller (relative or absolute, in the same or different directories, also through symbolic links), with included tim files resolved from the directory of the main tim file, whatever the working directory is. The timing package is always asked for at least as many observations as the files contain, and when the call returns or fails at any point the working directory of the process is the one it was before.",
 ["fault_sequences","crash_points","inputs"],
 "all layouts of par, tim and included files, all working directories, both timing packages, and failures or interruptions at any step of loading",
 "The tests load files from one directory and never fail in the middle; without the timing packages none of these tests can run here.",
 [PS],
 [("change of directory","pulsar.Pulsar"),("path computation","pulsar.Pulsar"),("counting observations through INCLUDE","pulsar.get_maxobs")],
 ["working directory of the process"],["os.getcwd() after the call","arguments given to the timing package"])

prop("C11","The caller's random stream is used only by explicit sampling, reproducibly",
 "Building, combining and evaluating models (including those with seeded random phases), computing means and reading pulsars neither draw from nor reseed the global random-number stream; only operations that are asked for random numbers draw from it. From the same state of the stream the same sequence of sampling operations gives the same values whatever else is interleaved with it, and a basis with seeded phases depends on nothing but its seed and its pulsar.",
 ["schedules","histories"],
 "all interleavings of sampling clients with construction and evaluation of models, and all states of the global stream",
 "Tests do not look at the random stream; a reseeding inside a basis makes all later draws of a program repeat silently.",
 [GB,PA,UT,SB,GP],
 [("phase shifts","gp_bases.createfourierdesignmatrix_red"),("samplers","parameter.*Sampler"),("conditional draws","utils.ConditionalGP, get_coefficients")],
 ["global numpy random state"],["numpy.random.get_state() around operations"])

prop("C12","Joint draws of parameters are coherent with their hyperparameters",
 "When a list of parameters is drawn jointly, or by transforming a point of the unit cube as nested samplers do, every parameter and hyperparameter they involve (at any depth, shared or not, in any order of the list) gets exactly one value, and each is drawn from its distribution at the very hyperparameter values returned. Constants keep their values, vector parameters have their declared size, and a failed draw leaves no trace in later ones.",
 ["schedules","histories","configurations","fault_sequences"],
 "all hierarchies of parameters with shared hyperparameters, all list orders, and all outcomes of the random-number generator",
 "The tests draw a few values and check their names; whether a value was drawn with the hyperparameter value that is returned cannot be seen from independent random draws.",
 [PA,GPR],
 [("joint sampling","parameter.sample, _sample"),("unit-cube transform","PTA.get_hypercube_transform, Parameter.get_ppf"),("hyperparameter passing","parameter.Function.__call__")],
 ["dictionary of values drawn so far"],["parameter.sample"])

prop("C13","Conditional draws have exactly the posterior mean and covariance",
 "Means and random draws of Gaussian-process coefficients and processes, given the parameters of a model, are an affine map of the standard-normal numbers consumed, with exactly the mean and covariance of the Gaussian posterior implied by the model and data. Each value is returned under the name of the signal and pulsar it belongs to, for any number of draws, any history of other draws and evaluations, and any method of inverting the coefficient covariance.",
 ["histories","inputs","configurations"],
 "all models (with and without processes common to several pulsars), parameters, numbers of draws, and all outcomes of the random-number generator",
 "Tests draw a handful of random vectors and check shapes or compare two implementations loosely; a wrong permutation, transpose or scaling of the square root of the covariance is invisible in a few random draws.",
 [UT,SB],
 [("conditional mean and draw","utils.ConditionalGP"),("coefficient draws","utils.get_coefficients")],
 ["pta caches"],["returned dictionaries as a function of the normal numbers supplied"])

prop("C14","Prior samplers terminate and draw from the declared distribution",
 "For every parameter type, scalar or vector, each value drawn lies in the support of its prior and is the value that the declared distribution assigns to the random numbers consumed; a draw terminates within a bounded number of random numbers as long as these keep falling inside the support with positive probability. No outcome of the random-number generator, however extreme, makes a sampler return a value of zero prior density, a wrong shape, or modify its arguments.",
 ["inputs","histories","configurations"],
 "all parameter types and bounds, scalar and vector, and all sequences of outcomes of the random-number generator",
 "Tests draw a few thousand typical values; rejection loops, boundary outcomes and vector masks matter only for rare outcomes of the generator.",
 [PA,GPR],
 [("samplers","parameter.UniformSampler, NormalSampler, TruncNormalSampler, LinearExpSampler, gp_priors.InvGammaSampler"),("priors and ppf","parameter.*Prior, *PPF")],
 None,["Parameter.sample, get_pdf, get_ppf"])

prop("C15","Overlap reduction functions give positive semidefinite correlations",
 "For any set of distinct sky positions the Hellings-Downs, monopole and dipole correlation matrices produced by the library are symmetric, have the documented diagonal and are positive semidefinite.",
 ["inputs"],"all sets of pulsar positions",
 "Tests use two pulsars.",[UT,"enterprise/signals/anis_coefficients.py"],[("correlation functions","utils.hd_orf, dipole_orf, monopole_orf, anis_orf")])
prop("C16","Selections label observations exactly",
 "For any flags, frequencies and times, each mask returned by a selection marks exactly the observations that its label describes, and the partitioning selections cover every observation once.",
 ["inputs"],"all pulsars and all arguments of the selection functions","Tests use one pulsar.",
 [SE],[("selection functions","selections.*")])
prop("C17","Waveform functions agree with the published formulas",
 "The burst-with-memory, eccentric-binary and physical-ephemeris waveforms agree with the published formulas for all parameters.",
 ["inputs"],"all waveform parameters","Tests compare single points with stored numbers.",
 [UT],[("waveforms","utils.bwm_delay, calculate_splus_scross, physical_ephem_delay")])
prop("C18","Prior densities are normalised and inverse to their percentage-point functions",
 "Each prior density integrates to one over its support and its percentage-point function is the inverse of its cumulative distribution.",
 ["inputs"],"all bounds and hyperparameters","Tests compare single points.",
 [PA],[("priors","parameter.*Prior, *PPF")])
prop("C19","Every piece of linear algebra a model exposes describes the same model",
 "At any moment of any history of use, the pieces that a model hands out for given parameters (residuals, delays, noise matrices with their solvers and determinants, bases, coefficient covariances and their inverses by every method, the products of these, additional likelihood terms, and the same for single pulsars and single signals) are those of the one Gaussian model that was declared: samplers that assemble likelihoods from them get the same value as the library. What has been handed out stays as it is when the model is used further, also if a request was interrupted, and names look up the pulsar and signal they belong to.",
 ["histories","inputs","configurations","fault_sequences"],
 "all histories of requests, evaluations, assignments of constants and interruptions by interleaved clients, over all combinations of signals, all matrix types and inversion methods, and all parameter values for which the covariance is well conditioned",
 "Tests look at single pieces of fresh objects at one point; that bases, labels, covariances and noise matrices requested in any order, after any other request, by several clients still belong together and to the parameters asked for depends on caches with side effects and on work arrays that are reused.",
 [SB,GP,WS,UT],
 [("assembly per pulsar","signal_base.SignalCollection.get_*"),("assembly over pulsars, inversion methods, cliques","signal_base.PTA.get_phi, get_phiinv_*"),("noise matrices","signal_base.ndarray_alt, csc_matrix_alt, BlockMatrix, ShermanMorrison, gp_signals.MarginalizingNmat"),("coefficient covariances","utils.KernelMatrix"),("combination of equal columns","SignalCollection._combine_basis_columns")],
 ["per-signal and per-pulsar result caches","basis, labels and prior matrix of each Gaussian process","clique indices"],
 ["PTA.get_basis, get_phi, get_phiinv, get_ndiag, get_TNT, get_TNr, get_rNr_logdet, get_logsignalprior","the same methods of SignalCollection and Signal"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    n=d["statement"].count(". ")+1
    if n>3: print(d["id"],n)
