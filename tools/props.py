"""The properties (source of properties.jsonl and MANIFEST.json; run tools/mk.py)."""
IN, HI, SC, CF = "inputs", "histories", "schedules", "configurations"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files),
                  mech=list(mech), note=note, technique=technique, observe=list(observe), state=list(state)))


BWF = "jajapy/base/BW.py"
MODELS = ["jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py"]

prop("C01", "Untimed log-likelihood is exact",
     "For every MC, MDP, CTMC, HMM, GoHMM and instantiated PCTMC and every set of sequences without dwell times, the log-likelihood the library returns is the average, weighted by multiplicity, of the logarithm of each sequence's probability (density for a GoHMM; probability of the labels given the actions for an MDP), that is the total over all state paths of initial probability times transition probabilities times emissions. A sequence the model cannot generate adds nothing to the sum but its multiplicity still counts in the denominator; a label or action unknown to the model makes the sequence impossible.",
     [IN], "every model of the six kinds, every non-empty untimed training set",
     "The tests compare a handful of hand-picked models with recorded numbers; the claim is about all models (several initial states, shared labels, zero probabilities, repeated and impossible sequences).",
     ["jajapy/base/Model.py", "jajapy/base/Base_MC.py", "jajapy/base/Base_HMM.py", "jajapy/base/Parametric_Model.py"] + MODELS,
     [("alpha recursion and grouping of equal traces", "jajapy/base/Model.py:logLikelihood/_computeAlphas"), ("emission and jump probabilities", "tau, b, l of each model class")],
     "Differential monitor: the value returned by the real code against a scaled forward algorithm written from the definition, itself cross-checked against explicit path enumeration on small cases. Exploration of random and hostile models only.",
     "online reference-model monitor (independent forward algorithm and path enumeration)")

prop("C02", "Timed log-likelihood of CTMCs and PCTMCs is exact",
     "For every CTMC and instantiated PCTMC and every set of timed sequences of which the model can generate at least one, the log-likelihood the library returns is the average, weighted by multiplicity, of the logarithm of each sequence's density: the total over all state paths of the initial probability times, for each step, the transition rate times exp(-exit rate x dwell time). A sequence the model cannot generate adds nothing to the sum but its multiplicity still counts in the denominator.",
     [IN], "every CTMC / instantiated PCTMC and every timed training set containing at least one possible sequence",
     "Tests compare two recorded values; dwell-time weighting, self-loops, shared labels, impossible timed sequences are not reached.",
     ["jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/base/Model.py", "jajapy/base/Parametric_Model.py"],
     [("timed alpha recursion", "CTMC/PCTMC _computeAlphas_timed"), ("density l()", "CTMC.l / PCTMC.l")],
     "Same monitor as C01 with the timed density as reference.",
     "online reference-model monitor (timed forward algorithm)")

prop("C03", "Log-likelihood depends only on the model and the multiset of traces",
     "The log-likelihood of a set under a model does not change when the set is reordered, when equal sequences are listed separately or merged with their multiplicity, when every multiplicity is scaled, or when it is computed with a different number of available processors or on the single-process path used on other platforms. Computing it changes neither the model nor the set, and asking again gives the same value.",
     [IN, SC, CF], "every model, every training set, every permutation/regrouping and processor count",
     "Tests evaluate each fixture once, in one order, on one platform path.",
     ["jajapy/base/Model.py", "jajapy/base/Parametric_Model.py", "jajapy/mdp/MDP.py"],
     [("single- and multi-process evaluation", "Model._logLikelihood_oneproc/_logLikelihood_multiproc")],
     "Metamorphic monitor with deep before/after snapshots; real worker pools of several sizes and an in-process stand-in pool.",
     "metamorphic runtime monitor over real process pools and platform paths")

prop("C04", "Baum-Welch never makes the training data less likely",
     "While fitting an MC, MDP, CTMC, HMM or GoHMM with Baum-Welch, the likelihood of the training set (restricted to the sequences the starting hypothesis can generate) never decreases from one iteration to the next. The model returned is at least as likely as the starting hypothesis and as the log-likelihood reported with it.",
     [IN, HI], "every starting hypothesis, every training set, every iteration of every run",
     "Tests check the final value of a few fixed runs, never the trajectory.",
     [BWF], [("E and M steps", "BW._processWork_* / _update_*")],
     "Every iteration of real runs is observed and scored by the independent likelihood of C01/C02.",
     "online trace monitor (likelihood after every learning iteration)")

prop("C05", "Whatever Baum-Welch returns is a well-formed model of the same shape",
     "The model fitted from any starting hypothesis of kind MC, MDP, CTMC, HMM or GoHMM has the same kind, states, labels, alphabet and actions; its probabilities (transition rows, emissions, initial distribution) are finite, non-negative and sum to 1, its rates and standard deviations are finite and non-negative, and states or actions never visited keep a valid distribution. What was impossible in the starting hypothesis stays impossible. Without a starting hypothesis, the result has the requested number of states plus one initial state labelled 'init', and exactly the labels and actions of the training set.",
     [IN, HI], "every starting hypothesis, training set and number of iterations",
     "Tests look at a few fitted models; unvisited states, impossible traces, long runs with vanishing probabilities are not reached.",
     [BWF], [("division by expected counts, unvisited rows", "BW._update_*")],
     "Validity oracle on every fitted model; random hypotheses with zero patterns, missing actions, several initial states.",
     "structural invariant monitor on learning results")

prop("C06", "One Baum-Welch iteration is the expectation-maximisation update",
     "One iteration replaces each transition probability or rate, emission and initial probability by the ratio of expected counts (expected dwell time for timed CTMCs) computed from the exact posterior distribution over state paths given the training sequences weighted by multiplicity, sequences the hypothesis cannot generate being ignored and states with no expected visit left unchanged. The reported training log-likelihood is the total log-likelihood of the training set under the hypothesis entering the last iteration.",
     [IN], "every hypothesis of kind MC, MDP, CTMC (timed or not), HMM, GoHMM and every training set",
     "Tests compare recorded outputs of long runs at loose tolerances.",
     [BWF], [("expected counts", "BW._processWork_*"), ("update", "BW._update_*")],
     "Differential monitor against an independent forward-backward EM step, one to several iterations, real worker processes included. Gaussian variances use the mean entering the iteration; for MC, HMM, GoHMM and untimed CTMC the unseen move out of a sequence's last state is treated as missing data, as the library does.",
     "online reference-model monitor (independent EM step)")

prop("C07", "Baum-Welch results do not depend on how the problem is presented",
     "For a given starting hypothesis, multiset of training sequences and number of iterations, Baum-Welch returns the same model and log-likelihood (up to floating-point rounding) whatever the order of the sequences, whether equal sequences are listed separately or merged, whether the training set is a Set, a list or an array, whatever the number of processes, and whatever the same BW object learned before. Reordering the states, actions or symbols of the hypothesis, or renaming labels other than 'init', actions or symbols in the hypothesis and the training set alike, reorders and renames the model learned accordingly. Multiplying every multiplicity by the same number changes nothing but the reported log-likelihood, which is multiplied too.",
     [IN, SC, CF, HI], "every hypothesis of kind MC, MDP, CTMC, HMM, GoHMM, every training set, every presentation of it and every process count",
     "Tests run each fixture in one order, one presentation and with the default number of processes.",
     [BWF, "jajapy/base/Set.py"], [("distribution of the sequences to worker processes", "BW._runProcesses"), ("per-kind tables kept by the BW object", "BW.fit")],
     "Metamorphic monitor: one run is the reference, the others must give the same parameters. Real worker pools in one family, a stand-in running pickled copies in the others.",
     "metamorphic runtime monitor over real process pools")

prop("C08", "Baum-Welch stops, reports, writes and refuses as documented",
     "Baum-Welch stops after the first iteration whose training log-likelihood exceeds the previous one by less than epsilon, or after max_it iterations, and the number of rounds and log-likelihood reported, the model returned (as a Stormpy or jajapy object as requested) and the models written to output_file and output_file_prism all describe that last iteration. A Stormpy model given as starting hypothesis is treated like the equal jajapy model. It raises ValueError, and returns no model, when the starting hypothesis can generate no training sequence, and refuses training sets that are not of the kind of the hypothesis.",
     [IN, CF], "every hypothesis, training set, epsilon, max_it and combination of output options",
     "Tests use default epsilon and one output option at a time and compare final models only.",
     [BWF, "jajapy/with_stormpy/model_converter.py"], [("main loop, stop test, outputs", "BW._fit / BW._endPrint"), ("compatibility test", "BW._fit")],
     "Reference EM gives the whole trajectory of log-likelihoods, hence the round at which learning must stop; returned objects, files and reports are compared to it. Stopping points closer than 1e-6 to epsilon are not judged.",
     "online specification monitor over learning runs and their outputs")

prop("C09", "Baum-Welch leaves fixed CTMC rates alone and learns the others",
     "When the user declares some transitions of a CTMC fixed (fixed_parameters), Baum-Welch returns a CTMC in which the rates of exactly these transitions are exactly those of the starting hypothesis. On timed training sets the other rates follow the same expected-count over expected-dwell-time update as without fixed transitions, and states never visited keep their rates.",
     [IN], "every CTMC, every mask of fixed transitions, every training set",
     "One test fixes one pattern of transitions of one model.",
     [BWF], [("mask applied in the maximisation step", "BW._update_CTMC/_processWork_CTMC*")],
     "Exact comparison of the fixed entries and differential comparison of the others with the independent EM step.",
     "online reference-model monitor (masked EM step)")

CONV = "jajapy/with_stormpy/model_converter.py"
SETF = "jajapy/base/Set.py"

prop("C10", "A saved model read back is the same model",
     "For each of the six kinds of model, saving a model to a text file and loading it gives a model with the same name, labels, alphabet, actions, initial distribution, parameters and their instantiation, synchronous transitions, and exactly the same probabilities, rates, Gaussian parameters and rate expressions; saving changes nothing in the model and replaces whatever the file contained. Loading a file that holds another kind of model raises an error.",
     [IN], "every model of the six kinds (any labels and names without line breaks, any finite numbers, any instantiation)",
     "Tests save one fixture of each kind and compare printed forms, rounded to a few digits.",
     MODELS + ["jajapy/base/Model.py", "jajapy/base/Base_MC.py", "jajapy/base/Base_HMM.py", "jajapy/base/Parametric_Model.py"],
     [("text format", "save/_save of each class, load* functions")],
     "Bit-exact comparison of what was saved, what is read back and what a second save writes.",
     "round-trip monitor over random models")

prop("C11", "A saved training set read back is the same set",
     "Saving a Set to a file and loading it gives a Set of the same type with exactly the same traces (strings and floating-point numbers) and multiplicities, in the same order, whatever way the Set was built: from lists, generated by a model, merged, extended from an empty Set or sorted. Saving does not change the Set and replaces whatever the file contained.",
     [IN, HI], "every Set of finite traces of any type and every sequence of operations producing it",
     "Tests save two generated sets.",
     [SETF], [("text format", "Set.save / loadSet")],
     "Exact comparison of traces, multiplicities and type after the round trip, including sets produced by the library and by random sequences of operations.",
     "round-trip monitor over random sets and operation histories")

prop("C12", "A Set is a multiset of traces under every operation",
     "After any sequence of operations a Set lists each distinct trace once with a positive integer multiplicity equal to the number of times it was put in: building from a list, addSet, sort, to_list, getAlphabet, getActionsObservations and isEqual agree with this multiset, isEqual being true exactly for sets of the same type and content. Operations leave their arguments unchanged and independent, addSet refuses a Set of another type, and the type of a list of traces is recognised.",
     [IN, HI], "every Set and every finite sequence of operations on it",
     "Tests merge two generated sets once.",
     [SETF], [("grouping and merging", "Set.setFromList/addSet/sort/isEqual")],
     "A counter of traces is the specification; it is compared after every operation of random histories.",
     "online model-based monitor of operation histories")

prop("C13", "Conversion to and from Stormpy keeps the meaning of a model",
     "Converting an MC, MDP, CTMC or instantiated PCTMC to Stormpy gives a model of the corresponding kind with the same states, labels, probabilities or rates and exit rates, so that Storm's reachability probabilities (bounded and unbounded, timed for CTMCs, minimal and maximal for MDPs) are those of the jajapy model, and converting it back gives the same model (same action names for an MDP). A Stormpy model converted to jajapy keeps every transition; a state carries its labels joined in alphabetical order ('empty' if none), and an initial state with other labels is preceded by an 'init' state. Non-instantiated PCTMCs and HMMs are refused, and conversion changes nothing in the model converted.",
     [IN], "every MC, MDP (including states lacking actions), CTMC and instantiated PCTMC, every such Stormpy model with one initial state",
     "Tests convert a few fixtures and compare printed forms; values of model-checking queries are never compared with independently computed ones.",
     [CONV, "jajapy/base/Base_MC.py"], [("conversion", "jajapyModeltoStormpy / stormpyModeltoJajapy")],
     "Values computed from the original numbers (linear systems, value iteration, matrix exponential) against Storm's answers on the converted model, plus exact structural comparison. Slowly converging models are only compared structurally.",
     "differential monitor (model-checking results and structure)")

prop("C14", "A model written in Prism format and loaded again behaves the same",
     "For an MC, MDP, CTMC or PCTMC whose names are Prism identifiers, savePrism followed by loadPrism gives a model with the same reachable states, labels, initial states, exit rates and available actions that gives every sequence of observations (with actions or dwell times) the same probability; parameters without value stay parameters with the same rate expressions, and a fully instantiated PCTMC loads as the corresponding CTMC. Prism programs written by others load as the model they describe, and saving changes nothing in the model.",
     [IN], "every MC, MDP, CTMC, PCTMC with identifiers as names, and single-module Prism programs",
     "Tests load a few fixtures and compare printed forms.",
     [CONV, "jajapy/base/Base_MC.py"] + MODELS[:4], [("Prism writer", "savePrism/_savePrismMatrix"), ("Prism reader", "loadPrism")],
     "The loaded model is read into a neutral form and compared through the likelihoods of traces simulated from both sides and of foreign traces, by independent reference code; includes programs written by the check's own Prism writer.",
     "differential monitor over trace likelihoods")

SCHED = "jajapy/mdp/Scheduler.py"
TOOLS = "jajapy/base/tools.py"

prop("C15", "Simulated traces are well formed and possible",
     "Every trace a model simulates (run, generateSet) has the requested shape: n+1 labels, alternating with available actions for an MDP or with positive dwell times when timed, and n symbols or vectors for an HMM or GoHMM; it starts in an initial state, or in the state asked for, and is a trace the model can generate. generateSet returns a Set of the right type holding the requested number of traces (equal ones merged) with the requested lengths (constant, listed, or more than min_size under 'geo'). Simulating changes nothing in the model.",
     [IN], "every model of the six kinds (each state of an MC or MDP having a way out), every length, start state and set size",
     "Tests only look at the type of a few generated sets.",
     ["jajapy/base/Model.py", "jajapy/base/Base_HMM.py", "jajapy/base/Parametric_Model.py", TOOLS] + MODELS,
     [("one step", "next / next_obs / next_state of each class, resolveRandom"), ("traces and sets", "run / generateSet")],
     "Every simulated trace is judged for shape and for a positive probability under the independent likelihood.",
     "online monitor of every simulated trace (shape and possibility)")

prop("C16", "What a model simulates follows the distribution it describes",
     "The traces simulated by an MC, MDP (under a uniform scheduler, among the available actions), CTMC, PCTMC or HMM occur with the probabilities the model gives them, and initial states with their initial probabilities. Dwell times in a state of a CTMC or PCTMC are exponential with the exit rate, independently of the successor, Gaussian observations follow their state's normal laws independently, and lengths under 'geo' are min_size plus a geometric variable.",
     [IN, HI], "every model of the six kinds, every state",
     "No test looks at frequencies.",
     ["jajapy/base/Model.py", "jajapy/base/Base_HMM.py", TOOLS] + MODELS,
     [("random choices", "resolveRandom, next, next_obs, run")],
     "Statistical: exact binomial, chi-square and Kolmogorov-Smirnov tests at significance 1e-9 on thousands of samples of the real code. Deviations too small for the sample size are not detected.",
     "statistical monitor over simulated executions")

prop("C17", "Random generators give valid models and obey their options and seed",
     "MC_random, MDP_random, CTMC_random, HMM_random and GoHMM_random return a valid model with the requested states (plus one initial state labelled 'init' never entered again, for the first three), labels, alphabet and actions, and obey their options: a fixed or random initial state, integer expected waiting times within the bounds, no self-loop, deterministic MDPs, bounds of the Gaussian parameters. randomInstantiation gives exactly the asked (or the uninstantiated) parameters values in the asked range. The same arguments and seed give the same model in any process, other seeds give others, and the label 'init' is refused.",
     [IN, CF], "every combination of arguments, options and seeds; every process (hash seed)",
     "Tests generate a few models without looking at their options or at seeds.",
     MODELS + [TOOLS, "jajapy/base/Base_MC.py"], [("generators", "*_random, randomInstantiation, randomProbabilities"), ("seeding", "sseed")],
     "Structural oracle over random arguments; seeded calls are repeated after other random activity and in other processes with other hash seeds.",
     "structural invariant monitor and cross-process replay")

prop("C18", "Models are what the user wrote, and invalid ones are refused",
     "Models made by createMC, createMDP, createCTMC, createPCTMC, createHMM, createGoHMM or the class constructors have exactly the transitions, labels, actions, emissions and initial distribution they were given, in whatever order and accepted form, and leave the arguments unchanged. Accessors (transition probabilities, rates, exit rates and expected times, emissions, alphabets, actions, initial states, the embedded MC) and the printed text agree with them, and updateLabelling changes the labels and nothing else. Rows, emissions or initial distributions not summing to one, missing or misplaced 'init' labels, ill-sized labellings and negative standard deviations are refused.",
     [IN], "every model of the six kinds and every way of writing it",
     "Tests create a few fixtures and never look inside most of them.",
     MODELS + ["jajapy/base/Model.py", "jajapy/base/Base_MC.py", "jajapy/base/Base_HMM.py"],
     [("construction", "create*, __init__, _checkStochasticMatrix"), ("accessors", "tau, a, b, l, e, getLabel, getAlphabet, __str__ ...")],
     "The numbers given are the specification; every accessor and the printed text are compared with it, and perturbed models must be refused.",
     "differential monitor of construction, accessors and text")

prop("C19", "Alergia learns the automaton its traces and its significance level define",
     "From any set of traces and any alpha, Alergia returns the MC obtained by merging, in ALERGIA's order, the states of the prefix tree that have the same label and whose outgoing frequencies and those of their common descendants agree within Hoeffding's bound. This MC is deterministic (one successor per label), gives every training trace a positive probability, and each of its transition probabilities is the fraction of the training traces leaving the state that take it. The result depends only on the multiset of traces and alpha, the training set is left unchanged, and the Stormpy model and the Prism file asked for describe the same MC.",
     [IN, HI], "every set of label sequences (the label 'init' only at their beginning) and every alpha",
     "The only test compares a likelihood with a recorded one, and fails at this commit.",
     ["jajapy/mc/Alergia.py", TOOLS], [("prefix tree", "PTA.__init__/addKids"), ("compatibility and merging", "PTA.compatible/merge/fold, hoeffdingBound"), ("result", "PTA.toMC")],
     "An independent implementation of the algorithm, plus oracles that do not depend on it: determinism, recounted frequencies, possibility of the training traces, bigram model for a vanishing alpha. Tests falling within 1e-9 of the bound are not judged.",
     "online reference-model monitor and conservation (recount) oracle")

prop("C20", "IOAlergia learns the MDP its traces and its significance level define",
     "From any set of traces of observations and actions and any epsilon, IOAlergia returns the MDP obtained by merging, in IOALERGIA's order, the states of the prefix tree that have the same label and whose frequencies after each action seen in both, and those of their common descendants, agree within Hoeffding's bound. This MDP is deterministic (one successor per action and label), has exactly the actions of the traces, gives every training trace a positive probability, and each of its transition probabilities is the fraction of the training traces executing the action in the state that take it. The result depends only on the multiset of traces and epsilon, the training set is left unchanged, and the Stormpy model and the Prism file asked for describe the same MDP.",
     [IN, HI], "every set of observation/action sequences starting with the same label ('init' only there) and every epsilon",
     "The only test checks that learning does not raise.",
     ["jajapy/mdp/IOAlergia.py"], [("prefix tree", "IOAlergia._buildIOFPTA"), ("compatibility and merging", "IOFPTA.compatible/hoeffding/merge"), ("result", "IOFPTA.cleanMDP")],
     "Same oracles as C19, with actions.",
     "online reference-model monitor and conservation (recount) oracle")

prop("C21", "PCTMCs evaluate their rates and apply instantiations as documented",
     "Whatever the parameters that have a value, a PCTMC evaluates each rate expression to its arithmetic value when all its parameters have one and to an expression of the others otherwise; exit rates, expected times, densities, probabilities, isInstantiated, involvedParameters and parameterIndexes agree with these expressions, and quantities needing a missing value are refused. instantiate sets the given parameters and no other and returns True when no rate becomes negative, and otherwise returns False and changes nothing; randomInstantiation stays in its range and in the valid values. A copy of a model keeps its own values, and a fully instantiated PCTMC gives traces the probabilities of the CTMC with the evaluated rates.",
     [IN, HI], "every PCTMC and every sequence of instantiations",
     "Tests instantiate one model once.",
     ["jajapy/pctmc/PCTMC.py", "jajapy/base/Parametric_Model.py"], [("evaluation", "evaluateTransition/transitionValue/e/l/tau/lkl"), ("instantiation", "instantiate/_checkRates/randomInstantiation")],
     "Plain Python arithmetic on the expressions is the specification; histories of instantiations are followed by a model. Rates that cancel to exactly zero are not judged.",
     "online model-based monitor of instantiation histories")

prop("C22", "The composition of two CTMCs is their synchronous product",
     "synchronousCompositionCTMCs returns a PCTMC, fully instantiated, whose states are the pairs of states of the two CTMCs (labelled 'label1,label2'), whose initial distribution is the product of theirs, and where each component moves at its own rates while synchronous transitions of both components having the same action happen together at the product of their rates, rates of parallel moves being added. Every reachable pair is present and each rate of a component is one parameter, shared by all the transitions that use it and recorded as such. The components are left unchanged.",
     [IN], "every pair of CTMCs with one initial state never entered again and any synchronous transitions",
     "The only test composes one pair of three- and two-state models.",
     ["jajapy/ctmc/CTMC.py"], [("product construction", "synchronousCompositionCTMCs")],
     "An independently built product of the components is compared with the evaluated PCTMC, also after doubling each parameter, and through likelihoods when labels are shared. Actions known by a single component are not judged.",
     "online reference-model monitor (product construction)")

prop("C23", "The composition of PCTMCs is their synchronous product",
     "synchronousCompositionPCTMCs applied to two or more PCTMCs returns a PCTMC that, for every instantiation of the parameters, is the synchronous product of the components: each moves at its own rates, the synchronous transitions of all the components knowing an action happen together at the product of their rates (whichever subset of the components that is), and rates of parallel moves are added. It has the parameters of all the components with the values they had, records the transitions using each of them, and does not depend on earlier compositions. The components, and models created later, are left unaffected.",
     [IN, HI], "every list of PCTMCs with one initial state never entered again, sharing parameters or not, and any synchronous transitions",
     "No test composes PCTMCs.",
     ["jajapy/pctmc/PCTMC.py"], [("product construction", "synchronousCompositionPCTMCs/synchronousComposition2PCTMCs")],
     "As C22, with two to four components and several instantiations; the composition of CTMCs written as PCTMCs must agree with C22's. Actions known by a single component are not judged.",
     "online reference-model monitor (product construction)")

prop("C24", "Learning PCTMC parameters: right step, never less likely, rest untouched",
     "For PCTMCs whose rates are constants and products of powers of parameters, each iteration of BW.fit, fit_parameters and fit_nonInstantiatedParameters, on timed and untimed traces, moves every learned parameter to the maximum of its part of the expected log-likelihood (expected uses over expected coefficient-weighted time when it appears alone), and with update_constant each constant likewise, so the training set never gets less likely. Parameters that are fixed, not requested or already instantiated, the constants otherwise, the states and the symbolic rates stay as they were. The values returned are the values learned, starting between min_val and max_val for the parameters without value.",
     [IN, HI], "every PCTMC with monomial rates, every training set of traces starting with init, every choice of learned parameters and of constants",
     "The only test of this feature fails at the pinned commit; it would compare four values on one model.",
     ["jajapy/base/BW.py", "jajapy/base/Parametric_Model.py", "jajapy/pctmc/PCTMC.py"],
     [("E and M steps", "BW._processWork_PCTMC/_update_PCTMC/_sortParameters"), ("entry points", "BW.fit/fit_parameters/fit_nonInstantiatedParameters")],
     "An independent forward-backward pass plus a bisection on the surrogate of every parameter predicts the values after each iteration; a hook on PCTMC.instantiate records the values the model really goes through and their likelihoods are recomputed. Sums of parameters in one rate, and traces whose probability is near the float range, are not judged.",
     "online reference-model monitor (EM/MM step) and trace monitor of the parameter trajectory")

prop("C25", "Active learning of MDPs: asks, learns and reports as documented",
     "Active_BW_MDP.fit makes nb_iterations active iterations, each sampling nb_sequences traces of the requested length from the system under learning, all with the active strategy when epsilon_greedy is 1 and none when it is 0, the strategy choosing more often the actions used less in the expected current state, while never excluding any. With lr=0 each iteration then runs at most max_it Baum-Welch iterations on all the traces seen so far; with another learning rate (a constant or 'dynamic', which starts at most at 1 and never increases) it mixes the hypothesis learned on the sample with the previous one, so every hypothesis stays a valid MDP. It returns the last hypothesis with, if asked, all its traces, writes it to output_file, and leaves the user's training set and system unchanged.",
     [IN, HI], "every MDP used as system under learning (actions possibly missing in some states), initial hypothesis, training set and options",
     "The active part always crashed at the pinned commit; the only test of this class makes no active iteration.",
     ["jajapy/mdp/Active_BW_MDP.py", "jajapy/mdp/Scheduler.py"], [("active loop and mixing", "Active_BW_MDP.fit"), ("strategy", "ActiveLearningScheduler")],
     "The runs of the system are recorded by a hook on MDP.run; the whole learning is replayed on them by an independent EM step and the hypothesis returned compared. The preference for the least used actions is tested statistically.",
     "online reference-model monitor over recorded samples")

prop("C26", "Schedulers drive the simulation of MDPs as documented",
     "For every trace it simulates, an MDP resets its scheduler, executes at each step the last action the scheduler proposed (asking again while it is not available in the current state) and then tells it the label of the state left. A UniformScheduler proposes each of its actions equally often, a FiniteMemoryScheduler follows its automaton and its probabilities, a MemorylessScheduler gives each state its action and is refused when it is not available there. getActions, getProbability, getSequenceStates and getSequence describe the same automaton, and simulations leave the scheduler's description unchanged.",
     [IN, HI], "every MDP, scheduler and number of steps",
     "Tests only use uniform schedulers on MDPs having every action everywhere.",
     ["jajapy/mdp/Scheduler.py", "jajapy/mdp/MDP.py"], [("simulation", "MDP.run/next/generateSet"), ("schedulers", "Scheduler.py")],
     "A recording scheduler is the trace specification's monitor; the runs under finite-memory and memoryless schedulers are replayed through their description; proposals are chi-square tested.",
     "online trace-specification monitor on the scheduler interface")

prop("C27", "Results depend on the arguments only",
     "What a call of the library returns depends on its arguments (and, for what is drawn at random, on the state of the random generators) and on nothing else: not on the calls made before in the same process, successful or refused, on other objects or on equal ones, not on how many times the same call was made, and not on the seed of Python's string hashing. This holds for likelihoods, learning from a given hypothesis, parameter learning, Alergia and IOAlergia, composition, conversions to Stormpy and Prism and back, files, random generation with a seed, instantiation, creation functions with their default arguments, simulation, schedulers and sets.",
     [HI, IN, CF], "every sequence of library calls in a process, every hash seed",
     "Each test makes one call in the order of the file; an attribute shared by a class, a default argument that is modified, a cache with too weak a key or an iteration over a set shows only in a particular history or under another hash seed.",
     ["jajapy/base/BW.py", "jajapy/base/Set.py", "jajapy/mc/Alergia.py", "jajapy/mdp/IOAlergia.py", "jajapy/with_stormpy/model_converter.py"] + MODELS,
     [("module, class and default-argument state", "every module"), ("sets turned into lists", "BW.py, Set.py, IOAlergia.py, model classes")],
     "Differential monitor over histories: each call is executed alone in a fork of an interpreter that has used nothing, under another hash seed, and several times in a process whose past is made of random library calls (including whole cases of the other checks); canonical results are compared. What is drawn when learning without a hypothesis and the order of alphabets are not compared between hash seeds.",
     "differential monitor over call histories and hash seeds (fresh-process oracle)")

prop("C28", "The library leaves nothing behind",
     "When a call of the library returns or raises, every worker process and thread it started is gone, every file it opened is closed, no file has been created, modified or removed except those it was asked to write, and the settings of the process (working directory, environment, import path, signal handlers, floating-point error handling, printing options, recursion limit, standard streams) are as before. Training uses no more workers than `processes` asks; a value that is not between one and the number of processors is replaced by the number of processors minus one. A training set that no worker can use is reported by an exception, without waiting for ever.",
     [HI, SC, IN], "every library call, with and without worker processes, successful or not",
     "A leaked descriptor, process or changed setting makes no assertion fail; it only shows by watching the process, and after failures.",
     ["jajapy/base/BW.py", "jajapy/base/Model.py", "jajapy/base/Set.py", "jajapy/mdp/Active_BW_MDP.py", "jajapy/with_stormpy/model_converter.py"] + MODELS,
     [("pools", "Pool(...) in BW, Model, CTMC, PCTMC, MDP, Active_BW_MDP"), ("files", "save, savePrism, load*, saveSet")],
     "The process is observed through /proc and the interpreter before and after random calls, with real pools of two to five workers or none, and with failing calls. Leaks released by the garbage collector within eight seconds are accepted.",
     "runtime leak monitor (processes, threads, descriptors, files, settings) with fault injection")
