"""Writes /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Node life cycle and one-time dimension/type contract",
 "A node accepts training data only while a training phase is open, runs its phases in order exactly once each, and refuses training after the last phase, execution of an untrainable direction, or inversion when not invertible, with the documented exception; calling execute or inverse on a node still in its single or last training phase first closes that phase. Input dimension, output dimension and numerical type, once fixed by constructor, assignment or first data, never change, data or assignments that disagree are rejected with an exception, and a rejected call leaves the node working as if it had never been made (a rejected execute or inverse may have closed the open training phase first). Results have as many rows as the input, the announced output (or input) dimension, and the node's numerical type.",
 ["inputs", "histories"], "every node class, every sequence of construct/set/train/stop/execute/inverse calls with matching and mismatching data",
 "Unit tests call each node in one happy-path order with float64 data; they never explore interleavings of misuse with use, multi-phase nodes, or dtype/dimension conflicts at each stage.",
 ["mdp/signal_node.py", "mdp/nodes/*.py"],
 [("Node train/stop_training/execute/inverse state machine", "mdp/signal_node.py:Node"),
  ("dimension and dtype setters", "mdp/signal_node.py:Node.set_input_dim/set_output_dim/set_dtype"),
  ("pre-call checks", "mdp/signal_node.py:Node._pre_execution_checks,_pre_inversion_checks,_check_train_args")])

prop("P02", "Caller's arrays are neither changed nor kept; execution is repeatable",
 "Training, executing or inverting any node never modifies the arrays and label containers handed to it, and what the caller does to those arrays afterwards never changes what the node learns or returns. Executing a trained node does not change it: repeating an execution or inversion, or executing other data in between, gives the same result, except for the nodes documented as stateful or as adding noise.",
 ["inputs", "histories"], "every node class, dtype, memory layout (contiguous, strided, read-only), and every order of train/execute calls",
 "Tests pass fresh arrays once and never look at them again; aliasing shows up only if a caller reuses a buffer between chunks.",
 ["mdp/signal_node.py", "mdp/nodes/*.py", "mdp/utils/covariance.py"],
 [("_refcast to the node's dtype (no copy when equal)", "mdp/signal_node.py:Node._refcast"),
  ("cumulating nodes copy into an array list", "mdp/signal_node.py:VariadicCumulator"),
  ("per-algorithm copies before in-place arithmetic", "mdp/nodes/*.py")])

prop("P03", "Incremental training equals batch training",
 "For every node that learns from accumulated statistics or collected samples, presenting the training data in any split into consecutive chunks produces the same trained model as presenting it at once, in every training phase. For nodes whose statistics ignore temporal order (principal components, whitening, discriminant analysis, factor analysis, regression, Gaussian / nearest-mean / nearest-neighbour classifiers) any reordering of the samples also gives the same model, and for slow feature analysis a chunk boundary costs exactly the one time step that spans it (unless the caller asks for the last sample to be kept, or sample counts per step are explicit).",
 ["inputs", "histories"], "every data set, every partition into chunks, every permutation where order is irrelevant",
 "Tests train with one chunk or one fixed split; partition invariance quantifies over all splits.",
 ["mdp/utils/covariance.py", "mdp/signal_node.py", "mdp/nodes/pca_nodes.py", "mdp/nodes/sfa_nodes.py", "mdp/nodes/fda_nodes.py", "mdp/nodes/em_nodes.py", "mdp/nodes/regression_nodes.py", "mdp/nodes/classifier_nodes.py", "mdp/nodes/misc_nodes.py"],
 [("running covariance sums", "mdp/utils/covariance.py:CovarianceMatrix,DelayCovarianceMatrix,VartimeCovarianceMatrix,CrossCovarianceMatrix"),
  ("collected samples", "mdp/signal_node.py:Cumulator,VariadicCumulator"),
  ("per-class statistics", "mdp/nodes/classifier_nodes.py, mdp/nodes/fda_nodes.py")])

prop("P04", "Memoryless nodes map each sample independently",
 "For nodes without temporal context, the output for a row depends on that row alone: executing (or inverting) any subset, reordering, repetition, or split of the rows gives exactly the corresponding subset, reordering, repetition, or concatenation of outputs. The same data presented in another memory layout or an exactly convertible numerical type gives the same output up to the precision of the node's type.",
 ["inputs", "configurations"], "every memoryless node class and every batch of rows",
 "Tests execute one batch only; a dependence between rows (vectorisation or caching mistakes) is invisible without comparing different batches.",
 ["mdp/signal_node.py", "mdp/nodes/*.py"],
 [("vectorised _execute/_inverse implementations", "mdp/nodes/*.py"), ("casting", "mdp/signal_node.py:Node._refcast")])

prop("P05", "Principal components and whitening are optimal and consistent",
 "For training data of full rank the principal-component node yields orthonormal directions sorted by decreasing variance, whose variances are the eigenvalues of the sample covariance (n-1 normalisation), whether computed by eigendecomposition, singular values or iterative partial least squares; the number kept follows the requested dimension, the requested fraction of total variance, or the variance thresholds, and the explained-variance figure is the kept share. Whitened training data has zero mean and identity covariance; reconstruction from the kept components is the orthogonal projection onto their span around the mean, exact when all are kept.",
 ["inputs", "configurations"], "every full-rank data set, every output size / variance fraction / reduction option, both numerical types",
 "Tests check a handful of Gaussian clouds with a few option values.",
 ["mdp/nodes/pca_nodes.py", "mdp/nodes/nipals.py", "mdp/utils/covariance.py", "mdp/utils/_symeig.py"],
 [("PCANode/WhiteningNode", "mdp/nodes/pca_nodes.py"), ("NIPALSNode", "mdp/nodes/nipals.py"), ("CovarianceMatrix.fix", "mdp/utils/covariance.py")])

prop("P06", "Slow feature analysis solves the slowness problem",
 "Trained slow-feature nodes (linear, quadratic, variable time step) output, on training data with non-singular statistics, signals with zero mean, unit variance and no correlation, ordered from slowest to fastest, whose mean squared time derivatives are the smallest attainable generalised eigenvalues and equal the values the node reports; the eta values are the documented rescaling of those. The quadratic node's output equals its extracted quadratic forms evaluated on the input, and the variable-time-step node solves the same problem with means, covariances and squared derivatives taken as trapezoid-rule time integrals over the given steps. With a robust solver, redundant input dimensions are dropped and the same holds for the remaining ones.",
 ["inputs", "configurations"], "every multichannel time series with non-singular covariance, every output size, chunking and step sequence",
 "Tests check a few hand-made signals; optimality and reported delta values must hold for every signal.",
 ["mdp/nodes/sfa_nodes.py", "mdp/utils/quad_forms.py", "mdp/utils/covariance.py", "mdp/nodes/misc_nodes.py"],
 [("SFANode", "mdp/nodes/sfa_nodes.py:SFANode"), ("SFA2Node.get_quadratic_form", "mdp/nodes/sfa_nodes.py:SFA2Node"), ("VartimeSFANode", "mdp/nodes/sfa_nodes.py:VartimeSFANode"), ("EtaComputerNode", "mdp/nodes/misc_nodes.py")])

prop("P07", "Graph-based SFA: every fast training mode equals its explicit graph",
 "For every training mode (regular, clustered, serial, mixed, classification, regression, sliding and mirrored windows, compact classes, explicit graph), the optimised accumulation yields the same sample covariance and difference second-moment matrices as summing, edge by edge, over the graph that mode stands for, including weights and combinations of several modes. The trained features have zero weighted mean, unit weighted variance, are decorrelated and sorted by the weighted squared differences along edges; the information-preserving variant keeps its output dimension, slow part and residual consistent, and its linear inverse reconstructs the input when no dimension is dropped.",
 ["inputs", "configurations"], "every data set, block size, label vector, window width and edge weighting satisfying the mode's documented preconditions",
 "Tests compare a few modes at one size; the closed forms must agree with the definition for every block structure.",
 ["mdp/nodes/gsfa_nodes.py"],
 [("closed-form accumulation per graph", "mdp/nodes/gsfa_nodes.py:CovDCovMatrix"), ("GSFANode._train mode dispatch", "mdp/nodes/gsfa_nodes.py:GSFANode"), ("iGSFANode", "mdp/nodes/gsfa_nodes.py:iGSFANode")])

prop("P08", "Supervised and probabilistic linear models fit their criterion",
 "Linear regression returns the least-squares solution (with intercept when enabled, zero otherwise) and executes it as an affine map; discriminant analysis returns directions that solve the generalised eigenproblem of between-class versus total scatter, sorted by decreasing class separation and normalised to unit total variance; factor analysis never decreases the data likelihood over iterations, returns strictly positive noise variances, and its output is the posterior factor mean of its own fitted parameters, with an inverse that maps factors back through the loadings plus mean.",
 ["inputs", "configurations"], "every non-degenerate labelled / paired data set and every output dimension",
 "Tests verify single synthetic data sets with loose tolerances.",
 ["mdp/nodes/regression_nodes.py", "mdp/nodes/fda_nodes.py", "mdp/nodes/em_nodes.py"],
 [("LinearRegressionNode", "mdp/nodes/regression_nodes.py"), ("FDANode", "mdp/nodes/fda_nodes.py"), ("FANode", "mdp/nodes/em_nodes.py")])

prop("P09", "Independent component nodes return consistent unmixing transforms",
 "Every independent-component node that converges (cumulant-based, fixed-point, joint-diagonalisation, temporally delayed, blended slow-feature variants) outputs decorrelated unit-variance signals equal to the centred input times its projection matrix, reconstructs the input through its reconstruction matrix when no component is dropped, and recovers clearly non-Gaussian (or temporally distinct) independent sources up to order, sign and scale. Pre-whitened input, chunked training and the whitening options change only what they are documented to change.",
 ["inputs", "configurations"], "every mixing matrix of moderate condition number, every set of sufficiently distinct sources, every documented option combination",
 "Tests run each algorithm on a couple of random mixes with default options.",
 ["mdp/nodes/ica_nodes.py", "mdp/nodes/jade.py", "mdp/nodes/isfa_nodes.py", "mdp/nodes/xsfa_nodes.py"],
 [("ICANode template (accumulate, whiten, core)", "mdp/nodes/ica_nodes.py:ICANode"), ("core rotations", "mdp/nodes/ica_nodes.py, mdp/nodes/jade.py"), ("ISFANode", "mdp/nodes/isfa_nodes.py"), ("TDSEPNode", "mdp/nodes/ica_nodes.py")])

prop("P10", "Classifiers compute the decision rule they document",
 "For all training sets and label types, each classifier's labels follow its documented rule: nearest neighbours by majority vote of the k closest training samples, nearest mean by the closest class mean (weighting as documented), Gaussian by the largest posterior built from class means, covariances and relative frequencies, the perceptron by its signed linear output, the sign classifier by the sign of the sum, the discrete Markov and Hopfield-type classifiers by their counts and stored patterns, k-means by the closest of its centroids. Labels, probabilities and rankings from one classifier agree: probabilities are non-negative, sum to one over the trained labels, the ranking orders labels by decreasing probability, and executing with any of the three output choices returns the same as the corresponding query.",
 ["inputs", "histories"], "every labelled training set (label types int, float, str; scalar or per-sample labels; any class counts) and every query without exact ties",
 "Tests use two well separated clusters; ties between rules appear only on irregular class sizes, label types and chunked labels.",
 ["mdp/classifier_node.py", "mdp/nodes/classifier_nodes.py"],
 [("label/prob/rank dispatch", "mdp/classifier_node.py:ClassifierNode"), ("per-rule _label/_prob", "mdp/nodes/classifier_nodes.py")])

prop("P11", "Expansion nodes compute their documented basis functions",
 "Polynomial expansion outputs every monomial of the input variables up to the given degree exactly once, starting with the linear terms in order; recursive expansions output the tensor products of the named polynomial family evaluated by its definition; radial-basis, general and growing expansions output the documented function values column by column. The announced output dimension always equals the produced one, results equal a direct evaluation of the formulas, and the domain check or adaptive rescaling behaves as documented.",
 ["inputs", "configurations"], "every input dimension, degree, polynomial family, function list and sample within the function domain",
 "Tests compare a few degrees and dimensions against tables.",
 ["mdp/nodes/expansion_nodes.py", "mdp/nodes/recursive_expansion_nodes.py"],
 [("PolynomialExpansionNode index arithmetic", "mdp/nodes/expansion_nodes.py"), ("RecursiveExpansionNode recursion", "mdp/nodes/recursive_expansion_nodes.py"), ("GeneralExpansionNode, RBFExpansionNode, GrowingNeuralGasExpansionNode", "mdp/nodes/expansion_nodes.py")])

prop("P12", "Time-window, clipping and statistics nodes follow their definitions",
 "Time-frame and time-delay nodes place sample t-k*gap in block k for every k (dropping or zero-filling the missing past as documented), the sliding-window variant produces the same output one sample at a time, and the frame pseudo-inverse restores the series. The hit-parade node returns the true extremal values and their positions subject to the minimum distance over any chunking, clipping nodes bound values by the given or learned limits (with the learned fraction of data inside), histogram and noise nodes collect and perturb as documented, and the two-dimensional convolution node equals the direct sum for every boundary and mode option.",
 ["inputs", "histories", "configurations"], "every series, window size, gap, chunking, bound and filter bank",
 "Tests use fixed small series with one configuration.",
 ["mdp/nodes/misc_nodes.py", "mdp/nodes/convolution_nodes.py"],
 [("TimeFramesNode/TimeDelayNode/TimeDelaySlidingWindowNode", "mdp/nodes/misc_nodes.py"), ("HitParadeNode/OneDimensionalHitParade", "mdp/nodes/misc_nodes.py"), ("CutoffNode/AdaptiveCutoffNode/HistogramNode/NoiseNode", "mdp/nodes/misc_nodes.py"), ("Convolution2DNode", "mdp/nodes/convolution_nodes.py")])

prop("P13", "Restricted Boltzmann machine quantities match the model definition",
 "For any weights and biases the machine reports the energy its definition gives for every visible/hidden (and label) configuration, and its conditional activation probabilities equal those obtained by enumerating all configurations of that energy; sampled units are binary with those probabilities, and labels are one-hot. Training with contrastive divergence applies the documented update, including decay, momentum and learning rate, reproducibly for a given random seed.",
 ["inputs", "configurations"], "every small machine (enumerable state space), every weight setting and batch",
 "Tests check a few hand-computed energies and coarse convergence.",
 ["mdp/nodes/rbm_nodes.py"],
 [("energy and conditionals", "mdp/nodes/rbm_nodes.py:RBMNode,RBMWithLabelsNode"), ("contrastive divergence update", "mdp/nodes/rbm_nodes.py:RBMNode._train")])

prop("P14", "Neural gas networks stay valid graphs and move as specified",
 "At every point of any training history a growing neural gas is a simple undirected graph with at most the allowed number of nodes, without isolated leftovers or edges older than the maximum age, and each presented sample moves the closest node and its neighbours towards the sample by the configured fractions, updates errors, inserts and removes nodes as the published algorithm says. The fixed-size variant keeps its node count, ranks all nodes by distance and moves each by the documented neighbourhood function; nearest-node queries return the true nearest positions and distances.",
 ["inputs", "histories"], "every data stream, chunking and parameter setting",
 "Tests look only at the final graph on easy distributions.",
 ["mdp/nodes/neural_gas_nodes.py", "mdp/graph/graph.py"],
 [("GrowingNeuralGasNode", "mdp/nodes/neural_gas_nodes.py"), ("NeuralGasNode", "mdp/nodes/neural_gas_nodes.py"), ("Graph", "mdp/graph/graph.py")])

prop("P15", "Covariance accumulators and linear-algebra helpers match their definitions",
 "Every covariance accumulator (plain, time-delayed, several delays at once, variable time step, cross) returns, for any sequence of updates, the matrix, mean and count its definition gives on the concatenated data, is reset after being finished, and keeps working after reset. Symmetric and generalised eigen-solvers (including the rank-deficient variants) return ascending eigenvalues with correctly normalised vectors solving the problem in the requested index range, and the small numerical helpers (rotations, permutations, random matrices of a given kind, cross-correlation, counting, lists of combinations, orthogonalisation) return what they name.",
 ["inputs", "histories"], "every data sequence, delay, chunking, matrix of the accepted class and argument combination",
 "Tests compare a few random matrices with loose tolerances.",
 ["mdp/utils/covariance.py", "mdp/utils/routines.py", "mdp/utils/_symeig.py", "mdp/utils/symeig_semidefinite.py"],
 [("accumulators", "mdp/utils/covariance.py"), ("symeig wrappers", "mdp/utils/_symeig.py, mdp/utils/symeig_semidefinite.py"), ("helpers", "mdp/utils/routines.py")])

prop("P16", "Quadratic form analysis is exact",
 "A quadratic form object evaluates to the stated polynomial for every input. The extrema it reports under a norm constraint lie on the sphere of that norm (unless the form is definite and its own optimum lies inside, which is then reported) and are not beaten by any other point of the sphere. The invariance directions reported for a point are orthonormal tangent directions of the sphere at that point, whose second derivatives along the sphere are as reported and sorted by absolute value. Matrices that are not symmetric are refused.",
 ["inputs"], "every symmetric matrix, linear term, constant and sphere radius in general position",
 "Tests use two or three matrices.",
 ["mdp/utils/quad_forms.py"],
 [("QuadraticForm", "mdp/utils/quad_forms.py:QuadraticForm")])

prop("P17", "A flow is the composition of its nodes",
 "Training a flow trains each node, in order and through all its phases, on exactly the data produced by the already trained nodes before it, passing per-node extra arguments to the right node, and executing or inverting a flow (entirely or up to a node, on one array or an iterable of arrays) equals applying the nodes one after another. Arrays, lists, generators-with-restart and iterator objects holding the same chunks give the same result, already trained or untrainable nodes are left alone, and unsuitable data sources (one-shot generators for multi-phase nodes, wrong counts, missing data) are refused with the flow exception.",
 ["inputs", "programs", "configurations"], "every list of compatible nodes, every partition of the data, every form of data iterable",
 "Tests build a few three-node flows.",
 ["mdp/linear_flows.py"],
 [("Flow.train/_train_node/_train_check_iterables", "mdp/linear_flows.py:Flow"), ("Flow.execute/inverse/_execute_seq", "mdp/linear_flows.py:Flow")])

prop("P18", "Flows behave like dimension-checked lists and survive failures",
 "Any sequence of list operations on a flow (index, slice, assignment, deletion, insert, append, extend, pop, concatenation, in-place concatenation, iteration, membership, length, node addition operators) gives the nodes a plain list would give, and is refused exactly when adjacent dimensions would disagree or a non-node is put in; a refused operation leaves the flow unchanged. When a node fails during training, execution or inversion, the flow reports the failing node by position with the original error text, can be saved for inspection when asked, and still holds the same nodes; checkpoints are called after their node and only then.",
 ["histories", "fault_sequences"], "every operation sequence over nodes with fixed or free dimensions, and every node position and call at which a failure is injected",
 "Tests try each operation once from one state.",
 ["mdp/linear_flows.py", "mdp/signal_node.py"],
 [("container methods with consistency checks", "mdp/linear_flows.py:Flow.__setitem__ etc."), ("_check_nodes_consistency/_check_dim_consistency", "mdp/linear_flows.py"), ("crash recovery", "mdp/linear_flows.py:Flow._propagate_exception"), ("CheckpointFlow", "mdp/linear_flows.py")])

prop("P19", "Copies, pickles and saved files are faithful and independent",
 "At any point of its life (fresh, mid-training, between phases, trained) a node or flow that is copied, pickled, or saved and reloaded gives an object that continues exactly as the original would: same state queries, same further training, same outputs. The two objects are independent: nothing done to one is visible in the other.",
 ["inputs", "histories"], "every node class, flow and layer structure at every point of its training",
 "Tests copy trivially built nodes and compare once.",
 ["mdp/signal_node.py", "mdp/linear_flows.py", "mdp/hinet/flownode.py"],
 [("Node.copy/save/__getstate__", "mdp/signal_node.py:Node"), ("Flow.copy/save", "mdp/linear_flows.py:Flow"), ("FlowNode.copy", "mdp/hinet/flownode.py")])

prop("P20", "Extensions add and remove class behaviour exactly",
 "After any sequence of activating and deactivating extensions (functions, decorators, context managers, nested or repeated, several at once, failing half way), each node class exposes exactly the methods of the currently active extensions, resolved through inheritance as if written in the class, and deactivating restores every class attribute to what it was before. Setup and teardown hooks run once per activation and deactivation, name conflicts between simultaneously active extensions are refused without side effects, and instances created before activation see the same behaviour.",
 ["histories", "fault_sequences"], "every class hierarchy, registration pattern and activation history, including errors raised inside the protected block",
 "Tests use single activations on a two-class hierarchy.",
 ["mdp/extension.py"],
 [("activate_extension/deactivate_extension", "mdp/extension.py"), ("ExtensionNodeMetaclass registration", "mdp/extension.py"), ("with_extension/extension context", "mdp/extension.py")])

prop("P21", "Schedulers run every task once and return results in order",
 "Whatever the mix of task durations, callables, result containers and worker counts, each scheduler (serial, thread, process) executes every added task exactly once with the callable that was current for it, forks callables so that tasks do not disturb each other or the caller's callable, returns ordered results in order of addition, empties itself on collection so that it can be reused, reports correct open-task counts, and never runs more than the configured number of tasks at the same time. A failing task surfaces as an error or leaves the scheduler usable, and never a silently missing or duplicated result nor a dead wait.",
 ["schedules", "fault_sequences", "histories"], "every sequence of add/set-callable/collect/shutdown calls, task timing and failing task position",
 "Tests run a fixed handful of equal-duration tasks.",
 ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
 [("Scheduler.add_task/get_results locking", "mdp/parallel/scheduling.py"), ("ThreadScheduler", "mdp/parallel/thread_schedule.py"), ("ProcessScheduler", "mdp/parallel/process_schedule.py")])

prop("P22", "Parallel training and execution equal the serial result",
 "For every node that declares parallel support, splitting the training data over forks in any way and joining them gives the model that serial training gives, and forks never disturb the original or each other. A parallel flow with any scheduler (including none) and any chunking trains and executes to the same model and output, in the same order, as the ordinary flow with the same nodes, handing out each chunk exactly once, and non-parallel nodes inside it are trained locally; checkpointed variants call their checkpoints alike.",
 ["schedules", "inputs", "programs"], "every parallelisable node and flow, every chunking and assignment of chunks to forks, every scheduler",
 "Tests compare one chunking per node, mostly only checking that it runs.",
 ["mdp/parallel/parallelnodes.py", "mdp/parallel/parallelflows.py", "mdp/parallel/parallelclassifiers.py", "mdp/parallel/parallelhinet.py"],
 [("fork/join per node", "mdp/parallel/parallelnodes.py, mdp/parallel/parallelclassifiers.py"), ("ParallelFlow task state machine", "mdp/parallel/parallelflows.py"), ("layer/flownode forks", "mdp/parallel/parallelhinet.py")])

prop("P23", "Layers and flow-nodes equal their unrolled computation",
 "A layer trains and executes each of its nodes on its own consecutive slice of the input channels and concatenates the outputs, a clone layer shares one node across slices (as if trained on all slices in turn), a same-input layer feeds every node the full input, and a flow wrapped as a node behaves like that flow, through all training phases and in inversion. Dimension, type, invertibility and trainability reported by the composite follow from its parts, and arbitrary nesting behaves like the unrolled computation.",
 ["programs", "inputs"], "every nesting of layers, clone layers, same-input layers and flow-nodes over nodes of any dimension",
 "Tests use layers of identical tiny nodes.",
 ["mdp/hinet/layer.py", "mdp/hinet/flownode.py"],
 [("Layer/CloneLayer/SameInputLayer", "mdp/hinet/layer.py"), ("FlowNode training sequence", "mdp/hinet/flownode.py")])

prop("P24", "Switchboards route the receptive field geometry they describe",
 "A switchboard outputs, for every connection, the value of the connected input, and its inverse (when the connections form an injective map) restores the input, the mean-inverse variant averaging repeated connections. Every geometric switchboard (two-dimensional rectangular, double, double-rhomb) covers exactly the receptive fields given by field size, spacing and channel shape, groups them consistently with the reported output channel counts, returns for an output channel exactly the input channels its field covers, and refuses geometries that cannot cover the channels unless told to ignore uncovered ones.",
 ["inputs", "configurations"], "every connection list, and every geometry (channel shape, field size, spacing, channel dimension, ignore option) up to moderate size",
 "Tests check a few fixed geometries against tables.",
 ["mdp/hinet/switchboard.py", "mdp/hinet/switchboard_factory.py"],
 [("Switchboard/MeanInverseSwitchboard", "mdp/hinet/switchboard.py"), ("Rectangular2dSwitchboard, DoubleRect2dSwitchboard, DoubleRhomb2dSwitchboard", "mdp/hinet/switchboard.py"), ("factory", "mdp/hinet/switchboard_factory.py")])

prop("P25", "Online nodes and flows process streams sample by sample",
 "An online node counts every processed sample, can be executed at any moment with its current parameters, and gives the same result for a stream regardless of how it is cut into chunks when it works incrementally; an online flow updates each node with the outputs of the nodes before it for each sample, keeps trained non-online nodes fixed, and a circular flow feeds stored outputs back in the configured cyclic order, for the configured number of iterations, between the configured input and output nodes. Online layers and flow-nodes equal their unrolled sequence.",
 ["histories", "inputs"], "every stream, chunking, flow composition and circular-flow configuration",
 "Tests check fixed streams of a few samples in one configuration.",
 ["mdp/signal_node_online.py", "mdp/linear_flows_online.py", "mdp/hinet/layer_online.py", "mdp/hinet/flownode_online.py"],
 [("OnlineNode train loop", "mdp/signal_node_online.py"), ("OnlineFlow/CircularOnlineFlow", "mdp/linear_flows_online.py"), ("OnlineLayer/OnlineFlowNode", "mdp/hinet/*_online.py")])

prop("P26", "Online algorithms follow their update rules and converge to the batch solution",
 "Online centering, time-difference, incremental principal component, minor component and incremental slow-feature nodes apply exactly their published update for every sample, with learning rate, amnesia and initial vectors as configured, so that their state after any stream equals the reference recursion. On stationary data with distinct eigenvalues they approach the corresponding batch solution, and identical seeds give identical runs.",
 ["inputs", "histories"], "every data stream, parameter setting and initialisation",
 "Tests only check coarse convergence on one stream.",
 ["mdp/nodes/stats_nodes_online.py", "mdp/nodes/pca_nodes_online.py", "mdp/nodes/mca_nodes_online.py", "mdp/nodes/sfa_nodes_online.py"],
 [("OnlineCenteringNode/OnlineTimeDiffNode", "mdp/nodes/stats_nodes_online.py"), ("CCIPCANode/CCIPCAWhiteningNode", "mdp/nodes/pca_nodes_online.py"), ("MCANode", "mdp/nodes/mca_nodes_online.py"), ("IncSFANode", "mdp/nodes/sfa_nodes_online.py")])

prop("P27", "Caching never changes results",
 "With execution caching active, for any selection of cached classes or instances and any history of executions, retraining, copying, directory changes and deactivation, every execute returns exactly what it would return without caching, including for equal-looking inputs of different shape or type and for differently trained nodes of the same class. Caching is confined to the chosen classes or instances and to the chosen directory, and leaving the cached section restores normal execution.",
 ["histories", "inputs"], "every history of cached and uncached executions over several nodes",
 "Tests check that a second call is cached for one node.",
 ["mdp/caching/caching_extension.py"],
 [("CacheExecuteExtensionNode", "mdp/caching/caching_extension.py"), ("activate_caching/deactivate_caching/cache context", "mdp/caching/caching_extension.py")])

prop("P28", "Bidirectional nodes parse messages and targets as documented",
 "A bidirectional node takes from each message exactly the entries addressed to it: those prefixed by its id, which are removed, and the plain names its method accepts, which stay in the message. Method and target entries select the method and the target, the matching entries become the method's arguments, an explicit message argument receives and replaces the rest, everything else (also entries for other nodes) is forwarded unchanged and merged with the entries returned by the method, and only documented result shapes are returned. Stored stop messages stay as they were given, and coroutine methods continue where they stopped until they end or are reset. Automatically generated bidirectional versions of ordinary nodes compute the same as the ordinary nodes, keep constructor arguments, and train, stop, copy and pickle alike.",
 ["inputs", "histories"], "every message dictionary, method signature, node id and result shape",
 "Tests cover a few literal messages.",
 ["bimdp/binode.py", "bimdp/nodes/autogen.py", "bimdp/nodes/miscnodes.py"],
 [("message extraction and target parsing", "bimdp/binode.py:BiNode"), ("autogenerated classes", "bimdp/nodes/autogen.py")])

prop("P29", "Bidirectional flows follow jumps and messages exactly",
 "Executing or training a bidirectional flow visits nodes exactly as the returned targets say (relative steps, names, exits), carrying the data and merged messages from node to node, stopping at the end or the exit, refusing unknown or cyclic-invalid targets with the flow exception; with ordinary nodes and no messages it equals the ordinary flow in training, execution and inversion. Bidirectional layers split data, messages and targets among their nodes and join results like separate nodes would, and results of chunked execution are combined in order.",
 ["programs", "inputs", "histories"], "every flow program (sequence of scripted node replies), message content and chunking",
 "Tests script a few jump sequences.",
 ["bimdp/biflow.py", "bimdp/hinet/bilayer.py", "bimdp/hinet/biflownode.py"],
 [("BiFlow._execute_seq, _target_to_index", "bimdp/biflow.py"), ("MessageResultContainer", "bimdp/biflow.py"), ("BiLayer/CloneBiLayer/BiFlowNode", "bimdp/hinet")])

prop("P30", "Parallel bidirectional flows equal serial ones",
 "Parallel bidirectional flows with any scheduler give the same trained nodes, outputs and result messages, in the same order, as the serial bidirectional flow on the same chunks, including nodes that collect state during execution or answer with stop messages.",
 ["schedules", "programs"], "every chunking, scheduler and flow of plain, scripted and forkable nodes",
 "Tests only check that a fixed flow runs in parallel.",
 ["bimdp/parallel/parallelbiflow.py", "bimdp/parallel/parallelbihinet.py"],
 [("ParallelBiFlow task handling", "bimdp/parallel/parallelbiflow.py"), ("fork/join of binodes", "bimdp/parallel/*.py")])

prop("P31", "Gradients are the derivatives of execution",
 "With the gradient extension active, the gradient reported for a node, layer, switchboard or whole flow at any input is the Jacobian of its execution there, composed by the chain rule across nodes, for every row of the batch. Requesting it leaves the execution result and the node unchanged.",
 ["inputs", "programs"], "every supported node and composition at every differentiable point",
 "Tests check a few nodes at single points.",
 ["bimdp/nodes/gradient.py"],
 [("_gradient implementations", "bimdp/nodes/gradient.py")])

prop("P32", "The graph library implements directed graphs",
 "After any sequence of adding and removing nodes and edges, queries (neighbours, degrees, edges between nodes, node and edge counts) agree with the plain set-of-edges definition; topological order respects every edge or reports a cycle, depth- and breadth-first traversals visit exactly the reachable nodes once in valid order, connected components are the true ones, and bulk operations equal their single-step counterparts.",
 ["histories"], "every sequence of graph operations, including multi-edges and self-loops",
 "Tests use small hand-made acyclic graphs.",
 ["mdp/graph/graph.py"],
 [("Graph", "mdp/graph/graph.py")])

prop("P33", "Inspection and HTML rendering are faithful and side-effect free",
 "Tracing the training or execution of a flow for inspection returns the same results as untraced operation, writes one slide per traced step inside the given directory only, and leaves the flow as it was (no wrappers, still copyable and picklable), also when the traced step fails. Templates render exactly the values of their expressions and escapes, flow representations mention every contained node, size and attribute reports (dig_node, get_node_size) name the arrays that are there, slide shows keep the given files, order and settings, progressinfo yields exactly the items of its sequence and reports true counts, and temporary directories are removed with their contents and nothing else.",
 ["programs", "inputs", "fault_sequences"], "every flow structure, template text and directory content",
 "Tests do not exercise inspection at all and render one template.",
 ["bimdp/inspection/*.py", "mdp/utils/templet.py", "mdp/hinet/htmlvisitor.py", "mdp/utils/temporarydir.py", "mdp/utils/slideshow.py"],
 [("tracing decoration", "bimdp/inspection/tracer.py"), ("template compiler", "mdp/utils/templet.py"), ("HTML visitor", "mdp/hinet/htmlvisitor.py"), ("TemporaryDirectory", "mdp/utils/temporarydir.py")])

prop("P34", "Wrapped external estimators behave like the original library",
 "Nodes generated from scikit-learn estimators and the support-vector node give, for every data set, chunking of the training data, label type and parameter setting, the outputs (transform, predict, labels, probabilities) that the original estimator gives when fitted on the same complete data with the same parameters. Parameters are passed through unchanged and original labels are restored.",
 ["inputs", "configurations"], "every wrapped estimator class in a deterministic sample, every data set and chunking",
 "Tests only check that each wrapper runs.",
 ["mdp/nodes/scikits_nodes.py", "mdp/nodes/libsvm_classifier.py", "mdp/nodes/svm_classifiers.py"],
 [("wrapper factories", "mdp/nodes/scikits_nodes.py"), ("label normalisation", "mdp/nodes/svm_classifiers.py")])

prop("P35", "Locally linear embedding reconstructs from true neighbours",
 "Locally linear embedding maps training data to an embedding that is centred, decorrelated and of equal variance, minimising the reconstruction cost built from each sample's k true nearest neighbours; executing a sample applies the regularised weights of its own nearest training samples to their embedding, which returns the embedding of a training sample as the regularisation vanishes. The Hessian variant recovers isometric planar data up to an affine map.",
 ["inputs", "configurations"], "every data set in general position, neighbour count and output dimension",
 "Tests check one line and one swiss roll.",
 ["mdp/nodes/lle_nodes.py"],
 [("LLENode", "mdp/nodes/lle_nodes.py"), ("HLLENode", "mdp/nodes/lle_nodes.py")])

prop("P36", "Reporting options do not change what is computed",
 "Options that only report on progress or keep extra information (verbose, debug) leave every result as it is: for the same data, seed and settings, training and execution of every node, flow and scheduler with the option on gives the same outputs, the same learned parameters and fails in the same cases as with it off, and the debug information kept describes the computation that took place.",
 ["inputs", "configurations"], "every node, flow and scheduler that has such an option, over generated data and settings",
 "Tests never turn these options on, or only once without comparing.",
 ["mdp/nodes/*.py", "mdp/linear_flows.py", "mdp/parallel/scheduling.py", "mdp/extension.py"],
 [("verbose and debug branches of nodes", "mdp/nodes/*.py"), ("Flow verbose", "mdp/linear_flows.py"), ("scheduler verbose", "mdp/parallel/scheduling.py")])

prop("P37", "Inversion undoes execution",
 "For every node that says it is invertible, in every configuration, executing the inverse of outputs gives those outputs back, and with as many outputs as inputs the inverse gives the inputs back; for linear nodes this holds for arbitrary vectors of the output space. Reconstructing twice changes nothing more, rows are inverted independently, the number-of-components argument equals zeroing the other components, and the data type and dimension contract is that of execution. Flows, layers, flow nodes and switchboards invert exactly when all their parts do, in reverse order. Nodes that are not invertible refuse.",
 ["inputs", "configurations", "programs"], "every node, training data set and composition of invertible nodes",
 "Tests invert a few nodes on one data set.",
 ["mdp/signal_node.py", "mdp/nodes/*.py", "mdp/hinet/layer.py", "mdp/hinet/flownode.py", "mdp/hinet/switchboard.py", "mdp/linear_flows.py"],
 [("Node.inverse and its checks", "mdp/signal_node.py"), ("_inverse implementations", "mdp/nodes/*.py"), ("Flow._inverse_seq", "mdp/linear_flows.py")])

prop("P38", "Optional dependencies and backends never change results",
 "The library imports with every combination of optional dependencies present, absent or too old and every setting of the environment variables that disable them; the configuration object reports exactly what is available and why the rest is not, exactly the names that depend on absent packages are absent, every public name exists, is documented in its public module and can be pickled by it, and nothing is printed. Which numerical backend (numpy or scipy) and which optional packages are used does not change the results of nodes, flows and library functions beyond rounding.",
 ["configurations", "inputs"], "every combination of optional packages, environment variables and backend, over generated data",
 "The tests run in one installation with one backend.",
 ["mdp/configuration.py", "mdp/__init__.py", "mdp/repo_revision.py", "mdp/utils/__init__.py", "mdp/utils/_symeig.py"],
 [("config.ExternalDep registry", "mdp/configuration.py"), ("set_configuration", "mdp/configuration.py"), ("fixup_namespace", "mdp/utils/__init__.py"), ("matmult, svd, symeig wrappers", "mdp/utils/__init__.py")])

os.makedirs("/verif", exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
