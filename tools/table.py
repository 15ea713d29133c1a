TB = 'Trusted: go/packages, go/types and go/ssa, the effect table for calls out of the repository (pta.go), class-hierarchy resolution of interface calls. '

prop('C01', 'Querying a network never changes it, the evidence or earlier answers',
 'Evaluating, maximising, tracing, differentiating, measuring, traversing, printing, drawing or serialising a network leaves every observable part of it (structure, weights, leaf distributions) exactly as it was. The evidence handed in is never modified. Most probable assignments are returned as new assignments that share no memory with the evidence or with the network.',
 ['inputs', 'histories'], 'every network, every evidence, every sequence of queries',
 'Tests run one query and look at its answer; whether a query has changed a weight, a leaf or the evidence shows only in a later answer, for some shape of network.',
 ['spn/sum.go', 'spn/product.go', 'spn/multinom.go', 'spn/gaussian.go', 'spn/indicator.go', 'spn/utils.go', 'spn/search.go', 'spn/topo.go', 'spn/print.go', 'spn/serial.go', 'learn/derive.go', 'io/spn.go', 'io/output.go'],
 [('fresh result map per leaf', 'ArgMax of each leaf type'), ('results written to storage tables only', 'spn/utils.go StoreInference, StoreMAP; learn/derive.go')],
 'context-cloned points-to and write-effect analysis', TB + 'Decides absence of writes to pre-existing memory along every call path; the lazily computed scope list is excluded.')

prop('C02', 'Learning, evaluation and clustering leave the caller\'s data untouched',
 'No learner, scorer, clustering routine, independence test, statistic or writer modifies the dataset, evidence, label list, matrix or variable descriptions handed to it. After the call the caller\'s data holds the same instances, in the same order, with the same values.',
 ['inputs', 'configurations', 'schedules'], 'every dataset, every configuration, every worker schedule',
 'Tests look at the learned model, not at the data afterwards; sharing of rows or maps shows only in a later use of the same data.',
 ['learn/gens/gens.go', 'learn/poon/poon.go', 'learn/dennis/dennis.go', 'learn/generative.go', 'learn/discriminative.go', 'score/score.go', 'utils/cluster/kmeans.go', 'utils/cluster/kmedoid.go', 'utils/cluster/kmode.go', 'utils/cluster/dbscan.go', 'utils/cluster/optics.go', 'utils/indep/chisq.go', 'utils/indep/gtest.go', 'io/output.go', 'app/image.go'],
 [('copies made before values are hidden or rows removed', 'score/score.go hideValues and copyExcept; utils/cluster data copies')],
 'context-cloned points-to and write-effect analysis', TB + 'Every exported function of the listed packages with a data parameter is an entry point; every write reachable from it is compared with the memory reachable from that parameter.')

prop('C03', 'Dataset manipulation returns independent copies and keeps its input intact',
 'Copying, joining, splitting, dividing, partitioning, selecting and subtracting labels return datasets, instances and label lists that share no memory with what was passed in. Apart from shuffling, which works in place, none of them modifies its arguments.',
 ['inputs', 'histories'], 'every dataset and label list, every later modification of either side',
 'No test covers the data package at all; sharing is invisible until one side is modified later.',
 ['data/manipulate.go'],
 [('per-instance copy', 'data/manipulate.go Copy and the copies in Split, Divide, Partition')],
 'points-to reachability between results and arguments', TB + 'Decides disjointness of all memory reachable from the results and from the arguments.')

prop('C08', 'All randomness comes from the one seeded generator',
 'Every random choice made by the network, learning, clustering, evaluation and support code of this repository is drawn from the library\'s own generator, which is always built from the seed it reports. Setting a seed therefore determines all random choices that follow.',
 ['inputs', 'histories', 'configurations'], 'every seed, every sequence of random choices',
 'A test with one seed cannot tell a seeded draw from an unseeded one, and a draw from another source shows only between runs.',
 ['sys/rand.go', 'utils/cluster/kmeans.go', 'utils/cluster/kmedoid.go', 'spn/sum.go', 'learn/gens/gens.go', 'learn/dennis/dennis.go'],
 [('seeded generator', 'sys/rand.go')],
 'reference scan over resolved callees plus seed/generator pairing', TB + 'The third-party k-means library seeds itself and is excluded.')

prop('C18', 'Files are created or changed only where the caller asked',
 'Inference, learning, clustering, evaluation, dataset manipulation and every reader never create, truncate, rename or remove a file. Writers open for writing only paths computed from the path arguments they were given.',
 ['inputs', 'configurations'], 'every call of every entry point',
 'A stray output file is not looked for by any test, and may depend on a rarely taken configuration.',
 ['io/output.go', 'io/input.go', 'io/images.go', 'io/spn.go', 'io/npy.go', 'io/arff.go', 'learn/poon/poon.go', 'score/score.go', 'sys/print.go'],
 [('os.Open in readers, os.Create in writers only', 'io/*.go')],
 'call-graph reachability plus dataflow from path arguments', TB + 'Packages app and the built-in dataset downloader are outside the statement\'s scope.')

prop('C22', 'The library is silent unless verbose logging is switched on',
 'The network, learning, clustering, evaluation, dataset and support code writes nothing to standard output or standard error unless verbose logging is on. The only exception is the report of a failure immediately before the operation that failed is abandoned.',
 ['inputs', 'configurations'], 'every call, every configuration',
 'Test output is not inspected, and a stray print may sit on a rarely taken branch.',
 ['sys/print.go', 'sys/vars.go', 'learn/gens/gens.go', 'learn/poon/poon.go', 'learn/generative.go', 'learn/discriminative.go', 'utils/cluster/kmode.go'],
 [('verbosity guard', 'sys/print.go')],
 'control-dependence of output calls on the verbosity switch', TB + 'A failure report is an output call dominated by a non-nil error or failed lookup whose block leaves the function.')

prop('C05', 'Shared random state and parameter table are used under their lock',
 'Every use of the library\'s random generator and seed through its own functions, and of the table that binds learning parameters to networks, happens while one common lock is held, so they may be used from any number of goroutines at once. Every exported function of the library releases every lock it takes on every path, never takes a lock it already holds, and never releases one it does not hold.',
 ['schedules', 'histories', 'inputs'], 'every interleaving of calls, every path through every exported function',
 'A missing or leaked lock shows only under a particular interleaving or on a rarely taken path.',
 ['sys/rand.go', 'learn/parameters/parameters.go', 'score/score.go', 'learn/gens/gens.go', 'conc/queue.go'],
 [('mutex around the generator', 'sys/rand.go'), ('mutex around bindings', 'learn/parameters/parameters.go')],
 'interprocedural lockset dataflow', TB + 'Lock identity is the memory the lock occupies; panics inside a critical section are not modelled.')

prop('C06', 'The worker queue runs each job once, within its limit, and is awaited',
 'A job submitted to the concurrency queue is run exactly once with the number it was submitted with, never more jobs run at the same time than the (always positive) limit, and a job waiting for room is always woken once another has finished. Waiting on the queue returns only after every submitted job has finished. No concurrent learner, scorer or other exported function returns while a worker it started may still be running.',
 ['schedules', 'histories', 'inputs'], 'every interleaving, every number of jobs, every limit',
 'Lost wake-ups, overshoot of the limit and early returns need a particular interleaving.',
 ['conc/queue.go', 'learn/gens/gens.go', 'score/score.go', 'app/image.go', 'utils/cluster/kmedoid.go'],
 [('condition variable with re-check', 'conc/queue.go SingleQueue.Run'), ('wait group', 'conc/queue.go SingleQueue.Wait')],
 'typestate dataflow over wait groups, locks and condition variables', TB + 'Termination of the submitted jobs themselves is not decided.')

prop('C07', 'Concurrent learning and scoring share no memory without a lock',
 'In every concurrent learner, scorer and application entry point, memory written by one worker and accessed by another worker, or by the code that started it before waiting for it, is accessed under one common lock; otherwise each worker touches only its own element. The outcome therefore does not depend on a data race under any schedule.',
 ['schedules', 'inputs', 'configurations'], 'every interleaving of workers, every number of workers',
 'The race detector sees only the schedule that happened to run, and no test runs the concurrent entry points.',
 ['learn/gens/gens.go', 'score/score.go', 'app/image.go', 'conc/queue.go', 'spn/sum.go', 'spn/product.go'],
 [('mutex around shared results', 'learn/gens/gens.go clusterStep and indepStep; score/score.go EvaluatePosteriorConc'), ('own storer per worker', 'score/score.go')],
 'points-to based lockset race detection', TB + 'Accesses to elements chosen by the worker\'s own index are treated as disjoint.')


FORM = 'Deciding step: a symbolic value numbering of the SSA form (scalar evolution of loops into sums, products, maxima, arrays; normal forms for polynomials and logarithms; case analysis over branch conditions) compared with the specified formula. No path is executed and no solver is used. A computation the normal form does not cover is left undecided and reported as such in the evidence, never as a violation. Arithmetic is exact real arithmetic: rounding is not decided. '

prop('C10', 'Every way of evaluating a network computes its defined value',
 'The logarithm of a sum node\'s value is the logarithm of the weighted sum of all its children\'s values, each with its own weight; a product node\'s is the sum of all its children\'s logarithms; a leaf\'s is its own value for the evidence. Recursive evaluation, evaluation by topological order, evaluation with one variable replaced by a given value, and evaluation into a storage table all give every node exactly this value, for every network (a single leaf included) and every evidence, zero weights and impossible evidence included.',
 ['inputs', 'histories'], 'every network, every evidence',
 'A test evaluates a few small networks; a slip for a zero weight, a shared child, the last child or a leaf at the root stays invisible.',
 ['spn/sum.go', 'spn/product.go', 'spn/utils.go'],
 [('node values', 'spn/sum.go Value, spn/product.go Value'), ('bottom-up passes', 'spn/utils.go Inference, InferenceY, StoreInference')],
 'symbolic value numbering of the node computations against the defining formula', TB + FORM + 'Order of evaluation (children before parents) is C09.')

prop('C11', 'Most probable states are the maximum, and attain it',
 'The most-probable-explanation value of a sum node is the largest weight times child value over all its children, of a product node the product over all its children, of a leaf its own maximum given the evidence. The state reported with it follows from each sum node a child that attains this maximum, from each product node every child, and takes each leaf\'s own maximiser. This holds alike for the recursive form, the table-driven form and the traced form.',
 ['inputs', 'histories'], 'every network, every evidence',
 'Value and state are computed by different loops; a disagreement between them needs ties, zero weights or a particular order of children.',
 ['spn/sum.go', 'spn/product.go', 'spn/utils.go'],
 [('node maxima', 'Max and ArgMax in spn/sum.go and spn/product.go'), ('two-pass MAP', 'spn/utils.go StoreMAP, TraceMAP')],
 'symbolic value numbering of the maximisations against the defining formula', TB + FORM + 'That this max-product state is globally the most probable one is a theorem about selective networks and not decided.')

prop('C12', 'Derivatives obey the network\'s chain rule',
 'The derivative of the root with respect to itself is one; every sum node adds its weight times its own derivative to each child\'s derivative, every product node adds its own derivative times the values of the child\'s siblings. The derivative with respect to each weight of each sum node is the child\'s value times the node\'s derivative, batches add these up, and hard derivatives count one for exactly the edge of each sum node that the most probable state takes.',
 ['inputs', 'histories'], 'every network, every evidence, every batch',
 'The tests check finite examples of one shape; shared children, several parents and zero values are where contributions get lost.',
 ['learn/derive.go', 'learn/discriminative.go'],
 [('derivative passes', 'learn/derive.go DeriveSPN, DeriveWeights, DeriveWeightsBatch, DeriveHard; learn/discriminative.go storeDGD')],
 'symbolic value numbering of the derivative updates against the chain rule', TB + FORM)

prop('C13', 'Leaves honour the evidence in value, maximum and maximiser',
 'For every kind of leaf an unobserved variable contributes probability one, the maximum given an observation is the value of that observation, and the value reported together with the maximiser is the maximum. The maximiser keeps an observed value, completes an unobserved variable with a value that attains the maximum, and mentions no other variable.',
 ['inputs'], 'every leaf, every evidence',
 'The contract spans three methods per leaf type and all evidence; tests exercise one leaf type with one assignment.',
 ['spn/multinom.go', 'spn/gaussian.go', 'spn/indicator.go'],
 [('leaf contracts', 'Value, Max and ArgMax of each leaf type')],
 'symbolic value numbering of leaf methods against the leaf contract', TB + FORM)

prop('C14', 'Leaf distributions are the ones their data or parameters define',
 'A multinomial leaf holds exactly the distribution it was given, the add-one smoothed relative frequencies of its counts, or the uniform distribution; its mode is a value of largest probability together with that probability. A Gaussian leaf holds the mean and standard deviation given, or those of its data (centred on the most frequent value where the mode is asked for); an indicator the value given. Each leaf keeps the variable it was created for, and its reported mean and standard deviation are those of its distribution.',
 ['inputs'], 'every count vector, distribution and parameter',
 'Constructors are run on a few vectors; the position of the mode, ties and zero counts are not covered.',
 ['spn/multinom.go', 'spn/gaussian.go', 'spn/indicator.go', 'utils/stats.go'],
 [('constructors', 'New* of each leaf type'), ('statistics', 'utils/stats.go')],
 'symbolic value numbering of the constructors against the defining statistics', TB + FORM)

prop('C15', 'A gradient step changes each weight by its own scaled gradient',
 'Every weight update adds the learning rate times the gradient of that very weight, averaged over the batch, less the regularisation term, for every weight for which a gradient was collected, and changes no other weight. If normalisation was asked for, the node\'s weights are normalised afterwards: negative weights are first shifted to zero, then all are divided by their sum.',
 ['inputs', 'configurations'], 'every network, every learning rate, batch size and regularisation constant',
 'No test runs the learners\' update step for all configurations; a wrong index, sign or missing normalisation only slows learning down.',
 ['learn/generative.go', 'learn/discriminative.go', 'learn/derive.go', 'spn/utils.go'],
 [('update steps', 'learn: applyGD, applyFastGD, applyHGD, applyFastHGD, applyDGD, applyDGDFrom, DeriveApplyWeights'), ('normalisation', 'learn.Normalize, spn.norm')],
 'symbolic value numbering of the weight updates against the update rule', TB + FORM + 'That a step improves the likelihood is not decided.')

prop('C09', 'Traversals reach every node once, sorted after its children',
 'Every walk over a network starts at the node it is given, hands on every child not yet seen of every sum and product node it meets, and meets no node twice, however many parents share it. Topological sorting lists every reachable node exactly once and after all of its children, and the passes that use such an order go through it in the direction their recurrence needs: children first for values and maxima, parents first for derivatives. An early stop or a skipped child occurs only where the walk is defined to stop.',
 ['inputs'], 'every acyclic network, shared children and any sharing pattern included',
 'Tests sort and walk a few small networks; a node visited twice, or before a child reached on a longer path, needs a particular sharing pattern.',
 ['spn/topo.go', 'spn/search.go', 'spn/utils.go', 'learn/derive.go', 'learn/generative.go', 'learn/discriminative.go'],
 [('sorters', 'spn/topo.go TopSortTarjan, TopSortTarjanFunc, TopSortDFS; spn/utils.go order helpers'), ('worklists', 'spn/search.go; spn/utils.go; learn/derive.go; learn/generative.go; learn/discriminative.go')],
 'worklist analysis: symbolic effects (hand-over, mark, emission) of one round against the traversal discipline', TB + FORM + 'Queue and stack order is C17. Recursive depth and running time are not decided.')

prop('C17', 'Queue, stack and storage table keep what they are given',
 'A queue returns its elements first in, first out, a stack last in, first out; adding, peeking, shrinking and inverting lose, duplicate or reorder nothing else, and size and emptiness agree with the contents. A storage table returns, for every ticket, node and position, exactly the value last stored there and reports correctly whether there is one; storing one entry changes no other. Tickets are never handed out twice between purges, and deleting or resetting concerns exactly the named tickets.',
 ['inputs', 'histories'], 'every sequence of operations',
 'Unit tests push a few elements; the shrinking branch only runs past a memory threshold, and ticket reuse needs a delete between two creations.',
 ['common/queue.go', 'common/stack.go', 'spn/storer.go'],
 [('sequences', 'common/queue.go and common/stack.go'), ('tables', 'spn/storer.go')],
 'symbolic value numbering of each operation\'s result and final field contents against the abstract sequence and table', TB + FORM)

prop('C04', 'Dataset manipulation keeps every instance with its values and label',
 'Copying, joining, shuffling, splitting, dividing and partitioning a dataset, and extracting, merging or subtracting a label or variable, yield instances that hold exactly the values of one input instance (less the variable taken out, plus the one merged in), each paired with the label of that same instance. Copy and join preserve order and take every instance exactly once; subtraction and splitting put every instance exactly where its label says; no operation takes the same instance twice. Comparing two datasets answers true only if sizes, variables, values and labels all agree.',
 ['inputs'], 'every dataset, labelling, class count and proportion',
 'The repository\'s tests use one small dataset; a label taken from the wrong position, a permutation restarted per part or a value dropped for one variable only shows for other sizes and splits.',
 ['data/manipulate.go'],
 [('rows and labels', 'data/manipulate.go')],
 'symbolic value numbering of results and map contents against the row-and-label specification; access-path analysis of index tables for the partitioning functions', TB + FORM)


prop('C20', 'Scores count every classification once, and evaluations pair it correctly',
 'Registering a classification raises the total by one, the hits exactly when prediction and expectation agree and the misses otherwise, and records the pair in order; merging, adding and clearing scores sum, concatenate and empty all of it consistently. The confusion matrix counts each recorded pair once, in the row of the expected and the column of the predicted class. Evaluating a network registers, for every instance, the class predicted from that instance without its own label value (the most probable explanation, or the most probable of all classes) against the label at the same position.',
 ['inputs', 'histories'], 'every sequence of scores, every dataset, labelling and network',
 'There are no tests of scores; a swapped pair, a class never tried or a label read from another position still yields plausible accuracies.',
 ['score/score.go'],
 [('scores', 'score/score.go')],
 'symbolic value numbering of final field contents and of the arguments of each registration, with call-order analysis inside the loop over classes', TB + FORM + ' Different parameters of one operation are different score objects.')

prop('C16', 'Gradient learners use every instance once per epoch and apply each gradient once',
 'Every gradient learner passes over the whole dataset as many times as the bound parameters say; the derivatives of an instance are computed from that instance\'s own values (for the discriminative term also from the instance with exactly the label variables removed), into tables that hold nothing of earlier instances. Each gradient is applied to the weights exactly once, with the given learning rate, normalisation flag and batch size: after each instance, or after each full batch and once more for an incomplete last batch. The generic entry points choose the hard or soft, batch or single variant from the bound (or else documented default) parameters and hand each parameter over in its place.',
 ['inputs', 'histories'], 'every network, dataset, batch size, epoch count and parameter binding',
 'The tests train on a handful of instances without batches; a table that is not emptied, a dropped last batch or a label that is not hidden only biases the weights.',
 ['learn/generative.go', 'learn/discriminative.go', 'learn/parameters/parameters.go', 'spn/sum.go'],
 [('learners', 'learn/generative.go and learn/discriminative.go: the eight learners'), ('dispatch', 'learn/generative.go Generative; learn/discriminative.go Discriminative'), ('parameters', 'learn/parameters/parameters.go; Parameters methods in spn')],
 'typestate analysis of the storage tables over all combinations of the learner\'s branch conditions, with symbolic loop domains, guards and arguments', TB + FORM + ' That following the gradient improves the likelihood is not decided.')

prop('C21', 'Variables end up in one group exactly if a chain of dependent pairs links them',
 'Building an independence graph tests every pair of variables not already linked, on the table of that pair\'s own joint counts with its row, column and grand totals and with the given significance, and links the pair exactly when the test finds it dependent. The tests compare the tail of the chi-square distribution with (p-1)(q-1) degrees of freedom at the G or chi-square statistic of the table, empty cells contributing nothing spurious. Every variable starts in a set of its own, linking merges whole sets, and the groups returned list every variable of every set exactly once.',
 ['inputs', 'histories'], 'every data set, number of categories and sequence of merges',
 'There are no tests of the independence code; a wrong total, a pair left out or a child list not updated still yields a partition of some kind.',
 ['utils/indep/gtest.go', 'utils/indep/chisq.go', 'utils/indep/indgraph.go', 'utils/unionfind.go'],
 [('tests', 'utils/indep GTest, ChiSquareTest, ChiSquare'), ('graphs', 'utils/indep NewIndepGraph, NewUFIndepGraph'), ('union-find', 'utils/unionfind.go')],
 'symbolic value numbering (sums over the table, contents of tables of counts) and guarded effects of each call against the definitions', TB + FORM + ' The chi-square distribution itself is that of the gonum library. How often the test errs is not decided.')
prop('C19', 'Log-domain sums and basic statistics equal their definition, without overflow',
 'The log-sum of any slice or pair of log-values is the logarithm of the sum of their exponentials, also when those exponentials would overflow or underflow, and is minus infinity (never not-a-number) when there are no terms or every term is log 0. A logarithm of a sum of exponentials anywhere in the library takes its largest term out first. The mean and standard deviation of a histogram are those of the counted values, and the distances between instances are the Euclidean and Hamming distances.',
 ['inputs'], 'every slice of floats (any length, any magnitude, infinities included), every histogram, every pair of instances of one length',
 'Tests use a handful of moderate probabilities; a missing shift only shows in deep networks whose values underflow.',
 ['utils/log.go', 'utils/stats.go', 'utils/cluster/metrics', 'spn/sum.go', 'learn/derive.go'],
 [('log-sums', 'utils LogSum, LogSumExp, LogSumExpPair, LogSumPair; spn.Sum Compute, ComputeHard'), ('statistics', 'utils Mean, StdDev, MuSigma'), ('distances', 'utils/cluster/metrics')],
 'symbolic value numbering of the results against the definitions; backward slice from every logarithm to the exponentials it sums, whose arguments must be differences from a maximum that is known to be finite on the path', TB + FORM + ' Rounding errors are not decided.')
prop('C23', 'A saved network is loaded back as the same network',
 'Writing a network and reading it back yields a network of the same shape: every node once, of the same type, with its children in the same order (repeated children included), and the same root. Every weight and every parameter of a leaf comes back as exactly the number it was, and what a leaf derives from its parameters (its scope, its most likely value) is derived again from the restored ones. Saving to a file writes exactly the serialized network and loading reads the whole file, and each fails with an error if the file cannot be used.',
 ['inputs'], 'every network of the node types of the library, with shared nodes, repeated children and any parameter values',
 'The one serialization test compares a small network with short decimal weights; lost digits, a parameter left out or swapped children show only for other values.',
 ['spn/serial.go', 'spn/sum.go', 'spn/product.go', 'spn/gaussian.go', 'spn/multinom.go', 'spn/indicator.go', 'io/spn.go'],
 [('node text', 'spn GobEncode/GobDecode methods'), ('graph', 'spn Marshal, Unmarshal'), ('files', 'io SaveSPN, LoadSPN')],
 'the sequences of values written and read by each pair of methods (kind, format, count, order, separation) are extracted from the code and matched; what is read is then substituted by what was written in the symbolic value of every field after loading; guarded effects of the numbering and of the attachment of children', TB + FORM + ' The formats of fmt and gob are taken to be as documented; behaviour on corrupt input is not decided.')
prop('C24', 'What a network reports about its structure is true, and edits do just that',
 'Adding a child to a node appends exactly that child, a weighted child also exactly its weight, after those already there, and changes nothing else; a node reports its own children, weights and kind. The computed scope of a node is the set of all variables of all its children, its height one more than that of its highest child and zero for a leaf. A network is reported complete exactly if at every sum node all children have the same scope, and decomposable exactly if at every product node no two children share a variable; normalising a network normalises the weights of every sum node in it.',
 ['inputs'], 'every network, shared nodes and repeated children included',
 'The tests build two or three fixed valid networks; an incomplete or non-decomposable one, or a node whose highest child is not the last, does not occur.',
 ['spn/node.go', 'spn/sum.go', 'spn/product.go', 'spn/utils.go'],
 [('edits', 'spn AddChild, AddChildW, AddWeight'), ('reports', 'spn Ch, Weights, Type, Sc, Height, ComputeHeight, ComputeScope'), ('validity', 'spn Complete, Decomposable, NormalizeSPN')],
 'guarded effects of each edit; symbolic value numbering of each report against its definition; the conditions under which validity is denied are reduced (scopes of children are part of the scope of the node, counters count what the code adds) to the definition', TB + FORM + ' Scopes cached by a node before further children are added are not decided.')
prop('C26', 'Structure learning splits the data as its algorithm says, losing nothing',
 'Learning from one variable yields a leaf (or mixture of Gaussians) of that variable counted over all instances; with several independent groups of variables it yields a product with exactly one child per group, learned from all instances restricted to exactly the variables of the group. Otherwise it yields a sum with exactly one child per cluster, learned from the instances of that cluster over all variables and weighted by the cluster\'s share of the instances, or, with fewer instances than clusters or a single cluster, a product of one leaf (or mixture) per variable. Number of clusters, significance, distance, density and number of Gaussians are handed down unchanged, and learning with several workers builds the same children as learning with one.',
 ['inputs', 'schedules'], 'every dataset, scope, parameter value and number of workers',
 'There is no test of structure learning; a variable left out of a group, data of the wrong row or a parameter in the wrong place still yields a network, only a worse one.',
 ['learn/gens/gens.go', 'learn/variable.go'],
 [('learners', 'learn/gens Learn, LearnGauss, LearnConcurrent, LearnGaussConcurrent, Binded'), ('steps', 'learn/gens indepStep, clusterStep, newFullyFactorized, newMultinom, newGaussMix')],
 'symbolic value numbering of the result under every combination of the learner\'s conditions; guarded effects (which child, weight, scope and data for which round of which loop) with the jobs of a worker pool taken as calls', TB + FORM + ' Which instances are clustered together and which variables test as independent are taken as the cluster and independence packages give them.')

prop('C25', 'Clustering and conversions of data lose, double and change nothing',
 'Every clustering of a data matrix puts every row into exactly one cluster, under the row\'s own position (or the number the caller gave it), with exactly its values; every clustering of a dataset into lists puts every instance into exactly one list, with the value of every variable under that variable. Turning a dataset into a matrix and back, into columns per variable, or copying a scope keeps every value under its instance and variable, and every variable with its number of categories.',
 ['inputs'], 'every dataset, number of clusters and assignment of instances to clusters',
 'There is no test of the clustering package beyond its metrics; a row kept under the wrong position or with the values of another still yields clusters of the right number and size.',
 ['utils/cluster', 'learn/variable.go'],
 [('clusterings', 'utils/cluster KMeans*, KMode, KMedoid, DBSCAN*, toCluster*, guessToData'), ('conversions', 'learn DataToMatrix*, CompleteDataToMatrix*, MatrixToData, ExtractInstance, DataToVarData, ReflectScope, CopyScope')],
 'guarded effects of the loops that build the result (which row under which key in which round, under which condition) compared with what a clustering has to store; conversions by symbolic value numbering against their definition', TB + FORM + ' Which cluster an instance belongs to is not decided, nor is the ordering clustering (OPTICS); the third-party k-means is taken to return one cluster per observation.')

NAR = 'no sound static argument in reach bounds this: '
prop('N01', 'Gradient learning increases the likelihood of the data', 'Running a gradient or EM learner does not decrease the likelihood it optimises, for a small enough learning rate, and converges.',
 ['inputs', 'histories'], 'every network, dataset and learning rate', 'Tests sample single networks and rates.', ['learn/generative.go', 'learn/discriminative.go'], [('learners', 'learn')],
 na=NAR + 'it quantifies over real-valued trajectories of an optimisation; C12, C13 and C16 decide that the derivatives and updates are the stated ones')
prop('N02', 'Structure learning terminates and yields a valid network', 'Every structure learner terminates on every dataset and yields a complete, decomposable and normalised network.',
 ['inputs'], 'every dataset and parameter value', 'Tests sample small datasets.', ['learn/gens/gens.go', 'learn/dennis', 'learn/poon'], [('learners', 'learn')],
 na=NAR + 'termination rests on a clustering that shrinks the data, which depends on values and on a third-party library; C26 decides what each step of the learner builds')
prop('N03', 'Clusterings are good', 'Clustering converges, and its assignment is locally optimal for the distance used.',
 ['inputs'], 'every dataset and number of clusters', 'Tests sample small datasets.', ['utils/cluster'], [('clustering', 'utils/cluster')],
 na=NAR + 'convergence and optimality of an iteration over real-valued data')
prop('N04', 'Independence tests err no more often than their significance says', 'The rate at which the independence tests report dependence of independent variables is the significance given.',
 ['inputs'], 'every distribution', 'Tests sample few tables.', ['utils/indep'], [('tests', 'utils/indep')],
 na=NAR + 'a statistical statement over distributions of data; C21 decides that the statistic, the degrees of freedom and the comparison are the defined ones')
prop('N05', 'Probabilities over all completions sum to one', 'For a valid normalised network the values of all completions of an evidence sum to the value of the evidence, up to a stated rounding error.',
 ['inputs'], 'every valid normalised network and evidence', 'Tests sample single networks.', ['spn'], [('values', 'spn Value methods')],
 na=NAR + 'it needs a bound on accumulated rounding over graphs of unbounded size; C10 decides the exact-arithmetic formula at every node, from which the exact statement follows')
prop('N06', 'The approximate explanation is the most probable one', 'The max-product explanation is the most probable completion for selective networks.',
 ['inputs'], 'every selective network and evidence', 'Tests sample single networks.', ['spn'], [('argmax', 'spn ArgMax, Max methods')],
 na=NAR + 'selectivity is a semantic property of the weights of the whole graph; C11 decides that every node picks a child of largest value')
