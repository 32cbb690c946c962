# One entry per property: (id, title, statement, over, quantifier text, why tests can't, files, mechanisms, observe)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [])))
NA = []
def na(id, reason): NA.append(dict(property=id, reason=reason))

prop("C01", "Soft inference computes the network polynomial",
 "For every network, parameters and (partial) evidence, the linear-time inference routines, the recursive value and every entry stored by the table-filling variant equal the logarithm of the network's sum-product polynomial at that evidence (unset variables summed out at the leaves), however small. This holds for networks with shared nodes and for a network that is a single leaf, the evidence is not modified, and storing into a ticket never disturbs another ticket.",
 ["inputs", "programs"], "every rooted DAG of sums, products, indicators and multinomials, every non-negative weight and probability, every partial evidence",
 "The tests evaluate a handful of fixed networks at fixed points; the claim is for every graph shape, typing, weight vector and evidence.",
 ["spn/utils.go", "spn/sum.go", "spn/product.go", "spn/indicator.go", "spn/multinom.go", "spn/storer.go", "utils/log.go"],
 [("Inference/InferenceY/StoreInference evaluate in topological order", "spn/utils.go"), ("Value/Compute recursion", "spn/sum.go, spn/product.go"), ("LogSumExp", "utils/log.go")],
 ["spn.Inference", "spn.InferenceY", "spn.StoreInference", "SPN.Value"])
prop("C02", "A valid normalised network is a probability distribution",
 "For every complete and decomposable network with normalised parameters, the probabilities of all complete states add up to one and empty evidence has probability one. Partial evidence has exactly the total probability of its completions, class-joint values add up to the evidence, and evidence on variables outside the network's scope changes nothing.",
 ["inputs", "programs"], "every valid network within the bounds, all parameters, all partial evidence",
 "No test sums over the state space; normalisation over all parameters is a universally quantified identity.",
 ["spn/utils.go", "spn/sum.go", "spn/multinom.go", "utils/log.go"],
 [("leaves return ln 1 for unset variables", "spn/indicator.go, spn/multinom.go"), ("log-domain sums", "utils/log.go")],
 ["spn.Inference", "SPN.Value"])
prop("C03", "MAP inference returns a maximising state",
 "For every network and evidence, the MAP value reported by every MAP routine is the max-product value, and every stored per-node value is that node's max-product value, however small. On complete and decomposable networks with positive parameters the returned state assigns exactly the scope, agrees with the evidence and attains that value, and the trace names a maximising child for each sum of the induced tree, however ties are broken.",
 ["inputs", "programs"], "every network within the bounds, all parameters (ties included), all evidence, every tie-breaking outcome",
 "Tests check values only at one instance of one network; ties, shared nodes and unset indicators are not sampled.",
 ["spn/utils.go", "spn/sum.go", "spn/product.go", "spn/indicator.go", "spn/multinom.go"],
 [("StoreMAP/TraceMAP two-pass max-product", "spn/utils.go"), ("Max/ArgMax recursion", "spn/sum.go")],
 ["spn.StoreMAP", "spn.TraceMAP", "SPN.Max", "SPN.ArgMax"])
prop("C04", "Topological sorts list every node once, children first",
 "For every network graph, each of the topological sorting routines emits every reachable node exactly once and every node only after all of its children, for any order of the child lists and any sharing. The network itself is left unchanged.",
 ["programs", "inputs"], "every rooted DAG within the node bound, every child order",
 "The tests sort two small trees; DAGs with shared nodes and skip edges are not covered.",
 ["spn/topo.go", "spn/search.go", "common/queue.go", "common/stack.go"],
 [("TopSortTarjan, TopSortTarjanRec, TopSortDFS", "spn/topo.go"), ("BreadthFirst/DepthFirst/PostOrder", "spn/search.go")],
 ["spn.TopSortTarjan"])
prop("C05", "Scopes and the completeness and decomposability verdicts are exact",
 "For every network graph, computing scopes gives every node exactly the set of variables of the leaves below it, each listed once, also after the graph has grown; nodes of a valid network report that scope without it. A network is reported complete exactly if the children of every one of its sums have equal scopes and decomposable exactly if the children of every one of its products have disjoint scopes, wherever in the graph the node sits, and asking again gives the same answer.",
 ["programs", "inputs"], "every rooted DAG within the node bound, every sum/product typing, every assignment of variables to leaves, every order of map iteration",
 "The tests ask for one verdict on one tree whose root decides it.",
 ["spn/sum.go", "spn/product.go", "spn/utils.go"],
 [("ComputeScope", "spn/utils.go"), ("Complete, Decomposable", "spn/utils.go"), ("Sc methods", "spn/sum.go, spn/product.go")],
 ["spn.ComputeScope", "spn.Complete", "spn.Decomposable", "SPN.Sc"])
prop("C06", "Traversals visit each node once; counts and heights are exact",
 "For every network graph, the breadth-first and depth-first searches call the visitor exactly once per reachable node, parents first, the breadth-first one in order of distance from the start. A positive result stops the search at once and a negative one skips exactly the nodes reachable only through that node; node counts by type and heights (longest path to a leaf) are exact on graphs with shared nodes.",
 ["programs", "inputs"], "every rooted DAG within the node bound, every child order, every stop and prune point",
 "The tests use small trees and never stop or prune a search.",
 ["spn/search.go", "spn/utils.go", "spn/node.go", "common/queue.go", "common/stack.go"],
 [("BreadthFirst, DepthFirst", "spn/search.go"), ("ComputeHeight, CountNodes", "spn/utils.go, spn/search.go")],
 ["spn.BreadthFirst", "spn.DepthFirst", "spn.ComputeHeight", "spn.CountNodes"])
prop("C07", "Derivatives of the network polynomial are exact",
 "For every network, parameters and evidence, the stored derivative of every node is the logarithm of the partial derivative of the network's value with respect to that node and the stored weight derivatives are those with respect to the weights, shared nodes, zero and very small values included; batch derivatives are the sums over the instances. Hard derivatives count, per instance, exactly one maximising weight for each sum of a MAP tree and nothing else, and weights and stored inference values are left alone.",
 ["inputs", "programs"], "every rooted DAG within the node bound, any parameters, any partial evidence, any tie breaking, any graph-search collection",
 "No test compares a derivative with the polynomial's; the identity must hold for all parameters and graphs.",
 ["learn/derive.go", "spn/utils.go", "spn/storer.go", "utils/log.go"],
 [("DeriveSPN, DeriveWeights, DeriveWeightsBatch, DeriveHard", "learn/derive.go")],
 ["learn.DeriveSPN", "learn.DeriveWeights", "learn.DeriveWeightsBatch", "learn.DeriveHard"])
prop("C08", "Weight normalisation and generative gradient descent are exact",
 "Normalising a network makes the weights of every sum non-negative and add up to one, proportional to the given weights (shifted up by the smallest when one is negative), and changes nothing else. A pass of generative gradient descent changes each weight by exactly the learning rate times the (batch-averaged, decayed) gradient of the instances' likelihood, or in hard mode by the MAP counts, renormalising if asked; the graph and the data are left alone.",
 ["inputs", "programs"], "every rooted DAG within the node bound, any weights and learning rates, any instances",
 "The test suite does not run the learner; the update rule is quantified over weights, rates and data.",
 ["spn/utils.go", "learn/generative.go", "learn/derive.go", "learn/derive.go", "spn/sum.go"],
 [("NormalizeSPN, learn.Normalize", "spn/utils.go, learn/derive.go"), ("Generative and its batch, hard and soft variants", "learn/generative.go")],
 ["spn.NormalizeSPN", "learn.Normalize", "learn.Generative"])
prop("C09", "Discriminative gradient descent follows the conditional likelihood",
 "A pass of discriminative gradient descent changes each weight by exactly the learning rate times the gradient of the log-likelihood of the class given the evidence, averaged over each batch in batch mode. In hard mode it changes it by the learning rate times the difference of the MAP counts with and without the class, over the weight; the instances are left alone.",
 ["inputs", "programs"], "every valid network within the bounds, any positive parameters and learning rates, any complete instances",
 "The test suite does not run the learner; the gradient identity is quantified over networks, weights and instances.",
 ["learn/discriminative.go", "learn/derive.go", "spn/utils.go"],
 [("Discriminative and its batch, hard and soft variants", "learn/discriminative.go")],
 ["learn.Discriminative"])
prop("C10", "Serialised networks and variables come back unchanged",
 "Every network written to memory or to a file and read back has the same graph (shared nodes stay shared), node types, leaf variables, child order, weights and leaf parameters, and therefore the same values, MAP values and structural verdicts; the copy shares no memory with the original. Saving replaces whatever the file held, reading leaves it alone, and missing files and folders are reported as errors. A variable description of any name survives its own round trip.",
 ["inputs", "programs"], "every rooted DAG within the node bound, every parameter however small, every leaf type, every variable number, several file states",
 "No test reads back what was written and compares it; precision loss and lost sharing only show for particular parameters and graphs.",
 ["spn/serial.go", "io/spn.go", "learn/variable.go"],
 [("Marshal and Unmarshal", "spn/serial.go"), ("SaveSPN and LoadSPN", "io/spn.go"), ("Variable gob methods", "learn/variable.go")],
 ["spn.Marshal", "spn.Unmarshal", "io.SaveSPN", "io.LoadSPN", "learn.Variable"])
prop("C11", "Log-domain arithmetic is exact and never NaN on valid operands",
 "For all operands, zeros (minus infinity) and ties included, the log-domain sums, signed sums and products are the logarithms (and signs) of the exact sums and products of the operands. They neither overflow, underflow nor become NaN for operands far outside the range of ordinary numbers, and they leave their arguments alone.",
 ["inputs"], "every slice of operands within the length bound, every sign vector",
 "The identity is quantified over all reals and infinities; no test exercises it.",
 ["utils/log.go"],
 [("LogSumExp, LogSumExpPair, LogSum, LogSumPair, LogProd, LogSumLog, Trim, AntiLog", "utils/log.go")],
 ["utils.LogSumExp", "utils.LogSumExpPair", "utils.LogSumLog", "utils.LogProd", "utils.LogSum"])
prop("C12", "Leaf distributions are exact",
 "A leaf learnt from counts gives every category the smoothed relative frequency, a leaf with nothing learnt is uniform, and a Gaussian learnt from values or counts has exactly their mean (or mode) and standard deviation. Every leaf returns the log-probability (log-density) of the observed value, one when its variable is unset, and under MAP the observed value or, unset, a mode with its log-probability; a Gaussian without deviation is a point mass. Means and deviations reported for distributions and counts are those of the distribution.",
 ["inputs"], "every distribution, count vector and sample within the length bound, every evidence, every tie breaking",
 "No test checks a learnt leaf or a moment; the identities are quantified over all counts, probabilities and observed values.",
 ["spn/multinom.go", "spn/gaussian.go", "spn/indicator.go", "utils/stats.go"],
 [("constructors of multinomials and Gaussians", "spn/multinom.go, spn/gaussian.go"), ("Value, Max, ArgMax of leaves", "spn/multinom.go, spn/gaussian.go, spn/indicator.go"), ("Mean, StdDev, MuSigma", "spn/multinom.go, utils/stats.go")],
 ["spn.NewCountingMultinomial", "spn.NewEmptyMultinomial", "spn.NewGaussian", "SPN.Value", "SPN.ArgMax", "utils.MuSigma"])
prop("C13", "Value tables behave like independent maps under any history",
 "Under any sequence of issuing, storing, reading, deleting, resetting and purging, every entry read from a table is the value last stored at that ticket, node and position, and it exists exactly if it was stored and not deleted since. A new ticket is distinct from all live ones and starts empty, operations on one ticket never disturb another, distinct nodes with equal contents have separate entries, and storing into a dead ticket is refused.",
 ["histories", "inputs"], "every history of operations within the bound, any stored values",
 "No test exercises histories of the tables; all the inference and learning routines rely on them.",
 ["spn/storer.go"],
 [("Storer and StorerTable methods", "spn/storer.go")],
 ["spn.Storer", "spn.StorerTable"])
prop("C14", "Queues and stacks keep their elements and order under any history",
 "Under any sequence of insertions, removals at either end, inversions, resets and shrinks, a queue hands out its elements first in, first out and a stack last in, first out, and both report the right size, emptiness and element at each position. This holds for every shrinking threshold and independently of other collections.",
 ["histories", "inputs", "configurations"], "every history of operations within the bound, any elements, several memory settings",
 "The tests do not touch the collections; the searches and sorts rely on them.",
 ["common/queue.go", "common/stack.go", "common/collection.go"],
 [("Queue", "common/queue.go"), ("Stack", "common/stack.go")],
 ["common.Queue", "common.Stack"])
prop("C15", "Dataset operations lose, invent and mix up nothing",
 "Partitioning (also by label), splitting by label, dividing and shuffling put every instance, intact and with its own label, into exactly one part, with the part sizes asked for up to rounding, whatever the random draws. Copying, joining, subtracting a label or a variable, extracting labels and merging them back give exactly the described instances and labels, results share no memory with the given datasets, and exactly equal datasets compare as identical.",
 ["inputs"], "every dataset, labelling and proportions within the bounds, every random permutation",
 "The tests do not cover the package; the claims quantify over datasets, proportions and random draws.",
 ["data/manipulate.go"],
 [("Partition, PartitionByLabels, Split, Divide, Shuffle", "data/manipulate.go"), ("Copy, Join, SubtractLabel, SubtractVariable, ExtractLabels, MergeLabel, Identical", "data/manipulate.go")],
 ["data.Partition", "data.PartitionByLabels", "data.Split", "data.Divide", "data.Shuffle", "data.Copy", "data.Join", "data.SubtractLabel", "data.SubtractVariable", "data.ExtractLabels", "data.MergeLabel", "data.Identical"])
prop("C16", "Classification scores count exactly what was predicted",
 "For every network, dataset and class variable, scoring counts each instance once as a hit or a miss, in the row of its true class and the column of the class predicted by MAP (or of highest posterior), whether run sequentially or by any number of concurrent jobs under any schedule and for any number of instances. Totals, accuracy and text match the counts, scores add up without sharing memory, and the instances come back as given.",
 ["inputs", "schedules"], "every mixture of factorised distributions within the bounds, any positive parameters, any instances, several dataset sizes, any number of jobs, every schedule within the preemption bound",
 "The tests do not score; sizes below ten, few instances per job and schedules are never exercised.",
 ["score/score.go", "conc/queue.go"],
 [("Evaluate, EvaluatePosterior, EvaluatePosteriorConc", "score/score.go"), ("Register, Add, Merge, Total, String, Save", "score/score.go")],
 ["score.S"])
prop("C17", "The job queue runs every job once, bounded, and never hangs",
 "Under every schedule, each job given to the concurrent job queue, from one goroutine or several, runs exactly once with the identifier it was given, at most the allowed number of jobs run at a time, and waiting returns only after all jobs have finished. No schedule deadlocks, as many jobs as allowed really do run at the same time, and the queue can be used again after waiting.",
 ["schedules", "inputs"], "every schedule within the preemption bound, every number of jobs and allowed concurrency within the bounds",
 "The test suite does not exercise schedules; a lost wakeup or a miscounted slot needs a particular interleaving.",
 ["conc/queue.go"],
 [("SingleQueue.Run and Wait", "conc/queue.go")],
 ["conc.SingleQueue"])
prop("C18", "Independence verdicts and independent groups are exact",
 "For every contingency table and significance level, Pearson's test and the G-test report independence exactly if the chi-squared tail probability of their statistic, with the table's degrees of freedom, reaches the significance; empty rows and columns do not matter. The groups reported for a dataset are exactly the connected components of the pairwise dependences, each variable in one group, by either construction. Under any history of unions, two elements share a representative exactly if they were united, and a set lists exactly its members.",
 ["inputs", "histories"], "every table of counts within the bounds, any significance; every dataset within the bounds; every history of unions and finds",
 "No test covers the package; structure learning relies on the verdicts for all data.",
 ["utils/indep/chisq.go", "utils/indep/gtest.go", "utils/indep/indgraph.go", "utils/unionfind.go"],
 [("ChiSquareTest, GTest, ChiSquare", "utils/indep/chisq.go, utils/indep/gtest.go"), ("NewIndepGraph, NewUFIndepGraph", "utils/indep/indgraph.go"), ("MakeSet, Find, Union, UFVarids", "utils/unionfind.go")],
 ["indep.GTest", "indep.ChiSquareTest", "indep.Graph", "utils.Find", "utils.Union", "utils.UFVarids"])

prop("C19", "Clustering partitions the data into the clusters it promises",
 "For every dataset and random choice of starting centres, every clustering puts each instance into exactly one cluster, unchanged, and the k-based ones return k clusters where every instance is nearest to its own cluster's mean, mode or medoid. Density clustering puts two instances together exactly if neighbourhoods of at least the asked density link them, whatever their order, and the ordering-based variant groups dense instances the same way. Euclidean and Hamming distances are exact, and the dataset given is left unmodified.",
 ["inputs"], "every dataset within the bounds, with coordinates of any value up to the bound, any radius, every random choice of centres",
 "No test covers the package; the structure learners split the data by these clusters.",
 ["utils/cluster/dbscan.go", "utils/cluster/optics.go", "utils/cluster/kmeans.go", "utils/cluster/kmode.go", "utils/cluster/kmedoid.go", "utils/cluster/cluster.go", "utils/cluster/metrics/"],
 [("KMeans, KMeansI, KMeansF, KMeansData, KMeansDataI, KMeansFData, OldKMeans, OldKMeansF", "utils/cluster/kmeans.go"), ("KMode, KMedoid", "utils/cluster/kmode.go, utils/cluster/kmedoid.go"), ("DBSCAN, DBSCANData, OPTICS", "utils/cluster/dbscan.go, utils/cluster/optics.go"), ("Euclidean, EuclideanF, Hamming", "utils/cluster/metrics")],
 ["cluster.KMeans", "cluster.KMode", "cluster.KMedoid", "cluster.DBSCAN", "cluster.OPTICS", "metrics.Euclidean", "metrics.Hamming"])

prop("C20", "Structure learning builds the network the data call for",
 "For every dataset, significance and clustering parameters, the learned network is over exactly the variables given, is complete and decomposable with normalised positive parameters, and its states' probabilities add up to one. Wherever the variables of a group of instances fall into independent groups the network multiplies over exactly those groups, otherwise it mixes over clusters weighted by their share of the instances, and a leaf is the smoothed frequency (or the normal distributions of the quantiles) of exactly the instances it stands for. Learning with several workers gives such a network under every schedule, and neither data nor scope are modified.",
 ["inputs", "schedules"], "every dataset within the bounds, any significance, clustering by k-means (every starting centre) or density, every schedule of the workers within the preemption bound",
 "No test runs the learner; its result has to be right for all data, random choices and schedules.",
 ["learn/gens/gens.go", "utils/stats.go", "learn/variable.go", "spn/multinom.go", "utils/indep/indgraph.go", "utils/cluster/"],
 [("Learn, LearnConcurrent, LearnGauss, LearnGaussConcurrent, Binded", "learn/gens/gens.go"), ("independence split and cluster split", "learn/gens/gens.go"), ("quantiles", "utils/stats.go")],
 ["gens.Learn", "gens.LearnConcurrent", "gens.LearnGauss", "gens.LearnGaussConcurrent"])

prop("C21", "Networks built from images and regions are valid",
 "For every dataset and random choice, the networks built from region graphs and from image rectangles are acyclic, complete and decomposable, are over exactly the variables or pixels given, and have positive weights (normalised for region graphs) and no sum or product without children. Their leaves are normal distributions with the mean and deviation of a block of the sorted values of their variable, never undefined. The dataset is left unmodified.",
 ["inputs"], "every dataset of small images and instances within the bounds, any similarity threshold, every random choice",
 "The only test of these packages covers the numbering of rectangles; validity depends on data and random choices.",
 ["learn/dennis/", "learn/poon/poon.go", "utils/stats.go"],
 [("Structure: region graph, partitions and translation", "learn/dennis/dennis.go, learn/dennis/graph.go, learn/dennis/scope.go"), ("Structure: rectangles and best decompositions", "learn/poon/poon.go")],
 ["dennis.Structure", "poon.Structure"])

prop("C22", "Data files are read back exactly as written",
 "For every data file in the documented layout, whatever the separators, reading gives exactly the declared variables with their categories and one instance per line with its values in order; the readers that separate labels, or read a header of labels, give exactly those labels. Splitting a file into training and test data puts every instance into exactly one of them, with the proportion asked for up to rounding, keeps the order of the training data and returns each test instance's own label apart. A seed determines the split, whatever seed was used before.",
 ["inputs"], "every data file within the bounds, any values, any proportion, any random choices",
 "No test reads a data file; the claims quantify over contents, layouts, proportions and random draws.",
 ["io/input.go"],
 [("ParseData, ParseDataNL, ParseEvidence, ParsePartitionedData", "io/input.go")],
 ["io.ParseData", "io.ParseDataNL", "io.ParseEvidence", "io.ParsePartitionedData"])

prop("C23", "ARFF relations are read exactly",
 "For every ARFF relation of numeric, class and string attributes, with comments and empty lines anywhere, reading gives the relation's name, one named variable per attribute and one instance per data line with its values. Different labels of a variable stand for different categories, declared classes are numbered in their order, and the number of categories covers every value, exactly. Converting a relation of classes to a data file and reading that gives the same variables and values, one per column.",
 ["inputs"], "every relation within the bounds, any types, labels and numbers",
 "The one test prints what it read from one file and asserts nothing.",
 ["io/arff.go"],
 [("ParseArff, ARFFToData", "io/arff.go")],
 ["io.ParseArff", "io.ARFFToData"])

prop("C24", "Folders of images compile to the data they show",
 "For every folder of grey or black-and-white images sorted into class folders, in any layout and among stray files, the compiled data file has one variable per pixel with all its tones and one for the class, and one instance per image with its pixels in order, two images sharing a label exactly if they share a folder. Compiling by concurrent jobs gives the same under every schedule; the compiled evidence file has the same pixels, and its labels are the positions where the classes begin. Images written by the library are read back unchanged.",
 ["inputs", "schedules"], "every folder within the bounds, any tones, several layouts, every schedule of the reading jobs within the preemption bound",
 "No test covers images; layouts, uneven classes and schedules are never exercised.",
 ["io/pgm.go", "io/pbm.go"],
 [("PGMFToData, BufferedPGMFToData, PGMFToEvidence, VarSetToPGM", "io/pgm.go"), ("PBMFToData, PBMToData, PBMFToEvidence, VarSetToPBM", "io/pbm.go")],
 ["io.PGMFToData", "io.BufferedPGMFToData", "io.PGMFToEvidence", "io.PBMFToData", "io.PBMToData", "io.PBMFToEvidence", "io.VarSetToPGM", "io.VarSetToPBM"])

prop("C25", "Written images and completions show the right pixels",
 "For every state of an image's pixels, the colour image written shows exactly those pixels, and splitting an image into halves gives the two parts on either side of the middle, together every pixel once. A completed image shows the given pixels and the completed ones each in their own place, in different colours, with a line exactly between the halves and nothing brighter than the declared maximum. The colours generated for a hue, saturation and brightness are the ones they describe.",
 ["inputs"], "every image within the size bounds, any tones, every half and subset of given pixels, any hue and random draw",
 "No test writes an image; odd sizes, all halves and all hues are never exercised.",
 ["io/ppm.go", "io/pgm.go", "io/images.go", "common/color.go"],
 [("VarSetToPPM, ImgCmplToPPM", "io/ppm.go"), ("ImgCmplToPGM", "io/pgm.go"), ("SplitHalf", "io/images.go"), ("RandColor, RandTone, RandColorScale", "common/color.go")],
 ["io.VarSetToPPM", "io.ImgCmplToPPM", "io.ImgCmplToPGM", "io.SplitHalf", "common.RandColor"])

prop("C26", "Drawings and listings show exactly the network",
 "For every network, both drawings contain exactly its nodes with their types and variables and exactly its edges with their weights to the printed precision, shared nodes and repeated edges included, and a network that is a single leaf is drawn as that leaf. The textual listing names every node, its type, its children in order with their weights, and the parameters of its leaves of every type.",
 ["inputs", "programs"], "every rooted DAG within the node bound, any typing, weights and leaf parameters",
 "No test draws or prints a network; shared nodes, wide nodes and single leaves are never exercised.",
 ["io/output.go", "spn/print.go"],
 [("DrawGraph, DrawGraphTools", "io/output.go"), ("PrintSPN", "spn/print.go")],
 ["io.DrawGraph", "io.DrawGraphTools", "spn.PrintSPN"])

prop("C27", "Image experiments train, classify and complete as they promise",
 "For every dataset, random split and learner, the classification experiment trains on exactly its training part and reports as many hits as test instances whose most probable class is their own, out of all test instances. The completion experiments give, for every image and half, one file showing the given half and the most probable completion under a network learned from the other instances. The concurrent forms give the same files under every schedule.",
 ["inputs", "schedules"], "every dataset within the bounds, every random split, every schedule of the jobs within the preemption bound",
 "No test runs the experiments; shared state between jobs and miscounted hits depend on data, draws and schedules.",
 ["app/image.go", "io/input.go", "io/ppm.go", "io/pgm.go", "conc/queue.go"],
 [("ImgClassify, ImgCompletion, ImgTest, ImgTestParallel", "app/image.go")],
 ["app.ImgClassify", "app.ImgCompletion", "app.ImgTest"])

prop("C28", "Parameter bindings, random seeds and the log obey their last setting",
 "Under every history of binding, rebinding and unbinding parameters, a node reports exactly the parameters bound to it last, or the defaults, and no two nodes ever share a binding by accident; concurrent use on different nodes is safe. After a seed is set, the random numbers drawn depend only on that seed and the draws since, stay in their ranges, and random combinations are distinct pairs of the given ranges. Every message printed in verbose mode goes to exactly the log file set last, in order.",
 ["histories", "schedules"], "every history of operations within the bounds, every seed and draw, every schedule of two goroutines within the preemption bound",
 "No test covers these; mistakes show only in particular histories and interleavings.",
 ["learn/parameters/", "spn/sum.go", "spn/product.go", "spn/indicator.go", "sys/"],
 [("Bind, Unbind, Retrieve, Exists", "learn/parameters"), ("RefreshRandom, RandIntn, RandomComb", "sys"), ("SetLogFile, Printf, Println", "sys/print.go")],
 ["parameters.Bind", "parameters.Retrieve", "sys.RefreshRandom", "sys.SetLogFile"])

prop("C29", "Matrix forms and scopes carry exactly the data",
 "For every dataset, empty ones included, converting instances to matrices and back, and extracting the values of variables, keeps every value of every variable of every instance in its place, in whatever order maps are traversed. Copies of scopes have exactly the original variables. Inputs are left unmodified.",
 ["inputs"], "every dataset within the bounds, every order of map iteration",
 "Go traverses maps in random order, so a test that passes once shows nothing about the other orders.",
 ["learn/variable.go"],
 [("conversions between instances and matrices, scopes", "learn/variable.go")],
 ["learn.DataToMatrix", "learn.MatrixToData", "learn.CompleteDataToMatrix", "learn.DataToVarData", "learn.CopyScope"])

prop("C30", "NumPy datasets are read exactly",
 "For every file of a matrix of integers, of any integer type and byte order, reading gives exactly its rows in order, the last column apart as labels; successive reads go on where the last one stopped, and a reset starts anew. Balanced reading gives, in order, as many instances of each class as of any other, up to rounding. No instance is ever invented: files that are not such matrices, are shorter than they declare or hold too few instances give errors, and reading always terminates.",
 ["inputs", "histories"], "every integer type, any values, every history of reads and resets within the bounds, any number of instances asked for",
 "No test reads such a file; short files, exhausted classes and sequences of reads are never exercised.",
 ["io/npy.go"],
 [("NewNpyReader, Read, ReadAll, ReadBalanced, Reset", "io/npy.go")],
 ["io.NewNpyReader", "io.NpyReader.Read", "io.NpyReader.ReadAll", "io.NpyReader.ReadBalanced", "io.NpyReader.Reset"])

prop("C31", "Downloads are complete or not there, whatever fails",
 "Under every history of downloads, each of which may be refused, answered with an error page, break off or be interrupted at any point, the destination holds exactly the last file that arrived completely, failures are reported as errors and leave it as it was. A file that is there is not downloaded again unless asked to. Each named dataset is fetched at most once, from its own address to its own place, and is exactly what was downloaded, or nothing if it could not be.",
 ["fault_sequences", "crash_points", "histories"], "every history of downloads within the bounds, every failure of the network at every point of the transfer",
 "The tests have no network; a fault in the middle of a transfer cannot be sampled by them.",
 ["io/http.go", "data/datasets.go"],
 [("DownloadFromURL", "io/http.go"), ("getDataset, pullMNIST and the named datasets", "data/datasets.go")],
 ["io.DownloadFromURL", "data.Caltech", "data.MNIST1000"])
