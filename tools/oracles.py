O = {}
O["C01"] = "Oracle: the network polynomial, evaluated by the harness in exact arithmetic from its own description of the graph (not from the library's nodes). Each routine's result has to be its logarithm, for all parameters at once: a polynomial identity for each graph, typing and pattern of evidence."
O["C02"] = "Oracle: probability theory. Sums over all complete states are formed symbolically and compared with one, with the marginals and with the class joints."
O["C03"] = "Oracle: the max-product value of the harness's own description, and for states the value of the network at the returned state. Ties are cases of the path tree because comparisons of symbolic values are put to the solver; the random tie breaker is an arbitrary draw."
O["C04"] = "Oracle: the definition of a topological order, on every rooted DAG within the bound."
O["C05"] = "Oracle: completeness, decomposability and scopes computed from the harness's description over the whole graph. Typings, variables and shapes are decisions, map iteration goes both ways."
O["C06"] = "Oracle: reachability, longest path and counts computed from the harness's description."
O["C07"] = "Oracle: the partial derivatives of the network polynomial, taken symbolically by the harness (`hlib.Deriv`, `hlib.DerivW`), and the counts of the MAP trace for the hard variant."
O["C08"] = "Oracle: one step of (batch) gradient ascent on the log-likelihood with the derivative of C07, weight decay and normalisation written out in the harness; normalised vectors are proportional to the (shifted) input and total one."
O["C09"] = "Oracle: the derivative of ln P(y|x) = ln S(y,x) - ln S(x), taken symbolically from the two polynomials; counts of two MAP traces for the hard variant."
O["C10"] = "Oracle: structural identity of the copy with the harness's description, including which nodes are shared, and equality of values for any evidence. Saving and loading run through the model of the file system."
O["C11"] = "Oracle: the sums and products of the arguments, compared as logarithms of rational functions; the Range harness models overflow and underflow of exponentials, so a formula that is right only mathematically fails it."
O["C12"] = "Oracle: the definitions (frequency, density, moments) in exact arithmetic. The density of a Gaussian is compared as a logarithm."
O["C13"] = "Oracle: a small model (map from ticket, node and position to value) kept alongside every history of operations."
O["C14"] = "Oracle: a list kept alongside; contents, order, peeks and emptiness are compared after every operation."
O["C15"] = "Oracle: multisets of instances and rounded proportions. Instances carry symbolic values, so that a lost, duplicated or altered one makes some comparison satisfiable."
O["C16"] = "Oracle: confusion counts by definition; the class that maximises the harness's polynomial; agreement with the sequential form under every schedule within the bound."
O["C17"] = "Oracle: how many jobs are running (never more than allowed), that each ran exactly once and had ended when waiting returns, that the pool never stalls while a job could run. Deadlock is a violation."
O["C18"] = "Oracle: the statistic written out in the harness, an abstract increasing distribution function shared by code and oracle, connected components, and a partition kept alongside unions. The groups of a dataset are compared for every dataset within the bound."
O["C19"] = "Oracle: partition of the dataset, distances compared as squares, density-connectivity by transitive closure. \"Nearest to its own mean\" is not claimed after the imported k-means module has refilled an empty cluster at random: it may stop early then; that is not code of this repository."
O["C20"] = "Oracle: the recursive definition of the learner, followed alongside the network: independent groups by transitive closure of the pairwise verdicts, clusters as a partition, weights as shares, leaves as smoothed frequencies or normal distributions of quantiles. Data are symbolic, draws arbitrary, workers under every schedule within the bound."
O["C21"] = "Oracle: structural validity computed over the whole graph, leaf parameters recomputed from the sorted values. Two oddities of the code only affect the quality of the decomposition, not what is claimed (an index initialised to 0, and a best decomposition carried over), and were left alone."
O["C22"] = "Oracle: the values the harness wrote. Files are written with symbolic numbers or symbolic digits in several layouts. That two calls with the same seed give the same split is claimed only for seeds set anew: the library goes on with the stream when the seed stays the same."
O["C23"] = "Oracle: the attributes and values the harness wrote."
O["C24"] = "Oracle: the images the harness wrote, up to the order of classes and of images within a class."
O["C25"] = "Oracle: an independent reader of the formats, run on the written file; colours are compared with the hue, saturation and brightness by the definition of these."
O["C26"] = "Oracle: an independent reader of both drawing formats and of the listing rebuilds the graph and matches it against the harness's description; printed weights stay symbolic."
O["C27"] = "Oracle: the harness's learner records the data it is given; hits are recounted by the harness's polynomial; the files are read back and compared with the most probable completion."
O["C28"] = "Oracle: the binding set last, kept alongside the history; streams of two runs from the same seed; contents of the log files. Two goroutines asking for the parameters of one unbound node at once is not claimed (the library does not lock there), nor setting a seed while others draw."
O["C29"] = "Oracle: the dataset itself. Every order of map iteration is a decision of the path tree."
O["C30"] = "Oracle: the integers the harness wrote, byte by byte; the bytes are symbolic and are carried through the real code of the NumPy module (npyio, interpreted from source) and of the reader. Reaching the step limit is a candidate (reading has to terminate)."
O["C31"] = "Oracle: a one-file model kept alongside the history. The harness provides the network as a transport of the HTTP client; the fault (refused, error page, broken off, process interrupted) and the point of the transfer at which it happens are decisions of the path tree."
