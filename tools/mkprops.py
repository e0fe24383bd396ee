#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

FE = "src/features.rs"
p("C01", "Dense and sparse features read as the vector they were built from",
  "However a feature vector is constructed (from activations, from index/activation pairs, from indices, from an existing dense array of any memory layout or a sparse record), it denotes one real vector whose length is its declared number of features. Expanding it, converting it to a plain vector, indexing it, looking a component up, summing it and folding over it all report exactly those components, with entries a sparse vector does not list reading as zero. Dense vectors count components above 1e-7 in magnitude as active, sparse vectors the entries they list.",
  ["inputs"], "all dimensionalities including 0, all activation values including explicit zeros and negatives, every constructor and memory layout",
  "The two unit tests read one hand-written dense and one unit-activation sparse vector; other constructors, non-unit activations, empty vectors and strided arrays are never read back.",
  [FE], [("Features::to_dense / into_dense / Index / get / sum / fold", FE), ("From/FromIterator impls", FE)],
  [("Features", "enum Dense(Array1) | Sparse{dim, HashMap}", FE)], ["return values of the readers", "the public enum contents"])
p("C02", "Linear algebra on features does not depend on their representation",
  "The dot product with a weight vector, the product with a weight matrix, the dot product of two feature vectors, and the plain and scaled addition into a weight vector equal their textbook definitions on the denoted vectors, whichever representation each operand has and however the weights are laid out in memory. Adding features into weights changes no weight whose feature is zero.",
  ["inputs"], "all pairs of representations, sizes, activation values and weight layouts (owned, row- and column-strided views)",
  "Tests use all-ones and all-zeros weights with unit activations, so wrong products, missing factors and dropped entries go unnoticed; matmul's doc test does not compile.",
  [FE], [("Features::dot/matmul/addto/scaled_addto", FE), ("Dot<Features> for Features", FE)], [], ["returned scalars/vectors", "weights after the call"])
p("C03", "Mapping features applies the function to every component",
  "Mapping a function over a feature vector yields the vector of function values at every component, including the inactive components of a sparse vector, and keeps the number of features. The by-reference, by-value and in-place forms agree, and only the in-place form alters its receiver. The result is sparse exactly when the input is sparse and the function's value at zero is below 1e-5 in magnitude, in which case inactive components stay zero.",
  ["inputs"], "all functions (zero-preserving or not, near the 1e-5 threshold), representations, sizes and activations",
  "One test maps three closures over one unit-activation sparse vector and only looks at the sum; dense input and map/map_into are untested.",
  [FE], [("Features::map/map_into/map_inplace", FE)], [], ["snapshot of result and receiver"])
p("C04", "Merging features applies the operation to every pair of components",
  "Merging two feature vectors with a binary operation yields the operation applied component by component over all components of both, for each of the four combinations of representations, with the shorter operand read as zero-padded unless both are dense. The by-reference, by-value and in-place forms agree, the second operand is never altered, and only the in-place form alters the first. The result is sparse exactly when both operands are sparse and the operation maps a pair of zeros to less than 1e-5 in magnitude.",
  ["inputs"], "all pairs of representations, equal and unequal lengths, overlapping and disjoint active sets, operations with and without f(0,0)=0 and f(x,0)=x",
  "One test merges one sparse with one dense vector under addition, for which skipping inactive components happens to be harmless.",
  [FE], [("Features::merge/merge_into/merge_inplace", FE)], [], ["snapshot of result and both operands"])
p("C05", "Stacking features concatenates them",
  "Stacking two feature vectors yields the first vector's components followed by the second's, so the numbers of features add up and every component of the second is found at its index plus the first's length. Stacking is associative, and the result is sparse exactly when both operands are.",
  ["inputs"], "all representations, lengths including zero, activation values and nestings of stacks",
  "Three basis tests stack constant vectors of equal length ten; different lengths, non-unit activations and nesting are not covered.",
  [FE, "src/basis/stack.rs"], [("Features::stack", FE)], [], ["snapshot of the result"])
p("C06", "Edit histories treat dense and sparse features alike",
  "Applying the same sequence of edits (removals, maps, merges, stackings) to a dense and a sparse form of the same vector leaves both denoting the same vector after every step, for operations that map zero (or a pair of zeros) either to zero or to at least 1e-5 in magnitude. Removing a component sets exactly that component to zero, keeps the number of features, and does nothing for an index that is inactive or out of range; a clone taken at any point is unaffected by later edits.",
  ["histories", "inputs"], "all finite sequences of edits on all initial vectors",
  "Tests apply at most three edits to a single vector of fixed representation and never compare the two representations.",
  [FE], [("Features::remove", FE), ("map/merge/stack", FE), ("derive(Clone)", FE)], [], ["snapshots after every step"])
p("C07", "In-place edits survive a panicking closure",
  "If the closure given to an in-place map or merge panics at any of its invocations, the panic reaches the caller and the feature vector still holds exactly what it held before the call: same representation, same length, same components. It can then be read, edited and dropped as usual.",
  ["fault_sequences", "inputs"], "a panic at every invocation of the closure, for all representations and sizes, followed by further operations",
  "No test lets a closure panic.",
  [FE], [("Features::map_inplace", FE), ("Features::merge_inplace", FE)], [("*self", "the receiver while the closure runs", FE)], ["snapshot after catch_unwind"])
p("C08", "Every basis projects onto exactly its declared features",
  "For every basis, simple or composed, projecting any valid input (for a normalised basis: any input whose underlying projection is not all zero) yields a vector whose length is the basis's reported number of features and dimension, and repeating the projection yields the same vector. Asking for the i-th activation returns the i-th component of that projection for every valid i, whether or not it is active, and an error, not a panic or a value, for every other i.",
  ["configurations", "inputs"], "all basis types, parameters and nestings of combinators, all inputs, all indices",
  "The i-th accessor has no test at all, and n_features is tested for three parameterisations.",
  ["src/basis/mod.rs", "src/basis/constant.rs", "src/basis/normalisation.rs", "src/basis/stack.rs", "src/basis/fourier.rs", "src/basis/polynomial/mod.rs", "src/basis/kernelised.rs", "src/basis/tile_coding.rs", "src/basis/uniform_grid.rs"],
  [("Basis::project / n_features", "src/basis/*.rs"), ("EnumerableBasis::ith", "src/basis/*.rs"), ("check_index!", "src/error.rs")], [], ["project(), ith(), dim()"])
p("C09", "Polynomial, Fourier and Chebyshev bases enumerate their terms correctly",
  "A polynomial, Fourier or Chebyshev basis of order k on d inputs has one feature for every d-tuple of degrees in 0..k except the all-zero tuple, each exactly once and in lexicographic order; where a zeroth term is requested it is appended last as a constant one. Each feature equals the product of the powers of the inputs, the cosine of pi times the degree-weighted sum of the rescaled inputs, or the product of Chebyshev polynomials of the inputs rescaled from their limits to [-1,1].",
  ["configurations", "inputs"], "all orders (Chebyshev up to 11), input dimensions, limits and inputs",
  "Fourier is tested to order 2 in two dimensions, Polynomial in one dimension only, Chebyshev not at all.",
  ["src/basis/mod.rs", "src/basis/fourier.rs", "src/basis/polynomial/mod.rs", "src/basis/polynomial/cpfk.rs"],
  [("compute_coefficients", "src/basis/mod.rs"), ("rescale!", "src/basis/mod.rs"), ("t_0..t_11", "src/basis/polynomial/cpfk.rs")], [], ["project()"])
p("C10", "The uniform grid is a partition of the input space",
  "Every input of a uniform grid activates exactly one feature, with activation one; two inputs activate the same feature exactly when they lie in the same cell of the per-dimension partitions, inputs beyond a bound belonging to the outermost cell. Cells are numbered in row-major order of the dimensions, so every feature is activated by exactly one cell.",
  ["configurations", "inputs"], "all numbers of dimensions, per-dimension partition counts (also unequal) and bounds, all inputs inside and outside the bounds",
  "Tests use the same ten partitions and bounds in every dimension, so mixed-up strides or dimension order are invisible, and no input lies outside the bounds.",
  ["src/basis/uniform_grid.rs"], [("UniformGrid::hash", "src/basis/uniform_grid.rs")], [], ["project()"])
p("C11", "Tile coding activates one tile per tiling and generalises locally",
  "A tile coder with n tilings activates, with activation one, the hashed feature of one tile per tiling and nothing else, all below its memory size, and always the same ones for the same input and hasher. With a collision-free hash, two inputs share exactly as many features as there are tilings in which they lie in the same tile, where tiles are unit-wide in every dimension, also around the origin, and tiling t is shifted by t(1+2i)/n in dimension i. Changing the memory size only reduces the hash values modulo that size.",
  ["configurations", "inputs"], "all tiling counts, memory sizes, hashers, input dimensions and inputs of either sign",
  "Only the discretisation helper is tested; hashing, tile offsets, negative coordinates and feature sharing are not.",
  ["src/basis/tile_coding.rs"], [("bin_state", "src/basis/tile_coding.rs"), ("hash_state", "src/basis/tile_coding.rs")], [], ["project(), ith()"])
KS = ["src/basis/kernels/stationary.rs", "src/basis/kernels/rational_quadratic.rs", "src/basis/kernelised.rs"]
p("C12", "Kernels are symmetric, peak at zero distance and use every dimension",
  "Every kernel is a function of the lengthscale-weighted Euclidean distance over all input dimensions (a single lengthscale serving all of them), so it is symmetric, equals its variance at zero distance and never exceeds it; all but the cosine kernel strictly decrease with distance. Each kernel takes its textbook value (exponential, Matern 3/2 and 5/2, exponentiated quadratic, cosine, rational quadratic (1+r^2/2)^-power). A kernel basis has one feature per prototype, in order, equal to the kernel between the input and that prototype's centroid; built from a partitioning it has one prototype at the centre of every cell, in row-major order, with the partition widths as lengthscales.",
  ["configurations", "inputs"], "all kernels, variances, lengthscales (ARD or single), centroids, dimensions and inputs",
  "Only the exponentiated quadratic kernel is evaluated, at two points, with full lengthscales.",
  KS, [("stationary_kernel!", KS[0]), ("RationalQuadratic", KS[1]), ("KernelBasis::project, exp_quad, matern_32, matern_52", KS[2])], [], ["Kernel::kernel, project()"])
p("C13", "Normalised projections have unit norm and unchanged direction",
  "Normalising a basis in L1, L2 or L-infinity divides each projection that is not all zero by that norm, so the result has norm one and all ratios and signs between components are preserved; the L0 form divides by the number of active features. The number of features, the representation and the set of active features are those of the underlying projection.",
  ["configurations", "inputs"], "all underlying bases (dense, sparse, nested, already normalised), all projections with at least one non-zero component",
  "The two quickcheck properties fail on this commit (NaN/zero inputs), compare one-sidedly without absolute value, and cover neither sparse projections nor L0/Linf.",
  ["src/basis/normalisation.rs"], [("L0/L1/L2/LinfNormaliser::project", "src/basis/normalisation.rs")], [], ["project()"])
p("C14", "Composite bases concatenate their parts and propagate failures",
  "The projection of a basis stacked over another is the concatenation of their projections, in order, and adding a bias appends a constant one; this holds for any nesting, and the reported number of features is the sum over the parts. If any part fails to project an input the composite returns that part's error (the first part's if several fail) and no features; if none fails it succeeds.",
  ["programs", "inputs", "fault_sequences"], "all builder programs of stacking, biasing and normalising over all bases, including fallible user-defined ones, and all inputs",
  "Three tests stack two constant bases; nothing stacks three, mixes combinators or uses a failing basis.",
  ["src/basis/stack.rs", "src/basis/mod.rs", "src/basis/closure.rs", "src/basis/normalisation.rs"], [("Stack::project/ith", "src/basis/stack.rs"), ("Combinators", "src/basis/mod.rs"), ("Result::map/and_then", "src/basis/normalisation.rs")], [], ["project(), ith(), n_features()"])
L = "src/lib.rs"
OPT = ["src/optim/%s.rs" % o for o in ("sgd", "isgd", "momentum", "nesterov", "adagrad", "adam", "adamax")]
p("C15", "A scalar learner evaluates and learns from its weights only",
  "A scalar approximator starts with one zero weight per feature; evaluating an input returns the dot product of its features with the current weights and changes nothing. Updating with an error moves the weights by exactly one optimiser step along the input's features scaled by that error; updating with a closure hands it the features and the current prediction and then behaves as an update with the error it returns.",
  ["histories", "inputs", "configurations"], "all interleavings of evaluations and updates, bases, optimisers, inputs and errors",
  "LFA itself has no unit test, and the crate-level example does not compile.",
  [L] + OPT, [("ScalarLFA::scalar/evaluate/update/update_with", L)], [("weights", "public weight vector", L), ("optimiser", "public optimiser", L)], ["weights, return values"])
p("C16", "Optimisers follow their defining recurrences over any history",
  "After any sequence of steps, SGD, implicit SGD, SGD with momentum, Nesterov momentum, Adagrad, Adam and AdaMax have moved the weights exactly as their textbook recurrences prescribe for the gradients seen so far (gradient = features times error, ascending; bias correction beta^t at step t; epsilon 1e-7). A plain step equals a step scaled by one, and a step with zero error from a fresh or reset optimiser leaves the weights unchanged. For sparse features Adam and AdaMax decay all moments but move only the weights of active features.",
  ["histories", "inputs", "configurations"], "all step sequences (dense and sparse features mixed, zero and negative errors), hyper-parameters and dimensions",
  "No optimiser has a test.",
  OPT + ["src/optim/mod.rs"], [("Optimiser::step/step_scaled", "src/optim/*.rs")], [("velocity/accumulator/moments/beta products", "private optimiser state", "src/optim/*.rs")], ["weights after every step"])
p("C17", "Resetting an optimiser erases its history",
  "After a reset at any point of any history, an optimiser behaves from then on exactly as a newly constructed one with the same parameters given the same subsequent steps. Resetting touches no weights, and resetting twice equals resetting once.",
  ["histories"], "all histories before and after the reset, for every optimiser",
  "Reset is never called by a test.",
  OPT + ["src/optim/mod.rs"], [("Optimiser::reset", "src/optim/*.rs")], [], ["weights after every step"])
p("C18", "A failed update leaves the learner as it was",
  "If the basis fails on an input, evaluation and every form of update, on scalar and vector learners, return that error, never call the user's closure or the optimiser, and leave weights and optimiser as they were, so that all later behaviour is as if the failed call had never been made. The same holds if the user's error closure panics; an error from the optimiser is returned to the caller.",
  ["fault_sequences", "histories"], "failures at any position of any history, any learner, optimiser and update form",
  "No test uses a failing basis, optimiser or closure.",
  [L], [("project(..).and_then(..)", L)], [], ["return values, weights, optimiser after every call"])
p("C19", "A vector learner behaves as independent outputs over shared features",
  "A vector approximator with m outputs evaluates to m values, output j being the dot product of the features with the j-th weight column, identically through full evaluation, single-output evaluation and both iterators, whose remaining length is always exact. An update applies the j-th error to column j only (columns beyond the errors supplied, and outputs other than the one addressed by a single-output update, keep their weights), so each output learns as a separate scalar learner would; this also holds for errors returned by a closure in an array of any memory layout.",
  ["histories", "inputs", "configurations"], "all numbers of outputs including 0 and 1, interleavings of the update and evaluation forms, short and long error lists, optimisers",
  "VectorLFA has no test.",
  [L], [("VectorLFA::evaluate/evaluate_index/iter/try_iter/update/update_index/update_with", L)], [("weights", "features x outputs matrix", L), ("optimiser", "one optimiser object shared by all columns", L)], ["weights, return values"])
p("C20", "Saving and restoring (or cloning) is invisible at any point of training",
  "Serialising and deserialising feature vectors, bases, optimisers or whole learners at any point of a history restores them completely: the restored object projects, evaluates and learns from then on exactly as the original would have. A clone likewise continues identically and independently of the original.",
  ["crash_points", "histories", "configurations"], "all points of all training histories, all serialisable bases and optimisers, self-describing and positional formats",
  "There are no serialisation tests; the serde build is only compiled.",
  [L, FE, "src/basis/polynomial/mod.rs"] + OPT, [("serde derives", "src/**"), ("hand-written Deserialize for Chebyshev", "src/basis/polynomial/mod.rs")], [("private optimiser state", "moments, velocities, running beta products", "src/optim/*.rs")], ["behaviour after restore"])
p("C21", "Learning does not depend on how features are represented",
  "For SGD, implicit SGD, momentum, Nesterov and Adagrad, a history of updates leaves the same weights whether each feature vector in it is given densely or sparsely. For Adam and AdaMax the same holds for weights whose feature has been active at every step.",
  ["histories", "inputs"], "all histories, all choices of representation per step, explicit zeros among sparse activations",
  "No optimiser is run at all by the tests.",
  OPT + [FE], [("match features { Dense, Sparse }", "src/optim/*.rs")], [], ["weights of twin learners"])
p("C22", "Implicit SGD never overshoots its target",
  "For every positive learning rate, however large, a closure-driven implicit SGD update towards a target leaves the prediction for that input between the old prediction and the target, with the remaining error equal to the old error divided by one plus the rate times the squared feature norm; plain SGD multiplies the error by one minus the rate times the squared norm. Repeating the update converges to the target whenever the features are non-zero (for SGD: when the rate times the squared norm is below two).",
  ["histories", "inputs"], "all learning rates, features, starting weights, targets and numbers of repetitions",
  "Neither optimiser is run by the tests, and convergence is a statement about unbounded histories.",
  ["src/optim/isgd.rs", "src/optim/sgd.rs", L], [("ISGD::compute_lr", "src/optim/isgd.rs")], [], ["predictions before and after"])
p("C23", "Features compare equal exactly when they hold the same vector",
  "Two feature vectors in the same representation compare equal exactly when they have the same number of features and the same entries: all components for dense vectors, whatever their memory layout; the listed indices with their activations for sparse ones, whatever the order in which they were listed. Equality is symmetric, the opposite of inequality, and every vector equals itself and its clones (components being numbers, not NaN).",
  ["inputs"], "all pairs of vectors in one representation, among them pairs differing in one component by one unit in the last place, in one listed entry (an explicit zero, say), or in the length only",
  "The tests compare only vectors that are expected to be equal; that unequal ones differ is never asserted.",
  [FE], [("PartialEq for Features", FE), ("derived PartialEq of the contained arrays and maps", FE)], [], ["results of == and !="])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
