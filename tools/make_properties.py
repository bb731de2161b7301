#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

T = "t3f/"
prop("C01", "The dense value of a TT object is the contraction of its TT-cores",
     "Converting a TT-tensor, a TT-matrix or a batch of either to a dense tensor yields exactly the contraction of its TT-cores: element (i1,...,id) is the product of the selected core slices, and for a TT-matrix the row index is the row-major multi-index (i1,...,id) and the column index is the row-major multi-index (j1,...,jd). The result has the shape and the dtype the object reports (with the batch axis first for batches), for any number of cores including one, any mode sizes including one and any admissible TT-ranks.",
     ["inputs"], "every TT-tensor / TT-matrix / batch, every number of cores, mode sizes, TT-ranks, batch size, floating or integer dtype",
     "The tests convert a handful of fixed 3-core objects; the equality must hold for every shape/rank/batch combination and for every core value.",
     [T+"ops.py", T+"shapes.py", T+"tensor_train.py", T+"tensor_train_batch.py"],
     [("full", "t3f/ops.py:full,_full_tt,_full_tt_batch"), ("shape helpers", "t3f/shapes.py:lazy_shape,lazy_raw_shape,lazy_tt_ranks")],
     ["t3f.full"])
prop("C02", "Only consistent TT-cores form an object and its metadata describes them",
     "Constructing a TT object from cores succeeds exactly when the cores have the right number of axes, one dtype, matching neighbouring TT-ranks, boundary ranks one and a common batch size, and agree with the shape, TT-ranks and batch size given explicitly; otherwise ValueError is raised. For every constructed object the reported shape, raw shape, number of dimensions, TT-ranks, batch size, dtype and matrix/tensor kind, static or dynamic, equal what the cores actually have.",
     ["inputs", "configurations"], "every list of cores (consistent, or inconsistent in one or several respects) with and without explicit shape / ranks / batch size",
     "The validity tests try random small cores of one kind and never combine all optional arguments, one-core objects or batches of one.",
     [T+"tensor_train.py", T+"tensor_train_batch.py", T+"tensor_train_base.py", T+"shapes.py"],
     [("core validation", "t3f/tensor_train.py:_are_tt_cores_valid; t3f/tensor_train_batch.py:_are_batch_tt_cores_valid"), ("shape inference", "t3f/tensor_train.py:_infer_raw_shape,_infer_tt_ranks"), ("static/dynamic shape helpers", "t3f/shapes.py")],
     ["TensorTrain()", "TensorTrainBatch()", "get_shape/get_raw_shape/get_tt_ranks/ndims/is_tt_matrix/batch_size", "t3f.shape/raw_shape/tt_ranks/batch_size"])
prop("C03", "Elementwise algebra in TT format equals elementwise algebra on dense values",
     "Adding, subtracting, negating and elementwise multiplying TT objects, and multiplying one by a number from either side, yields a well-formed object whose dense value is the dense result, batch by batch; a single object or a one-element batch is broadcast against a batch and the result is a batch iff an operand is. The TT-ranks of a sum are at most the sums and of a product at most the products of the operand ranks. Operands of different shape or kind, or batches of different sizes none of which is one, are rejected with ValueError.",
     ["inputs"], "every pair of operands (tensor/matrix, single/batch, any ranks), every number including zero, negatives and fractions, operator and function forms",
     "The tests fix one shape, three cores, rank 2 and few batch combinations; broadcasting x matrix x rank x one-core combinations are not enumerated.",
     [T+"ops.py", T+"tensor_train_base.py", T+"shapes.py"],
     [("block cores", "t3f/ops.py:add,_add_*_cores"), ("Kronecker cores", "t3f/ops.py:multiply"), ("operators", "t3f/tensor_train_base.py:__add__,__sub__,__neg__,__mul__,__rmul__")],
     ["t3f.add", "t3f.multiply", "+", "-", "*"])
prop("C04", "Matrix products and transposes in TT format equal the dense ones",
     "Multiplying TT-matrices (single or batches, with broadcasting), or a TT-matrix by a dense matrix from either side, yields the dense matrix product in the correct orientation and layout, and transposing swaps rows and columns of every matrix. Results are well-formed and are batches iff an operand is; non-matrices and operands whose inner sizes, number of cores or batch sizes do not match are rejected.",
     ["inputs"], "every conforming pair of TT-matrices / dense matrices incl. non-square and vector-shaped ones, any ranks and batch sizes",
     "Tests use a few square-ish 3-core shapes; orientation and layout errors that cancel for symmetric shapes or one-element batches are invisible.",
     [T+"ops.py"],
     [("tt_tt_matmul", "t3f/ops.py:tt_tt_matmul"), ("tt_dense_matmul", "t3f/ops.py:tt_dense_matmul,dense_tt_matmul"), ("transpose", "t3f/ops.py:transpose")],
     ["t3f.matmul", "t3f.transpose"])
prop("C05", "Inner products and Frobenius norms equal the dense ones",
     "The flat inner product of two TT objects (with batch broadcasting) or of a TT object and a sparse tensor equals the sum of products of dense elements, one number per batch element. The squared Frobenius norm equals the sum of squared elements in both the QR-based and the differentiable form, and the norm is the square root of that plus the given epsilon. Mismatched kinds, shapes, numbers of cores or batch sizes are rejected.",
     ["inputs"], "every pair of TT objects of one shape, every sparse pattern, both norm implementations, every epsilon",
     "Tests check a few random objects of one shape per call form; rank-deficient, zero and over-ranked objects and one-element batches are not covered.",
     [T+"ops.py", T+"utils.py", T+"decompositions.py"],
     [("chained contraction", "t3f/ops.py:tt_tt_flat_inner"), ("sparse gather", "t3f/ops.py:tt_sparse_flat_inner; t3f/utils.py:unravel_index"), ("norm", "t3f/ops.py:frobenius_norm,frobenius_norm_squared")],
     ["t3f.flat_inner", "t3f.frobenius_norm", "t3f.frobenius_norm_squared"])
prop("C06", "Bilinear forms equal the dense forms, elementwise over batches",
     "The bilinear form b'Ac and the two-matrix form x'ABy of TT-matrices equal the dense values for every rectangular A and B, with one value per batch element when either vector is a batch (a single vector is shared by all elements). Non-matrix arguments are rejected with ValueError, and arguments whose modes or numbers of cores do not fit are rejected as well.",
     ["inputs"], "every conforming A, B and vectors incl. batches, rectangular shapes, any ranks",
     "Tests use square matrices and few ranks; contraction-index mixups are only visible for rectangular modes and distinct ranks.",
     [T+"ops.py"],
     [("bilinear_form", "t3f/ops.py:bilinear_form,quadratic_form"), ("bilinear_form_two_mat", "t3f/ops.py:bilinear_form_two_mat")],
     ["t3f.bilinear_form", "t3f.quadratic_form", "t3f.ops.bilinear_form_two_mat"])
prop("C07", "Batch operations act on the elements of the batch independently",
     "Concatenating batches yields the elements in order, scaling along the batch multiplies element i by weight i, and pairwise products / the Gram matrix have at (i,j) the inner product of element i of the first and j of the second argument, or x_i' M y_j when the elements are column vectors and a TT-matrix M is given. The pairwise result is always a matrix, and inconsistent shapes, ranks or non-batches are rejected with ValueError.",
     ["inputs"], "every list of batches, weights, pairs of batches and matrices, batch sizes from one up",
     "Tests use batches of few elements with equal sizes on both sides, so row/column swaps and element mixups can cancel out.",
     [T+"batch_ops.py"],
     [("concat", "t3f/batch_ops.py:concat_along_batch_dim"), ("scaling", "t3f/batch_ops.py:multiply_along_batch_dim"), ("pairwise contraction", "t3f/batch_ops.py:pairwise_flat_inner,gram_matrix")],
     ["t3f.concat_along_batch_dim", "t3f.multiply_along_batch_dim", "t3f.gram_matrix", "t3f.pairwise_flat_inner"])
prop("C08", "Slicing a TT object equals slicing its dense value",
     "Indexing a TT-tensor or a batch with integers and ranges (any start, stop, stride, negative values) yields an object whose dense value is the correspondingly indexed dense tensor: integer positions drop their axis and ranges keep it; a batch is indexed by its batch axis alone or together with all tensor axes, and an integer batch index yields a single object. A wrong number of indices is rejected with ValueError, and an integer outside its axis is rejected.",
     ["inputs"], "every mixture of integers and ranges (at least one axis kept) on every TT-tensor and every batch; batch-only indexing also for TT-matrices",
     "Tests try six slice patterns of a 3-core tensor; runs of collapsed axes at the ends and in the middle, and their combination with the batch axis, are not enumerated.",
     [T+"tensor_train.py", T+"tensor_train_batch.py"],
     [("collapsing with a remainder", "t3f/tensor_train.py:TensorTrain.__getitem__; t3f/tensor_train_batch.py:_full_getitem,_batch_dim_getitem")],
     ["TensorTrain.__getitem__", "TensorTrainBatch.__getitem__"])
prop("C09", "Gathering elements equals gathering from the dense value",
     "Gathering by an index array of any shape [..., ndims] (with a leading batch index for batches) returns the addressed dense elements in the shape of the index array without its last axis, in order and with repetitions. A wrong last axis is rejected with ValueError, a TT-matrix with NotImplementedError, and an index outside its axis is rejected.",
     ["inputs"], "every TT-tensor or batch, every index array of two or more axes",
     "Tests gather with one or two small 2-d index arrays.",
     [T+"ops.py"],
     [("gather_nd", "t3f/ops.py:gather_nd")], ["t3f.gather_nd"])
prop("C10", "Converting a dense tensor or matrix to TT format is exact or rank-capped",
     "Converting a dense tensor or matrix to the TT format keeps the shape and reproduces the value whenever every rank cap is at least the rank of the corresponding unfolding; no TT-rank ever exceeds its cap or the sizes of its unfolding. When caps truncate, the error is the quasi-optimal TT-SVD one: the result is an orthogonal-projection approximation whose squared error is at most the sum of the discarded squared singular values over the unfoldings, also with NumPy's SVD switched on in place of TensorFlow's. Caps below one or of wrong length and negative epsilon are rejected with ValueError.",
     ["inputs"], "every dense tensor / matrix, every scalar or per-bond cap, vector shapes given with None",
     "Tests reconstruct random full-rank tensors of one or two shapes; truncation quality and per-bond caps are not checked against an oracle.",
     [T+"decompositions.py"],
     [("TT-SVD", "t3f/decompositions.py:to_tt_tensor"), ("mode interleaving", "t3f/decompositions.py:to_tt_matrix")],
     ["t3f.to_tt_tensor", "t3f.to_tt_matrix"])
prop("C11", "Rounding preserves the value unless a rank cap forces quasi-optimal loss",
     "Rounding a TT object or a batch keeps its kind, shape and dtype and represents the same dense value whenever every rank cap is at least the true rank of the unfolding; no TT-rank of the result exceeds its cap, the input rank or the sizes of the unfolding. When caps truncate, each element is approximated with squared error at most the sum of the discarded squared singular values, orthogonally to the result, also with NumPy's SVD switched on in place of TensorFlow's. Invalid caps are rejected with ValueError.",
     ["inputs"], "every TT-tensor / TT-matrix / batch incl. rank-deficient and zero ones, every scalar or per-bond cap",
     "Tests round one random object with one cap each; per-bond caps, batches with elements of different rank and exact truncation values are not covered.",
     [T+"decompositions.py"],
     [("QR + SVD sweeps", "t3f/decompositions.py:_round_tt,_round_batch_tt")], ["t3f.round"])
prop("C12", "Re-gauging the cores changes the cores but never the tensor",
     "Orthogonalizing the cores keeps the dense value, never increases a TT-rank and makes all cores but the last (left-to-right) or all but the first (right-to-left) orthogonal, also for every element of a batch left-to-right. Renormalizing the cores keeps the dense value and gives all cores of an object (of each batch element) the same Frobenius norm.",
     ["inputs"], "every TT-tensor / TT-matrix / batch incl. over-ranked and rank-deficient ones, both directions",
     "Tests orthogonalize two fixed rank patterns; rank-changing patterns on interior cores and norm equality per batch element are not enumerated.",
     [T+"decompositions.py", T+"ops.py"],
     [("QR sweeps", "t3f/decompositions.py:orthogonalize_tt_cores"), ("core norms", "t3f/ops.py:renormalize_tt_cores")],
     ["t3f.orthogonalize_tt_cores", "t3f.renormalize_tt_cores"])
prop("C13", "Riemannian projection is the orthogonal projection onto the tangent space",
     "Projecting an object on the tangent space of a TT object yields an element of that tangent space whose difference from the argument is orthogonal to the whole tangent space; batches are projected element by element, the weighted-sum form projects the (weighted) sum, with a weight matrix giving one projection per column, and the matmul form projects the matrix product. The TT-ranks of the result are at most twice those of the base point, and arguments of different shape or dtype or a batch as the base point are rejected with ValueError, as are matrices whose number of cores differs.",
     ["inputs"], "every base point with two or more cores (also with excessive ranks), every argument, batch, weight vector or matrix and TT-matrix",
     "Tests compare the forms with each other and with slow formulas on one or two shapes; membership and orthogonality for all shapes, ranks and weights are not checked.",
     [T+"riemannian.py"],
     [("projection sweeps", "t3f/riemannian.py:project,project_sum,project_matmul"), ("rank trimming", "t3f/riemannian.py:_trim_tt_ranks")],
     ["t3f.project", "t3f.project_sum", "t3f.project_matmul"])
prop("C14", "Tangent-space shortcuts agree with the general operations",
     "For elements of one tangent space, obtained by any of the projections or by earlier sums, pairwise inner products equal the ordinary inner products, weighted sums (one coefficient per object or per object and batch element) equal the ordinary weighted sums without growing the TT-ranks and stay in the same tangent space, and converting to deltas and back gives the same element. Objects that are not projections or belong to different base points are rejected with ValueError.",
     ["inputs", "histories"], "every base point, every history of projections and sums, every coefficient array",
     "Tests use one base point and two projected vectors; sums of sums, batches with per-element coefficients and objects from different base points are not enumerated.",
     [T+"riemannian.py"],
     [("delta blocks", "t3f/riemannian.py:pairwise_flat_inner_projected,add_n_projected"), ("deltas", "t3f/riemannian.py:tangent_space_to_deltas,deltas_to_tangent_space"), ("projection tag", "projection_on attribute")],
     ["t3f.pairwise_flat_inner_projected", "t3f.add_n_projected", "t3f.tangent_space_to_deltas"])
prop("C15", "Riemannian gradients are the projected Euclidean gradients",
     "For a smooth function of a TT object expressed through library operations, the automatic Riemannian gradient equals the orthogonal projection of the Euclidean gradient onto the tangent space at the point, with and without the runtime check. With the runtime check on, a function whose value depends on the particular cores and not only on the tensor is reported as an error.",
     ["inputs", "programs"], "every point with two or more cores and every function built from inner products, norms, bilinear forms, sums and products with non-zero value",
     "Tests use two functions at one random point per kind.",
     [T+"autodiff.py", T+"riemannian.py"],
     [("delta differentiation and gauge", "t3f/autodiff.py:gradients,_enforce_gauge_conditions"), ("invariance check", "t3f/autodiff.py:_is_invariant_to_input_transforms")],
     ["t3f.gradients"])
prop("C16", "Riemannian Hessian-vector products are the doubly projected Hessian products",
     "For a smooth function of a TT object expressed through library operations, the automatic Hessian-by-vector product at x equals P_x H P_x v, where H is the Euclidean Hessian and P_x the orthogonal projection onto the tangent space at x, for tangent and non-tangent vectors v.",
     ["inputs", "programs"], "every point with two or more cores, every vector of the same shape, every function built from inner products, norms and bilinear forms with non-zero value",
     "Tests use two functions at one random point per kind.",
     [T+"autodiff.py", T+"riemannian.py"],
     [("nested differentiation", "t3f/autodiff.py:hessian_vector_product")], ["t3f.hessian_vector_product"])
prop("C17", "Approximate sums are exact whenever the rank cap allows it",
     "The tree-wise approximate sum of a list of TT objects, or of the elements of a batch with optional coefficients (a vector, or a matrix giving one sum per column), equals the exact weighted sum whenever the rank cap is at least the ranks of all partial sums, for every number of summands including odd ones. With two or more summands the TT-ranks of the result never exceed the cap, and a coefficient matrix of wrong size is rejected with ValueError.",
     ["inputs"], "every number of summands, every kind of summand with two or more cores, every coefficient vector or matrix, every cap",
     "Tests sum three to eight random objects of one shape; odd levels of the tree combined with coefficient matrices are not enumerated.",
     [T+"approximate.py", T+"decompositions.py"],
     [("binary tree", "t3f/approximate.py:add_n,reduce_sum_batch")], ["t3f.approximate.add_n", "t3f.approximate.reduce_sum_batch"])
prop("C18", "Kronecker determinant, inverse and Cholesky factor match the dense matrix",
     "For a TT-matrix (or batch) that is a Kronecker product of square factors, the determinant equals the dense one, sign and log-determinant reproduce it, the inverse times the matrix is the identity, and the Cholesky factor is lower triangular with positive diagonal and reproduces the matrix. TT-ranks above one, non-square factors or non-matrices are rejected with ValueError.",
     ["inputs"], "every Kronecker product of square factors of different sizes, any signs of the factor determinants, singles and batches",
     "Tests use two factors of equal size and mostly even exponents, where sign and exponent errors cancel.",
     [T+"kronecker.py"],
     [("factorwise linear algebra", "t3f/kronecker.py:determinant,slog_determinant,inv,cholesky"), ("precondition", "t3f/kronecker.py:_is_kron")],
     ["t3f.kronecker.determinant", "t3f.kronecker.slog_determinant", "t3f.kronecker.inv", "t3f.kronecker.cholesky"])
prop("C19", "Initializers produce exactly the requested shape, ranks, dtype and constants",
     "Every initializer returns an object of the requested shape, batch size, dtype and TT-ranks (a scalar rank applies to all inner ranks; None stands for a vector side of ones), and ones, zeros, identity and the *-like forms have exactly those dense values, the *-like forms taking shape and dtype from their argument. Shapes, ranks or batch sizes that are not positive integers or have the wrong number of entries are rejected with ValueError, and a non-zero mean of a random object with NotImplementedError.",
     ["inputs"], "every initializer and every valid or invalid shape / rank / batch size / dtype argument",
     "Tests check each constant initializer on one shape and some invalid arguments.",
     [T+"initializers.py"],
     [("argument validation", "t3f/initializers.py:_validate_input_parameters"), ("constant cores", "t3f/initializers.py:tensor_ones,tensor_zeros,eye,matrix_ones,matrix_zeros,ones_like,zeros_like")],
     ["t3f.tensor_ones ... t3f.lecun_initializer"])
prop("C20", "Random initializers have the documented mean and variance",
     "Entries of random tensors and matrices (single or batch) have mean zero and the requested standard deviation for any shape and TT-ranks; Glorot, He and LeCun matrices have entry variance 2/(n_in+n_out), 2/n_in and 1/n_in, where n_in is the number of rows and n_out of columns; random-core objects have cores with the requested mean and standard deviation. Batch elements and repeated calls are different random draws.",
     ["inputs"], "every shape, ranks (also unequal), standard deviation and batch size; statistically, over repeated draws",
     "Tests estimate one stddev for one shape and constant ranks with a loose tolerance.",
     [T+"initializers.py"],
     [("core scaling", "t3f/initializers.py:random_tensor,random_tensor_batch,random_matrix,random_matrix_batch,glorot_initializer,he_initializer,lecun_initializer"), ("core sampling", "t3f/initializers.py:*_with_random_cores")],
     ["t3f.random_*", "t3f.*_with_random_cores", "t3f.glorot_initializer", "t3f.he_initializer", "t3f.lecun_initializer"])
prop("C21", "TT variables behave as named stores with get, reuse and assign",
     "A TT variable holds the value of its initializer until assigned and then the last assigned value, through every handle to it and in every operation applied to it; in graph mode asking for an existing name with reuse returns the existing variable of that full scoped name, while reuse of a missing name, re-creation of an existing one, or creation without initializer raises ValueError and changes nothing. Assigning a value with incompatible cores is rejected and leaves the variable unchanged, and trainability, dtype, collections and regularization losses are as requested.",
     ["histories"], "every history of get (with or without reuse, in nested scopes), assign (valid or not) and read",
     "Tests perform one get, one reuse and one assign.",
     [T+"variables.py", T+"regularizers.py"],
     [("variable registry", "t3f/variables.py:get_variable"), ("assignment", "t3f/variables.py:assign")],
     ["t3f.get_variable", "t3f.assign"],
     [("TensorTrainVariables", "graph collection of created TT variables", "t3f/variables.py:get_variable")])
prop("C22", "Operations keep the dtype and never modify their operands",
     "Every operation on TT objects returns results of the dtype of its operands, casting yields the requested dtype with converted values, same shape, ranks and batch size; and no operation changes the value, metadata or tangent-space tag of any object, list or array passed to it. Mixing cores of different dtypes in one object is rejected.",
     ["inputs", "histories"], "every operation on every kind of operand in every supported floating dtype, before and after any other operations",
     "Tests run in two dtypes but never look at the operands again after a call.",
     [T+"ops.py", T+"decompositions.py", T+"riemannian.py", T+"batch_ops.py"],
     [("copying of core lists", "t3f/decompositions.py:orthogonalize_tt_cores,round"), ("cast", "t3f/ops.py:cast"), ("dtype propagation", "tf.zeros/tf.ones with dtype throughout")],
     ["t3f.cast", "all public operations"])
prop("C23", "Compiled graphs and eager execution give the same results",
     "Calling library operations inside a compiled TensorFlow function, with fully known core shapes or with an unknown batch size where the operation supports it, and with dense matrices, indices and weights of known or unknown size, gives the same values, kinds and shapes as calling them eagerly. Objects used inside a compiled function, given to it or captured by it, can be used outside of it and in other functions as before. Batches whose sizes are unknown at compile time and turn out incompatible are reported as an error, never silently combined.",
     ["inputs", "configurations"], "every operation, compiled with static shapes or with unknown batch size and evaluated at any batch size",
     "Tests run each operation in one mode and one static shape per case.",
     [T+"ops.py", T+"shapes.py", T+"decompositions.py"],
     [("static-or-dynamic shapes", "t3f/shapes.py:lazy_*"), ("runtime batch-size assertion", "t3f/ops.py:multiply")],
     ["tf.function over t3f operations"])
prop("C24", "The TT dense layer computes activation(xW+b) and trains exactly its weights",
     "The Keras TT layer maps a batch of inputs x to activation(x W + b), where W is the dense value of its current TT-matrix with the requested shape, ranks, dtype and initializer, and b its bias if enabled. All cores and the bias, and nothing else, are its trainable weights: a training step or set_weights changes the function accordingly, a layer recreated from its configuration is the same layer (up to its random weights), and an unknown initializer is rejected with ValueError.",
     ["inputs", "histories"], "every input/output factorization, rank, bias and activation option, every history of weight updates and calls",
     "The only test trains one layer and compares a parameter count.",
     [T+"nn.py"],
     [("layer", "t3f/nn.py:KerasDense")], ["t3f.nn.KerasDense"])
prop("C25", "Regularizers are the scaled penalties they are documented to be",
     "The L2 regularizer of a TT object equals scale times its squared Frobenius norm, and the cores regularizer equals scale times the sum of the given penalty over all TT-cores. A zero scale yields a regularizer returning None, and integer or negative scales are rejected with ValueError.",
     ["inputs"], "every TT object, scale and core penalty",
     "There are no tests of the regularizers.",
     [T+"regularizers.py"],
     [("l2_regularizer", "t3f/regularizers.py:l2_regularizer"), ("cores_regularizer", "t3f/regularizers.py:cores_regularizer")],
     ["t3f.l2_regularizer", "t3f.cores_regularizer"])
prop("C26", "Any program of TT operations computes what the dense program computes",
     "For every sequence of value-exact operations (construction, sums, products, matrix products, transposes, scaling, slicing, batching, uncapped rounding, re-gauging, casts), applied to results of earlier operations in any order, each result is a well-formed TT object whose dense value equals that of the same program on dense tensors. Failed calls change nothing and do not affect later calls.",
     ["programs", "histories"], "every program over the listed operations and every history, including failed calls in between",
     "Tests apply one operation to freshly generated objects; interactions through metadata, ranks or shared cores of results need sequences.",
     [T+"ops.py", T+"decompositions.py", T+"batch_ops.py", T+"tensor_train.py", T+"tensor_train_batch.py"],
     [("static metadata passed from operation to operation", "t3f/ops.py, t3f/batch_ops.py")],
     ["all public operations"])
prop("C27", "Automatic derivatives with respect to cores and numbers are exact",
     "For every program of smooth value-exact operations (sums, products, matrix products, scaling, transposes, slicing, gathering, batching, inner products, differentiable norms, bilinear forms, regularizers, conversion to dense), TensorFlow's gradient of any result with respect to the cores of any input object, or to the factor, weights, dense matrix or sparse values an operation is given, taken with a GradientTape or tf.gradients, eagerly, through variables or in a compiled function, is finite and equals the derivative of the dense program. No core or number is silently disconnected, counted twice or treated as a constant.",
     ["inputs", "programs"], "every program over the listed operations, every input object, every core and direction",
     "Tests compare values only (gradients only through the Riemannian autodiff); an operation can return the right value and still cut or distort the gradient.",
     [T+"ops.py", T+"batch_ops.py", T+"tensor_train.py", T+"tensor_train_batch.py", T+"regularizers.py"],
     [("contractions", "t3f/ops.py"), ("indexing", "t3f/tensor_train.py:__getitem__"), ("norms", "t3f/ops.py:frobenius_norm_squared"), ("regularizers", "t3f/regularizers.py")],
     ["tf.GradientTape over t3f operations", "tf.gradients over t3f operations"])
prop("C28", "Objects far too large to be dense are handled by their cores alone",
     "Every operation on TT objects with many more elements than fit in memory (dozens of cores, matrices with more than 2^63 rows) works in time and memory polynomial in the number of cores, modes and TT-ranks and returns what it returns for small objects: the elements of the result wherever they are looked up, its shape and ranks, inner products, norms, bilinear forms, projections, Riemannian gradients, log-determinants, spread of random initializers. No call forms the dense tensor, and no size, index, element count or product of norms overflows.",
     ["inputs", "programs"], "every program of TT operations on objects of any number of elements",
     "Every test compares with a dense array, so no test object is larger than one; overflow and dense intermediate results appear only beyond.",
     [T+"ops.py", T+"tensor_train_base.py", T+"tensor_train_batch.py", T+"batch_ops.py", T+"decompositions.py", T+"riemannian.py", T+"autodiff.py", T+"kronecker.py", T+"initializers.py", T+"shapes.py", T+"utils.py"],
     [("sizes", "t3f/tensor_train_base.py:get_shape"), ("linear indices", "t3f/utils.py:unravel_index"), ("numbers of rows", "t3f/initializers.py, t3f/kronecker.py"), ("sums of logarithms", "t3f/ops.py:renormalize_tt_cores")],
     ["all public operations that do not return dense tensors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
