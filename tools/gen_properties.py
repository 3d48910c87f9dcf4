#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is easy to review and diff)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Vector edits behave like edits of an ordinary list",
 "After any sequence of edits to a numeric vector (push, append, insert, ordered insert, remove by index or value with or without keeping order, resize, fill, reverse, sort, element write, assignment from any supported source) its size and elements are exactly those that the same edits give on an ordinary list; an unordered removal may reorder only by moving the last element into the hole. "
 "Searching, reading, equality and duplication report that same content, and a duplicate never changes when its source does.",
 ["histories", "inputs"], "every sequence of edit calls with valid arguments, every length including empty and one element",
 "Tests append and print two fixed vectors; the guarantee ranges over all edit histories, including the ones that empty and refill the buffer.",
 ["core/mlpp_vector.h", "core/mlpp_vector.cpp"],
 [("element storage and resize/realloc discipline", "MLPPVector::resize, push_back, insert, remove*, erase* in core/mlpp_vector.cpp")],
 state=[("_data/_size", "buffer and logical length", "core/mlpp_vector.h")],
 observe=["size(), element_get(), to_vector() after every edit"])

prop("C02", "Matrix edits behave like edits of an ordinary table of rows",
 "After any sequence of structural edits to a matrix (adding one row or many from any supported source, removing a row with or without keeping order, swapping rows, resizing, filling, setting rows, single elements or the diagonal, assignment from another matrix or from lists of rows) its shape and every element are those of an ordinary row table under the same edits; resizing keeps the leading elements in storage order. "
 "Every way of reading a row, an element or the whole matrix reports that same content, and copies are independent of their source.",
 ["histories", "inputs"], "every sequence of structural calls with valid arguments on every shape up to the explored bound, including empty matrices",
 "Tests add and remove rows of one fixed 3-column matrix; shapes, orders and the interaction of edits are unbounded.",
 ["core/mlpp_matrix.h", "core/mlpp_matrix.cpp"],
 [("row-major storage and index computation", "MLPPMatrix::row_add*, rows_add_mlpp_matrix, row_remove*, row_swap, resize, row_get_*, row_set_*")],
 state=[("_data/_size", "row-major buffer and (columns, rows)", "core/mlpp_matrix.h")],
 observe=["size(), element_get(), row_get_*(), to_flat_*() after every edit"])

prop("C03", "Third-order tensor edits behave like edits of a stack of tables",
 "After any sequence of structural edits to a third-order tensor (adding, removing, swapping, reading and writing depth slices and rows, resizing, reshaping, filling, assignment from matrices, vectors or other tensors) its shape and every element are those of an ordinary stack of tables under the same edits. "
 "Reading or writing a slice along any of the three axes touches exactly the elements having that index on that axis, and reading back a slice that was just written returns it.",
 ["histories", "inputs"], "every sequence of structural calls with valid arguments on every shape (including non-cubic ones) up to the explored bound",
 "No repository test exercises the tensor type at all beyond building it for image tests.",
 ["core/mlpp_tensor3.h", "core/mlpp_tensor3.cpp"],
 [("slice-major storage and index computation", "MLPPTensor3::z_slice_*, x_slice_*, y_slice_*, row_*, resize, shape_set")],
 state=[("_data/_size", "buffer and (columns, rows, depth)", "core/mlpp_tensor3.h")],
 observe=["size(), element_get(), *_slice_get*() after every edit"])

prop("C04", "Element-wise arithmetic computes the scalar function in every form",
 "Every element-wise operation on vectors, matrices and third-order tensors (add, subtract, multiply, divide, maximum, minimum, scalar add and multiply, power, square and cube root, absolute value, exponential, natural and base-10 logarithm, error function, sine, cosine, and adding a vector to each matrix row) yields at each position the scalar operation applied to the operands' elements at that position, to float accuracy. "
 "The in-place form, the form returning a new object and the form storing into a target agree with each other for operands of every compatible shape, also when an operand is the target itself, and no operand other than the target changes.",
 ["inputs"], "every operation, every form, every shape and every float value in the operation's domain, including aliased operands",
 "Tests print the results for a handful of positive values and never compare the three forms or aliased operands.",
 ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"],
 [("element loops", "op / opn / opb families in the three containers")],
 observe=["result elements against a double-precision reference; operand snapshots before and after"])

prop("C05", "Products, reductions and constructors match their algebraic definition",
 "Matrix-matrix and matrix-vector products, powers, transposition, Kronecker, outer, dot and cross products, tensor-vector product, norms, distances, sums, extrema and their positions, trace, flattening, row subtraction, diagonal, identity, zero, one, constant and rotation builders, and the covariance matrix return the values and shapes of their textbook definitions to float accuracy for every compatible operand shape. "
 "The in-place, copying and into-target forms of the same product agree, also when an operand is the target itself.",
 ["inputs"], "every shape (square, wide, tall, single row or column) and every float value below overflow",
 "Tests check a couple of square products with fixed numbers; non-square shapes, aliasing and the other products are only printed.",
 ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"],
 [("product and reduction loops", "mult*, mult_vec*, outer_product, kronecker_product*, transpose*, dot, norm_*, cov, matrix_powern, create_rotation_matrix")],
 observe=["result shape and elements against a double-precision reference"])

prop("C06", "Invalid container requests are refused without any effect",
 "A request on a vector, matrix or third-order tensor whose operand is missing, whose operand sizes are incompatible or whose index is out of range reports an error, returns an empty or neutral value, leaves every existing object exactly as it was and touches no memory outside the objects. "
 "After the refusal the objects keep working normally.",
 ["inputs", "fault_sequences"], "every operation that takes an operand, size or index, with every kind of invalid argument, interleaved with valid calls",
 "The tests deliberately avoid error paths (an error line fails them), so refusal behaviour is never exercised.",
 ["core/mlpp_vector.cpp", "core/mlpp_vector.h", "core/mlpp_matrix.cpp", "core/mlpp_matrix.h", "core/mlpp_tensor3.cpp", "core/mlpp_tensor3.h"],
 [("argument guards", "ERR_FAIL_COND / ERR_FAIL_INDEX at the top of every operation")],
 observe=["error log calls, snapshots of all live objects, AddressSanitizer and UBSan reports"])

prop("C07", "Conversions between containers, engine arrays and images round-trip",
 "Converting a vector, matrix or third-order tensor to any supported representation (engine vectors, pooled arrays, nested arrays, byte arrays, standard vectors, flattened vectors, element buffers) and back yields the identical shape and bit-identical elements in the same order. "
 "Exporting a matrix or a depth slice with values in [0,1] as an image and importing it again yields the values rounded to the image's 8-bit precision at the same positions, for every image channel selection.",
 ["inputs"], "every shape including empty and non-square, every float value (images: values in [0,1])",
 "Tests never convert to pooled, byte or nested arrays and have no image round trip.",
 ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "platform/image.cpp"],
 [("conversion functions", "to_*/set_from_*/get_data/set_data/get_as_image/set_from_image")],
 observe=["round-trip results compared bit by bit"])

prop("D01", "Determinant, inverse, adjugate, pseudo-inverse and solve agree with algebra",
 "For every square matrix the determinant equals the Leibniz sum, the cofactor and adjugate satisfy A*adj(A)=det(A)*I, and for well-conditioned matrices the inverse satisfies A*inv(A)=I and the solution of a linear system satisfies A*x=b, all to float accuracy and with the input left unchanged. "
 "For every matrix of full column rank the pseudo-inverse satisfies the left-inverse identity. The container methods and the linear-algebra service give the same answers.",
 ["inputs"], "every size from 1x1 up to the explored bound, every well-scaled float content including zero pivots and negative entries",
 "Tests print the inverse of one matrix; correctness for other sizes (notably 1x1, zero pivots, tall matrices) is not judged.",
 ["core/mlpp_matrix.cpp", "core/lin_alg.cpp"],
 [("Laplace expansion and adjugate", "MLPPMatrix::det, cofactor*, adjoint*, inverse*, pinverse*, solve; MLPPLinAlg::detm ...")],
 observe=["algebraic residuals evaluated in double precision"])

prop("D02", "Matrix factorisations and projections reproduce the input",
 "For every suitable matrix QR returns an orthonormal Q and upper-triangular R whose product is the input, Gram-Schmidt returns orthonormal columns spanning the input, and Cholesky of a symmetric positive definite matrix returns a lower-triangular factor whose product with its transpose is the input. "
 "For every symmetric matrix the eigen decomposition satisfies A*V=V*D with orthonormal V, and singular values equal the square roots of the eigenvalues of the Gram matrix with factors that reproduce the input. "
 "Principal component analysis projects onto leading covariance directions, and definiteness and linear-independence questions are answered in agreement with the eigenvalues or rank.",
 ["inputs"], "every shape and every well-conditioned content within the explored bound",
 "Tests print factors of one or two fixed matrices and never multiply them back.",
 ["core/mlpp_matrix.cpp", "core/lin_alg.cpp", "modules/pca/pca.cpp"],
 [("factorisation routines", "MLPPLinAlg::qrd, gram_schmidt_process, cholesky, eigen, svd, *_checker; MLPPMatrix::eigen*, svd*; MLPPPCA")],
 observe=["reconstruction residual, orthonormality and ordering evaluated in double precision"])

prop("L01", "The linear-algebra service agrees with the container operations",
 "Each operation of the linear-algebra service on vectors, matrices and lists of matrices returns the value its textbook definition and the equally named container operation give, element by element and to float accuracy, for every compatible shape. "
 "It returns a fresh result (or fills the given target) and never modifies its arguments, and it refuses missing or mismatched operands with an error.",
 ["inputs"], "every service function, every compatible shape, every float value in the function's domain; plus missing and mismatched operands",
 "Tests compare five of about ninety functions on one example each.",
 ["core/lin_alg.h", "core/lin_alg.cpp"],
 [("service functions", "MLPPLinAlg::*nm, *nv, *nvt families")],
 observe=["results and operand snapshots against a double-precision reference"])

prop("S01", "Statistics equal their textbook definitions",
 "For every non-empty sample the mean, median, mode set, range, midrange, average absolute deviation, (n-1) variance, standard deviation and covariance, correlation, R-squared, simple-regression coefficients and every named mean (weighted, geometric, harmonic, root-mean-square, power, Lehmer, contraharmonic, Heronian, Heinz, Neuman-Sandor, Stolarsky, identric, logarithmic) and the Chebyshev bound equal their textbook definitions to float accuracy. "
 "The sample passed in is left unchanged and order-independent statistics do not depend on element order.",
 ["inputs"], "every sample length (odd, even, one element), every multiset of well-scaled values including ties and negatives where the statistic allows them",
 "Tests compare each statistic for one fixed sample.",
 ["core/stat.h", "core/stat.cpp"], [("closed-form loops", "MLPPStat::*")],
 observe=["returned values against a double-precision reference; permutation and argument snapshots"])

prop("A01", "Activation functions return their mathematical value in every form",
 "Every activation function returns, for every finite input, its mathematical value to float accuracy, and the scalar, vector and matrix forms and the selection by activation identifier return the same values element by element. "
 "Softmax-type activations return a probability distribution (non-negative, summing to one, ordered like the inputs) for each vector or matrix row, and inputs are never modified.",
 ["inputs"], "every activation, every form, every finite float in its domain, every shape",
 "Tests print activations for one input; forms and identifiers are never compared.",
 ["core/activation.h", "core/activation.cpp"],
 [("activation formulas", "MLPPActivation::*_norm{r,v,m}"), ("selection tables", "run_activation_norm_*, get_activation_function_ptr_normal_*")],
 observe=["values against double-precision formulas; cross-form comparison"])

prop("A02", "Activation derivatives are the derivatives of the activations",
 "For every element-wise activation the derivative form returns the derivative of that activation with respect to its input to float accuracy, at every point where it is differentiable. "
 "The scalar, vector and matrix derivative forms and the selection by activation identifier return the same values, and inputs are never modified.",
 ["inputs"], "every element-wise activation, every form, every finite point of differentiability in range, every shape",
 "Tests print derivatives for one input and never compare them with a difference quotient.",
 ["core/activation.h", "core/activation.cpp"],
 [("derivative formulas", "MLPPActivation::*_deriv{r,v,m}"), ("selection tables", "run_activation_deriv_*, get_activation_function_ptr_deriv_*")],
 observe=["values against double-precision derivatives and central differences"])

prop("K01", "Costs and their gradients match the definition and each other",
 "Every cost function returns its textbook value for vectors and for matrices, and the selection by cost identifier returns the same. "
 "Its derivative form has the shape of the prediction and is the gradient of the cost with respect to the prediction up to one positive constant factor per cost, so stepping against it never increases the cost for a small enough step; arguments are never modified.",
 ["inputs"], "every cost, vector and matrix form, every shape, predictions and labels throughout each cost's domain",
 "Tests only print costs while training; neither values nor gradients are judged.",
 ["core/cost.h", "core/cost.cpp"],
 [("cost formulas", "MLPPCost::*"), ("selection", "run_cost_norm_*, run_cost_deriv_*")],
 observe=["values against double-precision formulas; gradients against central differences"])

prop("K02", "Regularisation terms, weight steps and derivatives are consistent",
 "For every regularisation kind the penalty equals its definition (L1, L2, elastic mix, weight clipping), its derivative is the gradient of that penalty at non-zero weights, and the regularised weight step equals the weights minus the scaled derivative (or the clipped weights), for vectors and matrices alike. "
 "With no regularisation the penalty and derivative are zero and the weights come back unchanged, and arguments are never modified.",
 ["inputs"], "every kind, vector and matrix form, every lambda and alpha in range, weights of both signs and zero",
 "Tests run regularised training once and print; the numbers are not judged.",
 ["core/reg.h", "core/reg.cpp"], [("regularisation formulas", "MLPPReg::reg_term*, reg_weights*, reg_deriv_term*")],
 observe=["values against double-precision formulas and difference quotients"])

prop("U01", "Mini-batches partition the data and keep every sample with its label",
 "Splitting a data set into mini-batches puts every row into exactly one batch in order, gives every batch floor(rows/batches) rows with the remainder going to the last batch, and keeps each row paired with its own label, for matrices alone, matrices with label vectors and matrices with label matrices, in the engine and in the standard-vector interface. "
 "The source data is left unchanged.",
 ["inputs"], "every number of rows, columns and batches with 1 <= batches <= rows",
 "Tests only train with sizes that divide evenly and never look at the batches.",
 ["core/utilities.h", "core/utilities.cpp"], [("batch slicing", "MLPPUtilities::create_mini_batches*, createMiniBatches")],
 observe=["multiset and order of (row, label) pairs, conservation count"])

prop("U02", "Classification metrics and parameter initialisation are correct",
 "Performance and accuracy equal the fraction of rounded predictions equal to the labels (for matrices: of rows that match entirely), and precision, recall and F1 equal their definitions over true and false positives and negatives. "
 "Initialising weights or biases writes every element with a finite value drawn from the requested distribution (within its bounds or with its standard deviation), and the same initial values are not reused for every element.",
 ["inputs"], "every prediction and label sequence, every shape and every initialisation kind",
 "Tests print scores of trained models; initial values are random and unchecked.",
 ["core/utilities.h", "core/utilities.cpp"],
 [("metrics", "MLPPUtilities::performance_*, recall, precision, accuracy, f1_score"), ("initialisers", "weight_initialization*, bias_initialization*")],
 observe=["returned scores against counting; bounds and moments of initial values"])

prop("N01", "Convolution, pooling, image filters and DCT follow their definitions",
 "Two- and three-dimensional convolution with stride and zero padding, max, min and average pooling and global pooling return the output size floor((N-F+2P)/S)+1 and at each position the sum of products (or the extremum or average) over exactly the window starting at position times stride. "
 "The fixed edge-detection kernels, Gaussian kernel, image gradients with their magnitude and orientation, second-moment products and the discrete cosine transform equal their definitions to float accuracy, and inputs are never modified.",
 ["inputs"], "every input, filter and channel size, stride and padding within the explored bound",
 "Tests print one stride-1 convolution; stride, padding and channels are not judged.",
 ["core/convolutions.h", "core/convolutions.cpp", "core/transforms.cpp"],
 [("window loops", "MLPPConvolutions::convolve_*, pool_*, global_pool_*, dx, dy, gaussian_*"), ("DCT", "MLPPTransforms::discrete_cosine_transform")],
 observe=["output shapes and elements against a double-precision reference"])

prop("N02", "Numerical differentiation, approximation and root finding are accurate",
 "For smooth functions of one or several variables the numerical first, second and third derivatives, the gradient, Hessian, third-order tensor and Laplacian approximate the true values, with accuracy appropriate to single precision. "
 "Constant, linear, quadratic and cubic approximations equal the Taylor polynomial of that degree, root finders converge to a root when started near a simple one, growth integration follows the Euler recurrence, and the second-derivative test classifies critical points correctly.",
 ["inputs"], "polynomial, trigonometric and exponential functions, every point and expansion centre within the explored range, one to three variables",
 "Tests print approximations of one function and accept any number.",
 ["core/numerical_analysis.h", "core/numerical_analysis.cpp"],
 [("finite differences and iterations", "MLPPNumericalAnalysis::*")],
 observe=["returned values against analytic derivatives and roots"])

prop("P01", "Numeric data preparation preserves samples and meets its definition",
 "Feature scaling maps every column linearly onto [0,1], mean centring and mean normalisation give their defined zero-mean results, one-hot encoding yields exactly one 1 per label at that label's class and maps back to the label, and reverse one-hot is its inverse. "
 "Train-test splitting partitions the samples so that every input row appears in exactly one part together with its own output row and the parts have the requested sizes.",
 ["inputs"], "every number of samples, features and classes, every split ratio",
 "Tests print a scaled data set; splits are random and unchecked.",
 ["core/data.h", "core/data.cpp"], [("preparation routines", "MLPPData::feature_scaling, mean_centering, mean_normalization, one_hot_rep, reverse_one_hot, train_test_split")],
 observe=["conservation of (row, label) pairs; column ranges and means"])

prop("P02", "Data sets and text are loaded and tokenised without loss",
 "Loading a comma-separated file as supervised or unsupervised data returns one sample per non-empty line with the feature columns and output column in file order and the printed numeric values, including blank trailing lines. "
 "Text splitting, segmentation, tokenisation, stop-word removal, bag-of-words and term-frequency encodings return exactly the words, counts and orders their definitions give.",
 ["inputs"], "every rectangular file of numbers, every short text over words, spaces and punctuation",
 "Tests load the shipped data sets and only print them.",
 ["core/data.h", "core/data.cpp"], [("loaders", "MLPPData::set_data_*, load_*"), ("text tools", "MLPPData::split_sentences, segment, tokenize, remove_stop_words, bag_of_words, tfidf")],
 observe=["loaded samples against generated files; token lists against a reference tokenizer"])

prop("O01", "Full-batch training of single-layer models follows gradient descent",
 "One epoch of full-batch training of a linear, logistic, softmax, probit, exponential, tanh or complementary-log-log regression moves the parameters by the learning rate times the model's documented cost gradient plus the regularised weight step, and closed-form fits return the least-squares parameters. "
 "Predictions for one sample, for a set and the stored fit agree with the model formula for the current parameters, and the score is the fraction of correct rounded predictions.",
 ["inputs", "histories"], "every data set shape and content in range, every learning rate, regularisation kind and number of epochs explored",
 "Tests train on a fixed data set and print the score; no parameter or prediction is judged.",
 ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/exp_reg/exp_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/uni_lin_reg/uni_lin_reg.cpp"],
 [("training loops", "gradient_descent / train_gradient_descent / mle / normal_equation / newton_raphson"), ("forward formulas", "evaluate*, propagate*, forward_pass")],
 observe=["parameters recovered through predictions before and after each epoch against a double-precision reference step"])

prop("O02", "Stochastic, mini-batch and adaptive training take the defined steps",
 "One step of stochastic training equals the single-sample gradient step of some sample of the data set, and one epoch of mini-batch training equals the sequence of gradient steps over the batches in order, for every single-layer model. "
 "Momentum, Adagrad, Adadelta, Adam and Adamax updates of linear regression follow their published recurrences, so no optimiser silently leaves the parameters untouched when the gradient is not zero.",
 ["inputs", "histories", "schedules"], "every data set shape, batch size, learning rate and optimiser constants explored; every random choice of sample",
 "Tests run the optimisers once and print a score; the sample choice is random.",
 ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/exp_reg/exp_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp"],
 [("training loops", "sgd / mbgd / momentum / adagrad / adadelta / adam / adamax")],
 observe=["parameters recovered through predictions before and after each step; the set of admissible next states"])

prop("O03", "Support-vector training follows the margin objective",
 "One epoch of full-batch, stochastic or mini-batch training of the linear support-vector classifier moves weights and bias against the sub-gradient of the regularised hinge cost, and dual training moves the multipliers along the projected dual gradient while keeping each within [0, C]. "
 "The predicted label of a sample is the sign of the decision value, for single samples and sets alike, and the kernel values equal their definition.",
 ["inputs", "histories"], "every two-class data set with labels -1 and +1, every learning rate, C and number of epochs explored",
 "Tests train once and print the score.",
 ["modules/svc/svc.cpp", "modules/dual_svc/dual_svc.cpp"],
 [("training loops", "MLPPSVC::*, MLPPDualSVC::*")],
 observe=["decision behaviour before and after each epoch against a double-precision reference step"])

prop("H01", "Network layers and networks compute the composed forward pass",
 "A layer's output equals its activation applied to input times weights plus bias, for batches and single samples alike, and reading or replacing its input never changes its weights. "
 "Every network's prediction is the composition of its layers with the current parameters: repeated predictions without training are identical, single-sample and batch predictions agree, and the score is computed from those predictions.",
 ["inputs", "histories"], "every layer width, depth, activation and data shape explored, every order of layer calls",
 "Tests train randomly initialised networks and print; nothing relates predictions to parameters.",
 ["modules/hidden_layer/hidden_layer.cpp", "modules/output_layer/output_layer.cpp", "modules/multi_output_layer/multi_output_layer.cpp", "modules/ann/ann.cpp", "modules/mann/mann.cpp", "modules/mlp/mlp.cpp", "modules/softmax_net/softmax_net.cpp", "modules/auto_encoder/auto_encoder.cpp", "modules/gan/gan.cpp", "modules/wgan/wgan.cpp"],
 [("forward passes", "forward_pass, test, model_test, model_set_test"), ("one-time initialisation", "initialize / _initialized")],
 observe=["layer getters and predictions against a double-precision forward pass"])

prop("H02", "Network training follows back-propagation",
 "One training step of a multi-layer perceptron, softmax network, autoencoder, single- or multi-output network moves every weight and bias by the learning rate times the back-propagated gradient of its cost, averaged over the samples used (full batch, one sample of the data, or each batch in order; summed for the softmax network's cross-entropy), followed by the penalty step of its regularised layers (for the single-output network and the adversarial networks the penalty derivative is part of the gradient; weight clipping keeps weights between its thresholds), to float accuracy. "
 "The single-output network's momentum, Nesterov, Adagrad, Adadelta, Adam, Adamax, Nadam and AMSGrad trainers apply their published update to that gradient, learning-rate schedules follow their formulas, and the adversarial networks alternate discriminator steps (real and generated samples with targets 1 and 0; for the Wasserstein network 1 and -1 with five critic steps) and generator steps (target 1). "
 "Training for several epochs continues from the parameters of the previous epoch, and a zero learning rate changes nothing but the penalty step.",
 ["inputs", "histories", "schedules"], "every width, depth, activation, cost, learning rate and data shape explored; every random sample choice",
 "Tests train randomly initialised networks once and print the score.",
 ["modules/ann/ann.cpp", "modules/mann/mann.cpp", "modules/mlp/mlp.cpp", "modules/softmax_net/softmax_net.cpp", "modules/auto_encoder/auto_encoder.cpp", "modules/wgan/wgan.cpp"],
 [("back-propagation", "gradient_descent, sgd, mbgd, compute_gradients, update_parameters")],
 observe=["parameters or predictions before and after each step against a double-precision reference step"])

prop("M01", "Nearest-neighbour classification and outlier detection follow the data",
 "k-nearest-neighbour prediction returns the most frequent label among the k training samples closest in Euclidean distance (any of the most frequent on ties), for single samples and sets alike, and its score is the fraction of training samples predicted correctly. "
 "Outlier detection reports exactly the values whose standard score exceeds the threshold in absolute value, in order, for sample sets and for single samples.",
 ["inputs"], "every training set, k from 1 to its size, every query; every sample and threshold",
 "Tests print one classification and one outlier list.",
 ["modules/knn/knn.cpp", "modules/outlier_finder/outlier_finder.cpp"],
 [("neighbour search and vote", "MLPPKNN::nearest_neighbors, determine_class"), ("z-score filter", "MLPPOutlierFinder::model_*")],
 observe=["predictions against an exhaustive reference"])

prop("M02", "k-means assigns to the nearest centroid and improves its objective",
 "Training starts from samples of the data (for k-means++ each further start is the sample with the largest summed distance to those already chosen). Every k-means assignment is to a nearest centroid, and each centroid returned after training is the mean of the samples assigned to it in that iteration, so the within-cluster squared distance never increases between epochs. "
 "Predictions for single samples and for sets of any size return the nearest learned centroid, and silhouette scores follow their definition.",
 ["inputs", "histories"], "every data set, number of clusters, initialisation kind and epoch count explored",
 "Tests print clusters of one data set from a random start.",
 ["modules/kmeans/kmeans.cpp"], [("assignment and update", "MLPPKMeans::train, _evaluate, _compute_mu, model_set_test, silhouette_scores")],
 observe=["predictions and objective against an exhaustive reference"])

prop("M03", "Naive Bayes classifiers return the most probable class",
 "Training naive Bayes estimates class priors as label frequencies and per-class statistics from the training data: Gaussian one normal distribution per class (mean and sample standard deviation of all its values), Bernoulli per class the fraction of its samples containing each word (samples list distinct word identifiers), multinomial per class the frequency of each word. "
 "Prediction returns a class with maximal posterior under those estimates for single samples and sets, and the score is the fraction of training samples predicted correctly.",
 ["inputs"], "every training set with every class present, every query",
 "Tests print the score for one data set.",
 ["modules/gaussian_nb/gaussian_nb.cpp", "modules/bernoulli_nb/bernoulli_nb.cpp", "modules/multinomial_nb/multinomial_nb.cpp"],
 [("estimates and posterior", "MLPPGaussianNB::evaluate, MLPPBernoulliNB::evaluate, MLPPMultinomialNB::evaluate")],
 observe=["predictions against an exhaustive reference"])

prop("M04", "Training reports tell the truth and do not influence the training",
 "When reporting is requested, training prints one report per epoch (per batch with mini-batches) that names the epoch, the cost of the model on the data just trained on after the step, by how much the step lowered it, and the parameters the model then has; earlier reports do not depend on later epochs. "
 "With or without reports the training has the same result, and nothing is printed when none were requested.",
 ["inputs", "configurations"], "every model, training method, data set, regularisation and batch size",
 "Tests call training with reports off or only look at the score.",
 ["modules", "core/utilities.cpp", "core/cost.cpp"],
 [("cost report", "MLPPUtilities::cost_info"), ("parameter report", "MLPPUtilities::print_ui_vb / print_ui_mb"), ("reporting in training", "gradient_descent, sgd, mbgd and the optimisers of every model")],
 observe=["messages the library logs, parsed and compared with the trained model"])

prop("M05", "A model assembled step by step equals one built in one go",
 "Models, layers and networks that can be created empty and given their data and settings one property at a time, in any order and with values replaced along the way, start, train and predict exactly like the one-step construction with the same values once they are completed, hold the values last given, use parameters handed in from outside, and score the parameters they currently have. "
 "Until all required parts are present they say that they are not ready and refuse to be completed, trained, scored or asked for predictions, reporting an error and changing nothing. "
 "A model given data of another shape than its parameters says that it is not ready and refuses training until it is completed again, which makes it equal to a new one.",
 ["histories", "configurations"], "every order of settings, every repetition, every premature use, every data set",
 "Tests build every model with its full constructor.",
 ["modules/svc/svc.cpp", "modules/probit_reg/probit_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/softmax_net/softmax_net.cpp", "modules/mlp/mlp.cpp", "modules/pca/pca.cpp", "modules/uni_lin_reg/uni_lin_reg.cpp", "modules/wgan/wgan.cpp", "modules/hidden_layer/hidden_layer.cpp", "modules/output_layer/output_layer.cpp", "modules/multi_output_layer/multi_output_layer.cpp", "modules/multinomial_nb/multinomial_nb.cpp", "modules/gaussian_nb/gaussian_nb.cpp", "modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/mann/mann.cpp"],
 [("readiness", "needs_init, is_initialized"), ("completion", "initialize of every model and layer"), ("properties", "set_* and data_*_set")],
 observe=["parameters, predictions and scores of pairs of models with the same random seed", "refusals"])

prop("R11", "Every logged message is written whole, once and in order",
 "Every message handed to the logger appears exactly once in the output, as one piece that starts with its severity, names the file, function and line it was given, and ends with the unchanged text whatever characters it holds; messages of one thread keep their order however many threads log at once. "
 "A failed guard leaves the function (or goes on with the next item) with the requested value after exactly one error that says why, a guard that holds says nothing; a fatal check ends the process only after its message and everything logged before it have been written.",
 ["inputs", "schedules", "crash_points"], "every text, place, severity and call form, every interleaving of threads that log, every point where a fatal check ends the process",
 "No test reads the log, logs from two threads or lets a process end in a fatal check.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("messages", "RLogger::print_* and log_*, get_*_string_ptr, log_ptr, log_ret_ptr, the LOG_* and PRINT_* macros"), ("guards", "ERR_FAIL_* and ERR_CONTINUE_* macros"), ("fatal checks", "CRASH_* macros, GENERATE_TRAP, RLogger::flush")],
 observe=["the bytes on the real standard output (file or slow pipe)", "exit status and last output of child processes", "ThreadSanitizer reports"])

prop("R12", "The clock never runs backwards and no sleep ends early",
 "Within a thread all readings of the clock, in any unit, fit one starting point: each lies between the system's monotonic clock just before and just after it, so time never runs backwards, whatever other threads read; the epoch seconds are the system's. "
 "A sleep lasts at least as long as asked for, in every unit, also when signals arrive during it.",
 ["schedules", "inputs", "fault_sequences"], "every sequence of readings in every unit in any number of threads, every duration, every sequence of signals",
 "No test reads the clock or sleeps, and one reading could not show it.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("clock", "SFWTime::time_*"), ("epoch", "SFWTime::date_epoch"), ("sleeping", "SFWTime::sleep_*")],
 observe=["readings bracketed by the system's clock", "duration of sleeps and signals delivered during them"])

prop("M06", "Listings of parameters hold every value once and in order",
 "The text of a vector, matrix or third-order tensor, and the console listings, log messages and files of weights, initial values and biases contain every value exactly once, in order, under the right heading and layer number, to the printed precision; rows stay separate lines in texts of matrices and tensors. "
 "A file is replaced or extended as requested, keeping what was appended to, and making a listing changes no value.",
 ["inputs", "histories"], "every shape including empty, every finite value, every sequence of writes to a file",
 "Tests print and never look at what was printed.",
 ["core/utilities.h", "core/utilities.cpp", "core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"],
 [("texts of containers", "MLPPVector / MLPPMatrix / MLPPTensor3::to_string"), ("files", "MLPPUtilities::saveParameters"), ("console and log", "MLPPUtilities::UI, CostInfo, print_ui_*, cost_info")],
 observe=["returned text, captured standard output, logged messages and written files, parsed"])

prop("R01", "Platform containers keep value semantics under every edit history",
 "The platform's sequence, map, set, list and pooled-array types behave as ordinary values: any history of edits gives the content of the corresponding mathematical sequence, map or set, and a copy taken at any time never changes when the original or another copy is edited. "
 "Sorting orders elements without losing or duplicating any, and ordered maps iterate in key order while insertion-ordered maps iterate in insertion order.",
 ["histories", "inputs"], "every sequence of edits, copies and accesses on every container type within the explored bound",
 "No repository test exercises the platform containers directly.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("copy-on-write buffers", "CowData, Vector, PoolVector"), ("hash and tree containers", "HashMap, OAHashMap, HashSet, RBMap, RBSet, List, LocalVector, SortArray")],
 observe=["content after every edit against a standard-library model, AddressSanitizer"])

prop("R02", "String operations follow their definition",
 "Searching, slicing, splitting, joining, replacing, trimming, inserting, erasing, case mapping, comparison, numeric formatting and parsing, escaping, encoding (UTF-8, base64, hex, percent) and path handling of the platform string return what their definitions give for every input, and encode-decode pairs are inverse to each other. "
 "Strings are values: no operation returning a new string changes its source. Interned names are equal exactly when their text is equal.",
 ["inputs"], "every string over ASCII and non-ASCII characters up to the explored length, including empty ones",
 "No repository test exercises the platform string directly.",
 ["platform/sfw.h", "platform/sfw.cpp"], [("string functions", "String::*")],
 observe=["results against a reference implementation; round trips; AddressSanitizer"])

prop("R03", "Shared objects may be used from several threads as documented",
 "Reference counting of shared objects, copy-on-write buffers, string names and locks is safe under concurrency: when several threads copy, drop and read handles to the same object or buffer, no data race occurs, the object is freed exactly once after the last handle is gone, and every reader sees a consistent value. "
 "Independent models trained in parallel threads give the results they give when trained alone.",
 ["schedules"], "every interleaving of copies, releases, reads and private writes by the explored number of threads",
 "The test runner is single-threaded.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("atomic reference counts", "SafeRefCount, Reference, CowData, StringName"), ("locks", "Mutex, RWLock, SpinLock")],
 observe=["ThreadSanitizer reports; live-object and destruction counters; per-thread results"])

prop("R04", "Random numbers and scalar math helpers meet their contract",
 "Seeding the platform's random generator makes its sequence reproducible, range-limited draws stay within the requested inclusive bounds and shuffles are permutations. "
 "The scalar math helpers (clamp, lerp, wrap, snap, step, rounding, sign, remapping, angle and power-of-two helpers) return their defined values for every input in their domain.",
 ["inputs"], "every seed, every range, every argument in domain within the explored bounds",
 "No repository test exercises the platform math directly.",
 ["platform/sfw.h", "platform/sfw.cpp"], [("generator", "RandomPCG, Math::rand*"), ("helpers", "Math::*")],
 observe=["draws against bounds and replays; values against a double-precision reference"])

prop("R05", "Geometry and colour values give what their definitions give",
 "Vectors, integer vectors, rectangles, boxes, planes, triangles, quaternions, rotation matrices, 2D and 3D transforms and projections give the value of the mathematical definition of each operation: arithmetic, lengths, products, interpolation, intersections, containment, conversions between representations, inverses and compositions, with an operation and its inverse undoing each other and an in-place form agreeing with its copying form. "
 "Every rotation representation of one rotation turns every vector alike, and every intersection reported lies on both objects while none that exists is missed. "
 "Colours convert between channels, hue-saturation-value, packed integers, web notation and names without changing, and text that is not a colour is rejected.",
 ["inputs"], "every operation of these types on every value of their documented domain within the explored magnitudes, degenerate and boundary values included",
 "No test exercises any of these types.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("vectors and colours", "Vector2, Vector3, Vector4, Vector2i, Vector3i, Vector4i, Color"), ("regions and planes", "Rect2, Rect2i, AABB, Plane, Face3"), ("rotations and transforms", "Quaternion, Basis, Transform2D, Transform, Projection")],
 observe=["every result against an independent double-precision model built from plain 3x3 and 4x4 matrices and sampled points; AddressSanitizer and UBSan over the platform code"])

prop("R06", "Dynamic values, arrays and dictionaries hold and combine what they are given",
 "A variant made from a value of any supported type returns exactly that value; copying, assigning over a variant of any other type, comparing, hashing, zeroing, blending, indexing, iterating and applying operators give what the held value's definition gives, and an unsupported request is reported as invalid and changes nothing. "
 "Arrays and dictionaries are shared by handle and behave as an ordinary sequence and an insertion-ordered map under every edit history, including being replaced by one of their own elements; a duplicate is independent, sorting orders and keeps the elements, and formatted text shows the held values. "
 "A variant holding an object keeps a counted object alive, and reports an object deleted elsewhere as gone instead of touching it.",
 ["inputs", "histories"], "every value type, operator and index, and every history of edits, aliases, duplicates, sorts and object deletions within the explored bounds",
 "Tests use variants only to pass matrices through arrays.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("the variant and its operators", "Variant, Variant::evaluate, Variant::get/set, Variant::iter_*"), ("shared containers", "Array, Dictionary")],
 observe=["values against an independent model of every type; handle identity; live objects; AddressSanitizer and UBSan over the platform code"])

prop("R07", "Files and directories: bytes, text, safe saving and tree operations",
"A file written and read through any mix of byte, number, text and line operations, seeks, modes and reopenings behaves as an array of bytes with a position, in the byte order asked for; what was written is on disk after closing, a safe save leaves the complete old or the complete new content, and a failed or refused read, write or opening is reported instead of delivering invented data. "
"Directory operations (make, list, rename, copy, remove, erase recursively, link) do to a tree exactly what their names say and report success exactly when they did it. "
"Erasing never follows a link out of the directory, and nothing outside the named targets changes.",
["inputs", "histories", "fault_sequences"], "every content, history of file and directory operations, mode, byte order, tree shape with links, and write failure at any point within the explored bounds",
"Tests load one data file and never write, list or remove anything.",
["platform/sfw.h", "platform/sfw.cpp"],
[("files", "FileAccess"), ("directories", "DirAccess")],
observe=["bytes on disk and returned values against an array with a position; trees against the plain system calls on an equal tree; write faults by file size limits and full devices; guarded destructive system calls"])

prop("R08", "Objects, references, the object registry and signals keep their contracts",
 "Objects report their class and ancestry, store and read properties and metadata exactly as their class chain defines (the base class is asked first to store, the most derived first to read), receive every notification once per class in the declared order, and the registry finds exactly the objects that are alive. "
 "References of any static type to one object agree, become empty when the object is of an unrelated class, and destroy it exactly once when the last is dropped, also when a reference is replaced by one held inside the object it releases. "
 "Emitting a signal calls every connected handler once, in order, with that emission's sender and parameters, and calls nobody who is not connected, also when handlers connect, disconnect or emit again.",
 ["inputs", "histories"], "every class of a hierarchy with and without hooks, every mix of handle types, and every history of creations, assignments, drops, connections, disconnections and nested emissions within the explored bounds",
 "Tests never inspect objects, references or signals; they only use references to hold matrices.",
 ["platform/sfw.h", "platform/sfw.cpp"],
 [("objects and their registry", "Object, ObjectDB, SFW_OBJECT, memdelete"), ("reference counting", "Reference, Ref, RefPtr"), ("signals", "Signal, Resource::emit_changed")],
 observe=["hook calls in order, live object count, destruction events, reference counts and handler calls against a model; AddressSanitizer over the platform code"])

prop("R09", "Memory pools, sub-processes, sockets and addresses keep their contracts",
"A memory pool hands out blocks that are disjoint, aligned, inside the pool and never lose their content, keeps locked blocks in place, refuses ids that are not in use, and serves every request that fits in its free memory as long as nothing is locked. "
"A sub-process receives exactly the arguments given, all it prints arrives once and in order, a failed or killed process never looks successful, and no process, descriptor, memory or signal to a foreign process is left behind, also after failed starts. "
"Sockets deliver what was sent as a stream of bytes in both directions, report refused, missing and vanished peers as errors without touching other descriptors, and addresses and their copies show the address they were made from and classify it correctly.",
["inputs", "histories", "fault_sequences"], "every history of pool operations, every argument text, program output, exit and start failure, every address, and every loopback conversation within the explored bounds",
"Tests never use these parts of the platform.",
["platform/sfw.h", "platform/sfw.cpp"],
[("pool", "PoolAllocator"), ("processes", "SubProcess"), ("network", "Socket, InetAddress")],
observe=["pool content and layout against a model; arguments and output of real children, collected processes, signals, descriptors and allocated bytes; bytes over real loopback connections; AddressSanitizer and UBSan"])

prop("R10", "Images keep their pixels through storage, conversion, scaling and files",
"An image holds exactly the pixels written to it in every format: reading, writing back, copying, cropping, flipping, filling, blitting and blending with any offsets touch the pixels they name and no others, conversion keeps what the new format can hold, and lossless files are read back unchanged. "
"Scaling never leaves the range of the image or mixes components, one-coloured images stay one-coloured, every mipmap is the average of the level above it, and sizes, offsets and level counts always agree with the data. "
"Impossible sizes, positions, formats and damaged files, locked and empty images are refused or read without touching anything else.",
["inputs", "histories"], "every image size, format and content, every rectangle and offset, every conversion and scaling, every saved or damaged file within the explored bounds",
"Tests never use the image class beyond building the library.",
["platform/image.h", "platform/image.cpp", "platform/3rd_stb_image.h", "platform/3rd_stb_image_write.h"],
[("images", "Image")],
observe=["every byte of the image against a model image per operation; real files read back; AddressSanitizer and UBSan"])

prop("Z01", "Objects are released: repeated use does not grow memory",
 "Creating, using and dropping containers, services and models releases every object and buffer they created: repeating the same workload leaves the number of live objects and of allocated bytes where it was after the first repetitions, on success paths and after refused requests alike. "
 "No use-after-free, double free or uninitialised result occurs when objects are dropped in any order.",
 ["histories", "fault_sequences"], "every public class and operation of the library in repeated create-use-drop cycles, with drops in random order",
 "Tests run each operation once per process and ignore leaks.",
 ["core", "modules", "platform/sfw.h"], [("reference counting and buffer ownership", "Ref<>, memnew/memdelete, MLPPVector/MLPPMatrix/MLPPTensor3 destructors")],
 observe=["allocated bytes from the sanitizer allocator, live object count, AddressSanitizer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
