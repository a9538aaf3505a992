SM = 'nntl/interface/math/smath.h'; MN = 'nntl/interface/math/mathn.h'
_w = 'each kernel has several single- and multi-threaded variants selected by size; tests sample few sizes and contents'
prop('C09', 'Sums and means are exact in every variant',
 'For every matrix size and contents, the sums of products, sums of squares (of a matrix, a vector or one strict triangle of a square matrix), row sums, column sums and column means computed by the math interface equal their mathematical definition, whichever single- or multi-threaded, plain or numerically stable variant computes them. Arguments are not modified, the in-place row sum changes only the first column, column sums cover data and not biases, and nothing is written past the result.',
 ['inputs', 'configurations'], 'all contents within size bounds, both sides of the thread-selection thresholds', _w, [SM, MN], [('ewSumProd, ewSumSquares*, mrwSum*, mcwMean*, mcwSum', SM)], 'matrices up to 3x7 (6x6 triangles), exact real arithmetic, 3 threads')
prop('C10', 'Row- and column-wise transformations touch exactly the right elements',
 'Multiplying or dividing each row by its own factor, subtracting a value from or scaling each column, subtracting column means (optionally only over elements different from a central point) produce, for every size and contents and in every variant, exactly the element-wise definition, leave the parameter vector unchanged and leave skipped elements as they were.',
 ['inputs', 'configurations'], 'all contents within size bounds', _w, [SM, MN], [('mrwMulByVec*, mrwDivideByVec*, mcwDeMean*, mcwSub_ip*, mcwMulDiag_ip*', SM)], 'matrices up to 4x4 (6x2), exact real arithmetic, 3 threads')
prop('C11', 'Maxima, logical reductions, binarization and counts are right',
 'For every size and contents and in every variant: the row maximum is the largest element of the row and the row argmax indexes a largest element; the row-wise OR of a binary matrix is one exactly for rows that contain a one; binarization yields the upper value exactly for elements that exceed the threshold and touches neither biases nor, for the batch form, rows outside of the batch; the counts of non-zero and of equal elements are exact.',
 ['inputs', 'configurations'], 'all contents (every bit pattern for binarization and counting) within size bounds', _w, [SM, MN], [('mrwIdxsOfMax*, mrwMax*, mrwOr*, ewBinarize*, vCountNonZeros, vCountSame*', MN + ':266-455, 1044-1160')], 'matrices up to 3x6, ties included')
prop('C12', 'Moving data between matrices is lossless and goes to the right place',
 'Cloning columns, tiling and untiling, extracting samples by an index sequence, by a mask or as a consecutive block, filling rows by a mask and transposing (out of place with or without biases, and in place) put every element, bit for bit, exactly where its definition says, zero or leave alone everything else, keep the biases of the destination and never modify the source, in every variant and both batch layouts.',
 ['inputs', 'configurations'], 'every bit pattern, every index sequence and mask within size bounds', _w, [SM, MN], [('mCloneCol*, mTilingRoll*, mTilingUnroll*', SM), ('mExtract*, mFillRowsByMask*, mTranspose*', MN + ':457-800, 2760-2925')], 'matrices up to 3x5, tiles up to 3')
prop('C13', 'Element-wise arithmetic equals its definition and leaves biases alone',
 'Scaling and shifting, adding, subtracting, multiplying, scaled and sign-scaled additions (optionally only where the target is nonzero), squares, absolute values, signs, clamping, complements, momentum updates and the sum of absolute values equal, for all contents and constants and in every single- and multi-threaded variant, their per-element definition. Bias rows or columns keep their ones, and operands that are only read stay unchanged.',
 ['inputs', 'configurations'], 'all real contents and constants within size bounds, both bias layouts', _w, [MN], [('ev*_ip*, vAdd_ip*, evSign, evAbs, evSquare, evClamp, evOneCompl, apply_momentum, vSumAbs', MN + ':1160-1190, 1526-2375')], 'matrices up to 3x3 (1x5), exact real arithmetic, 3 threads')
prop('C14', 'Layer products compute weighted sums and their gradients',
 'The matrix products handed to BLAS carry the right dimensions, leading dimensions, transpositions and scales: for every batch size, layer width and layout of previous and current activations, the forward product gives each neuron the weighted sum of its inputs plus its bias weight, the backward products give the gradients of inputs and of weights (bias weights included), and plain, transposed, scaled and covariance products equal their definition; destination biases and weights stay untouched and the weight matrix keeps its shape.',
 ['inputs', 'configurations'], 'all real contents within dimension bounds, all layout combinations', 'a wrong leading dimension or transposition shows only for some shape/layout combinations',
 [MN, 'nntl/interface/math/bindings/b_open_blas.h'], [('mMulAB_C, mMulABt_Cnb, mScaledMulAtB_C, mMul_prevAct_weights_2_act, mMul_dLdZ_weights_2_dLdAPrev, mMulScaled_dLdZ_prevAct_2_dLdW, mColumnsCov', MN + ':2376-2690')], 'dimensions 1..3; BLAS itself is replaced by its textbook definition')
prop('C15', 'Activation functions and their derivatives match',
 'Every activation function of the math interface (sigmoid, ReLU, leaky ReLU, ELU, ELogU, LogLogU, LogU, softsign, softsigm, SELU, step) equals its definition for all arguments and parameters, in every single- and multi-threaded variant, and never changes biases. Each derivative kernel, applied to an activation value, yields exactly the derivative of that function at the argument that produced the value. The activation classes layers are parameterised with apply their own function and derivative with their own parameters, and a class that claims to map zero to zero does.',
 ['inputs', 'configurations'], 'all real arguments and parameters', 'derivatives must agree with functions everywhere, for each parameter value and kernel variant', [MN, 'nntl/activations/'], [('sigm..selu and derivatives, _st/_mt', MN + ':3180-4130'), ('activation classes', 'nntl/activations/*.h')], 'exact real arithmetic with exp and log axiomatised; matrices up to 2x3')
prop('C16', 'Losses are right and their derivatives are their gradients',
 'Quadratic, weighted/custom quadratic and cross-entropy losses (dense and softmax) computed by the math interface equal their definition over the whole batch, and the dL/dZ produced for an output layer equals the derivative of that loss with respect to the pre-activation of every neuron and sample, in every variant. Softmax turns each row into positive numbers that sum to one in the proportion of the exponents, for all logits including ones too large to exponentiate, in every variant and without touching biases.',
 ['inputs', 'configurations'], 'all activations, logits and targets in their domains', 'a derivative that disagrees with its loss trains silently to a wrong optimum', [MN, 'nntl/activations/'], [('loss_quadratic*, loss_xentropy*, loss_softmax_xentropy*, dSigmQuadLoss_dZ, dSigmXEntropyLoss_dZ, softmax*', MN + ':2940-3180, 4130-4600')], 'exact real arithmetic with exp and log axiomatised; matrices up to 2x3')
prop('C17', 'Optimizer kernels follow their published update rules',
 'RMSProp (Hinton and Graves), RProp, ModProp, Adam, AdaMax, Nadam/RNadam and individual learning rates transform the gradient matrix, their running moments and their power accumulators exactly as their definition says, one step from any state (accumulators advance once per call), identically in every single- and multi-threaded variant. Previous gradients are only read; gains stay within their caps as defined.',
 ['inputs', 'histories', 'configurations'], 'all gradients, states and coefficients within the stated domains', 'an update error only slows or spoils convergence, which no sampled test notices', [MN], [('RMSProp_*, RProp, ModProp, Adam, AdaMax, RNadam, apply_ILR*', MN + ':4600-5030')], 'exact real arithmetic, matrices 1x1 and 2x3; Adam-family: data symbolic under two coefficient sets and coefficients symbolic under two data sets')
prop('C18', 'Norm constraints and decorrelation are exact',
 'The squared row norms equal their definition; the norm check rescales exactly the rows whose squared norm exceeds the limit, so that it equals the limit, and leaves all others untouched; setting the norm rescales every row; with the bias weight excluded from the norm the whole row is still scaled consistently, and the matrix keeps its shape. The DeCov loss is the normalised sum of squared covariances of distinct neurons and its derivative is that loss\' gradient, for every batch and in every plain or numerically stable variant; biases are untouched.',
 ['inputs', 'configurations'], 'all contents within size bounds', _w, [SM, MN], [('mrwL2NormSquared*, mCheck_normalize_rows*, mrwSetL2Norm*', MN), ('loss_deCov, dLoss_deCov', MN)], 'matrices up to 2x6, exact real arithmetic')
prop('C20', 'Dropout masks are consistent and alpha dropout preserves statistics',
 'Inverted dropout keeps exactly the neurons whose random draw is below the keep probability, scales them by its inverse, zeroes the others, and leaves in the mask the same factors, so that the backward pass multiplies by what the forward pass used; applying a mask keeps or zeroes likewise; alpha dropout applies its affine transformation to kept neurons and its replacement value to dropped ones, and its mask holds the forward slope. Biases stay. The alpha-dropout coefficients keep mean and variance of activations at the self-normalising fixed point for every keep probability.',
 ['inputs', 'configurations'], 'all activations, draws and keep probabilities', _w, [MN, 'nntl/utils/'], [('make_dropout*, apply_dropout_mask*, make_alphaDropout*', MN), ('SNN_td', 'nntl/_SNN_common.h')], 'matrices 1x1 and 2x3, exact real arithmetic')
prop('C19', 'Random numbers stay in range, are seeded properly and follow their distribution',
 'Whatever the underlying generator delivers, uniform vectors and matrices of every generator class (rand(), single- and multi-threaded) are the draws mapped onto exactly the requested range, one draw per element, nothing outside of the vector is written and biases stay; integers are below their limit and between min() and max(); Bernoulli values are the positive one exactly when the draw is below the probability. Normal vectors are mean plus standard deviation times a standard normal draw. Seeding reaches every generator, depends on the seed only, and never gives two threads the same stream; no two threads use one generator concurrently.',
 ['inputs', 'configurations'], 'all draws, ranges, probabilities, seeds; single- and multi-threaded sizes', 'a test cannot choose the draws', ['nntl/interface/_i_rng.h', 'nntl/interface/rng/'], [('rng_helper', 'nntl/interface/_i_rng.h:165-296'), ('CStd, AFRand, AFRand_mt, distr_normal_naive', 'nntl/interface/rng/*.h')], 'vectors up to 7 elements, 2..4 threads, exact real arithmetic; the generators of the separate AF_randomc package are arbitrary')
prop('C21', 'The background data buffer hands out every value once',
 'In the circular buffer between background generators and their consumer, a claim never exceeds the room that is neither unread, held nor claimed by another generator, and free room is always handed out; data is available exactly when enough was delivered; every delivered value is handed to the consumer exactly once, in order, and does not change while it is held; nothing outside of the buffer is touched. This holds for every order of claims, deliveries, acquisitions and releases, and under every thread interleaving without data races.',
 ['histories', 'schedules'], 'every operation sequence within bounds, all sizes and values; every interleaving with bounded preemptions', 'the failing orders need two generators and an exactly drained buffer', ['nntl/utils/data_buffer.h', 'nntl/interface/threads/_sync_primitives.h'], [('DataBuffer', 'nntl/utils/data_buffer.h:166-420'), ('spin_lock', 'nntl/interface/threads/_sync_primitives.h:93-160')], 'buffers of 1..3 elements, 8 (9) operations; 3 threads with 2 (3) preemptions')
prop('C22', 'Training data are delivered completely, in order and paired',
 'In-memory and transformed training data: a data set is accepted if and only if its parts fit together (equal sample counts of X and Y, equal widths and layouts of training and test parts, biases in X only, own storage), otherwise nothing changes; duplicating, moving, transposing, extracting, replacing labels keep the contents. Walking over a set returns every sample exactly once, in the stored order, in batches of the requested size except for a smaller last one, X and Y of the same samples, biases set. In a training epoch there are as many full batches as fit, every sample occurs at most once, in the shuffled order, X paired with its Y. Initialization delivers the sizes and the mode actually in force; a query tells whether given sizes are usable and leaves its arguments alone when not. All this holds for both layouts of X and of Y, every combination of sizes, and every order of epochs, walks and re-initializations; stored data are never modified.',
 ['inputs', 'configurations', 'histories'], 'all set sizes and batch sizes within bounds, every shuffle outcome, both layouts; all feature values', _w, ['nntl/train_data/'], [('_train_data_simple', 'nntl/train_data/_train_data_simple.h'), ('inmem_train_data_stor', 'nntl/train_data/inmem_train_data_stor.h'), ('_transf_train_data', 'nntl/train_data/transf_train_data.h')], 'up to 5 training and 5 test samples; the transformer of transf_train_data is a stand-in that copies samples')
prop('C23', 'Normalization applies one map to all data sets until the statistics fit',
 'Normalizing training data gathers mean and (un)biased standard deviation over the whole training X, or per column, whatever the batch size of the walk; as long as they are not within tolerance of the target it rescales and shifts by the map that brings exactly these statistics to the target, never touching a column that already fits, a disabled component or a scale of zero, for at most the allowed number of tries. It reports success only when the last gathered statistics fit. On success the test set has received the composition of the same maps; biases and labels never change. Transformed data keep the stored data as they are and apply the composed map to every batch. Composition of scale/offset records equals applying them in turn.',
 ['inputs', 'configurations', 'histories'], 'all data, all sequences of statistics, targets and switches', _w, ['nntl/utils/mtx2Normal.h', 'nntl/train_data/_td_norm.h', 'nntl/train_data/_td_base.h'], [('normalize_whole, normalize_cw, ScaleCentralData', 'nntl/utils/mtx2Normal.h'), ('td_norm', 'nntl/train_data/_td_norm.h'), ('_fix_dataX_*', 'nntl/train_data/_td_base.h')], '2 training and 1 test samples of up to 2 features, up to 2 tries, statistics of up to 5 samples; exact real arithmetic')
prop('C24', 'Bookkeeping helpers report what they were told',
 'A confusion matrix counts every update in the cell given by truth and prediction, adds up over any number of matrices, and its rates (sensitivity, specificity, precision, negative predictive value, accuracy, informedness, markedness, Matthews correlation, Jaccard, F1, F-beta) equal their definition for all counts for which they are defined, without overflow; the correlation is zero when undefined. Epoch conditions are set exactly for the epochs named by a constructor, an index or a (1-based, inclusive, strided) range, the last epoch always included on construction, and nothing else changes. A white list allows exactly the layers it names by type or index, a black list exactly the others. Settings of a layer are the last ones added for it, otherwise the default. A data holder delivers batches of distinct samples, each with its own label, bias and reported index, does not repeat a sample before the next shuffle, and never changes the data.',
 ['inputs', 'histories'], 'all counts, flags, identifiers, batch sizes and shuffles within bounds', 'the errors need large counts or particular sequences', ['nntl/utils/confusion_mtx.h', 'nntl/utils/vector_conditions.h', 'nntl/utils/bwlist.h', 'nntl/utils/layers_settings.h', 'nntl/utils/dataHolder.h'], [('ConfusionMtx', 'nntl/utils/confusion_mtx.h'), ('vector_conditions', 'nntl/utils/vector_conditions.h'), ('_bwlist', 'nntl/utils/bwlist.h'), ('layer_settings', 'nntl/utils/layers_settings.h'), ('dataHolder', 'nntl/utils/dataHolder.h')], 'rates for counts up to 1000 symbolically and up to 4e8 for selected magnitudes; up to 7 epochs, 4 layers, 4 samples')
prop('C25', 'Call forwarding, ownership, tuple walks and options behave as specified',
 'A forwarder calls exactly the callable it was given with the arguments it was given (references stay references), stores small trivially copyable callables by value and refers to all others without copying them, and copies, moves, swaps, resets and reassignments affect only the object they are applied to. An owning pointer destroys its object exactly once, a borrowing one never; a scope guard runs exactly once, at the end of its scope. Tuple walks visit exactly the named elements once, in the named direction, in place, with the correct previous element and first flag. Options of different mixins never share a bit, and binary options read back what was set or the default where there are none.',
 ['inputs', 'histories'], 'all callable states, arguments, element values and option sequences within bounds', 'lifetime and aliasing errors depend on the kind of callable and the order of operations', ['nntl/utils/forwarder.h', 'nntl/utils/call_wrappers.h', 'nntl/utils/own_or_use_ptr.h', 'nntl/utils/scope_exit.h', 'nntl/utils/tuple_utils.h', 'nntl/utils/mixins.h', 'nntl/utils/options.h', 'nntl/utils/lambdas.h'], [('forwarder, cmcforwarder, wrappers', 'nntl/utils/forwarder.h'), ('tuple walks', 'nntl/utils/tuple_utils.h'), ('binary_options_storage', 'nntl/utils/mixins.h')], 'tuples of up to 4 elements, 8 options, three kinds of callables')
prop('C26', 'A network computes its layers and trains by gradient descent',
 'A network of fully connected layers computes, for every batch, weights and input, each layer\'s activation of the weighted inputs plus bias, on the training, evaluation and inference interfaces alike, one output row per sample, without changing weights or input. One training step with plain gradient descent moves the weights of every layer (bias weights included) by its learning rate times the gradient of the batch-mean loss, computed from the weights before the step, for quadratic, cross-entropy and softmax output layers; a clamp of the output gradient applies before anything is propagated; frozen layers keep their weights but pass gradients on. This stays so over any sequence of batch sizes within the initialized maximum.',
 ['inputs', 'configurations', 'histories'], 'all weights, inputs, targets and learning rates; batch sizes and sequences within bounds', 'a wrong gradient still lets a net learn on the samples a test tries', ['nntl/nnet.h', 'nntl/layers.h', 'nntl/layer/', 'nntl/grad_works/'], [('layers::fprop, layers::bprop', 'nntl/layers.h'), ('_LFC fprop/bprop', 'nntl/layer/fully_connected.h'), ('_layer_output', 'nntl/layer/output.h'), ('nnet::fprop, init4fixedBatchFprop', 'nntl/nnet.h'), ('grad_works::apply_grad', 'nntl/grad_works/grad_works.h')], 'up to 3 weight layers of 1..3 neurons, batches of 1..3, two passes; exact real arithmetic with exp axiomatised; small data: single-threaded kernels (threaded variants are C09-C18)')
prop('C27', 'Compound layers behave like the layers they contain',
 'A horizontal pack shows as its activations the concatenation of its inner layers\' activations, each fed with its receptive field, and passes down the sum of their gradients at the positions of the fields, also when fields overlap or packs nest. A vertical pack is the chain of its layers; an identity layer passes activations and gradients through; a tile pack applies one shared layer to every tile and trains it on all tiles together; an optional (gated) pack applies each inner layer only to the samples its gate selects, yields zeros for the others and trains it on the selected samples only. This holds in inference and training, in every nesting, and for every sequence of batch sizes.',
 ['inputs', 'configurations', 'histories'], 'all weights, data, gates; all receptive fields within bounds', 'the number of nestings and field overlaps is beyond any test', ['nntl/layer/'], [('LPH', 'nntl/layer/pack_horizontal.h'), ('LPHO', 'nntl/layer/pack_horizontal_optional.h'), ('LPT', 'nntl/layer/pack_tile.h'), ('LPV', 'nntl/layer/pack_vertical.h'), ('LI', 'nntl/layer/identity.h')], 'up to 3 inner layers of 1..2 neurons over up to 3 features, batches of 1..3; exact real arithmetic; plain gradient descent')
prop('C28', 'Weight updates apply exactly the configured optimizer and regularizers',
 'A layer\'s gradient works turn a gradient into a weight change by exactly the configured optimizer, from a state that starts at zero and is carried over every call, for plain gradient descent, RMSProp in both forms, RProp, ModProp and the Adam family; classical momentum adds the previous change and Nesterov momentum takes the look-ahead before the forward pass; individual learning rates grow where gradient signs agree, shrink where they differ and stay within their limits; dropout of learning rates suppresses exactly the drawn weights; L1 and L2 regularizers add their derivative to the gradient (bias weights only if asked) and report their loss; a max-norm constraint leaves no row above its norm after a step. Changing settings between steps takes effect with the next step, and gradients of frozen layers change nothing.',
 ['inputs', 'configurations', 'histories'], 'all gradients, weights, coefficients and switches, several consecutive steps', 'state mistakes need several steps with particular combinations of options', ['nntl/grad_works/', 'nntl/loss_addendum/'], [('grad_works::apply_grad, pre_training_fprop', 'nntl/grad_works/grad_works.h'), ('mixins', 'nntl/grad_works/*.h'), ('L1, L2', 'nntl/loss_addendum/*.h')], 'weights up to 2x2, 2..3 steps; exact real arithmetic; optimizers\' formulas are C17')
prop('C29', 'Dropout layers and penalised activations work in every mode',
 'A layer with (alpha) dropout shows the layer above its activations masked by the draws of this forward pass in training, and the plain activations otherwise; the backward pass uses the same mask and the undisturbed activations, draws nothing, and the gradients of the layer, of the layer below and of the layer above are those of the masked network. Keep probabilities of 0 and 1 switch it off without drawing; the probability may change at any time. Activation penalties (L1, L2) are reported over the activations the layer shows, and their derivative is added to the gradient the layer receives, to all or to nonzero gradients only, whether computed in the forward or the backward pass, and also under dropout.',
 ['inputs', 'configurations', 'histories'], 'all draws, weights, data, probabilities and scales; training and evaluation in turn', 'a mask mismatch between the passes only makes training noisier', ['nntl/dropout/', 'nntl/layer/', 'nntl/loss_addendum/'], [('Dropout, AlphaDropout', 'nntl/dropout/*.h'), ('LPA, LDo wrappers', 'nntl/layer/extender.h, nntl/layer/_penalized_activations_base.h')], 'layers of 1..2 neurons, batches of 1..2, two passes; exact real arithmetic; alpha dropout for three keep probabilities')
prop('C30', 'Training runs the epochs it was asked for and reports the true loss',
 'train() refuses data sets that are empty or do not fit the network, and stops where the initialisation callback or the observer refuses, without touching the weights; afterwards the network can be trained. Otherwise it runs the requested number of epochs, in each performing one step per full batch of distinct training samples with their labels, at the batch size of this call whatever the network was initialized for before. The observer is initialised and closed once, told the sizes in force, and gets a report before training and after exactly the epochs that are scheduled or subject to the divergence check: for the training and then the test set, the evaluation-mode outputs of every sample in order with its label and the mean loss over the whole set (plus the regularizers\' loss unless disabled), independent of the batches used for evaluation. Training ends early exactly when the callback says so or when, in a checked epoch, the training loss is not below the threshold (NaN included). Evaluating the network between epochs does not disturb training, and the weights left are those of the last batch.',
 ['inputs', 'configurations', 'histories'], 'all data and weights, batch sizes, schedules, thresholds and sequences of trainings within bounds', 'reports go wrong only for particular relations of sizes, and runs in a row', ['nntl/nnet.h', 'nntl/nnet_train_opts.h', 'nntl/training_observer.h'], [('nnet::train, calcLossAndReport, _init4train', 'nntl/nnet.h:239-700'), ('nnet_train_opts', 'nntl/nnet_train_opts.h')], '2..3 training and 1, 3 test samples, one identity neuron, 2 epochs, two trainings; exact real arithmetic; NaN and infinity in IEEE arithmetic')
prop('C31', 'Initial weights follow their scheme',
 'Weights are made when a layer is initialised unless they were given before; they survive a reinitialisation, and are redrawn on request. Each scheme fills the whole matrix from fresh draws, one per weight: Xavier uniformly within the scaled square root of 6 / (rows + columns); He-Zhang, its parametrised and the self-normalising form normally with the variance given by the number of inputs, biases not counted, and with biases zero; sparse initialisation gives every neuron exactly the specified number of distinct nonzero input weights, normal with the specified deviation, zero otherwise and the specified bias; orthogonal initialisation yields the orthogonal factor (left or right by shape) of a normal matrix, times the gain, redrawing when the decomposition fails, and reports failure, which fails the initialisation of the network, after the allowed number of tries.',
 ['inputs', 'configurations'], 'all draws, layer sizes within bounds, every order of the inputs, every number of failing decompositions', 'a wrong variance or shape only makes training slower, which no sampled test notices', ['nntl/weights_init/static.h', 'nntl/weights_init.h', 'nntl/layer/fully_connected.h', 'nntl/layer/_activation_wrapper.h', 'nntl/interface/math/mathn.h'], [('Xavier, He_Zhang, He_Zhang2, SNNInit, Martens_SI, OrthoInit', 'nntl/weights_init/static.h:50-330'), ('mSVD_Orthogonalize_ss', 'nntl/interface/math/mathn.h'), ('_LFC::init, reinit_weights', 'nntl/layer/fully_connected.h')], '1..3 neurons, 1..4 inputs; exact real arithmetic; the standard normal distribution delivers mean + deviation * an arbitrary draw, the LAPACK decomposition arbitrary factors')
prop('C32', 'Layer-sequential weight normalization fits every layer or names the one that fails',
 'LSUVExt goes through the learnable layers from the bottom up, inner layers of packs included, skipping those for which it is switched off. For each it measures, over the configured batches of the training set, the evaluation-mode activations (pre-activations if asked) of exactly this layer, whole or per neuron, with the lower layers as already adjusted; as long as scale or centre are out of tolerance it multiplies the weights with the bias by target / scale and shifts the bias by the scaled distance of the centre to its target, touching no other neuron or layer, never dividing by a zero scale, never changing what is switched off. After the allowed number of tries it draws new weights for this layer only, and after the allowed number of draws goes on; it succeeds exactly when all layers fit and otherwise names the first that did not. Afterwards activations are in force again and data are released. A training set of one sample is refused. Settings added for a type of layers reach exactly these layers, exceptions excluded.',
 ['inputs', 'configurations', 'histories'], 'all weights, data, targets and sequences of statistics; every switch', 'a slip in the adjustment still converges for the samples a test tries', ['nntl/weights_init/LsuvExt.h', 'nntl/utils/mtx2Normal.h', 'nntl/nnet.h'], [('LSUVExt::run, _processLayer, normalize_whole, normalize_cw', 'nntl/weights_init/LsuvExt.h:104-400'), ('nnet::init4fixedBatchFprop, doFixedBatchFprop', 'nntl/nnet.h:686-727')], '3 samples of 2 features, layers of 1..2 relu or identity neurons, up to 3 layers; exact real arithmetic; the measured statistics are arbitrary numbers (that they are mean and deviation is C23)')
prop('C33', 'The gradient check finds wrong gradients and leaves the network alone',
 'nnet::gradcheck() passes for a network whose gradients are right, whatever its weights and data and however the batch sizes relate to the size of the data set; when any one component of a layer\'s dL/dA or dL/dW that is to be checked deviates from the true (central difference) gradient by at least the failure threshold it fails, deviations below it, and layers to be ignored, pass. It checks exactly as many different neurons, weights and biases of every layer as the settings ask for (all, if there are no more), each once, on single samples for activations and batches for weights, and fails when more gradients vanish than allowed. Afterwards weights, mode and batch size are what they were, and the network learns as before.',
 ['inputs', 'configurations'], 'all values of any one weight, feature or label; every component wrong; all thresholds; batch sizes and shuffles within bounds', 'a check that overlooks one coordinate passes every sampled test', ['nntl/nnet.h', 'nntl/interface/inspectors/gradcheck.h', 'nntl/utils/gradcheck.h', 'nntl/utils/dataHolder.h', 'nntl/utils/layer_idx_keeper.h'], [('GradCheckFunctor, nnet::gradcheck', 'nntl/nnet.h:738-1220'), ('inspector::GradCheck', 'nntl/interface/inspectors/gradcheck.h'), ('gradcheck_settings', 'nntl/utils/gradcheck.h')], 'two identity layers of 2 and 1 neurons with quadratic loss (where central differences are exact), step 1/4; one of the 18 values symbolic at a time; exact real arithmetic')
prop('C34', 'Kernels asked for a part of their data work on exactly that part',
 'Every public single-threaded kernel of iMath that takes a range (elements of a matrix or vector, rows and columns of a matrix) gives the elements inside the range precisely what they get when the whole is processed, leaves every element outside it untouched, and accumulating kernels return the contribution of that range alone, so that results of any partition add up to the result of the whole. This is what makes splitting work between threads invisible.',
 ['inputs', 'configurations'], 'all values, all ranges within the bounds (also empty and one-element ones)', 'the tests call kernels with the full range or with those ranges the threads happen to get', ['nntl/interface/math/mathn.h', 'nntl/interface/math/smath.h', 'nntl/interface/math/mathn_thr.h'], [('kernels with elms_range / rowcol_range', 'nntl/interface/math/mathn.h'), ('reductions over ranges', 'nntl/interface/math/smath.h')], 'matrices up to 3x3; exact real arithmetic; transcendental functions uninterpreted')
prop('C35', 'Data files are read faithfully or refused',
 'Reading a binary data file into a matrix, a training data set or a sequence set either succeeds and delivers exactly the stored numbers (converted to the requested type), sizes, field assignment (by field name, in any order) and class order, with bias emulation for the X fields only; or it returns the error code that names what is wrong (missing file, truncated header, entry or data, wrong signature or version, wrong number of fields or classes, doubled, unknown or unparsable field names, impossible sizes, unsupported data types, parts that do not fit together) and delivers no training data. Whatever the file contains and wherever it ends, nothing outside of the buffers is written, the file is closed and all temporary memory is released.',
 ['inputs', 'crash_points'], 'all file headers, all values, every listed corruption and truncation point', 'the faulty files are the ones nobody writes a test for, and a leak or overrun passes silently', ['nntl/_supp/io/binfile.h', 'nntl/train_data/seq_data.h', 'nntl/train_data/inmem_train_data_stor.h'], [('bin_file::read, _read_into_matrix, _read_into_train_data, _read_into_seq_data, _impl_read_field_entry', 'nntl/_supp/io/binfile.h'), ('inmem_train_data_stor::absorb', 'nntl/train_data/inmem_train_data_stor.h')], 'matrices of up to 3x3, sets of 2+1 samples, up to 2 classes of 2 sequences; stdio calls act on a file held in memory')
prop('C36', 'Saved weights and state are complete and come back',
 'Saving a network to an archive writes, under the name of each layer nested as the layers are, exactly what the archive\'s options ask for: weights, activations, input data, gradient-work parameters and optimizer state of every layer including those inside packs, each once and with the values in force, and changes nothing in the network. Loading the weights into an equally built network, initialised or not, restores every weight exactly. A matrix that is missing or whose size does not fit the layer marks the archive as failed and leaves that layer\'s weights as they were.',
 ['inputs', 'configurations', 'histories'], 'all weights, all option sets, before and after training steps, wrong sizes', 'a forgotten layer or option only shows when a model is restored', ['nntl/serialization/', 'nntl/layers.h', 'nntl/layer/', 'nntl/grad_works/'], [('serialize of layers, packs, gradient works', 'nntl/layer/*.h, nntl/layers.h, nntl/grad_works/grad_works.h'), ('CommonOptions', 'nntl/serialization/options.h')], 'networks of up to 4 weight layers with nested packs; the archive is an in-memory stand-in implementing the archive interface')
prop('C37', 'Evaluation counts exactly the right predictions',
 'For every data set, in any order of sets and after walks that were given up, and for any batch size, the classification evaluators count one element per sample (one-hot) or per label (binary), and as right exactly those samples whose greatest prediction is in the column of the greatest label, or those labels for which prediction and truth lie on the same side of the threshold; predictions and labels stay as they are. During training the reporting observer\'s counts and losses after each epoch are those of the weights in force over the whole training and test sets, whatever the shuffle and batch sizes.',
 ['inputs', 'histories', 'configurations'], 'all labels, predictions, thresholds and weights; batch sizes and orders of sets within bounds', 'a miscount only looks like a slightly better or worse model', ['nntl/nnet_evaluator.h', 'nntl/training_observer.h', 'nntl/nnet.h'], [('eval_classification_one_hot_cached, eval_classification_binary_cached', 'nntl/nnet_evaluator.h'), ('training_observer_stdcout', 'nntl/training_observer.h:160-307'), ('_report_training_progress', 'nntl/nnet.h')], '3 training, 1..2 test and up to 3 further samples, 2 classes or labels')
