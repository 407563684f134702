TT = ["include/tensor.tcc", "include/tensor.hpp"]
prop("C01", "Matrix product and its gradients equal the mathematical definition",
  "For every pair of conforming matrices or vectors, in every transposition mode, the product has the mathematically defined shape and every entry equals the sum of products over the contracted dimension, while the operands stay unchanged. In a computation graph the gradient that reaches each operand is the upstream gradient multiplied by the transpose of the other operand, and evaluating again gives the same results.",
  "all extents m, k, n >= 1, all contents, all four transposition modes, float and double, values, in-place and graph forms",
  "Tests multiply a handful of fixed small matrices; the loop/blocking/stride logic has to be right for every extent and every mode.",
  TT + ["include/backend/backend.hpp", "include/backend/cblas.hpp", "include/operation.hpp"],
  [("gemm_cpu / gemm loops over the three extents", "include/tensor.tcc: gemm_cpu, gemm, multiply"), ("graph product", "include/operation.hpp: multiplication_context")])
prop("C02", "Element-wise tensor arithmetic with broadcasting",
  "Addition, subtraction, element-wise product and quotient, negation and absolute value, between tensors of compatible shapes or with scalars, produce exactly the broadcast shape and in every cell the operation applied to the aligned cells of the operands. Operands are never modified by the value-returning forms; the in-place forms modify only their left operand.",
  "all extents, all contents, equal shapes, trailing-axis and unit-axis broadcasting up to rank 4, scalar operands, self operands",
  "Tests sample a few equal-shape cases with small integers; index arithmetic of broadcasting is quantified over all shapes.",
  TT, [("broadcast_tensor / broadcast_shape / add / minus / elementwise_product / elementwise_divide", "include/tensor.tcc"), ("for_each parallel traversal", "include/utils/for_each.hpp")])
prop("C03", "Tensor reductions and statistics",
  "Sum, mean, variance, standard deviation, maximum and minimum over a whole tensor or along any axis equal their definition over exactly the cells of the reduced slice, in the shape with that axis removed or kept as asked; softmax normalises every last-axis slice. The input is unchanged.",
  "all extents and contents of rank 1 to 3, every axis, keep-dimension on and off",
  "Tests check a few axes of a few constant tensors; strides and initial values of the folds matter for all shapes and signs.",
  TT + ["include/utils/stride_iterator.hpp"], [("axis reductions through strided iterators", "include/tensor.tcc: sum, mean, variance, standard_deviation, max, min, reduce"), ("stable softmax", "include/tensor.tcc: softmax")])
OP = ["include/operation.hpp"] + TT + ["include/variable.hpp", "include/session.hpp", "include/utils/for_each.hpp", "include/utils/context_cast.hpp"]
prop("C05", "Element-wise unary operators: value and derivative",
  "For every element-wise unary operator of the computation graph (trigonometric, hyperbolic, exponential, logarithmic, power, rounding, sign, clipping, inversion, and arithmetic with a number) the value of the node is the mathematical function of every cell of its operand in the operand's shape, and the gradient that reaches the operand is the upstream gradient times the derivative at that cell (rounding operators pass the gradient through). The operand and the upstream gradient are left unchanged, and evaluating the same expression again with other contents and another shape gives the value and gradient for the new contents.",
  "all extents and contents in the function's domain, two evaluations with different ranks",
  "Tests evaluate about a quarter of the operators on a constant tensor and print the result; a wrong derivative formula or a stale cache passes them.",
  OP, [("unary operators", "include/operation.hpp: abs .. trunc, square, negative, inverse, clip, pow, sign, operator +,-,*,/ with a number"), ("unary_operator::forward / backward", "include/operation.hpp")])
prop("C06", "Binary operators: value and gradients with broadcasting",
  "For the element-wise binary operators of the computation graph (sum, difference, product, quotient, hypot, maximum, minimum, atan2, equality) and operators with a number as one operand, the node has the broadcast shape and value, and each operand receives the upstream gradient times the partial derivative, summed over every axis along which that operand was repeated, in the operand's own shape. Operands and the upstream gradient are left unchanged, and a second evaluation with other contents and shapes gives the value and gradients for the new contents.",
  "all extents and contents, equal shapes, trailing-axis and unit-axis broadcasting up to rank 3, numbers as operands",
  "Tests check values for a few constant operands; gradients under broadcasting are quantified over shapes and never compared with an oracle.",
  OP + ["include/value.hpp"], [("plus/minus/elementwise_product/divide/maximum/minimum/atan2/equal", "include/operation.hpp"), ("binary_operator::forward / backward", "include/operation.hpp")])
prop("C10", "Activation functions: value and derivative",
  "Every activation function (relu family, leaky/prelu/elu/selu/gelu, sigmoid, hard_sigmoid, softmax, softplus, softsign, exponential, gaussian, step approximations, swish, mish, lisht, tank_shrink, crelu) yields in every cell the mathematical function of the operand's cell (softmax: over the last axis), in the documented shape, and its gradient is the upstream gradient times the true derivative (for softmax the full Jacobian), including when the operand feeds the expression more than once. Operand and upstream gradient stay unchanged and evaluating again with other contents and shape is independent of the first evaluation.",
  "all extents, all contents away from the kinks, two evaluations with different ranks",
  "Tests call a few activations on fixed tensors without comparing gradients to an oracle; wrong derivatives, dead or aliasing backward passes pass them.",
  ["include/activation.hpp"] + OP, [("activation functions", "include/activation.hpp"), ("stable softmax", "include/tensor.tcc: softmax")])
prop("C12", "Reduction operators: value, shape and gradient",
  "Sum and mean over all cells, and sum, minimum, maximum, argmax and argmin along any axis (or the default last axis), yield in every remaining position the reduction of exactly the cells of that slice, in the shape with the axis removed (the position returned by argmax/argmin is inside the axis and its cell attains the extremum). The gradient of a sum reaches every reduced cell, the gradient of an extremum reaches only cells attaining it and in total equals the upstream gradient, argmax/argmin pass nothing back, and the gradient of the mean is the upstream gradient divided by the number of averaged cells. The announced shape agrees with the evaluated shape; evaluating again with other contents and sizes is independent of the first evaluation.",
  "all extents and contents, ranks 1 to 3, every axis and the default axis, two evaluations with different sizes",
  "Tests check single fixed tensors along one axis; index arithmetic over axes, recorded positions and caches are quantified over all shapes and histories.",
  OP + ["include/utils/view.hpp", "include/utils/stride_iterator.hpp"], [("reduce_min_context, reduce_max_context, reduce_sum_context, argmax, sum_reduce, mean_reduce", "include/operation.hpp")])
prop("C11", "Losses: value and gradients",
  "Every loss (sum and mean of squares, sum and mean of absolute differences, squared logarithmic error, cross entropy, binary cross entropy, hinge, softmax followed by cross entropy with and without label smoothing) yields a single number equal to its definition over all elements of truth and prediction (softmax cross entropy: summed over classes, divided by the batch size). The gradient that reaches the prediction, and the truth where it is an expression, is the upstream gradient times the partial derivative of that definition: exactly for the summed losses, for softmax cross entropy (gradient of the batch total) and for mean losses with one output per sample, and in the same proportion between all cells for mean losses with several outputs. The loss functors (MeanSquaredError, MSE, MeanAbsoluteError, MAE, Hinge, CategoricalCrossentropy, BinaryCrossentropy and their aliases) compute the same with the truth bound to a place holder; bound tensor and operands stay unchanged.",
  "all extents and contents in the domain of the logarithms, two evaluations with different ranks",
  "Tests run one or two losses on fixed tensors without an oracle for the gradient; a sign, a swapped operand, a missing factor or a wrong smoothing constant passes them.",
  ["include/loss.hpp", "include/place_holder.hpp", "include/activation.hpp"] + OP, [("loss functions and functors", "include/loss.hpp"), ("sum_reduce, mean_reduce, clip, log, maximum, hadamard_product", "include/operation.hpp")])
prop("C13", "Reverse-mode differentiation of composed expressions",
  "For an expression built from operators, a backward pass delivers to every variable the derivative of the whole expression by the chain rule: contributions over all paths are added when a variable or a subexpression is used more than once, a variable that is not trainable keeps a zero gradient, an L1, L2 or L1L2 regularizer adds its derivative exactly once, however many copies of the variable the expression holds, and tensors and constants in the expression are left as they are. Gradients of the previous step are gone after the session starts a new step (clear), and stay accumulated otherwise.",
  "all extents and contents, expressions with shared variables, shared subexpressions, frozen variables, regularizers, several backward passes",
  "Tests only print gradients of a handful of fixed graphs; accumulation across paths and steps has no oracle.",
  OP + ["include/constant.hpp", "include/utils/id.hpp"], [("unary_operator/binary_operator forward and backward", "include/operation.hpp"), ("variable::backward, gradient accumulation, regularizer", "include/variable.hpp")])
prop("C07", "Structural graph operators: placement of values and of gradients",
  "transpose, flip, reshape, flatten, expand_dims, squeeze, broadcast, repeat, up_sampling_2d, zero_padding_2d, cropping_2d, sliding_2d (outside training), concatenate/concat, identity, ones_like and zeros_like put every cell of the operand where the operator's definition says and nowhere else (padding cells are zero, cropped cells are gone), give the result the defined shape, and send each upstream gradient cell back to exactly the operand cell it came from: cells copied several times get the sum, cells dropped get zero, constants get nothing. Evaluating the expression again with other contents and another shape gives the placement for the new shape.",
  "all extents, contents, axes of each rank up to 4, repetition and padding counts, two evaluations with different shapes",
  "Tests check one or two small shapes with one axis each; index arithmetic goes wrong for other ranks, non-square shapes, unequal paddings and after a change of shape.",
  OP + ["include/utils/view.hpp", "include/utils/range.hpp"], [("transpose, reshape, flatten, repeat, up_sampling_2d, zero_padding_2d, cropping_2d, concatenate, flip, expand_dims, squeeze", "include/operation.hpp"), ("flip, repeat, concatenate", "include/tensor.tcc")])

prop("C08", "Two-dimensional convolution: value and gradients",
  "img2col, conv2d and general_conv2d compute, for every batch, picture size, channel count, kernel size, stride, dilation and valid or same padding (odd kernel, stride 1), the mathematical convolution: each output cell is the sum over kernel rows, kernel columns and channels of the picture cell at that offset (zero outside the picture) times the kernel cell. Each picture cell receives as gradient the sum over all output cells and kernel cells that used it, each kernel cell the sum over all pictures and positions; operands and upstream gradient are left unchanged. Evaluating the same node again with another picture size or batch size gives value and gradients for the new picture, and one operator applied to two operands keeps them apart.",
  "all extents, strides and dilations, paddings, contents, two evaluations with different shapes (cells numbered in 32 bits)",
  "Tests check one or two small fixed pictures and no gradient; offset arithmetic, padding limits and the recorded index table are quantified over all geometries and histories.",
  OP + ["include/utils/view.hpp", "include/utils/range.hpp"], [("img2col, conv2d, general_conv2d", "include/operation.hpp"), ("matrix product behind the convolution", "include/tensor.tcc: gemm")])
prop("C09", "Pooling: value and gradient",
  "max_pooling_2d(s) yields for every picture and channel the maximum of every whole s x s window, average_pooling_2d(s) the mean; rows and columns that do not fill a window are ignored. The gradient of the maximum reaches only cells that attain the maximum of their window and in total equals the upstream gradient of that window; the gradient of the mean gives every cell of the window an equal share; cells in no window get zero. Operand and upstream gradient are left unchanged; a second evaluation with another picture, of the same or another size, and a second node made by the same operator, are independent of the first.",
  "all extents and contents, all strides (maximum: strides 2 and 3), pictures that are not a multiple of the stride, two evaluations",
  "Tests pool one small picture with stride 2; windows at the rim, recorded masks from an earlier evaluation and gradients have no oracle.",
  OP + ["include/utils/view.hpp", "include/utils/range.hpp"], [("max_pooling_2d_context, average_pooling_2d", "include/operation.hpp")])
prop("C04", "Tensors as values: construction, copying, shape changes, placement",
  "A tensor constructed from a shape (with or without a value or a list of values) has exactly that shape and contents; zeros, ones and their _like forms likewise. Copy construction and assignment share the cells but not the shape, deep_copy and copy share nothing: a later write to one is never seen in the other, in both directions. reshape, resize to the same number of cells and squeeze renumber the cells without changing any (a dimension given as -1 is the one that fits); element access, forward and reverse iteration visit every cell once in row-major order; reset, map, clip and as_type act on every cell. repeat, repmat, flip along every axis and concatenate along every axis (including a right operand of lower rank) place every cell where their definition says and leave the operands alone.",
  "all extents and contents, ranks 1 to 6, every axis, sharing and independent copies in both directions",
  "Tests look at single small tensors; sharing between copies and index arithmetic of placement are quantified over shapes, axes and histories.",
  TT + ["include/utils/vector.hpp", "include/utils/view.hpp", "include/utils/for_each.hpp"], [("constructors, deep_copy, resize, reshape, map", "include/tensor.hpp"), ("repeat, repmat, concatenate, flip, squeeze, clip", "include/tensor.tcc")])
prop("C15", "Optimizers: the update rule of every step",
  "After each run of an optimizer every trainable variable has moved exactly by the optimizer's update rule applied to the gradient of the loss in that step: plain gradient descent, SGD with momentum, Nesterov momentum and learning-rate decay, Adagrad, RMSprop, Adadelta, Adam (plain gradient steps in its first two iterations, bias-corrected moments afterwards), each with the learning rate divided by the batch size, momenta and squared-gradient averages carried over from step to step per variable, negative momentum and decay treated as zero. Gradients are zero again after the step; frozen variables, variables outside the loss (plain and zero-moment cases), constants and bound inputs keep their values; freezing between steps holds a variable still. The factories SGD, Adam, Adagrad, RMSprop and Adadelta build the same optimizers.",
  "all extents, contents, gradients and hyper-parameters in range, batch sizes, histories of four steps, one and several variables, frozen variables",
  "Tests train toy networks and look at nothing but the absence of crashes; a wrong sign, a state mixed up between variables or a stale gradient still lowers a loss.",
  ["include/optimizer.hpp", "include/session.hpp", "include/variable.hpp"] + TT, [("forward() of sgd, adagrad, rmsprop, adadelta, adam, gradient_descent", "include/optimizer.hpp"), ("session variables and gradients", "include/session.hpp, include/variable.hpp")])
prop("C20", "Complex expressions: values and gradients",
  "A complex expression built from a real and an imaginary expression has these as parts; absolute value, squared magnitude (norm), phase, conjugate, polar form, unary plus and minus, and sum, difference and (matrix) product of two complex expressions or of a complex and a real expression have the real and imaginary part of the complex-number definition, and the gradients arriving at the real and the imaginary part reach every operand with the partial derivatives of these definitions. Operands are left unchanged; evaluating again with other contents and another shape gives the value and gradients for the new contents.",
  "all extents and contents, all operand combinations, gradients into both parts",
  "Tests print three fixed cases and compare no gradient; a swapped or negated cross term is invisible to them.",
  ["include/complex_operator.hpp"] + OP, [("complex operators", "include/complex_operator.hpp"), ("hypot, atan2, hadamard_product, matrix product in graphs", "include/operation.hpp")])
prop("C16", "Dropout, batch normalization and random tensors",
  "In training, dropout replaces each element either by zero or by the element divided by (1 - rate), sends the upstream gradient back scaled by the same factor for exactly the same elements, and drops the fraction given by the rate; outside training value and gradient pass unchanged. In training, batch normalization subtracts the per-channel mean and divides by the square root of the per-channel (biased) variance plus eps over all rows of the batch, with the gradient of that definition (mean and variance included), then scales and shifts by gamma and beta, which receive their own gradients; outside training it uses the exponential running averages of the training batches (momentum weighted, starting at zero), and the operand unchanged when there has been no training. All of this also when a node is evaluated again with another batch size or learning phase; nodes made by one operator do not share state. Random tensors have the requested shape and lie in the requested interval (uniform, truncated normal, Glorot bound), also when made like another tensor; noise passes no gradient.",
  "all extents and contents, every stream of random draws, rates and momenta inside (0,1), ranks 2 to 4, histories of two to three steps of training and prediction with different batch sizes",
  "Tests print a single draw; masks used in the gradient, running averages after several steps and changes of batch size have no oracle.",
  OP + ["include/config.hpp"], [("drop_out, normalization_batch, batch_normalization, random_normal_like", "include/operation.hpp"), ("random, randn, truncated_normal, glorot_uniform", "include/tensor.tcc")])
prop("C17", "Parallel loops: every index exactly once, nothing shared, all threads finished",
  "parallel(f, first, last) and for_each over one to four sequences call the function exactly once for every index in the range and for no other, whatever the length (also zero), the start index, the threshold and the number of processor cores; every thread that is started has finished when the call returns, so the effects of all calls are visible; no thread refers to a variable of the loop that starts it or writes a variable that another one uses. Everywhere the library hands a function to these loops, calls for different indices write different cells and read none that another call writes, so that the result does not depend on the schedule.",
  "all lengths, start indices, thresholds, numbers of cores, one to four sequences, every schedule (no two iterations share a cell)",
  "Tests run on one machine with one core count and short ranges; slicing errors show for particular lengths and core counts only, races for particular schedules only.",
  ["include/utils/parallel.hpp", "include/utils/for_each.hpp", "include/utils/range.hpp"] + OP + TT, [("parallel, job slices, threads", "include/utils/parallel.hpp"), ("for_each, _for_each_n", "include/utils/for_each.hpp"), ("functions passed to for_each", "include/operation.hpp, include/tensor.tcc")])
prop("C19", "Views, strided iterators, ranges, enumeration, reversal",
  "A view of n dimensions over a block of memory addresses element (i,j,...) at its row-major place, reads what is there and writes only that cell; rows and columns of a 2-D view are walked from begin to end visiting every cell of that row or column once, in order (a transposed view indexes with swapped extents). A strided iterator steps by its stride: adding, subtracting, incrementing, indexing, comparing and taking distances agree with each other and with the element reached. range(first,last), with an optional step and end test, yields first, first plus one step, ... up to but excluding last, in order; iterators into it can be advanced and compared. enumerate pairs every element with its index from zero, reverse visits every element once from the last to the first, and writes through them reach the container's own cells.",
  "all extents, indices, strides, start values and contents; views of 1 to 6 dimensions; the generic iteration of every loop over a range, column, enumeration or reversal",
  "Tests iterate one or two fixed sizes, mostly square ones where swapped extents cannot be seen.",
  ["include/utils/view.hpp", "include/utils/stride_iterator.hpp", "include/utils/range.hpp", "include/utils/enumerate.hpp", "include/utils/reverse.hpp"], [("view_1d to view_4d, view<T,N>", "include/utils/view.hpp"), ("stride_iterator", "include/utils/stride_iterator.hpp"), ("detailed_range and its iterator", "include/utils/range.hpp"), ("enumerate, reverse", "include/utils/enumerate.hpp, include/utils/reverse.hpp")])

prop("C22", "Place holders, variables, sessions: identity, binding, state",
  "All copies of a place holder, variable or constant denote the same object: data bound, weights written, gradients accumulated, flags, shapes and contexts set through one copy are seen through every other, and never through a different object; every created object has its own identity, however many there are. A session's run evaluates the expression with the currently bound data and current weights, every node once (also when used twice), whatever was run before: rebinding other data of another batch size, changing a variable, running a subexpression or another expression in between. A result already returned is not altered by later runs. Gradients of a variable add up over passes within a step and start from zero at the next training step, also after a change of shape; frozen variables keep gradient zero; the L1/L2 derivative is added once per step; constants and numbers take no gradient. Leaving a session forgets its bindings.",
  "all extents, contents and histories of two to three runs; sums of gradients over any number of passes; any number of generated ids",
  "Tests run a graph once; sharing between copies, caches between runs and the fate of earlier results are statements about histories.",
  ["include/variable.hpp", "include/place_holder.hpp", "include/session.hpp", "include/constant.hpp", "include/value.hpp", "include/utils/id.hpp"] + OP, [("place_holder", "include/place_holder.hpp"), ("variable, its state, contexts and regularizer", "include/variable.hpp"), ("session: run, bind, tap, remember", "include/session.hpp"), ("generate_uid", "include/utils/id.hpp")])
prop("C23", "Models: prediction, composition, freezing, training, evaluation, fitting",
  "A model computes its output expression: predict(x) is the output evaluated with x bound to the input and the current weights, whatever other models or data were used before, without training-time randomness, and leaves x and the learning phase as they were. Applying a model to an expression yields the same function of that expression, sharing the weights, with gradients to the expression and the shared weights. trainable(false) freezes every variable of the model and no other. train_on_batch returns the loss of the batch before the update and moves every trainable weight by exactly one optimizer step along the gradient of that loss; fit cuts the data into consecutive batches of the given size (samples that do not fill a batch, and the validation part, take no part in the updates), trains once on each, epoch after epoch, and reports per epoch the mean training loss and the mean loss on the validation part; evaluate returns the mean loss over the batches and changes no weight. Training, evaluating and fitting leave inputs, ground truth and learning phase unchanged, and finish whether or not a terminal is attached.",
  "all batch sizes, feature counts, weights, inputs, ground truths and learning rates, evaluation over any number of batches, fits over up to a dozen batches and epochs (any number: bounded)",
  "Tests train one network and look at whether the loss falls; a skipped or doubled batch, a wrong mean, an evaluation that trains or a dropout left off go unnoticed.",
  ["include/model.hpp", "include/utils/tqdm.hpp", "include/session.hpp", "include/optimizer.hpp", "include/loss.hpp"] + OP, [("model: predict, operator(), trainable, compile", "include/model.hpp"), ("compiled_model: evaluate, fit, train_on_batch, predict", "include/model.hpp"), ("replace_placeholder_with_expression, make_trainable", "include/model.hpp"), ("tq::trange iteration", "include/utils/tqdm.hpp")])
prop("C24", "Layers: announced shape, parameters, function, gradient",
  "Each layer builds the expression its name and arguments define: Dense is input times kernel plus bias (or none), Conv2D and Conv1D the convolution for the given filters, kernel, strides, dilation and padding plus bias, Conv2DTranspose with the announced shape, BatchNormalization with scale one and shift zero at the start, Add, Subtract, Multiply, Concatenate along the given axis, ReLU, Softmax, LeakyReLU and ELU with the given slope, Flatten, Reshape, MaxPooling2D, AveragePooling2D, UpSampling2D, Dropout, Input. The layer's parameters have the shapes the layer defines, biases start at zero, kernels inside their bound, and the four regularization factors reach the parameter they are named after; a layer object applied twice makes separate parameters. The announced shape of the expression agrees with the evaluated shape for every batch size, and gradients reach every parameter and the input by the derivative of the layer's definition.",
  "all batch sizes, picture sizes, channels, kernel sizes, strides, dilations, factors and contents (transposed convolution: values on generated inputs)",
  "Tests build small networks and inspect nothing; a swapped factor, a parameter of a wrong shape or a wrong default goes unnoticed.",
  ["include/layer.hpp", "include/place_holder.hpp", "include/variable.hpp", "include/activation.hpp"] + OP + TT, [("all layer factories", "include/layer.hpp"), ("operators behind the layers", "include/operation.hpp"), ("glorot_uniform, zeros, ones", "include/tensor.tcc")])
