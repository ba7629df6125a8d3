SMALL = 'The suite draws a few random shapes or values per run; the guarantee quantifies over every input and no test enumerates the boundary ones.'
PN = 'Every obligation generated from the current source must be discharged by z3 or cvc5 (unbounded); integers are mathematical (subtraction wraps), doubles are reals. A bounded run of the real code (ASan, independent oracle) always accompanies the proof and replays counterexamples.'

prop('C01', 'Tensor shape algebra',
     'A shape reports the exact product of its dimensions, the product of its known dimensions, its rank and whether it is fully defined. Merging two shapes prefers the left one and fills only its unknown dimensions, concatenation joins the dimension lists unless either is undefined, trimming removes exactly the leading and trailing unit dimensions, and rank coercions keep the number of elements unless they are asked to truncate. No query changes the shape it is asked of.',
     ['inputs'], 'all dimension lists of any rank, with any mixture of known and unknown (0) dimensions', SMALL,
     [T + 'src/tensor/tensorshape.cpp', T + 'include/tensor/tensorshape.hpp'],
     [('n_elems/n_known_elems/rank', 'tensorshape.cpp'), ('merge_with/concatenate/trim/with_rank*', 'tensorshape.cpp')], PN)
prop('C02', 'Coordinates and flat indices are inverse to each other',
     'For every shape and every in-range element index, converting the index to a coordinate and back gives the same index, each coordinate component lies below its dimension, and the layout is column-major (first axis fastest). Iterating over a shape visits each element exactly once in index order, with its own coordinate.',
     ['inputs'], 'all fully defined shapes, all in-range indices and coordinates (including coordinates shorter or longer than the rank)', SMALL,
     [T + 'src/tensor/tensorshape.cpp'], [('flat_idx / coordinate_from_idx / iterate', 'tensorshape.cpp')], PN)
prop('C03', 'Shape compatibility ignores unit padding and unknown dimensions only',
     'Two shapes are compatible exactly when, after removing leading and trailing unit dimensions where their ranks differ, they have the same rank and agree in every dimension in which both are known; an undefined shape is compatible with everything. In particular compatible fully defined shapes hold equally many elements.',
     ['inputs'], 'all pairs of shapes of any ranks', SMALL,
     [T + 'src/tensor/tensorshape.cpp'], [('is_compatible_with', 'tensorshape.cpp')], PN)
prop('C04', 'Reshaping a tensor keeps the overlapping elements',
     'When a tensor is given a different fully defined shape, or copies from another tensor under a given shape, every coordinate that exists in both the old and the new shape keeps its element and every other coordinate of the new shape is zero. Storage always matches the current shape exactly, and neither the source nor unrelated tensors change.',
     ['inputs'], 'all pairs of old and new shapes, including different ranks, growing and shrinking axes at once, and copying a tensor onto itself', SMALL,
     [T + 'src/tensor/tensor.ipp'], [('allocate / set_shape / copy_from / fit_toshape', 'tensor.ipp')], PN + ' The inner refitting loop is used through its contract and its body checked by the bounded run.')
prop('C05', 'Tensor copies are independent, moves transfer, storage never leaks',
     'Copying or assigning a tensor (also to itself) yields equal shape and elements in storage of its own, so later changes to one are invisible to the other; moving transfers the contents and leaves the source empty. Every tensor releases exactly the storage it obtained, exactly once, and never exposes storage it does not own; element reads return the element at the given coordinate and reject coordinates or tensors without storage by throwing.',
     ['inputs', 'histories'], 'all sequences of construction, allocation, deallocation, copy, move and assignment over tensors with defined, partial or undefined shapes', 'Tests check single operations on random shapes; ownership must hold over every sequence of operations.',
     [T + 'src/tensor/tensor.ipp'], [('constructors, destructor, operator=, allocate, deallocate, get, expose', 'tensor.ipp')], PN)
prop('C06', 'Shape inference from raw data is exact or refused',
     'Given a data length and an allowed shape, the strict guess succeeds exactly when some choice of the first unknown dimension (other unknown dimensions 1) makes the shape hold exactly that many elements; the loose guess does the same rounding up, and fails only if a fully defined shape is too small. Known dimensions are kept, an undefined shape becomes a vector of the data length, and the compatibility queries agree with the guesses. Nothing outside the tensor is read or written while guessing.',
     ['inputs'], 'all allowed shapes of any rank and all data lengths', SMALL,
     [T + 'src/tensor/tensor.ipp'], [('guess_shape / loosely_guess_shape / is_compatible_with / is_loosely_compatible_with', 'tensor.ipp')], PN)

G = T + 'src/graph/'
OPS = [G + 'operations/elementary.ipp', G + 'operations/operation_utils.ipp']
prop('C07', 'Elementwise operators compute their documented function at every element',
     'For every fully defined operand shape, each elementwise operator (negation, absolute value, trigonometric and reciprocal trigonometric, exponential, logarithm, root, power by a scalar, rounding, clipping of values to a range, comparison by a given predicate, and addition, subtraction, multiplication and division between nodes or a node and a scalar on either side) produces a tensor of the operand shape whose element at each position is the documented function (unary plus is the absolute value) of the operand elements at that position, where an operand holding one element is used at every position. Operand order matters where the function does, operands keep their values, a null operand gives a null result, and only a zero divisor that is known when the node is built is refused by throwing.',
     ['inputs', 'programs'], 'all operators, all operand shapes, all element values in the domain, both operand orders, the same operand used twice', SMALL,
     OPS + [G + 'connector/immutable/immutable.ipp'], [('operator functions, their transfer functions and shapers', 'elementary.ipp')], PN + ' Elementary functions (sin, cos, exp, log, sqrt, pow) are uninterpreted or axiomatised; operands that carry grouping metadata belong to C09.')
prop('C08', 'Constant folding and identity shortcuts do not change results',
     'An operator applied to constants, or to an operand it can simplify (adding or subtracting zero, multiplying or dividing by zero, one or minus one, power zero, one or two, an operand combined with itself or with its negation), yields the same element values, up to scalar broadcasting, as evaluating the operator elementwise on the same values. Building an expression again, from the same operands in any order and with any scalars, never returns an existing node that computes something else: two nodes over the same operands share a label only if they compute the same function.',
     ['inputs', 'programs'], 'all operators with each operand constant, scalar or variable, over all values including the simplification triggers and scalars that differ in the last digit', 'Tests build each operator with one random variable and one random constant; simplification triggers and reuse of existing nodes depend on exact values and on graph history.',
     OPS, [('constant paths of the operators, node reuse by label', 'elementary.ipp, operation_utils.ipp')], PN)
prop('C09', 'Reductions and axis operators follow their definition',
     'Reduction by maximum, sum or mean over all elements or one axis, and arg-max over all elements or one axis, give for every remaining coordinate exactly the maximum, sum, mean or the position of the first maximum over the reduced axis, with the reduced axis removed when it is the first or last one and of extent one otherwise. Along an axis beyond the rank, maximum, sum and mean leave the elements as they are and arg-max refuses by throwing. Arithmetic (+, -, *, /) between a tensor and an operand that lacks one of its axes (the shape a reduction of that axis gives, or a single element) combines each element with the one of the matching coordinates; operands of other shapes are refused by throwing.',
     ['inputs'], 'all shapes, all axes inside the rank, all element values including ties and negatives', SMALL,
     [G + 'operations/transform.ipp', G + 'operations/elementary.ipp'], [('reduce_max, reduce_sum, reduce_mean, arg_max, *_axial_a/b', 'transform.ipp, elementary.ipp')], PN)
prop('C10', 'Layout transforms move each element to its documented coordinate',
     'Transposing swaps the two chosen axes, extending repeats the input along an axis, fitting to the shape of another node keeps the overlap and zero-fills (a constant zero may be returned as it is), flipping reverses the listed, distinct, axes (those beyond the rank have no effect); a transposition or extension with an axis beyond the rank treats the missing axes as extents of one; every output element is the input element at the corresponding coordinate and the output shape is the documented one. Nothing outside the input and output storage is touched.',
     ['inputs'], 'all shapes and axis arguments, including axes beyond the rank where the operator accepts them', SMALL,
     [G + 'operations/transform.ipp'], [('transpose, fit, extend, compress, flip', 'transform.ipp')], PN)
prop('C11', 'Matrix multiplication equals the row-by-column sum on every path',
     'The product of two compatible matrices has the documented shape and each element equals the sum over the common axis of the products of the corresponding elements, whichever multiplication path (direct or recursive divide-and-conquer) size selects. Incompatible inner dimensions are refused by throwing.',
     ['inputs'], 'all matrix sizes on both sides of the divide-and-conquer threshold, square or not, vectors and scalars included', 'The suite multiplies small random matrices; path selection and padding depend on sizes it does not enumerate.',
     [G + 'operations/matmul.ipp'], [('matmul, cubic_mul, strassen', 'matmul.ipp')], PN)
prop('C12', 'Gradients equal the derivatives of the computed function',
     'For every graph built from elementwise operators with a derivative (negation, absolute value away from zero, trigonometric and reciprocal trigonometric, exponential, logarithm, root, power by a scalar, addition, subtraction, multiplication and division between nodes or with a scalar, identity), the gradient node taken with respect to a variable evaluates, at each position, to the mathematical derivative of the output element by the variable element used at that position, wherever the operands lie inside the domain. The gradient by a variable that the graph does not contain is zero, a node has gradient one by itself, constants and placeholders have gradient zero, and taking a gradient changes no value.',
     ['inputs', 'programs'], 'all graphs of the listed operators with any sharing, all operand values in their domains', 'Tests compare individual operators with a closed form at a few random points; composition, sharing and constants are combinatorial.',
     OPS + [G + 'connector/immutable/base_immutable.ipp', G + 'connector/immutable/immutable.ipp', G + 'leaf/variable.ipp', G + 'leaf/ivariable.ipp', G + 'leaf/constant.ipp'], [('per-operator gradient functions, chain rule', 'elementary.ipp, immutable.ipp, base_immutable.ipp')], PN)
prop('C13', 'Graph edges stay symmetric through creation, replacement and destruction',
     'A node is registered with a subject exactly for the argument positions at which it depends on it, and replacing, removing or destroying either end, in any order, updates the other end so that no registration refers to a dead or unrelated node. Destroying a node destroys exactly the nodes that cannot work without it.',
     ['histories', 'programs'], 'all sequences of creating, replacing, copying and destroying nodes over arbitrarily shared graphs', 'Tests perform one or two operations on small graphs; the symmetry is an invariant over histories.',
     [G + 'react/iobserver.cpp', G + 'react/subject.cpp'], [('attach/detach, add_dependency, replace_dependency, destructors', 'iobserver.cpp, subject.cpp')], PN)
prop('C14', 'Reading a node always reflects the current leaf values',
     'After any sequence of variable assignments (that ask for notification) and placeholder feeds, the value read from any node of the graph equals the value obtained by evaluating its expression from the current leaf values, whatever the sharing between expressions and whatever was read before. Updates of one graph do not alter the values of others.',
     ['histories', 'programs'], 'all graph shapes with sharing, all sequences of updates and reads', 'Tests update one leaf once and read one node.',
     [G + 'connector/immutable/base_immutable.ipp', G + 'react/subject.cpp', G + 'leaf/variable.ipp'], [('update notification and forward pass', 'base_immutable.ipp, immutable.ipp, graph_manager')], PN)
prop('C15', 'Variables change only by initialisation and assignment, atomically',
     'A variable has no readable value before it is initialised; initialisation fills every element of its fully defined shape (or of a given shape its declared shape allows) and refuses, by throwing, any other shape. Assigning, adding or subtracting sets every element to the source element at the same position, the sum or the difference, and tells dependants when asked to. A source with another number of elements is refused without changing the variable. No two variables share storage, copies included.',
     ['inputs', 'histories'], 'all shapes, all source nodes, all sequences of initialisation and assignment, including self-assignment', SMALL,
     [G + 'leaf/variable.ipp'], [('initialize, assign, assign_add, assign_sub', 'variable.ipp')], PN)
prop('C16', 'Placeholders accept exactly the data their shape allows',
     'Feeding raw data to a placeholder either sets its value to exactly that data, in order, under a fully defined shape its declared shape allows, and notifies dependants, or refuses it (by throwing or by a failed assertion) and leaves the placeholder as it was; feeding a tensor takes over its shape and elements. A placeholder that was never fed has no readable value.',
     ['inputs', 'histories'], 'all declared shapes (defined, partial, undefined), all data lengths, repeated feeds of differing lengths', SMALL,
     [G + 'leaf/placeholder.ipp'], [('placeholder::operator=', 'placeholder.ipp')], PN)
prop('C17', 'Optimisers apply their update rule to every variable once per step',
     'One step (running every update that calculate returned, with the objective frozen meanwhile) of gradient descent subtracts learning rate times gradient from every variable the objective depends on, evaluated at the values before the step. RMS propagation keeps, per variable, the moving average discount*average + (1-discount)*gradient^2 and subtracts learning rate * gradient / (sqrt(average) + epsilon). Ignored variables and other leaves keep their values, the value of the objective does not change before the step runs, and repeating steps composes these updates.',
     ['inputs', 'histories'], 'all objectives over several variables, all learning parameters, any number of steps', 'No stable test runs an optimiser.',
     ['app/tenncor/src/utils/gd_utils.cpp', 'app/tenncor/include/utils/gd_utils.hpp'], [('vgb_updater, rmspropupdater', 'gd_utils.cpp')], PN)
prop('C18', 'Serialised tensors and models load back identically',
     'A tensor written to its message form and read back has the same shape and elements, bit for bit, whatever the receiving tensor held before; saving the leaves of a graph and loading them into a graph built the same way reproduces the values of every node. A message whose data do not match its shape is refused and leaves the receiver unchanged.',
     ['inputs', 'histories'], 'all shapes, all element bit patterns, all prior states of the receiver', SMALL,
     [T + 'src/tensor/tensor.ipp', T + 'src/utils/futils.ipp', T + 'src/memory/tensor_io.ipp', G + 'leaf/ileaf.ipp'], [('serialize / from_proto / read_inorder / write_inorder', 'tensor.ipp, tensor_io.ipp')], PN)
prop('C19', 'Initialisers fill every element with a value of their distribution',
     'A constant initialiser sets every element to its constant, a uniform initialiser yields only values between its bounds, a normal one values of its distribution, and every initialiser writes each element of the target once and nothing outside it. A generator node holds one draw of the shape of the node it depends on and draws again only when that shape changes.',
     ['inputs'], 'all shapes, bounds and vectors', SMALL,
     [T + 'src/tensor/tensor_handler.ipp'], [('const_init, rand_uniform, rand_normal, assign_func', 'tensor_handler.ipp')], PN)
prop('C20', 'Q-learning keeps a bounded replay memory and trains on schedule',
     'The agent never stores more transitions than its configured capacity, selects an action inside the action range, explores with a probability that decays linearly from its initial to its final value, stores a transition at every store_interval-th request (once the memory is full, it replaces one), and trains at the first request that finds a full mini-batch and then at every train_interval-th request that does.',
     ['histories', 'configurations'], 'all sequences of action, store and train calls under all parameter settings', 'No stable test covers the agent.',
     ['app/rocnnet/src/models/dq_net.cpp'], [('action, store, train, linear_annealing', 'dq_net.cpp')], PN)
prop('C21', 'Layers and perceptrons compute their formula and copies are independent',
     'A fully connected layer computes input times weight plus bias for each of its inputs, summed, and a perceptron applies its layers and nonlinearities in order. Copying or moving a model yields one that computes the same function with parameters of its own, so training one leaves the other unchanged. A gradient descent model answers with its network\'s output for the input it is fed, and a training step feeds input and expected output and runs every update of its error once.',
     ['inputs', 'histories', 'configurations'], 'all layer sizes, all parameter values, all copy and move sequences', 'No stable test covers the models.',
     ['app/rocnnet/src/layers/fc_layer.cpp', 'app/rocnnet/src/compounds/mlp.cpp', 'app/rocnnet/src/models/gd_net.cpp'], [('fc_layer, mlp, gd_net', 'fc_layer.cpp, mlp.cpp, gd_net.cpp')], PN)
prop('C22', 'Boltzmann machines and belief nets propagate and copy faithfully',
     'Propagating up (down) a Boltzmann machine gives the sigmoid of the input times the weights (transposed) plus the hidden (visible) bias, and a belief net stacks these in order before its output layer. Copies and moves have the same sizes and compute the same function, copies with parameters of their own.',
     ['inputs', 'histories', 'configurations'], 'all sizes, parameter values, copy and move sequences', 'No stable test covers the models.',
     ['app/rocnnet/src/models/rbm.cpp', 'app/rocnnet/src/models/db_net.cpp'], [('rbm, db_net', 'rbm.cpp, db_net.cpp')], PN)
prop('C23', 'Worker-thread scheduling does not change results',
     'Work handed to the internal thread utilities is executed once per item whatever the schedule.',
     ['schedules'], 'all interleavings', 'Tests run one schedule.',
     [T + 'src/thread'], [('thread utilities', 'thread/')], '', 'the thread utilities are unused by the library and contracts in reach are sequential; interleavings are outside this family here')
