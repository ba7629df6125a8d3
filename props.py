"""Registry: which contract modules and which replay driver decide each property."""
TUS = {'tensor_tu.cpp': {}, 'utils_tu.cpp': {'filt': 'nnutils'}}

TRUSTED = [
    'clang 18 parser (AST of the current source)', 'vc/ (symbolic executor and verification-condition generator)',
    'z3 5.3 / cvc5 1.x', 'vc/stl.py: contracts of std::vector, optional, string, unordered_*, iterators, algorithms, memcpy/memset']
ASSUMPTIONS = [
    'size_t and other integers are mathematical integers (unsigned subtraction wraps exactly; additions and products are assumed not to overflow)',
    'double arithmetic is real arithmetic', 'loops are proved partially correct (termination is only observed by the bounded run)',
    'destructors of automatic objects are not executed symbolically', 'allocation does not fail']

SHAPE = dict(src='shape.cpp', set='shape', secs=8)
TENSOR = dict(src='tensor.cpp', set='tensor', secs=10)
OPSR = dict(src='ops.cpp', set='core', secs=12)
GRAPH = dict(src='graph.cpp', set='core', secs=15)
OPA = ['elementary functions are uninterpreted over the reals, with the identities listed in vc/mathspec.py', 'every operand shape is fully defined at this layer, and holds 1 or N elements for one N', 'operands carry no "grouping" metadata']
LEAFA = ['observers notified while a leaf changes read it and do not write it (react/subject.cpp: notify is used through its contract)', 'a node used as a source of an assignment is read through the contract of inode::eval', 'initialisers other than the constant one are used through the contract of tensor_handler (they write the elements of the target and nothing else)', 'a refused input ends in an exception or a failed assertion of the library'] + ['elements are copied, added and subtracted as reals']
TRANS = dict(src='trans.cpp', set='core', secs=12)
TRA = ['operands are fully defined tensors of any rank and any extents, and not constants (constant operands are checked by the bounded run)', 'operands carry no "grouping" metadata', 'positions and coordinates correspond one to one (coordinate_from_idx and flat_idx are used through the contracts proved for C02)', 'products and quotients of elements are uninterpreted, sums and maxima are over the reals', 'std::max_element returns the first greatest position']
LEARN = dict(src='learn.cpp', set='core', secs=13)
NETS = dict(src='nets.cpp', set='rocnnet', secs=13)
NETA = ['nodes are used through the contracts of their operators: elementwise values at an arbitrary element (C07), the value of a product and of a vector spread along a line are functions of the operands (C10, C11)', 'variable::clone and move yield a new variable with the contents of the original', 'parameters of a model are owned by it alone', 'a moved-from model is only assigned to or destroyed', 'the input of a model has as many rows as the model has inputs', 'conv_layer is outside the statement']
PROPS = {
    'C01': dict(modules=['shape'], replay=SHAPE),
    'C02': dict(modules=['shape'], replay=SHAPE),
    'C03': dict(modules=['shape'], replay=SHAPE),
    'C04': dict(modules=['tensor'], replay=TENSOR, assumptions=['the refitting copy loop (fit_toshape) is used through its contract; its body is checked by the bounded run only', 'shape compatibility is symmetric']),
    'C05': dict(modules=['tensor'], replay=TENSOR),
    'C06': dict(modules=['tensor'], replay=TENSOR),
    'C07': dict(modules=['ops'], replay=OPSR, assumptions=OPA),
    'C08': dict(modules=['ops'], replay=OPSR, assumptions=OPA),
    'C13': dict(modules=['graph'], replay=GRAPH, assumptions=['death callbacks (death_on_noparent, death_on_broken) and the deletions they cause remove edges only, keep all other edges mirrored and leave the observer being edited alone (recursion hypothesis; bodies of the callbacks are checked by the bounded run)', 'objects outside the two classes never write audience_ or dependencies_ directly']),
    'C09': dict(modules=['trans'], replay=TRANS, assumptions=TRA),
    'C10': dict(modules=['trans'], replay=TRANS, assumptions=TRA),
    'C11': dict(modules=['matmul'], replay=TRANS, assumptions=TRA[:2] + ['products of elements are uninterpreted, sums are over the reals', 'products of extents are an uninterpreted function; instances of the proved lemmas rows, signs and whole quotient are the only facts used of it', 'the divide-and-conquer path (strassen and the padding copies) is decided by the bounded run only; the contract of min_pad, proved here, selects the path', 'the gradient of matmul is outside the statement']),
    'C12': dict(modules=['ops'], replay=OPSR, assumptions=OPA),
    'C14': dict(modules=['flow'], replay=GRAPH, assumptions=['arguments of a connector are non-null nodes; a node is not its own argument', 'the set of edges does not change while a value is updated (C13 covers edits)', 'equal priority-queue contents give equal top; the order of dispatch is otherwise left open', 'a forward pass may leave only nodes that have the node as an argument behind', 'currency of every node implies that values equal the expression of the leaf values (induction over the depth of the graph, done on paper)', 'the transfer function and the shaper of a node are its own (C07 and C09 to C11 cover what they compute)']),
    'C18': dict(modules=['serial'], replay=LEARN, assumptions=['protobuf messages are used through contracts: a setter stores, a getter returns what was stored, parsing a stream yields the message that was written to it or fails', 'stream objects write and read back the same bytes, or report failure', 'an element is copied whole (8 bytes of a double)', 'a list of nodes to save holds non-null nodes']),
    'C19': dict(modules=['fill'], replay=LEARN, assumptions=['calling a standard distribution yields a value of that distribution, and a uniform one a value between its bounds (std:: contract); statistical quality is not examined', 'the default allocator is registered', 'the bounds of a uniform initialiser are in order', 'the initialiser of a generator is used through the contract of initializer::calc_data, proved here for each kind', 'arguments of a generator are edited only through iconnector (C13)']),
    'C20': dict(modules=['dqn'], replay=NETS, assumptions=['arg_max of one column of scores yields an index of a score (C10)', 'intervals and the number of actions are at least one; stored actions are actions of the agent', 'std::random_shuffle permutes; the generator yields values in [0, 1)', 'an update is opaque here: how often and when it runs is proved, what it does is C15 and C17', 'what is fed for a sample is proved for rewards and masks; observations and action masks are checked by the bounded run', 'the graph built by variable_setup is used through a contract']),
    'C17': dict(modules=['gd'], replay=LEARN, assumptions=['values are taken at an arbitrary element, scalars spread (C07); graph nodes see what their leaves last published (C14)', 'derive yields the gradient (C12); assign and assign_sub do what C15 states', 'the objective is frozen during a step', 'sqrt and pow are uninterpreted, except squares', 'momentum, adadelta and adagrad updaters throw and are outside the statement']),
    'C21': dict(modules=['nets'], replay=NETS, assumptions=NETA),
    'C22': dict(modules=['nets'], replay=NETS, assumptions=NETA + ['training and cost functions are outside the statement']),
    'C15': dict(modules=['leaf'], replay=GRAPH, assumptions=LEAFA),
    'C16': dict(modules=['leaf'], replay=GRAPH, assumptions=LEAFA),
}
