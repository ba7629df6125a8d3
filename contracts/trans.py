"""Axis operators (C09), layout transforms (C10) and matrix multiplication (C11).

The element at a flat position is reached through its coordinates: digit(d, x, j) is coordinate j of flat
position x in a shape with extents d.  coordinate_from_idx and flat_idx are used through the contracts
proved for C02 (a position has exactly one list of in-range coordinates)."""
from .lib import *
from .ops import (c_get, c_search, c_const_get, c_shared, c_noop, label_eq, vec1, S_nelems, find_op, unref, VP)
from .ops import CONTRACTS as OPC
from vc.oplayer import *
from vc.frontend import node_type

TU = 'ops_tu.cpp'
U64 = ('int', 64, False)
digit = z3.Function('digit', AII, I, I, I)


class TransInterp(OpInterp):
    def equal(self, a, b):
        if isinstance(a, VStr) and isinstance(b, VStr):
            for x, y in ((a, b), (b, a)):
                if len(x.parts) == 1 and isinstance(x.parts[0], AnyLabel) and y.concrete() is None:
                    nd = x.parts[0].node
                    if self.choose(2) == 0:
                        nd.label = y
                        return z3.BoolVal(True)
                    return z3.BoolVal(False)
        return OpInterp.equal(self, a, b)


    def arith(self, op, a, b, ty):
        # products and quotients of elements stay symbolic here (any interpretation will do)
        if op in '*/' and is_z3(a) and is_z3(b) and z3.is_real(a) and z3.is_real(b) and not z3.is_rational_value(a) and not z3.is_rational_value(b):
            return rmul(a, b) if op == '*' else rdiv(a, b)
        return OpInterp.arith(self, op, a, b, ty)


rdiv = z3.Function('quotient', R, R, R)
rmul_ = z3.Function('product', R, R, R)


def rmul(a, b):
    return rmul_(a, b)


INTERP = TransInterp


# ------------------------------------------------------------------ contracts
def dims_of(ex, this):
    s = ex.rv(ex.deref(this)) if not isinstance(this, VStruct) else this
    return vec1(ex, s.fields['dimensions_'])


def c_coord(ex, this, args, node):
    n, d = dims_of(ex, this)
    x = as_int(ex.rv(args[0]))
    c = ex.fresh('coord', z3.ArraySort(I, I))
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), z3.And(c[J] == digit(d, x, J), c[J] >= 0, c[J] < d[J])), patterns=[c[J], digit(d, x, J)]))
    return VVec(U64, n, [c])


def c_flat(ex, this, args, node):
    """the position with the given coordinates (missing ones are zero, surplus ones are ignored)"""
    n, d = dims_of(ex, this)
    cn, c = vec1(ex, ex.rv(args[0]))
    ex.safe(cn > 0, 'requires flat_idx: at least one coordinate')
    C = lambda j: z3.If(j < cn, c[j], iv(0))
    r, w = ex.fresh('flat', I), ex.fresh('w', I)
    inside = ex.fresh('inside', B)
    # skolemised: either every coordinate is inside its extent or w is one that is not
    ex.assume(z3.Or(inside, z3.And(0 <= w, w < n, z3.Or(C(w) < 0, C(w) >= d[w]))))
    ex.assume(z3.Implies(inside, z3.And(0 <= r, r < prod(d, iv(0), n))))
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(inside, 0 <= J, J < n), digit(d, r, J) == C(J)), patterns=[digit(d, r, J)]))
    ex.assume(r >= 0)
    for t in ex.ghost.get('targets', []):
        g = t(C)            # a ghost position of this shape: equal coordinates, equal position
        if g is None:
            continue
        gd, gn, r0 = g
        if not (gd.eq(d) and z3.is_true(z3.simplify(gn == n))):
            continue
        k = ex.fresh('k', I)
        ex.assume(z3.Implies(inside, z3.Or(r == r0, z3.And(0 <= k, k < n, digit(d, r, k) != digit(d, r0, k)))))
    return r


def c_full(ex, this, args, node):
    n, d = dims_of(ex, this)
    return n > 0


CONTRACTS = {}
for k in ('nnet::immutable<double>::get', 'nnet::unary_parent_search', 'nnet::ordered_binary_parent_search', 'nnet::unordered_binary_parent_search',
          'nnet::constant<double>::get', 'nnet::constant<double>::get_shared_zero', 'nnet::constant<double>::get_shared_one', 'nnet::print_shape', 'nnet::expose', 'nnet::axial_set_jacobian',
          'nnet::tensorshape::n_elems'):
    CONTRACTS[k] = OPC[k]
CONTRACTS.update({
    'nnet::tensorshape::coordinate_from_idx': c_coord,
    'nnet::tensorshape::flat_idx': c_flat,
    'nnet::tensorshape::is_fully_defined': c_full,
})
USE = tuple(CONTRACTS) + ('nnet::tensorshape::is_compatible_with',)
OPTS = {'use': USE, 'kw': {'batch': 300, 'deep': False}}


# ------------------------------------------------------------------ harness
def defined_shape(ex, nm):
    """an arbitrary fully defined shape: (struct, rank, extents)"""
    s = ex.fresh_val(('cls', SHAPE), nm)
    n, d = vec1(ex, s.fields['dimensions_'])
    ex.assume(n >= 1)
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), d[J] >= 1), patterns=[d[J]]))
    ex.assume(prod(d, iv(0), n) >= 1)
    ex.input(nm, n, d)
    return s, n, d


def operand(ex, nm):
    s, n, d = defined_shape(ex, 'shape_' + nm)
    x = ex.node('nonconst', v=ex.fresh('v', R), n=prod(d, iv(0), n))
    x.shape, x.rank, x.dims = s, n, d
    x.arr = ex.fresh('vals_' + nm, z3.ArraySort(I, R))
    return x


def size(ex, nm):
    v = ex.fresh_int(nm)
    ex.input(nm, v)
    return v


def call_op(ex, name, args):
    ds = [d for d in ex.ast.by_name.get('nnet::' + name, []) if len(d['_params']) == len(args)]
    if not ds:
        raise Unsupported('operator %s not found in current source' % name)
    d = ds[0]
    return ex.as_node(ex.call_def(d, None, [ex.new_cell(a, node_type(p)) for a, p in zip(args, d['_params'])], None))


def made_of(ex, r, operands):
    if r.kind == 'null':
        ex.prove(z3.BoolVal(False), 'the result is a node')
        return None
    if hasattr(r, 'memo'):
        return None         # found under the label it would have been registered with
    if not hasattr(r, 'made'):
        raise Unsupported('the result is not a registered node')
    ex.prove(z3.BoolVal(len(r.made['args']) == len(operands) and all(x is y for x, y in zip(r.made['args'], operands))), 'the node has the operands as arguments, in order')
    return r.made


def run_shaper(ex, made, want, refuse=None):
    """want: (rank, j -> extent)"""
    shapes = VList(('cls', SHAPE), [x.shape for x in made['args']])
    try:
        s = ex.rv(ex.call_value(made['shaper'], [ex.new_cell(shapes, ('vec', ('cls', SHAPE)))]))
    except CppThrow:
        ex.prove(refuse if refuse is not None else z3.BoolVal(False), 'shapes are refused only as documented')
        raise PathEnd()
    if refuse is not None:
        ex.prove(z3.Not(refuse), 'shapes the operator does not support are refused')
    if isinstance(s, (VVec, VList)):
        s = VStruct(SHAPE, {'dimensions_': ex.to_vvec(s)})
    n, d = vec1(ex, s.fields['dimensions_'])
    ex.prove(n == want[0], 'the result has the documented rank')
    ex.prove(forall(0, want[0], lambda j: d[j] == want[1](j)), 'the result has the documented extents')


def out_shape(ex, want):
    s, n, d = defined_shape(ex, 'out')
    ex.assume(n == want[0])
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), d[J] == want[1](J)), patterns=[d[J]]))
    return s, n, d


def run_forward(ex, made, out, spec, what='every element of the result is the documented one'):
    """run the transfer on arbitrary buffers; one arbitrary output position i0"""
    nodes = made['args']
    bufs = {}
    for x in nodes:
        if id(x) not in bufs:
            lv = ex.new_cell(VMem(x.n, x.arr, False, 'source'), ('mem', ('real',)))
            bufs[id(x)] = VBPtr(lv.root[1], iv(0))
    s, n, d = out
    nout = prod(d, iv(0), n)
    i0 = ex.fresh('i_out', I)
    ex.assume(z3.And(0 <= i0, i0 < nout))
    ex.ghost['pos'] = i0
    # coordinates of i0 are inside the shape (C02)
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), z3.And(digit(d, i0, J) >= 0, digit(d, i0, J) < d[J])), patterns=[digit(d, i0, J)]))
    sp = spec(i0, lambda j: digit(d, i0, j))
    ex.ghost['spec'] = sp
    a0 = ex.fresh('dest0', z3.ArraySort(I, R))
    dl = ex.new_cell(VMem(nout, a0, False, 'destination'), ('mem', ('real',)))
    io = VStruct('nnet::shape_io', {'outs_': s, 'ins_': VList(('cls', SHAPE), [x.shape for x in nodes])})
    ex.call_value(made['fn'], [VBPtr(dl.root[1], iv(0)), ex.new_cell(VList(('ptr', ('real',)), [bufs[id(x)] for x in nodes]), ('vec', ('ptr', ('real',)))),
                               ex.new_cell(io, ('cls', 'nnet::shape_io'))])
    m = ex.read(dl)
    ex.prove(m.arr[i0] == sp, what)
    for x in nodes:
        ex.prove(ex.cells[bufs[id(x)].cell].arr == x.arr, 'operands keep their values')


def source_pos(ex, x, C, inside=True):
    """ghost: the position of operand x with coordinates C(j); obliges C to be inside the operand"""
    r0, k = ex.fresh('r_src', I), ex.fresh('k', I)
    if inside:
        ex.prove(z3.Implies(z3.And(0 <= k, k < x.rank), z3.And(C(k) >= 0, C(k) < x.dims[k])), 'the documented source coordinate is inside the operand')
    ex.assume(z3.And(0 <= r0, r0 < x.n))
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < x.rank), digit(x.dims, r0, J) == C(J)), patterns=[digit(x.dims, r0, J)]))
    ex.ghost.setdefault('targets', []).append(lambda _: (x.dims, x.rank, r0))
    return r0


def t_pos(L):
    """everything up to the loop counter is written: the chosen position is correct once it is passed"""
    ex = L.ex
    if 'spec' not in ex.ghost:
        return
    i0, sp = ex.ghost['pos'], ex.ghost['spec']
    for nm, lv in L.mems:
        v = ex.read(lv)
        if v.name != 'destination':
            continue
        for kn, k in L.int_terms(None):
            yield 'written %s %s' % (nm, kn), lambda lv=lv, k=k: z3.Implies(k() > i0, ex.read(lv).arr[i0] == sp)


def t_overlap(L):
    """a flag that stays true while a coordinate is below an extent / zero"""
    ex = L.ex
    arrs = arr_terms(L, False, I)
    for bn, b in L.bools:
        if not L.is_mod(b):
            continue
        b0 = as_bool(L.old(b))
        yield 'was ' + bn, lambda b=b, b0=b0: z3.Implies(ex.read(b), b0)
        for kn, k in L.int_terms(True):
            e = L.old_terms.get(kn)
            if e is None:
                continue
            for an, a, _ in arrs:
                for cn, c, _ in arrs:
                    if an != cn:
                        yield 'below %s %s %s %s' % (bn, kn, an, cn), lambda b=b, k=k, a=a, c=c, e=e: z3.Implies(
                            ex.read(b), z3.ForAll([J], z3.Implies(z3.And(e <= J, J < k()), a()[J] < c()[J]), patterns=[a()[J]]))
                        yield 'above %s %s %s %s' % (bn, kn, an, cn), lambda b=b, k=k, a=a, c=c, e=e, b0=b0: z3.Implies(
                            z3.And(z3.Not(ex.read(b)), b0), z3.Exists([J], z3.And(e <= J, J < k(), a()[J] >= c()[J])))
                yield 'zero %s %s %s' % (bn, kn, an), lambda b=b, k=k, a=a, e=e: z3.Implies(
                    ex.read(b), z3.ForAll([J], z3.Implies(z3.And(e <= J, J < k()), a()[J] == 0), patterns=[a()[J]]))
                yield 'nonzero %s %s %s' % (bn, kn, an), lambda b=b, k=k, a=a, e=e, b0=b0: z3.Implies(
                    z3.And(z3.Not(ex.read(b)), b0), z3.Exists([J], z3.And(e <= J, J < k(), a()[J] != 0)))


TM = [t_range, t_pos]


def pad(x):
    return lambda j: z3.If(j < x.rank, x.dims[j], iv(1))


def mx(a, b):
    return z3.If(a >= b, a, b)


# ------------------------------------------------------------------ C10
def g_transpose(part):
    def run(ex):
        x = operand(ex, 'a')
        p, q = size(ex, 'axis1'), size(ex, 'axis2')
        r = call_op(ex, 'transpose', [x, VStruct('pair', {'first': p, 'second': q})])
        if getattr(x, 'children', None) and r is x.children[0]:
            ex.prove(z3.BoolVal(len(x.children) == 1), 'undoing a transpose returns its only argument')
            return
        made = made_of(ex, r, [x])
        if made is None:
            return
        P = pad(x)
        swap = lambda f: lambda j: z3.If(j == p, f(q), z3.If(j == q, f(p), f(j)))
        want = (mx(x.rank, mx(p, q) + 1), swap(P))
        if part == 'shape':
            return run_shaper(ex, made, want)
        out = out_shape(ex, want)

        def spec(i0, c):
            return x.arr[source_pos(ex, x, swap(c))]
        run_forward(ex, made, out, spec)
    return run


def g_fit(part):
    def run(ex):
        x, w = operand(ex, 'a'), operand(ex, 'watch')
        if ex.choose(2):
            ex.to_const(x)
        r = call_op(ex, 'fit', [x, w])
        if r is x:
            j = ex.fresh('j', I)
            ex.prove(z3.Implies(z3.And(0 <= j, j < x.n), x.arr[j] == 0), 'the operand itself is returned only when it is a constant zero')
            return
        made = made_of(ex, r, [x, w])
        if made is None:
            return
        want = (w.rank, lambda j: w.dims[j])
        if part == 'shape':
            return run_shaper(ex, made, want)
        out = out_shape(ex, want)
        P = pad(x)

        def spec(i0, c):
            o = ex.fresh('outside', I)
            ins = ex.fresh('in_overlap', B)
            n = mx(x.rank, w.rank)
            ex.assume(z3.ForAll([J], z3.Implies(z3.And(ins, 0 <= J, J < w.rank), c(J) < P(J)), patterns=[c(J)]))
            ex.assume(z3.Or(ins, z3.And(0 <= o, o < w.rank, c(o) >= P(o))))
            C = lambda j: z3.If(j < w.rank, c(j), iv(0))
            r0 = ex.fresh('r_src', I)
            ex.assume(z3.And(0 <= r0, r0 < x.n))
            ex.assume(z3.ForAll([J], z3.Implies(z3.And(ins, 0 <= J, J < x.rank), digit(x.dims, r0, J) == C(J)), patterns=[digit(x.dims, r0, J)]))
            ex.ghost.setdefault('targets', []).append(lambda _: (x.dims, x.rank, r0))
            return z3.If(ins, x.arr[r0], z3.RealVal(0))
        run_forward(ex, made, out, spec, 'every element of the result is the operand element in the overlap and zero elsewhere')
    return run


def g_extend(part):
    def run(ex):
        x = operand(ex, 'a')
        p, m = size(ex, 'axis'), size(ex, 'multiplier')
        r = call_op(ex, 'extend', [x, p, m])
        if r is x:
            ex.prove(m == 1, 'the operand itself is returned only for a multiplier of one')
            return
        if r.kind == 'const':
            ex.prove(z3.And(m == 0, r.arr[0] == 0), 'a constant is returned only for a multiplier of zero, and is zero')
            return
        made = made_of(ex, r, [x])
        if made is None:
            return
        P = pad(x)
        want = (mx(x.rank, p + 1), lambda j: z3.If(j == p, P(p) * m, P(j)))
        if part == 'shape':
            return run_shaper(ex, made, want)
        out = out_shape(ex, want)

        def spec(i0, c):
            return x.arr[source_pos(ex, x, lambda j: z3.If(j == p, c(j) % P(p), c(j)))]
        run_forward(ex, made, out, spec, 'every element of the result repeats the operand along the axis')
    return run


def g_flip(part):
    def run(ex):
        x = operand(ex, 'a')
        v = ex.fresh_val(('vec', U64), 'axes')
        m, D = v.n, v.leaves[0]
        ex.input('axes', m, D)
        # the listed axes are distinct; flipped(j): axis j is listed, at place pos(j)
        flipped, pos = z3.Function('flipped', I, B), z3.Function('place', I, I)
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < m), z3.And(flipped(D[J]), pos(D[J]) == J)), patterns=[D[J]]))
        ex.assume(z3.ForAll([J], z3.Implies(flipped(J), z3.And(0 <= pos(J), pos(J) < m, D[pos(J)] == J)), patterns=[flipped(J)]))
        ex.ghost['flip'] = (flipped, pos, x.dims)
        r = call_op(ex, 'flip', [x, v])
        made = made_of(ex, r, [x])
        if made is None:
            return
        want = (x.rank, lambda j: x.dims[j])
        if part == 'shape':
            return run_shaper(ex, made, want)
        out = out_shape(ex, want)

        def spec(i0, c):
            return x.arr[source_pos(ex, x, lambda j: z3.If(flipped(j), x.dims[j] - 1 - c(j), c(j)))]
        run_forward(ex, made, out, spec, 'every element of the result is the operand element with the listed axes reversed')
    return run


def t_flip(L):
    ex = L.ex
    if 'flip' not in ex.ghost:
        return
    flipped, pos, d = ex.ghost['flip']
    for nm, lv in L.vecs:
        if not L.is_mod(lv):
            continue
        try:
            e = leaf(ex, lv) if False else ex.to_vvec(L.old(lv)).leaves[0]
        except (Unsupported, AttributeError):
            continue
        if e.sort() != AII:
            continue
        for kn, k in L.int_terms(True):
            yield 'flipped %s %s' % (nm, kn), lambda lv=lv, k=k, e=e: (lambda a: z3.ForAll(
                [J], a[J] == z3.If(z3.And(flipped(J), 0 <= J, J < vec1(ex, ex.read(lv))[0], pos(J) < k()), d[J] - 1 - e[J], e[J]), patterns=[a[J]]))(leaf(ex, lv))


# ------------------------------------------------------------------ C09
fsum = z3.Function('fold_sum', AIR, I, R)
fmax = z3.Function('fold_max', AIR, I, R)
OPF = {'fold_sum': lambda a, b: a + b, 'fold_max': lambda a, b: z3.If(a < b, b, a)}
for f_ in (fsum, fmax):
    register(f_, lambda g, k, f_=f_: [z3.Implies(k == 1, f_(g, k) == g[0]),
                                      z3.Implies(k > 1, f_(g, k) == OPF[f_.name()](f_(g, k - 1), g[k - 1]))])
REDUCE = {'reduce_sum': fsum, 'reduce_max': fmax}


def g_fold_max(ex):
    """lemma: the recursively defined maximum is an element and no element is larger"""
    g, n = ex.fresh('g', AIR), ex.fresh('n', I)
    ex.assume(n >= 1)
    w, k = ex.fresh('w', I), ex.fresh('k', I)
    at = z3.Function('arg_of', I, I)
    P = lambda m: z3.And(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < m), g[J] <= fmax(g, m)), patterns=[g[J]]),
                         z3.Exists([J], z3.And(0 <= J, J < m, g[J] == fmax(g, m))))
    ex.prove(P(iv(1)), 'lemma.maximum.base', 'lemma')
    ex.assume(z3.And(1 <= k, k < n, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k), g[J] <= fmax(g, k)), patterns=[g[J]]), 0 <= w, w < k, g[w] == fmax(g, k)))
    ex.prove(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k + 1), g[J] <= fmax(g, k + 1)), patterns=[g[J]]), 'lemma.maximum.step: nothing is larger', 'lemma')
    ex.prove(z3.Or(g[w] == fmax(g, k + 1), g[k] == fmax(g, k + 1)), 'lemma.maximum.step: it is an element', 'lemma')


def reduced(x, p):
    """shape with axis p removed (or of extent one)"""
    n, d = x.rank, x.dims
    pop = z3.And(n > 1, z3.Or(p == 0, p == n - 1))
    return (z3.If(pop, n - 1, n), lambda j: z3.If(z3.And(n > 1, p == 0), d[j + 1], z3.If(j == p, iv(1), d[j])))


def axis_line(ex, x, p, c):
    """ghost: ridx(j) is the position of x whose coordinates are those of the output with j along axis p"""
    ridx = z3.Function('line!%d' % ex.s.__dict__.setdefault('_nline', 0), I, I)
    ex.s._nline += 1
    C = lambda j: lambda k: z3.If(k == p, j, z3.If(z3.And(x.rank > 1, p == 0), c(k - 1), c(k)))
    j, k = ex.fresh('j', I), ex.fresh('k', I)
    ex.prove(z3.Implies(z3.And(0 <= j, j < x.dims[p], 0 <= k, k < x.rank), z3.And(C(j)(k) >= 0, C(j)(k) < x.dims[k])), 'the documented source coordinate is inside the operand')
    K = z3.Int('k!t')
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < x.dims[p]), z3.And(0 <= ridx(J), ridx(J) < x.n)), patterns=[ridx(J)]))
    ex.assume(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < x.dims[p], 0 <= K, K < x.rank), digit(x.dims, ridx(J), K) == C(J)(K)), patterns=[digit(x.dims, ridx(J), K)]))
    ex.ghost.setdefault('targets', []).append(lambda CC: (x.dims, x.rank, ridx(CC(p))))
    g = ex.fresh('line', AIR)
    ex.assume(z3.ForAll([J], g[J] == x.arr[ridx(J)], patterns=[g[J]]))
    return g


def g_reduce(name, part, axis):
    def run(ex):
        x = operand(ex, 'a')
        F = REDUCE[name]
        p = size(ex, 'axis')
        r = call_op(ex, name, [x, VOpt(z3.BoolVal(axis), p)])
        made = made_of(ex, r, [x])
        if made is None:
            return
        ex.ghost['axis'] = p
        if not axis:
            want = (iv(1), lambda j: iv(1))
        elif ex.choose(2) == 0:
            ex.assume(p >= x.rank)
            want = (x.rank, lambda j: x.dims[j])
            if part == 'values':
                return run_forward(ex, made, (x.shape, x.rank, x.dims), lambda i0, c: x.arr[i0])
        else:
            ex.assume(p < x.rank)
            want = reduced(x, p)
        if part == 'shape':
            return run_shaper(ex, made, want)
        out = out_shape(ex, want)

        def spec(i0, c):
            g = axis_line(ex, x, p, c) if axis else x.arr
            ex.ghost['fold'] = (F, g)
            return F(g, x.dims[p] if axis else x.n)
        run_forward(ex, made, out, spec)
    return run


def t_fold(L):
    ex = L.ex
    if 'fold' not in ex.ghost:
        return
    F, g = ex.ghost['fold']
    i0 = ex.ghost['pos']
    for nm, lv in L.mems:
        if ex.read(lv).name != 'destination':
            continue
        for kn, k in L.int_terms(None):
            for jn, j in L.int_terms(True):
                if jn != kn:
                    yield 'fold %s %s' % (kn, jn), lambda lv=lv, k=k, j=j: z3.Implies(k() == i0, ex.read(lv).arr[i0] == F(g, j()))
    for nm, lv in L.reals:
        for jn, j in L.int_terms(True):
            for off in (0, 1):
                yield 'acc %s %s+%d' % (nm, jn, off), lambda lv=lv, j=j, off=off: ex.read(lv) == F(g, j() + off)


def t_line(L):
    """coordinates change along the reduced axis only"""
    ex = L.ex
    p = ex.ghost.get('axis')
    if p is None:
        return
    for nm, lv in L.vecs:
        if not L.is_mod(lv):
            continue
        try:
            e = ex.to_vvec(L.old(lv)).leaves[0]
        except (Unsupported, AttributeError, KeyError):
            continue
        if e.sort() != AII:
            continue
        yield 'line ' + nm, lambda lv=lv, e=e: (lambda a: z3.ForAll([J], z3.Implies(J != p, a[J] == e[J]), patterns=[a[J]]))(leaf(ex, lv))
    g = ex.ghost.get('search')
    if g is None:
        return
    i0 = ex.ghost['pos']
    for nm, lv in L.vecs:
        if not L.is_mod(lv) or ex.to_vvec(ex.read(lv)).leaves[0].sort() != AIR:
            continue
        for kn, k in L.int_terms(True):
            yield 'gathered %s %s' % (nm, kn), lambda lv=lv, k=k: ex.vlen(ex.read(lv)) == k()
        for kn, k in L.int_terms(None):
            yield 'collected %s %s' % (nm, kn), lambda lv=lv, k=k: (lambda a, n: z3.Implies(k() == i0, z3.ForAll(
                [J], z3.Implies(z3.And(0 <= J, J < n), a[J] == g[J]), patterns=[a[J], g[J]])))(leaf(ex, lv), ex.vlen(ex.read(lv)))


def g_arg(part, axis):
    def run(ex):
        x = operand(ex, 'a')
        p = size(ex, 'axis')
        r = call_op(ex, 'arg_max', [x, VOpt(z3.BoolVal(axis), p)])
        made = made_of(ex, r, [x])
        if made is None:
            return
        ex.ghost['axis'] = p
        if part == 'shape':
            if axis:
                return run_shaper(ex, made, reduced(x, p), p >= x.rank)
            return run_shaper(ex, made, (iv(1), lambda j: iv(1)))
        if axis:
            ex.assume(p < x.rank)
        out = out_shape(ex, reduced(x, p) if axis else (iv(1), lambda j: iv(1)))

        def spec(i0, c):
            g = axis_line(ex, x, p, c) if axis else x.arr
            n = x.dims[p] if axis else x.n
            q = ex.fresh('first_max', I)
            ex.assume(z3.And(0 <= q, q < n))
            ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), g[J] <= g[q]), patterns=[g[J]]))
            ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < q), g[J] < g[q]), patterns=[g[J]]))
            ex.ghost['search'] = g
            return z3.ToReal(q)
        run_forward(ex, made, out, spec)
    return run


# arithmetic along an axis
def c_compat(ex, this, args, node):
    a, b = dims_of(ex, this), dims_of(ex, ex.rv(args[0]))
    r, k = ex.fresh('compat', B), ex.fresh('k', I)
    # equal fully defined shapes are compatible (C03)
    ex.assume(z3.Or(r, a[0] != b[0], z3.And(0 <= k, k < a[0], a[1][k] != b[1][k])))
    ex.ghost.setdefault('compat', []).append((a, b, r))
    return r


CONTRACTS['nnet::tensorshape::is_compatible_with'] = c_compat
AXIAL = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': rmul, 'div': rdiv}


def without(p, c):
    """coordinates of the axial operand for coordinates c of the full one"""
    return lambda j: z3.If(p == 0, c(j + 1), z3.If(j == p, iv(0), c(j)))


def g_positions(ex):
    """shapes that differ in one axis: sizes, and positions when the axis has one element"""
    y, x = operand(ex, 'full'), operand(ex, 'axial')
    p, i0, k = size(ex, 'axis'), ex.fresh('i', I), ex.fresh('k', I)
    m, rd = reduced(y, p)
    ex.assume(z3.And(y.rank > 1, p < y.rank, x.rank == m, 0 <= i0, i0 < y.n))
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < m), x.dims[J] == rd(J)), patterns=[x.dims[J]]))
    front = ex.choose(2) == 0
    ex.assume(p == 0 if front else p > 0)
    pf = 1 if front else 0
    if front:
        induct(ex, 'size', lambda k: prod(y.dims, iv(0), k + 1) == y.dims[0] * prod(x.dims, iv(0), k), iv(0), x.rank, pats=lambda k: [prod(x.dims, iv(0), k)])
        ex.prove(y.n == y.dims[0] * x.n, 'lemma.removing the first axis divides the size', 'lemma')
    ex.assume(y.dims[p] == 1)
    induct(ex, 'equal size', lambda k: prod(y.dims, iv(0), k + pf) == prod(x.dims, iv(0), k), iv(0), x.rank, pats=lambda k: [prod(x.dims, iv(0), k)])
    ex.prove(y.n == x.n, 'lemma.removing an axis of one element keeps the size', 'lemma')
    induct(ex, 'quotients', lambda k: quot(x.dims, i0, k) == quot(y.dims, i0, k + pf), iv(0), x.rank, pats=lambda k: [quot(x.dims, i0, k)])
    # coordinates are successive remainders (C02)
    c = lambda d: lambda j: quot(d, i0, j) % d[j]
    ex.assume(z3.And(0 <= k, k < x.rank))
    ex.prove(c(x.dims)(k) == without(p, c(y.dims))(k), 'lemma.and keeps the coordinates', 'lemma')


def g_axial(op, left, part):
    def run(ex):
        a, b = operand(ex, 'a'), operand(ex, 'b')
        x, y = (a, b) if left else (b, a)       # axial operand, full operand
        p = size(ex, 'axis')
        U, V = z3.Reals('u!t v!t')
        ex.assume(z3.ForAll([U, V], rmul(U, V) == rmul(V, U), patterns=[rmul(U, V)]))
        r = call_op(ex, '%s_axial_%s' % (op, 'a' if left else 'b'), [a, b, p])
        made = made_of(ex, r, [a, b])
        if made is None:
            return
        ex.assume(z3.Implies(z3.And(x.n != 1, y.n != 1), p < y.rank))
        m, rd = reduced(y, p)
        w = ex.fresh('w', I)
        fits = z3.And(m == x.rank, forall(0, m, lambda j: x.dims[j] == rd(j)))
        if part == 'shape':
            ex.assume(z3.Or(y.n != 1, x.n == 1))
            shapes = VList(('cls', SHAPE), [q.shape for q in made['args']])
            try:
                s = ex.rv(ex.call_value(made['shaper'], [ex.new_cell(shapes, ('vec', ('cls', SHAPE)))]))
            except CppThrow:
                ex.prove(z3.Not(z3.Or(x.n == 1, z3.And(y.rank > 1, m == x.rank, forall(0, m, lambda j: x.dims[j] == rd(j))))), 'operands of matching shapes are not refused')
                raise PathEnd()
            if isinstance(s, (VVec, VList)):
                s = VStruct(SHAPE, {'dimensions_': ex.to_vvec(s)})
            n, d = vec1(ex, s.fields['dimensions_'])
            ex.prove(n == y.rank, 'the result has the rank of the full operand')
            ex.prove(forall(0, y.rank, lambda j: d[j] == y.dims[j]), 'the result has the extents of the full operand')
            cs = [z3.And(u[0] == x.rank, v[0] == m, forall(0, x.rank, lambda j: u[1][j] == x.dims[j]), forall(0, m, lambda j: v[1][j] == rd(j)), ok)
                  for u, v, ok in ex.ghost.get('compat', [])]
            ex.prove(z3.Or([x.n == 1, y.rank == 1] + cs), 'the axial operand was compared with the full operand without the axis')
            return
        one = ex.choose(2) == 0
        if one:
            ex.assume(x.n == 1)
        else:
            ex.assume(z3.And(x.n > 1, y.n > 1, y.rank > 1, p < y.rank, x.rank == m))
            ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < m), x.dims[J] == rd(J)), patterns=[x.dims[J]]))
        out = out_shape(ex, (y.rank, lambda j: y.dims[j]))
        # the shapes are equal, hence interchangeable
        out = (y.shape, y.rank, y.dims)

        def spec(i0, c):
            if one:
                return AXIAL[op](a.arr[0], b.arr[i0]) if left else AXIAL[op](a.arr[i0], b.arr[0])
            C = without(p, c)
            r0 = source_pos(ex, x, C)
            k = ex.fresh('k', I)
            # lemma "shapes that differ in one axis" (proved once below)
            ex.assume(z3.Implies(p == 0, y.n == y.dims[0] * x.n))
            if ex.choose(2) == 0:
                ex.assume(z3.And(y.dims[p] == 1, x.n == y.n))
                ex.assume(r0 == i0)         # equal coordinates in both shapes
            else:
                ex.assume(y.dims[p] > 1)
            u, v = x.arr[r0], y.arr[i0]
            return AXIAL[op](u, v) if left else AXIAL[op](v, u)
        run_forward(ex, made, out, spec, 'every element combines the element of the full operand with the axial element of the matching coordinates')
    return run


def c_shape_dep(ex, this, args, node):
    a = [ex.rv(x) if x is not None else None for x in args]
    out = ex.node('nonconst')
    out.dep = dict(args=[ex.as_node(x) for x in a[0].items], fn=a[1], shape=a[2], label=a[3])
    return out


def c_div(ex, this, args, node):
    out = ex.node('nonconst')
    out.quotient = [ex.rv(a) for a in args]
    return out


def c_rsum(ex, this, args, node):
    out = ex.node('nonconst')
    out.total = (ex.as_node(args[0]), ex.rv(args[1]))
    return out


MEAN = {'nnet::shape_dep<double>::get': c_shape_dep, 'nnet::operator/': c_div, 'nnet::reduce_sum': c_rsum}
CONTRACTS.update(MEAN)


def g_mean(axis):
    def run(ex):
        x = operand(ex, 'a')
        p = size(ex, 'axis')
        r = call_op(ex, 'reduce_mean', [x, VOpt(z3.BoolVal(axis), p)])
        if not hasattr(r, 'quotient'):
            raise Unsupported('the mean is not written as a quotient')
        s, d = [ex.as_node(t) for t in r.quotient]
        if not hasattr(s, 'total') or not hasattr(d, 'dep'):
            raise Unsupported('the mean is not written as a sum over a count')
        dim = s.total[1]
        ex.prove(z3.BoolVal(s.total[0] is x), 'the numerator is the sum of the operand')
        ex.prove(z3.And(as_bool(dim.has) == z3.BoolVal(axis), z3.Implies(z3.BoolVal(axis), as_int(dim.val) == p)), 'the sum runs over the same axis')
        ex.prove(z3.BoolVal(len(d.dep['args']) == 1 and d.dep['args'][0] is x), 'the count depends on the operand')
        sh = d.dep['shape']
        n, e = vec1(ex, ex.rv(sh).fields['dimensions_']) if isinstance(ex.rv(sh), VStruct) else vec1(ex, ex.rv(sh))
        ex.prove(z3.And(n == 1, e[0] == 1), 'the count is a scalar')
        v = ex.rv(ex.call_value(d.dep['fn'], [ex.new_cell(x.shape, ('cls', SHAPE))]))
        m, c = vec1(ex, v)
        ex.prove(m >= 1, 'there is a count')
        ex.prove(c[0] == (z3.If(p < x.rank, x.dims[p], iv(1)) if axis else x.n), 'the count is the number of elements summed up')
    return run


GOALS = {'C09': [], 'C10': [], 'C11': []}
for part in ('shape', 'values'):
    GOALS['C10'].append(('transpose ' + part, g_transpose(part), TM, OPTS))
    GOALS['C10'].append(('fit ' + part, g_fit(part), TM + [t_overlap], OPTS))
    GOALS['C10'].append(('extend ' + part, g_extend(part), TM, OPTS))
    GOALS['C10'].append(('flip ' + part, g_flip(part), TM + [t_flip], OPTS))
TR = TM + [t_fold, t_line]
for nm in REDUCE:
    for ax in (True, False):
        for part in ('shape', 'values'):
            GOALS['C09'].append(('%s %s %s' % (nm, 'axis' if ax else 'all', part), g_reduce(nm, part, ax), TR, OPTS))
for ax in (True, False):
    for part in ('shape', 'values'):
        GOALS['C09'].append(('arg_max %s %s' % ('axis' if ax else 'all', part), g_arg(part, ax), TR, OPTS))
GOALS['C09'].append(('shapes that differ in one axis', g_positions, [], {'use': ()}))
GOALS['C09'].append(('maximum lemma', g_fold_max, [], {'use': ()}))

for op in AXIAL:
    for left in (True, False):
        for part in ('shape', 'values'):
            GOALS['C09'].append(('%s_axial_%s %s' % (op, 'a' if left else 'b', part), g_axial(op, left, part), TM,
                                 dict(OPTS, use=USE + ('nnet::axial_set_jacobian', 'nnet::print_shape'))))
for ax in (True, False):
    GOALS['C09'].append(('reduce_mean ' + ('axis' if ax else 'all'), g_mean(ax), [], dict(OPTS, use=USE + tuple(MEAN))))
