"""Elementwise operators (C07), folding / simplification / reuse (C08), their gradients (C12)."""
from .lib import *
from vc import mathspec
from vc.oplayer import *
from vc.mathspec import fn as mf, apply as mapply

TU = 'ops_tu.cpp'
INTERP = OpInterp
ND = ('ptr', ('cls', INODE))

absf = lambda x: z3.If(x >= 0, x, -x)
UNARY = {
    'sin': lambda x: mf('sin', x), 'cos': lambda x: mf('cos', x), 'tan': lambda x: mf('tan', x),
    'csc': lambda x: 1 / mf('sin', x), 'sec': lambda x: 1 / mf('cos', x), 'cot': lambda x: mf('cos', x) / mf('sin', x),
    'exp': lambda x: mf('exp', x), 'sqrt': lambda x: mf('sqrt', x), 'log': lambda x: mf('log', x), 'round': lambda x: mf('round', x),
    'operator-': lambda x: -x, 'operator+': absf, 'identity': lambda x: x,
}
BINARY = {'operator+': lambda x, y: x + y, 'operator-': lambda x, y: x - y, 'operator*': lambda x, y: x * y,
          'operator/': lambda x, y: x / y}
PARAM = {
    'pow': lambda x, s: mf('pow', x, s),
    'clip_val': lambda x, a, b: (lambda lo, hi: z3.If(lo > x, lo, z3.If(hi < x, hi, x)))(z3.If(a > b, b, a), z3.If(a > b, a, b)),
}
cmp_ = z3.Function('user_compare', R, R, B)
b2r = lambda b: z3.If(b, z3.RealVal(1), z3.RealVal(0))


def denom(name, nargs):
    """what the operator divides by (its domain in the reals)"""
    if name == 'operator/':
        return lambda x, y: y
    return {'tan': lambda x: mf('cos', x), 'sec': lambda x: mf('cos', x), 'csc': lambda x: mf('sin', x), 'cot': lambda x: mf('sin', x),
            }.get(name) if nargs == 1 else None


def value(x):
    return x.v if isinstance(x, VNode) else as_real(x)


def sem(name, args):
    vs = [value(a) for a in args]
    if len(vs) == 1 and name in UNARY:
        return UNARY[name](*vs)
    if len(vs) == 2 and name in BINARY:
        return BINARY[name](*vs)
    if name in PARAM:
        return PARAM[name](*vs)
    raise Unsupported('no meaning for %s/%d' % (name, len(vs)))


# ------------------------------------------------------------------ contracts
def c_op(name):
    def c(ex, this, args, node):
        if ex.ghost.get('body_of') == name:
            ex.ghost['body_of'] = None
            return NotImplemented
        a = [ex.as_node(x) for x in args if x is not None]
        if any(isinstance(x, VNode) and x.kind == 'null' for x in a):
            return NULLNODE
        a = [x if isinstance(x, VNode) else as_real(x) for x in a]
        if not any(isinstance(x, VNode) for x in a):
            raise Unsupported('%s on scalars' % name)
        d = denom(name, len(a))
        if d is not None:
            if ex.ghost.get('strict'):
                ex.prove(d(*[value(x) for x in a]) != 0, 'no division by zero inside the domain (%s)' % name)
            ex.assume(d(*[value(x) for x in a]) != 0)
        v = ex.fresh(name.replace('operator', 'op'), R)
        ex.assume(v == sem(name, a))
        for nm in ('sin', 'cos', 'exp', 'sqrt'):
            if name == nm or nm in ('sin', 'cos') and name in ('tan', 'sec', 'csc', 'cot'):
                mapply(ex, nm, [value(a[0])])
        if name == 'pow':
            pow_facts(ex, value(a[0]), value(a[1]))
        return ex.node('any', v)
    return c


def c_conditional(ex, this, args, node):
    if ex.ghost.get('body_of') == 'conditional':
        ex.ghost['body_of'] = None
        return NotImplemented
    a = [ex.as_node(x) for x in args]
    if any(isinstance(x, VNode) and x.kind == 'null' for x in a[:2]):
        return NULLNODE
    v = [value(x) for x in a[:2]]
    r = ex.call_value(a[2], [ex.new_cell(x, ('real',)) for x in v])
    return ex.node('any', b2r(as_bool(ex.rv(r))))


def pow_facts(ex, x, s):
    if not z3.is_rational_value(s):
        r = mf('pow', x, s)
        ex.assume(z3.And(z3.Implies(s == 0, r == 1), z3.Implies(s == 1, r == x), z3.Implies(s == 2, r == x * x)))


def c_get(ex, this, args, node):
    a = [ex.rv(x) if x is not None else None for x in args]
    lst = a[0]
    if not isinstance(lst, VList):
        raise Unsupported('argument list of symbolic length')
    nodes = [ex.as_node(x) for x in lst.items]
    ex.prove(z3.BoolVal(bool(nodes) and all(isinstance(x, VNode) and x.kind != 'null' for x in nodes)), 'every argument of a new node is a node')
    out = ex.node('conn')
    out.made = dict(args=nodes, shaper=a[1], fn=getattr(a[2], 'fn', None), ginit=a[3], label=a[4])
    out.label, out.children = a[4], list(nodes)
    s = ex.ghost.get('searched')
    if s is None:
        out.made['search'] = None
    else:
        kind, ops, lab = s
        out.made['search'] = kind
        ex.prove(label_eq(lab, a[4]), 'a node is looked up under the label it is registered with')
        ex.prove(z3.BoolVal(len(ops) == len(nodes) and all(x is y for x, y in zip(ops, nodes))), 'a node is looked up by the operands it is registered with')
        if kind == 'unordered' and ex.ghost.get('commute') is not None:
            ex.prove(ex.ghost['commute'], 'operands looked up in either order commute')
    ex.ghost.setdefault('made', []).append(out)
    return out


def label_eq(a, b):
    if not isinstance(a, VStr) or not isinstance(b, VStr) or len(a.parts) != len(b.parts):
        return z3.BoolVal(False)
    c = []
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, str) or isinstance(y, str):
            c.append(z3.BoolVal(x == y))
        elif isinstance(x, Num) and isinstance(y, Num):
            c.append(as_real(x.t) == as_real(y.t))
        else:
            c.append(z3.BoolVal(x is y))
    return z3.And(c)


def c_search(kind):
    def c(ex, this, args, node):
        a = [ex.rv(x) for x in args]
        nodes = [ex.as_node(x) for x in a[:-1]]
        if ex.ghost.get('no_memo') or ex.choose(2) == 0:
            ex.ghost['searched'] = (kind, nodes, a[-1])
            return NULLNODE
        m = ex.node('conn')
        m.memo = (kind, nodes, a[-1])
        return m
    return c


def c_const_get(ex, this, args, node):
    a = [ex.rv(x) for x in args]
    if len(a) == 1:
        x = as_real(a[0])
        return ex.const_node(iv(1), z3.K(I, x))
    n, arr = vec1(ex, a[0])
    m = S_nelems(ex, a[1])
    ex.prove(n == m, 'a folded constant has as many values as its shape has elements')
    ex.assume(z3.Or(m == 1, m == (ex.i0(), ex.ghost['N'])[1]))
    return ex.const_node(m, arr)


def S_nelems(ex, shape):
    d = shape.fields['dimensions_']
    d = ex.to_vvec(d)
    return z3.If(d.n == 0, 0, prod(d.leaves[0], iv(0), d.n))


def c_shared(val):
    return lambda ex, this, args, node: ex.const_node(iv(1), z3.K(I, z3.RealVal(val)))


def c_expose(ex, this, args, node):
    x = ex.as_node(args[0])
    if not isinstance(x, VNode) or x.kind == 'null':
        raise Unsupported('expose')
    if not hasattr(x, 'arr'):
        raise Unsupported('expose of a computed node')
    return VVec(('real',), x.n, [x.arr])


def c_n_elems(ex, this, args, node):
    s = ex.rv(ex.deref(this)) if not isinstance(this, VStruct) else this
    return S_nelems(ex, s)


def c_noop(ex, this, args, node):
    return VOIDV


def c_sh_compat(ex, this, args, node):
    r = ex.fresh('compat', B)
    a, b = ex.rv(ex.deref(this)), ex.rv(args[0])
    na, nb = ex.to_vvec(a.fields['dimensions_']), ex.to_vvec(b.fields['dimensions_'])
    ex.assume(z3.Implies(z3.Or(na.n == 0, nb.n == 0), r))
    # compatible fully defined shapes hold equally many elements (C03)
    ex.assume(z3.Implies(z3.And(r, na.n > 0, nb.n > 0), S_nelems(ex, a) == S_nelems(ex, b)))
    ex.ghost.setdefault('compat', []).append((S_nelems(ex, a), S_nelems(ex, b), r))
    return r


def c_sh_full(ex, this, args, node):
    # every shape at this layer is undefined or fully defined
    a = ex.rv(ex.deref(this))
    return ex.to_vvec(a.fields['dimensions_']).n > 0


OPNAMES = sorted(set(UNARY) | set(BINARY) | set(PARAM))
CONTRACTS = {'nnet::' + k: c_op(k) for k in OPNAMES}
CONTRACTS['nnet::conditional'] = c_conditional
CONTRACTS.update({
    'nnet::immutable<double>::get': c_get,
    'nnet::unary_parent_search': c_search('unary'),
    'nnet::ordered_binary_parent_search': c_search('ordered'),
    'nnet::unordered_binary_parent_search': c_search('unordered'),
    'nnet::constant<double>::get': c_const_get,
    'nnet::constant<double>::get_shared_zero': c_shared(0),
    'nnet::constant<double>::get_shared_one': c_shared(1),
    'nnet::expose': c_expose,
    'nnet::axial_set_jacobian': c_noop,
    'nnet::print_shape': c_noop,
    'nnet::tensorshape::n_elems': c_n_elems,
    'nnet::tensorshape::is_compatible_with': c_sh_compat,
    'nnet::tensorshape::is_fully_defined': c_sh_full,
})
USE = tuple(CONTRACTS)


# ------------------------------------------------------------------ running one operator
def operand(ex, nm, kind='any'):
    x = ex.node(kind)
    x.arr = ex.fresh('vals_' + nm, z3.ArraySort(I, R))
    x.name = nm
    ex.assume(x.v == ex.at(x.n, x.arr))
    return x


def elem(x, j):
    return x.arr[z3.If(x.n == 1, iv(0), j)] if isinstance(x, VNode) else as_real(x)


def find_op(ex, name, kinds):
    """the overload whose parameters are nodes ('n') or scalars ('s') in this order"""
    out = []
    for d in ex.ast.by_name.get('nnet::' + name, []):
        ks = ''
        for p in d['_params']:
            t = unref(node_type(p))
            ks += 'n' if t[0] == 'cls' and t[1].startswith(VP) else 's' if t[0] in ('real', 'int') else 'o'
        if ks == kinds:
            out.append(d)
    if not out:
        raise Unsupported('operator %s(%s) not found in current source' % (name, kinds))
    return out[0]


def invoke(ex, name, kinds, args):
    d = find_op(ex, name, kinds)
    ex.ghost['body_of'] = name
    return ex.as_node(ex.call_def(d, None, [ex.new_cell(a, node_type(p)) for a, p in zip(args, d['_params'])], None))


def run_transfer(ex, made, operands, spec, nout):
    nodes = made['args']
    bufs = {}
    for x in nodes:
        if id(x) not in bufs:
            if not hasattr(x, 'arr'):
                raise Unsupported('transfer of a derived operand')
            lv = ex.new_cell(VMem(x.n, x.arr, False, 'source'), ('mem', ('real',)))
            bufs[id(x)] = VBPtr(lv.root[1], iv(0))
    a0 = ex.fresh('dest0', z3.ArraySort(I, R))
    dl = ex.new_cell(VMem(nout, a0, False, 'destination'), ('mem', ('real',)))
    outs = ex.node('any', n=nout)
    io = VStruct('nnet::shape_io', {'outs_': ex.node_shape(outs), 'ins_': VList(('cls', SHAPE), [ex.node_shape(x) for x in nodes])})
    ex.call_value(made['fn'], [VBPtr(dl.root[1], iv(0)), ex.new_cell(VList(('ptr', ('real',)), [bufs[id(x)] for x in nodes]), ('vec', ('ptr', ('real',)))), ex.new_cell(io, ('cls', 'nnet::shape_io'))])
    m = ex.read(dl)
    ex.prove(forall(0, nout, lambda j: m.arr[j] == spec(j)), 'every element of the result is the documented function of the operand elements')
    for x in nodes:
        ex.prove(ex.cells[bufs[id(x)].cell].arr == x.arr, 'operands keep their values')


def run_shaper(ex, made, nout):
    shapes = VList(('cls', SHAPE), [ex.node_shape(x) for x in made['args']])
    ex.ghost['compat'] = []
    try:
        s = ex.rv(ex.call_value(made['shaper'], [ex.new_cell(shapes, ('vec', ('cls', SHAPE)))]))
    except CppThrow:
        ex.prove(z3.Or([z3.Not(r) for _, _, r in ex.ghost['compat']]), 'operands are refused only when their shapes are incompatible')
        raise PathEnd()
    if isinstance(s, (VVec, VList)):
        s = VStruct(SHAPE, {'dimensions_': ex.to_vvec(s)})
    ex.prove(S_nelems(ex, s) == nout, 'the result has the shape of the (larger) operand')


def nmax(ns):
    r = iv(1)
    for n in ns:
        r = z3.If(n == 1, r, n)
    return r


def g_op(name, kinds, ok='x', alias=False):
    """ok: per node operand, c = constant, x = anything else; alias: both operands are the same node"""
    def run(ex):
        ex.i0()
        args, k = [], 0
        cmpf = VFn('compare', lambda e, a: cmp_(as_real(e.rv(a[0])), as_real(e.rv(a[1]))))
        for c in kinds:
            if c == 'n':
                args.append(operand(ex, 'ab'[len([x for x in args if isinstance(x, VNode)])]))
            elif c == 's':
                s = ex.fresh('scalar', R)
                ex.input('s%d' % k, s)
                k += 1
                args.append(s)
        nodes = [x for x in args if isinstance(x, VNode)]
        for x, o in zip(nodes, ok):
            if o == 'c':
                ex.to_const(x)
            else:
                x.kind = 'nonconst'
        if alias:
            args[1] = args[0]
            nodes = [args[0]]
        vals = list(args)
        if name == 'conditional':
            sm = lambda *v: b2r(cmp_(*v))
            args = args + [cmpf, VStr((AnyLabel(None),))]
        elif name in ('eq', 'neq'):
            sm = lambda x, y: b2r(x == y if name == 'eq' else x != y)
        else:
            sm = lambda *v: sem(name, v)
        spec_j = lambda j: sm(*[elem(x, j) for x in vals])
        ex.ghost['spec_j'] = spec_j
        sv = sm(*[value(x) for x in vals])
        if name == 'pow':
            pow_facts(ex, value(vals[0]), value(vals[1]))
        if len(vals) == 2:
            ex.ghost['commute'] = sm(value(vals[0]), value(vals[1])) == sm(value(vals[1]), value(vals[0]))
        ex.ghost['label_meaning'] = LabelMeaning(ex)
        dn = denom(name, len(vals))
        kk = kinds if name not in ('conditional',) else kinds + 'oo'
        try:
            if ex.choose(2) == 1:
                i = ex.choose(len(nodes)) if len(nodes) > 1 else 0
                args2 = [NULLNODE if isinstance(x, VNode) and x is nodes[i] else x for x in args]
                r = invoke(ex, name, kk, args2)
                ex.prove(z3.BoolVal(r.kind == 'null'), 'a null operand gives a null result')
                return
            r = invoke(ex, name, kk, args)
        except CppThrow as e:
            ex.prove(z3.BoolVal(False) if dn is None or len(vals) != 2 else value(vals[1]) == 0, 'throws only for a zero divisor')
            return
        if dn is not None:
            ex.assume(dn(*[value(x) for x in vals]) != 0)
        if hasattr(r, 'memo'):
            return      # found by the label it would have been registered with: same function by the label obligations
        if hasattr(r, 'made'):
            nout = nmax([x.n for x in nodes])
            run_shaper(ex, r.made, nout)
            run_transfer(ex, r.made, vals, spec_j, nout)
            return
        ex.prove(z3.BoolVal(r.kind != 'null'), 'the result is a node')
        if r.kind == 'null':
            return
        ex.prove(r.v == sv, 'the shortcut or folded result has the value of the operator')
    return run


# ------------------------------------------------------------------ gradients
sgn = lambda x: z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
sq = lambda x: x * x
S_, C_ = lambda x: mf('sin', x), lambda x: mf('cos', x)
# name/kinds: (domain, derivative) as functions of (values, gradients of the node operands)
DERIV = {
    ('identity', 'n'): (lambda x: True, lambda x, g: g),
    ('operator-', 'n'): (lambda x: True, lambda x, g: -g),
    ('operator+', 'n'): (lambda x: x != 0, lambda x, g: g * sgn(x)),
    ('sin', 'n'): (lambda x: True, lambda x, g: g * C_(x)),
    ('cos', 'n'): (lambda x: True, lambda x, g: -g * S_(x)),
    ('tan', 'n'): (lambda x: C_(x) != 0, lambda x, g: g / sq(C_(x))),
    ('csc', 'n'): (lambda x: z3.And(S_(x) != 0, C_(x) != 0), lambda x, g: -g * C_(x) / sq(S_(x))),
    ('sec', 'n'): (lambda x: C_(x) != 0, lambda x, g: g * S_(x) / sq(C_(x))),
    ('cot', 'n'): (lambda x: S_(x) != 0, lambda x, g: -g / sq(S_(x))),
    ('exp', 'n'): (lambda x: True, lambda x, g: g * mf('exp', x)),
    ('sqrt', 'n'): (lambda x: x > 0, lambda x, g: g / (2 * mf('sqrt', x))),
    ('log', 'n'): (lambda x: x > 0, lambda x, g: g / x),
    ('pow', 'ns'): (lambda x, s: x > 0, lambda x, s, g: s * g * mf('pow', x, s - 1)),
    ('operator+', 'ns'): (lambda x, s: True, lambda x, s, g: g),
    ('operator+', 'sn'): (lambda s, x: True, lambda s, x, g: g),
    ('operator-', 'ns'): (lambda x, s: True, lambda x, s, g: g),
    ('operator-', 'sn'): (lambda s, x: True, lambda s, x, g: -g),
    ('operator*', 'ns'): (lambda x, s: True, lambda x, s, g: g * s),
    ('operator*', 'sn'): (lambda s, x: True, lambda s, x, g: g * s),
    ('operator/', 'ns'): (lambda x, s: s != 0, lambda x, s, g: g / s),
    ('operator/', 'sn'): (lambda s, x: x != 0, lambda s, x, g: -s * g / sq(x)),
    ('operator+', 'nn'): (lambda x, y: True, lambda x, y, g, h: g + h),
    ('operator-', 'nn'): (lambda x, y: True, lambda x, y, g, h: g - h),
    ('operator*', 'nn'): (lambda x, y: True, lambda x, y, g, h: g * y + x * h),
    ('operator/', 'nn'): (lambda x, y: y != 0, lambda x, y, g, h: g / y - x * h / sq(y)),
}


def g_grad(name, kinds, alias=False):
    def run(ex):
        ex.i0()
        args = [operand(ex, 'ab'[i % 2]) if c == 'n' else ex.fresh('scalar', R) for i, c in enumerate(kinds)]
        for x in args:
            if isinstance(x, VNode):
                x.kind = 'nonconst'
        if alias:
            args[1] = args[0]
        vals = [value(x) for x in args]
        dom, der = DERIV[name, kinds]
        ex.assume(as_bool(dom(*vals)))
        ex.ghost['label_meaning'] = LabelMeaning(ex)
        if name in ('sin', 'cos', 'tan', 'csc', 'sec', 'cot'):
            mapply(ex, 'sin', vals[:1])
        if name in ('exp', 'sqrt'):
            mapply(ex, name, vals[:1])
        if name == 'sqrt':
            ex.assume(mf('sqrt', vals[0]) > 0)
        if name == 'pow':
            pow_facts(ex, vals[0], vals[1] - 1)
        ex.ghost['no_memo'] = True
        r = invoke(ex, name, kinds, args)
        if not hasattr(r, 'made'):
            return      # a shortcut: the node it returns has the value of the operator (C08), so its derivative is the operator's
        nodes = r.made['args']
        grads = []
        for i, x in enumerate(nodes):
            if i and x is nodes[0]:
                grads.append(grads[0])
            else:
                g = ex.node('any', n=None)
                ex.assume(z3.Or(g.n == 1, g.n == x.n))
                grads.append(g)
        ex.ghost['strict'] = True
        pr = VList(('pair', ND, ND), [VStruct('pair', {'first': x, 'second': g}) for x, g in zip(nodes, grads)])
        out = ex.as_node(ex.call_value(r.made['ginit'], [ex.new_cell(pr, ('vec', ('pair', ND, ND)))]))
        ex.prove(z3.BoolVal(isinstance(out, VNode) and out.kind != 'null'), 'the gradient is a node')
        if isinstance(out, VNode) and out.kind != 'null':
            ex.prove(out.v == der(*(vals + [g.v for g in grads])), 'the gradient is the derivative by the chain rule')
    return run


# ------------------------------------------------------------------ labels
NUMRE = z3.Concat(z3.Option(z3.Re('-')), z3.Range('0', '9'), z3.Star(z3.Union(z3.Range('0', '9'), z3.Re('.'), z3.Re('e'), z3.Re('+'), z3.Re('-'))))
NAMERE = z3.Plus(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z')))


def label_re(parts):
    rs = [z3.Re(z3.StringVal(p)) if isinstance(p, str) else NUMRE if isinstance(p, Num) else NAMERE for p in parts]
    return z3.Concat(*rs) if len(rs) > 1 else rs[0]


def collect_labels(ast):
    """every (operator, captured scalars, label, meaning) under which the current source registers a node"""
    out = []
    from vc.engine import Session
    for name, kinds in SIGS:
        s = Session(ast)
        s.interp_cls = OpInterp
        s.contracts = dict(CONTRACTS)

        def run(ex, name=name, kinds=kinds):
            ex.ghost['no_memo'] = True
            ex.ghost['label_meaning'] = {}
            scal = [ex.fresh('scalar', R) for c in kinds if c == 's']
            q = list(scal)
            args = [operand(ex, 'x%d' % i, 'leaf') if c == 'n' else q.pop(0) for i, c in enumerate(kinds)]
            kk = kinds
            vals = list(args)
            if name == 'conditional':
                args += [VFn('compare', lambda e, a: cmp_(as_real(e.rv(a[0])), as_real(e.rv(a[1])))), VStr((AnyLabel('name'),))]
                kk += 'oo'
            n0 = len(ex.pc)
            r = invoke(ex, name, kk, args)
            if not hasattr(r, 'made'):
                return
            sv = set(x.get_id() for x in scal)
            pc = [f for f in ex.pc if free_consts(f) and all(x.get_id() in sv for x in free_consts(f))]
            vs = [x.v if isinstance(x, VNode) else x for x in vals]
            if name == 'conditional':
                val = b2r(cmp_(*vs))
            elif name in ('eq', 'neq'):
                val = b2r((vs[0] == vs[1]) if name == 'eq' else (vs[0] != vs[1]))
            else:
                val = sem(name, vs)
            out.append(dict(op='%s(%s)' % (name, kinds), name=name, scal=scal, pc=pc, parts=r.made['label'].parts, val=val, kind=r.made.get('search'),
                            xs=[x.v for x in vals if isinstance(x, VNode)]))
        try:
            s.verify('label %s/%s' % (name, kinds), run, [])
        except Unsupported:
            pass
    return out


def free_consts(f):
    seen, st, out = set(), [f], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st += x.children()
    return out


def g_labels(ex):
    tab = collect_labels(ex.ast)
    need = {('%s(%s)' % (n, k)) for n, k in SIGS} - {'eq(nn)', 'neq(nn)'}
    missing = need - {t['op'] for t in tab}
    if missing:
        raise Unsupported('no registered label found for %s' % sorted(missing))
    for t in tab:
        ex.prove(z3.BoolVal(t['kind'] is not None), '%s: an existing node is looked for before registering one' % t['op'])
        for p, q in zip(t['parts'], t['parts'][1:]):
            ok = isinstance(p, str) and not isinstance(q, str) or isinstance(q, str) and q[0] not in '0123456789.e+-infa'
            ex.prove(z3.BoolVal(ok), '%s: scalars in the label are separated' % t['op'])
    xs = [z3.Real('x!0'), z3.Real('x!1')]
    S = z3.String('label')
    for i, t in enumerate(tab):
        for u in tab[i:]:
            if {t['name'], u['name']} in ({'conditional', 'eq'}, {'conditional', 'neq'}):
                continue        # a comparison name stands for one comparison
            same = len(t['parts']) == len(u['parts']) and all(
                (x == y) if isinstance(x, str) and isinstance(y, str) else type(x) is type(y) for x, y in zip(t['parts'], u['parts']))
            if same:
                ren = [(x, z3.Real(str(x) + '_other')) for x in u['scal']]
                sub = lambda f: z3.substitute(f, *ren) if ren else f
                nums = [x.t == sub(y.t) for x, y in zip(t['parts'], u['parts']) if isinstance(x, Num)]
                if len(t['xs']) != len(u['xs']):
                    g = z3.BoolVal(False)
                else:
                    a = z3.substitute(t['val'], *[(x, y) for x, y in zip(t['xs'], xs)])
                    b = z3.substitute(sub(u['val']), *[(x, y) for x, y in zip(u['xs'], xs)])
                    g = z3.Implies(z3.And(*(t['pc'] + [sub(f) for f in u['pc']] + nums)), a == b)
                ex.prove(g, 'equal labels, equal functions: %s and %s' % (t['op'], u['op']))
            else:
                g = z3.Not(z3.And(z3.InRe(S, label_re(t['parts'])), z3.InRe(S, label_re(u['parts']))))
                if all(isinstance(x, str) for x in t['parts'] + u['parts']):
                    g = z3.BoolVal(''.join(t['parts']) != ''.join(u['parts']))
                ex.prove(g, 'distinct functions, distinct labels: %s and %s' % (t['op'], u['op']))


def g_formatter(ex):
    """the label stream prints doubles with enough digits to tell any two apart"""
    cls = ex.ast.cls_name('nnutils::formatter')
    ex.ghost['precision'] = iv(6)
    lv = ex.new_cell(VStruct(cls, {f['name']: VOpaque(('cls', 'stream'), 'stream') for f in ex.ast.fields(cls)}), ('cls', cls))
    d = None
    for m in ex.ast.methods(cls):
        if m['kind'] == 'CXXConstructorDecl' and not m.get('isImplicit') and not [x for x in m.get('inner', []) if x.get('kind') == 'ParmVarDecl']:
            d = ex.ast.definition(m['id'])
    if d is None:
        raise Unsupported('formatter constructor not found')
    ex.run_ctor(cls, d, lv, [], None)
    ops = [x for x in ex.ast.by_name.get('nnutils::formatter::operator<<', []) if unref(node_type(x['_params'][0])) == ('real',)]
    if not ops:
        raise Unsupported('formatter output of a double not found')
    v = ex.fresh('scalar', R)
    ex.call_def(ops[0], VPtr(lv), [ex.new_cell(v, ('real',))], None)
    pr = ex.ghost.get('printed')
    ex.prove(z3.BoolVal(bool(pr) and len(pr) == 1), 'a scalar is printed once')
    if pr:
        ex.prove(z3.And(pr[0][0] == v, pr[0][1] >= 17), 'a scalar is printed with 17 significant digits')


class LabelMeaning:
    """meaning of the labels under which the current source registers its unary operators"""
    cache = {}

    def __init__(self, ex):
        self.ex = ex

    def get(self, label):
        k = id(self.ex.ast)
        if k not in self.cache:
            t = {}
            from vc.engine import Session
            for name, f in UNARY.items():
                s = Session(self.ex.ast)
                s.interp_cls = OpInterp
                s.contracts = {q: c for q, c in CONTRACTS.items()}
                def run(ex, name=name, f=f):
                    ex.ghost['no_memo'] = True
                    ex.ghost['label_meaning'] = {}
                    a = operand(ex, 'a', 'leaf')
                    r = invoke(ex, name, 'n', [a])
                    if hasattr(r, 'made') and r.made['label'].concrete():
                        t[r.made['label'].concrete()] = f
                try:
                    s.verify('label ' + name, run, [])
                except Unsupported:
                    pass
            self.cache[k] = t
        return self.cache[k].get(label)


def t_elem(L):
    f = L.ex.ghost.get('spec_j')
    if f is None:
        return
    for x in t_prefix([('spec', f)])(L):
        yield x
    ex = L.ex
    for rn, r, n in arr_terms(L, True, R):
        old = None
        for nm, lv in L.vecs + L.mems:
            if nm == rn:
                try:
                    o = L.old(lv)
                    old = o.arr if isinstance(o, VMem) else ex.to_vvec(o).leaves[0]
                except Unsupported:
                    pass
        if old is None:
            continue
        for kn, k in L.int_terms(None):
            yield 'rest %s %s' % (rn, kn), lambda r=r, k=k, o=old: all_j(z3.Implies(J >= k(), r()[J] == o[J]), r()[J])


TM = [t_range, t_elem, t_eqints]
OPTS = {'use': USE}
GOALS = {'C07': [], 'C08': [], 'C12': []}
SIGS = tuple((nm, 'n') for nm in UNARY) + (('pow', 'ns'), ('clip_val', 'nss')) + tuple((o, k) for o in BINARY for k in ('ns', 'sn', 'nn')) + tuple(
    ('conditional', k) for k in ('ns', 'sn', 'nn')) + (('eq', 'nn'), ('neq', 'nn'))
for nm, ks in SIGS:
    if ks == 'nn':
        for al, t in ((False, 'a, b'), (True, 'a, a')):
            GOALS['C07'].append(('%s(%s)' % (nm, t), g_op(nm, ks, 'xx', al), TM, OPTS))
            for kk in ('cc',) if al else ('cc', 'cx', 'xc', 'xx'):
                GOALS['C08'].append(('%s(%s) folded %s' % (nm, t, kk), g_op(nm, ks, kk, al), TM, OPTS))
            if al:
                GOALS['C08'].append(('%s(%s) simplified' % (nm, t), g_op(nm, ks, 'xx', al), TM, OPTS))
    else:
        t = {'n': 'a', 'ns': 'a, s', 'sn': 's, a', 'nss': 'a, s, t'}[ks]
        GOALS['C07'].append(('%s(%s)' % (nm, t), g_op(nm, ks, 'x'), TM, OPTS))
        GOALS['C08'].append(('%s(%s) folded' % (nm, t), g_op(nm, ks, 'c'), TM, OPTS))
        GOALS['C08'].append(('%s(%s) simplified' % (nm, t), g_op(nm, ks, 'x'), TM, OPTS))
for nm, ks in DERIV:
    t = {'n': 'a', 'ns': 'a, s', 'sn': 's, a', 'nn': 'a, b'}[ks]
    GOALS['C12'].append(('gradient of %s(%s)' % (nm, t), g_grad(nm, ks), TM, OPTS))
    if ks == 'nn':
        GOALS['C12'].append(('gradient of %s(a, a)' % nm, g_grad(nm, ks, True), TM, OPTS))
GOALS['C08'].append(('labels tell functions apart', g_labels, [t_elem, t_range], OPTS))
GOALS['C08'].append(('formatter keeps scalars apart', g_formatter, [], {'use': (), 'tu': 'utils_tu.cpp'}))
