"""Contracts of layers, perceptrons, Boltzmann machines and belief nets (C21, C22)."""
from .lib import *
from .graph import peek
from .nodes import INO, VAR, VP, REAL, INT, BOOL, to_node, vp, c_vp, c_vp_assign
from vc.interp import Interp, inner, strip
from vc.frontend import ExtractionError

TU = 'nets_tu.cpp'
FC, MLP, RBM, DBN, ILAY = ('rocnnet::' + x for x in ('fc_layer', 'mlp', 'rbm', 'db_net', 'ilayer'))
SINT = ('int', 64, True)
PVAR, PFC, PRBM = ('ptr', ('cls', VAR)), ('ptr', ('cls', FC)), ('ptr', ('cls', RBM))
FN = ('fn', 'function')

# ---------------------------------------------------------------- nodes: a term over these, and its value at an arbitrary element
VAL = z3.Function('value_of', I, R)
AX = z3.Function('spread', I, I, R)                    # element of a vector operand on the line of the output element (C10)
MM = z3.Function('product', I, I, B, B, I)             # C11
ADDB, ADD, SUB, MUL, DIV = (z3.Function('node_' + x, I, I, I) for x in ('addb', 'add', 'sub', 'mul', 'div'))
ADDX = z3.Function('node_axial', I, I, I, I)
UN = {k: z3.Function('node_' + k, I, I) for k in ('sigmoid', 'softmax', 'exp', 'neg', 'tanh', 'log', 'transpose')}
NUM = z3.Function('node_number', R, I)
EXP = z3.Function('m_exp', R, R)
FCX = z3.Function('fc_output', I, I, I)
UPX = z3.Function('rbm_up', I, I, I)
ACT = z3.Function('activate', I, I, I)
W = z3.Int('w!v')


def nid(ex, v):
    v = to_node(ex, v)
    if isinstance(v, VRef):
        return v.e
    if isinstance(v, VPtr) and v.lv is not None and isinstance(ex.read(v.lv), VStruct) and 'id' in ex.read(v.lv).fields:
        return ex.read(v.lv).fields['id']
    if is_z3(v):
        t = NUM(v)
        ex.assume(VAL(t) == v)
        return t
    raise Unsupported('node %r' % (v,))


def res(ex, t, val=None):
    if val is not None:
        ex.assume(VAL(t) == val)
    return vp(VRef(INO, t))


def c_bin(fn, f):
    def c(ex, this, args, n):
        a, b = [nid(ex, x) for x in args if x is not None]
        return res(ex, fn(a, b), f(VAL(a), VAL(b)))
    return c


def c_minus(ex, this, args, n):
    args = [a for a in args if a is not None]
    if len(args) == 1:
        a = nid(ex, args[0])
        return res(ex, UN['neg'](a), -VAL(a))
    return c_bin(SUB, lambda a, b: a - b)(ex, this, args, n)


def c_un(k, f=None):
    def c(ex, this, args, n):
        a = nid(ex, args[0])
        return res(ex, UN[k](a), f(VAL(a)) if f else None)
    return c


def flag(ex, args, k):
    return as_bool(ex.rv(args[k])) if len(args) > k and args[k] is not None else z3.BoolVal(False)


def untr(t, f):
    """product with a transposed operand is the transposed product"""
    while z3.is_app(t) and t.decl().eq(UN['transpose']):
        t, f = t.arg(0), z3.simplify(z3.Not(f))
    return t, f


def c_matmul(ex, this, args, n):
    (a, fa), (b, fb) = untr(nid(ex, args[0]), flag(ex, args, 2)), untr(nid(ex, args[1]), flag(ex, args, 3))
    return res(ex, MM(a, b, fa, fb))


def c_axial(which):
    def c(ex, this, args, n):
        a, b, k = nid(ex, args[0]), nid(ex, args[1]), as_int(ex.rv(args[2]))
        if which == 'a':
            a, b = b, a
        return res(ex, ADDX(a, b, k), VAL(a) + AX(b, k))
    return c


def sig(x):
    return 1 / (1 + EXP(-x))


CONTRACTS = {
    'nnet::operator+': c_bin(ADD, lambda a, b: a + b), 'nnet::operator*': c_bin(MUL, lambda a, b: a * b), 'nnet::operator/': c_bin(DIV, lambda a, b: a / b),
    'nnet::operator-': c_minus, 'nnet::sigmoid': c_un('sigmoid', sig), 'nnet::exp': c_un('exp', EXP), 'nnet::softmax': c_un('softmax'),
    'nnet::tanh': c_un('tanh'), 'nnet::log': c_un('log'), 'nnet::transpose': c_un('transpose'), 'nnet::matmul': c_matmul,
    'nnet::add_axial_b': c_axial('b'), 'nnet::add_axial_a': c_axial('a'), VP + '::(ctor)': c_vp, VP + '::operator=': c_vp_assign,
}


# ---------------------------------------------------------------- objects on the heap: identities, and what each was made from
def gh(ex, k):
    return ex.ghost['cells'][k]


def setup(ex):
    base = ex.fresh('first_new', I)
    ex.assume(base >= 1)
    arr = lambda name, v: ex.new_cell(VVec(SINT, iv(2 ** 62), [z3.K(I, iv(v))]), ('vec', SINT))
    c = {'next': ex.new_cell(base, SINT), 'src': arr('src', 0), 'del': arr('del', 0), 'hollow': arr('hollow', 0),
         'rank': arr('rank', -1), 'd0': arr('d0', 0), 'd1': arr('d1', 0), 'kind': arr('kind', 0), 'in': arr('in', 0), 'out': arr('out', 0)}
    c['lo'] = ex.new_cell(VVec(REAL, iv(2 ** 62), [z3.K(I, z3.RealVal(0))]), ('vec', REAL))
    c['hi'] = ex.new_cell(VVec(REAL, iv(2 ** 62), [z3.K(I, z3.RealVal(0))]), ('vec', REAL))
    ex.ghost.update(cells=c, base=base)
    return base


def now(ex, k):
    v = ex.read(gh(ex, k))
    return v.leaves[0] if isinstance(v, VVec) else v


def fresh_id(ex, cls, **kw):
    t = ex.read(gh(ex, 'next'))
    ex.write(gh(ex, 'next'), z3.simplify(t + 1))
    for k, v in kw.items():
        ex.write(gh(ex, k).i(t), v)
    return VRef(cls, t)


def alive(ex, p, what):
    e = p.e if isinstance(p, VRef) else None
    if e is None:
        raise Unsupported('%s of %r' % (what, p))
    ex.prove(z3.And(e != 0, z3.Select(now(ex, 'del'), e) == 0), 'no use of a deleted object')
    return e


def c_clone(cls):
    def c(ex, this, args, n):
        if not isinstance(this, VRef):
            return NotImplemented
        return fresh_id(ex, cls, src=alive(ex, this, 'clone'))
    return c


def c_move(cls):
    def c(ex, this, args, n):
        if not isinstance(this, VRef):
            return NotImplemented
        e = alive(ex, this, 'move')
        r = fresh_id(ex, cls, src=e)
        ex.write(gh(ex, 'hollow').i(e), iv(1))
        return r
    return c


def c_label(ex, this, args, n):
    if isinstance(this, VRef) and this.cls == VAR:
        alive(ex, this, 'set_label')
    return VOIDV


class ShapeV(VStruct):
    pass


def c_shape_ctor(ex, cls, args, n):
    if not args:
        return VStruct('shape', {'dims': None})
    v = ex.rv(args[0])
    if isinstance(v, VStruct) and v.cls == 'shape':
        return v
    return VStruct('shape', {'dims': ex.to_vvec(v)})


def c_init_ctor(kind):
    def c(ex, cls, args, n):
        a = [as_real(ex.rv(x)) for x in args if x is not None]
        if len(a) != (1 if kind == 1 else 2):
            raise Unsupported('initialiser')
        return VStruct('initialiser', {'kind': iv(kind), 'lo': a[0], 'hi': a[-1]})
    return c


def c_var_ctor(ex, cls, args, n):
    sh, ini = ex.rv(args[0]), ex.rv(args[1])
    d = sh.fields['dims']
    f = ini.fields
    return fresh_id(ex, VAR, rank=d.n, d0=d.leaves[0][0], d1=d.leaves[0][1], kind=f['kind'], lo=f['lo'], hi=f['hi'])


def c_fc_ctor(ex, cls, args, n):
    v = ex.to_vvec(ex.rv(args[0]))
    ex.prove(v.n == 1, 'a perceptron layer has one input')
    return fresh_id(ex, FC, **{'in': v.leaves[0][0], 'out': as_int(ex.rv(args[1]))})


def c_rbm_ctor(ex, cls, args, n):
    return fresh_id(ex, RBM, **{'in': as_int(ex.rv(args[0])), 'out': as_int(ex.rv(args[1]))})


def c_fc_call(ex, this, args, n):
    e = alive(ex, this, 'call')
    v = ex.to_vvec(ex.rv(args[0]))
    ex.prove(v.n >= 1, 'a layer is given its input')
    return res(ex, FCX(e, v.leaves[0][0]))


def c_rbm_up(ex, this, args, n):
    return res(ex, UPX(alive(ex, this, 'prop_up'), nid(ex, args[0])))


def c_vars(ex, this, args, n):
    e = alive(ex, this, 'get_variables')
    cnt, arr = ex.ghost['nvars'], ex.ghost['varsof']
    v = VVec(PVAR, cnt(e), [arr(e)])
    return v


def c_in_shape(ex, this, args, n):
    return VStruct('shape', {'dims': None})


def c_compat(ex, this, args, n):
    """the caller passes an input whose shape is n_input by a batch"""
    o = ex.rv(args[0]).fields['dims']
    ex.prove(z3.And(o.n == 2, o.leaves[0][0] == ex.ghost['n_input'], o.leaves[0][1] == 0), 'asks of the input only its number of rows')
    return z3.BoolVal(True)


CONTRACTS.update({
    VAR + '::clone': c_clone(VAR), VAR + '::move': c_move(VAR), VAR + '::(ctor)': c_var_ctor,
    'nnet::inode<double>::set_label': c_label, 'nnet::tensorshape::(ctor)': c_shape_ctor,
    'nnet::const_init<double>::(ctor)': c_init_ctor(1), 'nnet::rand_uniform<double>::(ctor)': c_init_ctor(2),
})
BASE = tuple(CONTRACTS)
LAYERS = {
    FC + '::clone': c_clone(FC), FC + '::(ctor)': c_fc_ctor, FC + '::operator()': c_fc_call, FC + '::get_variables': c_vars,
    RBM + '::clone': c_clone(RBM), RBM + '::(ctor)': c_rbm_ctor, RBM + '::prop_up': c_rbm_up, RBM + '::get_variables': c_vars,
    'nnet::inode<double>::get_shape': c_in_shape, 'nnet::tensorshape::is_compatible_with': c_compat,
}
CONTRACTS.update(LAYERS)
UL = BASE + tuple(LAYERS)


class NetsInterp(Interp):
    def hook_member(self, obj, arrow, name, q, argn, n):
        if isinstance(obj, LV):
            x = self.read(obj)
            if isinstance(x, VStruct) and x.cls == VP and (name.startswith('operator') and name != 'operator=' or name == 'get'):
                return x.fields['node']
        return super().hook_member(obj, arrow, name, q, argn, n)

    def hook_operator(self, name, did, argn, n):
        if name in ('operator->', 'operator*') and len(argn) == 1:
            x = self.rv(self.ev(argn[0]))
            if isinstance(x, VStruct) and x.cls == VP:
                return x.fields['node']
            if isinstance(x, VStruct):
                raise Unsupported('dereferenced twice')
        return super().hook_operator(name, did, argn, n)

    def hook_new(self, cls, e, n):
        v = self.E(e) if e is not None else None
        if isinstance(v, VRef):
            return v
        if v is None:
            return NotImplemented
        return VPtr(self.new_cell(v, ('cls', cls)))

    def hook_delete(self, p, n):
        if not isinstance(p, VRef):
            raise Unsupported('delete of %r' % (p,))
        if self.decide(p.e == 0):
            return VOIDV
        d = gh(self, 'del')
        self.prove(z3.Select(now(self, 'del'), p.e) == 0, 'nothing is deleted twice')
        self.write(d.i(p.e), iv(1))
        return VOIDV

    def call_opaque(self, f, args, node):
        if is_z3(f) and z3.is_int(f):
            return res(self, ACT(f, nid(self, args[0])))
        return super().call_opaque(f, args, node)


INTERP = NetsInterp


def anystr(ex, name):
    return ex.new_cell(ex.fresh_val(('str', 'string'), name), ('str', 'string'))


def call(ex, cls, lv, name, args=(), sig=None):
    d = ex.find_method(cls, name, len(args), sig)
    if d is None:
        raise ExtractionError('no definition of %s::%s' % (cls, name))
    return ex.call_def(d, VPtr(lv), list(args), None)


def obj(ex, cls, **fields):
    f = {'scope_': ex.fresh_val(('str', 'string'), 'scope')}
    f.update(fields)
    return ex.new_cell(VStruct(cls, f), ('cls', cls))


_own = [0]


def owned(ex, v, ptrs, tag):
    """the pointer leaves of v are distinct live objects that nothing else owns"""
    n = ex.ghost['nown'] = ex.ghost.get('nown', 0) + 1
    pos, own = z3.Function('pos%d' % n, I, I), ex.ghost['own']
    k = len(ptrs)
    for i, p in enumerate(ptrs):
        a = v.leaves[p]
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < v.n), z3.And(
            a[J] > 0, a[J] < ex.ghost['base'], pos(a[J]) == k * J + i, own(a[J]) == n)), patterns=[a[J]]))
    ex.assume(v.n >= 0)
    return n


def start(ex):
    b = setup(ex)
    ex.ghost['own'] = z3.Function('owner', I, I)
    ex.ghost['watch'] = []
    return b


def mkvec(ex, ty, ptrs, name):
    v = ex.fresh_val(('vec', ty), name)
    owned(ex, v, ptrs, name)
    return v


WB = ('pair', PVAR, PVAR)
FCP = ('pair', PFC, FN)


# ---------------------------------------------------------------- loop templates
def vecs2(L):
    ex = L.ex
    for nm, lv in L.vecs:
        v = peek(ex, lv)
        if isinstance(v, (VVec, VList)) and v.ety[0] in ('pair', 'ptr'):
            yield nm, (lambda lv=lv: ex.to_vvec(ex.read(lv))), lv, L.is_mod(lv)


def t_copy(L):
    """entries made so far are fresh copies of the entries of another vector"""
    ex = L.ex
    if 'cells' not in ex.ghost:
        return
    base = ex.ghost['base']
    yield 'next>=base', lambda: ex.read(gh(ex, 'next')) >= base
    yield 'old not made', lambda: all_j(z3.Implies(J < base, now(ex, 'src')[J] == 0), now(ex, 'src')[J])
    for dname in ('del', 'hollow'):
        yield 'frame ' + dname, lambda d=dname: all_j(z3.Implies(J >= base, now(ex, d)[J] == 0), now(ex, d)[J])
        if L.is_mod(gh(ex, dname)):
            continue
    for nm, cur, lv, mod in vecs2(L):
        if not mod:
            continue
        for l in range(len(cur().leaves)):
            if cur().leaves[l].sort().range() != I:
                continue
            yield 'fresh %s.%d' % (nm, l), lambda cur=cur, l=l: all_j(z3.Implies(
                z3.And(0 <= J, J < cur().n), z3.And(cur().leaves[l][J] >= base, cur().leaves[l][J] < ex.read(gh(ex, 'next')))), cur().leaves[l][J])
            for onm, ocur, olv, omod in vecs2(L):
                if omod or len(ocur().leaves) <= l:
                    continue
                yield 'copies %s.%d %s' % (nm, l, onm), lambda cur=cur, ocur=ocur, l=l: all_j(z3.Implies(
                    z3.And(0 <= J, J < cur().n), now(ex, 'src')[cur().leaves[l][J]] == ocur().leaves[l][J]), cur().leaves[l][J])
                yield 'same %s.%d %s' % (nm, l, onm), lambda cur=cur, ocur=ocur, l=l: all_j(z3.Implies(
                    z3.And(0 <= J, J < cur().n), cur().leaves[l][J] == ocur().leaves[l][J]), cur().leaves[l][J])
        for kn, k in L.int_terms(None):
            yield 'len %s %s' % (nm, kn), lambda cur=cur, k=k: cur().n == k()


def t_delete(L):
    """entries visited so far are deleted, nothing else is"""
    ex = L.ex
    if 'cells' not in ex.ghost or not L.is_mod(gh(ex, 'del')):
        return
    own = ex.ghost['own']
    before = L.old(gh(ex, 'del'))
    for nm, cur, lv, mod in vecs2(L):
        if mod:
            continue
        for l in range(len(cur().leaves)):
            for kn, k in L.int_terms(True):
                yield 'deleted %s.%d %s' % (nm, l, kn), lambda cur=cur, l=l, k=k: z3.ForAll([J], z3.Implies(
                    z3.And(0 <= J, J < cur().n), now(ex, 'del')[cur().leaves[l][J]] == z3.If(J < k(), iv(1), iv(0))), patterns=[cur().leaves[l][J]])
    for o in range(1, ex.ghost.get('nown', 0) + 1):
        yield 'others %d' % o, lambda o=o: z3.ForAll([J], z3.Implies(own(J) != o, now(ex, 'del')[J] == before.leaves[0][J]), patterns=[now(ex, 'del')[J]])


def t_vp(specs):
    """nodes built so far: value (sum) or term (stack) after k steps"""
    def t(L):
        ex = L.ex
        for nm, lv in L.lvs():
            v = peek(ex, lv)
            if not L.is_mod(lv) and not L.is_mod(lv.f('node')):
                continue
            if isinstance(v, VStruct) and v.cls == VP and isinstance(v.fields['node'], VRef):
                get = lambda lv=lv: ex.read(lv).fields['node'].e
            elif isinstance(v, VRef):
                get = lambda lv=lv: ex.read(lv).e
            else:
                continue
            for s in specs(ex):
                for kn, k in L.int_terms(None):
                    yield 'node %s %s %s' % (nm, s[0], kn), lambda get=get, f=s[1], k=k: f(get(), k())
    return t


# ---------------------------------------------------------------- fully connected layer
def mk_fc(ex, name):
    return obj(ex, FC, weights_n_bias_=mkvec(ex, WB, (0, 1), name))


def wb(ex, lv):
    return ex.to_vvec(ex.read(lv).fields['weights_n_bias_'])


def g_fc_call(ex):
    start(ex)
    l = mk_fc(ex, 'weights')
    v = wb(ex, l)
    ins = ex.fresh_val(('vec', ('ptr', ('cls', INO))), 'inputs')
    ex.assume(z3.And(v.n >= 1, ins.n >= v.n))
    S = z3.Function('sum_of_inputs', I, R)
    w, b, i = v.leaves[0], v.leaves[1], ins.leaves[0]
    F = z3.BoolVal(False)
    step = lambda j: S(j + 1) == S(j) + (VAL(MM(i[j], w[j], F, F)) + AX(b[j], iv(1)))
    ex.assume(S(iv(0)) == 0)
    ex.assume(step(iv(0)))
    ex.assume(z3.ForAll([J], z3.Implies(J >= 0, step(J)), patterns=[w[J]]))
    ex.ghost['S'] = S
    r = ex.rv(call(ex, FC, l, 'operator()', [ex.new_cell(ins, ('vec', ('ptr', ('cls', INO))))]))
    ex.prove(VAL(nid(ex, r)) == S(v.n), 'a layer computes the sum over its inputs of input times weight plus bias')
    same_vec(ex, v, wb(ex, l), 'computing keeps the parameters')


def same_vec(ex, a, b, what):
    ex.prove(a.n == b.n, what)
    for x, y in zip(a.leaves, b.leaves):
        ex.prove(forall(0, a.n, lambda j: x[j] == y[j]), what)


def t_sum(ex):
    if 'S' in ex.ghost:
        yield 'sum', lambda e, k: VAL(e) == ex.ghost['S'](k)


def untouched(ex, n, v, what):
    """what belongs to owner n is alive and as it was"""
    for l in v.leaves:
        if l.sort().range() == I:
            ex.prove(forall(0, v.n, lambda j: z3.Or(ex.ghost['own'](l[j]) != n, z3.And(now(ex, 'del')[l[j]] == 0, now(ex, 'hollow')[l[j]] == 0))), what)


def copied(ex, a, b, ptrs, what):
    """b holds fresh copies of a's objects"""
    ex.prove(a.n == b.n, what + ': as many as the original')
    for p in ptrs:
        x, y = a.leaves[p], b.leaves[p]
        ex.prove(forall(0, a.n, lambda j: now(ex, 'src')[y[j]] == x[j]), what + ': each a copy of the original\'s')
        ex.prove(forall(0, a.n, lambda j: z3.And(y[j] >= ex.ghost['base'], now(ex, 'del')[y[j]] == 0)), what + ': of its own')
    for k in range(len(a.leaves)):
        if k not in ptrs and a.leaves[k].sort().range() == I:
            ex.prove(forall(0, a.n, lambda j: a.leaves[k][j] == b.leaves[k][j]), what + ': same functions')


def emptied(ex, v, what):
    ex.prove(ex.to_vvec(v).n == 0, what)


def g_fc_clone(ex):
    start(ex)
    l = mk_fc(ex, 'weights')
    v = wb(ex, l)
    p = ex.rv(call(ex, FC, l, 'clone', [anystr(ex, 'name')]))
    ok(ex, p, l, FC, 'layer copy')
    copied(ex, v, wb(ex, p.lv), (0, 1), 'layer copy')
    same_vec(ex, v, wb(ex, l), 'layer copy: the original keeps its parameters')
    untouched(ex, 1, v, 'layer copy: the original keeps its parameters')


def ok(ex, p, l, cls, what):
    good = isinstance(p, VPtr) and p.lv is not None and p.lv.key() != l.key() and isinstance(ex.read(p.lv), VStruct) and ex.read(p.lv).cls == cls
    ex.prove(bool(good), what + ': another object of the same kind')
    if not good:
        raise Unsupported(what)


def g_fc_move(ex):
    start(ex)
    l = mk_fc(ex, 'weights')
    v = wb(ex, l)
    p = ex.rv(call(ex, FC, l, 'move'))
    ok(ex, p, l, FC, 'layer move')
    same_vec(ex, v, wb(ex, p.lv), 'layer move: takes the parameters over')
    emptied(ex, ex.read(l).fields['weights_n_bias_'], 'layer move: leaves none behind')
    untouched(ex, 1, v, 'layer move: destroys nothing')


def deleted(ex, v, ptrs, what):
    for p in ptrs:
        ex.prove(forall(0, v.n, lambda j: now(ex, 'del')[v.leaves[p][j]] == 1), what)


def g_fc_assign(ex):
    start(ex)
    a, b = mk_fc(ex, 'mine'), mk_fc(ex, 'theirs')
    va, vb = wb(ex, a), wb(ex, b)
    assign(ex, FC, a, b, False)
    copied(ex, vb, wb(ex, a), (0, 1), 'layer assignment')
    deleted(ex, va, (0, 1), 'layer assignment: the parameters it had are gone')
    same_vec(ex, vb, wb(ex, b), 'layer assignment: the original keeps its parameters')
    untouched(ex, 2, vb, 'layer assignment: the original keeps its parameters')


def method(ex, cls, name, nargs, pick=None):
    for m in ex.ast.methods(cls, name):
        d = ex.ast.definition(m['id'])
        if d is not None and len(d['_params']) == nargs and (pick is None or pick(m['type']['qualType'])):
            return d
    raise ExtractionError('no definition of %s::%s' % (cls, name))


def assign(ex, cls, a, b, moving):
    d = method(ex, cls, 'operator=', 1, lambda t: ('&&' in t) == moving)
    return ex.call_def(d, VPtr(a), [b], None)


def g_fc_move_assign(ex):
    start(ex)
    a, b = mk_fc(ex, 'mine'), mk_fc(ex, 'theirs')
    va, vb = wb(ex, a), wb(ex, b)
    assign(ex, FC, a, b, True)
    same_vec(ex, vb, wb(ex, a), 'layer move assignment: takes the parameters over')
    emptied(ex, ex.read(b).fields['weights_n_bias_'], 'layer move assignment: leaves none behind')
    deleted(ex, va, (0, 1), 'layer move assignment: the parameters it had are gone')
    untouched(ex, 2, vb, 'layer move assignment: destroys none of them')


def g_fc_self(ex):
    start(ex)
    a = mk_fc(ex, 'mine')
    va = wb(ex, a)
    assign(ex, FC, a, a, bool(ex.choose(2)))
    same_vec(ex, va, wb(ex, a), 'layer self assignment changes nothing')
    untouched(ex, 1, va, 'layer self assignment destroys nothing')


def g_fc_dtor(ex):
    start(ex)
    a, b = mk_fc(ex, 'mine'), mk_fc(ex, 'theirs')
    va, vb = wb(ex, a), wb(ex, b)
    call(ex, FC, a, '~fc_layer')
    deleted(ex, va, (0, 1), 'layer destruction deletes its parameters')
    untouched(ex, 2, vb, 'layer destruction leaves other layers alone')


def g_fc_vars(ex):
    start(ex)
    a = mk_fc(ex, 'mine')
    va = wb(ex, a)
    r = ex.to_vvec(ex.rv(call(ex, FC, a, 'get_variables')))
    ex.prove(r.n == 2 * va.n, 'layer variables: all of them, once')
    for p in (0, 1):
        ex.prove(forall(0, va.n, lambda j: r.leaves[0][2 * j + p] == va.leaves[p][j]), 'layer variables: weight and bias of each input in turn')
    same_vec(ex, va, wb(ex, a), 'layer variables: keeps the parameters')


def t_interleave(L):
    """a vector collects the leaves of another one in turn"""
    ex = L.ex
    for nm, cur, lv, mod in vecs2(L):
        if not mod:
            continue
        for onm, ocur, olv, omod in vecs2(L):
            w = len(ocur().leaves)
            if omod or w < 2 or len(cur().leaves) != 1:
                continue
            for kn, k in L.int_terms(True):
                yield 'len %s %d*%s' % (nm, w, kn), lambda cur=cur, k=k, w=w: cur().n == w * k()
                for p in range(w):
                    yield 'turn %s %s.%d %s' % (nm, onm, p, kn), lambda cur=cur, ocur=ocur, p=p, w=w, k=k: z3.ForAll(
                        [J], z3.Implies(z3.And(0 <= J, J < k()), cur().leaves[0][w * J + p] == ocur().leaves[p][J]), patterns=[ocur().leaves[p][J]])


def g_fc_ctor(ex):
    start(ex)
    ins = ex.fresh_val(('vec', INT), 'n_inputs')
    ex.assume(ins.n >= 0)
    ex.assume(forall(0, ins.n, lambda j: ins.leaves[0][j] >= 1, lambda j: [ins.leaves[0][j]]))
    out = ex.fresh('n_output', I)
    ex.assume(out >= 1)
    ex.ghost['sizes'] = (ins, out)
    d = method(ex, FC, 'fc_layer', 3)
    l = ex.new_cell(VStruct(FC, {f['name']: None for f in ex.ast.fields(FC)}), ('cls', FC))
    ex.run_ctor(FC, d, l, [ex.new_cell(ins, ('vec', INT)), ex.new_cell(out, INT), anystr(ex, 'scope')], None)
    v = wb(ex, l)
    ex.prove(v.n == ins.n, 'layer: weight and bias for each input')
    for nm, f in sizes(ex):
        ex.prove(forall(0, v.n, lambda j: f(v.leaves[0][j], v.leaves[1][j], j)), 'layer: ' + nm)
    x = v.leaves
    K = z3.Int('k!v')
    inr = z3.And(0 <= J, J < v.n, 0 <= K, K < v.n)
    for a, b, same in ((0, 0, False), (1, 1, False), (0, 1, True)):
        ex.prove(z3.ForAll([J, K], z3.Implies(z3.And(inr, z3.BoolVal(same) if same else J != K), x[a][J] != x[b][K])), 'layer: all parameters are variables of their own')


def sizes(ex):
    ins, out = ex.ghost['sizes']
    n = lambda k: now(ex, k)
    yield 'weights are outputs by inputs', lambda w, b, j: z3.And(n('rank')[w] == 2, n('d0')[w] == out, n('d1')[w] == ins.leaves[0][j])
    yield 'biases have one element per output', lambda w, b, j: z3.And(n('rank')[b] == 1, n('d0')[b] == out)
    yield 'biases start at zero', lambda w, b, j: z3.And(n('kind')[b] == 1, n('lo')[b] == 0)
    yield 'weights start in a range', lambda w, b, j: z3.And(n('kind')[w] == 2, n('lo')[w] <= n('hi')[w])


def t_ctor(L):
    ex = L.ex
    if 'sizes' not in ex.ghost:
        return
    base = ex.ghost['base']
    nxt = lambda: ex.read(gh(ex, 'next'))
    for nm, cur, lv, mod in vecs2(L):
        if not mod or len(cur().leaves) != 2:
            continue
        for kn, k in L.int_terms(True):
            yield 'next %s' % kn, lambda k=k: nxt() == base + 2 * k()
            yield 'len %s %s' % (nm, kn), lambda cur=cur, k=k: cur().n == k()
        for p in (0, 1):
            for c in (0, 1):
                yield 'id %s.%d %d' % (nm, p, c), lambda cur=cur, p=p, c=c: all_j(z3.Implies(
                    z3.And(0 <= J, J < cur().n), cur().leaves[p][J] == base + 2 * J + c), cur().leaves[p][J])
        for sn, f in sizes(ex):
            yield 'size %s %s' % (nm, sn), lambda cur=cur, f=f: z3.ForAll([J], z3.Implies(
                z3.And(0 <= J, J < cur().n), f(cur().leaves[0][J], cur().leaves[1][J], J)), patterns=[cur().leaves[0][J], cur().leaves[1][J]])


# ---------------------------------------------------------------- perceptron
def mk_mlp(ex, name):
    a, b = ex.fresh('n_input', I), ex.fresh('n_output', I)
    ex.assume(z3.And(a >= 1, b >= 1))
    return obj(ex, MLP, n_input_=a, n_output_=b, layers_=mkvec(ex, FCP, (0,), name))


def layers(ex, lv):
    return ex.to_vvec(ex.read(lv).fields['layers_'])


def same_sizes(ex, f, g, names, what):
    for k in names:
        ex.prove(f[k] == g[k], what)


def g_mlp_up(ex):
    start(ex)
    m = mk_mlp(ex, 'layers')
    f = ex.read(m).fields
    v = layers(ex, m)
    x = ex.fresh('input', I)
    ex.assume(x > 0)
    OUT = z3.Function('after_layers', I, I)
    step = lambda j: OUT(j + 1) == ACT(v.leaves[1][j], FCX(v.leaves[0][j], OUT(j)))
    ex.assume(OUT(iv(0)) == x)
    ex.assume(z3.ForAll([J], z3.Implies(J >= 0, step(J)), patterns=[v.leaves[0][J]]))
    ex.ghost.update(OUT=OUT, n_input=f['n_input_'])
    r = ex.rv(call(ex, MLP, m, 'prop_up', [VRef(INO, x)]))
    ex.prove(nid(ex, r) == OUT(v.n), 'a perceptron applies its layers and nonlinearities in order')
    same_vec(ex, v, layers(ex, m), 'propagating keeps the layers')
    untouched(ex, 1, v, 'propagating keeps the layers')


def t_out(ex):
    if 'OUT' in ex.ghost:
        yield 'out', lambda e, k: e == ex.ghost['OUT'](k)


NM = ('n_input_', 'n_output_')


def g_comp_clone(ex, cls, mk, tag, finish=None):
    start(ex)
    m = mk(ex, 'layers')
    f, v = ex.read(m).fields, layers(ex, m)
    p = ex.rv(call(ex, cls, m, 'clone', [anystr(ex, 'name')]))
    ok(ex, p, m, cls, tag)
    copied(ex, v, layers(ex, p.lv), (0,), tag)
    same_sizes(ex, f, ex.read(p.lv).fields, NM, tag + ': same sizes')
    same_vec(ex, v, layers(ex, m), tag + ': the original keeps its layers')
    untouched(ex, 1, v, tag + ': the original keeps its layers')
    if finish:
        finish(ex, f, m, p.lv, None, tag, False)


def g_comp_move(ex, cls, mk, tag, finish=None):
    start(ex)
    m = mk(ex, 'layers')
    f, v = ex.read(m).fields, layers(ex, m)
    p = ex.rv(call(ex, cls, m, 'move'))
    ok(ex, p, m, cls, tag)
    same_vec(ex, v, layers(ex, p.lv), tag + ': takes the layers over')
    same_sizes(ex, f, ex.read(p.lv).fields, NM, tag + ': same sizes')
    emptied(ex, ex.read(m).fields['layers_'], tag + ': leaves none behind')
    untouched(ex, 1, v, tag + ': destroys nothing')
    if finish:
        finish(ex, f, m, p.lv, None, tag, True)


def g_comp_assign(ex, cls, mk, moving, tag, finish=None):
    start(ex)
    a, b = mk(ex, 'mine'), mk(ex, 'theirs')
    va, vb, fa, f = layers(ex, a), layers(ex, b), ex.read(a).fields, ex.read(b).fields
    assign(ex, cls, a, b, moving)
    if moving:
        same_vec(ex, vb, layers(ex, a), tag + ': takes the layers over')
        emptied(ex, ex.read(b).fields['layers_'], tag + ': leaves none behind')
    else:
        copied(ex, vb, layers(ex, a), (0,), tag)
        same_vec(ex, vb, layers(ex, b), tag + ': the original keeps its layers')
    same_sizes(ex, f, ex.read(a).fields, NM, tag + ': same sizes')
    deleted(ex, va, (0,), tag + ': the layers it had are gone')
    untouched(ex, 2 if cls == MLP else 3, vb, tag + ': the layers of the original are not destroyed')
    if finish:
        finish(ex, f, b, a, fa, tag, moving)


def g_comp_self(ex, cls, mk, tag, finish=None):
    start(ex)
    a = mk(ex, 'mine')
    va, f = layers(ex, a), ex.read(a).fields
    assign(ex, cls, a, a, bool(ex.choose(2)))
    same_vec(ex, va, layers(ex, a), tag + ' changes nothing')
    same_sizes(ex, f, ex.read(a).fields, NM, tag + ' changes nothing')
    untouched(ex, 1, va, tag + ' destroys nothing')
    if finish:
        ex.prove(logid(ex, ex.read(a).fields) == logid(ex, f), tag + ' changes nothing')
        ex.prove(now(ex, 'del')[logid(ex, f)] == 0, tag + ' destroys nothing')


def g_comp_dtor(ex, cls, mk, tag, log=False):
    start(ex)
    a, b = mk(ex, 'mine'), mk(ex, 'theirs')
    va, vb, fa, fb = layers(ex, a), layers(ex, b), ex.read(a).fields, ex.read(b).fields
    call(ex, cls, a, '~' + cls.split('::')[1])
    deleted(ex, va, (0,), tag + ' deletes its layers')
    untouched(ex, 3 if log else 2, vb, tag + ' leaves other models alone')
    if log:
        ex.prove(now(ex, 'del')[logid(ex, fa)] == 1, tag + ' deletes its output layer')
        ex.prove(now(ex, 'del')[logid(ex, fb)] == 0, tag + ' leaves other models alone')


def g_comp_vars(ex, cls, mk, tag, log=False):
    start(ex)
    m = mk(ex, 'layers')
    v = layers(ex, m)
    NV, VARS, OFF = z3.Function('number_of_variables', I, I), z3.Function('variables_of', I, z3.ArraySort(I, I)), z3.Function('first_variable', I, I)
    l = v.leaves[0]
    ex.assume(z3.ForAll([J], NV(J) >= 0, patterns=[NV(J)]))
    ex.assume(OFF(iv(0)) == 0)
    ex.assume(z3.ForAll([J], z3.Implies(J >= 0, OFF(J + 1) == OFF(J) + NV(l[J])), patterns=[NV(l[J])]))
    ex.ghost.update(nvars=NV, varsof=VARS, OFF=OFF, layersof=v)
    r = ex.to_vvec(ex.rv(call(ex, cls, m, 'get_variables')))
    tot = OFF(v.n)
    K = z3.Int('k!v')
    ex.prove(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < v.n, 0 <= K, K < NV(l[J])), r.leaves[0][OFF(J) + K] == VARS(l[J])[K])), tag + ': those of every layer in order')
    if log:
        e = logid(ex, ex.read(m).fields)
        ex.prove(z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < NV(e)), r.leaves[0][tot + K] == VARS(e)[K])), tag + ': then those of the output layer')
        tot = tot + NV(e)
    ex.prove(r.n == tot, tag + ': nothing else')


def t_vars(L):
    ex = L.ex
    if 'OFF' not in ex.ghost:
        return
    NV, VARS, OFF, l = ex.ghost['nvars'], ex.ghost['varsof'], ex.ghost['OFF'], ex.ghost['layersof'].leaves[0]
    K = z3.Int('k!v')
    for nm, cur, lv, mod in vecs2(L):
        if not mod:
            continue
        for kn, k in L.int_terms(True):
            yield 'len %s %s' % (nm, kn), lambda cur=cur, k=k: cur().n == OFF(k())
            yield 'room %s %s' % (nm, kn), lambda cur=cur, k=k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), z3.And(OFF(J) >= 0, OFF(J) + NV(l[J]) <= cur().n)), patterns=[NV(l[J])])
            yield 'vars %s %s' % (nm, kn), lambda cur=cur, k=k: z3.ForAll([J, K], z3.Implies(
                z3.And(0 <= J, J < k(), 0 <= K, K < NV(l[J])), cur().leaves[0][OFF(J) + K] == VARS(l[J])[K]), patterns=[VARS(l[J])[K]])


def g_mlp_ctor(ex):
    base = start(ex)
    h = ex.fresh_val(('vec', ('pair', INT, FN)), 'hiddens')
    n0 = ex.fresh('n_input', I)
    ex.assume(z3.And(h.n >= 1, n0 >= 1))
    ex.assume(forall(0, h.n, lambda j: h.leaves[0][j] >= 1, lambda j: [h.leaves[0][j]]))
    ex.ghost['stack'] = (n0, h.leaves[0], h.leaves[1])
    d = method(ex, MLP, 'mlp', 3)
    l = ex.new_cell(VStruct(MLP, {f['name']: None for f in ex.ast.fields(MLP)}), ('cls', MLP))
    ex.ghost['made'] = l
    ex.run_ctor(MLP, d, l, [ex.new_cell(n0, INT), ex.new_cell(h, ('vec', ('pair', INT, FN))), anystr(ex, 'scope')], None)
    f, v = ex.read(l).fields, layers(ex, l)
    ex.prove(v.n == h.n, 'perceptron: one layer for each size')
    stacked(ex, v, 'perceptron')
    ex.prove(forall(0, v.n, lambda j: v.leaves[1][j] == h.leaves[1][j]), 'perceptron: each layer with its nonlinearity')
    ex.prove(z3.And(f['n_input_'] == n0, f['n_output_'] == h.leaves[0][h.n - 1]), 'perceptron: knows its sizes')


def prevsize(ex, j):
    n0, h = ex.ghost['stack'][:2]
    return z3.If(j == 0, n0, h[j - 1])


def stacked(ex, v, tag):
    h = ex.ghost['stack'][1]
    x = v.leaves[0]
    K = z3.Int('k!v')
    ex.prove(forall(0, v.n, lambda j: z3.And(now(ex, 'in')[x[j]] == prevsize(ex, j), now(ex, 'out')[x[j]] == h[j])), tag + ': each layer takes the outputs of the one below')
    ex.prove(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < v.n, 0 <= K, K < v.n, J != K), x[J] != x[K])), tag + ': layers of its own')


def t_stack(L):
    ex = L.ex
    if 'stack' not in ex.ghost:
        return
    base = ex.ghost['base']
    n0, h = ex.ghost['stack'][:2]
    nxt = lambda: ex.read(gh(ex, 'next'))
    def told(k):
        v = ex.read(ex.ghost['made']).fields['n_output_']
        return z3.Implies(k() > 0, v == h[k() - 1] if is_z3(v) else z3.BoolVal(False))
    for kn, k in L.int_terms(True):
        yield 'next %s' % kn, lambda k=k: nxt() == base + k()
        yield 'outputs %s' % kn, lambda k=k: told(k)
        for an, a in L.int_terms(True):
            if an != kn:
                yield 'size %s %s' % (an, kn), lambda a=a, k=k: a() == prevsize(ex, k())
                yield 'size1 %s %s' % (an, kn), lambda a=a, k=k: z3.Implies(k() > 0, a() == h[k() - 1])
    for nm, cur, lv, mod in vecs2(L):
        if not mod:
            continue
        for kn, k in L.int_terms(True):
            yield 'len %s %s' % (nm, kn), lambda cur=cur, k=k: cur().n == k()
        yield 'id %s' % nm, lambda cur=cur: all_j(z3.Implies(z3.And(0 <= J, J < cur().n), cur().leaves[0][J] == base + J), cur().leaves[0][J])
        yield 'io %s' % nm, lambda cur=cur: all_j(z3.Implies(z3.And(0 <= J, J < cur().n), z3.And(
            now(ex, 'in')[cur().leaves[0][J]] == prevsize(ex, J), now(ex, 'out')[cur().leaves[0][J]] == h[J])), cur().leaves[0][J])
        if len(cur().leaves) > 1 and len(ex.ghost['stack']) > 2:
            yield 'fn %s' % nm, lambda cur=cur: all_j(z3.Implies(z3.And(0 <= J, J < cur().n), cur().leaves[1][J] == ex.ghost['stack'][2][J]), cur().leaves[1][J])


# ---------------------------------------------------------------- Boltzmann machine
PV = ('weight_', 'hbias_', 'vbias_')
NR = ('n_input_', 'n_hidden_')


def mk_rbm(ex, name):
    n = ex.ghost['nown'] = ex.ghost.get('nown', 0) + 1
    ids = [ex.fresh(name + k, I) for k in PV]
    ex.assume(z3.Distinct(*ids))
    for x in ids:
        ex.assume(z3.And(x > 0, x < ex.ghost['base'], ex.ghost['own'](x) == n))
    a, b = ex.fresh('n_input', I), ex.fresh('n_hidden', I)
    ex.assume(z3.And(a >= 1, b >= 1))
    return obj(ex, RBM, n_input_=a, n_hidden_=b, **{k: VRef(VAR, x) for k, x in zip(PV, ids)})


def pid(f, k):
    v = f[k]
    if isinstance(v, VRef):
        return v.e
    if isinstance(v, VPtr) and v.lv is None:
        return iv(0)
    raise Unsupported('parameter %r' % (v,))


def g_rbm_prop(ex, down):
    start(ex)
    m = mk_rbm(ex, 'm')
    f = ex.read(m).fields
    x = ex.fresh('input', I)
    ex.assume(x > 0)
    r = ex.rv(call(ex, RBM, m, 'prop_down' if down else 'prop_up', [VRef(INO, x)]))
    mm = MM(x, pid(f, 'weight_'), z3.BoolVal(False), z3.BoolVal(bool(down)))
    b = pid(f, 'vbias_' if down else 'hbias_')
    want = sig(VAL(mm) + AX(b, iv(1)))
    ex.prove(VAL(nid(ex, r)) == want, 'propagating down is the sigmoid of input times transposed weights plus visible bias' if down else
             'propagating up is the sigmoid of input times weights plus hidden bias')
    rbm_kept(ex, m, f, 'propagating')


def rbm_kept(ex, m, f, what):
    g = ex.read(m).fields
    for k in PV:
        ex.prove(z3.And(pid(g, k) == pid(f, k), now(ex, 'del')[pid(f, k)] == 0, now(ex, 'hollow')[pid(f, k)] == 0), what + ' keeps the parameters')
    same_sizes(ex, f, g, NR, what + ' keeps the sizes')


def rbm_copied(ex, f, lv, what):
    g = ex.read(lv).fields
    same_sizes(ex, f, g, NR, what + ': same sizes')
    for k in PV:
        e = pid(g, k)
        ex.prove(z3.And(e >= ex.ghost['base'], now(ex, 'del')[e] == 0), what + ': parameters of its own')
        ex.prove(now(ex, 'src')[e] == pid(f, k), what + ': ' + k + ' is that of the original')


def g_rbm_clone(ex, moving):
    start(ex)
    m = mk_rbm(ex, 'm')
    f = ex.read(m).fields
    p = ex.rv(call(ex, RBM, m, *(('move',) if moving else ('clone', [anystr(ex, 'name')]))))
    tag = 'machine move' if moving else 'machine copy'
    ok(ex, p, m, RBM, tag)
    if moving:
        rbm_moved(ex, f, m, p.lv, tag)
    else:
        rbm_copied(ex, f, p.lv, tag)
        rbm_kept(ex, m, f, tag + ': the original')


def rbm_moved(ex, f, m, lv, tag):
    """either takes the variables over, leaving none behind, or moves their contents into variables of its own"""
    g, h = ex.read(lv).fields, ex.read(m).fields
    same_sizes(ex, f, g, NR, tag + ': same sizes')
    for k in PV:
        e = pid(g, k)
        taken = z3.And(e == pid(f, k), pid(h, k) == 0)
        moved = z3.And(e >= ex.ghost['base'], now(ex, 'src')[e] == pid(f, k), pid(h, k) != e)
        ex.prove(z3.And(e != 0, now(ex, 'del')[e] == 0, z3.Or(taken, moved)), tag + ': ' + k + ' is that of the original')
        ex.prove(z3.Or(pid(h, k) == 0, now(ex, 'del')[pid(h, k)] == 0), tag + ': leaves no dangling parameter behind')


def g_rbm_assign(ex, moving):
    start(ex)
    a, b = mk_rbm(ex, 'a'), mk_rbm(ex, 'b')
    fa, f = ex.read(a).fields, ex.read(b).fields
    tag = 'machine move assignment' if moving else 'machine assignment'
    assign(ex, RBM, a, b, moving)
    for k in PV:
        ex.prove(now(ex, 'del')[pid(fa, k)] == 1, tag + ': the parameters it had are gone')
    if moving:
        rbm_moved(ex, f, b, a, tag)
    else:
        rbm_copied(ex, f, a, tag)
        rbm_kept(ex, b, f, tag + ': the original')


def g_rbm_self(ex):
    start(ex)
    a = mk_rbm(ex, 'a')
    f = ex.read(a).fields
    assign(ex, RBM, a, a, bool(ex.choose(2)))
    rbm_kept(ex, a, f, 'machine self assignment')


def g_rbm_dtor(ex):
    start(ex)
    a, b = mk_rbm(ex, 'a'), mk_rbm(ex, 'b')
    f, g = ex.read(a).fields, ex.read(b).fields
    call(ex, RBM, a, '~rbm')
    for k in PV:
        ex.prove(now(ex, 'del')[pid(f, k)] == 1, 'machine destruction deletes its parameters')
    rbm_kept(ex, b, g, 'machine destruction of another one')


def g_rbm_vars(ex):
    start(ex)
    a = mk_rbm(ex, 'a')
    f = ex.read(a).fields
    r = ex.to_vvec(ex.rv(call(ex, RBM, a, 'get_variables')))
    ex.prove(r.n == 3, 'machine variables: three')
    for k in PV:
        ex.prove(z3.Or(*[r.leaves[0][i] == pid(f, k) for i in range(3)]), 'machine variables: weights and both biases')
    ex.prove(z3.And(as_int(ex.rv(call(ex, RBM, a, 'get_ninput'))) == f['n_input_'], as_int(ex.rv(call(ex, RBM, a, 'get_noutput'))) == f['n_hidden_']), 'machine: knows its sizes')


def g_rbm_ctor(ex):
    base = start(ex)
    n, h = ex.fresh('n_input', I), ex.fresh('n_hidden', I)
    ex.assume(z3.And(n >= 1, h >= 1))
    d = method(ex, RBM, 'rbm', 3)
    l = ex.new_cell(VStruct(RBM, {f['name']: None for f in ex.ast.fields(RBM)}), ('cls', RBM))
    ex.run_ctor(RBM, d, l, [ex.new_cell(n, INT), ex.new_cell(h, INT), anystr(ex, 'scope')], None)
    f = ex.read(l).fields
    w, hb, vb = [pid(f, k) for k in PV]
    g = lambda k: now(ex, k)
    ex.prove(z3.And(g('rank')[w] == 2, g('d0')[w] == h, g('d1')[w] == n), 'machine: weights are hidden by visible')
    ex.prove(z3.And(g('rank')[hb] == 1, g('d0')[hb] == h), 'machine: one hidden bias per hidden unit')
    ex.prove(z3.And(g('rank')[vb] == 1, g('d0')[vb] == n), 'machine: one visible bias per visible unit')
    ex.prove(z3.And(z3.Distinct(w, hb, vb), w >= base, hb >= base, vb >= base), 'machine: variables of its own')
    ex.prove(z3.And(f['n_input_'] == n, f['n_hidden_'] == h), 'machine: knows its sizes')


# ---------------------------------------------------------------- belief net
def mk_dbn(ex, name):
    m = mk_mlp_like(ex, name)
    n = ex.ghost['nown'] = ex.ghost['nown'] + 1
    e = ex.fresh('log_layer', I)
    ex.assume(z3.And(e > 0, e < ex.ghost['base'], ex.ghost['own'](e) == n))
    ex.write(m.f('log_layer_'), VRef(FC, e))
    return m


def mk_mlp_like(ex, name):
    a, b = ex.fresh('n_input', I), ex.fresh('n_output', I)
    ex.assume(z3.And(a >= 1, b >= 1))
    return obj(ex, DBN, n_input_=a, n_output_=b, layers_=mkvec(ex, PRBM, (0,), name), log_layer_=NULL)


def logid(ex, f):
    return pid(f, 'log_layer_')


def dbn_finish(ex, f, m, lv, fa, tag, moving):
    e, o = logid(ex, ex.read(lv).fields), logid(ex, f)
    if moving:
        ex.prove(z3.And(e == o, logid(ex, ex.read(m).fields) == 0, now(ex, 'del')[o] == 0), tag + ': takes the output layer over')
    else:
        ex.prove(z3.And(e >= ex.ghost['base'], now(ex, 'src')[e] == o, now(ex, 'del')[e] == 0), tag + ': an output layer of its own, copied')
        ex.prove(z3.And(logid(ex, ex.read(m).fields) == o, now(ex, 'del')[o] == 0), tag + ': the original keeps its output layer')
    if fa is not None:
        ex.prove(now(ex, 'del')[logid(ex, fa)] == 1, tag + ': the output layer it had is gone')


def g_dbn_up(ex):
    start(ex)
    m = mk_dbn(ex, 'layers')
    f, v = ex.read(m).fields, layers(ex, m)
    x = ex.fresh('input', I)
    ex.assume(x > 0)
    OUT = z3.Function('after_layers', I, I)
    ex.assume(OUT(iv(0)) == x)
    ex.assume(z3.ForAll([J], z3.Implies(J >= 0, OUT(J + 1) == UPX(v.leaves[0][J], OUT(J))), patterns=[v.leaves[0][J]]))
    ex.ghost.update(OUT=OUT, n_input=f['n_input_'])
    r = ex.rv(call(ex, DBN, m, 'prop_up', [VRef(INO, x)]))
    ex.prove(nid(ex, r) == UN['softmax'](FCX(logid(ex, f), OUT(v.n))), 'a belief net stacks its machines in order before its output layer')
    same_vec(ex, v, layers(ex, m), 'propagating keeps the layers')


def g_dbn_ctor(ex):
    base = start(ex)
    h = ex.fresh_val(('vec', INT), 'hiddens')
    n0 = ex.fresh('n_input', I)
    ex.assume(z3.And(h.n >= 1, n0 >= 1))
    ex.assume(forall(0, h.n, lambda j: h.leaves[0][j] >= 1, lambda j: [h.leaves[0][j]]))
    ex.ghost['stack'] = (n0, h.leaves[0])
    d = method(ex, DBN, 'db_net', 3)
    l = ex.new_cell(VStruct(DBN, {f['name']: None for f in ex.ast.fields(DBN)}), ('cls', DBN))
    ex.ghost['made'] = l
    ex.run_ctor(DBN, d, l, [ex.new_cell(n0, INT), ex.new_cell(h, ('vec', INT)), anystr(ex, 'scope')], None)
    f, v = ex.read(l).fields, layers(ex, l)
    ex.prove(v.n == h.n - 1, 'belief net: a machine for each size but the last')
    stacked(ex, v, 'belief net')
    e = logid(ex, f)
    ex.prove(z3.And(now(ex, 'in')[e] == prevsize(ex, h.n - 1), now(ex, 'out')[e] == h.leaves[0][h.n - 1]), 'belief net: the output layer takes the outputs of the last machine')
    ex.prove(z3.And(f['n_input_'] == n0, f['n_output_'] == h.leaves[0][h.n - 1]), 'belief net: knows its sizes')


ob = {'use': BASE}
T = [t_range, t_copy, t_delete]
GOALS = {'C21': [
    ('fc_layer.operator()', g_fc_call, [t_range, t_vp(t_sum)], ob),
    ('fc_layer.clone', g_fc_clone, T, ob),
    ('fc_layer.move', g_fc_move, T, ob),
    ('fc_layer.operator=', g_fc_assign, T, ob),
    ('fc_layer.operator=(move)', g_fc_move_assign, T, ob),
    ('fc_layer.operator=(self)', g_fc_self, T, ob),
    ('fc_layer.~fc_layer', g_fc_dtor, T, ob),
    ('fc_layer.get_variables', g_fc_vars, [t_range, t_interleave], ob),
    ('fc_layer.fc_layer', g_fc_ctor, [t_range, t_ctor], ob),
]}
ol = {'use': UL}
GOALS['C21'] += [
    ('mlp.prop_up', g_mlp_up, [t_range, t_vp(t_out)], ol),
    ('mlp.clone', lambda ex: g_comp_clone(ex, MLP, mk_mlp, 'perceptron copy'), T, ol),
    ('mlp.move', lambda ex: g_comp_move(ex, MLP, mk_mlp, 'perceptron move'), T, ol),
    ('mlp.operator=', lambda ex: g_comp_assign(ex, MLP, mk_mlp, False, 'perceptron assignment'), T, ol),
    ('mlp.operator=(move)', lambda ex: g_comp_assign(ex, MLP, mk_mlp, True, 'perceptron move assignment'), T, ol),
    ('mlp.operator=(self)', lambda ex: g_comp_self(ex, MLP, mk_mlp, 'perceptron self assignment'), T, ol),
    ('mlp.~mlp', lambda ex: g_comp_dtor(ex, MLP, mk_mlp, 'perceptron destruction'), T, ol),
    ('mlp.get_variables', lambda ex: g_comp_vars(ex, MLP, mk_mlp, 'perceptron variables'), [t_range, t_vars], ol),
    ('mlp.mlp', g_mlp_ctor, [t_range, t_stack], ol),
]
GOALS['C22'] = [
    ('rbm.prop_up', lambda ex: g_rbm_prop(ex, 0), [], ob),
    ('rbm.prop_down', lambda ex: g_rbm_prop(ex, 1), [], ob),
    ('rbm.clone', lambda ex: g_rbm_clone(ex, False), [], ob),
    ('rbm.move', lambda ex: g_rbm_clone(ex, True), [], ob),
    ('rbm.operator=', lambda ex: g_rbm_assign(ex, False), [], ob),
    ('rbm.operator=(move)', lambda ex: g_rbm_assign(ex, True), [], ob),
    ('rbm.operator=(self)', g_rbm_self, [], ob),
    ('rbm.~rbm', g_rbm_dtor, [], ob),
    ('rbm.get_variables', g_rbm_vars, [], ob),
    ('rbm.rbm', g_rbm_ctor, [], ob),
    ('db_net.prop_up', g_dbn_up, [t_range, t_vp(t_out)], ol),
    ('db_net.clone', lambda ex: g_comp_clone(ex, DBN, mk_dbn, 'belief net copy', dbn_finish), T, ol),
    ('db_net.move', lambda ex: g_comp_move(ex, DBN, mk_dbn, 'belief net move', dbn_finish), T, ol),
    ('db_net.operator=', lambda ex: g_comp_assign(ex, DBN, mk_dbn, False, 'belief net assignment', dbn_finish), T, ol),
    ('db_net.operator=(move)', lambda ex: g_comp_assign(ex, DBN, mk_dbn, True, 'belief net move assignment', dbn_finish), T, ol),
    ('db_net.operator=(self)', lambda ex: g_comp_self(ex, DBN, mk_dbn, 'belief net self assignment', True), T, ol),
    ('db_net.~db_net', lambda ex: g_comp_dtor(ex, DBN, mk_dbn, 'belief net destruction', True), T, ol),
    ('db_net.get_variables', lambda ex: g_comp_vars(ex, DBN, mk_dbn, 'belief net variables', True), [t_range, t_vars], ol),
    ('db_net.db_net', g_dbn_ctor, [t_range, t_stack], ol),
]


# ---------------------------------------------------------------- gradient descent model
GDN, ICOMP, PLH, GDU = 'rocnnet::gd_net', 'rocnnet::icompound', 'nnet::placeholder<double>', 'nnet::gd_updater'
PARTS = {'brain_': ICOMP, 'test_in_': PLH, 'train_in_': PLH, 'expected_out_': PLH, 'updater_': GDU}
UPB = z3.Function('brain_output', I, I, I)
UPDS = z3.Function('updates_of', I, I, z3.ArraySort(I, I))
NUPD = z3.Function('number_of_updates', I, I, I)
MOVED = z3.Function('moved_node', I, I)
EXPO = z3.Function('exposed', I, z3.ArraySort(I, R))
UFN = ('fn', 'variable_updater')


def thing(ex, cls, t, **kw):
    f = {'id': t, 'gone': False, 'src': None, 'moved': False, 'fed': None, 'dims': None}
    f.update(kw)
    return ex.new_cell(VStruct(cls, f), ('cls', cls))


def part(ex, p, what='part'):
    if not (isinstance(p, VPtr) and p.lv is not None):
        ex.prove(False, what + ' is there')
        raise Unsupported(what)
    return ex.read(p.lv)


def newthing(ex, cls, **kw):
    return VPtr(thing(ex, cls, fresh_id(ex, cls).e, **kw))


def c_tclone(moving):
    def c(ex, this, args, n):
        f = part(ex, this).fields
        ex.prove(not f['gone'], 'no use of a deleted object')
        r = newthing(ex, ex.read(this.lv).cls, src=f['id'])
        if moving:
            ex.write(this.lv.f('moved'), True)
        return r
    return c


def c_brain_up(ex, this, args, n):
    return res(ex, UPB(part(ex, this).fields['id'], nid(ex, args[0])))


def c_size(k):
    return lambda ex, this, args, n: ex.ghost[k]


def c_tfeed(ex, this, args, n):
    v = ex.to_vvec(ex.rv(args[0]))
    ex.write(this.lv.f('fed'), v)
    if 'log' in ex.ghost:
        ex.ghost['log'].append(('fed', this.lv.key()))
        if 'fedn' in ex.ghost['cells']:
            ex.write(gh(ex, 'fedn'), z3.simplify(ex.read(gh(ex, 'fedn')) + 1))
    return this.lv


def c_place(ex, cls, args, n):
    sh = ex.rv(args[0]).fields['dims']
    return VStruct(PLH, {'id': fresh_id(ex, PLH).e, 'gone': False, 'src': None, 'moved': False, 'fed': None, 'dims': sh})


def c_calculate(ex, this, args, n):
    u, e = part(ex, this).fields['id'], nid(ex, args[0])
    ex.assume(NUPD(u, e) >= 0)
    return VVec(UFN, NUPD(u, e), [UPDS(u, e)])


def c_nmove(ex, this, args, n):
    return VRef(INO, MOVED(nid(ex, this)))


def c_expose_t(ex, this, args, n):
    e = nid(ex, args[0])
    k = ex.fresh('exposed_n', I)
    ex.assume(k >= 0)
    ex.ghost['exposed'] = (e, len(ex.ghost.get('log', [])))
    return VVec(REAL, k, [EXPO(e)])


def c_freeze(ex, this, args, n):
    ex.prove(nid(ex, this) == ex.ghost['error'], 'train: only the error is frozen')
    ex.write(gh(ex, 'frozen'), as_bool(ex.rv(args[0])))
    return VOIDV


NETC = {
    ICOMP + '::clone': c_tclone(False), ICOMP + '::move': c_tclone(True), ICOMP + '::prop_up': c_brain_up, ICOMP + '::get_ninput': c_size('nin'),
    ICOMP + '::get_noutput': c_size('nout'), PLH + '::clone': c_tclone(False), PLH + '::move': c_tclone(True), PLH + '::operator=': c_tfeed, PLH + '::(ctor)': c_place,
    GDU + '::clone': c_tclone(False), GDU + '::move': c_tclone(True), GDU + '::calculate': c_calculate, 'nnet::inode<double>::move': c_nmove,
    'nnet::expose': c_expose_t, 'nnet::iconnector<double>::freeze_status': c_freeze,
}
CONTRACTS.update(NETC)


class GdNetInterp(NetsInterp):
    def hook_delete(self, p, n):
        if isinstance(p, VPtr) and p.lv is not None and isinstance(self.read(p.lv), VStruct) and 'gone' in self.read(p.lv).fields:
            self.prove(not self.read(p.lv).fields['gone'], 'nothing is deleted twice')
            self.write(p.lv.f('gone'), True)
            return VOIDV
        return super().hook_delete(p, n)

    def hook_new(self, cls, e, n):
        v = self.E(e) if e is not None else None
        if v is None:
            return NotImplemented
        return VPtr(self.new_cell(v, ('cls', cls)))

    def call_opaque(self, f, args, node):
        if is_z3(f) and z3.is_int(f) and 'fedn' in self.ghost.get('cells', {}):
            self.prove(as_bool(self.rv(args[0])), 'train: updates notify')
            self.prove(self.read(gh(self, 'frozen')), 'train: the error is frozen while updates run')
            self.prove(self.read(gh(self, 'fedn')) == 2, 'train: both inputs are fed before updates run')
            r = gh(self, 'ran')
            self.write(r.i(f), z3.simplify(z3.Select(now(self, 'ran'), f) + 1))
            return VOIDV
        return super().call_opaque(f, args, node)


def start_gdn(ex):
    start(ex)
    ex.ghost['nin'], ex.ghost['nout'] = ex.fresh('ninput', I), ex.fresh('noutput', I)
    ex.assume(z3.And(ex.ghost['nin'] >= 1, ex.ghost['nout'] >= 1))
    ex.ghost['log'] = []


def mk_gdn(ex, name):
    f = {}
    for k, c in PARTS.items():
        t = ex.fresh(name + k, I)
        ex.assume(z3.And(t > 0, t < ex.ghost['base']))
        f[k] = VPtr(thing(ex, c, t))
    o, e = ex.fresh('test_out', I), ex.fresh('error', I)
    ex.assume(z3.And(o > 0, e > 0))
    u = ex.fresh_val(('vec', UFN), 'updates')
    return obj(ex, GDN, test_out_=vp(VRef(INO, o)), error_=VRef(INO, e), updates_=u, **f)


def wired(ex, lv, tag):
    """the graph of the model is the one its parts make"""
    f = ex.read(lv).fields
    p = {k: part(ex, f[k], tag + ': ' + k).fields for k in PARTS}
    for k in PARTS:
        ex.prove(not p[k]['gone'], tag + ': ' + k + ' is alive')
    b = p['brain_']['id']
    ex.prove(nid(ex, f['test_out_']) == UPB(b, p['test_in_']['id']), tag + ': the answer is what its own network makes of its own input')
    e = nid(ex, f['error_'])
    diff = VAL(p['expected_out_']['id']) - VAL(UPB(b, p['train_in_']['id']))
    ex.prove(VAL(e) == diff * diff, tag + ': the error is the squared difference of expected and actual output')
    u = ex.to_vvec(f['updates_'])
    uid = p['updater_']['id']
    ex.prove(u.n == NUPD(uid, e), tag + ': its updates are those of its own updater for its own error')
    ex.prove(forall(0, u.n, lambda j: u.leaves[0][j] == UPDS(uid, e)[j]), tag + ': its updates are those of its own updater for its own error')


def g_gdn_ctor(ex):
    start_gdn(ex)
    d = method(ex, GDN, 'gd_net', 3)
    bid, uid = ex.fresh('brain', I), ex.fresh('upd', I)
    ex.assume(z3.And(bid > 0, uid > 0))
    br, up = thing(ex, ICOMP, bid), thing(ex, GDU, uid)
    l = ex.new_cell(VStruct(GDN, {f['name']: None for f in ex.ast.fields(GDN)}), ('cls', GDN))
    for f in ex.ast.fields(GDN):
        ex.default_field(GDN, l, f['name'])
    ex.run_ctor(GDN, d, l, [VPtr(br), up, anystr(ex, 'scope')], None)
    wired(ex, l, 'descent model')
    f = ex.read(l).fields
    ex.prove(part(ex, f['brain_']).fields['id'] == bid, 'descent model: trains the network it was given')
    ex.prove(part(ex, f['updater_']).fields['src'] is uid, 'descent model: with a copy of the updater')
    for k, w in (('test_in_', 'nin'), ('train_in_', 'nin'), ('expected_out_', 'nout')):
        s = part(ex, f[k]).fields['dims']
        ex.prove(z3.And(s.n == 2, s.leaves[0][0] == ex.ghost[w], s.leaves[0][1] == 0), 'descent model: inputs have the sizes of the network and any batch')


def gdn_taken(ex, f, lv, tag, moving):
    g = ex.read(lv).fields
    for k in PARTS:
        p, q = part(ex, g[k], tag).fields, ex.read(f[k].lv).fields
        same = g[k].lv.key() == f[k].lv.key()
        if moving:
            ex.prove(bool(same or p['src'] is q['id']), tag + ': ' + k + ' is that of the original')
        else:
            ex.prove(bool(not same and p['src'] is q['id']), tag + ': ' + k + ' is its own copy of that of the original')
            ex.prove(not q['gone'] and not q['moved'], tag + ': the original keeps ' + k)


def g_gdn_copy(ex, way):
    start_gdn(ex)
    moving = 'move' in way
    m = mk_gdn(ex, 'theirs')
    f = ex.read(m).fields
    tag = 'descent model ' + way
    if 'assignment' in way:
        l = mk_gdn(ex, 'mine')
        old = ex.read(l).fields
        assign(ex, GDN, l, m, moving)
        for k in PARTS:
            ex.prove(ex.read(old[k].lv).fields['gone'], tag + ': what it had is gone')
    else:
        l = ex.new_cell(VStruct(GDN, {f['name']: None for f in ex.ast.fields(GDN)}), ('cls', GDN))
        for x in ex.ast.fields(GDN):
            ex.default_field(GDN, l, x['name'])
        d = method(ex, GDN, 'gd_net', 1 if moving else 2)
        ex.run_ctor(GDN, d, l, [m] + ([] if moving else [anystr(ex, 'scope')]), None)
    wired(ex, l, tag)
    gdn_taken(ex, f, l, tag, moving)
    if not moving:
        h = ex.read(m).fields
        ex.prove(z3.And(nid(ex, h['error_']) == nid(ex, f['error_']), nid(ex, h['test_out_']) == nid(ex, f['test_out_'])), tag + ': the original keeps its graph')


def g_gdn_self(ex):
    start_gdn(ex)
    m = mk_gdn(ex, 'm')
    f = ex.read(m).fields
    assign(ex, GDN, m, m, bool(ex.choose(2)))
    h = ex.read(m).fields
    for k in PARTS:
        ex.prove(h[k].lv is not None and h[k].lv.key() == f[k].lv.key() and not ex.read(h[k].lv).fields['gone'], 'descent model self assignment changes nothing')


def g_gdn_dtor(ex):
    start_gdn(ex)
    m = mk_gdn(ex, 'm')
    f = ex.read(m).fields
    call(ex, GDN, m, '~gd_net')
    for k in PARTS:
        ex.prove(ex.read(f[k].lv).fields['gone'], 'descent model destruction deletes its parts')


def g_gdn_answer(ex):
    start_gdn(ex)
    m = mk_gdn(ex, 'm')
    f = ex.read(m).fields
    x = ex.fresh_val(('vec', REAL), 'x')
    ex.assume(x.n >= 0)
    r = ex.to_vvec(ex.rv(call(ex, GDN, m, 'operator()', [ex.new_cell(x, ('vec', REAL))])))
    p = ex.read(f['test_in_'].lv).fields['fed']
    ex.prove(p is not None, 'descent model: is fed the input')
    same_vec(ex, x, p, 'descent model: is fed the input')
    e, at = ex.ghost['exposed']
    ex.prove(bool(at >= 1), 'descent model: answers after it is fed')
    ex.prove(e == nid(ex, f['test_out_']), 'descent model: answers with its output')
    ex.prove(forall(0, r.n, lambda j: r.leaves[0][j] == EXPO(e)[j]), 'descent model: answers with its output')


def g_gdn_train(ex):
    start_gdn(ex)
    m = mk_gdn(ex, 'm')
    f = ex.read(m).fields
    u = ex.to_vvec(f['updates_'])
    pos = z3.Function('place_of_update', I, I)
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < u.n), z3.And(u.leaves[0][J] > 0, pos(u.leaves[0][J]) == J)), patterns=[u.leaves[0][J]]))
    c = ex.ghost['cells']
    c['ran'] = ex.new_cell(VVec(SINT, iv(2 ** 62), [z3.K(I, iv(0))]), ('vec', SINT))
    c['frozen'], c['fedn'] = ex.new_cell(z3.BoolVal(False), BOOL), ex.new_cell(iv(0), INT)
    ex.ghost.update(error=nid(ex, f['error_']), upd=u, pos=pos)
    x, y = ex.fresh_val(('vec', REAL), 'x'), ex.fresh_val(('vec', REAL), 'y')
    call(ex, GDN, m, 'train', [ex.new_cell(x, ('vec', REAL)), ex.new_cell(y, ('vec', REAL))])
    for k, v in (('train_in_', x), ('expected_out_', y)):
        p = ex.read(f[k].lv).fields['fed']
        ex.prove(p is not None, 'train: feeds what it is given')
        same_vec(ex, v, p, 'train: feeds what it is given')
    ex.prove(forall(0, u.n, lambda j: now(ex, 'ran')[u.leaves[0][j]] == 1), 'train: every update runs once')
    ex.prove(z3.Not(ex.read(gh(ex, 'frozen'))), 'train: the error is current again afterwards')


def t_train(L):
    ex = L.ex
    if 'fedn' not in ex.ghost.get('cells', {}):
        return
    u, pos = ex.ghost['upd'], ex.ghost['pos']
    a = u.leaves[0]
    for kn, k in L.int_terms(True):
        yield 'ran %s' % kn, lambda k=k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < u.n), now(ex, 'ran')[a[J]] == z3.If(J < k(), iv(1), iv(0))), patterns=[a[J]])


og = {'use': BASE + tuple(NETC), 'interp': GdNetInterp}
GOALS['C21'] += [
    ('gd_net.gd_net', g_gdn_ctor, [], og),
    ('gd_net copy', lambda ex: g_gdn_copy(ex, 'copy'), [], og),
    ('gd_net move', lambda ex: g_gdn_copy(ex, 'move'), [], og),
    ('gd_net.operator=', lambda ex: g_gdn_copy(ex, 'assignment'), [], og),
    ('gd_net.operator=(move)', lambda ex: g_gdn_copy(ex, 'move assignment'), [], og),
    ('gd_net.operator=(self)', g_gdn_self, [], og),
    ('gd_net.~gd_net', g_gdn_dtor, [], og),
    ('gd_net.operator()', g_gdn_answer, [], og),
    ('gd_net.train', g_gdn_train, [t_range, t_train], og),
]
