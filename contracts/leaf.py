"""Contracts of the leaves: variables (C15), placeholders (C16), initialisers and assignment (C15, C19)."""
from .lib import *
from . import shape as S
from . import tensor as TN
from .tensor import mk_shape, mk_tensor, dims_of, alldef, fld, same_shape, wf, data_eq, compat_, fit_
from vc.interp import Interp, inner, strip

TU = 'leaf_tu.cpp'
NS = 'nnet::'
VAR, PLH, CON, INO = (NS + x + '<double>' for x in ('variable', 'placeholder', 'constant', 'inode'))
INI, CINI, ASG, TEN = NS + 'initializer<double>', NS + 'const_init<double>', NS + 'assign_func<double>', TN.TEN
BOOL, REAL = ('bool',), ('real',)
ALLN = 'no element'


class LeafInterp(Interp):
    """delete runs the destructor's contract: a tensor releases its storage, an initialiser just dies"""
    def hook_delete(self, p, n):
        if isinstance(p, VRef):
            return VOIDV
        v = self.read(p.lv)
        dead = self.ghost.setdefault('dead', set())
        self.prove(p.lv.root[1] not in dead, 'delete: the object is still alive')
        dead.add(p.lv.root[1])
        if isinstance(v, VStruct) and v.cls == TEN:
            d = [x for x in self.ast.methods(TEN) if x['kind'] == 'CXXDestructorDecl'][0]
            self.call_def(self.ast.definition(d['id']), p, [], None)
        return VOIDV


INTERP = LeafInterp


# ---------------------------------------------------------------- contracts used at calls
def c_notify(ex, this, args, node):
    """observers are told; they only read. What they would read is recorded"""
    ex.ghost.setdefault('notified', []).append(snap(ex, this.lv))
    return VOIDV


def snap(ex, lv):
    """what a reader of the leaf sees now: (initialised, cell of the data, its contents, its size)"""
    v = ex.read(lv)
    d = v.fields['data_']
    if isinstance(d, VPtr) and d.lv is None:
        return v.fields['is_init_'], None, None, None
    raw = fld(ex, d.lv, 'raw_data_')
    if isinstance(raw, VBPtr):
        m = ex.cells[raw.cell]
        return v.fields['is_init_'], raw.cell, m.arr, m.n
    return v.fields['is_init_'], None, None, None


def c_calc(ex, this, args, node):
    """initializer::calc_data(dest, shape): writes exactly the elements of dest (each implementation has its own goal)"""
    p = ex.rv(args[0])
    n, d = S.dims(ex, args[1])
    ex.prove(isinstance(p, VBPtr), 'initialiser gets storage')
    m = ex.cells[p.cell]
    ex.prove(z3.And(z3.Not(as_bool(m.freed)), p.off == 0, m.n == prod(d, iv(0), n)), 'initialiser gets live storage of exactly the shape')
    a = ex.fresh('initv', z3.ArraySort(I, R))
    ex.ghost['initv'] = a
    ex.cells[p.cell] = VMem(m.n, a, m.freed, m.name, m.ety)
    return VOIDV


def c_iclone(ex, this, args, node):
    return VPtr(ex.new_cell(VStruct(INI, {}), ('cls', INI)))


def c_eval(ex, this, args, node):
    """a node with no more known about it: it has a value or none, and evaluating changes nothing"""
    return ex.read(this.lv).fields['value']


def c_label(ex, this, args, node):
    return VStr(('label',))


CONTRACTS = dict(TN.CONTRACTS)
CONTRACTS.update(TN.INFER)
CONTRACTS.update({
    'nnet::subject::notify': c_notify,
    INI + '::calc_data': c_calc,
    INI + '::clone': c_iclone,
    INO + '::eval': c_eval,
    INO + '::get_label': c_label,
    'nnet::print_shape': lambda ex, this, args, node: VOIDV,
})
USE = tuple(CONTRACTS)


# ---------------------------------------------------------------- objects
def mk_leaf(ex, cls, name, alloc=None, init=None, initer=True):
    """arbitrary leaf satisfying the invariant: initialised implies stored"""
    t, c = mk_tensor(ex, name, alloc)
    TN.pre_inv(ex, t, c)
    b = ex.fresh(name + '_init', B) if init is None else z3.BoolVal(init)
    if c is None:
        b = z3.BoolVal(False)
    f = {'data_': VPtr(t), 'is_init_': b, 'assigner_': VStruct(ASG, {}), 'label_': VStr((name,)),
         'init_': VPtr(ex.new_cell(VStruct(INI, {}), ('cls', INI))) if initer else NULL}
    if cls == CON:
        del f['init_']
    return ex.new_cell(VStruct(cls, f), ('cls', cls)), t, c


def call(ex, cls, lv, name, args=(), sig=None):
    d = ex.ast.find(cls + '::' + name, len(args), sig)
    return ex.call_def(d, VPtr(lv), list(args), None)


def unchanged(ex, s0, s1, tag):
    """nothing a reader sees differs"""
    ex.prove(as_bool(s0[0]) == as_bool(s1[0]), tag + ': initialisation state unchanged')
    ex.prove(s0[1] == s1[1], tag + ': storage unchanged')
    if s0[1] is not None and s0[1] == s1[1]:
        ex.prove(s0[3] == s1[3], tag + ': size unchanged')
        ex.prove(forall(0, s0[3], lambda j: s0[2][j] == s1[2][j]), tag + ': elements unchanged')


def notified(ex, lv, want, tag):
    """observers were told exactly once, after the last change, iff wanted"""
    ev = ex.ghost.get('notified', [])
    ex.prove(len(ev) == (1 if want else 0), tag + (': observers are notified once' if want else ': observers are not notified'))
    if ev:
        a, b = ev[-1], snap(ex, lv)
        unchanged(ex, a, b, tag + ': the value observers are told about is final')


def refusal(ex, fn):
    """run fn; True when it was refused by an exception or assertion"""
    ex.ghost['refuse'] = True
    try:
        fn()
        return False
    except CppThrow:
        return True
    finally:
        ex.ghost['refuse'] = False


# ---------------------------------------------------------------- assignment functor
def vfun(ex):
    f = z3.Function('opf', R, R, R)
    return VFn('f', lambda ex, a: f(as_real(ex.rv(a[0])), as_real(ex.rv(a[1])))), f


def t_assign(f):
    """prefix of the destination holds f(old, source), the rest is as at entry"""
    def t(L):
        ex = L.ex
        olds = {}
        for nm, lv in L.mems:
            if L.is_mod(lv):
                olds[nm] = L.old(lv).arr
        for dn, d, ln in arr_terms(L, True, R):
            o = olds.get(dn)
            if o is None:
                continue
            for kn, k in L.int_terms(True):
                for sn, s, _ in arr_terms(L, False, R):
                    yield 'assign %s %s %s' % (dn, sn, kn), lambda d=d, o=o, s=s, k=k: z3.ForAll(
                        [J], z3.Implies(z3.And(0 <= J, J < k()), d()[J] == f(o[J], s()[J])), patterns=[d()[J]])
                yield 'rest %s %s' % (dn, kn), lambda d=d, o=o, k=k: z3.ForAll(
                    [J], z3.Implies(J >= k(), d()[J] == o[J]), patterns=[d()[J]])
                yield 'self %s %s' % (dn, kn), lambda d=d, o=o, k=k: z3.ForAll(
                    [J], z3.Implies(z3.And(0 <= J, J < k()), d()[J] == f(o[J], o[J])), patterns=[d()[J]])
    return t


OPF = z3.Function('opf', R, R, R)
ASGF = {'set': lambda a, b: b, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'any': lambda a, b: OPF(a, b)}


def g_assign_tensor(ex, alias):
    t, c = mk_tensor(ex, 'out')
    src, sc = (t, c) if alias else mk_tensor(ex, 'arg')
    asg = ex.new_cell(VStruct(ASG, {}), ('cls', ASG))
    vf, f = vfun(ex)
    o, s = (ex.cells[x] if x is not None else None for x in (c, sc))
    no, ns = (o.n if o else iv(0)), (s.n if s else iv(0))
    ref = refusal(ex, lambda: call(ex, ASG, asg, 'operator()', [t, src, vf], 'const tensor<double> &'))
    tag = 'assign(tensor)'
    if ref:
        ex.prove(z3.Or(no != ns, z3.BoolVal(c is None or sc is None)), tag + ': refused only for a differing number of elements or missing storage')
        if c is not None:
            data_eq(ex, c, o.arr, no, tag + ': refusal leaves the target alone')
    else:
        ex.prove(z3.And(no == ns, z3.BoolVal(c is not None and sc is not None)), tag + ': accepted only for equally many elements')
        if c is not None:
            m = ex.cells[c]
            ex.prove(m.n == no, tag + ': size kept')
            if sc is not None:
                ex.prove(forall(0, no, lambda j: m.arr[j] == f(o.arr[j], s.arr[j])), tag + ': every element is f(old, source)')
    wf(ex, t, tag + ' target')
    if sc is not None and not alias:
        data_eq(ex, sc, s.arr, ns, tag + ': source unchanged')


def g_assign_vec(ex):
    t, c = mk_tensor(ex, 'out')
    v = ex.fresh_val(('vec', REAL), 'data')
    ex.input('ndata', v.n)
    asg = ex.new_cell(VStruct(ASG, {}), ('cls', ASG))
    vf, f = vfun(ex)
    o = ex.cells[c] if c is not None else None
    ref = refusal(ex, lambda: call(ex, ASG, asg, 'operator()', [t, v, vf], 'vector<double>'))
    tag = 'assign(data)'
    if ref:
        ex.prove(z3.BoolVal(True) if o is None else o.n > v.n, tag + ': refused only when data runs out or storage is missing')
        if o:
            data_eq(ex, c, o.arr, o.n, tag + ': refusal leaves the target alone')
    else:
        ex.prove(z3.BoolVal(o is not None), tag + ': accepted only with storage')
        if o is not None:
            m = ex.cells[c]
            ex.prove(m.n == o.n, tag + ': size kept')
            ex.prove(forall(0, o.n, lambda j: m.arr[j] == f(o.arr[j], v.leaves[0][j])), tag + ': every element is f(old, data)')
    wf(ex, t, tag + ' target')


# ---------------------------------------------------------------- initialisation
def g_const_init(ex):
    t, c = mk_tensor(ex, 't', True)
    x = ex.fresh('value', R)
    ini = ex.new_cell(VStruct(CINI, {'value_': x}), ('cls', CINI))
    n, d = dims_of(fld(ex, t, 'alloc_shape_'))
    call(ex, INI, ini, 'operator()', [t])
    m = ex.cells[c]
    ex.prove(m.n == prod(d, iv(0), n), 'constant initialiser keeps the size')
    ex.prove(forall(0, m.n, lambda j: m.arr[j] == x), 'constant initialiser sets every element')
    wf(ex, t, 'constant initialiser')


def g_initialize(ex, with_shape):
    lv, t, c = mk_leaf(ex, VAR, 'v')
    s0, sh0 = snap(ex, lv), fld(ex, t, 'alloc_shape_')
    allowed = fld(ex, t, 'allowed_shape_')
    n, d = dims_of(allowed)
    tag = 'initialize(shape)' if with_shape else 'initialize()'
    out = {}
    if with_shape:
        sh = mk_shape(ex, 's')
        p, q = dims_of(sh)

    def go():
        out['r'] = call(ex, VAR, lv, 'initialize', [ex.new_cell(sh, S.SH)] if with_shape else [])
    if refusal(ex, go):
        unchanged(ex, s0, snap(ex, lv), tag + ' refused')
        notified(ex, lv, False, tag + ' refused')
        if with_shape:
            bad = z3.Or(z3.Not(alldef(p, q)), z3.Not(compat_(p, q, n, d)))
            if c is not None:
                k, g = dims_of(sh0)
                bad = z3.Or(bad, compat_(p, q, k, g))
            ex.prove(bad, tag + ': refused only for a shape that is unknown, not allowed, or already stored')
        else:
            ex.prove(z3.And(z3.BoolVal(c is None), z3.Not(alldef(n, d))), tag + ': refused only when nothing is stored and the shape is not fully defined')
        wf(ex, t, tag + ' refused')
        return
    raw = wf(ex, t, tag)
    ex.prove(as_bool(ex.read(lv).fields['is_init_']), tag + ': the variable is initialised')
    ex.prove(isinstance(raw, VBPtr), tag + ': the variable has storage')
    iv_ = ex.ghost.get('initv')
    ex.prove(iv_ is not None, tag + ': the initialiser is run')
    if isinstance(raw, VBPtr) and iv_ is not None:
        m = ex.cells[raw.cell]
        ex.prove(forall(0, m.n, lambda j: m.arr[j] == iv_[j]), tag + ': every element is the initialiser\'s')
    if with_shape:
        ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), sh), tag + ': the variable takes the requested shape')
        ex.prove(z3.And(alldef(p, q), compat_(p, q, n, d)), tag + ': accepted only for a fully defined, allowed shape')
    elif c is None:
        ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), allowed), tag + ': the variable takes its declared shape')
    else:
        ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), sh0), tag + ': the variable keeps its shape')
    notified(ex, lv, True, tag)
    r = out['r']
    ex.prove(isinstance(r, LV) and r.key() == t.key(), tag + ': returns the variable\'s own tensor')


# ---------------------------------------------------------------- assignment
def mk_source(ex, lv):
    """-> (node lvalue, its tensor lvalue or None, its cell, kind)"""
    k = ex.choose(4)
    if k == 0:
        a, t, c = mk_leaf(ex, CON, 'src', True, True)
        return a, t, c, 'constant'
    if k == 1:
        v = ex.read(lv)
        t = v.fields['data_'].lv
        r = fld(ex, t, 'raw_data_')
        return lv, t, r.cell if isinstance(r, VBPtr) else None, 'itself'
    if k == 2:
        a, t, c = mk_leaf(ex, VAR, 'src')
        return a, t, c, 'variable'
    has = ex.choose(2)
    t, c = mk_tensor(ex, 'src') if has else (None, None)
    a = ex.new_cell(VStruct(INO, {'value': VPtr(t) if has else NULL}), ('cls', INO))
    return a, t, c, 'node'


def g_assign(ex, op):
    lv, t, c = mk_leaf(ex, VAR, 'v')
    src, st, sc, kind = mk_source(ex, lv)
    f = {'assign': ASGF['set'], 'assign_add': ASGF['add'], 'assign_sub': ASGF['sub']}[op]
    s0 = snap(ex, lv)
    o = ex.cells[c] if c is not None else None
    s = ex.cells[sc] if sc is not None else None
    readable = s is not None
    if kind in ('itself', 'variable'):
        rd = as_bool(ex.read(src).fields['is_init_'])
    else:
        rd = z3.BoolVal(readable)
    note = ex.choose(2)
    tag = '%s(%s)' % (op, kind)
    upd = {}
    r1 = refusal(ex, lambda: upd.update(u=ex.rv(call(ex, VAR, lv, op, [VPtr(src)]))))
    ex.prove(not r1, tag + ': building the update is never refused')
    if r1:
        return
    unchanged(ex, s0, snap(ex, lv), tag + ': building the update')
    zero = None
    if kind == 'constant' and op != 'assign':
        zero = z3.And(s.n == 1, s.arr[0] == 0)
    ref = refusal(ex, lambda: ex.call_value(upd['u'], [ex.new_cell(z3.BoolVal(bool(note)), BOOL)]))
    s1 = snap(ex, lv)
    if ref:
        unchanged(ex, s0, s1, tag + ' refused')
        notified(ex, lv, False, tag + ' refused')
        if o is None:
            pass
        elif kind == 'constant':
            ex.prove(s.n < o.n, tag + ': refused only when the constant has too few elements')
        elif readable:
            ex.prove(z3.Or(z3.Not(rd), s.n != o.n), tag + ': refused only for an unreadable source or a differing size')
    else:
        ex.prove(as_bool(s0[0]) == as_bool(s1[0]), tag + ': initialisation state unchanged')
        ex.prove(s0[1] == s1[1], tag + ': the variable keeps its own storage')
        if zero is None or not ex.decide(zero):
            ex.prove(z3.BoolVal(o is not None and s is not None), tag + ': accepted only when both sides have storage')
            if o is not None and s is not None:
                m = ex.cells[c]
                ex.prove(m.n == o.n, tag + ': size kept')
                ex.prove(s.n >= o.n if kind == 'constant' else z3.And(rd, s.n == o.n), tag + ': accepted only for a source that can be read and fits')
                ex.prove(forall(0, o.n, lambda j: m.arr[j] == f(o.arr[j], s.arr[j])), tag + ': every element gets its new value')
        elif o is not None:
            data_eq(ex, c, o.arr, o.n, tag + ': adding zero keeps the elements')
        notified(ex, lv, bool(note), tag)
    if sc is not None and sc != c:
        data_eq(ex, sc, s.arr, s.n, tag + ': the source keeps its value')
    wf(ex, t, tag)


# ---------------------------------------------------------------- reading, copying
def g_eval(ex, cls):
    lv, t, c = mk_leaf(ex, cls, 'v')
    s0 = snap(ex, lv)
    r = ex.rv(call(ex, NS + 'ileaf<double>', lv, 'eval'))
    null = isinstance(r, VPtr) and r.lv is None
    ex.prove(as_bool(s0[0]) == z3.BoolVal(not null), 'a leaf is readable exactly when initialised')
    if not null:
        ex.prove(r.lv.key() == t.key(), 'reading a leaf gives its own tensor')
    ex.prove(as_bool(ex.rv(call(ex, NS + 'ileaf<double>', lv, 'good_status'))) == as_bool(s0[0]), 'good_status reports initialisation')
    unchanged(ex, s0, snap(ex, lv), 'reading')
    notified(ex, lv, False, 'reading')


def own(ex, lv, tag):
    d = ex.read(lv).fields['data_']
    if d.lv is None:
        return None, None
    ex.prove(d.lv.root[1] not in ex.ghost.get('dead', ()), tag + ': the tensor is alive')
    raw = wf(ex, d.lv, tag)
    return d.lv, raw


def g_leaf_copy(ex, assign):
    src, st, sc = mk_leaf(ex, VAR, 'src')
    dst, dt, dc = mk_leaf(ex, VAR, 'dst')
    if not assign:
        ex.write(dst.f('data_'), NULL)
        ex.cells[dc] = VMem(iv(0), ex.cells[dc].arr, z3.BoolVal(True), 'none') if dc is not None else None
        if dc is None:
            ex.cells.pop(dc, None)
    s0 = snap(ex, src)
    call(ex, NS + 'ileaf<double>', dst, 'copy_helper', [src])
    tag = 'leaf copy'
    dl, raw = own(ex, dst, tag)
    ex.prove(dl is not None, tag + ': the copy has a tensor')
    if dl is None:
        return
    ex.prove(dl.key() != st.key(), tag + ': the tensor is its own')
    ex.prove(as_bool(ex.read(dst).fields['is_init_']) == as_bool(s0[0]), tag + ': initialisation state copied')
    ex.prove(isinstance(raw, VBPtr) == (sc is not None), tag + ': storage iff the source has storage')
    for f in ('alloc_shape_', 'allowed_shape_'):
        ex.prove(same_shape(ex, fld(ex, dl, f), fld(ex, st, f)), tag + ': %s copied' % f.strip('_').replace('_', ' '))
    if isinstance(raw, VBPtr) and sc is not None:
        ex.prove(raw.cell != sc, tag + ': storage is its own')
        a = ex.cells[raw.cell].arr
        ex.prove(z3.Implies(as_bool(s0[0]), forall(0, s0[3], lambda j: a[j] == s0[2][j])), tag + ': an initialised value is copied')
    unchanged(ex, s0, snap(ex, src), tag + ': source')
    TN.live_others(ex, [dl, st], tag)


def g_leaf_move(ex):
    src, st, sc = mk_leaf(ex, VAR, 'src')
    dst, dt, dc = mk_leaf(ex, VAR, 'dst')
    s0 = snap(ex, src)
    call(ex, NS + 'ileaf<double>', dst, 'move_helper', [src])
    tag = 'leaf move'
    dl, raw = own(ex, dst, tag)
    ex.prove(dl is not None and dl.key() == st.key(), tag + ': the tensor is transferred')
    ex.prove(as_bool(ex.read(dst).fields['is_init_']) == as_bool(s0[0]), tag + ': initialisation state transferred')
    ex.prove(ex.read(src).fields['data_'].lv is None, tag + ': the source gives its tensor up')
    s1 = snap(ex, dst)
    unchanged(ex, s0, s1, tag + ': value')
    TN.live_others(ex, [st], tag)


# ---------------------------------------------------------------- placeholders
def g_feed_vec(ex):
    lv, t, c = mk_leaf(ex, PLH, 'p')
    v = ex.fresh_val(('vec', REAL), 'data')
    ex.input('ndata', v.n)
    s0 = snap(ex, lv)
    sh0, allowed = fld(ex, t, 'alloc_shape_'), fld(ex, t, 'allowed_shape_')
    n, d = dims_of(allowed)
    tag = 'feed(data)'
    if refusal(ex, lambda: call(ex, PLH, lv, 'operator=', [v], 'vector')):
        unchanged(ex, s0, snap(ex, lv), tag + ' refused')
        notified(ex, lv, False, tag + ' refused')
        wf(ex, t, tag + ' refused')
        if c is not None:
            ex.prove(v.n != s0[3], tag + ': once fed, refused only for a differing length')
        else:
            ex.prove(z3.Implies(z3.And(v.n > 0), n > 0), tag + ': a placeholder without a declared shape accepts any data')
            ex.prove(z3.Implies(alldef(n, d), v.n != prod(d, iv(0), n)), tag + ': data of exactly the declared size is not refused')
            w = ex.fresh('w', I)
            ex.prove(z3.Implies(z3.And(v.n > 0, n > 0, 0 <= w, w < n, d[w] == 0, kprod(d, iv(0), n) > 0), v.n % kprod(d, iv(0), n) != 0),
                     tag + ': data that an unknown dimension can absorb is not refused')
        return
    raw = wf(ex, t, tag)
    ex.prove(isinstance(raw, VBPtr), tag + ': the placeholder has storage')
    ex.prove(as_bool(ex.read(lv).fields['is_init_']), tag + ': the placeholder is readable')
    if isinstance(raw, VBPtr):
        m = ex.cells[raw.cell]
        ex.prove(m.n == v.n, tag + ': holds exactly as many elements as were fed')
        ex.prove(forall(0, v.n, lambda j: m.arr[j] == v.leaves[0][j]), tag + ': holds the data in order')
    new = fld(ex, t, 'alloc_shape_')
    if c is not None:
        ex.prove(same_shape(ex, new, sh0), tag + ': a fed placeholder keeps its shape')
    else:
        p, q = dims_of(new)
        ex.prove(z3.Implies(n > 0, z3.And(p == n, forall(0, n, lambda j: z3.Or(d[j] == 0, q[j] == d[j])))), tag + ': known dimensions of the declared shape are kept')
    ex.prove(same_shape(ex, fld(ex, t, 'allowed_shape_'), allowed), tag + ': the declared shape is kept')
    notified(ex, lv, True, tag)


def g_feed_tensor(ex):
    lv, t, c = mk_leaf(ex, PLH, 'p')
    src, sc = mk_tensor(ex, 'data')
    o = ex.cells[sc] if sc is not None else None
    sh = fld(ex, src, 'alloc_shape_')
    s0 = snap(ex, lv)
    tag = 'feed(tensor)'
    if refusal(ex, lambda: call(ex, PLH, lv, 'operator=', [src], 'tensor<double> &')):
        unchanged(ex, s0, snap(ex, lv), tag + ' refused')
        notified(ex, lv, False, tag + ' refused')
        return
    raw = wf(ex, t, tag)
    ex.prove(as_bool(ex.read(lv).fields['is_init_']), tag + ': the placeholder is readable')
    if o is not None:
        ex.prove(isinstance(raw, VBPtr), tag + ': the placeholder has storage')
        if isinstance(raw, VBPtr):
            m = ex.cells[raw.cell]
            ex.prove(m.n == o.n, tag + ': as many elements as the tensor')
            ex.prove(forall(0, o.n, lambda j: m.arr[j] == o.arr[j]), tag + ': holds the elements of the tensor')
            ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), sh), tag + ': has the shape of the tensor')
    notified(ex, lv, True, tag)
    TN.live_others(ex, [t, src], tag)


# ---------------------------------------------------------------- table
o = {'use': USE}
ANY, SET = [t_range, t_assign(ASGF['any'])], [t_range, t_assign(ASGF['set'])]


def t_sum(L):
    for op in ('set', 'add', 'sub'):
        for nm, fn in t_assign(ASGF[op])(L):
            yield op + ' ' + nm, fn


ASSIGNER = [
    ('assign_func(tensor)', lambda ex: g_assign_tensor(ex, False), ANY, o),
    ('assign_func(tensor)/itself', lambda ex: g_assign_tensor(ex, True), ANY, o),
    ('assign_func(data)', g_assign_vec, ANY, o),
]
GOALS = {
    'C15': ASSIGNER + [
        ('variable.initialize()', lambda ex: g_initialize(ex, False), [], o),
        ('variable.initialize(shape)', lambda ex: g_initialize(ex, True), [], o),
        ('variable.assign', lambda ex: g_assign(ex, 'assign'), [t_range, t_sum], o),
        ('variable.assign_add', lambda ex: g_assign(ex, 'assign_add'), [t_range, t_sum], o),
        ('variable.assign_sub', lambda ex: g_assign(ex, 'assign_sub'), [t_range, t_sum], o),
        ('variable.eval', lambda ex: g_eval(ex, VAR), [], o),
        ('leaf.copy', lambda ex: g_leaf_copy(ex, True), [], o),
        ('leaf.move', g_leaf_move, [], o),
        ('const_init', g_const_init, [], o),
    ],
    'C16': [ASSIGNER[2],
        ('placeholder.feed(data)', g_feed_vec, [t_range, t_prod, t_sum, TN.t_guess, TN.t_kpos], o),
        ('placeholder.feed(tensor)', g_feed_tensor, [], o),
        ('placeholder.eval', lambda ex: g_eval(ex, PLH), [], o),
    ],
}
