"""Contracts of nnet::tensor<double>: storage life cycle (C05), reshape (C04), shape inference (C06)."""
from .lib import *
from . import shape as S
from .shape import SH, U64
from vc.engine import Frame

TU = 'tensor_tu.cpp'
TEN = 'nnet::tensor<double>'
T = ('cls', TEN)

compat_ = z3.Function('compatible', S.I if hasattr(S, 'I') else I, z3.ArraySort(I, I), I, z3.ArraySort(I, I), B)
SHAPE_USE = S.USE + ('nnet::tensorshape::is_compatible_with', 'nnet::tensorshape::is_fully_defined')


def dims_of(v):
    d = v.fields['dimensions_']
    return d.n, d.leaves[0]


def alldef(n, d):
    return z3.And(n > 0, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), d[J] > 0), patterns=[d[J]]))


def c_compat(ex, this, args, node):
    """uninterpreted at this level: only reflexivity on equal content is used"""
    n, d = S.this_dims(ex, this)
    m, e = S.dims(ex, args[0])
    r = ex.fresh('compat', B)
    ex.assume(r == compat_(n, d, m, e))
    ex.assume(z3.Implies(z3.Or(n == 0, m == 0), r))
    # same rank: exactly the postcondition proved under C03
    ok = lambda j: z3.Or(d[j] == e[j], d[j] == 0, e[j] == 0)
    ex.assume(z3.Implies(z3.And(n == m, r), z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), ok(J)), patterns=[d[J], e[J]])))
    w = ex.fresh('w', I)
    ex.assume(z3.Implies(z3.And(n == m, z3.Not(r)), z3.And(n > 0, 0 <= w, w < n, z3.Not(ok(w)))))
    ex.assume(compat_(n, d, m, e) == compat_(m, e, n, d))
    return r


def c_fully(ex, this, args, node):
    n, d = S.this_dims(ex, this)
    r = ex.fresh('fully', B)
    w = ex.fresh('w', I)
    ex.assume(z3.Implies(r, alldef(n, d)))
    ex.assume(z3.Implies(z3.Not(r), z3.Or(n == 0, z3.And(0 <= w, w < n, d[w] == 0))))
    return r


def c_allocate(ex, this, args, node):
    n = as_int(ex.rv(args[0]))
    lv = ex.new_cell(VMem(n, ex.fresh('heap', z3.ArraySort(I, R)), False, 'tensor-data'), ('mem', ('real',)))
    ex.ghost.setdefault('allocated', []).append(lv.root[1])
    ex.ghost.setdefault('owner', {})[lv.root[1]] = alloc_id(ex, this)
    return VBPtr(lv.root[1], iv(0))


def alloc_id(ex, p):
    p = ex.rv(p)
    if not isinstance(p, VRef):
        raise Unsupported('allocator %r' % (p,))
    return p.e


def c_dealloc(ex, this, args, node):
    p = ex.rv(args[0])
    if isinstance(p, VPtr) and p.lv is None:
        return VOIDV
    m = ex.cells[p.cell]
    ex.prove(z3.Not(as_bool(m.freed)), 'dealloc: the buffer is still live (no double free)')
    ex.prove(p.off == 0, 'dealloc: pointer is the start of the buffer')
    ex.prove(as_int(ex.rv(args[1])) == m.n, 'dealloc: the buffer is released with the size it was allocated with')
    own = ex.ghost.get('owner', {}).get(p.cell)
    if own is not None:
        ex.prove(alloc_id(ex, this) == own, 'dealloc: the buffer goes back to the allocator it came from')
    ex.cells[p.cell] = VMem(m.n, m.arr, True, m.name, m.ety)
    return VOIDV


def c_get_instance(ex, this, args, node):
    """the registry of allocators: one object"""
    return ex.new_cell(VStruct('nnet::alloc_builder', {}), ('cls', 'nnet::alloc_builder'))


def c_get_alloc(ex, this, args, node):
    """alloc_builder::get(id): some registered allocator, or null for an unknown id"""
    if ex.choose(2):
        return NULL
    a = ex.fresh('alloc', I)
    ex.assume(a != 0)
    return VRef('nnet::iallocator', a)


fit_ = z3.Function('fit', z3.ArraySort(I, R), I, z3.ArraySort(I, I), I, z3.ArraySort(I, I), z3.ArraySort(I, R))


def c_fit(ex, this, args, node):
    """fit_toshape(dest, outshape, src, inshape): dest[0..|out|) becomes the refitted source (checked boundedly)"""
    dp, sp = ex.rv(args[0]), ex.rv(args[2])
    n, d = S.dims(ex, args[1])
    m, e = S.dims(ex, args[3])
    ex.prove(alldef(n, d), 'refit: target shape is fully defined')
    ex.prove(alldef(m, e), 'refit: source shape is fully defined')
    ex.prove(isinstance(dp, VBPtr) and isinstance(sp, VBPtr) and dp.cell != sp.cell, 'refit: distinct live buffers')
    D, Sm = ex.cells[dp.cell], ex.cells[sp.cell]
    ex.prove(z3.And(dp.off == 0, D.n == prod(d, iv(0), n)), 'refit: target buffer holds the target shape')
    ex.prove(z3.And(sp.off == 0, Sm.n == prod(e, iv(0), m)), 'refit: source buffer holds the source shape')
    ex.prove(z3.Not(z3.Or(as_bool(D.freed), as_bool(Sm.freed))), 'refit: both buffers are live')
    ex.cells[dp.cell] = VMem(D.n, fit_(Sm.arr, m, e, n, d), D.freed, D.name, D.ety)
    return VOIDV


CONTRACTS = dict(S.CONTRACTS)
CONTRACTS['nnet::fit_toshape'] = c_fit
CONTRACTS.update({
    'nnet::tensorshape::is_compatible_with': c_compat,
    'nnet::tensorshape::is_fully_defined': c_fully,
    'nnet::iallocator::allocate': c_allocate,
    'nnet::iallocator::dealloc': c_dealloc,
    'nnet::alloc_builder::get_instance': c_get_instance,
    'nnet::alloc_builder::get': c_get_alloc,
})
USE = tuple(CONTRACTS)


def mk_shape(ex, name, defined=None):
    v = ex.fresh_val(SH, name)
    n, d = dims_of(v)
    if defined is True:
        ex.assume(alldef(n, d))
    elif defined is False:
        w = ex.fresh('w', I)
        ex.assume(z3.Or(n == 0, z3.And(0 <= w, w < n, d[w] == 0)))
    ex.input(name, n, d)
    return v


def mk_tensor(ex, name, alloc=None):
    """arbitrary well-formed tensor: storage present iff the allocated shape is defined"""
    if alloc is None:
        alloc = ex.choose(2) == 0
    a = ex.fresh(name + '_alloc', I)
    ex.assume(a != 0)
    f = {'alloc_': VRef('nnet::iallocator', a), 'allowed_shape_': mk_shape(ex, name + '_allowed')}
    cell = None
    if alloc:
        sh = mk_shape(ex, name + '_shape', True)
        n, d = dims_of(sh)
        ex.assume(prod(d, iv(0), n) >= 1)
        lv = ex.new_cell(VMem(prod(d, iv(0), n), ex.fresh(name + '_data', z3.ArraySort(I, R)), False, name + '.data'), ('mem', ('real',)))
        cell = lv.root[1]
        ex.ghost.setdefault('owner', {})[cell] = a
        f['raw_data_'] = VBPtr(cell, iv(0))
        f['alloc_shape_'] = sh
    else:
        f['raw_data_'] = NULL
        sh = ex.fresh_val(SH, name + '_none')
        ex.assume(dims_of(sh)[0] == 0)
        f['alloc_shape_'] = sh
    return ex.new_cell(VStruct(TEN, f), T), cell


def fld(ex, lv, f):
    return ex.read(lv.f(f))


def same_shape(ex, a, b):
    n, d = dims_of(a)
    m, e = dims_of(b)
    return z3.And(n == m, forall(0, n, lambda j: d[j] == e[j]))


def wf(ex, lv, tag):
    """representation invariant: live storage of exactly the allocated shape's size, or none at all"""
    raw, sh = fld(ex, lv, 'raw_data_'), fld(ex, lv, 'alloc_shape_')
    n, d = dims_of(sh)
    if isinstance(raw, VPtr) and raw.lv is None:
        ex.prove(n == 0, tag + ': without storage the allocated shape is undefined')
    else:
        m = ex.cells[raw.cell]
        ex.prove(z3.Not(as_bool(m.freed)), tag + ': storage is live')
        ex.prove(raw.off == 0, tag + ': storage pointer is the start of its buffer')
        ex.prove(m.n == prod(d, iv(0), n), tag + ': storage holds exactly the elements of the allocated shape')
        ex.prove(alldef(n, d), tag + ': allocated shape is fully defined')
        own = ex.ghost.get('owner', {}).get(raw.cell)
        if own is not None:
            ex.prove(alloc_id(ex, fld(ex, lv, 'alloc_')) == own, tag + ': the tensor\'s allocator is the one its storage came from')
    return raw


def method(ex, lv, name, args=(), sig=None):
    d = ex.ast.find(TEN + '::' + name, len(args), sig)
    return ex.rv(ex.call_def(d, VPtr(lv), list(args), None))


def method_lv(ex, lv, name, args=(), sig=None):
    d = ex.ast.find(TEN + '::' + name, len(args), sig)
    return ex.call_def(d, VPtr(lv), list(args), None)


def live_others(ex, keep, tag):
    """every buffer not owned by a tensor in `keep` has been released (no leak, no alias)"""
    owned = []
    for lv in keep:
        r = fld(ex, lv, 'raw_data_')
        if isinstance(r, VBPtr):
            owned.append(r.cell)
    ex.prove(len(owned) == len(set(owned)), tag + ': no two tensors share storage')
    for c, v in list(ex.cells.items()):
        if isinstance(v, VMem) and c not in owned:
            ex.prove(as_bool(v.freed), tag + ': storage no longer owned is released')


def data_eq(ex, cell, arr, n, tag):
    m = ex.cells[cell]
    ex.prove(forall(0, n, lambda j: m.arr[j] == arr[j]), tag)


# ---------------------------------------------------------------- goals: life cycle
def ctor(ex, ct, args):
    lv = ex.new_cell(VStruct(TEN, {'alloc_': None, 'allowed_shape_': None, 'raw_data_': None, 'alloc_shape_': None}), T)
    ex.construct_cls(TEN, ct, args, None, into=lv)
    return lv


def g_ctor_shape(ex):
    sh = mk_shape(ex, 's')
    n, d = dims_of(sh)
    try:
        lv = ctor(ex, 'void (nnet::tensorshape, size_t)', [ex.new_cell(sh, SH), ex.new_cell(ex.fresh_int('id'), U64)])
    except CppThrow:
        return
    raw = wf(ex, lv, 'construct from shape')
    full = method(ex, lv, 'is_alloc')
    if isinstance(raw, VBPtr):
        ex.prove(full, 'is_alloc iff storage present')
        ex.prove(same_shape(ex, fld(ex, lv, 'alloc_shape_'), sh), 'allocated shape is the requested shape')
    else:
        ex.prove(z3.Not(full), 'is_alloc iff storage present')
        ex.prove(z3.Not(alldef(n, d)), 'a fully defined shape is allocated on construction')
    g = method(ex, lv, 'get_shape')
    ex.prove(same_shape(ex, g, sh), 'get_shape returns the requested shape')
    ne = method(ex, lv, 'n_elems')
    ex.prove(ne == (prod(d, iv(0), n) if isinstance(raw, VBPtr) else iv(0)), 'n_elems counts stored elements')
    live_others(ex, [lv], 'construct from shape')


def g_ctor_scalar(ex):
    x = ex.fresh('x', R)
    try:
        lv = ctor(ex, 'void (double, size_t)', [ex.new_cell(x, ('real',)), ex.new_cell(ex.fresh_int('id'), U64)])
    except CppThrow:
        return
    raw = wf(ex, lv, 'construct from scalar')
    ex.prove(isinstance(raw, VBPtr), 'scalar tensor is allocated')
    m = ex.cells[raw.cell]
    ex.prove(z3.And(m.n == 1, m.arr[0] == x), 'scalar tensor holds exactly the scalar')


def g_copy(ex, assign):
    src, sc = mk_tensor(ex, 'src')
    s0 = ex.read(src)
    so = ex.new_cell(z3.BoolVal(False), ('bool',))
    arr = ex.cells[sc].arr if sc else None
    if assign:
        dst, dc = mk_tensor(ex, 'dst')
        method_lv(ex, dst, 'operator=', [src], 'const')
    else:
        dst = ctor(ex, 'void (const tensor<double> &, bool)', [src, so])
    tag = 'copy-assign' if assign else 'copy-construct'
    raw = wf(ex, dst, tag)
    ex.prove(isinstance(raw, VBPtr) == (sc is not None), tag + ': target allocated iff source is')
    ex.prove(same_shape(ex, fld(ex, dst, 'alloc_shape_'), s0.fields['alloc_shape_']), tag + ': allocated shape copied')
    ex.prove(same_shape(ex, fld(ex, dst, 'allowed_shape_'), s0.fields['allowed_shape_']), tag + ': allowed shape copied')
    if sc is not None and isinstance(raw, VBPtr):
        data_eq(ex, raw.cell, arr, ex.cells[sc].n, tag + ': every element copied')
        data_eq(ex, sc, arr, ex.cells[sc].n, tag + ': source data unchanged')
    wf(ex, src, tag + ' source')
    live_others(ex, [src, dst], tag)


def g_self_assign(ex):
    t, c = mk_tensor(ex, 't')
    arr = ex.cells[c].arr if c else None
    method_lv(ex, t, 'operator=', [t], 'const')
    raw = wf(ex, t, 'self-assign')
    if c:
        data_eq(ex, raw.cell, arr, ex.cells[c].n, 'self-assign keeps the data')
    live_others(ex, [t], 'self-assign')


def g_shapeonly(ex):
    src, sc = mk_tensor(ex, 'src')
    s0 = ex.read(src)
    dst = ctor(ex, 'void (const tensor<double> &, bool)', [src, ex.new_cell(z3.BoolVal(True), ('bool',))])
    wf(ex, dst, 'shape-only copy')
    ex.prove(same_shape(ex, fld(ex, dst, 'alloc_shape_'), s0.fields['alloc_shape_']), 'shape-only copy: allocated shape copied')
    live_others(ex, [src, dst], 'shape-only copy')


def g_move(ex, assign):
    src, sc = mk_tensor(ex, 'src')
    s0 = ex.read(src)
    arr = ex.cells[sc].arr if sc else None
    tag = 'move-assign' if assign else 'move-construct'
    if assign:
        dst, dc = mk_tensor(ex, 'dst')
        method_lv(ex, dst, 'operator=', [src], '&&')
    else:
        dst = ctor(ex, 'void (tensor<double> &&)', [src])
    raw = wf(ex, dst, tag)
    ex.prove(isinstance(raw, VBPtr) == (sc is not None), tag + ': target allocated iff source was')
    ex.prove(same_shape(ex, fld(ex, dst, 'allowed_shape_'), s0.fields['allowed_shape_']), tag + ': allowed shape moved')
    ex.prove(same_shape(ex, fld(ex, dst, 'alloc_shape_'), s0.fields['alloc_shape_']), tag + ': allocated shape moved')
    if sc:
        data_eq(ex, raw.cell, arr, prod(dims_of(s0.fields['alloc_shape_'])[1], iv(0), dims_of(s0.fields['alloc_shape_'])[0]), tag + ': every element moved')
    r2 = fld(ex, src, 'raw_data_')
    ex.prove(isinstance(r2, VPtr) and r2.lv is None, tag + ': source gives up its storage')
    ex.prove(z3.Not(method(ex, src, 'is_alloc')), tag + ': source is not allocated afterwards')
    ex.prove(method(ex, src, 'n_elems') == 0, tag + ': source reports no elements')
    live_others(ex, [dst], tag)


def g_dtor(ex):
    t, c = mk_tensor(ex, 't')
    d = [x for x in ex.ast.methods(TEN) if x['kind'] == 'CXXDestructorDecl'][0]
    d = ex.ast.definition(d['id'])
    ex.call_def(d, VPtr(t), [], None)
    for cid, v in ex.cells.items():
        if isinstance(v, VMem):
            ex.prove(as_bool(v.freed), 'destructor releases the storage')


def g_set_allocator(ex):
    t, c = mk_tensor(ex, 't')
    s0 = ex.read(t)
    arr = ex.cells[c].arr if c else None
    n = ex.cells[c].n if c else None
    try:
        method(ex, t, 'set_allocator', [ex.new_cell(ex.fresh_int('id'), U64)])
    except CppThrow:
        raw = fld(ex, t, 'raw_data_')
        ex.prove((raw.cell == c) if c else not isinstance(raw, VBPtr), 'set_allocator: refusal keeps the storage')
    raw = wf(ex, t, 'set_allocator')
    ex.prove(isinstance(raw, VBPtr) == (c is not None), 'set_allocator: allocated iff it was')
    ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), s0.fields['alloc_shape_']), 'set_allocator: allocated shape kept')
    ex.prove(same_shape(ex, fld(ex, t, 'allowed_shape_'), s0.fields['allowed_shape_']), 'set_allocator: allowed shape kept')
    if c and isinstance(raw, VBPtr):
        data_eq(ex, raw.cell, arr, n, 'set_allocator: elements kept')
    live_others(ex, [t], 'set_allocator')


def g_dealloc(ex):
    t, c = mk_tensor(ex, 't')
    s0 = ex.read(t)
    r = method(ex, t, 'deallocate')
    ex.prove(r == z3.BoolVal(c is not None), 'deallocate reports whether there was storage')
    wf(ex, t, 'deallocate')
    ex.prove(z3.Not(method(ex, t, 'is_alloc')), 'deallocate leaves the tensor unallocated')
    ex.prove(same_shape(ex, fld(ex, t, 'allowed_shape_'), s0.fields['allowed_shape_']), 'deallocate keeps the allowed shape')
    live_others(ex, [t], 'deallocate')


def g_alloc0(ex):
    t, c = mk_tensor(ex, 't')
    s0 = ex.read(t)
    n, d = dims_of(s0.fields['allowed_shape_'])
    r = method(ex, t, 'allocate')
    raw = wf(ex, t, 'allocate()')
    ex.prove(z3.Implies(r, z3.BoolVal(c is None and isinstance(raw, VBPtr))), 'allocate() succeeds only on an unallocated tensor and leaves it allocated')
    if c is None:
        ex.prove(z3.Implies(alldef(n, d), r), 'allocate() succeeds whenever the allowed shape is fully defined')
        if isinstance(raw, VBPtr):
            ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), s0.fields['allowed_shape_']), 'allocate() gives the allowed shape')
    else:
        ex.prove(isinstance(raw, VBPtr) and raw.cell == c, 'allocate() leaves existing storage alone')
    live_others(ex, [t], 'allocate()')


def g_get(ex):
    t, c = mk_tensor(ex, 't', True)
    n, d = dims_of(fld(ex, t, 'alloc_shape_'))
    co = ex.fresh_val(('vec', U64), 'coord')
    ex.assume(co.n > 0)
    arr, size = ex.cells[c].arr, ex.cells[c].n
    fi = flat(d, co.leaves[0], iv(0), z3.If(co.n < n, co.n, n))
    ex.assume(fi >= 0)
    try:
        r = method(ex, t, 'get', [ex.new_cell(co, ('vec', U64))])
    except CppThrow as e:
        ex.prove(fi >= size, 'get throws only for coordinates outside the shape')
        return
    ex.prove(fi < size, 'get returns only for coordinates inside the shape')
    ex.prove(r == arr[fi], 'get returns the element at the flat index of the coordinate')


def g_expose(ex):
    t, c = mk_tensor(ex, 't', True)
    arr, size = ex.cells[c].arr, ex.cells[c].n
    r = method(ex, t, 'expose')
    rn, ra = vec1(ex, r)
    ex.prove(rn == size, 'expose returns every element')
    ex.prove(forall(0, rn, lambda j: ra[j] == arr[j]), 'expose returns the stored elements in order')
    ex.prove(method(ex, t, 'total_bytes') == size * 8, 'total_bytes == elements * element size')


# ---------------------------------------------------------------- reshape
def pre_inv(ex, t, c):
    """allocated shapes satisfy the allowed shape"""
    if c:
        a, b = fld(ex, t, 'alloc_shape_'), fld(ex, t, 'allowed_shape_')
        n, d = dims_of(a)
        m, e = dims_of(b)
        ex.assume(compat_(n, d, m, e))
        ex.assume(z3.Implies(n == m, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), z3.Or(d[J] == e[J], d[J] == 0, e[J] == 0)), patterns=[d[J], e[J]])))


def after(ex, t, c, arr, s0, tag):
    """-> (changed, raw) ; unchanged storage keeps buffer, data, shape"""
    raw = wf(ex, t, tag)
    same = isinstance(raw, VBPtr) and raw.cell == c
    if same:
        data_eq(ex, c, arr, ex.cells[c].n, tag + ': storage not reallocated keeps its data')
        ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), s0.fields['alloc_shape_']), tag + ': storage not reallocated keeps its shape')
    return same, raw


def fitted(ex, raw, arr, old, new, tag):
    n, d = dims_of(old)
    m, e = dims_of(new)
    ex.prove(forall(0, prod(e, iv(0), m), lambda j: ex.cells[raw.cell].arr[j] == fit_(arr, n, d, m, e)[j]), tag)


def g_alloc_shape(ex):
    t, c = mk_tensor(ex, 't')
    s0 = ex.read(t)
    arr = ex.cells[c].arr if c else None
    sh = mk_shape(ex, 's')
    n, d = dims_of(sh)
    m, e = dims_of(s0.fields['allowed_shape_'])
    k, g = dims_of(s0.fields['alloc_shape_'])
    dd = ex.ast.find(TEN + '::allocate', 1)
    r = ex.rv(ex.call_def(dd, VPtr(t), [ex.new_cell(sh, SH)], None))
    tag = 'allocate(shape)'
    same, raw = after(ex, t, c, arr, s0, tag)
    ok = z3.And(alldef(n, d), compat_(n, d, m, e))
    if c:
        ok = z3.And(ok, z3.Not(compat_(n, d, k, g)))
    ex.prove(z3.Implies(r, ok), tag + ': succeeds only for an admissible, fully defined shape that needs new storage')
    ex.prove(z3.Implies(ok, r), tag + ': succeeds whenever the shape is admissible, fully defined and needs new storage')
    if ex.decide(r):
        ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), sh), tag + ': the tensor takes the requested shape')
        if c:
            fitted(ex, raw, arr, s0.fields['alloc_shape_'], sh, tag + ': data is refitted to the new shape')
    else:
        ex.prove(same if c else (isinstance(raw, VPtr) and raw.lv is None), tag + ': refusal leaves the storage alone')
    ex.prove(same_shape(ex, fld(ex, t, 'allowed_shape_'), s0.fields['allowed_shape_']), tag + ': the allowed shape is kept')
    live_others(ex, [t], tag)


def g_set_shape(ex):
    t, c = mk_tensor(ex, 't')
    pre_inv(ex, t, c)
    s0 = ex.read(t)
    arr = ex.cells[c].arr if c else None
    part = ex.choose(2)
    sh = mk_shape(ex, 's', not part)
    n, d = dims_of(sh)
    k, g = dims_of(s0.fields['alloc_shape_'])
    if part:
        ex.assume(n == k)       # an unknown dim is taken from the stored tensor of the same rank
        ex.assume(dims_of(s0.fields['allowed_shape_'])[0] == k)
    method(ex, t, 'set_shape', [ex.new_cell(sh, SH)])
    tag = 'set_shape'
    same, raw = after(ex, t, c, arr, s0, tag)
    if not c:
        ex.prove(isinstance(raw, VPtr) and raw.lv is None, tag + ': an unallocated tensor stays unallocated')
        ex.prove(same_shape(ex, method(ex, t, 'get_shape'), sh), tag + ': an unallocated tensor reports the new shape')
    elif same:
        ex.prove(compat_(n, d, k, g), tag + ': storage is kept only when it satisfies the new shape')
    else:
        new = fld(ex, t, 'alloc_shape_')
        p, q = dims_of(new)
        if not part:
            ex.prove(same_shape(ex, new, sh), tag + ': takes the requested shape')
        else:
            ex.prove(z3.And(p == n, forall(0, n, lambda j: q[j] == z3.If(d[j] == 0, g[j], d[j]))), tag + ': unknown dims are taken from the stored shape')
        fitted(ex, raw, arr, s0.fields['alloc_shape_'], new, tag + ': data is refitted to the new shape')
    live_others(ex, [t], tag)


def g_copy_from(ex, self_):
    t, c = mk_tensor(ex, 't')
    src, sc = (t, c) if self_ else mk_tensor(ex, 'src')
    s0, o0 = ex.read(t), ex.read(src)
    arr = ex.cells[c].arr if c else None
    sarr = ex.cells[sc].arr if sc else None
    sh = mk_shape(ex, 's')
    n, d = dims_of(sh)
    tag = 'copy_from'
    r = method(ex, t, 'copy_from', [src, ex.new_cell(sh, SH)])
    raw = wf(ex, t, tag)
    ex.prove(r == z3.And(z3.BoolVal(sc is not None), alldef(n, d)), tag + ': succeeds iff the source is allocated and the shape fully defined')
    if ex.decide(r):
        ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), sh), tag + ': the tensor takes the requested shape')
        fitted(ex, raw, sarr, o0.fields['alloc_shape_'], sh, tag + ': data is the refitted source')
    else:
        ex.prove(isinstance(raw, VBPtr) == (c is not None) and (not c or raw.cell == c), tag + ': refusal leaves the storage alone')
        if c:
            data_eq(ex, c, arr, ex.cells[c].n, tag + ': refusal keeps the data')
    if not self_:
        wf(ex, src, tag + ' source')
        if sc:
            data_eq(ex, sc, sarr, ex.cells[sc].n, tag + ': source data unchanged')
    live_others(ex, [t] if self_ else [t, src], tag)


# ---------------------------------------------------------------- shape inference
def c6_data(ex):
    v = ex.fresh_val(('vec', ('real',)), 'data')
    ex.input('ndata', v.n)
    return v.n, ex.new_cell(v, ('vec', ('real',)))


firstundef = z3.Function('first_unknown', z3.ArraySort(I, I), I, I)


def first_unknown(ex, n, d, name):
    """skolem: index of the first unknown dim (exists when the shape is ranked and not fully defined)"""
    f = ex.fresh(name, I)
    ex.assume(z3.And(0 <= f, f < n, d[f] == 0, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < f), d[J] > 0), patterns=[d[J]])))
    return f


def g_guess(ex):
    t, c = mk_tensor(ex, 't')
    sh = fld(ex, t, 'allowed_shape_')
    n, d = dims_of(sh)
    nd, data = c6_data(ex)
    case = ex.choose(3)
    if case == 0:
        ex.assume(alldef(n, d))
    elif case == 1:
        ex.assume(n == 0)
    else:
        f = first_unknown(ex, n, d, 'f')
    r = method(ex, t, 'guess_shape', [data])
    if case == 0:
        ex.prove(r.has == (nd == prod(d, iv(0), n)), 'fully defined: a shape is guessed iff the data count equals the element count')
        if r.val is not None and ex.decide(r.has):
            ex.prove(same_shape(ex, r.val, sh), 'fully defined: the guessed shape is the allowed shape')
            m, e = vec1(ex, r.val.fields['dimensions_'])
            holds(ex, e, d, None, None, m, n, nd)
    elif case == 1:
        ex.prove(r.has, 'unranked: a shape is always guessed')
        if r.val is None:
            return
        m, e = vec1(ex, r.val.fields['dimensions_'])
        ex.prove(z3.And(m == 1, e[0] == nd), 'unranked: the guessed shape is the vector of the data')
        ex.prove(prod(e, iv(0), iv(1)) == nd, 'the guessed shape holds exactly the data')
    else:
        kp = kprod(d, iv(0), n)
        ex.prove(r.has == (nd % kp == 0), 'partial: a shape is guessed iff the known product divides the data count')
        if r.val is not None and ex.decide(r.has):
            m, e = vec1(ex, r.val.fields['dimensions_'])
            ex.prove(m == n, 'partial: rank kept')
            ex.prove(forall(0, n, lambda j: e[j] == z3.If(j == f, nd / kp, z3.If(d[j] == 0, iv(1), d[j]))),
                     'partial: known dims kept, first unknown dim absorbs the data, the others become 1')
            holds(ex, e, d, f, nd / kp, m, n, nd)


def holds(ex, e, d, f, x, m, n, nd):
    """the elements of the guessed shape are exactly the data (induction over the dimensions)"""
    if f is None:
        induct(ex, 'same-product', lambda k: prod(e, iv(0), k) == prod(d, iv(0), k), iv(0), n)
        ex.prove(prod(e, iv(0), n) == prod(d, iv(0), n), 'lemma.inst', 'lemma')
    else:
        induct(ex, 'absorbed-product', lambda k: prod(e, iv(0), k) == z3.If(k > f, kprod(d, iv(0), k) * x, kprod(d, iv(0), k)), iv(0), n)
        ex.prove(prod(e, iv(0), n) == kprod(d, iv(0), n) * x, 'lemma.inst', 'lemma')
    ex.prove(prod(e, iv(0), m) == nd, 'the guessed shape holds exactly the data')


def known_cases(ex, sh):
    """-> (fully defined, ranked, known product) of a shape; a ranked shape that is not fully defined has a first unknown dim"""
    n, d = dims_of(sh)
    full = ex.fresh('full', B)
    f = ex.fresh('firstunk', I)
    ex.assume(z3.Implies(full, alldef(n, d)))
    ex.assume(z3.Implies(z3.Not(full), z3.Or(n == 0, z3.And(0 <= f, f < n, d[f] == 0, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < f), d[J] > 0), patterns=[d[J]])))))
    return n, d, full, f, kprod(d, iv(0), n)


def c_guess(ex, this, args, node):
    """guess_shape as proved under C06"""
    n, d, full, f, kp = known_cases(ex, fld(ex, this.lv, 'allowed_shape_'))
    nd = ex.vlen(ex.rv(args[0]))
    has = z3.If(full, nd == prod(d, iv(0), n), z3.Or(n == 0, nd % kp == 0))
    v = ex.fresh_val(SH, 'guess')
    m, e = dims_of(v)
    if not ex.decide(has):
        return VOpt(z3.BoolVal(False), None)
    ex.assume(z3.Implies(full, z3.And(m == n, forall(0, n, lambda j: e[j] == d[j], lambda j: [e[j]]))))
    ex.assume(z3.Implies(n == 0, z3.And(m == 1, e[0] == nd)))
    ex.assume(z3.Implies(z3.And(z3.Not(full), n > 0), z3.And(m == n, forall(
        0, n, lambda j: e[j] == z3.If(j == f, nd / kp, z3.If(d[j] == 0, iv(1), d[j])), lambda j: [e[j]]))))
    ex.assume(prod(e, iv(0), m) == nd)
    # equal rank and agreeing in every dimension known on both sides: the criterion proved under C03
    ex.assume(z3.Implies(z3.Or(n == 0, z3.Not(z3.Exists([J], z3.And(0 <= J, J < n, e[J] != d[J], e[J] != 0, d[J] != 0)))), compat_(m, e, n, d)))
    return VOpt(z3.BoolVal(True), v)


def c_fits(ex, this, args, node):
    """is_compatible_with(data) as proved under C06"""
    if not isinstance(ex.rv(args[0]), (VVec, VList)):
        return NotImplemented
    raw = fld(ex, this.lv, 'raw_data_')
    n, d, full, f, kp = known_cases(ex, fld(ex, this.lv, 'alloc_shape_' if isinstance(raw, VBPtr) else 'allowed_shape_'))
    nd = ex.vlen(ex.rv(args[0]))
    r = ex.fresh('fits', B)
    ex.assume(z3.Implies(full, r == (nd == prod(d, iv(0), n))))
    ex.assume(z3.Implies(n == 0, r))
    ex.assume(z3.Implies(z3.And(z3.Not(full), n > 0, kp > 0), r == (nd % kp == 0)))
    return r


INFER = {TEN + '::guess_shape': c_guess, TEN + '::is_compatible_with': c_fits}


def g_loose(ex):
    t, c = mk_tensor(ex, 't')
    sh = fld(ex, t, 'allowed_shape_')
    n, d = dims_of(sh)
    nd, data = c6_data(ex)
    case = ex.choose(3)
    if case == 0:
        ex.assume(alldef(n, d))
    elif case == 1:
        ex.assume(n == 0)
    else:
        f = first_unknown(ex, n, d, 'f')
    r = method(ex, t, 'loosely_guess_shape', [data])
    if case == 0:
        ex.prove(r.has == (nd <= prod(d, iv(0), n)), 'fully defined: a loose shape is guessed iff the data fits')
        if r.val is not None and ex.decide(r.has):
            ex.prove(same_shape(ex, r.val, sh), 'fully defined: the guessed shape is the allowed shape')
    elif case == 1:
        ex.prove(r.has, 'unranked: a loose shape is always guessed')
        if r.val is None:
            return
        m, e = vec1(ex, r.val.fields['dimensions_'])
        ex.prove(z3.And(m == 1, e[0] == nd), 'unranked: the loose guess is the vector of the data')
    else:
        kp = kprod(d, iv(0), n)
        ex.prove(r.has, 'partial: a loose shape is always guessed')
        if r.val is None:
            return
        m, e = vec1(ex, r.val.fields['dimensions_'])
        ex.prove(m == n, 'partial: rank kept')
        ex.prove(forall(0, n, lambda j: e[j] == z3.If(j == f, z3.If(nd % kp == 0, nd / kp, nd / kp + 1), z3.If(d[j] == 0, iv(1), d[j]))),
                 'partial: first unknown dim is the least that fits the data')


def t_guess(L):
    ex = L.ex
    for rn, r, ln in arr_terms(L, True, I):
        for vn, v, _ in arr_terms(L, False, I):
            for kn, k in L.int_terms(None):
                yield 'ones %s %s %s' % (rn, vn, kn), lambda r=r, v=v, k=k: z3.ForAll(
                    [J], z3.Implies(z3.And(0 <= J, J < k()), r()[J] == z3.If(v()[J] == 0, iv(1), v()[J])), patterns=[r()[J]])
                yield 'rest %s %s %s' % (rn, vn, kn), lambda r=r, v=v, k=k: z3.ForAll(
                    [J], z3.Implies(J >= k(), r()[J] == v()[J]), patterns=[r()[J]])
    for vn, v, ln in arr_terms(L, False, I):
        for fn, f in L.int_terms(True):
            for kn, k in L.int_terms(True):
                if fn != kn:
                    yield 'first %s %s %s' % (vn, fn, kn), lambda v=v, f=f, k=k, ln=ln: z3.Or(
                        z3.And(f() == ln(), z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), v()[J] != 0), patterns=[v()[J]])),
                        z3.And(0 <= f(), f() < k(), v()[f()] == 0,
                               z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < f()), v()[J] != 0), patterns=[v()[J]])))


def t_kpos(L):
    for an, a in L.int_terms(True):
        yield 'pos ' + an, lambda a=a: a() > 0


def g_datacompat(ex):
    t, c = mk_tensor(ex, 't')
    sh = fld(ex, t, 'alloc_shape_' if c else 'allowed_shape_')
    n, d = dims_of(sh)
    nd, data = c6_data(ex)
    r = method(ex, t, 'is_compatible_with', [data], 'vector')
    kp = z3.If(n == 0, iv(0), kprod(d, iv(0), n))
    w = ex.fresh('w', I)
    ex.prove(z3.Implies(alldef(n, d), r == (nd == prod(d, iv(0), n))), 'fully defined: compatible iff the count is exact')
    ex.prove(z3.Implies(z3.And(n > 0, 0 <= w, w < n, d[w] == 0, kp > 0), r == (nd % kp == 0)), 'partial: compatible iff the known product divides the count')
    ex.prove(z3.Implies(n == 0, r), 'unranked: compatible with any data')


def g_loosecompat(ex):
    t, c = mk_tensor(ex, 't')
    sh = fld(ex, t, 'alloc_shape_' if c else 'allowed_shape_')
    n, d = dims_of(sh)
    nd, data = c6_data(ex)
    r = method(ex, t, 'is_loosely_compatible_with', [data], 'vector')
    w = ex.fresh('w', I)
    ex.prove(z3.Implies(alldef(n, d), r == (nd <= prod(d, iv(0), n))), 'fully defined: loosely compatible iff the data fits')
    ex.prove(z3.Implies(z3.Or(n == 0, z3.And(0 <= w, w < n, d[w] == 0)), r), 'not fully defined: loosely compatible with any data')


o = {'use': USE}
tm = [t_range, t_prod]
GOALS = {
    'C04': [
        ('tensor.allocate(shape)', g_alloc_shape, tm, o),
        ('tensor.set_shape', g_set_shape, [t_range, t_eqints, S.t_merge], o),
        ('tensor.copy_from', lambda ex: g_copy_from(ex, False), tm, o),
        ('tensor.copy_from/self', lambda ex: g_copy_from(ex, True), tm, o),
    ],
    'C05': [
        ('tensor.tensor(shape)', g_ctor_shape, [], o),
        ('tensor.tensor(scalar)', g_ctor_scalar, [], o),
        ('tensor.copy-constructor', lambda ex: g_copy(ex, False), [], o),
        ('tensor.copy-assignment', lambda ex: g_copy(ex, True), [], o),
        ('tensor.self-assignment', g_self_assign, [], o),
        ('tensor.shape-only copy', g_shapeonly, [], o),
        ('tensor.move-constructor', lambda ex: g_move(ex, False), [], o),
        ('tensor.move-assignment', lambda ex: g_move(ex, True), [], o),
        ('tensor.~tensor', g_dtor, [], o),
        ('tensor.deallocate', g_dealloc, [], o),
        ('tensor.set_allocator', g_set_allocator, [], o),
        ('tensor.allocate()', g_alloc0, [], o),
        ('tensor.get', g_get, [], o),
        ('tensor.expose/total_bytes', g_expose, [], o),
    ],
    'C06': [
        ('tensor.guess_shape', g_guess, [t_range, t_prod, t_guess, t_kpos], o),
        ('tensor.loosely_guess_shape', g_loose, [t_range, t_prod, t_guess, t_kpos], o),
        ('tensor.is_compatible_with(data)', g_datacompat, [t_range, t_prod], o),
        ('tensor.is_loosely_compatible_with(data)', g_loosecompat, [t_range, t_prod], o),
    ],
}
