"""Contracts of the initialisers and of the generator node (C19)."""
from .leaf import *
from . import leaf as L_
from vc.frontend import ExtractionError
from vc.stl import call_op, loop_over_named, _at, _adv, Rng

TU = 'fill_tu.cpp'
UNI, NOR, GEN = NS + 'rand_uniform<double>', NS + 'rand_normal<double>', NS + 'generator<double>'
ICON = NS + 'iconnector<double>'
DUNI, DNOR = 'std::uniform_real_distribution<double>', 'std::normal_distribution<double>'


def call(ex, cls, lv, name, args=()):
    d = ex.find_method(cls, name, len(args))
    if d is None:
        raise ExtractionError('no definition of %s::%s' % (cls, name))
    return ex.call_def(d, VPtr(lv), list(args), None)


drawn = {DUNI: z3.Function('drawn_uniform', R, R, R, B), DNOR: z3.Function('drawn_normal', R, R, R, B)}


def dist_of(ty):
    t = str(ty)
    if '_Bind' in t:
        return None
    return DUNI if 'uniform_real_distribution' in t or 'general_uniform' in t else DNOR if 'normal_distribution' in t else None


class FillInterp(LeafInterp):
    """a distribution object is its pair of parameters; calling it yields a value of that distribution"""
    def hook_construct(self, cls, ct, argn, n):
        if '_Bind' in cls:
            return self.rv(self.args_of(argn)[0])
        d = dist_of(cls)
        if d is None:
            return NotImplemented
        a = [self.rv(x) for x in self.args_of(argn)]
        a = [x for x in a if x is not None]
        if len(a) == 1 and isinstance(a[0], VStruct):
            return a[0]
        a += [z3.RealVal(0), z3.RealVal(1)][len(a):]
        return VStruct(d, {'a': as_real(a[0]), 'b': as_real(a[1])})

    def default_value(self, ty, zero=True):
        d = dist_of(ty) if ty[0] == 'cls' else None
        if d:
            return VStruct(d, {'a': z3.RealVal(0), 'b': z3.RealVal(1)})
        return super().default_value(ty, zero)

    def draw(self, d):
        r = self.fresh('draw', R)
        a, b = d.fields['a'], d.fields['b']
        self.assume(drawn[d.cls](a, b, r))
        if d.cls == DUNI:
            self.prove(a <= b, 'uniform distribution: the lower bound is not above the upper bound')
            self.assume(z3.And(a <= r, r <= b))
        return r

    def hook_operator(self, name, did, argn, n):
        if name == 'operator()':
            x = self.rv(self.ev(argn[0]))
            if isinstance(x, VStruct) and x.cls in drawn:
                for a in argn[1:]:
                    self.ev(a)
                return self.draw(x)
            if isinstance(x, VFn):
                return x.call(self, [self.ev(a) for a in argn[1:]])
        return super().hook_operator(name, did, argn, n)

    def hook_member(self, obj, arrow, name, q, argn, n):
        if q == ICON + '::operator=':
            p = obj if isinstance(obj, VPtr) else VPtr(obj)
            return c_iconn_assign(self, p, [self.ev(a) for a in argn], n)
        x = self.rv(obj) if 'distribution' in str(q) else None
        if isinstance(x, VStruct) and x.cls in drawn:
            k = {'a': 'a', 'min': 'a', 'mean': 'a', 'b': 'b', 'max': 'b', 'stddev': 'b'}.get(name)
            if k:
                return x.fields[k]
        return super().hook_member(obj, arrow, name, q, argn, n)

    def call_opaque(self, f, args, node):
        return super().call_opaque(f, args, node)

    def hook_free(self, name, args, n):
        if name in ('ref', 'cref'):
            return args[0]
        if name == 'get_generator':
            return c_engine(self, None, args, n)
        if name == 'bind':
            f = self.rv(args[0])
            if isinstance(f, VStruct) and f.cls in drawn:
                return VFn('bind', lambda ex, a: ex.draw(f))
        if name in ('generate', 'generate_n'):
            a0 = self.rv(args[0])
            cnt = as_int(self.rv(args[1])) if name == 'generate_n' else Rng(self, a0, self.rv(args[1])).n
            f = args[2]
            loop_over_named(self, n['id'], cnt, lambda k: self.write(_at(self, a0, k), self.rv(call_op(self, f, [], n))), [])
            return _adv(self, a0, cnt)
        return NotImplemented


INTERP = FillInterp


def c_engine(ex, this, args, node):
    """the shared engine: any state"""
    return ex.new_cell(VOpaque('std::default_random_engine'), ('cls', 'std::default_random_engine'))


def c_default_alloc(ex, this, args, node):
    """the default allocator is registered when the program starts"""
    a = ex.fresh('alloc', I)
    ex.assume(a != 0)
    return VRef('nnet::iallocator', a)


def c_good(ex, this, args, node):
    return ex.read(this.lv).fields['good']


def c_depshape(ex, this, args, node):
    return ex.read(this.lv).fields['shape']


CONTRACTS = dict(L_.CONTRACTS)
CONTRACTS.update({
    'nnet::alloc_builder::get': c_default_alloc,
    INO + '::good_status': c_good,
    INO + '::get_shape': c_depshape,
})
USE = tuple(CONTRACTS)
USED = tuple(x for x in USE if x != INI + '::calc_data')


def t_drawn(L):
    """prefix filled with draws of one of the distributions around"""
    ex = L.ex
    for dn, d, ln in arr_terms(L, True, R):
        for kn, k in L.int_terms(True):
            for (c, f), (a, b) in ex.ghost.get('dist', {}).items():
                p = drawn[c]
                yield 'drawn %s %s %s' % (dn, f, kn), lambda d=d, k=k, p=p, a=a, b=b: z3.ForAll(
                    [J], z3.Implies(z3.And(0 <= J, J < k()), p(a, b, d()[J])), patterns=[d()[J]])
                yield 'within %s %s %s' % (dn, f, kn), lambda d=d, k=k, a=a, b=b: z3.ForAll(
                    [J], z3.Implies(z3.And(0 <= J, J < k()), z3.And(a <= d()[J], d()[J] <= b)), patterns=[d()[J]])


def mk_init(ex, cls):
    d = DUNI if cls == UNI else DNOR
    a, b = ex.fresh('p0', R), ex.fresh('p1', R)
    if cls == UNI:
        ex.assume(a <= b)
    ex.ghost.setdefault('dist', {})[(d, 'it')] = (a, b)
    return ex.new_cell(VStruct(cls, {'distribution_': VStruct(d, {'a': a, 'b': b})}), ('cls', cls)), d, a, b


def filled(ex, cls, m, d, a, b, tag):
    ex.prove(forall(0, m.n, lambda j: drawn[d](a, b, m.arr[j])), tag + ': every element is a draw of its distribution')
    if cls == UNI:
        ex.prove(forall(0, m.n, lambda j: z3.And(a <= m.arr[j], m.arr[j] <= b)), tag + ': every element lies between the bounds')


def fill_with(ex, ini, cls, d, a, b, tag):
    t, c = mk_tensor(ex, 't', True)
    u, uc = mk_tensor(ex, 'other', True)
    n, dd = dims_of(fld(ex, t, 'alloc_shape_'))
    o = ex.cells[uc]
    call(ex, cls, ini, 'operator()', [t])
    m = ex.cells[c]
    ex.prove(m.n == prod(dd, iv(0), n), tag + ': keeps the size')
    if cls == CINI:
        ex.prove(forall(0, m.n, lambda j: m.arr[j] == a), tag + ': every element is its constant')
    else:
        filled(ex, cls, m, d, a, b, tag)
    data_eq(ex, uc, o.arr, o.n, tag + ': storage of other tensors unchanged')
    wf(ex, t, tag)


def g_rand(ex, cls):
    ini, d, a, b = mk_init(ex, cls)
    fill_with(ex, ini, cls, d, a, b, cls.split('::')[1].split('<')[0])
    s = ex.read(ini).fields['distribution_'].fields
    ex.prove(z3.And(s['a'] == a, s['b'] == b), 'filling keeps the parameters')


def g_ctor(ex, cls):
    """an initialiser built from parameters, and every copy of it, fills with those parameters"""
    d = {UNI: DUNI, NOR: DNOR}.get(cls)
    a, b = ex.fresh('p0', R), ex.fresh('p1', R)
    if cls == UNI:
        ex.assume(a <= b)
    ex.ghost.setdefault('dist', {})[(d, 'it')] = (a, b)
    args = [a] if cls == CINI else [a, b]
    sig = 'void (double)' if cls == CINI else 'void (double, double)'
    v = ex.construct_cls(cls, sig, [ex.new_cell(x, REAL) for x in args], None)
    lv = ex.new_cell(v, ('cls', cls))
    way = ex.choose(3)
    tag = '%s(%s)' % (cls.split('::')[1].split('<')[0], ('built', 'cloned', 'moved')[way])
    if way:
        p = ex.rv(call(ex, cls, lv, 'clone' if way == 1 else 'move'))
        ex.prove(isinstance(p, VPtr) and p.lv is not None, tag + ': yields an initialiser')
        ex.prove(p.lv.key() != lv.key(), tag + ': is a different object')
        w = ex.read(p.lv)
        ex.prove(isinstance(w, VStruct) and w.cls == cls, tag + ': of the same kind')
        lv = p.lv
    fill_with(ex, lv, cls, d, a, b, tag)


# ---------------------------------------------------------------- the generator node
def mk_gen(ex, has):
    t, c = mk_tensor(ex, 'data', True) if has else (None, None)
    sh = mk_shape(ex, 'dep')
    good = ex.fresh('dep_good', B)
    dep = ex.new_cell(VStruct(INO, {'shape': sh, 'good': good}), ('cls', INO))
    ini = ex.new_cell(VStruct(INI, {}), ('cls', INI))
    g = ex.new_cell(VStruct(GEN, {'data_': VPtr(t) if has else NULL, 'init_': VPtr(ini), 'label_': VStr(('g',)),
                                  'is_init_': z3.BoolVal(False),
                                  'dependencies_': VList(('ptr', ('cls', 'nnet::subject')), [VPtr(dep)])}), ('cls', GEN))
    return g, t, c, dep, sh, good


def g_update(ex):
    has = bool(ex.choose(2))
    g, t, c, dep, sh, good = mk_gen(ex, has)
    n, d = dims_of(sh)
    if has:
        k, e = dims_of(fld(ex, t, 'alloc_shape_'))
        o = ex.cells[c]
        sh0 = fld(ex, t, 'alloc_shape_')
    idx = ex.fresh_val(('uset', ('int', 64, False)), 'argidx') if False else VStr(('args',))
    call(ex, GEN, g, 'update', [idx])
    tag = 'generator.update'
    v = ex.read(g).fields['data_']
    filled_ = ex.ghost.get('initv')
    ev = ex.ghost.get('notified', [])
    ready = z3.And(as_bool(good), alldef(n, d))
    stale = z3.BoolVal(True) if not has else z3.Not(compat_(k, e, n, d))
    if filled_ is None:
        ex.prove(z3.Not(z3.And(ready, stale)), tag + ': not refilled only while the source has no value or the shape still fits')
        ex.prove(len(ev) == 0, tag + ': observers hear of a new draw only')
        if has:
            ex.prove(isinstance(v, VPtr) and v.lv is not None and v.lv.key() == t.key(), tag + ': keeps its tensor')
            raw = fld(ex, t, 'raw_data_')
            ex.prove(isinstance(raw, VBPtr) and raw.cell == c, tag + ': keeps its storage')
            data_eq(ex, c, o.arr, o.n, tag + ': keeps its draw')
            ex.prove(same_shape(ex, fld(ex, t, 'alloc_shape_'), sh0), tag + ': keeps its shape')
        else:
            ex.prove(isinstance(v, VPtr) and v.lv is None, tag + ': nothing drawn yet')
        return
    ex.prove(z3.And(ready, stale), tag + ': draws only when the source is ready and the shape changed')
    ex.prove(isinstance(v, VPtr) and v.lv is not None, tag + ': holds a tensor')
    raw = wf(ex, v.lv, tag)
    ex.prove(isinstance(raw, VBPtr), tag + ': has storage')
    if isinstance(raw, VBPtr):
        m = ex.cells[raw.cell]
        ex.prove(m.n == prod(d, iv(0), n), tag + ': one element per position of the shape')
        ex.prove(forall(0, m.n, lambda j: m.arr[j] == filled_[j]), tag + ': every element is from the one draw')
    ex.prove(same_shape(ex, fld(ex, v.lv, 'alloc_shape_'), sh), tag + ': takes the shape of the node it depends on')
    ex.prove(len(ev) == 1, tag + ': observers are notified once')
    if ev:
        a, b = ev[-1], gsnap(ex, g)
        ex.prove(a[0] == b[0], tag + ': observers see the new storage')
        if a[0] is not None and a[0] == b[0]:
            ex.prove(forall(0, b[2], lambda j: a[1][j] == b[1][j]), tag + ': observers see the final elements')


def gsnap(ex, lv):
    d = ex.read(lv).fields['data_']
    if d.lv is None:
        return None, None, None
    raw = fld(ex, d.lv, 'raw_data_')
    if isinstance(raw, VBPtr):
        m = ex.cells[raw.cell]
        return raw.cell, m.arr, m.n
    return None, None, None


def c_gnotify(ex, this, args, node):
    ex.ghost.setdefault('notified', []).append(gsnap(ex, this.lv))
    return VOIDV


CONTRACTS['nnet::subject::notify'] = lambda ex, this, args, node: (
    c_gnotify if ex.read(this.lv).cls == GEN else c_notify)(ex, this, args, node)


def g_eval_gen(ex):
    has = bool(ex.choose(2))
    g, t, c, dep, sh, good = mk_gen(ex, has)
    r = ex.rv(call(ex, GEN, g, 'get_eval'))
    ex.prove((r.lv is not None) == has and (not has or r.lv.key() == t.key()), 'generator: evaluates to its own draw')
    ex.prove(as_bool(ex.rv(call(ex, GEN, g, 'good_status'))) == z3.BoolVal(has), 'generator: readable exactly when it holds a draw')
    s = ex.rv(call(ex, GEN, g, 'get_shape'))
    n, d = dims_of(s)
    if has:
        ex.prove(same_shape(ex, s, fld(ex, t, 'alloc_shape_')), 'generator: reports the shape of its draw')
    else:
        ex.prove(n == 0, 'generator: no shape before the first draw')


def c_iconn_base(ex, this, args, node):
    """iconnector(dependencies, label) subscribes to its arguments; iconnector(other) keeps the arguments of the other (C13)"""
    a = ex.rv(args[0])
    lv = this.lv
    ex.write(lv.f('label_'), VStr(('g',)))
    if isinstance(a, VStruct):
        ex.write(lv.f('dependencies_'), a.fields['dependencies_'])
    else:
        items = a.items if isinstance(a, VList) else None
        if items is None:
            raise ExtractionError('dependencies of the generator')
        ex.write(lv.f('dependencies_'), VList(('ptr', ('cls', 'nnet::subject')), [ex.rv(x) for x in items]))
    return VOIDV


def c_iconn_assign(ex, this, args, node):
    a = ex.read(args[0]) if isinstance(args[0], LV) else ex.rv(args[0])
    ex.write(this.lv.f('dependencies_'), a.fields['dependencies_'])
    return this.lv


CONTRACTS.update({INI + '::move': c_iclone, 'nnet::identifiable::(base)': lambda ex, this, args, node: VOIDV, ICON + '::(base)': c_iconn_base, ICON + '::operator=': c_iconn_assign})
USE = tuple(CONTRACTS)
USED = tuple(x for x in USE if x != INI + '::calc_data')


def g_build(ex):
    """a generator just built holds one draw of the shape of its source, or nothing while that shape is unknown"""
    sh = mk_shape(ex, 'dep')
    good = ex.fresh('dep_good', B)
    n, d = dims_of(sh)
    dep = ex.new_cell(VStruct(INO, {'shape': sh, 'good': good}), ('cls', INO))
    ini = ex.new_cell(VStruct(INI, {}), ('cls', INI))
    v = ex.construct_cls(GEN, 'void (inode<double> *, const initializer<double> &, std::string)',
                         [VPtr(dep), ini, VStr(('g',))], None)
    g = ex.new_cell(v, ('cls', GEN))
    tag = 'generator()'
    t, a = v.fields['data_'], ex.ghost.get('initv')
    ready = z3.And(as_bool(good), alldef(n, d))
    i = v.fields['init_']
    ex.prove(isinstance(i, VPtr) and i.lv is not None and i.lv.key() != ini.key(), tag + ': has an initialiser of its own')
    if t.lv is None:
        ex.prove(z3.Not(ready), tag + ': nothing is drawn only while the source has no value')
        return
    ex.prove(ready, tag + ': draws only once the source has a value')
    ex.prove(a is not None, tag + ': the initialiser is run')
    raw = wf(ex, t.lv, tag)
    ex.prove(isinstance(raw, VBPtr), tag + ': has storage')
    if isinstance(raw, VBPtr) and a is not None:
        m = ex.cells[raw.cell]
        ex.prove(m.n == prod(d, iv(0), n), tag + ': one element per position of the shape')
        ex.prove(forall(0, m.n, lambda j: m.arr[j] == a[j]), tag + ': every element is from the draw')
    ex.prove(same_shape(ex, fld(ex, t.lv, 'alloc_shape_'), sh), tag + ': takes the shape of its source')


def g_copy(ex, way):
    """copy and move construction and assignment: the result holds the same draw in storage of its own"""
    has = bool(ex.choose(2))
    src, t, c, dep, sh, good = mk_gen(ex, has)
    o = ex.cells[c] if has else None
    sh0 = fld(ex, t, 'alloc_shape_') if has else None
    tag = 'generator ' + way
    move = 'move' in way
    if 'assign' in way:
        has2 = bool(ex.choose(2))
        t2, c2 = mk_tensor(ex, 'old', True) if has2 else (None, None)
        ini2 = ex.new_cell(VStruct(INI, {}), ('cls', INI))
        dst = ex.new_cell(VStruct(GEN, {'data_': VPtr(t2) if has2 else NULL, 'init_': VPtr(ini2), 'label_': VStr(('h',)),
                                        'dependencies_': VList(('ptr', ('cls', 'nnet::subject')), [])}), ('cls', GEN))
        fd = [x for x in ex.ast.methods(GEN, 'operator=') if ('&&' in x['type']['qualType']) == move][0]
        ex.call_def(ex.ast.definition(fd['id']), VPtr(dst), [src], None)
        if has2:
            ex.prove(t2.root[1] in ex.ghost.get('dead', ()), tag + ': the old tensor is released')
        ex.prove(ini2.root[1] in ex.ghost.get('dead', ()), tag + ': the old initialiser is released')
        ev = ex.ghost.get('notified', [])
        ex.prove(len(ev) == 1, tag + ': observers are notified once')
        if ev:
            ex.prove(ev[0][0] == gsnap(ex, dst)[0], tag + ': observers see the new draw')
    else:
        v = ex.construct_cls(GEN, 'void (generator<double> &&)' if move else 'void (const generator<double> &)', [src], None)
        dst = ex.new_cell(v, ('cls', GEN))
    w = ex.read(dst)
    d, i = w.fields['data_'], w.fields['init_']
    ex.prove((d.lv is not None) == has, tag + ': holds a draw exactly when the source does')
    si = ex.read(src).fields['init_']
    dead = ex.ghost.get('dead', ())
    ex.prove(i.lv is not None and i.lv.root[1] not in dead, tag + ': has an initialiser')
    if i.lv is not None and si.lv is not None:
        ex.prove(i.lv.key() != si.lv.key(), tag + ': shares no initialiser')
    if has and d.lv is not None:
        ex.prove(d.lv.root[1] not in dead, tag + ': its tensor is alive')
        sd = ex.read(src).fields['data_']
        ex.prove(sd.lv is None or sd.lv.key() != d.lv.key(), tag + ': shares no tensor')
        raw = wf(ex, d.lv, tag)
        ex.prove(isinstance(raw, VBPtr), tag + ': has storage')
        if isinstance(raw, VBPtr):
            m = ex.cells[raw.cell]
            ex.prove(m.n == o.n, tag + ': same number of elements')
            ex.prove(forall(0, o.n, lambda j: m.arr[j] == o.arr[j]), tag + ': same elements')
            if not move:
                ex.prove(raw.cell != c, tag + ': storage is its own')
        ex.prove(same_shape(ex, fld(ex, d.lv, 'alloc_shape_'), sh0), tag + ': same shape')
    if has and not move:
        data_eq(ex, c, o.arr, o.n, tag + ': the source keeps its draw')
    dl = ex.read(dst).fields['dependencies_']
    ex.prove(isinstance(dl, VList) and len(dl.items) == 1 and ex.rv(dl.items[0]).lv.key() == dep.key(), tag + ': depends on the same node')


FT = [t_range, t_prod, t_drawn]
of = {'use': USED}
og = {'use': USE}
GOALS = {'C19': [
    ('rand_uniform', lambda ex: g_rand(ex, UNI), FT, of),
    ('rand_normal', lambda ex: g_rand(ex, NOR), FT, of),
    ('const_init', g_const_init, [], of),
    ('rand_uniform build, clone, move', lambda ex: g_ctor(ex, UNI), FT, of),
    ('rand_normal build, clone, move', lambda ex: g_ctor(ex, NOR), FT, of),
    ('const_init build, clone, move', lambda ex: g_ctor(ex, CINI), FT, of),
    ('generator.update', g_update, [t_range, t_prod], og),
    ('generator()', g_build, [t_range, t_prod], og),
    ('generator copy', lambda ex: g_copy(ex, 'copy'), [t_range, t_prod], og),
    ('generator move', lambda ex: g_copy(ex, 'move'), [t_range, t_prod], og),
    ('generator copy assignment', lambda ex: g_copy(ex, 'copy assignment'), [t_range, t_prod], og),
    ('generator move assignment', lambda ex: g_copy(ex, 'move assignment'), [t_range, t_prod], og),
    ('generator.eval', g_eval_gen, [], og),
]}
