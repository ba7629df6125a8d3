"""Contracts of the optimisers (C17)."""
from .nodes import *
from . import nodes as ND
from .graph import peek

TU = 'gd_tu.cpp'
GD, VGB, RMS, LEAF = 'nnet::gd_updater', 'nnet::vgb_updater', 'nnet::rmspropupdater', 'nnet::ileaf<double>'
CINI, SUBJ = 'nnet::const_init<double>', 'nnet::subject'
SINT = ('int', 64, True)
isvar = z3.Function('is_variable', I, B)
DER = z3.Function('gradient_of', I, I, I)
PROC = z3.Function('processed', I, I, I)
UPD = z3.Function('update_for', I, I, I)


# ---------------------------------------------------------------- values of nodes at one element
def value(ex, p):
    """value of an operand at an arbitrary element (scalars spread, C07); graph nodes see what their leaves last told them (C14)"""
    if is_z3(p):
        return p
    v = ex.read(p.lv)
    if v.cls == VAR:
        return v.fields['value']
    return calc(ex, v.fields['x'])


def part(ex, p):
    if not is_z3(p) and ex.read(p.lv).cls == VAR:
        return ex.read(p.lv).fields['pub']
    return value(ex, p)


SQRT, POW = z3.Function('m_sqrt', R, R), z3.Function('m_pow', R, R, R)


def calc(ex, e):
    if e.op == 'opaque':
        return ex.read(e.args[0])
    a = [part(ex, x) for x in e.args]
    if e.op == 'add':
        return a[0] + a[1]
    if e.op == 'sub':
        return a[0] - a[1]
    if e.op == 'neg':
        return -a[0]
    if e.op == 'mul':
        return a[0] * a[1]
    if e.op == 'div':
        return a[0] / a[1]
    if e.op == 'sqrt':
        return SQRT(a[0])
    if e.op == 'pow':
        if z3.is_rational_value(z3.simplify(a[1])) and z3.simplify(a[1]).as_fraction() == 2:
            return a[0] * a[0]
        return POW(a[0], a[1])
    if e.op == 'identity':
        return a[0]
    raise Unsupported('value of ' + e.op)


def c_assign(kind):
    """building an update changes nothing; running it changes this variable only (C15)"""
    def c(ex, this, args, node):
        lv, src = this.lv, to_node(ex, args[0])

        def run(ex, a):
            v = ex.read(lv).fields['value']
            s = value(ex, src)
            ex.write(lv.f('value'), {'assign': s, 'assign_add': v + s, 'assign_sub': v - s}[kind])
            ex.ghost.setdefault('log', []).append(('write', lv.key()))
            if ex.decide(as_bool(ex.rv(a[0]))):
                publish(ex, lv)
            return VOIDV
        return VFn(kind, run)
    return c


def publish(ex, lv):
    ex.write(lv.f('pub'), ex.read(lv).fields['value'])
    ex.ghost.setdefault('log', []).append(('tell', lv.key(), ex.read(lv).fields['value']))


def c_notify(ex, this, args, node):
    publish(ex, this.lv)
    return VOIDV


def c_newvar(ex, cls, args, node):
    """variable(shape, initialiser, name): not initialised"""
    sh = ex.rv(args[0])
    if not (isinstance(sh, VStruct) and sh.cls == 'shape of'):
        raise Unsupported('shape of a new variable')
    ini = ex.rv(args[1]) if not isinstance(args[1], LV) else ex.read(args[1])
    u = ex.fresh('uninitialised', R)
    return VStruct(VAR, {'value': u, 'pub': u, 'init': ini.fields['value_'], 'shape': sh})


def c_initialize(ex, this, args, node):
    f = ex.read(this.lv).fields
    ex.write(this.lv.f('value'), f['init'])
    publish(ex, this.lv)
    return VOIDV


CONTRACTS = dict(ND.CONTRACTS)
CONTRACTS.update({VAR + '::' + k: c_assign(k) for k in ('assign', 'assign_add', 'assign_sub')})
CONTRACTS.update({
    VAR + '::(ctor)': c_newvar,
    VAR + '::initialize': c_initialize,
    SUBJ + '::notify': c_notify,
})


def c_shape(ex, this, args, node):
    return ex.read(this.lv).fields['shape']


CONTRACTS.update({x + '::get_shape': c_shape for x in (VAR, LEAF, INO)})
USE = tuple(CONTRACTS)


class GdInterp(NodeInterp):
    def encode(self, ty, v):
        if ty[0] == 'ptr' and isinstance(v, VStruct) and v.cls == VP:
            v = v.fields['node']
        return super().encode(ty, v)

    def dyn_cast(self, x, ty, n):
        if isinstance(x, VRef):
            if self.decide(z3.And(x.e != 0, isvar(x.e))):
                return VRef(VAR, x.e)
            return NULL
        return super().dyn_cast(x, ty, n)


INTERP = GdInterp


def mk_var(ex, name):
    v = ex.fresh(name, R)
    lv = ex.new_cell(VStruct(VAR, {'value': v, 'pub': v, 'init': v, 'shape': None}), ('cls', VAR))
    ex.write(lv.f('shape'), VStruct('shape of', {'who': VPtr(lv)}))
    return lv


def mk_updater(ex, cls):
    f = {'learning_rate_': ex.fresh('rate', R), 'ignored_': ex.fresh_val(('uset', ('ptr', ('cls', VAR))), 'ignored')}
    if cls == RMS:
        e = ex.fresh('epsilon', R)
        ex.assume(e > 0)
        f.update({'discount_factor_': ex.fresh('discount', R), 'momentums_': VList(('ptr', ('cls', VAR)), []), 'epsilon_': e})
    return ex.new_cell(VStruct(cls, f), ('cls', cls))


def call(ex, cls, lv, name, args=()):
    d = ex.find_method(cls, name, len(args))
    if d is None:
        raise ExtractionError('no definition of %s::%s' % (cls, name))
    return ex.call_def(d, VPtr(lv), list(args), None)


def process(ex, cls):
    """one update built by process_update, for an arbitrary gradient and arbitrary processing of it"""
    u = mk_updater(ex, cls)
    leaf, other = mk_var(ex, 'leaf'), mk_var(ex, 'other')
    gcell, dcell = ex.new_cell(ex.fresh('g', R), REAL), ex.new_cell(ex.fresh('d', R), REAL)
    g, d = node(ex, Ex('opaque', gcell)), node(ex, Ex('opaque', dcell))
    seen = []

    def ip(ex, a):
        seen.append((to_node(ex, a[0]), ex.rv(a[1])))
        return vp(d)
    v0 = ex.read(leaf).fields['value']
    fn = ex.rv(call(ex, cls, u, 'process_update', [ex.new_cell(vp(g), ('cls', VP)), VPtr(leaf), VFn('process', ip)]))
    ex.prove(len(seen) == 1 and seen[0][0].lv.key() == g.lv.key() and seen[0][1].lv.key() == leaf.key(), 'the gradient of the variable is processed once')
    f = ex.read(leaf).fields
    ex.prove(z3.And(f['value'] == v0, f['pub'] == v0), 'building an update leaves the variable alone')
    return u, leaf, other, dcell, fn


def frozen_step(ex, fn, leaf, other, note, tag):
    """run the update; -> values of the variable before and after"""
    v0 = ex.fresh('leaf0', R)
    ex.write(leaf.f('value'), v0)
    ex.write(leaf.f('pub'), v0)
    o0 = ex.read(other).fields['value']
    ex.ghost['log'] = []
    ex.call_value(fn, [ex.new_cell(z3.BoolVal(note), BOOL)])
    ex.prove(ex.read(other).fields['value'] == o0, tag + ': other leaves keep their values')
    told = [x for x in ex.ghost['log'] if x[0] == 'tell' and x[1] == leaf.key()]
    ex.prove(len(told) == (1 if note else 0), tag + ': observers of the variable are told once, if asked to')
    v1 = ex.read(leaf).fields['value']
    if told:
        ex.prove(told[0][2] == v1, tag + ': observers are told the final value')
    return v0, v1


def g_vgb(ex):
    u, leaf, other, d, fn = process(ex, VGB)
    lr = ex.read(u).fields['learning_rate_']
    for k in range(2):
        g = ex.fresh('grad', R)
        ex.write(d, g)
        v0, v1 = frozen_step(ex, fn, leaf, other, bool(ex.choose(2)), 'gradient descent')
        ex.prove(v1 == v0 - lr * g, 'gradient descent: subtracts learning rate times gradient')


def g_rms(ex):
    u, leaf, other, d, fn = process(ex, RMS)
    f = ex.read(u).fields
    lr, rho, eps = f['learning_rate_'], f['discount_factor_'], f['epsilon_']
    ms = f['momentums_'].items
    tag = 'RMS propagation'
    ex.prove(len(ms) == 1, tag + ': keeps one moving average for the variable')
    m = ms[0].lv
    mf = ex.read(m).fields
    ex.prove(m.key() not in (leaf.key(), other.key()), tag + ': the moving average is a variable of its own')
    ex.prove(z3.And(mf['value'] == 1, mf['pub'] == 1), tag + ': the moving average starts at one')
    ex.prove(mf['shape'].fields['who'].lv.key() == leaf.key(), tag + ': the moving average has the shape of the variable')
    first = True
    for k in range(2):
        g = ex.fresh('grad', R)
        ex.write(d, g)
        if k:
            a0 = ex.fresh('average', R)
            ex.assume(a0 >= 0)
            ex.write(m.f('value'), a0)
            ex.write(m.f('pub'), a0)
        else:
            a0 = ex.read(m).fields['value']
        v0, v1 = frozen_step(ex, fn, leaf, other, bool(ex.choose(2)), tag)
        mf = ex.read(m).fields
        avg = rho * a0 + (1 - rho) * (g * g)
        ex.assume(z3.And(SQRT(avg) >= 0))
        ex.prove(mf['value'] == avg, tag + ': the average becomes discount * average + (1 - discount) * gradient^2')
        ex.prove(mf['pub'] == mf['value'], tag + ': the next step sees the new average')
        ex.prove(v1 == v0 - g * lr / (SQRT(avg) + eps), tag + ': subtracts learning rate * gradient / (sqrt(average) + epsilon)')
        w = f['learning_rate_']
    f1 = ex.read(u).fields
    ex.prove(z3.And(f1['learning_rate_'] == lr, f1['discount_factor_'] == rho), tag + ': stepping keeps the parameters')


# ---------------------------------------------------------------- which variables are updated
def c_leaves(ex, this, args, node):
    return ex.ghost['leaves']


def c_derive(ex, this, args, node):
    """gradient of the root with respect to a variable (C12)"""
    w = ex.rv(args[0])
    c = ex.ghost['cells']
    n = ex.read(c['cnt'])
    ex.prove(ex.read(c['pos'].i(w.e)) == -1, 'each gradient is built once')
    ex.write(c['pos'].i(w.e), n)
    ex.write(c['cnt'], z3.simplify(n + 1))
    return vp(VRef(INO, DER(ex.ghost['root'], w.e)))


def c_process(ex, this, args, node):
    g, w = to_node(ex, args[0]), ex.rv(args[1])
    ex.prove(g.e == DER(ex.ghost['root'], w.e), 'calculate: each variable is updated by its own gradient')
    ip = ex.rv(args[2])
    ex.prove(isinstance(ip, VFn) and ip.name == 'process', 'calculate: the given processing is used')
    return VRef('fn', UPD(g.e, w.e))


CALC = {INO + '::get_leaves': c_leaves, INO + '::derive': c_derive, GD + '::process_update': c_process}
CONTRACTS.update(CALC)
W = z3.Int('w!v')


def selected(ex, w):
    return z3.And(w != 0, isvar(w), z3.Not(ex.ghost['ign'][w]))


def t_calc(L):
    ex = L.ex
    if 'cells' not in ex.ghost:
        return
    c = ex.ghost['cells']
    root = ex.ghost['root']

    def pos():
        return ex.read(c['pos']).leaves[0]

    def cnt():
        return ex.read(c['cnt'])
    rel = {'first': lambda w: DER(root, w), 'var': lambda w: w, 'upd': lambda w: UPD(DER(root, w), w)}
    yield 'cnt >= 0', lambda: cnt() >= 0
    vis = [(nm, lv) for nm, lv in L.lvs() if isinstance(peek(ex, lv), VSet)]
    hid = [lv for lv in L.hidden if isinstance(peek(ex, lv), VSet)]
    for h in hid:
        def seen(w, h=h):
            return ex.read(h).has[w]
        yield 'placed iff seen', lambda seen=seen: z3.ForAll([W], (pos()[W] >= 0) == z3.And(seen(W), selected(ex, W)), patterns=[pos()[W], seen(W)])
        yield 'seen in leaves', lambda seen=seen: z3.ForAll([W], z3.Implies(seen(W), ex.ghost['leaves'].has[W]), patterns=[seen(W)])
    yield 'not placed is -1', lambda: z3.ForAll([W], z3.And(pos()[W] >= -1, pos()[W] < cnt()), patterns=[pos()[W]])
    for nm, lv in L.vecs:
        v = peek(ex, lv)
        if not isinstance(v, (VVec, VList)) or not L.is_mod(lv):
            continue
        try:
            k = len(ex.sorts(v.ety))
        except Unsupported:
            continue

        def cur(lv=lv):
            return ex.to_vvec(ex.read(lv))
        yield 'len ' + nm, lambda cur=cur: cur().n == cnt()
        for kn, kk in L.int_terms(True):
            yield 'len %s %s' % (nm, kn), lambda cur=cur, kk=kk: cur().n == kk()
        for j in range(k):
            for rn, f in rel.items():
                yield 'at %s.%d %s' % (nm, j, rn), lambda cur=cur, j=j, f=f: z3.ForAll(
                    [W], z3.Implies(pos()[W] >= 0, cur().leaves[j][pos()[W]] == f(W)), patterns=[pos()[W]])
                for kn, kk in L.int_terms(True):
                    yield 'at %s.%d %s to %s' % (nm, j, rn, kn), lambda cur=cur, j=j, f=f, kk=kk: z3.ForAll(
                        [W], z3.Implies(z3.And(pos()[W] >= 0, pos()[W] < kk()), cur().leaves[j][pos()[W]] == f(W)), patterns=[pos()[W]])
            yield 'whose %s.%d' % (nm, j), lambda cur=cur, j=j: z3.ForAll(
                [J], z3.Implies(z3.And(0 <= J, J < cur().n), z3.And(cur().leaves[j][J] != 0, pos()[cur().leaves[j][J]] == J)), patterns=[cur().leaves[j][J]])
            for j2 in range(k):
                if j2 != j:
                    yield 'gradient %s.%d.%d' % (nm, j, j2), lambda cur=cur, j=j, j2=j2: z3.ForAll(
                        [J], z3.Implies(z3.And(0 <= J, J < cur().n), cur().leaves[j][J] == DER(root, cur().leaves[j2][J])), patterns=[cur().leaves[j][J]])


def g_calc(ex):
    u = mk_updater(ex, GD)
    ign = ex.read(u).fields['ignored_']
    leaves = ex.fresh_val(('uset', ('ptr', ('cls', LEAF))), 'leaves')
    root = ex.new_cell(VStruct(INO, {}), ('cls', INO))
    r = ex.fresh('root', I)
    ex.ghost.update(leaves=leaves, root=r, ign=ign.has)
    ex.ghost['cells'] = {'pos': ex.new_cell(VVec(SINT, iv(2**62), [z3.K(I, iv(-1))]), ('vec', SINT)), 'cnt': ex.new_cell(iv(0), INT)}
    d = ex.ast.find(GD + '::calculate', 2)
    res = ex.to_vvec(ex.rv(ex.call_def(d, VPtr(u), [VPtr(root), VFn('process', lambda ex, a: VRef(INO, PROC(to_node(ex, a[0]).e, ex.rv(a[1]).e)))], None)))
    pos, cnt = ex.read(ex.ghost['cells']['pos']).leaves[0], ex.read(ex.ghost['cells']['cnt'])
    tag = 'calculate'
    ex.prove(z3.ForAll([W], z3.Implies(z3.And(leaves.has[W], selected(ex, W)), z3.And(0 <= pos[W], pos[W] < res.n, res.leaves[0][pos[W]] == UPD(DER(r, W), W)))),
             tag + ': every variable the objective depends on that is not ignored has an update')
    ex.prove(z3.ForAll([W], z3.Implies(z3.Not(z3.And(leaves.has[W], selected(ex, W))), pos[W] == -1)), tag + ': nothing else has one')
    ex.prove(res.n == cnt, tag + ': no variable has two updates')
    f = ex.read(u).fields
    ex.prove(z3.ForAll([W], f['ignored_'].has[W] == ign.has[W]), tag + ': keeps what is ignored')


def t_ign(L):
    ex = L.ex
    if 'ign' not in ex.ghost:
        return
    u = ex.ghost['upd']
    for h in [lv for lv in L.hidden if isinstance(peek(ex, lv), VSet)]:
        yield 'seen in leaves', lambda h=h: z3.ForAll([W], z3.Implies(ex.read(h).has[W], ex.ghost['leaves'].has[W]), patterns=[ex.read(h).has[W]])
        yield 'ignored so far', lambda h=h: z3.ForAll([W], ex.read(u.f('ignored_')).has[W] == z3.Or(
            ex.ghost['ign'][W], z3.And(ex.read(h).has[W], W != 0, isvar(W))), patterns=[ex.read(u.f('ignored_')).has[W], ex.read(h).has[W]])


def g_ignore(ex):
    u = mk_updater(ex, VGB)
    ign = ex.read(u).fields['ignored_']
    leaves = ex.fresh_val(('uset', ('ptr', ('cls', LEAF))), 'leaves')
    root = ex.new_cell(VStruct(INO, {}), ('cls', INO))
    ex.ghost.update(leaves=leaves, ign=ign.has, upd=u)
    lr = ex.read(u).fields['learning_rate_']
    call(ex, GD, u, 'ignore_subtree', [VPtr(root)])
    f = ex.read(u).fields
    ex.prove(z3.ForAll([W], f['ignored_'].has[W] == z3.Or(ign.has[W], z3.And(leaves.has[W], W != 0, isvar(W)))), 'ignoring a subtree ignores exactly its variables as well')
    r2 = ex.fresh('rate2', R)
    call(ex, GD, u, 'set_learning_rate', [ex.new_cell(r2, REAL)])
    ex.prove(ex.read(u).fields['learning_rate_'] == r2, 'the learning rate can be set')
    call(ex, GD, u, 'clear_ignore', [])
    ex.prove(z3.ForAll([W], z3.Not(ex.read(u).fields['ignored_'].has[W])), 'clearing ignores nothing')
    ex.prove(ex.read(u).fields['learning_rate_'] == r2, 'clearing keeps the learning rate')


def g_clone(ex, cls, way):
    u = mk_updater(ex, cls)
    f0 = ex.read(u).fields
    if cls == RMS:
        ex.write(u.f('momentums_'), VList(('ptr', ('cls', VAR)), [VPtr(mk_var(ex, 'm'))]))
    tag = '%s %s' % (cls.split('::')[1], way)
    p = ex.rv(call(ex, cls, u, way))
    ex.prove(isinstance(p, VPtr) and p.lv is not None and p.lv.key() != u.key(), tag + ': another updater')
    f = ex.read(p.lv).fields
    ex.prove(ex.read(p.lv).cls == cls, tag + ': of the same kind')
    ex.prove(f['learning_rate_'] == f0['learning_rate_'], tag + ': same learning rate')
    ex.prove(z3.ForAll([W], f['ignored_'].has[W] == f0['ignored_'].has[W]), tag + ': ignores the same variables')
    if cls == RMS:
        ex.prove(f['discount_factor_'] == f0['discount_factor_'], tag + ': same discount factor')
        ex.prove(isinstance(f['momentums_'], (VList, VVec)) and ex.to_vvec(f['momentums_']).n == 0, tag + ': moving averages are not shared')


ou = {'use': USE}
oc = {'use': USE + tuple(CALC)}
GOALS = {'C17': [
    ('vgb_updater.process_update', g_vgb, [], ou),
    ('rmspropupdater.process_update', g_rms, [], ou),
    ('calculate', g_calc, [t_range, t_calc], oc),
    ('ignore_subtree', g_ignore, [t_range, t_ign], oc),
    ('vgb clone', lambda ex: g_clone(ex, VGB, 'clone'), [], ou),
    ('vgb move', lambda ex: g_clone(ex, VGB, 'move'), [], ou),
    ('rms clone', lambda ex: g_clone(ex, RMS, 'clone'), [], ou),
    ('rms move', lambda ex: g_clone(ex, RMS, 'move'), [], ou),
]}
