"""Value updates (C14): after an update every node is current, pending or without arguments' values.

Ghost fields of a node z:  fresh[z]  the stored value of z is its operation applied to the stored values of its arguments
                           status[z] z has a value (good_status)     unready[z]  some argument of z has no value
ok(z) := fresh[z] or z is pending in its graph manager or unready[z]
A pending update is identified with the node whose forward pass it runs (encode of the closure checks that it does exactly that).
"""
from .lib import *
from .graph import method, ref, OB, SU, ctor
from vc.engine import Frame
from vc.interp import Interp
from vc.frontend import parse_type

TU = 'leaf_tu.cpp'
IC = 'nnet::iconnector<double>'
GM = IC + '::graph_manager'
BI, IM, IN = 'nnet::base_immutable<double>', 'nnet::immutable<double>', 'nnet::inode<double>'
z_, m_, x_, i_ = z3.Ints('z!q m!q x!q i!q')
UPD = z3.Int('enum_UPDATE')
GHOST = ('fresh', 'status', 'unready')


class FlowInterp(Interp):
    def heap_field(self, cls, field):
        if cls == 'ghost':
            return 'ghost', ('bool',)
        c, ty = super().heap_field(cls, field)
        return (GM if c.endswith('::graph_manager') else c), ty

    def encode(self, ty, v):
        if ty[0] == 'fn' and isinstance(v, VClosure):
            # a stored update runs the forward pass of one node and does nothing else
            old = dict(self.heap)
            self.ghost['probe'] = []
            self.call_value(v, [])
            p = self.ghost.pop('probe')
            if len(p) != 1 or any(self.heap.get(k) is not old[k] for k in old):
                self.prove(z3.BoolVal(False), 'a queued update runs exactly one forward pass')
                return [self.fresh('fn', I)]
            return [p[0]]
        return super().encode(ty, v)

    def call_opaque(self, f, args, node):
        if is_z3(f) and f.sort() == I:
            return c_forward(self, VRef(BI, f), args, node)
        return super().call_opaque(f, args, node)

    def dyn_cast(self, x, ty, n):
        if isinstance(x, VRef):
            self.s.assumed.add('arguments of a connector are nodes (dynamic_cast from subject to inode succeeds)')
            return VRef(ty[1][1], x.e)
        return super().dyn_cast(x, ty, n)

    def hook_delete(self, p, n):
        if isinstance(p, VRef):
            self.ghost.setdefault('deleted', []).append(p.e)
            return VOIDV
        return super().hook_delete(p, n)


INTERP = FlowInterp


class St:
    def __init__(self, ex, heap=None):
        def g(cls, f, k=0):
            key, _, l = ex.heap_leaves(cls, f)
            return (heap.get(key) or l)[k] if heap is not None else l[k]
        for f in GHOST:
            setattr(self, f, g('ghost', f))
        self.gm = g(IC, 'g_man_')
        self.cnt = g(GM, 'updates_')
        self.has, self.upd = g(GM, 'update_map_'), g(GM, 'update_map_', 1)
        self.users = g(GM, 'users_')
        self.freeze = g(GM, 'freeze_')
        self.ah = g(SU, 'audience_')
        self.dn, self.da = g(OB, 'dependencies_'), g(OB, 'dependencies_', 1)

    def ok(self, z):
        return z3.Or(self.fresh[z], self.cnt[self.gm[z]][z] > 0, self.unready[z])


def fa(vs, body, *pats):
    ps = [p for p in pats if pat_ok(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def pend(S):
    """what is pending: once, for a node of that manager, whose forward pass is stored and whose arguments have values"""
    c, h = S.cnt[m_][z_], S.has[m_][z_]
    return [fa([m_, z_], z3.And(0 <= c, c <= 1), c), fa([m_, z_], h == (c == 1), h), fa([m_, z_], z3.Implies(c == 1, h), c),
            fa([m_, z_], z3.Implies(c > 0, z3.And(S.upd[m_][z_] == z_, z3.Not(S.unready[z_]), S.gm[z_] == m_, z_ != 0)), c)]


def keeps(S0, S1):
    return [fa([z_], z3.Implies(S0.ok(z_), S1.ok(z_)), S1.fresh[z_], S1.unready[z_]),
            fa([z_], z3.Implies(S1.unready[z_], S0.unready[z_]), S1.unready[z_]),
            fa([z_], z3.Implies(S0.status[z_], S1.status[z_]), S1.status[z_])]


VOL = [('ghost', 'fresh'), ('ghost', 'status'), ('ghost', 'unready'), (GM, 'updates_'), (GM, 'update_map_')]


def havoc(ex, fields):
    for cls, f in fields:
        key, fty, leaves = ex.heap_leaves(cls, f)
        ex.note_write(LV(('h', cls, iv(1)), (('f', f),)))
        ex.heap[key] = [ex.fresh('h' + f, a.sort()) for a in leaves]


def asm(ex, fs):
    for f in fs:
        ex.assume(f)


def prv(ex, fs, what):
    for f in fs:
        ex.prove(f, what)


# ------------------------------------------------------------------ contracts
def c_forward(ex, this, args, node):
    """forward_pass(y): needs every argument's value; y is then current. Only nodes that have y as an argument may be left behind"""
    y = ref(ex, this)
    if 'probe' in ex.ghost:
        ex.ghost['probe'].append(y)
        return VOIDV
    S0 = St(ex)
    ex.prove(z3.Not(S0.unready[y]), 'a forward pass runs only when every argument has a value')
    havoc(ex, VOL[:3])
    S1 = St(ex)
    ex.assume(fa([z_], z3.Implies(z3.And(z_ != y, z3.Not(S0.ah[y][z_])), z3.And(S1.fresh[z_] == S0.fresh[z_], S1.unready[z_] == S0.unready[z_])), S1.fresh[z_], S1.unready[z_]))
    ex.assume(fa([z_], z3.Implies(z_ != y, S1.status[z_] == S0.status[z_]), S1.status[z_]))
    ex.assume(z3.And(S1.fresh[y], S1.status[y], z3.Not(S1.unready[y])))
    ex.assume(fa([z_], z3.Implies(S1.unready[z_], S0.unready[z_]), S1.unready[z_]))
    return VOIDV


def body(ex, name):
    if ex.ghost.get('body') == name:
        ex.ghost['body'] = None
        return True
    return False


def c_update(ex, this, args, node):
    """update(y): y is current, pending or unready afterwards, and every node that was still is"""
    if len(args) == 2:
        if body(ex, 'update2'):
            return NotImplemented
        ex.prove(as_int(ex.rv(args[1])) == UPD, 'observers are told of a value update')
    elif body(ex, 'update'):
        return NotImplemented
    y = ref(ex, this)
    S0 = St(ex)
    prv(ex, pend(S0), 'pending updates are consistent when a node is updated')
    havoc(ex, VOL)
    S1 = St(ex)
    asm(ex, pend(S1) + keeps(S0, S1) + [S1.ok(y)])
    return VOIDV


def c_notify(ex, this, args, node):
    if body(ex, 'notify'):
        return NotImplemented
    x = ref(ex, this)
    ex.prove(as_int(ex.rv(args[0])) == UPD, 'the notification of a new value is UPDATE')
    S0 = St(ex)
    prv(ex, pend(S0), 'pending updates are consistent when dependents are notified')
    havoc(ex, VOL)
    S1 = St(ex)
    asm(ex, pend(S1) + keeps(S0, S1) + [fa([z_], z3.Implies(S1.ah[x][z_], S1.ok(z_)), S1.ah[x][z_])])
    return VOIDV


def c_status(ex, this, args, node):
    return St(ex).status[ref(ex, this)]


def c_add_update(ex, this, args, node):
    if body(ex, 'add_update'):
        return NotImplemented
    m, d = ref(ex, this), ref(ex, args[0])
    f = ex.encode(('fn', ''), ex.rv(args[1]))[0]
    S0 = St(ex)
    prv(ex, pend(S0), 'pending updates are consistent when one is added')
    ex.prove(z3.And(f == d, d != 0, S0.gm[d] == m, z3.Not(S0.unready[d])), 'the update queued for a node is its own forward pass, at its own manager')
    havoc(ex, VOL[3:])
    S1 = St(ex)
    asm(ex, pend(S1))
    ex.assume(fa([m_, z_], S1.cnt[m_][z_] == z3.If(z3.And(m_ == m, z_ == d), 1, S0.cnt[m_][z_]), S1.cnt[m_][z_]))
    return VOIDV


def c_gm_update(ex, this, args, node):
    if body(ex, 'gm.update'):
        return NotImplemented
    m = ref(ex, this)
    S0 = St(ex)
    prv(ex, pend(S0), 'pending updates are consistent when they are run')
    havoc(ex, VOL)
    S1 = St(ex)
    asm(ex, pend(S1) + keeps(S0, S1) + [fa([z_], S1.cnt[m][z_] == 0, S1.cnt[m][z_])])
    return VOIDV


def c_get_eval(ex, this, args, node):
    return VRef('nnet::tensor<double>', ex.s_data(ref(ex, this)) if hasattr(ex, 's_data') else DATA(ref(ex, this)))


DATA = z3.Function('data', I, I)
F_UPD = OB + '::update'
CONTRACTS = {
    F_UPD: c_update, BI + '::update': c_update, SU + '::notify': c_notify, GM + '::add_update': c_add_update, GM + '::update': c_gm_update,
    IN + '::good_status': c_status, BI + '::forward_pass': c_forward, IN + '::get_eval': c_get_eval,
}
ALL = tuple(CONTRACTS)


# ------------------------------------------------------------------ goals
def node(ex, cls=BI, nm='y'):
    y = ex.fresh(nm, I)
    ex.assume(y != 0)
    return VRef(cls, y)


def start(ex, y=None):
    S0 = St(ex)
    ex.assume(UPD != z3.Int('enum_UNSUBSCRIBE'))
    asm(ex, pend(S0))
    if y is not None:
        ex.assume(S0.gm[y] != 0)
    ex.ghost['S0'] = S0
    return S0


def g_notify(ex):
    x = node(ex, SU, 'x')
    S0 = start(ex)
    ex.ghost['x'] = x.e
    ex.ghost['body'] = 'notify'
    method(ex, SU, x, 'notify', [UPD])
    S1 = St(ex)
    prv(ex, pend(S1), 'pending updates stay consistent')
    prv(ex, keeps(S0, S1), 'no node falls behind')
    ex.prove(z3.ForAll([z_], z3.Implies(S0.ah[x.e][z_], S1.ok(z_))), 'every dependent is current, pending or unready')


def inv(ex, S0):
    for i, f in enumerate(pend(S0)):
        yield 'pend%d' % i, lambda i=i: pend(St(ex))[i]
    for i in range(3):
        yield 'keeps%d' % i, lambda i=i: keeps(S0, St(ex))[i]


def t_notify(L):
    ex = L.ex
    x = ex.ghost.get('x')
    if x is None:
        return
    S0 = ex.ghost['S0']
    yield from inv(ex, S0)
    vecs = [(nm, (lambda lv=lv: ex.to_vvec(ex.read(lv)).leaves[0]), (lambda lv=lv: ex.vlen(ex.read(lv)))) for nm, lv in L.vecs if ex.read(lv).ety[0] == 'ptr']
    for nm, lv in L.iters:
        it = ex.read(lv)
        if it.kind != 'mapseq':
            continue
        n, e, ix = it.extra['seq']
        yield 'it ' + nm, lambda lv=lv, n=n: z3.And(0 <= ex.read(lv).idx, ex.read(lv).idx <= n)
        for vn, v, ln in vecs:
            yield 'obs %s %s' % (vn, nm), lambda lv=lv, v=v, e=e, ln=ln: z3.And(ln() == ex.read(lv).idx, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < ln()), v()[J] == e[J]), patterns=[v()[J]]))
    for vn, v, ln in vecs:
        for kn, k in L.int_terms(True):
            yield 'told %s %s' % (vn, kn), lambda v=v, k=k: (lambda S: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k(), S.ah[x][v()[J]]), S.ok(v()[J])), patterns=[v()[J]]))(St(ex))
    if L.hidden and isinstance(ex.read(L.hidden[0]), VSet):
        vis = lambda: ex.read(L.hidden[0]).has
        yield 'told set', lambda: (lambda S: fa([z_], z3.Implies(z3.And(vis()[z_], S.ah[x][z_]), S.ok(z_)), S.fresh[z_]))(St(ex))


def g_update2(ex):
    """iobserver::update(indices, UPDATE) runs the value update"""
    y = node(ex, OB)
    S0 = start(ex, y.e)
    ex.ghost['body'] = 'update2'
    st = ex.fresh_val(('uset', ('int', 64, False)), 'idx')
    method(ex, OB, y, 'update', [ex.new_cell(st, ('uset', ('int', 64, False))), UPD], 2)
    S1 = St(ex)
    prv(ex, pend(S1) + keeps(S0, S1), 'no node falls behind')
    ex.prove(S1.ok(y.e), 'the node told is current, pending or unready')


def g_update(ex):
    y = node(ex)
    S0 = start(ex, y.e)
    ex.ghost['y'] = y.e
    d = S0.da[y.e]
    ex.assume(S0.dn[y.e] >= 0)
    ex.assume(fa([i_], z3.Implies(z3.And(0 <= i_, i_ < S0.dn[y.e]), d[i_] != 0), d[i_]))
    w = ex.fresh('missing', I)
    # unready: some argument has no value
    ex.assume(z3.Implies(S0.unready[y.e], z3.And(0 <= w, w < S0.dn[y.e], z3.Not(S0.status[d[w]]))))
    ex.assume(z3.Implies(z3.Not(S0.unready[y.e]), fa([i_], z3.Implies(z3.And(0 <= i_, i_ < S0.dn[y.e]), S0.status[d[i_]]), d[i_])))
    ex.assume(z3.Not(S0.ah[y.e][y.e]))
    ex.ghost['body'] = 'update'
    st = ex.fresh_val(('uset', ('int', 64, False)), 'idx')
    method(ex, BI, y, 'update', [ex.new_cell(st, ('uset', ('int', 64, False)))], 1)
    S1 = St(ex)
    prv(ex, pend(S1), 'pending updates stay consistent')
    prv(ex, keeps(S0, S1), 'no node falls behind')
    ex.prove(S1.ok(y.e), 'the node is current, pending or unready')


def t_update(L):
    ex = L.ex
    y = ex.ghost.get('y')
    if y is None:
        return
    S0 = ex.ghost['S0']
    ks = L.int_terms(True)
    for bn, b in L.bools:
        for kn, k in ks:
            yield 'seen %s %s' % (bn, kn), lambda b=b, k=k: z3.Implies(ex.read(b), fa([i_], z3.Implies(z3.And(0 <= i_, i_ < k()), S0.status[S0.da[y][i_]]), S0.da[y][i_]))
            yield 'bad %s %s' % (bn, kn), lambda b=b, k=k: z3.Implies(z3.Not(ex.read(b)), z3.And(0 < k(), k() <= S0.dn[y], z3.Not(S0.status[S0.da[y][k() - 1]])))
            yield 'badx %s %s' % (bn, kn), lambda b=b, k=k: z3.Implies(z3.Not(ex.read(b)), S0.unready[y])
        yield 'off %s' % bn, lambda b=b: z3.Not(ex.read(b))


def g_add_update(ex):
    m, d = node(ex, GM, 'm'), node(ex, IC, 'd')
    S0 = start(ex)
    ex.assume(z3.And(S0.gm[d.e] == m.e, z3.Not(S0.unready[d.e])))
    ex.ghost['body'] = 'add_update'
    method(ex, GM, m, 'add_update', [d, d.e])
    S1 = St(ex)
    prv(ex, pend(S1), 'pending updates stay consistent')
    ex.prove(z3.ForAll([m_, z_], S1.cnt[m_][z_] == z3.If(z3.And(m_ == m.e, z_ == d.e), 1, S0.cnt[m_][z_])), 'exactly this node becomes pending')


def g_gm_update(ex):
    m = node(ex, GM, 'm')
    S0 = start(ex)
    ex.ghost['m'] = m.e
    ex.assume(fa([z_], z3.Not(S0.ah[z_][z_]), S0.ah[z_]))
    ex.ghost['body'] = 'gm.update'
    method(ex, GM, m, 'update', [])
    S1 = St(ex)
    prv(ex, pend(S1), 'pending updates stay consistent')
    prv(ex, keeps(S0, S1), 'no node falls behind')
    ex.prove(z3.ForAll([z_], S1.cnt[m.e][z_] == 0), 'nothing is pending afterwards')


def t_gm_update(L):
    if L.ex.ghost.get('m') is None:
        return
    yield from inv(L.ex, L.ex.ghost['S0'])


def g_eval(ex):
    y = node(ex, IC)
    S0 = start(ex, y.e)
    ex.assume(fa([z_], S0.ok(z_), S0.fresh[z_]))
    r = method(ex, IC, y, 'eval', [])
    S1 = St(ex)
    frozen = S0.freeze[S0.gm[y.e]]
    ex.prove(z3.Implies(z3.Not(frozen), z3.ForAll([z_], z3.Implies(S1.gm[z_] == S1.gm[y.e], z3.Or(S1.fresh[z_], S1.unready[z_])))), 'every node of the graph is current before the value is handed out')
    ex.prove(z3.BoolVal(isinstance(r, VRef)) if not isinstance(r, VRef) else r.e == DATA(y.e), 'the value handed out is the stored one')


o = {'use': ALL}
GOALS = {'C14': [
    ('subject.notify(UPDATE)', g_notify, [t_range, t_notify], o),
    ('iobserver.update(UPDATE)', g_update2, [], o),
    ('base_immutable.update', g_update, [t_range, t_update], o),
    ('graph_manager.add_update', g_add_update, [], o),
    ('graph_manager.update', g_gm_update, [t_gm_update], o),
    ('iconnector.eval', g_eval, [], o),
]}


# ------------------------------------------------------------------ graph managers
def users(S):
    """the users of a manager are the connectors that refer to it"""
    u = S.users[m_][z_]
    return [fa([m_, z_], z3.Implies(z3.And(m_ != 0, u), S.gm[z_] == m_), u), fa([z_], z3.Implies(z3.And(z_ != 0, S.gm[z_] != 0), S.users[S.gm[z_]][z_]), S.gm[z_])]


def qx(S):
    return z3.ForAll([m_], z3.Not(S.users[m_][0]))


def c_suicide(ex, this, args, node):
    """suicide(user): the user is no longer listed nor pending; the manager dies with its last user"""
    if body(ex, 'suicide'):
        return NotImplemented
    m, u = ref(ex, this), ref(ex, args[0])
    S0 = St(ex)
    havoc(ex, [(GM, 'updates_'), (GM, 'update_map_'), (GM, 'users_')])
    S1 = St(ex)
    suicide_facts(S0, S1, m, u, ex.assume)
    return VOIDV


def suicide_facts(S0, S1, m, u, f):
    hit = z3.And(m_ == m, z_ == u)
    f(fa([m_, z_], S1.users[m_][z_] == z3.And(S0.users[m_][z_], z3.Not(hit)), S1.users[m_][z_]))
    f(fa([m_, z_], S1.has[m_][z_] == z3.And(S0.has[m_][z_], z3.Not(hit)), S1.has[m_][z_]))
    f(fa([m_, z_], S1.cnt[m_][z_] == z3.If(z3.And(hit, S0.has[m][u]), 0, S0.cnt[m_][z_]), S1.cnt[m_][z_]))
    f(fa([m_, z_], z3.Implies(S1.has[m_][z_], S1.upd[m_][z_] == S0.upd[m_][z_]), S1.upd[m_][z_]))


def g_suicide(ex):
    m, u = node(ex, GM, 'm'), node(ex, IC, 'u')
    S0 = St(ex)
    for f in pend(S0)[:2]:
        ex.assume(f)
    ex.ghost['suicide'] = (m.e, u.e)
    ex.ghost['S0'] = S0
    ex.ghost['body'] = 'suicide'
    method(ex, GM, m, 'suicide', [u])
    S1 = St(ex)
    suicide_facts(S0, S1, m.e, u.e, lambda f: ex.prove(f, 'exactly this user and its pending update are removed'))
    gone = ex.ghost.get('deleted')
    if gone:
        ex.prove(gone[0] == m.e, 'only the manager dies')
        ex.prove(z3.ForAll([z_], z3.Not(S1.users[m.e][z_])), 'a manager dies only without users')


def t_suicide(L):
    ex = L.ex
    if ex.ghost.get('suicide') is None:
        return
    m, u = ex.ghost['suicide']
    S0 = ex.ghost['S0']
    cells = [lv for nm, lv in L.lvs() if isinstance(_peek(ex, lv), VPQ)]
    key = (GM, 'updates_')
    yield 'others', lambda: fa([m_, z_], z3.Implies(m_ != m, St(ex).cnt[m_][z_] == S0.cnt[m_][z_]), St(ex).cnt[m_][z_])
    for i, c in enumerate(cells):
        yield 'moved %d' % i, lambda c=c: (lambda p, q: z3.ForAll([z_], p[z_] + q[z_] == S0.cnt[m][z_] + z3.If(z3.And(z_ == u, q[u] == 0), p[u] - S0.cnt[m][u], 0)))(ex.read(c).cnt, St(ex).cnt[m])
        yield 'movedx %d' % i, lambda c=c: (lambda p, q: z3.ForAll([z_], z3.Implies(z_ != u, p[z_] + q[z_] == S0.cnt[m][z_])))(ex.read(c).cnt, St(ex).cnt[m])
        yield 'none %d' % i, lambda c=c: ex.read(c).cnt[u] == 0
        yield 'nn %d' % i, lambda c=c: z3.ForAll([z_], z3.And(ex.read(c).cnt[z_] >= 0, St(ex).cnt[m][z_] >= 0))


def _peek(ex, lv):
    try:
        return ex.read(lv)
    except Exception:
        return None


def c_consume(ex, this, args, node):
    if body(ex, 'consume'):
        return NotImplemented
    m, o = ref(ex, this), ref(ex, args[0])
    S0 = St(ex)
    prv(ex, pend(S0) + users(S0), 'managers are consistent when they merge')
    havoc(ex, [(GM, 'updates_'), (GM, 'update_map_'), (GM, 'users_'), (IC, 'g_man_')])
    S1 = St(ex)
    asm(ex, pend(S1) + users(S1))
    ex.assume(fa([z_], S1.gm[z_] == z3.If(z3.And(S0.gm[z_] == o, S0.users[o][z_]), m, S0.gm[z_]), S1.gm[z_]))
    ex.assume(fa([z_], S1.cnt[S1.gm[z_]][z_] == S0.cnt[S0.gm[z_]][z_], S1.gm[z_]))
    return VOIDV


def g_consume(ex):
    m, o = node(ex, GM, 'm'), node(ex, GM, 'o')
    S0 = start(ex)
    asm(ex, users(S0))
    ex.assume(fa([m_], z3.Not(S0.users[m_][0]), S0.users[m_]))
    ex.ghost['consume'] = (m.e, o.e)
    ex.ghost['body'] = 'consume'
    method(ex, GM, m, 'consume', [o])
    S1 = St(ex)
    mv = z3.And(S0.gm[z_] == o.e, S0.users[o.e][z_])
    ex.prove(z3.ForAll([z_], S1.gm[z_] == z3.If(mv, m.e, S0.gm[z_])), 'exactly the users of the other manager move over')
    for i, f in enumerate(users(S1)):
        ex.prove(f, 'the users of a manager are the connectors referring to it')
    a, b = ex.fresh('mgr', I), ex.fresh('node', I)
    for cs in (a == m.e, a == o.e, z3.And(a != m.e, a != o.e)):
        for f in pend(S1):
            ex.prove(z3.Implies(cs, z3.substitute_vars(f.body(), b, a)), 'pending updates stay consistent')
    asm(ex, pend(S1))
    ex.prove(z3.ForAll([z_], z3.Implies(z3.And(z_ != 0, S0.gm[z_] != 0), S1.cnt[S1.gm[z_]][z_] == S0.cnt[S0.gm[z_]][z_])), 'every pending update stays pending, at the merged manager')


def t_consume(L):
    ex = L.ex
    if ex.ghost.get('consume') is None:
        return
    m, o = ex.ghost['consume']
    S0 = ex.ghost['S0']
    e0 = St(ex, L.entry_heap)
    cur = lambda: St(ex)
    # the queues
    yield 'q sum', lambda: (lambda S: fa([z_], z3.Implies(m != o, S.cnt[m][z_] + S.cnt[o][z_] == S0.cnt[m][z_] + S0.cnt[o][z_]), S.cnt[m][z_], S.cnt[o][z_]))(cur())
    yield 'q nn', lambda: (lambda S: z3.ForAll([m_, z_], S.cnt[m_][z_] >= 0))(cur())
    yield 'q up', lambda: (lambda S: fa([z_], S.cnt[m][z_] >= S0.cnt[m][z_], S.cnt[m][z_]))(cur())
    yield 'q rest', lambda: (lambda S: fa([m_, z_], z3.Implies(z3.And(m_ != m, m_ != o), S.cnt[m_][z_] == S0.cnt[m_][z_]), S.cnt[m_][z_]))(cur())
    if L.hidden and isinstance(_peek(ex, L.hidden[0]), VSet):
        vis = lambda: ex.read(L.hidden[0]).has
        yield 'cnt m', lambda: (lambda S: fa([m_, z_], z3.Implies(m_ != o, S.cnt[m_][z_] == e0.cnt[m_][z_]), S.cnt[m_][z_]))(cur())
        yield 'cnt o', lambda: (lambda S: fa([z_], S.cnt[o][z_] == 0, S.cnt[o][z_]))(cur())
        yield 'has', lambda: (lambda S: fa([m_, z_], z3.Implies(m_ != o, S.has[m_][z_] == e0.has[m_][z_]), S.has[m_][z_]))(cur())
        yield 'upd', lambda: (lambda S: fa([m_, z_], z3.Implies(z3.And(m_ != o, S.has[m_][z_]), S.upd[m_][z_] == e0.upd[m_][z_]), S.upd[m_][z_]))(cur())
        yield 'hasv', lambda: (lambda S: fa([z_], S.has[o][z_] == z3.And(e0.has[o][z_], z3.Not(vis()[z_])), S.has[o][z_]))(cur())
        yield 'users', lambda: (lambda S: fa([m_, z_], S.users[m_][z_] == z3.And(e0.users[m_][z_], z3.Not(z3.And(m_ == o, vis()[z_]))), S.users[m_][z_]))(cur())
        yield 'moved', lambda: (lambda S: fa([z_], S.gm[z_] == z3.If(vis()[z_], m, e0.gm[z_]), S.gm[z_]))(cur())
        yield 'visin', lambda: fa([z_], z3.Implies(vis()[z_], e0.users[o][z_]), vis()[z_])


CONTRACTS.update({GM + '::suicide': c_suicide, GM + '::consume': c_consume})
om = {'use': (GM + '::suicide', GM + '::consume')}
GOALS['C14'] += [
    ('graph_manager.suicide', g_suicide, [t_suicide], om),
    ('graph_manager.consume', g_consume, [t_consume], om),
]


# ------------------------------------------------------------------ the forward pass
TEN, TF, SH = 'nnet::tensor<double>', 'nnet::transfer_func<double>', 'nnet::tensorshape'
SN, SA = z3.Function('shape_rank', I, I), z3.Function('shape_dims', I, z3.ArraySort(I, I))
ALLOC = z3.Function('is_alloc', I, B)
RAW = z3.Function('raw', I, I)
STY = ('vec', ('int', 64, False))


def shape_val(n, a):
    return VStruct(SH, {'dimensions_': VVec(('int', 64, False), n, [a])})


def dims_(ex, v):
    v = ex.rv(v)
    d = ex.to_vvec(v.fields['dimensions_'])
    return d.n, d.leaves[0]


def c_shape(ex, this, args, node):
    e = ref(ex, this)
    sh = ex.ghost.get('newshape', {}).get(e.get_id())
    if sh is not None:
        return shape_val(*sh)
    ex.assume(SN(e) >= 0)
    return shape_val(SN(e), SA(e))


def c_alloc(ex, this, args, node):
    return ALLOC(ref(ex, this))


class PassInterp(FlowInterp):
    """forward_pass: the shaper and the transfer function are the node's own; what they are given is recorded"""
    def call_opaque(self, f, args, node):
        if is_z3(f) and f.eq(self.ghost.get('shaper')):
            self.ghost.setdefault('shaped', []).append(self.to_vvec(self.rv(args[0])))
            n, a = self.fresh_int('rank'), self.fresh('outdims', z3.ArraySort(I, I))
            self.ghost['out'] = (n, a)
            return shape_val(n, a)
        return super().call_opaque(f, args, node)

    def hook_new(self, cls, e, n):
        if cls == TEN:
            r = self.fresh('newtensor', I)
            self.assume(r != 0)
            args = [self.E(x) for x in e.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
            sh = dims_(self, args[0])
            self.ghost['newshape'] = {r.get_id(): sh}
            self.ghost['new'] = r
            return VRef(TEN, r)
        return NotImplemented


def c_transfer(ex, this, args, node):
    ex.ghost.setdefault('transfers', []).append((ref(ex, ex.addr_of(args[0])), ex.to_vvec(ex.rv(args[1]))))
    return VOIDV


def c_defined(ex, this, args, node):
    n, a = dims_(ex, LV(this.lv.root, this.lv.path))
    return z3.And(n > 0, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), a[J] != 0)))


def c_assert_defined(ex, this, args, node):
    if not ex.decide(c_defined(ex, this, args, node)):
        raise CppThrow('assertion')
    return VOIDV


def c_compat(ex, this, args, node):
    return ex.fresh('compat', B)


def c_allocate(ex, this, args, node):
    if args:
        ex.ghost['allocated'] = (ref(ex, this), dims_(ex, args[0]))
    return z3.BoolVal(True)


PASS = {IN + '::get_eval': c_get_eval, TEN + '::get_shape': c_shape, TEN + '::is_alloc': c_alloc, TF + '::operator()': c_transfer,
        SH + '::is_fully_defined': c_defined, SH + '::assert_is_fully_defined': c_assert_defined, SH + '::is_compatible_with': c_compat,
        TEN + '::allocate': c_allocate, 'nnet::print_shape': lambda ex, this, args, node: VOIDV}


def g_forward(ex):
    y = node(ex, IM)
    S0 = St(ex)
    n, d = S0.dn[y.e], S0.da[y.e]
    ex.ghost['pass'] = (n, d)
    ex.ghost['refuse'] = True
    ex.assume(n >= 0)
    ex.assume(fa([i_], z3.Implies(z3.And(0 <= i_, i_ < n), d[i_] != 0), d[i_]))
    ex.ghost['shaper'] = ex.encode(('fn', ''), ex.heap_read(IM, 'shaper_', y.e))[0]
    nf = ex.heap_read(IM, 'Nf_', y.e)
    ex.assume(nf.e != 0)
    data0 = ex.heap_read(BI, 'data_', y.e).e
    threw = False
    try:
        method(ex, IM, y, 'forward_pass', [])
    except CppThrow:
        threw = True
    tr = ex.ghost.get('transfers', [])
    if threw:
        ex.prove(z3.BoolVal(not tr), 'a forward pass that fails computes nothing')
        return
    ex.prove(z3.BoolVal(len(tr) == 1 and len(ex.ghost.get('shaped', [])) == 1), 'the shape and the transfer function are each evaluated once')
    out, args = tr[0]
    data1 = ex.heap_read(BI, 'data_', y.e).e
    ex.prove(out == data1, "the result goes to the node's own value")
    ex.prove(args.n == n, 'as many operands as arguments')
    j = ex.fresh('arg', I)
    rng = z3.And(0 <= j, j < n)
    ex.prove(z3.Implies(rng, args.leaves[0][j] == DATA(d[j])), 'operand i is the value of argument i')
    sh = ex.ghost['shaped'][0]
    ex.prove(sh.n == n, 'as many shapes as arguments')
    ex.prove(z3.Implies(rng, z3.And(sh.leaves[0][j] == SN(DATA(d[j])), sh.leaves[1][j] == SA(DATA(d[j])))), 'shape i is that of argument i')
    new = ex.ghost.get('new')
    on, oa = ex.ghost['out']
    if new is not None:
        ex.prove(z3.And(data0 == 0, data1 == new), 'a value is created only when there is none')
        nn, na = ex.ghost['newshape'][new.get_id()]
        ex.prove(z3.And(nn == on, na == oa), 'a new value has the shape computed from the operands')
    else:
        ex.prove(z3.And(data0 != 0, data1 == data0), 'an existing value is reused')
    al = ex.ghost.get('allocated')
    if al is not None:
        ex.prove(z3.And(al[0] == data1, z3.Not(ALLOC(data1)), al[1][0] == on, al[1][1] == oa), 'storage is allocated only when there is none, for the computed shape')


def t_forward(L):
    ex = L.ex
    if ex.ghost.get('pass') is None:
        return
    n, d = ex.ghost['pass']
    for nm, lv in L.vecs:
        v = ex.read(lv)
        for kn, k in L.int_terms(True):
            yield 'bound %s' % kn, lambda k=k: k() <= n
            yield 'len %s %s' % (nm, kn), lambda lv=lv, k=k: ex.vlen(ex.read(lv)) == k()
            g = lambda lv=lv: ex.to_vvec(ex.read(lv)).leaves
            if v.ety[0] == 'ptr':
                yield 'args %s %s' % (nm, kn), lambda g=g, k=k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), g()[0][J] == DATA(d[J])), patterns=[g()[0][J]] if pat_ok(g()[0][J]) else [d[J]])
            elif v.ety[0] == 'cls':
                yield 'shapes %s %s' % (nm, kn), lambda g=g, k=k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), z3.And(g()[0][J] == SN(DATA(d[J])), g()[1][J] == SA(DATA(d[J])))), patterns=[g()[0][J]] if pat_ok(g()[0][J]) else [d[J]])


GOALS['C14'].append(('immutable.forward_pass', g_forward, [t_range, t_forward], {'use': tuple(PASS), 'interp': PassInterp}))
CONTRACTS.update({k: v for k, v in PASS.items() if k not in CONTRACTS})
