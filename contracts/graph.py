"""Graph edges (C13): subject::audience_ and iobserver::dependencies_ mirror each other."""
from .lib import *
from vc.engine import Frame
from vc.interp import Interp

TU = 'graph_tu.cpp'
OB, SU = 'nnet::iobserver', 'nnet::subject'
o_, i_, s_ = z3.Ints('o!q i!q s!q')


class Snap:
    """the edge part of the heap: dependencies_ (dn, da) and audience_ (ah, aa)"""
    def __init__(self, ex):
        _, _, d = ex.heap_leaves(OB, 'dependencies_')
        _, _, a = ex.heap_leaves(SU, 'audience_')
        self.dn, self.da, self.ah, self.aa = d[0], d[1], a[0], a[1]

    def reg(self, s, o, i):
        """observer o is registered with subject s for position i"""
        return z3.And(self.ah[s][o], self.aa[s][o][i])

    def dep(self, o, i):
        return self.da[o][i]

    def has(self, o, i, s):
        """position i of observer o holds subject s"""
        return z3.And(0 <= i, i < self.dn[o], self.da[o][i] == s, s != 0)


def sizes(g):
    return z3.ForAll([o_], g.dn[o_] >= 0, patterns=[g.dn[o_]]) if z3.is_const(g.dn) else z3.ForAll([o_], g.dn[o_] >= 0)


def sym(g, but=()):
    """every position of every observer is mirrored by a registration and vice versa; observers in `but` are excepted"""
    ok = [o_ != o for o in but]
    d = g.da[o_][i_]
    a = z3.ForAll([o_, i_], z3.Implies(z3.And(0 <= i_, i_ < g.dn[o_], d != 0, *ok), z3.And(g.ah[d][o_], g.aa[d][o_][i_])))
    b = z3.ForAll([s_, o_, i_], z3.Implies(z3.And(g.ah[s_][o_], g.aa[s_][o_][i_], s_ != 0, *ok), z3.And(0 <= i_, i_ < g.dn[o_], d == s_)))
    return a, b


def sym_in(g, but=()):
    """the same, with triggers for use as a hypothesis"""
    ok = [o_ != o for o in but]
    d = g.da[o_][i_]
    a = z3.ForAll([o_, i_], z3.Implies(z3.And(0 <= i_, i_ < g.dn[o_], d != 0, *ok), z3.And(g.ah[d][o_], g.aa[d][o_][i_])), patterns=[d] if pat_ok(d) else None) \
        if pat_ok(d) else sym(g, but)[0]
    p = g.aa[s_][o_][i_]
    b = z3.ForAll([s_, o_, i_], z3.Implies(z3.And(g.ah[s_][o_], p, s_ != 0, *ok), z3.And(0 <= i_, i_ < g.dn[o_], d == s_)), patterns=[p]) \
        if pat_ok(p) else sym(g, but)[1]
    return a, b


def assume_sym(ex, g=None, but=()):
    g = g or Snap(ex)
    ex.assume(sizes(g))
    for f in sym_in(g, but):
        ex.assume(f)
    assume_nonempty(ex, g)
    return g


def prove_sym(ex, what='', g=None, but=()):
    g = g or Snap(ex)
    a, b = sym(g, but)
    ex.prove(nonempty(g), '%sno observer stays listed without a position' % what)
    ex.prove(a, '%severy dependency is registered with its subject' % what)
    ex.prove(b, '%severy registration is a dependency of its observer' % what)


def shrunk(ex, g0, g1):
    """registrations only disappear"""
    p = g1.aa[s_][o_][i_]
    return z3.ForAll([s_, o_, i_], z3.Implies(z3.And(g1.ah[s_][o_], p), z3.And(g0.ah[s_][o_], g0.aa[s_][o_][i_])), patterns=[p] if pat_ok(p) else None) \
        if pat_ok(p) else z3.ForAll([s_, o_, i_], z3.Implies(z3.And(g1.ah[s_][o_], p), z3.And(g0.ah[s_][o_], g0.aa[s_][o_][i_])))


def shrunk_keys(g0, g1):
    return z3.ForAll([s_, o_], z3.Implies(g1.ah[s_][o_], g0.ah[s_][o_]))


def havoc(ex):
    for cls, f in ((OB, 'dependencies_'), (SU, 'audience_')):
        key, fty, leaves = ex.heap_leaves(cls, f)
        ex.note_write(LV(('h', cls, iv(1)), (('f', f),)))
        ex.heap[key] = [ex.fresh('h' + f, a.sort()) for a in leaves]


def keep_observer(ex, g0, g1, o):
    """neither the list nor the registrations of o changed"""
    keep_list(ex, g0, g1, o)
    p = g1.aa[s_][o][i_]
    ex.assume(z3.ForAll([s_], g1.ah[s_][o] == g0.ah[s_][o]))
    ex.assume(z3.ForAll([s_, i_], z3.Implies(g1.ah[s_][o], p == g0.aa[s_][o][i_]), patterns=[p]))


def keep_list(ex, g0, g1, o):
    ex.assume(g1.dn[o] == g0.dn[o])
    ex.assume(z3.ForAll([i_], g1.da[o][i_] == g0.da[o][i_], patterns=[g1.da[o][i_]]))


# ------------------------------------------------------------------ contracts
def c_hook(name):
    """death callbacks: assumed to keep the mirror (but for the observers being edited), to register nobody and to leave
    the observers being edited alone"""
    def c(ex, this, args, node):
        ex.s.assumed.add('%s (virtual): removes edges only, keeps every other edge mirrored, leaves the observer under edit' % name)
        g0 = Snap(ex)
        ed = ex.ghost.get('editing') or ()
        a, b = sym(g0, ed)
        ex.prove(z3.And(a, b, nonempty(g0)), 'every edge of the observers not being edited is mirrored when %s is called' % name)
        if ex.specmode:
            return VOIDV
        havoc(ex)
        g1 = assume_sym(ex, None, ed)
        ex.assume(shrunk(ex, g0, g1))
        ex.assume(shrunk_keys(g0, g1))
        for o in ed:
            keep_observer(ex, g0, g1, o)
        return VOIDV
    return c


def c_remove(ex, this, args, node):
    if ex.ghost.get('body') == 'remove_dependency':
        ex.ghost['body'] = None
        return NotImplemented
    o, i = ref(ex, this), as_int(ex.rv(args[0]))
    g0 = Snap(ex)
    if ex.decide(i >= g0.dn[o]):
        raise CppThrow('std::logic_error')
    a, b = sym(g0)
    ex.prove(z3.And(a, b, nonempty(g0)), 'the edges are mirrored when a dependency is removed')
    if not ex.decide(g0.da[o][i] != 0):
        return VOIDV
    havoc(ex)
    g1 = assume_sym(ex)
    removed_facts(ex, g0, g1, o, i, ex.assume)
    ex.assume(shrunk(ex, g0, g1))
    ex.assume(shrunk_keys(g0, g1))
    return VOIDV


def removed_facts(ex, g0, g1, o, i, f):
    f(g1.dn[o] <= g0.dn[o])
    f(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < g1.dn[o]), g1.da[o][i_] == z3.If(i_ == i, 0, g0.da[o][i_]))))
    f(z3.ForAll([i_], z3.Implies(z3.And(g1.dn[o] <= i_, i_ < g0.dn[o], i_ != i), g0.da[o][i_] == 0)))
    f(z3.Or(g1.dn[o] == 0, g1.da[o][g1.dn[o] - 1] != 0))


def ref(ex, p):
    p = ex.rv(p) if isinstance(p, LV) else p
    if isinstance(p, VRef):
        return p.e
    if isinstance(p, VPtr) and p.lv is not None and p.lv.root[0] == 'h' and not p.lv.path:
        return p.lv.root[2]
    if isinstance(p, VPtr) and p.lv is None:
        return iv(0)
    raise Unsupported('object reference %r' % (p,))


def c_add(ex, this, args, node):
    if ex.ghost.get('body') == 'add_dependency':
        ex.ghost['body'] = None
        return NotImplemented
    o, s = ref(ex, this), ref(ex, args[0])
    g0 = Snap(ex)
    a, b = sym(g0)
    ex.prove(z3.And(a, b, nonempty(g0)), 'the edges are mirrored when a dependency is added')
    havoc(ex)
    g1 = assume_sym(ex)
    added_facts(ex, g0, g1, o, s, ex.assume)
    return VOIDV


def added_facts(ex, g0, g1, o, s, f):
    f(g1.dn[o] == g0.dn[o] + 1)
    f(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ <= g0.dn[o]), g1.da[o][i_] == z3.If(i_ == g0.dn[o], s, g0.da[o][i_]))))
    f(z3.ForAll([o_], z3.Implies(o_ != o, z3.And(g1.dn[o_] == g0.dn[o_], g1.da[o_] == g0.da[o_]))))


def c_replace(ex, this, args, node):
    if ex.ghost.get('body') == 'replace_dependency':
        ex.ghost['body'] = None
        return NotImplemented
    o, s, i = ref(ex, this), ref(ex, args[0]), as_int(ex.rv(args[1]))
    g0 = Snap(ex)
    a, b = sym(g0)
    ex.prove(z3.And(a, b, nonempty(g0)), 'the edges are mirrored when a dependency is replaced')
    havoc(ex)
    g1 = assume_sym(ex)
    replaced_facts(ex, g0, g1, o, s, i, ex.assume)
    return VOIDV


def replaced_facts(ex, g0, g1, o, s, i, f):
    f(g1.dn[o] == z3.If(i >= g0.dn[o], i + 1, g0.dn[o]))
    f(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < g1.dn[o]), g1.da[o][i_] == z3.If(i_ == i, s, z3.If(i_ < g0.dn[o], g0.da[o][i_], 0)))))
    # every other registration was there before
    f(z3.ForAll([s_, o_, i_], z3.Implies(z3.And(g1.ah[s_][o_], g1.aa[s_][o_][i_], z3.Not(z3.And(s_ == s, o_ == o, i_ == i))),
                                         z3.And(g0.ah[s_][o_], g0.aa[s_][o_][i_]))))
    f(z3.ForAll([s_, o_], z3.Implies(z3.And(g1.ah[s_][o_], z3.Not(z3.And(s_ == s, o_ == o))), g0.ah[s_][o_])))


def c_update(ex, this, args, node):
    """iobserver::update(indices, msg) / the pure virtual update(indices)"""
    if len(args) == 1:
        return VOIDV        # value update: no edge changes (C14)
    if ex.ghost.get('body') == 'update':
        ex.ghost['body'] = None
        return NotImplemented
    o, st, msg = ref(ex, this), ex.rv(args[0]), as_int(ex.rv(args[1]))
    g0 = Snap(ex)
    uns = z3.Int('enum_UNSUBSCRIBE')
    ex.prove(z3.ForAll([i_], z3.Implies(st.has[i_], z3.And(0 <= i_, i_ < g0.dn[o], g0.da[o][i_] != 0))), 'an observer is told positions it has')
    a, b = sym(g0)
    ex.prove(z3.And(a, b, nonempty(g0)), 'the edges are mirrored when an observer is notified')
    if not ex.decide(msg == uns):
        return VOIDV
    havoc(ex)
    g1 = assume_sym(ex)
    ex.assume(shrunk(ex, g0, g1))
    ex.assume(shrunk_keys(g0, g1))
    # the observer holds nothing at those positions any more: nobody registers it there
    ex.assume(z3.ForAll([s_, i_], z3.Implies(z3.And(s_ != 0, st.has[i_], g1.ah[s_][o]), z3.Not(g1.aa[s_][o][i_])), patterns=[z3.MultiPattern(st.has[i_], g1.aa[s_][o][i_])]))
    return VOIDV


def wit(g, nm):
    return None


def assume_nonempty(ex, g):
    """a listed observer has a position (no empty entries)"""
    w = ex.fresh('wit', z3.ArraySort(I, z3.ArraySort(I, I)))
    p = g.ah[s_][o_]
    f = z3.Implies(p, g.aa[s_][o_][w[s_][o_]])
    ex.assume(z3.ForAll([s_, o_], f, patterns=[p]) if pat_ok(p) else z3.ForAll([s_, o_], f))


def nonempty(g):
    return z3.ForAll([s_, o_], z3.Implies(g.ah[s_][o_], z3.Exists([i_], g.aa[s_][o_][i_])))


def c_detach(ex, this, args, node):
    if len(args) != 2 or ex.ghost.get('body') == 'detach':
        ex.ghost['body'] = None
        return NotImplemented
    s, o, i = ref(ex, this), ref(ex, args[0]), as_int(ex.rv(args[1]))
    g0 = Snap(ex)
    ed = ex.ghost.get('editing') or ()
    a, b = sym(g0, ed)
    ex.prove(z3.And(a, b, nonempty(g0)), 'every edge of the observers not being edited is mirrored when detach is called')
    ex.prove(z3.Or(*[o == x for x in ed]), 'only an observer being edited is detached')
    if ex.specmode:
        return VOIDV
    havoc(ex)
    g1 = assume_sym(ex, None, ed)
    ex.assume(shrunk(ex, g0, g1))
    ex.assume(shrunk_keys(g0, g1))
    for x in ed:
        keep_list(ex, g0, g1, x)
        ex.assume(z3.ForAll([s_, i_], z3.And(g1.ah[s_][x], g1.aa[s_][x][i_]) == z3.And(g0.ah[s_][x], g0.aa[s_][x][i_], z3.Not(z3.And(s_ == s, x == o, i_ == i)))))
    return VOIDV


class GraphInterp(Interp):
    def hook_delete(self, p, n):
        if isinstance(p, VRef):
            return c_hook('delete')(self, p, [], n)
        return super().hook_delete(p, n)


CONTRACTS = {
    SU + '::death_on_noparent': c_hook('death_on_noparent'), OB + '::death_on_broken': c_hook('death_on_broken'),
    OB + '::remove_dependency': c_remove, OB + '::add_dependency': c_add, OB + '::replace_dependency': c_replace, OB + '::update': c_update,
    SU + '::detach': c_detach,
}
HOOKS = (SU + '::death_on_noparent', OB + '::death_on_broken')


# ------------------------------------------------------------------ goals
def method(ex, cls, this, name, args, np=None, sig=None):
    for m in ex.ast.methods(cls, name):
        ps = [x for x in m.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        if np is not None and len(ps) != np or sig is not None and sig not in m['type']['qualType']:
            continue
        d = ex.ast.definition(m['id'])
        if d is not None:
            ex.frames.append(Frame('goal', None))
            try:
                return ex.call_def(d, this, args, None)
            finally:
                ex.frames.pop()
    raise Unsupported('no definition of %s::%s' % (cls, name))


def obs(ex, nm='o'):
    o = ex.fresh(nm, I)
    ex.assume(o != 0)
    return VRef(OB, o)


def sub(ex, nm='s', null=False):
    s = ex.fresh(nm, I)
    if not null:
        ex.assume(s != 0)
    return VRef(SU, s)


def same_but(ex, g0, g1, s, o, what):
    ex.prove(z3.ForAll([s_, o_], z3.Implies(z3.Or(s_ != s, o_ != o), z3.And(g1.ah[s_][o_] == g0.ah[s_][o_],
             z3.Implies(g0.ah[s_][o_], z3.ForAll([i_], g1.aa[s_][o_][i_] == g0.aa[s_][o_][i_]))))), what)


def g_attach(ex):
    s, o, i = sub(ex), obs(ex), ex.fresh_int('i')
    g0 = Snap(ex)
    method(ex, SU, s, 'attach', [o, i])
    g1 = Snap(ex)
    j = ex.fresh('j', I)
    ex.prove(g1.ah[s.e][o.e], 'the observer is in the audience')
    ex.prove(g1.aa[s.e][o.e][j] == z3.Or(j == i, z3.And(g0.ah[s.e][o.e], g0.aa[s.e][o.e][j])), 'exactly the position is added')
    same_but(ex, g0, g1, s.e, o.e, 'no other registration changes')
    ex.prove(z3.And(g1.dn == g0.dn, g1.da == g0.da), 'no dependency list changes')


def g_detach_idx(ex):
    s, o, i = sub(ex), obs(ex), ex.fresh_int('i')
    g0 = Snap(ex)
    ex.ghost['editing'] = (o.e,)
    assume_sym(ex, g0)
    ex.assume(g0.has(o.e, i, s.e))
    seen = []

    def hook(ex, this, args, node):
        g1 = Snap(ex)
        seen.append(g1)
        k = ex.fresh('k', I)
        ex.prove(z3.Not(g1.ah[s.e][k]), 'the subject is only told to die when nobody is registered')
        return CONTRACTS[SU + '::death_on_noparent'](ex, this, args, node)
    ex.s.contracts[SU + '::death_on_noparent'] = hook
    method(ex, SU, s, 'detach', [o, i], 2)
    if seen:
        g1 = seen[-1]
    else:
        g1 = Snap(ex)
        ex.prove(z3.Not(z3.ForAll([o_], z3.Not(g1.ah[s.e][o_]))), 'a subject without audience is told')
    j = ex.fresh('j', I)
    ex.prove(g1.reg(s.e, o.e, j) == z3.And(j != i, g0.reg(s.e, o.e, j)), 'exactly the position is removed')
    ex.prove(nonempty(g1), 'no observer stays listed without a position')
    same_but(ex, g0, g1, s.e, o.e, 'no other registration changes')
    ex.prove(z3.And(g1.dn == g0.dn, g1.da == g0.da), 'no dependency list changes')


def g_add(ex):
    o, s = obs(ex), sub(ex, null=True)
    g0 = assume_sym(ex)
    ex.ghost['body'] = 'add_dependency'
    method(ex, OB, o, 'add_dependency', [s])
    g1 = Snap(ex)
    added_facts(ex, g0, g1, o.e, s.e, lambda f: ex.prove(f, 'the subject is appended'))
    prove_sym(ex)


def g_remove(ex):
    o, i = obs(ex), ex.fresh_int('i')
    g0 = assume_sym(ex)
    ex.assume(g0.dn[o.e] >= 0)
    ex.ghost['body'] = 'remove_dependency'
    ex.ghost['editing'] = (o.e,)
    try:
        method(ex, OB, o, 'remove_dependency', [i])
    except CppThrow:
        g1 = Snap(ex)
        ex.prove(i >= g0.dn[o.e], 'only a position that does not exist is refused')
        ex.prove(z3.And(g1.dn == g0.dn, g1.da == g0.da, g1.ah == g0.ah, g1.aa == g0.aa), 'a refused removal changes nothing')
        return
    g1 = Snap(ex)
    ex.prove(i < g0.dn[o.e], 'a position that does not exist is refused')
    if ex.decide(g0.da[o.e][i] == 0):
        ex.prove(z3.And(g1.dn == g0.dn, g1.da == g0.da, g1.ah == g0.ah, g1.aa == g0.aa), 'removing an empty position changes nothing')
        return
    removed_facts(ex, g0, g1, o.e, i, lambda f: ex.prove(f, 'exactly that dependency is removed, trailing empty positions dropped'))
    ex.prove(shrunk(ex, g0, g1), 'registrations only disappear')
    prove_sym(ex)


def t_trim(L):
    """the trimming loop: what was cut off was empty"""
    ex = L.ex
    e0 = L.entry_heap.get((OB, 'dependencies_'))
    if e0 is None:
        return
    ed = ex.ghost.get('editing')
    if not ed:
        return
    ed = ed[0]

    def cur():
        return Snap(ex)
    yield 'trim n', lambda: z3.And(0 <= cur().dn[ed], cur().dn[ed] <= e0[0][ed])
    yield 'trim same', lambda: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < cur().dn[ed]), cur().da[ed][i_] == e0[1][ed][i_]))
    yield 'trim null', lambda: z3.ForAll([i_], z3.Implies(z3.And(cur().dn[ed] <= i_, i_ < e0[0][ed]), e0[1][ed][i_] == 0))
    yield 'trim others', lambda: z3.ForAll([o_], z3.Implies(o_ != ed, z3.And(cur().dn[o_] == e0[0][o_], cur().da[o_] == e0[1][o_])))


def g_replace(ex):
    o, s, i = obs(ex), sub(ex, null=True), ex.fresh_int('i')
    g0 = assume_sym(ex)
    ex.ghost['body'] = 'replace_dependency'
    ex.ghost['editing'] = (o.e,)
    method(ex, OB, o, 'replace_dependency', [s, i])
    g1 = Snap(ex)
    replaced_facts(ex, g0, g1, o.e, s.e, i, lambda f: ex.prove(f, 'exactly that position is replaced'))
    prove_sym(ex)


def g_update(ex):
    ob = obs(ex)
    g0 = assume_sym(ex)
    st = VSet(('int', 64, False), ex.fresh('indices', z3.ArraySort(I, B)))
    ex.assume(z3.ForAll([i_], z3.Implies(st.has[i_], z3.And(0 <= i_, i_ < g0.dn[ob.e], g0.da[ob.e][i_] != 0)), patterns=[st.has[i_]]))
    ex.ghost['body'] = 'update'
    ex.ghost['set'] = st
    ex.ghost['observer'] = ob.e
    ex.ghost['editing'] = None
    method(ex, OB, ob, 'update', [ex.new_cell(st, ('uset', ('int', 64, False))), z3.Int('enum_UNSUBSCRIBE')], 2)
    g1 = Snap(ex)
    ex.prove(z3.ForAll([s_, i_], z3.Implies(z3.And(s_ != 0, st.has[i_], g1.ah[s_][ob.e]), z3.Not(g1.aa[s_][ob.e][i_]))), 'the observer is registered nowhere for these positions')
    ex.prove(shrunk(ex, g0, g1), 'registrations only disappear')
    ex.prove(shrunk_keys(g0, g1), 'no observer is added to an audience')
    prove_sym(ex)


def t_update(L):
    ex = L.ex
    st, ob = ex.ghost.get('set'), ex.ghost.get('observer')
    if st is None or not L.hidden or not isinstance(ex.read(L.hidden[0]), VSet):
        return
    e0 = Snap0(L)
    vis = lambda: ex.read(L.hidden[0]).has
    yield 'sizes', lambda: sizes(Snap(ex))
    yield 'sym a', lambda: sym_in(Snap(ex))[0]
    yield 'sym b', lambda: sym_in(Snap(ex))[1]
    yield 'sym c', lambda: nonempty(Snap(ex))
    yield 'shrunk', lambda: shrunk(ex, e0, Snap(ex))
    yield 'keys', lambda: shrunk_keys(e0, Snap(ex))
    yield 'left', lambda: (lambda g: z3.ForAll([i_], z3.Implies(z3.And(st.has[i_], z3.Not(vis()[i_])), z3.And(0 <= i_, i_ < g.dn[ob], g.da[ob][i_] != 0)), patterns=[st.has[i_]]))(Snap(ex))
    yield 'done', lambda: (lambda g: z3.ForAll([i_], z3.Implies(z3.And(st.has[i_], vis()[i_], 0 <= i_, i_ < g.dn[ob]), g.da[ob][i_] == 0), patterns=[st.has[i_]]))(Snap(ex))


class Snap0(Snap):
    """the edges at loop entry"""
    def __init__(self, L):
        g = L.ex
        d = L.entry_heap.get((OB, 'dependencies_')) or g.heap[(OB, 'dependencies_')]
        a = L.entry_heap.get((SU, 'audience_')) or g.heap[(SU, 'audience_')]
        self.dn, self.da, self.ah, self.aa = d[0], d[1], a[0], a[1]


def g_dtor_subject(ex):
    s = sub(ex)
    g0 = assume_sym(ex)
    ex.ghost['subject'] = s.e
    _, _, k = ex.heap_leaves(SU, 'killers_')
    ex.assume(z3.ForAll([s_], z3.Not(k[0][s_][0]), patterns=[k[0][s_]]))
    method(ex, SU, s, '~subject', [])
    g1 = Snap(ex)
    ex.prove(z3.ForAll([o_], z3.Not(g1.ah[s.e][o_])), 'nobody is registered with a destroyed subject')
    ex.prove(z3.ForAll([o_, i_], z3.Not(g1.has(o_, i_, s.e))), 'nobody depends on a destroyed subject')
    ex.prove(shrunk(ex, g0, g1), 'registrations only disappear')
    prove_sym(ex)


def ptr_vecs(L):
    ex = L.ex
    for nm, lv in L.vecs:
        v = ex.read(lv)
        if v.ety[0] == 'ptr':
            yield nm, (lambda lv=lv: ex.to_vvec(ex.read(lv)).leaves[0]), (lambda lv=lv: ex.vlen(ex.read(lv)))


def t_notify(L):
    ex = L.ex
    s = ex.ghost.get('subject')
    if s is None:
        return
    e0 = Snap0(L)
    yield 'sizes', lambda: sizes(Snap(ex))
    yield 'sym a', lambda: sym_in(Snap(ex))[0]
    yield 'sym b', lambda: sym_in(Snap(ex))[1]
    yield 'sym c', lambda: nonempty(Snap(ex))
    yield 'shrunk', lambda: shrunk(ex, e0, Snap(ex))
    yield 'keys', lambda: shrunk_keys(e0, Snap(ex))
    for nm, lv in L.iters:
        it = ex.read(lv)
        if it.kind != 'mapseq':
            continue
        n, e, ix = it.extra['seq']
        yield 'it range ' + nm, lambda lv=lv, n=n: z3.And(0 <= ex.read(lv).idx, ex.read(lv).idx <= n)
        for vn, v, ln in ptr_vecs(L):
            yield 'obs %s %s' % (vn, nm), lambda lv=lv, v=v, e=e, ln=ln: z3.And(ln() == ex.read(lv).idx, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < ln()), v()[J] == e[J]), patterns=[v()[J]]))
    for vn, v, ln in ptr_vecs(L):
        for kn, k in L.int_terms(True):
            # every observer still listed comes later in the snapshot
            for n, e, ix in ex.ghost.get('seqs', ()):
                yield 'later %s %s' % (vn, kn), lambda k=k, ix=ix, ln=ln, v=v: z3.ForAll([o_], z3.Implies(Snap(ex).ah[s][o_], z3.And(k() <= ix[o_], ix[o_] < ln(), v()[ix[o_]] == o_)), patterns=[ix[o_]])



def base_inv(ex, e0, but=()):
    yield 'sizes', lambda: sizes(Snap(ex))
    yield 'sym a', lambda: sym_in(Snap(ex), but)[0]
    yield 'sym b', lambda: sym_in(Snap(ex), but)[1]
    yield 'sym c', lambda: nonempty(Snap(ex))
    yield 'shrunk', lambda: shrunk(ex, e0, Snap(ex))
    yield 'keys', lambda: shrunk_keys(e0, Snap(ex))


def g_dtor_observer(ex):
    ob = obs(ex)
    g0 = assume_sym(ex)
    ex.ghost['observer'] = ob.e
    method(ex, OB, ob, '~iobserver', [])
    g1 = Snap(ex)
    ex.prove(z3.ForAll([s_], z3.Implies(s_ != 0, z3.Not(g1.ah[s_][ob.e]))), 'a destroyed observer is registered nowhere')
    ex.prove(shrunk(ex, g0, g1), 'registrations only disappear')
    prove_sym(ex)


def t_dtor_observer(L):
    ex = L.ex
    ob = ex.ghost.get('observer')
    if ob is None:
        return
    yield from base_inv(ex, Snap0(L))
    for kn, k in L.int_terms(True):
        yield 'cleared ' + kn, lambda k=k: (lambda g: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k(), i_ < g.dn[ob]), g.da[ob][i_] == 0)))(Snap(ex))
    yield 'none', lambda: (lambda g: z3.ForAll([s_], z3.Implies(s_ != 0, z3.Not(g.ah[s_][ob]))))(Snap(ex))


def g_copy_helper(ex, move):
    ob, other = obs(ex), obs(ex, 'other')
    ex.assume(ob.e != other.e)
    g0 = assume_sym(ex)
    ex.ghost['editing'] = (ob.e, other.e) if move else (ob.e,)
    ex.ghost['copy'] = (ob.e, other.e)
    method(ex, OB, ob, 'move_helper' if move else 'copy_helper', [LV(('h', OB, other.e))])
    g1 = Snap(ex)
    prove_sym(ex)
    if move:
        ex.prove(z3.And(g1.dn[ob.e] == g0.dn[other.e], z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < g0.dn[other.e]), g1.da[ob.e][i_] == g0.da[other.e][i_]))),
                 'the new observer holds what the old one held, position by position')
        ex.prove(g1.dn[other.e] == 0, 'the old observer holds nothing')
        ex.prove(z3.ForAll([s_], z3.Implies(s_ != 0, z3.Not(g1.ah[s_][other.e]))), 'the old observer is registered nowhere')


def t_copy(L):
    ex = L.ex
    if ex.ghost.get('copy') is None:
        return
    ob, other = ex.ghost['copy']
    ed = ex.ghost['editing']
    e0 = Snap0(L)
    cur = lambda: Snap(ex)
    for nm, f in base_inv(ex, e0, ed):
        yield nm, f
    yield 'full a', lambda: sym_in(cur())[0]
    yield 'full b', lambda: sym_in(cur())[1]
    def only(o, cond):
        g = cur()
        p = g.aa[s_][o][i_]
        f = z3.Implies(z3.And(s_ != 0, g.ah[s_][o], p), z3.And(cond(i_), 0 <= i_, i_ < e0.dn[ob], e0.da[ob][i_] == s_))
        return z3.ForAll([s_, i_], f, patterns=[p]) if pat_ok(p) else z3.ForAll([s_, i_], f)

    def all_(o, cond):
        g = cur()
        d = e0.da[ob][i_]
        f = z3.Implies(z3.And(cond(i_), 0 <= i_, i_ < e0.dn[ob], d != 0), z3.And(g.ah[d][o], g.aa[d][o][i_]))
        return z3.ForAll([i_], f, patterns=[d]) if pat_ok(d) else z3.ForAll([i_], f)

    for o, on in ((ob, 'this'), (other, 'other')):
        yield 'list ' + on, lambda o=o: (lambda g: z3.And(g.dn[o] == e0.dn[o], z3.ForAll([i_], g.da[o][i_] == e0.da[o][i_])))(cur())
        yield 'regs ' + on, lambda o=o: (lambda g: z3.ForAll([s_, i_], z3.And(g.ah[s_][o], g.aa[s_][o][i_]) == z3.And(e0.ah[s_][o], e0.aa[s_][o][i_])))(cur())
        for kn, k in L.int_terms(True):
            for cn, c in (('from', lambda i, k=k: i >= k()), ('upto', lambda i, k=k: i < k())):
                yield 'only %s %s %s' % (cn, on, kn), lambda o=o, c=c: only(o, c)
                yield 'all %s %s %s' % (cn, on, kn), lambda o=o, c=c: all_(o, c)



def g_steal(ex, how):
    s, other = sub(ex), sub(ex, 'other')
    ex.assume(s.e != other.e)
    g0 = assume_sym(ex)
    ex.ghost['steal'] = other.e
    if how == 'move-constructor':
        ex.assume(z3.ForAll([o_], z3.Not(g0.ah[s.e][o_])))
        d = ctor(ex, SU, '&&')
        ex.frames.append(Frame('goal', None))
        ex.call_def(d, s, [LV(('h', SU, other.e))], None)
        ex.frames.pop()
    elif how == 'move-assignment':
        method(ex, SU, s, 'operator=', [LV(('h', SU, other.e))], 1, '&&')
    else:
        method(ex, SU, s, 'steal_observers', [other])
    g1 = Snap(ex)
    ex.prove(z3.ForAll([o_], z3.Not(g1.ah[other.e][o_])), 'nobody is registered with the old subject any more')
    ex.prove(z3.ForAll([o_, i_], z3.Not(g1.has(o_, i_, other.e))), 'nobody depends on the old subject any more')
    prove_sym(ex)


def ctor(ex, cls, sig):
    for m in ex.ast.methods(cls):
        if m['kind'] == 'CXXConstructorDecl' and sig in m['type']['qualType']:
            d = ex.ast.definition(m['id'])
            if d is not None:
                return d
    raise Unsupported('no constructor of %s' % cls)


def t_steal(L):
    ex = L.ex
    other = ex.ghost.get('steal')
    if other is None or not L.hidden or not isinstance(ex.read(L.hidden[0]), VSet):
        return
    for nm, f in base_inv(ex, Snap0(L)):
        if nm not in ('shrunk', 'keys'):
            yield nm, f
    tmp = [lv for nm, lv in L.lvs() if isinstance(peek(ex, lv), VMap)]
    cur = [lv for nm, lv in L.lvs() if isinstance(peek(ex, lv), VRef) and peek(ex, lv).cls == OB]
    for t in tmp:
        m = ex.read(t)
        vis = lambda: ex.read(L.hidden[0]).has

        def left(cond):
            g = Snap(ex)
            p = g.aa[other][o_][i_]
            f = z3.Implies(z3.And(g.ah[other][o_], p), z3.And(m.has[o_], m.leaves[0][o_][i_], cond()))
            return z3.ForAll([o_, i_], f, patterns=[p]) if pat_ok(p) else z3.ForAll([o_, i_], f)
        if not ex.loopstack:
            yield 'left', lambda left=left: left(lambda: z3.Not(vis()[o_]))
        elif ex.loopstack:
            ov = lambda: ex.read(ex.loopstack[0].hidden[0]).has
            for c in cur:
                yield 'left inner', lambda left=left, c=c, ov=ov: left(lambda: z3.Or(z3.Not(ov()[o_]), z3.And(o_ == ex.read(c).e, z3.Not(vis()[i_]))))


def peek(ex, lv):
    try:
        return ex.read(lv)
    except Exception:
        return None


KILL = z3.Ints('a!q b!q')


def g_killers(ex, cls, name):
    """ondeath_deps_ and killers_ mirror each other"""
    ob, s = obs(ex), sub(ex, null=True)
    k = lambda: ex.heap_leaves(SU, 'killers_')[2][0]
    d = lambda: ex.heap_leaves(OB, 'ondeath_deps_')[2][0]
    a, b = KILL
    mirror = lambda: z3.ForAll([a, b], z3.Implies(z3.And(a != 0, b != 0), k()[a][b] == d()[b][a]))
    ex.assume(z3.And(z3.ForAll([a], z3.Not(k()[a][0])), z3.ForAll([b], z3.Not(d()[b][0]))))
    ex.assume(z3.ForAll([a, b], z3.Implies(z3.And(a != 0, b != 0), k()[a][b] == d()[b][a]), patterns=[k()[a][b], d()[b][a]]))
    k0, d0 = k(), d()
    if cls == OB:
        method(ex, OB, ob, name, [s])
    else:
        ex.assume(s.e != 0)
        method(ex, SU, s, name, [ob])
    want = z3.BoolVal(name.startswith('add') or name.startswith('attach'))
    ex.prove(z3.ForAll([a, b], z3.Implies(z3.And(a != 0, b != 0), k()[a][b] == z3.If(z3.And(a == s.e, b == ob.e), want, k0[a][b]))), 'exactly that killer is %s' % ('added' if z3.is_true(want) else 'removed'))
    ex.prove(mirror(), 'killers and their victims mirror each other')
    ex.prove(z3.And(z3.ForAll([a], z3.Not(k()[a][0])), z3.ForAll([b], z3.Not(d()[b][0]))), 'no null entry')


o = {'use': HOOKS}
CALLS = HOOKS + (OB + '::remove_dependency', OB + '::add_dependency', OB + '::replace_dependency', OB + '::update', 'delete')
oc = {'use': CALLS}
od = {'use': CALLS + (SU + '::detach',)}
GOALS = {'C13': [
    ('subject.attach', g_attach, [], o),
    ('subject.detach(viewer,idx)', g_detach_idx, [], o),
    ('iobserver.add_dependency', g_add, [], o),
    ('iobserver.remove_dependency', g_remove, [t_range, t_trim], o),
    ('iobserver.replace_dependency', g_replace, [], o),
    ('iobserver.update(UNSUBSCRIBE)', g_update, [t_update], oc),
    ('subject.~subject', g_dtor_subject, [t_range, t_notify], oc),
    ('iobserver.~iobserver', g_dtor_observer, [t_range, t_dtor_observer], oc),
    ('iobserver.copy_helper', lambda ex: g_copy_helper(ex, False), [t_range, t_copy], od),
    ('iobserver.move_helper', lambda ex: g_copy_helper(ex, True), [t_range, t_copy], od),
    ('subject.steal_observers', lambda ex: g_steal(ex, 'steal'), [t_steal], oc),
    ('subject.move-constructor', lambda ex: g_steal(ex, 'move-constructor'), [t_steal], oc),
    ('subject.move-assignment', lambda ex: g_steal(ex, 'move-assignment'), [t_steal], oc),
    ('iobserver.add_ondeath_dependent', lambda ex: g_killers(ex, OB, 'add_ondeath_dependent'), [], oc),
    ('iobserver.remove_ondeath_dependent', lambda ex: g_killers(ex, OB, 'remove_ondeath_dependent'), [], oc),
    ('subject.attach_killer', lambda ex: g_killers(ex, SU, 'attach_killer'), [], oc),
    ('subject.detach_killer', lambda ex: g_killers(ex, SU, 'detach_killer'), [], oc),
]}

INTERP = GraphInterp
