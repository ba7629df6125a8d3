"""Contracts of the Q-learning agent (C20)."""
from .lib import *
from vc.interp import Interp, inner, strip
from vc.stl import bulk_write
from vc.frontend import ExtractionError

TU = 'dq_tu.cpp'
DQ, MLP, EXP, PAR = 'rocnnet::dq_net', 'rocnnet::mlp', 'rocnnet::dq_net::exp_batch', 'rocnnet::dqn_param'
PLH, INO, ICON, VAR = ('nnet::%s<double>' % x for x in ('placeholder', 'inode', 'iconnector', 'variable'))
VP = 'nnet::varptr<double>'
REAL, INT = ('real',), ('int', 64, False)
VECR = ('vec', REAL)
UPD = ('fn', 'variable_updater')


class DqInterp(Interp):
    def hook_operator(self, name, did, argn, n):
        if name == 'operator()':
            x = self.rv(self.ev(argn[0]))
            if isinstance(x, VStruct) and x.cls == 'explore':
                for a in argn[1:]:
                    self.ev(a)
                r = self.fresh('draw', R)
                self.assume(z3.And(0 <= r, r < 1))
                self.ghost.setdefault('draws', []).append(r)
                return r
        return NotImplemented

    def hook_member(self, obj, arrow, name, q, argn, n):
        if isinstance(obj, LV):
            x = self.read(obj)
            if isinstance(x, VStruct) and x.cls == VP and (name.startswith('operator') or name == 'get'):
                return x.fields['node']
        return NotImplemented

    def hook_free(self, name, args, n):
        if name == 'floor':
            return z3.ToReal(z3.ToInt(as_real(self.rv(args[0]))))
        if name == 'get_generator':
            return self.new_cell(VOpaque('engine'), ('cls', 'engine'))
        if name == 'iota':
            a, b, v0 = self.rv(args[0]), self.rv(args[1]), as_int(self.rv(args[2]))
            bulk_write(self, a, z3.simplify(b.idx - a.idx), lambda j: v0 + j)
            return VOIDV
        if name in ('random_shuffle', 'shuffle'):
            a, b = self.rv(args[0]), self.rv(args[1])
            cnt = z3.simplify(b.idx - a.idx)
            v = self.to_vvec(self.read(a.lv))
            old = v.leaves[0]
            at = z3.Function('shuffled!%d' % self.site_no(), I, I)
            self.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < cnt), z3.And(0 <= at(J), at(J) < cnt)), patterns=[at(J)]))
            K_ = z3.Int('k!s')
            self.assume(z3.ForAll([J, K_], z3.Implies(z3.And(0 <= J, J < K_, K_ < cnt), at(J) != at(K_)), patterns=[z3.MultiPattern(at(J), at(K_))]))
            bulk_write(self, a, cnt, lambda j: old[a.idx + at(j)])
            self.ghost['shuffled'] = self.to_vvec(self.read(a.lv))
            return VOIDV
        return NotImplemented

    def site_no(self):
        self.ghost['site'] = self.ghost.get('site', 0) + 1
        return self.ghost['site']

    def default_value(self, ty, zero=True):
        if ty[0] == 'cls' and 'distribution' in ty[1]:
            return VStruct('explore', {})
        if ty[0] == 'cls' and 'engine' in ty[1]:
            return VOpaque('engine')
        return super().default_value(ty, zero)

    def hook_construct(self, cls, ct, argn, n):
        if 'distribution' in cls or 'engine' in cls:
            if not argn:
                return self.default_value(('cls', cls))
            return self.rv(self.ev(argn[0]))
        return NotImplemented

    def call_opaque(self, f, args, node):
        if is_z3(f) and z3.is_int(f):
            return run_updater(self, f, args)
        return super().call_opaque(f, args, node)


INTERP = DqInterp


def gh(ex, name):
    """ghost cell"""
    return ex.ghost['cells'][name]


def run_updater(ex, f, args):
    """an update of the updater: counted, and checked to run in its phase"""
    if 'cells' not in ex.ghost:
        raise Unsupported('update outside training')
    ran = gh(ex, 'ran')
    ex.prove(ex.rv(args[0]), 'train: updates notify')
    src = ex.ghost['src'](f)
    ex.prove(z3.Implies(src, ex.read(gh(ex, 'frozen'))), 'train: the error is frozen while the source network is updated')
    ex.prove(z3.Implies(z3.Not(src), z3.Not(ex.read(gh(ex, 'frozen')))), 'train: the error is current again when the target network follows')
    ex.prove(ex.read(gh(ex, 'fed')) == 5, 'train: every input is fed before the networks are updated')
    ex.write(ran.i(f), z3.simplify(ex.read(ran.i(f)) + 1))
    return VOIDV


def c_freeze(ex, this, args, node):
    ex.prove(this.lv.key() == ex.ghost['error'].key(), 'train: only the prediction error is frozen')
    ex.write(gh(ex, 'frozen'), as_bool(ex.rv(args[0])))
    return VOIDV


def c_feed(ex, this, args, node):
    """placeholder = data (C16): remembers what it was fed"""
    v = ex.rv(args[0])
    ex.write(this.lv.f('fed'), ex.to_vvec(v))
    if 'cells' in ex.ghost:
        ex.write(gh(ex, 'fed'), z3.simplify(ex.read(gh(ex, 'fed')) + 1))
    return this.lv


def c_expose(ex, this, args, node):
    """the elements of the current value of a node (C14)"""
    p = ex.rv(args[0])
    ex.ghost.setdefault('exposed', []).append(p)
    return ex.read(p.lv).fields['value']


CONTRACTS = {
    'nnet::expose': c_expose,
    MLP + '::get_noutput': lambda ex, this, args, node: ex.read(this.lv).fields['nout'],
    MLP + '::get_ninput': lambda ex, this, args, node: ex.read(this.lv).fields['nin'],
    PLH + '::operator=': c_feed,
    ICON + '::freeze_status': c_freeze,
    'nnet::iconnector<double>::freeze_status': c_freeze,
}
USE = tuple(CONTRACTS)


# ---------------------------------------------------------------- the agent
def plh(ex, name):
    return VPtr(ex.new_cell(VStruct(PLH, {'fed': ex.fresh_val(VECR, name), 'name': VStr((name,))}), ('cls', PLH)))


def mk_agent(ex):
    """an agent in any state it can reach: sizes positive, intervals positive, memory within its capacity"""
    par = VStruct(PAR, {k: ex.fresh(k, I) for k in ('train_interval_', 'store_interval_', 'mini_batch_size_', 'max_exp_')})
    for k in ('rand_action_prob_', 'discount_rate_', 'target_update_rate_', 'exploration_period_'):
        par = par.with_(k, ex.fresh(k, R))
    p = par.fields
    ex.assume(z3.And(p['train_interval_'] >= 1, p['store_interval_'] >= 1, p['mini_batch_size_'] >= 0, p['max_exp_'] >= 0))
    nout, nin = ex.fresh('nout', I), ex.fresh('nin', I)
    ex.assume(z3.And(nout >= 1, nin >= 1))
    mlp = ex.new_cell(VStruct(MLP, {'nout': nout, 'nin': nin}), ('cls', MLP))
    tgt = ex.new_cell(VStruct(MLP, {'nout': nout, 'nin': nin}), ('cls', MLP))
    best = ex.fresh_val(VECR, 'best')
    node = ex.new_cell(VStruct(INO, {'value': best}), ('cls', INO))
    out = ex.new_cell(VStruct(INO, {'value': ex.fresh_val(VECR, 'scores')}), ('cls', INO))
    err = ex.new_cell(VStruct(ICON, {}), ('cls', ICON))
    ex.ghost['error'] = err
    exps = ex.fresh_val(('vec', ('cls', EXP)), 'experiences')
    ex.assume(exps.n <= p['max_exp_'])
    for l in (exps.leaves[0], exps.leaves[4]):
        ex.assume(z3.ForAll([J], l[J] >= 0, patterns=[l[J]]))
    f = {'params_': par, 'actions_executed_': ex.fresh_val(INT, 'actions'), 'iteration_': ex.fresh_val(INT, 'iteration'),
         'n_store_called_': ex.fresh_val(INT, 'n_store'), 'n_train_called_': ex.fresh_val(INT, 'n_train'),
         'explore_': VStruct('explore', {}), 'generator_': VOpaque('engine'), 'experiences_': exps, 'scope_': VStr(('scope',)),
         'source_qnet_': VPtr(mlp), 'target_qnet_': VPtr(tgt), 'prediction_error_': VPtr(err),
         'best_output_': VStruct(VP, {'node': VPtr(node)}), 'output_': VStruct(VP, {'node': VPtr(out)}),
         'source_updates_': ex.fresh_val(('vec', UPD), 'source_updates'), 'target_updates_': ex.fresh_val(('vec', UPD), 'target_updates')}
    for k in ('input_', 'train_input_', 'next_input_', 'next_output_mask_', 'reward_', 'output_mask_'):
        f[k] = plh(ex, k)
    a = ex.new_cell(VStruct(DQ, f), ('cls', DQ))
    ex.input('experiences', exps.n)
    ex.input('max_exp', p['max_exp_'])
    return a


def call(ex, lv, name, args=()):
    return ex.call_def(ex.ast.find(DQ + '::' + name, len(args)), VPtr(lv), list(args), None)


SCAL = ('actions_executed_', 'iteration_', 'n_store_called_', 'n_train_called_')


def same_state(ex, f0, f1, tag, but=()):
    """everything a later request can observe, except what is listed, is as before"""
    for k in SCAL:
        if k not in but:
            ex.prove(f0[k] == f1[k], '%s: %s unchanged' % (tag, k.strip('_')))
    for k, v in f0['params_'].fields.items():
        ex.prove(f1['params_'].fields[k] == v, '%s: %s unchanged' % (tag, k.strip('_')))
    if 'experiences_' not in but:
        ex.prove(mem_eq(f0['experiences_'], f1['experiences_']), tag + ': the memory is unchanged')


def mem_eq(a, b):
    return z3.And(a.n == b.n, forall(0, a.n, lambda j: el_eq(a, b, j, j)))


def el_eq(a, b, i, j):
    """transition i of a is transition j of b"""
    on, oa, act, rew, nn, na = [l[i] for l in a.leaves]
    on2, oa2, act2, rew2, nn2, na2 = [l[j] for l in b.leaves]
    return z3.And(on == on2, oa == oa2, act == act2, rew == rew2, nn == nn2, na == na2)


def eps(f, n, p0):
    p = f['params_'].fields
    q, T = p['rand_action_prob_'], p['exploration_period_']
    m = z3.ToReal(n)
    return m, q, T, p0


def g_anneal(ex):
    a = mk_agent(ex)
    p0 = ex.fresh('initial', R)
    f0 = ex.read(a).fields
    m, q, T, p0 = eps(f0, f0['actions_executed_'], p0)
    r = as_real(ex.rv(call(ex, a, 'linear_annealing', [ex.new_cell(p0, REAL)])))
    tag = 'linear annealing'
    ex.prove(z3.Implies(m >= T, r == q), tag + ': the final probability once the period is over')
    ex.prove(z3.Implies(m < T, r * T == p0 * T - m * (p0 - q)), tag + ': decays linearly over the period')
    same_state(ex, f0, ex.read(a).fields, tag)


def g_random(ex):
    a = mk_agent(ex)
    f0 = ex.read(a).fields
    r = as_real(ex.rv(call(ex, a, 'get_random')))
    ex.prove(z3.And(0 <= r, r < 1), 'random number lies in [0, 1)')
    same_state(ex, f0, ex.read(a).fields, 'random number')


def c_anneal(ex, this, args, node):
    p0 = as_real(ex.rv(args[0]))
    r = ex.fresh('eps', R)
    ex.ghost.setdefault('anneal', []).append((ex.read(this.lv).fields['actions_executed_'], p0, r))
    return r


def g_action(ex):
    a = mk_agent(ex)
    f0 = ex.read(a).fields
    nout = ex.read(f0['source_qnet_'].lv).fields['nout']
    best = ex.read(f0['best_output_'].fields['node'].lv).fields['value']
    i = ex.fresh('best_i', I)
    # what arg_max yields along the first dimension of one column of noutput scores (C10)
    ex.assume(z3.And(best.n == 1, best.leaves[0][0] == z3.ToReal(i), 0 <= i, i < nout))
    inp = ex.fresh_val(VECR, 'observation')
    c = ex.new_cell(inp, VECR)
    r = as_real(ex.rv(call(ex, a, 'action', [c])))
    f1 = ex.read(a).fields
    tag = 'action'
    ex.prove(f1['actions_executed_'] == f0['actions_executed_'] + 1, tag + ': counts the request')
    same_state(ex, f0, f1, tag, ('actions_executed_',))
    an = ex.ghost.get('anneal', [])
    ex.prove(len(an) == 1, tag + ': the exploration probability is looked up once')
    dr = ex.ghost.get('draws', [])
    ex.prove(len(dr) in (1, 2), tag + ': one draw decides whether to explore')
    if len(an) != 1 or len(dr) not in (1, 2):
        return
    n, p0, e = an[0]
    ex.prove(z3.And(n == f0['actions_executed_'] + 1, p0 == 1), tag + ': the probability decays from one with the number of actions')
    if len(dr) == 2:
        u = dr[1] * z3.ToReal(nout)
        inr = z3.And(0 <= u, u < z3.ToReal(nout))
        ex.prove(inr, tag + ': an explored position lies in the range')
        ex.assume(inr)
        ex.prove(z3.And(0 <= r, r < z3.ToReal(nout), r == z3.ToReal(z3.ToInt(r))), tag + ': an explored action is one of the actions')
        ex.prove(dr[0] < e, tag + ': explores only with the exploration probability')
        ex.prove(z3.And(r <= dr[1] * z3.ToReal(nout), dr[1] * z3.ToReal(nout) < r + 1), tag + ': an explored action is uniform over the actions')
    else:
        ex.prove(dr[0] >= e, tag + ': follows the network otherwise')
        ex.prove(z3.And(r == z3.ToReal(i), 0 <= i, i < nout), tag + ': takes the best scored action')
        fed = ex.read(f1['input_'].lv.f('fed'))
        ex.prove(z3.And(fed.n == inp.n, forall(0, inp.n, lambda j: fed.leaves[0][j] == inp.leaves[0][j])), tag + ': the scores are those of the observation')
        ep = ex.ghost.get('exposed', [])
        ex.prove(len(ep) == 1 and ep[0].lv.key() == f0['best_output_'].fields['node'].lv.key(), tag + ': the best action is read from the network')


def g_store(ex):
    a = mk_agent(ex)
    f0 = ex.read(a).fields
    obs, nob = ex.fresh_val(VECR, 'obs'), ex.fresh_val(VECR, 'nobs')
    act, rew = ex.fresh_val(INT, 'act'), ex.fresh('rew', R)
    call(ex, a, 'store', [ex.new_cell(obs, VECR), ex.new_cell(act, INT), ex.new_cell(rew, REAL), ex.new_cell(nob, VECR)])
    f1 = ex.read(a).fields
    tag = 'store'
    same_state(ex, f0, f1, tag, ('n_store_called_', 'experiences_'))
    ex.prove(f1['n_store_called_'] == f0['n_store_called_'] + 1, tag + ': counts the request')
    p = f0['params_'].fields
    m0, m1 = f0['experiences_'], ex.to_vvec(f1['experiences_'])
    cap = p['max_exp_']
    ex.prove(m1.n <= cap, tag + ': the memory stays within its capacity')
    due = f0['n_store_called_'] % p['store_interval_'] == 0

    def is_new(j):
        on, oa, ac, rw, nn, na = [l[j] for l in m1.leaves]
        return z3.And(on == obs.n, ac == act, rw == rew, nn == nob.n, oa == obs.leaves[0], na == nob.leaves[0])
    ex.prove(z3.Implies(z3.Not(due), mem_eq(m0, m1)), tag + ': nothing is stored between the intervals')
    ex.prove(z3.Implies(z3.And(due, m0.n < cap), z3.And(m1.n == m0.n + 1, is_new(m0.n))), tag + ': a transition is added while there is room')
    ex.prove(z3.Implies(z3.And(due, m0.n < cap), forall(0, m0.n, lambda j: el_eq(m0, m1, j, j))), tag + ': adding keeps the other transitions')
    full = z3.And(due, m0.n == cap, cap > 0)
    ex.prove(z3.Implies(full, m1.n == cap), tag + ': a full memory stays full')
    # one slot holds the new transition and all others are kept (whichever slot it is)
    k = z3.Int('slot')
    ex.prove(z3.Implies(full, z3.Exists([k], z3.And(0 <= k, k < cap, is_new(k), forall(0, cap, lambda j: z3.Or(j == k, el_eq(m0, m1, j, j)))))),
             tag + ': in a full memory one transition is replaced')


def t_pick(L):
    """results taken so far are the transitions at the shuffled positions"""
    ex = L.ex
    sh = ex.ghost.get('shuffled')
    mem = ex.ghost.get('memory')
    if sh is None or mem is None:
        return
    for nm, lv in L.vecs:
        if not L.is_mod(lv):
            continue
        v = ex.read(lv)
        if not isinstance(v, (VVec, VList)) or len(ex.sorts(v.ety)) != len(mem.leaves):
            continue

        def cur(lv=lv):
            return ex.to_vvec(ex.read(lv))
        for kn, k in L.int_terms(True):
            yield 'count %s %s' % (nm, kn), lambda k=k, cur=cur: cur().n == k()
            yield 'picked %s %s' % (nm, kn), lambda k=k, cur=cur: forall(0, k(), lambda j: el_eq(cur(), mem, j, sh.leaves[0][j]))


def g_sample(ex):
    a = mk_agent(ex)
    f0 = ex.read(a).fields
    mb, mem = f0['params_'].fields['mini_batch_size_'], f0['experiences_']
    ex.assume(mb <= mem.n)
    ex.ghost['memory'] = mem
    r = ex.to_vvec(ex.rv(call(ex, a, 'random_sample')))
    f1 = ex.read(a).fields
    tag = 'random sample'
    same_state(ex, f0, f1, tag)
    ex.prove(r.n == mb, tag + ': holds one mini-batch')
    sh = ex.ghost.get('shuffled')
    ex.prove(sh is not None, tag + ': positions are shuffled')
    if sh is not None:
        s = sh.leaves[0]
        ex.prove(forall(0, mb, lambda j: z3.And(0 <= s[j], s[j] < mem.n, el_eq(r, mem, j, s[j]))), tag + ': every element is a stored transition')
        k = z3.Int('k!d')
        ex.prove(z3.ForAll([J, k], z3.Implies(z3.And(0 <= J, J < k, k < mb), s[J] != s[k])), tag + ': no stored transition is used twice')


def c_sample(ex, this, args, node):
    f = ex.read(this.lv).fields
    mb, mem = f['params_'].fields['mini_batch_size_'], f['experiences_']
    ex.prove(mb <= mem.n, 'train: a sample is drawn only from a memory holding a mini-batch')
    v = ex.fresh_val(('vec', ('cls', EXP)), 'sample')
    at = z3.Function('sampled', I, I)
    ex.assume(z3.And(v.n == mb, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < mb), z3.And(0 <= at(J), at(J) < mem.n, el_eq(v, mem, J, at(J)))), patterns=[at(J)])))
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < mb), z3.And(0 <= at(J), at(J) < mem.n, el_eq(v, mem, J, at(J)))), patterns=[v.leaves[2][J]]))
    for l in (v.leaves[0], v.leaves[4]):
        ex.assume(z3.ForAll([J], l[J] >= 0, patterns=[l[J]]))
    ex.ghost['sample'] = v
    return v


def t_ran(L):
    """which updates ran so far"""
    ex = L.ex
    if 'cells' not in ex.ghost:
        return
    ran = gh(ex, 'ran')

    def arr():
        return ex.read(ran).leaves[0]
    for vn, v in ex.ghost['ids'].items():
        a, n = v.leaves[0], v.n
        yield 'none of %s ran' % vn, lambda a=a, n=n: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), arr()[a[J]] == 0), patterns=[a[J]])
        yield 'all of %s ran' % vn, lambda a=a, n=n: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), arr()[a[J]] == 1), patterns=[a[J]])
        for kn, k in L.int_terms(True):
            yield 'ran %s to %s' % (vn, kn), lambda a=a, n=n, k=k: z3.ForAll(
                [J], z3.Implies(z3.And(0 <= J, J < n), arr()[a[J]] == z3.If(J < k(), iv(1), iv(0))), patterns=[a[J]])


def t_batch(L):
    """what is fed for the transitions looked at so far"""
    ex = L.ex
    s = ex.ghost.get('sample')
    if s is None:
        return
    for nm, lv in L.vecs:
        v = ex.read(lv)
        if not L.is_mod(lv) or not isinstance(v, (VVec, VList)) or v.ety != REAL:
            continue

        def cur(lv=lv):
            return ex.to_vvec(ex.read(lv))
        for kn, k in L.int_terms(True):
            yield 'count %s %s' % (nm, kn), lambda cur=cur, k=k: cur().n == k()
            yield 'reward %s %s' % (nm, kn), lambda cur=cur, k=k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), cur().leaves[0][J] == s.leaves[3][J]), patterns=[cur().leaves[0][J]])
            yield 'mask %s %s' % (nm, kn), lambda cur=cur, k=k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), cur().leaves[0][J] == z3.If(s.leaves[4][J] == 0, z3.RealVal(0), z3.RealVal(1))), patterns=[cur().leaves[0][J]])


def g_train(ex):
    a = mk_agent(ex)
    f0 = ex.read(a).fields
    p, mem = f0['params_'].fields, f0['experiences_']
    nout = ex.read(f0['source_qnet_'].lv).fields['nout']
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < mem.n), z3.And(0 <= mem.leaves[2][J], mem.leaves[2][J] < nout)), patterns=[mem.leaves[2][J]]))
    S_, T_ = f0['source_updates_'], f0['target_updates_']
    src = z3.Function('is_source_update', I, B)
    at = z3.Function('position_of_update', I, I)
    for v, b in ((S_, True), (T_, False)):
        x = v.leaves[0][J]
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < v.n), z3.And(x != 0, src(x) == b, at(x) == J)), patterns=[x]))
    ran = ex.new_cell(VVec(INT, iv(2**62), [z3.K(I, iv(0))]), ('vec', INT))
    ex.ghost['cells'] = {'ran': ran, 'frozen': ex.new_cell(z3.BoolVal(False), ('bool',)), 'fed': ex.new_cell(iv(0), INT)}
    ex.ghost['src'] = src
    ex.ghost['ids'] = {'source': S_, 'target': T_}
    call(ex, a, 'train')
    f1 = ex.read(a).fields
    tag = 'train'
    due = z3.And(f0['n_train_called_'] % p['train_interval_'] == 0)
    ready = p['mini_batch_size_'] <= mem.n
    trains = z3.And(due, ready)
    same_state(ex, f0, f1, tag, ('iteration_', 'n_train_called_'))
    r = ex.read(ran).leaves[0]
    for nm, v in (('source', S_), ('target', T_)):
        x = v.leaves[0]
        ex.prove(z3.Implies(trains, forall(0, v.n, lambda j: r[x[j]] == 1)), '%s: every update of the %s network runs once when training is due' % (tag, nm))
        ex.prove(z3.Implies(z3.Not(trains), forall(0, v.n, lambda j: r[x[j]] == 0)), '%s: no update of the %s network runs otherwise' % (tag, nm))
    ex.prove(z3.Implies(trains, f1['iteration_'] == f0['iteration_'] + 1), tag + ': a training step is counted')
    ex.prove(z3.Implies(z3.Not(trains), f1['iteration_'] == f0['iteration_']), tag + ': only training steps are counted')
    ex.prove(z3.Implies(z3.And(due, z3.Not(ready)), f1['n_train_called_'] == f0['n_train_called_']), tag + ': a request without a mini-batch stays due')
    ex.prove(z3.Implies(z3.Or(trains, z3.Not(due)), f1['n_train_called_'] == f0['n_train_called_'] + 1), tag + ': the request is counted')
    ex.prove(z3.Not(ex.read(gh(ex, 'frozen'))), tag + ': the error is not left frozen')
    s = ex.ghost.get('sample')
    if s is not None:
        mb = p['mini_batch_size_']
        rw, mk = (ex.read(f1[k].lv.f('fed')) for k in ('reward_', 'next_output_mask_'))
        ex.prove(z3.And(rw.n == mb, forall(0, mb, lambda j: rw.leaves[0][j] == s.leaves[3][j])), tag + ': rewards are those of the sample')
        ex.prove(z3.And(mk.n == mb, forall(0, mb, lambda j: mk.leaves[0][j] == z3.If(s.leaves[4][j] == 0, z3.RealVal(0), z3.RealVal(1)))), tag + ': the future of final transitions is masked')


CONTRACTS.update({DQ + '::linear_annealing': c_anneal, DQ + '::random_sample': c_sample})


def c_setup(ex, this, args, node):
    """builds the graph of the agent (its behaviour is that of the nodes, C14 and C17)"""
    f = ex.read(this.lv).fields
    ex.ghost['setup'] = (f['params_'], f['source_qnet_'], f['target_qnet_'], f['updater_'])
    return VOIDV


def c_new(cls):
    def c(ex, this, args, node):
        return VPtr(ex.new_cell(VStruct(cls, dict(ex.read(this.lv).fields)), ('cls', cls)))
    return c


def c_varptr(ex, cls, args, node):
    return VStruct(VP, {'node': ex.rv(args[0]) if args else NULL})


UPDR = 'nnet::gd_updater'
SETUP = {VP + '::(ctor)': c_varptr, DQ + '::variable_setup': c_setup, MLP + '::clone': c_new(MLP), MLP + '::move': c_new(MLP),
         UPDR + '::clone': c_new(UPDR), UPDR + '::move': c_new(UPDR), UPDR + '::clear_ignore': lambda ex, this, args, node: VOIDV}
CONTRACTS.update(SETUP)


def g_make(ex, way):
    src = mk_agent(ex)
    upd = ex.new_cell(VStruct(UPDR, {}), ('cls', UPDR))
    ex.write(src.f('updater_'), VPtr(upd))
    f0 = ex.read(src).fields
    tag = 'agent ' + way
    if way == 'built':
        v = ex.construct_cls(DQ, 'void (mlp *, nnet::gd_updater &, dqn_param, std::string)',
                             [f0['source_qnet_'], upd, ex.new_cell(f0['params_'], ('cls', PAR)), VStr(('s',))], None)
        want = {k: iv(0) for k in SCAL}
    else:
        v = ex.construct_cls(DQ, 'void (const dq_net &, std::string)' if way == 'copied' else 'void (dq_net &&, std::string)', [src, VStr(('s',))], None)
        want = {k: f0[k] for k in SCAL}
    f1 = v.fields
    for k in SCAL:
        ex.prove(f1[k] == want[k], '%s: %s starts right' % (tag, k.strip('_')))
    for k, x in f0['params_'].fields.items():
        ex.prove(f1['params_'].fields[k] == x, '%s: has the parameter %s' % (tag, k.strip('_')))
    ex.prove(ex.to_vvec(f1['experiences_']).n <= f0['params_'].fields['max_exp_'], tag + ': the memory is within its capacity')
    ex.prove('setup' in ex.ghost, tag + ': its graph is built')
    if 'setup' in ex.ghost:
        p, s, t, u = ex.ghost['setup']
        for k, x in f0['params_'].fields.items():
            ex.prove(p.fields[k] == x, '%s: the graph is built from the parameter %s' % (tag, k.strip('_')))
        ex.prove(all(isinstance(x, VPtr) and x.lv is not None for x in (s, t, u)), tag + ': the graph is built from its networks and updater')
        if s.lv is not None and t.lv is not None:
            ex.prove(s.lv.key() != t.lv.key(), tag + ': the target network is not the source network')
            ex.prove(t.lv.key() != f0['source_qnet_'].lv.key() and t.lv.key() != f0['target_qnet_'].lv.key(), tag + ': the target network is its own')
            if way != 'built':
                ex.prove(s.lv.key() != f0['source_qnet_'].lv.key(), tag + ': the source network is its own')
                ex.prove(u.lv.key() != upd.key(), tag + ': the updater is its own')


os_ = {'use': USE + tuple(SETUP)}
od = {'use': USE}
oa = {'use': USE + (DQ + '::linear_annealing',)}
ot = {'use': USE + (DQ + '::random_sample',)}
GOALS = {'C20': [
    ('dq_net()', lambda ex: g_make(ex, 'built'), [], os_),
    ('dq_net(copy)', lambda ex: g_make(ex, 'copied'), [], os_),
    ('dq_net(move)', lambda ex: g_make(ex, 'moved'), [], os_),
    ('linear_annealing', g_anneal, [], od),
    ('get_random', g_random, [], od),
    ('action', g_action, [], oa),
    ('store', g_store, [], od),
    ('random_sample', g_sample, [t_range, t_pick], od),
    ('train', g_train, [t_range, t_ran, t_batch], ot),
]}
