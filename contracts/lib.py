"""Shared contract vocabulary: spec predicates and name-independent loop-invariant templates."""
import z3
from vc.values import *
from vc.theory import *
from vc.engine import Unsupported, CppThrow

J = z3.Int('j!t')


def forall(lo, hi, f, pats=None):
    """forall j in [lo,hi): f(j)"""
    body = z3.Implies(z3.And(lo <= J, J < hi), f(J))
    return z3.ForAll([J], body) if pats is None else z3.ForAll([J], body, patterns=pats(J))


def pat_ok(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_NOT):
            return False
        st += x.children()
    return True


def all_j(body, pat):
    """forall j: body, triggered by pat when that is a legal trigger"""
    return z3.ForAll([J], body, patterns=[pat]) if pat_ok(pat) else z3.ForAll([J], body)


# ------------------------------------------------------------------ templates
def t_range(L):
    """0 <= k, k <= k2, equality of ints that move together"""
    mod = list(L.int_terms(True))
    allt = list(L.int_terms(None))
    for kn, k in mod:
        yield 'nn ' + kn, lambda k=k: k() >= 0
        for kn2, k2 in allt:
            if kn2 != kn:
                yield '%s<=%s' % (kn, kn2), lambda k=k, k2=k2: k() <= k2()
                yield '%s<%s' % (kn, kn2), lambda k=k, k2=k2: k() < k2()
                yield '%s>=%s' % (kn, kn2), lambda k=k, k2=k2: k() >= k2()
        ent = L.old_terms.get(kn)
        if ent is not None:
            yield '%s>=entry' % kn, lambda k=k, e=ent: k() >= e
            yield '%s<=entry' % kn, lambda k=k, e=ent: k() <= e


def t_eqints(L):
    mod = list(L.int_terms(True))
    allt = list(L.int_terms(None))
    for i, (kn, k) in enumerate(mod):
        for kn2, k2 in allt:
            if kn2 != kn:
                yield '%s==%s' % (kn, kn2), lambda k=k, k2=k2: k() == k2()
        for kn2, k2 in mod[i + 1:]:
            a, b = L.old_terms.get(kn), L.old_terms.get(kn2)
            if a is not None and b is not None:
                yield '%s-%s const' % (kn, kn2), lambda k=k, k2=k2, a=a, b=b: k() - k2() == a - b
                yield '%s+%s const' % (kn, kn2), lambda k=k, k2=k2, a=a, b=b: k() + k2() == a + b


def t_diff(L):
    """a+d >= b+c over live ints (window widths), at least one of them modified"""
    allt = list(L.int_terms(None))
    mod = set(n for n, _ in L.int_terms(True))
    pairs = [(x, y) for i, x in enumerate(allt) for y in allt[i + 1:]]
    for (an, a), (dn, d) in pairs:
        for (bn, b), (cn, c) in pairs:
            s = {an, dn, bn, cn}
            if len(s) < 4 or not (s & mod):
                continue
            yield '%s+%s>=%s+%s' % (an, dn, bn, cn), lambda a=a, b=b, c=c, d=d: a() + d() >= b() + c()


def t_nonempty(L):
    for vn, v in L.vecs:
        if L.is_mod(v):
            yield 'size>0 ' + vn, lambda v=v: L.ex.vlen(L.ex.read(v)) > 0


def leaf(ex, v, k=0):
    return ex.to_vvec(ex.read(v)).leaves[k]


def arr_terms(L, mod=None, sort=None):
    """[(name, getter array, getter length)] for 1-leaf vectors and buffers"""
    ex = L.ex
    out = []
    for nm, lv in L.vecs:
        v = ex.read(lv)
        if isinstance(v, VList):
            continue
        if len(v.leaves) != 1:
            continue
        if mod is not None and L.is_mod(lv) != mod:
            continue
        if sort is not None and v.leaves[0].sort().range() != sort:
            continue
        out.append((nm, lambda lv=lv: ex.read(lv).leaves[0] if isinstance(ex.read(lv), VVec) else leaf(ex, lv),
                    lambda lv=lv: ex.vlen(ex.read(lv))))
    for nm, lv in L.mems:
        v = ex.read(lv)
        if mod is not None and L.is_mod(lv) != mod:
            continue
        if sort is not None and v.arr.sort().range() != sort:
            continue
        out.append((nm, lambda lv=lv: ex.read(lv).arr, lambda lv=lv: ex.read(lv).n))
    return out


def t_prefix(specs):
    """modified array r agrees with spec(j) for j below / above a bound term.
    specs: list of (name, f(j) -> term)"""
    def t(L):
        for rn, r, n in arr_terms(L, True):
            ks = list(L.int_terms(None))
            for sn, f in specs:
                for kn, k in ks:
                    yield 'prefix %s %s<%s' % (sn, rn, kn), \
                        lambda r=r, f=f, k=k: _chk(r, f, lambda j: z3.And(0 <= j, j < k()))
    return t


def _chk(r, f, rng):
    t = f(J)
    a = r()
    if t is None or t.sort() != a.sort().range():
        return None
    return all_j(z3.Implies(rng(J), a[J] == t), a[J])


def t_pred_range(preds):
    """forall j in [0,k) / (k,n): pred(arr, j) over unmodified int vectors (scan loops)"""
    def t(L):
        ex = L.ex
        ints = list(L.int_terms(None))
        mod = [x for x in L.int_terms(True)]
        for vn, v, n in arr_terms(L, False, I):
            for pn, p in preds:
                for kn, k in mod:
                    yield 'below %s %s %s' % (pn, vn, kn), lambda v=v, p=p, k=k: z3.ForAll(
                        [J], z3.Implies(z3.And(0 <= J, J < k()), p(v()[J])), patterns=[v()[J]])
                    yield 'above %s %s %s' % (pn, vn, kn), lambda v=v, p=p, k=k, n=n: z3.ForAll(
                        [J], z3.Implies(z3.And(k() < J, J < n()), p(v()[J])), patterns=[v()[J]])
                    ent = L.old_terms.get(kn)
                    if ent is not None:
                        yield 'from-entry %s %s %s' % (pn, vn, kn), lambda v=v, p=p, k=k, e=ent: z3.ForAll(
                            [J], z3.Implies(z3.And(e <= J, J < k()), p(v()[J])), patterns=[v()[J]])
                        yield 'to-entry %s %s %s' % (pn, vn, kn), lambda v=v, p=p, k=k, e=ent: z3.ForAll(
                            [J], z3.Implies(z3.And(k() < J, J <= e), p(v()[J])), patterns=[v()[J]])
    return t


def t_prod(L):
    ex = L.ex
    accs = L.int_terms(True)
    for kn, k in L.int_terms(None):
        for an, acc in accs:
            if an == kn:
                continue
            for vn, v, n in arr_terms(L, False, I):
                yield 'prod %s %s %s' % (an, vn, kn), lambda k=k, acc=acc, v=v: acc() == prod(v(), iv(0), k())
                yield 'kprod %s %s %s' % (an, vn, kn), lambda k=k, acc=acc, v=v: acc() == kprod(v(), iv(0), k())


def t_boolall(preds):
    """flag b <=> forall j in [0,k): pred(j)   (spec-level predicates over j)"""
    def t(L):
        ex = L.ex
        for bn, b in L.bools:
            for kn, k in L.int_terms(None):
                for pn, p in preds:
                    yield 'all %s %s %s' % (bn, pn, kn), lambda b=b, k=k, p=p: z3.And(
                        z3.Implies(ex.read(b), z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), p(J)))),
                        z3.Implies(z3.Not(ex.read(b)), z3.Exists([J], z3.And(0 <= J, J < k(), z3.Not(p(J))))))
    return t


def vec1(ex, v):
    """(n, array) of a 1-leaf vector value"""
    v = ex.to_vvec(v)
    return v.n, v.leaves[0]


def eq_vec(ex, a, b):
    """pointwise equality of two 1-leaf vectors as a goal"""
    an, aa = vec1(ex, a)
    bn, ba = vec1(ex, b)
    return z3.And(an == bn, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < an), aa[J] == ba[J])))


# ------------------------------------------------------------------ lemmas
def induct(ex, name, P, lo, hi, down=False, pats=None, use=True):
    """prove P on [lo,hi] by induction (base + step are obligations); the generalisation is then assumed"""
    k = ex.fresh('ind', I)
    base = hi if down else lo
    ex.prove(z3.Implies(lo <= hi, P(base)), 'lemma.%s.base' % name, 'lemma')
    sv = (list(ex.pc),)
    if down:
        ex.prove(z3.Implies(z3.And(lo < k, k <= hi, P(k)), P(k - 1)), 'lemma.%s.step' % name, 'lemma')
    else:
        ex.prove(z3.Implies(z3.And(lo <= k, k < hi, P(k)), P(k + 1)), 'lemma.%s.step' % name, 'lemma')
    ex.pc[:] = sv[0]
    if use:
        body = z3.Implies(z3.And(lo <= J, J <= hi), P(J))
        ex.assume(z3.ForAll([J], body, patterns=pats(J)) if pats else z3.ForAll([J], body))
