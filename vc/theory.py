"""Spec-level recursive functions with ground unfolding + inductive lemma obligations."""
import z3

_forall0 = z3.ForAll


def _forall(vs, body, *a, **k):
    """z3 rejects some patterns (an if-then-else over a comparison inside one): then quantify without it"""
    try:
        return _forall0(vs, body, *a, **k)
    except z3.Z3Exception:
        if not k.get('patterns'):
            raise
        k.pop('patterns')
        return _forall0(vs, body, *a, **k)


z3.ForAll = _forall

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
AII = z3.ArraySort(I, I)
AIR = z3.ArraySort(I, R)

REG = {}        # func decl name -> unfold callable(args) -> [facts]
PAIR = []       # callables(list of terms by name dict) -> [facts]


def register(f, unfold):
    REG[f.name()] = (f, unfold)


def pair_rule(fn):
    PAIR.append(fn)


_sub_cache = {}
_keep = []


def subapps(e):
    """registered spec applications + selects occurring (ground) in e"""
    k = e.get_id()
    r = _sub_cache.get(k)
    if r is not None:
        return r
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            # terms inside a quantifier may contain bound variables: keep only closed ones
            body_terms(x.body(), out)
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in REG and x.num_args() > 0:
                out[i] = x
            st.extend(x.children())
    _sub_cache[k] = out
    _keep.append(e)
    return out


_closed = {}


def is_closed(x):
    i = x.get_id()
    if i in _closed:
        return _closed[i]
    if z3.is_var(x):
        r = False
    elif z3.is_quantifier(x):
        r = False
    else:
        r = all(is_closed(c) for c in x.children())
    _closed[i] = r
    _keep.append(x)
    return r


def body_terms(x, out, seen=None):
    seen = seen if seen is not None else set()
    if x.get_id() in seen:
        return
    seen.add(x.get_id())
    if z3.is_quantifier(x):
        body_terms(x.body(), out, seen)
        return
    if z3.is_app(x):
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in REG and x.num_args() > 0 and is_closed(x):
            out[x.get_id()] = x
        for c in x.children():
            body_terms(c, out, seen)


def instances(exprs, rounds=2, limit=400):
    facts = []
    done = set()
    terms = {}
    work = list(exprs)
    for r in range(rounds):
        new = {}
        for e in work:
            for i, t in subapps(e).items():
                if i not in terms:
                    new[i] = t
        terms.update(new)
        work = []
        for i, t in new.items():
            for f in REG[t.decl().name()][1](*t.children()):
                if f.get_id() not in done:
                    done.add(f.get_id()); facts.append(f); work.append(f)
                    _keep.append(f)
            if len(facts) > limit:
                return facts
        if not new:
            break
    byname = {}
    for t in terms.values():
        byname.setdefault(t.decl().name(), []).append(t)
    extra = []
    for p in PAIR:
        for f in p(byname):
            if f.get_id() not in done:
                done.add(f.get_id()); extra.append(f); _keep.append(f)
    facts += extra
    return facts


# ------------------------------------------------------------------ spec functions
# prod(d, lo, hi) = d[lo] * ... * d[hi-1]     (1 when hi <= lo)
prod = z3.Function('prod', AII, I, I, I)


def _u_prod(d, lo, hi):
    return [z3.Implies(hi <= lo, prod(d, lo, hi) == 1),
            z3.Implies(hi > lo, prod(d, lo, hi) == prod(d, lo, hi - 1) * d[hi - 1])]


register(prod, _u_prod)
# kprod: product of the non-zero entries
kprod = z3.Function('kprod', AII, I, I, I)


def _u_kprod(d, lo, hi):
    return [z3.Implies(hi <= lo, kprod(d, lo, hi) == 1),
            z3.Implies(z3.And(hi > lo, d[hi - 1] != 0), kprod(d, lo, hi) == kprod(d, lo, hi - 1) * d[hi - 1]),
            z3.Implies(z3.And(hi > lo, d[hi - 1] == 0), kprod(d, lo, hi) == kprod(d, lo, hi - 1))]


register(kprod, _u_kprod)
# flat(d, c, lo, hi) = sum_{lo<=k<hi} c[k] * prod(d, lo, k), Horner from the top:
#   flat(d,c,lo,hi) = c[lo] + d[lo] * flat(d,c,lo+1,hi)
flat = z3.Function('flat', AII, AII, I, I, I)


def _u_flat(d, c, lo, hi):
    return [z3.Implies(hi <= lo, flat(d, c, lo, hi) == 0),
            z3.Implies(hi > lo, flat(d, c, lo, hi) == c[lo] + d[lo] * flat(d, c, lo + 1, hi))]


register(flat, _u_flat)
# quot(d, x, k): x divided successively by d[0..k-1];  coordinate k of x is quot(d,x,k) mod d[k]
quot = z3.Function('quot', AII, I, I, I)


def _u_quot(d, x, k):
    return [z3.Implies(k <= 0, quot(d, x, k) == x),
            z3.Implies(z3.And(k > 0, d[k - 1] > 0), z3.And(
                quot(d, x, k) == quot(d, x, k - 1) / d[k - 1],
                quot(d, x, k - 1) == d[k - 1] * quot(d, x, k) + quot(d, x, k - 1) % d[k - 1],
                quot(d, x, k - 1) % d[k - 1] >= 0, quot(d, x, k - 1) % d[k - 1] < d[k - 1]))]


register(quot, _u_quot)
