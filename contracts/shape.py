"""Contracts of nnet::tensorshape (all methods) against the shape algebra."""
from .lib import *
from vc.engine import Frame

SH = ('cls', 'nnet::tensorshape')
TU = 'tensor_tu.cpp'


def mk(ex, name):
    """arbitrary tensorshape: (lvalue, rank, dims array)"""
    v = ex.fresh_val(SH, name)
    lv = ex.new_cell(v, SH)
    d = v.fields['dimensions_']
    ex.input(name, d.n, d.leaves[0])
    return lv, d.n, d.leaves[0]


def dims(ex, v):
    return vec1(ex, ex.rv(v).fields['dimensions_'])


def call(ex, lv, meth, *args):
    d = ex.ast.find('nnet::tensorshape::' + meth, len(args) if args else None)
    return ex.rv(ex.call_def(d, VPtr(lv), list(args), None))


def unchanged(ex, lv, n, a, tag):
    n2, a2 = dims(ex, lv)
    ex.prove(z3.And(n == n2, a == a2), tag + '.frame: receiver unchanged')


def size_arg(ex, nm):
    v = ex.fresh_int(nm)
    ex.input(nm, v)
    return ex.new_cell(v, ('int', 64, False))


def g_n_elems(ex):
    lv, n, d = mk(ex, 's')
    r = call(ex, lv, 'n_elems')
    ex.prove(r == z3.If(n == 0, 0, prod(d, iv(0), n)), 'n_elems == (rank 0 ? 0 : product of all dims)')
    unchanged(ex, lv, n, d, 'n_elems')


def g_n_known(ex):
    lv, n, d = mk(ex, 's')
    r = call(ex, lv, 'n_known')
    ex.prove(r == z3.If(n == 0, 0, kprod(d, iv(0), n)), 'n_known == (rank 0 ? 0 : product of non-zero dims)')
    unchanged(ex, lv, n, d, 'n_known')


def g_rank(ex):
    lv, n, d = mk(ex, 's')
    ex.prove(call(ex, lv, 'rank') == n, 'rank == number of dims')
    ex.prove(call(ex, lv, 'is_part_defined') == (n > 0), 'is_part_defined <=> rank > 0')
    r = call(ex, lv, 'as_list')
    n2, d2 = vec1(ex, r)
    ex.prove(z3.And(n2 == n, forall(0, n, lambda j: d2[j] == d[j])), 'as_list == dims')
    unchanged(ex, lv, n, d, 'rank')


def g_fully(ex):
    lv, n, d = mk(ex, 's')
    w = ex.fresh('w', I)
    ex.assume(z3.Or(forall(0, n, lambda j: d[j] > 0), z3.And(0 <= w, w < n, d[w] == 0)))   # skolemised excluded middle
    r = call(ex, lv, 'is_fully_defined')
    ex.prove(z3.Implies(r, z3.And(n > 0, forall(0, n, lambda j: d[j] > 0))), 'is_fully_defined => rank>0 and every dim>0')
    ex.prove(z3.Implies(z3.Not(r), z3.Or(n == 0, z3.And(0 <= w, w < n, d[w] == 0))), 'not is_fully_defined => rank 0 or some dim is 0')


def t_fully(d_of):
    def t(L):
        ex = L.ex
        for bn, b in L.bools:
            for kn, k in L.int_terms(None):
                for vn, v, n in arr_terms(L, False, I):
                    yield 'allpos %s %s %s' % (bn, vn, kn), lambda b=b, k=k, v=v: z3.Implies(
                        ex.read(b), z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k()), v()[J] > 0), patterns=[v()[J]]))
                    yield 'notall %s %s %s' % (bn, vn, kn), lambda b=b, k=k, v=v, n=n: z3.Implies(
                        z3.Not(ex.read(b)), z3.Not(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n()), v()[J] > 0))))
    return t


def g_undefine(ex):
    lv, n, d = mk(ex, 's')
    call(ex, lv, 'undefine')
    ex.prove(dims(ex, lv)[0] == 0, 'undefine leaves rank 0')


def g_assign(ex):
    lv, n, d = mk(ex, 's')
    v = ex.fresh_val(('vec', ('int', 64, False)), 'dims')
    f = ex.ast.find('nnet::tensorshape::operator=', 1, 'vector')
    ex.call_def(f, VPtr(lv), [ex.new_cell(v, ('vec', ('int', 64, False)))], None)
    n2, d2 = dims(ex, lv)
    ex.prove(z3.And(n2 == v.n, forall(0, v.n, lambda j: d2[j] == v.leaves[0][j])), 'assignment from a list stores exactly the list')


def g_merge(ex):
    lv, n, d = mk(ex, 's')
    lo, m, e = mk(ex, 'o')
    try:
        r = call(ex, lv, 'merge_with', lo)
    except CppThrow as t:
        ex.prove(z3.And(n > 0, m > 0, n != m), 'merge_with throws only on ranked shapes of different rank')
        return
    ex.prove(z3.Or(n == 0, m == 0, n == m), 'merge_with returns only when ranks agree or one side is unranked')
    rn, rd = dims(ex, r)
    ex.prove(rn == z3.If(n == 0, m, n), 'merge_with rank')
    ex.prove(forall(0, rn, lambda j: rd[j] == z3.If(n == 0, e[j], z3.If(z3.Or(m == 0, d[j] != 0), d[j], e[j]))),
             'merge_with dim j: own when known, else the other\'s')
    unchanged(ex, lv, n, d, 'merge_with')
    unchanged(ex, lo, m, e, 'merge_with.other')


def t_merge(L):
    ex = L.ex
    for rn, r, ln in arr_terms(L, True, I):
        for an, a, _ in arr_terms(L, False, I):
            for bn, b, _ in arr_terms(L, False, I):
                if an != bn:
                    yield 'merged %s %s %s' % (rn, an, bn), lambda r=r, ln=ln, a=a, b=b: z3.ForAll(
                        [J], z3.Implies(z3.And(0 <= J, J < ln()), r()[J] == z3.If(a()[J] != 0, a()[J], b()[J])), patterns=[r()[J]])


def g_concat(ex):
    lv, n, d = mk(ex, 's')
    lo, m, e = mk(ex, 'o')
    r = call(ex, lv, 'concatenate', lo)
    rn, rd = dims(ex, r)
    ex.prove(rn == n + m, 'concatenate rank is the sum of ranks')
    ex.prove(forall(0, rn, lambda j: rd[j] == z3.If(j < n, d[j], e[j - n])), 'concatenate = own dims then the other\'s')
    unchanged(ex, lv, n, d, 'concatenate')


def window(ex, n, d, name):
    """skolem window [lo,hi] of a non-empty list with leading/trailing ones removed (always exists)"""
    lo, hi = ex.fresh(name + '_lo', I), ex.fresh(name + '_hi', I)
    ex.assume(z3.Implies(n > 0, z3.And(0 <= lo, lo <= hi, hi < n,
              z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < lo), d[J] == 1), patterns=[d[J]]),
              z3.ForAll([J], z3.Implies(z3.And(hi < J, J < n), d[J] == 1), patterns=[d[J]]),
              z3.Or(d[lo] != 1, z3.And(lo == n - 1)), z3.Or(d[hi] != 1, hi == lo))))
    return lo, hi


def g_trim(ex):
    lv, n, d = mk(ex, 's')
    lo, hi = window(ex, n, d, 'w')
    r = call(ex, lv, 'trim')
    rn, rd = dims(ex, r)
    allone = z3.And(lo == hi, d[hi] == 1)
    ex.prove(rn == z3.If(z3.Or(n == 0, allone), 0, hi - lo + 1), 'trim rank = width of the window without outer ones')
    ex.prove(forall(0, rn, lambda j: rd[j] == d[lo + j]), 'trim keeps the window unchanged')
    unchanged(ex, lv, n, d, 'trim')


ones = [('1', lambda x: x == 1), ('0', lambda x: x == 0)]


def g_with_rank(ex, which):
    lv, n, d = mk(ex, 's')
    k = size_arg(ex, 'rank')
    kv = ex.rv(k)
    r = call(ex, lv, which, k)
    rn, rd = dims(ex, r)
    want = {'with_rank': kv, 'with_rank_at_least': z3.If(kv > n, kv, n), 'with_rank_at_most': z3.If(kv < n, kv, n)}[which]
    ex.prove(rn == want, which + ' rank')
    ex.prove(forall(0, rn, lambda j: rd[j] == z3.If(j < n, d[j], 1)), which + ' clips from the end / pads with ones')
    unchanged(ex, lv, n, d, which)


# ---------------------------------------------------------------- coordinates
def valid_shape(ex, n, d):
    ex.assume(n > 0)
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), d[J] > 0), patterns=[d[J]]))


def call_flat(ex, lv, cv):
    d = ex.ast.find('nnet::tensorshape::flat_idx', 1)
    return ex.rv(ex.call_def(d, VPtr(lv), [ex.new_cell(cv, ('vec', ('int', 64, False)))], None))


def g_flat_idx(ex):
    lv, n, d = mk(ex, 's')
    c = ex.fresh_val(('vec', ('int', 64, False)), 'c')
    ex.assume(c.n > 0)
    ex.assume(n > 0)
    r = call_flat(ex, lv, c)
    mn = z3.If(c.n < n, c.n, n)
    ex.prove(r == flat(d, c.leaves[0], iv(0), mn), 'flat_idx == sum_k coord[k] * prod(dims[0..k))')
    unchanged(ex, lv, n, d, 'flat_idx')


def t_flat(L):
    ex = L.ex
    arrs = arr_terms(L, None, I)
    ints = list(L.int_terms(None))
    for an, acc in L.int_terms(True):
        for kn, k in L.int_terms(True):
            if an == kn:
                continue
            for nn, n in L.int_terms(False):
                for vn, v, _ in arrs:
                    for wn, w, _ in arrs:
                        if vn != wn:
                            yield 'horner %s %s %s %s %s' % (an, kn, nn, vn, wn), lambda acc=acc, k=k, n=n, v=v, w=w: \
                                acc() == v()[n() - k()] * flat(v(), w(), n() - k() + 1, n())
            for vn, v, _ in arrs:
                for wn, w, _ in arrs:
                    if vn != wn:
                        yield 'horner-down %s %s %s %s' % (an, kn, vn, wn), lambda acc=acc, k=k, v=v, w=w: z3.And(
                            [acc() == v()[k()] * flat(v(), w(), k() + 1, n()) for nn, n in L.int_terms(False)][:1])


def t_quot(L):
    ex = L.ex
    for an, acc in L.int_terms(True):
        for kn, k in L.int_terms(True):
            if an == kn:
                continue
            for vn, v, _ in arr_terms(L, None, I):
                ent = L.old_terms.get(an)
                if ent is not None:
                    yield 'quot %s %s %s' % (an, kn, vn), lambda acc=acc, k=k, v=v, e=ent: acc() == quot(v(), e, k())
                    yield 'unquot %s %s %s' % (an, kn, vn), lambda acc=acc, k=k, v=v, e=ent: z3.And(
                        acc() == quot(v(), e, k()), acc() >= 0)


def spec_coord(d, x):
    return lambda j: quot(d, x, j) % d[j]


def t_coord(L):
    ex = L.ex
    for rn, r, ln in arr_terms(L, True, I):
        for vn, v, _ in arr_terms(L, None, I):
            for an, e in L.old_terms.items():
                yield 'coords %s %s %s' % (rn, vn, an), lambda r=r, ln=ln, v=v, e=e: z3.ForAll(
                    [J], z3.Implies(z3.And(0 <= J, J < ln()), z3.And(r()[J] == quot(v(), e, J) % v()[J], r()[J] >= 0, r()[J] < v()[J])), patterns=[r()[J]])


def g_coord(ex):
    lv, n, d = mk(ex, 's')
    valid_shape(ex, n, d)
    x = size_arg(ex, 'idx')
    xv = ex.rv(x)
    r = call(ex, lv, 'coordinate_from_idx', x)
    rn, c = vec1(ex, r)
    ex.prove(rn == n, 'coordinate rank == shape rank')
    ex.prove(forall(0, n, lambda j: z3.And(c[j] == quot(d, xv, j) % d[j])), 'coord[k] == (idx / prod(dims[0..k))) mod dims[k]')
    ex.prove(forall(0, n, lambda j: z3.And(c[j] >= 0, c[j] < d[j])), 'every coordinate is inside its dimension')
    unchanged(ex, lv, n, d, 'coordinate_from_idx')


# ---------------------------------------------------------------- contracts used at call sites
def this_dims(ex, this):
    return vec1(ex, ex.read(this.lv.f('dimensions_')))


U64 = ('int', 64, False)


def c_n_elems(ex, this, args, node):
    n, d = this_dims(ex, this)
    r = ex.fresh('n_elems', I)
    ex.assume(z3.And(r == z3.If(n == 0, iv(0), prod(d, iv(0), n)), r >= 0))
    return r


def c_coord(ex, this, args, node):
    n, d = this_dims(ex, this)
    x = as_int(ex.rv(args[0]))
    ex.safe(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), d[J] > 0)), 'requires coordinate_from_idx: every dim > 0')
    c = ex.fresh('coord', z3.ArraySort(I, I))
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), z3.And(c[J] == quot(d, x, J) % d[J], c[J] >= 0, c[J] < d[J])), patterns=[c[J]]))
    return VVec(U64, n, [c])


def c_flat(ex, this, args, node):
    n, d = this_dims(ex, this)
    cn, c = vec1(ex, ex.rv(args[0]))
    ex.safe(cn > 0, 'requires flat_idx: at least one coordinate')
    return flat(d, c, iv(0), z3.If(cn < n, cn, n))


CONTRACTS = {
    'nnet::tensorshape::n_elems': c_n_elems,
    'nnet::tensorshape::coordinate_from_idx': c_coord,
    'nnet::tensorshape::flat_idx': c_flat,
}


def g_round1(ex):
    """flat_idx(coordinate_from_idx(i)) == i for i < n_elems"""
    lv, n, d = mk(ex, 's')
    valid_shape(ex, n, d)
    x = size_arg(ex, 'idx')
    xv = ex.rv(x)
    ex.assume(xv < prod(d, iv(0), n))
    r = call(ex, lv, 'coordinate_from_idx', x)
    rn, c = vec1(ex, r)
    y = call_flat(ex, lv, ex.to_vvec(r))
    induct(ex, 'prod-positive', lambda k: prod(d, iv(0), k) >= 1, iv(0), n)
    induct(ex, 'quot-bound', lambda k: z3.And(quot(d, xv, k) >= 0, quot(d, xv, k) * prod(d, iv(0), k) <= xv), iv(0), n)
    ex.prove(z3.And(quot(d, xv, n) * prod(d, iv(0), n) <= xv, quot(d, xv, n) >= 0, prod(d, iv(0), n) >= 1), 'lemma.inst', 'lemma')
    ex.prove(quot(d, xv, n) == 0, 'lemma.quot-exhausted', 'lemma')
    induct(ex, 'quot==flat', lambda k: quot(d, xv, k) == flat(d, c, k, n), iv(0), n, down=True)
    ex.prove(quot(d, xv, iv(0)) == flat(d, c, iv(0), n), 'lemma.inst0', 'lemma')
    ex.prove(y == xv, 'flat_idx(coordinate_from_idx(i)) == i for every i < n_elems')


def g_round2(ex):
    """coordinate_from_idx(flat_idx(c)) == c and flat_idx(c) < n_elems for in-range c"""
    lv, n, d = mk(ex, 's')
    valid_shape(ex, n, d)
    cv = ex.fresh_val(('vec', ('int', 64, False)), 'c')
    c = cv.leaves[0]
    ex.assume(cv.n == n)
    ex.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), z3.And(0 <= c[J], c[J] < d[J])), patterns=[c[J]]))
    y = call_flat(ex, lv, cv)
    lo = ex.fresh('lo', I)
    keep = list(ex.pc)
    ex.assume(z3.And(0 <= lo, lo < n))
    induct(ex, 'prod-front', lambda k: prod(d, lo, k) == d[lo] * prod(d, lo + 1, k), lo + 1, n, use=False)
    ex.pc[:] = keep
    peel = lambda k: prod(d, k, n) == d[k] * prod(d, k + 1, n)
    fb = lambda k: z3.And(0 <= flat(d, c, k, n), flat(d, c, k, n) < prod(d, k, n))
    # downward induction for flat-bound; the step uses prod-front at k-1
    k = ex.fresh('k', I)
    ex.prove(fb(n), 'lemma.flat-bound.base', 'lemma')
    keep = list(ex.pc)
    ex.assume(z3.And(0 < k, k <= n, fb(k), peel(k - 1), d[k - 1] > 0, c[k - 1] >= 0, c[k - 1] < d[k - 1]))
    ex.prove(fb(k - 1), 'lemma.flat-bound.step', 'lemma')
    ex.pc[:] = keep
    ex.assume(fb(iv(0)))
    ex.prove(z3.And(0 <= y, y < prod(d, iv(0), n)), 'flat_idx(c) < n_elems for in-range coordinates')
    qf = lambda k: quot(d, y, k) == flat(d, c, k, n)
    k = ex.fresh('k', I)
    ex.prove(qf(iv(0)), 'lemma.quot-of-flat.base', 'lemma')
    keep = list(ex.pc)
    ex.assume(z3.And(0 <= k, k < n, qf(k), d[k] > 0, c[k] >= 0, c[k] < d[k]))
    ex.prove(qf(k + 1), 'lemma.quot-of-flat.step', 'lemma')
    ex.prove(quot(d, y, k) % d[k] == c[k], 'lemma.digit', 'lemma')
    ex.pc[:] = keep
    r = call(ex, lv, 'coordinate_from_idx', ex.new_cell(y, ('int', 64, False)))
    rn, rc = vec1(ex, r)
    k = ex.fresh('k', I)
    ex.assume(z3.And(0 <= k, k < n, quot(d, y, k) % d[k] == c[k]))
    ex.prove(z3.And(rn == n, rc[k] == c[k]), 'coordinate_from_idx(flat_idx(c)) == c (every in-range c, every k)')


def g_iterate(ex):
    lv, n, d = mk(ex, 's')
    valid_shape(ex, n, d)
    cnt = ex.new_cell(iv(0), ('int', 64, False))
    ex.frames.append(Frame('ghost', NULL))
    ex.frames[-1].env['ghost.count'] = cnt

    def cb(x, args):
        c, i = x.rv(args[0]), as_int(x.rv(args[1]))
        k = x.read(cnt)
        x.prove(i == k, 'iterate: call t receives flat index t')
        cn, ca = vec1(x, c)
        x.prove(z3.And(cn == n, forall(0, n, lambda j: ca[j] == quot(d, i, j) % d[j])), 'iterate: call t receives the coordinates of t')
        x.write(cnt, k + 1)
        return VOIDV
    f = ex.ast.find('nnet::tensorshape::iterate', 1)
    ex.call_def(f, VPtr(lv), [VFn('coord_call', cb)], None)
    ex.prove(ex.read(cnt) == prod(d, iv(0), n), 'iterate visits exactly n_elems indices, in order')


# ---------------------------------------------------------------- compatibility
def compat(x, y):
    return z3.Or(x == y, x == 0, y == 0)


def g_compat_same(ex):
    lv, n, d = mk(ex, 's')
    lo, m, e = mk(ex, 'o')
    ex.assume(z3.Or(n == m, n == 0, m == 0))
    w = ex.fresh('w', I)
    r = call(ex, lv, 'is_compatible_with', lo)
    ex.prove(z3.Implies(z3.Or(n == 0, m == 0), r), 'an unranked shape is compatible with everything')
    ex.prove(z3.Implies(z3.And(r, n == m), forall(0, n, lambda j: compat(d[j], e[j]))), 'compatible same-rank shapes agree on every pair of known dims')
    ex.assume(forall(0, n, lambda j: compat(d[j], e[j]), lambda j: [d[j]]))
    ex.prove(z3.Implies(n == m, r), 'same-rank shapes agreeing on known dims are compatible')


def zdrop(ex, a, lo, hi, x, name):
    """skolem: greedy number of leading/trailing unknown dims dropped from a wider window"""
    z1, z2 = ex.fresh(name + '_z1', I), ex.fresh(name + '_z2', I)
    ex.assume(z3.Implies(x > 0, z3.And(
        0 <= z1, z1 <= x, 0 <= z2, z2 <= x - z1,
        z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < lo + z1), a[J] == 0), patterns=[a[J]]),
        z3.ForAll([J], z3.Implies(z3.And(hi - z2 < J, J <= hi), a[J] == 0), patterns=[a[J]]),
        z3.Or(z1 == x, a[lo + z1] != 0), z3.Or(z2 == x - z1, a[hi - z2] != 0))))
    return z3.If(x > 0, z1, 0), z3.If(x > 0, z2, 0)


def g_compat_diff(ex, direction):
    lv, n, d = mk(ex, 's')
    lo, m, e = mk(ex, 'o')
    ex.assume(z3.And(n > 0, m > 0, n != m))
    b1, e1 = window(ex, n, d, 'w1')
    b2, e2 = window(ex, m, e, 'w2')
    w1, w2 = e1 - b1, e2 - b2
    za1, za2 = zdrop(ex, d, b1, e1, w1 - w2, 'd')
    zb1, zb2 = zdrop(ex, e, b2, e2, w2 - w1, 'e')
    fits = z3.And(z3.Implies(w1 > w2, za1 + za2 == w1 - w2), z3.Implies(w2 > w1, zb1 + zb2 == w2 - w1))
    s1, s2 = b1 + za1, b2 + zb1
    wid = z3.If(w1 < w2, w1, w2)
    if direction == 'sound':
        r = call(ex, lv, 'is_compatible_with', lo)
        ex.prove(z3.Implies(r, fits), 'compatible different-rank shapes differ only by outer 1s and unknown outer dims')
        j = ex.fresh('j', I)
        ex.prove(z3.Implies(z3.And(r, 0 <= j, j <= wid), compat(d[s1 + j], e[s2 + j])), 'compatible different-rank shapes agree on the aligned window')
    else:
        ex.assume(fits)
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(s1 <= J, J <= s1 + wid), compat(d[J], e[s2 + J - s1])), patterns=[d[J]]))
        r = call(ex, lv, 'is_compatible_with', lo)
        ex.prove(r, 'shapes equal up to outer 1s (aligned window agrees) are compatible')


def t_compat(L):
    ex = L.ex
    arrs = arr_terms(L, False, I)
    mods = list(L.int_terms(True))
    for bn, b in L.bools:
        for an, a, _ in arrs:
            for cn, c, _ in arrs:
                if an == cn:
                    continue
                for kn, k in mods:
                    ent = L.old_terms.get(kn)
                    for ln, l in mods:
                        yield 'cw %s %s %s %s %s' % (bn, an, cn, kn, ln), lambda b=b, a=a, c=c, k=k, l=l, e=ent: z3.Implies(
                            ex.read(b), z3.ForAll([J], z3.Implies(z3.And(e <= J, J < k()), compat(a()[J], c()[J + (l() - k())])), patterns=[a()[J]]))
                        yield 'ncw %s %s %s %s %s' % (bn, an, cn, kn, ln), lambda b=b, a=a, c=c, k=k, l=l, e=ent: z3.Implies(
                            z3.Not(ex.read(b)), z3.Exists([J], z3.And(e <= J, J < k(), z3.Not(compat(a()[J], c()[J + (l() - k())]))))) 


USE = tuple(CONTRACTS)
GOALS = {
    'C01': [
        ('tensorshape.n_elems', g_n_elems, [t_range, t_prod]),
        ('tensorshape.n_known', g_n_known, [t_range, t_prod]),
        ('tensorshape.rank', g_rank, []),
        ('tensorshape.is_fully_defined', g_fully, [t_range, t_fully(None)]),
        ('tensorshape.undefine', g_undefine, []),
        ('tensorshape.operator=', g_assign, []),
        ('tensorshape.merge_with', g_merge, [t_range, t_eqints, t_merge]),
        ('tensorshape.concatenate', g_concat, []),
        ('tensorshape.trim', g_trim, [t_range, t_pred_range(ones)]),
        ('tensorshape.with_rank', lambda ex: g_with_rank(ex, 'with_rank'), [t_range]),
        ('tensorshape.with_rank_at_least', lambda ex: g_with_rank(ex, 'with_rank_at_least'), [t_range]),
        ('tensorshape.with_rank_at_most', lambda ex: g_with_rank(ex, 'with_rank_at_most'), [t_range]),
    ],
    'C02': [
        ('tensorshape.flat_idx', g_flat_idx, [t_range, t_flat]),
        ('tensorshape.coordinate_from_idx', g_coord, [t_range, t_eqints, t_quot, t_coord]),
        ('lemma.flat-of-coord', g_round1, [], {'use': USE}),
        ('lemma.coord-of-flat', g_round2, [], {'use': USE}),
        ('tensorshape.iterate', g_iterate, [t_range, t_eqints], {'use': USE}),
    ],
    'C03': [
        ('tensorshape.is_compatible_with/same-rank', g_compat_same, [t_range, t_eqints, t_compat]),
        ('tensorshape.is_compatible_with/different-rank-sound', lambda ex: g_compat_diff(ex, 'sound'),
         [t_range, t_eqints, t_diff, t_pred_range(ones), t_compat]),
        ('tensorshape.is_compatible_with/different-rank-complete', lambda ex: g_compat_diff(ex, 'complete'),
         [t_range, t_eqints, t_diff, t_pred_range(ones), t_compat]),
    ],
}
