"""Matrix multiplication (C11): shape, direct path, divide-and-conquer path.

dot(a, ao, b, bo, s, n) is the sum over z < n of a[ao + z] * b[bo + s*z]: row elements are adjacent, column
elements are s apart.  An element of the result at column x, row y of the matrix number r lies at
x + dx*y + r*(dx*dy), the layout proved for C02."""
from .trans import *
from .trans import CONTRACTS as TRC, OPTS as TOPTS
from vc.theory import pair_rule

TU = 'matmul_tu.cpp'
dot = z3.Function('dot', AIR, I, AIR, I, I, I, R)
register(dot, lambda a, ao, b, bo, s, n: [z3.Implies(n <= 0, dot(a, ao, b, bo, s, n) == 0),
                                          z3.Implies(n > 0, dot(a, ao, b, bo, s, n) == dot(a, ao, b, bo, s, n - 1) + rmul(a[ao + n - 1], b[bo + mul(s, n - 1)]))])


imul = z3.Function('times', I, I, I)     # multiplication; only instances of the lemmas "rows" and "whole quotient" are used of it


def mul(a, b):
    a, b = z3.simplify(iv(a) if isinstance(a, int) else a), z3.simplify(iv(b) if isinstance(b, int) else b)
    if z3.is_int_value(a) or z3.is_int_value(b):
        return z3.simplify(a * b)
    return imul(*sorted((a, b), key=lambda t: t.sexpr()))


def rows(ex, w, u0):
    """facts about multiples of w near u0 are added wherever the code multiplies by w (lemma 'rows')"""
    ex.ghost.setdefault('rows', []).append((z3.simplify(w), u0))


def row_facts(u, u0, w, mul=mul):
    return z3.Implies(w >= 0, z3.And(z3.Implies(u < u0, mul(u, w) + w <= mul(u0, w)), z3.Implies(u > u0, mul(u, w) >= mul(u0, w) + w), z3.Implies(u == u0, mul(u, w) == mul(u0, w))))


def sign_facts(u, w, mul=mul):
    return z3.And(z3.Implies(u == 1, mul(u, w) == w), z3.Implies(w == 1, mul(u, w) == u), z3.Implies(z3.Or(u == 0, w == 0), mul(u, w) == 0), z3.Implies(z3.And(u >= 0, w >= 0), mul(u, w) >= 0), z3.Implies(z3.And(u >= 1, w >= 0), mul(u, w) >= w), z3.Implies(z3.And(u >= 0, w >= 1), mul(u, w) >= u))


class MatInterp(TransInterp):
    pure_predicates = True

    def arith(self, op, a, b, ty):
        if op == '*' and is_z3(a) and is_z3(b) and z3.is_int(a) and z3.is_int(b):
            t = mul(a, b)
            if t.decl().eq(imul):
                self.assume(sign_facts(*t.children()))
            for u, w in ((a, b), (b, a)):
                for w0, u0 in self.ghost.get('rows', []):
                    if z3.simplify(w).eq(w0):
                        self.assume(row_facts(u, u0, w))
            return t
        if op == '<<' and is_z3(b) and self.const_int(b) is None:
            self.safe(b >= 0, 'shift')
            return shl(a, b)
        return TransInterp.arith(self, op, a, b, ty)

    def idiv(self, a, b, ty):
        for w, q in self.ghost.get('multiples', []):
            if z3.simplify(b).eq(w):
                self.assume(z3.Implies(z3.And(w > 0, a == mul(q, w)), a / b == q))       # lemma 'whole quotient'
        return TransInterp.idiv(self, a, b, ty)

    def node_method(self, v, name, q, argn, n):
        if name == 'get_leaves':        # used to register gradient functions only
            return self.default_value(('uset', ('ptr', ('cls', 'nnet::ileaf<double>'))))
        if name == 'set_jacobian_back':
            return VOIDV
        return TransInterp.node_method(self, v, name, q, argn, n)


INTERP = MatInterp


class PadInterp(MatInterp):
    pass


def g_rows(ex):
    u, u0, w, d = [ex.fresh(n, I) for n in ('u', 'u0', 'w', 'd')]
    ex.prove(row_facts(u, u0, w, lambda a, b: a * b), 'lemma.rows', 'lemma')
    ex.prove(sign_facts(u, w, lambda a, b: a * b), 'lemma.signs', 'lemma')
    ex.prove(z3.Implies(z3.And(w > 0, u == d * w), u / w == d), 'lemma.whole quotient', 'lemma')


# ------------------------------------------------------------------ shape
def g_shape(ex):
    x, y = operand(ex, 'a'), operand(ex, 'b')
    r = call_matmul(ex, x, y)
    made = made_of(ex, r, [x, y])
    if made is None:
        return
    P, Q = pad(x), pad(y)
    k = ex.fresh('k', I)
    shapes = VList(('cls', SHAPE), [x.shape, y.shape])
    same = z3.And(P(iv(0)) == Q(iv(1)))
    try:
        s = ex.rv(ex.call_value(made['shaper'], [ex.new_cell(shapes, ('vec', ('cls', SHAPE)))]))
    except CppThrow:
        ex.assume(z3.ForAll([J], z3.Implies(J >= 2, P(J) == Q(J)), patterns=[x.dims[J], y.dims[J]]))
        ex.prove(z3.Not(P(iv(0)) == Q(iv(1))), 'matrices that fit are not refused')
        raise PathEnd()
    if isinstance(s, (VVec, VList)):
        s = VStruct(SHAPE, {'dimensions_': ex.to_vvec(s)})
    n, d = vec1(ex, s.fields['dimensions_'])
    ex.prove(P(iv(0)) == Q(iv(1)), 'the common extents agree')
    ex.prove(z3.Implies(k >= 2, P(k) == Q(k)), 'the extents beyond the matrices agree')
    m = z3.If(x.rank < y.rank, x.rank, y.rank)
    ex.prove(n == z3.If(m > 2, m, iv(2)), 'the result has the documented rank')
    ex.prove(z3.And(d[0] == Q(iv(0)), d[1] == P(iv(1))), 'the result has the columns of the second and the rows of the first operand')
    ex.prove(forall(2, n, lambda j: d[j] == P(j)), 'the result keeps the extents beyond the matrices')


def call_matmul(ex, x, y):
    ds = [d for d in ex.ast.by_name.get('nnet::matmul', []) if len(d['_params']) == 4]
    if not ds:
        raise Unsupported('matmul not found in current source')
    d = ds[0]
    ty = [node_type(p) for p in d['_params']]
    return ex.as_node(ex.call_def(d, None, [ex.new_cell(a, t) for a, t in zip([x, y, z3.BoolVal(False), z3.BoolVal(False)], ty)], None))


# ------------------------------------------------------------------ direct product
def buf(ex, nm, n, off=None):
    a = ex.fresh(nm, AIR)
    lv = ex.new_cell(VMem(n, a, False, nm), ('mem', ('real',)))
    return VBPtr(lv.root[1], off if off is not None else iv(0)), a, lv


def g_cubic(ex):
    ds = [d for d in ex.ast.by_name.get('nnet::cubic_mul', []) if d.get('_body')]
    if not ds:
        raise Unsupported('cubic_mul not found in current source')
    d = ds[0]
    dx, dy, dz, sa, sb, co, ao, bo, nc, na, nb = [size(ex, n) for n in 'dx dy dz sa sb co ao bo nc na nb'.split()]
    pc, c0, cl = buf(ex, 'c', nc, co)
    pa, a, al = buf(ex, 'a', na, ao)
    pb, b, bl = buf(ex, 'b', nb, bo)
    x0, y0 = ex.fresh('x0', I), ex.fresh('y0', I)
    ex.assume(z3.And(0 <= x0, x0 < dx, 0 <= y0, y0 < dy, dz >= 0, sa >= dz, sb >= dx))
    # the three matrices lie inside their buffers
    ex.assume(z3.And(co + mul(dx, dy) <= nc, z3.Or(dz == 0, z3.And(ao + mul(sa, dy - 1) + dz <= na, bo + mul(sb, dz - 1) + dx <= nb))))
    for w, u in ((dx, y0), (dx, dy - 1), (sa, y0), (sa, dy - 1), (sb, dz - 1)):
        rows(ex, w, u)
    p0 = co + x0 + mul(y0, dx)
    ex.assume(z3.And(row_facts(y0, dy - 1, dx), row_facts(dy - 1, dy, dx)))
    q = ex.fresh('q', I)
    ex.assume(z3.Or(q < co, q >= co + mul(dx, dy)))
    ex.ghost['mat'] = dict(x0=x0, y0=y0, p0=p0, q=q, c0=c0, dot=lambda k: dot(a, ao + mul(sa, y0), b, bo + x0, sb, k), n=dz)
    ty = [node_type(p) for p in d['_params']]
    cm = ex.new_cell(VList(U64, [sa, iv(1), iv(1), sb]), ('arr', U64, 4))
    ex.call_def(d, None, [ex.new_cell(v, t) for v, t in zip([pc, pa, pb, dx, dy, dz], ty)] + [cm], None)
    m = ex.read(cl)
    ex.prove(m.arr[p0] == dot(a, ao + mul(sa, y0), b, bo + x0, sb, dz), 'every element is the sum of products of its row and column')
    ex.prove(z3.And(ex.read(al).arr == a, ex.read(bl).arr == b), 'the factors keep their values')
    ex.prove(m.arr[q] == c0[q], 'nothing outside the result is written')


def t_mat(L):
    ex = L.ex
    g = ex.ghost.get('mat')
    if g is None:
        return
    for nm, lv in L.mems:
        v = ex.read(lv)
        if v.name != g.get('buf', 'c') or not L.is_mod(lv):
            continue
        if g['c0'] is not None:
            yield 'frame ' + nm, lambda lv=lv: ex.read(lv).arr[g['q']] == g['c0'][g['q']]
        for kn, k in L.int_terms(None):
            yield 'rows done %s %s' % (nm, kn), lambda lv=lv, k=k: z3.Implies(k() > g['y0'], ex.read(lv).arr[g['p0']] == g['dot'](g['n']))
            for jn, j in L.int_terms(None):
                if jn == kn:
                    continue
                yield 'columns done %s %s %s' % (nm, kn, jn), lambda lv=lv, k=k, j=j: z3.Implies(z3.And(k() == g['y0'], j() > g['x0']), ex.read(lv).arr[g['p0']] == g['dot'](g['n']))
                for in_, i in L.int_terms(True):
                    if in_ not in (jn, kn):
                        yield 'partial %s %s %s %s' % (nm, kn, jn, in_), lambda lv=lv, k=k, j=j, i=i: z3.Implies(z3.And(k() == g['y0'], j() == g['x0']), ex.read(lv).arr[g['p0']] == g['dot'](i()))


# ------------------------------------------------------------------ whole operator
def new_block(ex, p, lo, n, what):
    """the range lo..lo+n-1 of the buffer of p gets new contents"""
    m = ex.cells[p.cell]
    ex.safe(z3.And(lo >= 0, lo + n <= m.n), 'requires %s lies inside its buffer' % what)
    a = ex.fresh(what, AIR)
    ex.assume(z3.ForAll([J], z3.Implies(z3.Or(J < lo, J >= lo + n), a[J] == m.arr[J]), patterns=[a[J]]))
    old = m.arr
    ex.note_write(LV(('c', p.cell), ())) if hasattr(ex, 'note_write') else None
    ex.cells[p.cell] = VMem(m.n, a, m.freed, m.name)
    return a, old


def c_cubic(ex, this, args, node):
    v = [ex.rv(a) for a in args]
    c, a, b = v[:3]
    dx, dy, dz = [as_int(t) for t in v[3:6]]
    cm = [as_int(t) for t in v[6].items]
    sa, sb = cm[0], cm[3]
    ex.prove(z3.And(cm[1] == 1, cm[2] == 1, sa >= dz, sb >= dx), 'requires cubic_mul: rows are contiguous')
    na, nb = ex.cells[a.cell].n, ex.cells[b.cell].n
    ex.prove(z3.And(a.off >= 0, b.off >= 0, z3.Or(dz == 0, z3.And(a.off + mul(sa, dy - 1) + dz <= na, b.off + mul(sb, dz - 1) + dx <= nb))), 'requires cubic_mul: the factors lie inside their buffers')
    ex.prove(z3.BoolVal(c.cell not in (a.cell, b.cell)), 'requires cubic_mul: the result is a buffer of its own')
    x = ex.ghost['elem']
    aa, ba = ex.cells[a.cell].arr, ex.cells[b.cell].arr
    n, old = new_block(ex, c, c.off, mul(dx, dy), 'product')
    ex.assume(z3.Implies(z3.And(0 <= x[0], x[0] < dx, 0 <= x[1], x[1] < dy), n[c.off + x[0] + mul(x[1], dx)] == dot(aa, a.off + mul(sa, x[1]), ba, b.off + x[0], sb, dz)))
    return VOIDV


padded = z3.Function('padded', I, B)
register(padded, lambda n: [z3.Implies(n <= 256, padded(n)), z3.Implies(n > 256, padded(n) == z3.And(n == 2 * (n / 2), padded(n / 2)))])


# shl(x, k) is x shifted left k times; the facts about it are proved in goal "padded sizes"
shl = z3.Function('shl', I, I, I)
register(shl, lambda x, k: [z3.Implies(k <= 0, shl(x, k) == x), z3.Implies(k > 0, shl(x, k) == 2 * shl(x, k - 1))])


def halved(u, v, k):
    """half of a number, rounded up and doubled after shifting, is no less than the number shifted"""
    return z3.Implies(z3.And(k >= 0, 2 * u >= v), 2 * shl(u, k) >= shl(v, k))


def padded_fact(x, k):
    return z3.Implies(z3.And(k >= 0, 0 <= x, x <= 256), padded(shl(x, k)))


def shl_facts(byname):
    ts = byname.get('shl', [])
    out = []
    for t in ts:
        for w in ts:
            for k in (t.arg(1), z3.simplify(w.arg(1) - 1)):
                if not t.eq(w) and z3.simplify(t.arg(1)).eq(z3.simplify(k)):
                    out.append(halved(w.arg(0), t.arg(0), t.arg(1)))
        out.append(padded_fact(t.arg(0), t.arg(1)))
    return out


pair_rule(shl_facts)


def g_padded(ex):
    u, v, k, x = [ex.fresh(n, I) for n in ('u', 'v', 'k', 'x')]
    ex.assume(z3.And(k >= 0, 2 * u >= v, 0 <= x, x <= 256))
    induct(ex, 'halved', lambda k: 2 * shl(u, k) >= shl(v, k), iv(0), k, use=False)
    induct(ex, 'padded', lambda k: padded(shl(x, k)), iv(0), k, use=False)


def g_min_pad(ex):
    ds = [d for d in ex.ast.by_name.get('nnet::min_pad', []) if d.get('_body')]
    if not ds:
        raise Unsupported('min_pad not found in current source')
    n = ex.fresh('n', I)
    ex.assume(n >= 0)
    ex.ghost['pad_of'] = n
    r = as_int(ex.rv(ex.call_def(ds[0], None, [ex.new_cell(n, node_type(ds[0]['_params'][0]))], None)))
    ex.prove(r >= n, 'the padded size holds the matrix')
    ex.prove(padded(r), 'the padded size halves evenly down to the threshold')


def t_pad(L):
    ex = L.ex
    n = ex.ghost.get('pad_of')
    ts = L.int_terms(True)
    for an, a in ts:
        yield 'no less than zero ' + an, lambda a=a: a() >= 0
        for kn, k in ts:
            if an != kn:
                yield 'holds %s %s' % (an, kn), lambda a=a, k=k: shl(a(), k()) >= n


def c_min_pad(ex, this, args, node):
    n = as_int(ex.rv(args[0]))
    r = ex.fresh('padded_size', I)
    ex.assume(z3.And(r >= n, padded(r)))
    ex.ghost['pad'] = r
    if ex.ghost.get('direct') is not None:
        ex.assume(r <= 256 if ex.ghost['direct'] else r > 256)
    for w, u in ex.ghost.get('pad_rows', []):
        rows(ex, r, u)
    return r


def c_strassen(ex, this, args, node):
    c, a, b, n = [ex.rv(t) for t in args]
    n = as_int(n)
    ex.prove(z3.And(n >= 1, padded(n)), 'requires strassen: a padded size')
    x = ex.ghost['elem']
    aa, ba = ex.cells[a.cell].arr, ex.cells[b.cell].arr
    ex.prove(z3.BoolVal(len({a.cell, b.cell, c.cell}) == 3), 'requires strassen: buffers of their own')
    for q, w in ((a, 'left'), (b, 'right')):
        new_block(ex, q, q.off, mul(n, n), w)
    m, _ = new_block(ex, c, c.off, mul(n, n), 'product')
    ex.assume(z3.Implies(z3.And(0 <= x[0], x[0] < n, 0 <= x[1], x[1] < n), m[c.off + x[0] + mul(x[1], n)] == dot(aa, a.off + mul(n, x[1]), ba, b.off + x[0], n, n)))
    return VOIDV


def g_product(direct):
    def run(ex):
        ex.ghost['direct'] = direct
        product(ex)
    return run


def product(ex):
    x, y = operand(ex, 'a'), operand(ex, 'b')
    made = made_of(ex, call_matmul(ex, x, y), [x, y])
    if made is None:
        return
    vec, vecb = ex.choose(2) == 0, ex.choose(2) == 0
    ex.assume(x.rank == 1 if vec else x.rank >= 2)
    ex.assume(y.rank == 1 if vecb else y.rank >= 2)
    dz, dy, dx = x.dims[0], iv(1) if vec else x.dims[1], y.dims[0]
    # the shapes fit (goal "shape"), rest is the number of matrices
    rest = ex.fresh('matrices', I)
    ex.assume(z3.And(dx >= 1, dy >= 1, dz >= 1, rest >= 1))
    if not vecb:
        ex.assume(y.dims[1] == dz)
    else:
        ex.assume(dz == 1)
    count(ex, x, vec, rest, dy)
    count(ex, y, vecb, rest, dz)
    na, nb, nc = mul(dz, dy), mul(dx, dz), mul(dx, dy)
    out, n, d = defined_shape(ex, 'out')
    nout = prod(d, iv(0), n)
    ex.assume(nout == mul(rest, nc))
    x0, y0, r0 = ex.fresh('x0', I), ex.fresh('y0', I), ex.fresh('r0', I)
    ex.assume(z3.And(0 <= x0, x0 < dx, 0 <= y0, y0 < dy, 0 <= r0, r0 < rest))
    for w, us in ((nc, (r0, rest)), (na, (r0, rest)), (nb, (r0, rest)), (dx, (y0, dy)), (dz, (y0, dy))):
        for u in us:
            rows(ex, w, u)
    for u, u0, w in ((r0, rest, nc), (r0, rest, na), (r0, rest, nb), (y0, dy, dx), (dz - 1, dz, dx), (dy - 1, dy, dz)):
        ex.assume(row_facts(u, u0, w))
    for u, w in ((rest, na), (rest, nb), (rest, nc), (dz, dy), (dx, dz), (dx, dy), (dz, dx)):
        ex.assume(sign_facts(u, w))
    ex.ghost['multiples'] = [(na, rest)]
    ex.ghost['elem'] = (x0, y0)
    sp = dot(x.arr, mul(r0, na) + mul(dz, y0), y.arr, mul(r0, nb) + x0, dx, dz)
    p0 = mul(r0, nc) + x0 + mul(y0, dx)
    ex.ghost['mat'] = dict(buf='destination', x0=iv(0), y0=r0, p0=p0, q=iv(-1), c0=None, dot=lambda k: sp, n=dz)
    lv = {}
    for q in (x, y):
        lv[id(q)] = ex.new_cell(VMem(q.n, q.arr, False, 'source'), ('mem', ('real',)))
    dl = ex.new_cell(VMem(nout, ex.fresh('dest0', AIR), False, 'destination'), ('mem', ('real',)))
    io = VStruct('nnet::shape_io', {'outs_': out, 'ins_': VList(('cls', SHAPE), [x.shape, y.shape])})
    ex.call_value(made['fn'], [VBPtr(dl.root[1], iv(0)), ex.new_cell(VList(('ptr', ('real',)), [VBPtr(lv[id(q)].root[1], iv(0)) for q in (x, y)]), ('vec', ('ptr', ('real',)))),
                               ex.new_cell(io, ('cls', 'nnet::shape_io'))])
    ex.prove(ex.read(dl).arr[p0] == sp, 'every element is the sum of products of its row and column')
    for q in (x, y):
        ex.prove(ex.read(lv[id(q)]).arr == q.arr, 'operands keep their values')


def count(ex, x, vec, rest, rows):
    """the operand holds rest matrices (lemma 'number of matrices')"""
    d = x.dims
    ex.assume(rest == (iv(1) if vec else prod(d, iv(2), x.rank)))
    ex.assume(x.n == (d[0] if vec else mul(rest, mul(d[0], rows))))


def g_count(ex):
    x = operand(ex, 'a')
    d = x.dims
    if ex.choose(2) == 0:
        ex.assume(x.rank == 1)
        ex.prove(x.n == d[0], 'lemma.one row', 'lemma')
        return
    ex.assume(x.rank >= 2)
    ex.prove(prod(d, iv(0), iv(1)) == d[0], 'lemma.one extent', 'lemma')
    induct(ex, 'matrices', lambda k: prod(d, iv(0), k) == prod(d, iv(2), k) * (d[0] * d[1]), iv(2), x.rank, pats=lambda k: [prod(d, iv(2), k)])
    ex.prove(x.n == prod(d, iv(2), x.rank) * (d[0] * d[1]), 'lemma.number of matrices', 'lemma')
    k = ex.fresh('k', I)
    induct(ex, 'positive', lambda k: prod(d, iv(2), k) >= 1, iv(2), x.rank, use=False)


CONTRACTS = dict(TRC)
CONTRACTS.update({'nnet::cubic_mul': c_cubic, 'nnet::min_pad': c_min_pad, 'nnet::strassen': c_strassen})
OPTS = {'use': USE, 'kw': {'batch': 400, 'deep': False}}
PROD = dict(OPTS, use=USE + ('nnet::cubic_mul', 'nnet::min_pad', 'nnet::strassen'))
GOALS = {'C11': [
    ('shape', g_shape, [t_range], OPTS),
    ('rows lemma', g_rows, [], {'use': ()}),
    ('number of matrices', g_count, [], {'use': ()}),
    ('padded sizes', g_padded, [], {'use': ()}),
    ('min_pad', g_min_pad, [t_range, t_pad], {'use': (), 'interp': PadInterp}),
    ('direct product', g_cubic, [t_range, t_mat], OPTS),
    ('product, direct path', g_product(True), [t_range, t_mat], PROD),
]}
