"""Contracts (trusted) of the standard-library operations the code uses.

Algorithms taking callables are desugared into loops over the *real* callable's body."""
import z3
from .engine import *
from .values import *
from .frontend import node_type, parse_type

_J = [0]


def qvar():
    return z3.Int('j!q')


def define_array(ex, name, sort_arr, expr):
    """fresh array b with b[j] == expr(j) for all j"""
    b = ex.fresh(name, sort_arr)
    j = qvar()
    ex.assume(z3.ForAll([j], z3.Select(b, j) == expr(j), patterns=[z3.Select(b, j)]))
    return b


# ---------------------------------------------------------------- iterators
def iter_advance(ex, it, d):
    if it.kind in ('vec', 'buf', 'mapseq'):
        return VIter(it.lv, z3.simplify(it.idx + d), it.kind, it.extra)
    raise Unsupported('advance of %s iterator' % it.kind)


def iter_arith(ex, op, a, b):
    if isinstance(a, VIter) and isinstance(b, VIter):
        if op == '-':
            return a.idx - b.idx
        raise Unsupported('iterator ' + op)
    if isinstance(b, VIter):
        a, b = b, a
    d = as_int(b)
    return VIter(a.lv, z3.simplify(a.idx + d if op == '+' else a.idx - d), a.kind, a.extra)


def trig_ok(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_ITE or x.sort() == B and x.decl().kind() != z3.Z3_OP_SELECT):
            return False
        st += x.children()
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT


def seq_of(ex, lv, v):
    """a duplicate-free enumeration of a map's / set's keys: (count, sequence, position of a key)"""
    ks = v.has.sort().domain()
    n, e, ix = ex.fresh('seq_n', I), ex.fresh('seq', z3.ArraySort(I, ks)), ex.fresh('pos', z3.ArraySort(ks, I))
    j, k = z3.Int('j!q'), z3.Const('k!q', ks)
    ex.assume(n >= 0)
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(v.has[e[j]], ix[e[j]] == j)), patterns=[e[j]]))
    ex.assume(z3.ForAll([k], z3.Implies(v.has[k], z3.And(0 <= ix[k], ix[k] < n, e[ix[k]] == k)), patterns=[v.has[k]] if trig_ok(v.has[k]) else [ix[k]]))
    ex.ghost.setdefault('seqs', []).append((n, e, ix))
    return n, e, ix


def iter_eq(ex, a, b):
    if 'mapseq' in (a.kind, b.kind):
        if a.kind != 'mapseq':
            a, b = b, a
        if b.kind == 'mapend':
            return a.idx >= a.extra['seq'][0]
        if b.kind == 'mapseq':
            return a.idx == b.idx
        raise Unsupported('comparison of map iterators')
    if a.kind in ('map', 'set') or b.kind in ('map', 'set'):
        if a.kind.startswith('end') and b.kind.startswith('end'):
            return z3.BoolVal(True)
        if b.kind == 'mapend':
            return z3.Not(a.extra['has'])
        if a.kind == 'mapend':
            return z3.Not(b.extra['has'])
        return a.idx == b.idx
    if a.kind == 'mapend' and b.kind == 'mapend':
        return z3.BoolVal(True)
    if a.lv.key() != b.lv.key():
        raise Unsupported('comparison of iterators into different containers')
    return a.idx == b.idx


def iter_deref(ex, it):
    if it.kind in ('vec', 'buf'):
        v = ex.read(it.lv)
        ex.safe(z3.And(it.idx >= 0, it.idx < ex.vlen(v)), 'bounds.iterator')
        return it.lv.i(it.idx)
    if it.kind == 'set':
        return ex.new_cell(it.idx if 'ref' not in (it.extra or {}) else VRef(it.extra['ref'], it.idx))
    if it.kind == 'map':
        return map_pair(ex, it.lv, it.idx)
    if it.kind == 'mapseq':
        n, e, ix = it.extra['seq']
        ex.safe(z3.And(it.idx >= 0, it.idx < n), 'bounds.iterator')
        v = ex.read(it.lv)
        k = e[it.idx]
        if isinstance(v, VMap):
            return map_pair(ex, it.lv, k)
        return ex.new_cell(key_value(v.kty, k), v.kty)
    raise Unsupported('deref of %s iterator' % it.kind)


def key_value(kty, k):
    if kty[0] == 'ptr':
        return VRef(kty[1][1] if kty[1][0] == 'cls' else str(kty[1]), k)
    return k


def map_pair(ex, lv, k):
    m = ex.read(lv)
    c = ex.new_cell(VStruct('pair', {'first': key_value(m.kty, k), 'second': VLink(lv.i(k))}))
    return c


class Rng:
    """[first,last) over a vector or a buffer"""
    def __init__(self, ex, a, b):
        self.ex = ex
        if isinstance(a, VBPtr):
            if not isinstance(b, VBPtr) or a.cell != b.cell:
                raise Unsupported('range over different buffers')
            self.n = z3.simplify(b.off - a.off)
            self.base = lambda k: ex.mem_at(a, k)
            m = ex.cells[a.cell]
            self.leaves = [m.arr]
            self.lo = a.off
            self.ety = m.ety
            self.src = ('c', a.cell)
            ex.safe(z3.And(a.off >= 0, self.n >= 0, b.off <= m.n), 'bounds.range')
        elif isinstance(a, VIter) and a.kind in ('vec', 'buf'):
            self.n = z3.simplify(b.idx - a.idx)
            self.lo = a.idx
            v = ex.read(a.lv)
            self.ety = v.ety
            self.val = v
            self.leaves = v.leaves if isinstance(v, VVec) else None
            ex.safe(z3.And(a.idx >= 0, self.n >= 0, b.idx <= ex.vlen(v)), 'bounds.range')
            self.base = lambda k: a.lv.i(z3.simplify(a.idx + k))
        else:
            raise Unsupported('range over %r' % (a,))

    def at(self, k):
        return self.base(k)


def quantified(ex, lo, hi, f, pats, all_):
    """a truth value that holds iff f holds on all of (some of) lo..hi-1, skolemised"""
    res, w, j = ex.fresh('holds', B), ex.fresh_int('witness'), qvar()
    allf = z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), f(j)), patterns=pats(j))
    ex.assume(z3.Implies(res, allf))
    ex.assume(z3.Or(res, z3.And(lo <= w, w < hi, z3.Not(f(w)))))
    return res if all_ else z3.Not(res)


def rng_vec(ex, r):
    """copy of a range as a fresh vector value"""
    if r.leaves is None:
        n, lo = ex.const_int(r.n), ex.const_int(r.lo)
        if n is not None and lo is not None:
            return VList(r.ety, r.val.items[lo:lo + n])
        vv = ex.to_vvec(r.val)
        r.leaves = vv.leaves
    lo = r.lo
    if ex.const_int(lo) == 0:
        return VVec(r.ety, r.n, list(r.leaves))
    out = [define_array(ex, 'sl', a.sort(), lambda j, a=a: z3.Select(a, j + lo)) for a in r.leaves]
    return VVec(r.ety, r.n, out)


def concat(ex, ety, pieces):
    """pieces: [(n, leaves fn(k)->[leaf])]"""
    sorts = ex.sorts(ety)
    total = iv(0)
    offs = []
    for n, fn in pieces:
        offs.append(total)
        total = z3.simplify(total + n)
    outs = []
    for li, s in enumerate(sorts):
        def expr(j, li=li):
            e = None
            for (n, fn), o in reversed(list(zip(pieces, offs))):
                t = fn(j - o if not (z3.is_int_value(o) and o.as_long() == 0) else j)[li]
                e = t if e is None else z3.If(j < o + n, t, e)
            return e
        outs.append(define_array(ex, 'cc', z3.ArraySort(I, s), expr))
    r = VVec(ety, total, outs)
    ex.range_facts(r)
    return r


def vec_insert(ex, lv, pos, piece_n, piece_fn):
    v = ex.to_vvec(ex.read(lv))
    ex.safe(z3.And(pos >= 0, pos <= v.n), 'bounds.insert')
    ps = z3.simplify(pos)
    if z3.simplify(ps == v.n).eq(z3.BoolVal(True)) or ex.valid(ps == v.n):
        pieces = [(v.n, lambda k: [z3.Select(a, k) for a in v.leaves]), (piece_n, piece_fn)]
    elif ex.const_int(ps) == 0:
        pieces = [(piece_n, piece_fn), (v.n, lambda k: [z3.Select(a, k) for a in v.leaves])]
    else:
        pieces = [(pos, lambda k: [z3.Select(a, k) for a in v.leaves]), (piece_n, piece_fn),
                  (z3.simplify(v.n - pos), lambda k: [z3.Select(a, k + pos) for a in v.leaves])]
    # constant sized append: plain stores
    c = ex.const_int(piece_n)
    if len(pieces) == 2 and pieces[0][0] is v.n and c is not None and c <= 4:
        ls = list(v.leaves)
        for k in range(c):
            for i, l in enumerate(piece_fn(iv(k))):
                ls[i] = z3.Store(ls[i], z3.simplify(v.n + k), l)
        ex.write(lv, VVec(v.ety, z3.simplify(v.n + c), ls))
        return
    ex.write(lv, concat(ex, v.ety, pieces))


def vec_from_range(ex, ety, r):
    v = rng_vec(ex, r)
    if isinstance(v, VVec) and v.ety[0] == 'int' and ety[0] == 'real':
        return VVec(ety, v.n, [define_array(ex, 'conv', z3.ArraySort(I, R), lambda j: z3.ToReal(v.leaves[0][j]))])
    if isinstance(v, VVec):
        return VVec(ety if ety[0] == v.ety[0] else v.ety, v.n, v.leaves)
    return v


# ---------------------------------------------------------------- construction
def construct(ex, ty, args, n):
    k = ty[0]
    if k == 'vec':
        ety = ty[1]
        av = [a for a in args if a is not None]
        if not av:
            return ex.default_value(ty)
        x = ex.rv(av[0])
        if len(av) == 1 or (len(av) == 2 and isinstance(ex.rv(av[1]), VOpaque)):
            if isinstance(x, (VVec, VList)):
                if isinstance(x, VList) and ex.scalar_elem(ety):
                    return ex.to_vvec(VList(ety, [coerce(ety, i) for i in x.items]))
                return x
            if is_z3(x):
                c = as_int(x)
                if ex.scalar_elem(ety):
                    z = {'int': iv(0), 'bool': z3.BoolVal(False), 'real': z3.RealVal(0)}[ety[0]]
                    return VVec(ety, c, [z3.K(I, z)])
                cc = ex.const_int(c)
                if cc is not None:
                    return VList(ety, [ex.default_value(ety) for _ in range(cc)])
                v = VVec(ety, c, [ex.fresh('dv', z3.ArraySort(I, s)) for s in ex.sorts(ety)])
                ex.range_facts(v)
                if ety[0] == 'cls' or ety[0] == 'ptr':
                    return v
                raise Unsupported('vector of %s with symbolic size' % (ety,))
        y = ex.rv(av[1]) if len(av) > 1 else None
        if isinstance(x, (VIter, VBPtr)):
            if isinstance(x, VIter) and x.kind in ('set', 'map'):
                return set_to_vec(ex, x, ety)
            return vec_from_range(ex, ety, Rng(ex, x, y))
        if is_z3(x) and y is not None:
            if ex.scalar_elem(ety):
                return VVec(ety, as_int(x), [z3.K(I, ex.encode(ety, y)[0])])
            cc = ex.const_int(as_int(x))
            if cc is not None:
                return VList(ety, [y] * cc)
            ls = ex.encode(ety, y)
            return VVec(ety, as_int(x), [z3.K(I, l) for l in ls])
        raise Unsupported('vector constructor %r' % (av,))
    if k == 'opt':
        av = [a for a in args if a is not None]
        if not av:
            return VOpt(z3.BoolVal(False), None)
        x = ex.rv(av[0])
        if isinstance(x, VOpt):
            return x
        if isinstance(x, VOpaque) and 'nullopt' in str(x.ty) + str(x.tag):
            return VOpt(z3.BoolVal(False), None)
        return VOpt(z3.BoolVal(True), coerce(ty[1], x))
    if k == 'pair':
        av = [ex.rv(a) for a in args]
        if not av:
            return ex.default_value(ty)
        if len(av) == 1:
            return av[0]
        return VStruct('pair', {'first': coerce(ty[1], av[0]), 'second': coerce(ty[2], av[1])})
    if k == 'str':
        av = [a for a in args if a is not None]
        if not av:
            return VStr(())
        x = ex.rv(av[0])
        if isinstance(x, VStr):
            return x
        return VStr((VOpaque(ty, 'str'),))
    if k == 'iter':
        return ex.rv(args[0])
    if k == 'pq':
        av = [a for a in args if a is not None]
        x = ex.rv(av[0]) if av else None
        return x if isinstance(x, VPQ) else ex.default_value(ty)
    if k == 'fn':
        if not args:
            return NULL
        return ex.rv(args[0])
    if k in ('int', 'bool', 'real', 'ptr'):
        if args:
            return coerce(ty, ex.rv(args[0]))
        return ex.default_value(ty)
    if k in ('uset', 'umap'):
        if args and args[0] is not None:
            x = ex.rv(args[0])
            if isinstance(x, (VSet, VMap)):
                return x
            if isinstance(x, VList):
                s = ex.default_value(ty)
                for it in x.items:
                    s = VSet(s.kty, z3.Store(s.has, keyexpr(it), z3.BoolVal(True)))
                return s
            if isinstance(x, VIter):
                r = Rng(ex, x, ex.rv(args[1]))
                v = rng_vec(ex, r)
                s = ex.default_value(ty)
                if isinstance(v, VList):
                    for it in v.items:
                        s = VSet(s.kty, z3.Store(s.has, keyexpr(it), z3.BoolVal(True)))
                    return s
            raise Unsupported('set constructor')
        return ex.default_value(ty)
    if k == 'cls':
        if ty[1].endswith('formatter') or 'stringstream' in ty[1] or 'ostream' in ty[1]:
            return VStr(())
        if len(args) == 1 and args[0] is not None and isinstance(ex.rv(args[0]), VIter):
            return ex.rv(args[0])
        return VOpaque(ty, [ex.rv(a) if a is not None else None for a in args])
    raise Unsupported('construction of %s' % (ty,))


def coerce(ty, v):
    if is_z3(v):
        if ty[0] == 'real':
            return as_real(v)
        if ty[0] == 'int':
            return as_int(v)
        if ty[0] == 'bool':
            return as_bool(v)
    return v


def keyexpr(k):
    if isinstance(k, VRef):
        return k.e
    if isinstance(k, VPtr) and k.lv is None:
        return iv(0)
    if is_z3(k):
        return k
    raise Unsupported('container key %r' % (k,))


def set_to_vec(ex, it, ety):
    raise Unsupported('set to vector')


# ---------------------------------------------------------------- methods
def call_method(ex, lv, name, args, n):
    v = ex.read(lv)
    h = ex.hook_std_method(lv, v, name, args, n) if hasattr(ex, 'hook_std_method') else NotImplemented
    if h is not NotImplemented:
        return h
    if isinstance(v, (VVec, VList)):
        return vec_method(ex, lv, v, name, args, n)
    if isinstance(v, VOpt):
        if name in ('operator bool', 'has_value'):
            return v.has
        if name in ('value', 'operator*'):
            return lv.f('val')
    if isinstance(v, VStr):
        return str_method(ex, lv, v, name, args, n)
    if isinstance(v, (VClosure, VFn, VFnDecl)) or (isinstance(v, VPtr) and v.lv is None):
        if name == 'operator bool':
            return as_bool(v)
        if name == 'operator()':
            return ex.call_value(v, args, n)
    if isinstance(v, (VSet, VMap)):
        return set_method(ex, lv, v, name, args, n)
    if isinstance(v, VPQ):
        return pq_method(ex, lv, v, name, args, n)
    if isinstance(v, VIter) and name == 'base':
        return v
    if name == 'operator std::basic_string<char>' or name.startswith('operator basic_string'):
        return v
    if isinstance(v, VOpaque):
        h = ex.hook_opaque(lv, v, name, args, n) if hasattr(ex, 'hook_opaque') else NotImplemented
        if h is not NotImplemented:
            return h
    raise Unsupported('method %s on %r' % (name, type(v).__name__))


def vec_method(ex, lv, v, name, args, n):
    ln = ex.vlen(v)
    if name in ('size', 'length'):
        return ln
    if name == 'empty':
        return ln == 0
    if name in ('begin', 'cbegin'):
        return VIter(lv, iv(0))
    if name in ('end', 'cend'):
        return VIter(lv, ln)
    if name == 'data':
        return VIter(lv, iv(0), 'buf')
    if name == 'at':
        i = as_int(ex.rv(args[0]))
        if not ex.valid(z3.And(i >= 0, i < ln)):
            if ex.decide(z3.Not(z3.And(i >= 0, i < ln))):
                raise CppThrow('std::out_of_range')
        return lv.i(z3.simplify(i))
    if name == 'operator[]':
        return vec_index(ex, lv, args[0])
    if name == 'front':
        ex.safe(ln > 0, 'bounds.front')
        return lv.i(iv(0))
    if name == 'back':
        ex.safe(ln > 0, 'bounds.back')
        return lv.i(z3.simplify(ln - 1))
    if name in ('push_back', 'emplace_back', 'push'):
        x = ex.rv(args[0])
        if isinstance(v, VList):
            if ex.scalar_elem(v.ety):
                v = ex.to_vvec(v)
            else:
                ex.write(lv, VList(v.ety, v.items + (x,)))
                return VOIDV
        x = coerce(v.ety, x)
        ls = ex.encode(v.ety, x)
        ex.write(lv, VVec(v.ety, z3.simplify(v.n + 1), [z3.Store(a, v.n, l) for a, l in zip(v.leaves, ls)]))
        return VOIDV
    if name == 'pop_back':
        ex.safe(ln > 0, 'bounds.pop_back')
        if isinstance(v, VList):
            ex.write(lv, VList(v.ety, v.items[:-1]))
        else:
            ex.write(lv, VVec(v.ety, z3.simplify(v.n - 1), v.leaves))
        return VOIDV
    if name == 'clear':
        ex.write(lv, VList(v.ety, []) if isinstance(v, VList) else VVec(v.ety, iv(0), v.leaves))
        return VOIDV
    if name == 'resize':
        m = as_int(ex.rv(args[0]))
        fill = ex.rv(args[1]) if len(args) > 1 and args[1] is not None else None
        if isinstance(v, VList):
            c = ex.const_int(m)
            if c is not None:
                dv = fill
                items = list(v.items)[:c]
                while len(items) < c:
                    items.append(dv if dv is not None else ex.default_value(v.ety))
                ex.write(lv, VList(v.ety, items))
                return VOIDV
            v = ex.to_vvec(v)
        dv = ex.encode(v.ety, fill if fill is not None else ex.default_value(v.ety))
        old = v
        ls = [define_array(ex, 'rs', a.sort(), lambda j, a=a, d=d: z3.If(j < old.n, z3.Select(a, j), d)) for a, d in zip(v.leaves, dv)]
        ex.write(lv, VVec(v.ety, m, ls))
        return VOIDV
    if name in ('reserve', 'shrink_to_fit'):
        return VOIDV
    if name == 'operator=':
        x = ex.rv(args[0])
        if isinstance(x, VList) and ex.scalar_elem(v.ety):
            x = ex.to_vvec(VList(v.ety, [coerce(v.ety, i) for i in x.items]))
        ex.write(lv, x)
        return lv
    if name == 'assign':
        x = ex.rv(args[0])
        if isinstance(x, (VIter, VBPtr)):
            ex.write(lv, vec_from_range(ex, v.ety, Rng(ex, x, ex.rv(args[1]))))
        else:
            ex.write(lv, construct(ex, ('vec', v.ety), args, n))
        return VOIDV
    if name == 'insert':
        pos = ex.rv(args[0])
        p = pos.idx
        x = ex.rv(args[1])
        if len([a for a in args if a is not None]) == 2:
            if isinstance(x, (VVec, VList)) and not v.ety[0] == 'vec':
                xv = ex.to_vvec(x)
                vec_insert(ex, lv, p, xv.n, lambda k: [z3.Select(a, k) for a in xv.leaves])
                return VIter(lv, p)
            if isinstance(v, VList) and not ex.scalar_elem(v.ety):
                c = ex.const_int(p)
                if c is not None:
                    ex.write(lv, VList(v.ety, v.items[:c] + (x,) + v.items[c:]))
                    return VIter(lv, p)
            ls = ex.encode(v.ety, coerce(v.ety, x))
            vec_insert(ex, lv, p, iv(1), lambda k: ls)
            return VIter(lv, p)
        y = ex.rv(args[2])
        if isinstance(x, (VIter, VBPtr)):
            r = Rng(ex, x, y)
            if isinstance(v, VList) and r.leaves is None:
                c, cn, cl = ex.const_int(p), ex.const_int(r.n), ex.const_int(r.lo)
                if None not in (c, cn, cl):
                    ex.write(lv, VList(v.ety, v.items[:c] + r.val.items[cl:cl + cn] + v.items[c:]))
                    return VIter(lv, p)
            rvv = ex.to_vvec(rng_vec(ex, r))
            vec_insert(ex, lv, p, rvv.n, lambda k: [z3.Select(a, k) for a in rvv.leaves])
            return VIter(lv, p)
        # (pos, count, value)
        ls = ex.encode(v.ety, coerce(v.ety, y))
        vec_insert(ex, lv, p, as_int(x), lambda k: ls)
        return VIter(lv, p)
    if name == 'erase':
        pos = ex.rv(args[0])
        if len([a for a in args if a is not None]) == 1:
            lo, cnt = pos.idx, iv(1)
        else:
            e = ex.rv(args[1])
            lo, cnt = pos.idx, z3.simplify(e.idx - pos.idx)
        ex.safe(z3.And(lo >= 0, cnt >= 0, lo + cnt <= ln), 'bounds.erase')
        if isinstance(v, VList):
            a, b = ex.const_int(lo), ex.const_int(cnt)
            if a is not None and b is not None:
                ex.write(lv, VList(v.ety, v.items[:a] + v.items[a + b:]))
                return VIter(lv, lo)
        v = ex.to_vvec(v)
        ls = [define_array(ex, 'er', a.sort(), lambda j, a=a: z3.If(j < lo, z3.Select(a, j), z3.Select(a, j + cnt))) for a in v.leaves]
        ex.write(lv, VVec(v.ety, z3.simplify(v.n - cnt), ls))
        return VIter(lv, lo)
    if name == 'swap':
        o = args[0]
        a, b = ex.read(lv), ex.read(o)
        ex.write(lv, b)
        ex.write(o, a)
        return VOIDV
    raise Unsupported('vector method ' + name)


def vec_index(ex, lv, a):
    v = ex.read(lv)
    i = z3.simplify(as_int(ex.rv(a)))
    ln = ex.vlen(v)
    ex.safe(z3.And(i >= 0, i < ln), 'bounds.index')
    if isinstance(v, VList) and ex.const_int(i) is None and not ex.scalar_elem(v.ety):
        # symbolic index into a concrete list: case split
        for k in range(len(v.items) - 1):
            if ex.decide(i == k):
                return lv.i(iv(k))
        return lv.i(iv(len(v.items) - 1))
    return lv.i(i)


def str_method(ex, lv, v, name, args, n):
    if name in ('str', 'c_str', 'data') or name.startswith('operator basic_string') or name.startswith('operator std'):
        return v
    if name == 'compare':
        o = ex.rv(args[0])
        if isinstance(o, VStr):
            e = str_eq(ex, v, o)
            return z3.If(e, iv(0), iv(1))
    if name == 'empty':
        c = v.concrete()
        if c is not None:
            return z3.BoolVal(c == '')
        return ex.fresh('strempty', B)
    if name in ('size', 'length'):
        c = v.concrete()
        if c is not None:
            return iv(len(c))
        return ex.fresh_int('strlen')
    if name == 'append':
        ex.write(lv, VStr(v.parts + ex.rv(args[0]).parts))
        return lv
    raise Unsupported('string method ' + name)


def str_eq(ex, a, b):
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        return z3.BoolVal(ca == cb)
    if len(a.parts) == len(b.parts) and all((x is y) or (isinstance(x, str) and isinstance(y, str) and x == y) or
                                            (is_z3(x) and is_z3(y) and x.eq(y)) for x, y in zip(a.parts, b.parts)):
        return z3.BoolVal(True)
    if len(a.parts) == 1 and len(b.parts) == 1 and is_z3(a.parts[0]) and is_z3(b.parts[0]):
        return a.parts[0] == b.parts[0]
    return ex.fresh('streq', B)


def pq_method(ex, lv, v, name, args, n):
    ks = v.cnt.sort().domain()
    j = z3.Const('k!q', ks)
    c = v.cnt
    memo = ex.ghost.setdefault('pqtop', [])
    if name == 'empty':
        if ex.specmode:
            raise ForkNeeded()
        b, w = ex.fresh('isempty', B), ex.fresh('queued', ks)
        ex.assume(z3.Implies(b, z3.ForAll([j], c[j] == 0, patterns=[c[j]]) if trig_ok(c[j]) else z3.ForAll([j], c[j] == 0)))
        ex.assume(z3.Implies(z3.Not(b), c[w] > 0))
        return b
    if name in ('top', 'pop'):
        t = next((t for c1, t in memo if c1.eq(c)), None)
        if t is None and not ex.specmode:
            # the same queue seen through another update of the heap
            t = next((t for c1, t in reversed(memo) if c1.sort() == c.sort() and ex.valid(c1 == c)), None)
        if t is None:
            t = ex.fresh('top', ks)
            ex.safe(z3.Exists([j], c[j] > 0), 'priority-queue-not-empty')
            ex.assume(c[t] > 0)
        memo.append((c, t))
        if name == 'pop':
            ex.write(lv, VPQ(v.ety, z3.Store(c, t, c[t] - 1)))
            return VOIDV
        return key_value(v.ety, t)
    if name in ('push', 'emplace'):
        k = keyexpr(ex.rv(args[0]))
        ex.write(lv, VPQ(v.ety, z3.Store(c, k, c[k] + 1)))
        return VOIDV
    if name == 'swap':
        o = args[0]
        w = ex.read(o)
        ex.write(lv, w)
        ex.write(o, v)
        return VOIDV
    raise Unsupported('priority_queue method ' + name)


def range_insert(ex, lv, v, a, b):
    """insert(begin, end) of another container of the same kind"""
    if not (isinstance(a, VIter) and isinstance(b, VIter) and a.kind == 'mapseq' and b.kind == 'mapend' and z3.is_int_value(z3.simplify(a.idx)) and z3.simplify(a.idx).as_long() == 0):
        raise Unsupported('insert of a range')
    o = ex.read(a.lv)
    ks = v.has.sort().domain()
    k = z3.Const('k!q', ks)

    def merged(nm, sort, f):
        w = ex.fresh(nm, sort)
        ps = [x for x in (w[k], o.has[k], v.has[k]) if trig_ok(x)]
        ex.assume(z3.ForAll([k], w[k] == f(k), patterns=ps))
        return w
    has = merged('merged', v.has.sort(), lambda k: z3.Or(v.has[k], o.has[k]))
    if isinstance(v, VSet):
        ex.write(lv, VSet(v.kty, has))
    else:
        ls = [merged('mergedv', x.sort(), lambda k, x=x, y=y: z3.If(v.has[k], x[k], y[k])) for x, y in zip(v.leaves, o.leaves)]
        ex.write(lv, VMap(v.kty, v.vty, has, ls))
    return VOIDV


def set_method(ex, lv, v, name, args, n):
    if name == 'find':
        k = keyexpr(ex.rv(args[0]))
        return VIter(lv, k, 'map' if isinstance(v, VMap) else 'set', {'has': z3.Select(v.has, k)})
    if name in ('end', 'cend'):
        return VIter(lv, None, 'mapend')
    if name in ('begin', 'cbegin'):
        return VIter(lv, iv(0), 'mapseq', {'seq': seq_of(ex, lv, v)})
    if name == 'count':
        k = keyexpr(ex.rv(args[0]))
        return z3.If(z3.Select(v.has, k), iv(1), iv(0))
    if name == 'insert' and len(args) == 2:
        return range_insert(ex, lv, v, ex.rv(args[0]), ex.rv(args[1]))
    if name in ('insert', 'emplace', 'push_back') and isinstance(v, VSet):
        k = keyexpr(ex.rv(args[0]))
        had = z3.Select(v.has, k)
        ex.write(lv, VSet(v.kty, z3.Store(v.has, k, z3.BoolVal(True))))
        return VStruct('pair', {'first': VIter(lv, k, 'set', {'has': z3.BoolVal(True)}), 'second': z3.Not(had)})
    if name == 'erase':
        x = ex.rv(args[0])
        k = (x.extra['seq'][1][x.idx] if x.kind == 'mapseq' else x.idx) if isinstance(x, VIter) else keyexpr(x)
        had = z3.Select(v.has, k)
        if isinstance(v, VSet):
            ex.write(lv, VSet(v.kty, z3.Store(v.has, k, z3.BoolVal(False))))
        else:
            ex.write(lv, VMap(v.kty, v.vty, z3.Store(v.has, k, z3.BoolVal(False)), v.leaves))
        return z3.If(had, iv(1), iv(0))
    if name == 'clear':
        ks = v.has.sort().domain()
        e = z3.K(ks, z3.BoolVal(False))
        ex.write(lv, VSet(v.kty, e) if isinstance(v, VSet) else VMap(v.kty, v.vty, e, v.leaves))
        return VOIDV
    if name == 'empty':
        ks = v.has.sort().domain()
        w = ex.fresh('witness', ks)
        b = ex.fresh('isempty', B)
        j = z3.Const('k!q', ks)
        body = z3.Not(z3.Select(v.has, j))
        h = z3.simplify(z3.Select(v.has, j))
        ex.assume(z3.Implies(b, z3.ForAll([j], body, patterns=[h]) if trig_ok(h) else z3.ForAll([j], body)))
        ex.assume(z3.Implies(z3.Not(b), z3.Select(v.has, w)))
        return b
    if name in ('operator[]', 'at') and isinstance(v, VMap):
        return map_index(ex, lv, v, args[0])
    raise Unsupported('set/map method ' + name)


def map_index(ex, lv, v, a):
    k = keyexpr(ex.rv(a))
    had = z3.Select(v.has, k)
    dv = ex.default_value(v.vty)
    dl = ex.encode(v.vty, dv)
    ls = [z3.If(had, arr, z3.Store(arr, k, d)) for arr, d in zip(v.leaves, dl)]
    ex.write(lv, VMap(v.kty, v.vty, z3.Store(v.has, k, z3.BoolVal(True)), ls))
    return lv.i(k)


# ---------------------------------------------------------------- operators on std objects
def moved_from(ex, e, r):
    """the container std::move takes its contents from (left empty)"""
    from .interp import strip, inner
    e = strip(e)
    if not isinstance(r, (VVec, VList, VSet, VMap)) or e['kind'] != 'CallExpr':
        return None
    c = strip(inner(e)[0])
    if c.get('referencedDecl', {}).get('name') != 'move' or len(inner(e)) != 2:
        return None
    lv = ex.ev(inner(e)[1])
    return lv if isinstance(lv, LV) else None


def call_operator(ex, name, argn, n):
    if name == 'operator=':
        # evaluate rhs first
        r = ex.rv(ex.ev(argn[1]))
        lv = ex.ev(argn[0])
        ty = node_type(argn[0])
        if isinstance(lv, LV):
            old_ty = ty
            if ty[0] == 'opt' and not isinstance(r, VOpt):
                if isinstance(r, VOpaque):
                    r = VOpt(z3.BoolVal(False), None)
                else:
                    r = VOpt(z3.BoolVal(True), coerce(ty[1], r))
            if ty[0] == 'vec' and isinstance(r, VList) and ex.scalar_elem(ty[1]):
                r = ex.to_vvec(VList(ty[1], [coerce(ty[1], i) for i in r.items]))
            moved = moved_from(ex, argn[1], r)
            ex.write(lv, r)
            if moved is not None and moved.key() != lv.key():
                ex.write(moved, ex.default_value(('vec', r.ety) if isinstance(r, (VVec, VList)) else ('uset', r.kty) if isinstance(r, VSet) else ('umap', r.kty, r.vty)))
            return lv
        raise Unsupported('assignment to rvalue')
    args = [ex.ev(a) for a in argn]
    v = ex.rv(args[0])
    if name == 'operator[]':
        if isinstance(v, (VVec, VList)):
            lv = args[0] if isinstance(args[0], LV) else ex.lval(v)
            return vec_index(ex, lv, args[1])
        if isinstance(v, VMap):
            return map_index(ex, args[0], v, args[1])
        if isinstance(v, VIter):
            return iter_deref(ex, VIter(v.lv, z3.simplify(v.idx + as_int(ex.rv(args[1]))), v.kind, v.extra))
        h = ex.hook_opaque(args[0], v, name, args[1:], n) if hasattr(ex, 'hook_opaque') else NotImplemented
        if h is not NotImplemented:
            return h
    if name in ('operator*', 'operator->') and len(args) == 1:
        if isinstance(v, VOpt):
            ex.safe(v.has, 'optional-empty')
            if name == 'operator->':
                return VPtr(args[0].f('val') if isinstance(args[0], LV) else ex.new_cell(v.val, None))
            return args[0].f('val') if isinstance(args[0], LV) else v.val
        if isinstance(v, VIter):
            lv = iter_deref(ex, v)
            return lv if name == 'operator*' else ex.addr_of(lv)
        if isinstance(v, VPtr):
            return v.lv if name == 'operator*' else v
        if isinstance(v, VNode):
            return v
    if name in ('operator++', 'operator--'):
        d = 1 if name == 'operator++' else -1
        w = ex.incr(v, d, ('int', 64, False))
        ex.write(args[0], w)
        return v if len(args) == 2 else args[0]
    if name in ('operator==', 'operator!='):
        b = ex.rv(args[1])
        if isinstance(v, (VClosure, VFn, VFnDecl)) and isinstance(b, VPtr):
            e = z3.BoolVal(False)
        else:
            e = ex.equal(v, b)
        return e if name == 'operator==' else z3.Not(e)
    if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
        return ex.compare(name[8:], v, ex.rv(args[1]))
    if name == 'operator<<' or name == 'operator>>':
        if isinstance(v, VStr) and name == 'operator<<':
            x = ex.rv(args[1])
            p = x.parts if isinstance(x, VStr) else (x,)
            w = VStr(v.parts + p)
            if isinstance(args[0], LV):
                ex.write(args[0], w)
                return args[0]
            return w
        return args[0]
    if name in ('operator+', 'operator-'):
        b = ex.rv(args[1])
        if isinstance(v, VStr) and isinstance(b, VStr):
            return VStr(v.parts + b.parts)
        return ex.arith(name[8:], v, b, node_type(n))
    if name in ('operator+=', 'operator-='):
        b = ex.rv(args[1])
        if isinstance(v, VStr):
            ex.write(args[0], VStr(v.parts + (b.parts if isinstance(b, VStr) else (b,))))
        else:
            ex.write(args[0], ex.arith(name[8], v, b, ('int', 64, True)))
        return args[0]
    if name == 'operator!':
        return z3.Not(as_bool(v))
    if name == 'operator()':
        return ex.call_value(v, args[1:], n)
    h = ex.hook_std_operator(name, args, n) if hasattr(ex, 'hook_std_operator') else NotImplemented
    if h is not NotImplemented:
        return h
    raise Unsupported('operator %s on %r' % (name, type(v).__name__))


# ---------------------------------------------------------------- free functions
def mathfn(ex, name, args):
    from . import mathspec
    return mathspec.apply(ex, name, [as_real(ex.rv(a)) for a in args])


def loop_over(ex, tag, n, body):
    """for k in [0,n): body(k)  as a verified loop with a hidden index"""
    k = ex.new_cell(iv(0), ('int', 64, False))

    def cond():
        return ex.read(k) < n

    def step():
        ex.write(k, z3.simplify(ex.read(k) + 1))
    ex.run_loop(tag, cond, lambda: body(ex.read(k)), step, hidden=[k])
    return k


def call_free(ex, name, args, n):
    h = ex.hook_free(name, args, n) if hasattr(ex, 'hook_free') else NotImplemented
    if h is not NotImplemented:
        return h
    if name in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof') and len(args) == 1:
        if name == 'addressof':
            return ex.addr_of(args[0])
        return args[0]
    if name in ('min', 'max'):
        a, b = ex.rv(args[0]), (ex.rv(args[1]) if len(args) > 1 else None)
        if b is None and isinstance(a, VList):
            r = a.items[0]
            for x in a.items[1:]:
                r = z3.If(x < r, x, r) if name == 'min' else z3.If(r < x, x, r)
            return r
        if len(args) == 2:
            if z3.is_real(a) or z3.is_real(b):
                a, b = as_real(a), as_real(b)
            return z3.If(b < a, b, a) if name == 'min' else z3.If(a < b, b, a)
    if name == 'swap':
        a, b = ex.read(args[0]), ex.read(args[1])
        ex.write(args[0], b)
        ex.write(args[1], a)
        return VOIDV
    if name == 'accumulate':
        r = Rng(ex, ex.rv(args[0]), ex.rv(args[1]))
        rty = node_type(n)
        acc = ex.new_cell(coerce(rty, ex.rv(args[2])), rty)
        op = ex.rv(args[3]) if len(args) > 3 else None
        site = n['id']

        def body(k):
            e = r.at(k)
            cur = ex.read(acc)
            if op is None:
                v = ex.arith('+', cur, ex.rv(e), rty)
            else:
                v = call_op(ex, op, [cur, e], n)
            ex.write(acc, coerce(rty, ex.rv(v)))
        ex.ghost.setdefault('extra_lvs', []).append(acc)
        loop_over_named(ex, site, r.n, body, [acc])
        return ex.read(acc)
    if name in ('all_of', 'any_of', 'none_of'):
        r = Rng(ex, ex.rv(args[0]), ex.rv(args[1]))
        pred = ex.rv(args[2])
        want = name == 'all_of'
        if getattr(ex, 'pure_predicates', False) and r.leaves is not None and len(r.leaves) == 1:
            # a predicate without effects: its meaning as a formula over an arbitrary element
            a = r.leaves[0]
            p = ex.fresh('p', a.sort().range())
            m = len(ex.pc)
            f = as_bool(ex.rv(call_op(ex, pred, [ex.new_cell(p, r.ety)], n)))
            if len(ex.pc) != m:
                raise Unsupported('predicate with side conditions')
            hold = lambda x: (lambda g: g if name == 'all_of' else z3.Not(g))(z3.substitute(f, (p, x)))
            return quantified(ex, r.lo, r.lo + r.n, lambda j: hold(a[j]), lambda j: [a[j]], name != 'any_of')
        res = ex.new_cell(z3.BoolVal(want or name == 'none_of'), ('bool',))

        def body(k):
            p = as_bool(ex.rv(call_op(ex, pred, [r.at(k)], n)))
            if name == 'all_of':
                if not ex.decide(p):
                    ex.write(res, z3.BoolVal(False))
                    raise BreakX()
            else:
                if ex.decide(p):
                    ex.write(res, z3.BoolVal(name == 'any_of'))
                    raise BreakX()
        loop_over_named(ex, n['id'], r.n, body, [res])
        return ex.read(res)
    if name == 'equal' and len(args) in (3, 4):
        r = Rng(ex, ex.rv(args[0]), ex.rv(args[1]))
        second = ex.rv(args[2])
        same = z3.BoolVal(True)
        if len(args) == 4:
            r2 = Rng(ex, second, ex.rv(args[3]))
            same = r2.n == r.n
        else:
            r2 = Rng(ex, second, _end_like(ex, second, r.n))
        if r.leaves is not None and r2.leaves is not None and z3.is_true(z3.simplify(r.lo == r2.lo)):
            xs, lo = list(zip(r.leaves, r2.leaves)), r.lo
        else:
            xs, lo = list(zip(ex.to_vvec(rng_vec(ex, r)).leaves, ex.to_vvec(rng_vec(ex, r2)).leaves)), iv(0)
        if len(xs) != 1:
            raise Unsupported('comparing ranges of structures')
        a, b = xs[0]
        return z3.And(same, quantified(ex, lo, lo + r.n, lambda j: a[j] == b[j], lambda j: [a[j], b[j]], True))
    if name == 'for_each':
        r = Rng(ex, ex.rv(args[0]), ex.rv(args[1]))
        f = ex.rv(args[2])
        loop_over_named(ex, n['id'], r.n, lambda k: call_op(ex, f, [r.at(k)], n), [])
        return f
    if name == 'transform':
        a0, a1, a2 = ex.rv(args[0]), ex.rv(args[1]), ex.rv(args[2])
        r = Rng(ex, a0, a1)
        if len(args) == 4:
            f = ex.rv(args[3])
            srcs = [r.at]
            out = a2
        else:
            r2 = Rng(ex, a2, _end_like(ex, a2, r.n))
            f = ex.rv(args[4])
            srcs = [r.at, r2.at]
            out = ex.rv(args[3])

        def body(k):
            v = ex.rv(call_op(ex, f, [s(k) for s in srcs], n))
            ex.write(_at(ex, out, k), v)
        loop_over_named(ex, n['id'], r.n, body, [])
        return _adv(ex, out, r.n)
    if name in ('fill', 'fill_n'):
        a0 = ex.rv(args[0])
        if name == 'fill':
            r = Rng(ex, a0, ex.rv(args[1]))
            cnt = r.n
        else:
            cnt = as_int(ex.rv(args[1]))
        val = ex.rv(args[2])
        bulk_write(ex, a0, cnt, lambda j: val)
        return _adv(ex, a0, cnt)
    if name in ('copy', 'copy_n', 'move') and len(args) == 3:
        a0 = ex.rv(args[0])
        if name == 'copy_n':
            cnt = as_int(ex.rv(args[1]))
            r = Rng(ex, a0, _end_like(ex, a0, cnt))
        else:
            r = Rng(ex, a0, ex.rv(args[1]))
            cnt = r.n
        v = ex.to_vvec(rng_vec(ex, r))
        out = ex.rv(args[2])
        bulk_write(ex, out, cnt, lambda j: v.leaves[0][j])
        return _adv(ex, out, cnt)
    if name in ('memcpy', 'memmove'):
        d, s, nb = ex.rv(args[0]), ex.rv(args[1]), as_int(ex.rv(args[2]))
        return memcpy(ex, d, s, nb)
    if name == 'memset':
        d, val, nb = ex.rv(args[0]), as_int(ex.rv(args[1])), as_int(ex.rv(args[2]))
        m = ex.cells[d.cell]
        es = ex.sizeof(m.ety)
        ex.safe(nb % es == 0, 'memset.size')
        cnt = z3.simplify(nb / es)
        cnt = exact_div(ex, nb, es)
        if ex.const_int(val) != 0:
            raise Unsupported('memset with non-zero value')
        z = z3.RealVal(0) if m.ety[0] == 'real' else iv(0)
        bulk_write(ex, d, cnt, lambda j: z)
        return d
    if name == 'distance':
        a, b = ex.rv(args[0]), ex.rv(args[1])
        return (b.off - a.off) if isinstance(a, VBPtr) else (b.idx - a.idx)
    if name in ('next', 'prev', 'advance'):
        a = ex.rv(args[0])
        d = as_int(ex.rv(args[1])) if len(args) > 1 and args[1] is not None else iv(1)
        if name == 'prev':
            d = -d
        r = _adv(ex, a, d)
        if name == 'advance':
            ex.write(args[0], r)
        return r
    if name in ('begin', 'end', 'size', 'empty'):
        return call_method(ex, args[0], name, [], n)
    if name in ('max_element', 'min_element'):
        r = Rng(ex, ex.rv(args[0]), ex.rv(args[1]))
        first = ex.rv(args[0])
        best = ex.fresh_int('best')
        v = ex.to_vvec(rng_vec(ex, r))
        a = v.leaves[0]
        j = qvar()
        lt = lambda x, y: x < y
        if len(args) > 2 and args[2] is not None:
            # a comparator: its meaning as a formula over two arbitrary elements (a strict weak order)
            p, q = ex.fresh('p', a.sort().range()), ex.fresh('q', a.sort().range())
            m = len(ex.pc)
            f = as_bool(ex.rv(call_op(ex, ex.rv(args[2]), [ex.new_cell(p, v.ety), ex.new_cell(q, v.ety)], n)))
            if len(ex.pc) != m:
                raise Unsupported('comparator with side conditions')
            lt = lambda x, y: z3.substitute(f, (p, x), (q, y))
        gt = lt if name == 'max_element' else (lambda x, y: lt(y, x))
        ex.assume(z3.If(r.n <= 0, best == 0, z3.And(0 <= best, best < r.n)))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n), z3.Not(gt(a[best], a[j]))), patterns=[a[j]]))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < best), gt(a[j], a[best])), patterns=[a[j]]))
        return _adv(ex, first, best)
    if name == 'find':
        a0 = ex.rv(args[0])
        if isinstance(a0, VIter) and a0.kind in ('vec', 'buf') or isinstance(a0, VBPtr):
            r = Rng(ex, a0, ex.rv(args[1]))
            v = ex.to_vvec(rng_vec(ex, r))
            x = ex.encode(v.ety, ex.rv(args[2]))[0]
            pos = ex.fresh_int('pos')
            a = v.leaves[0]
            j = qvar()
            ex.assume(pos <= r.n)
            ex.assume(z3.Implies(pos < r.n, a[pos] == x))
            ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pos), a[j] != x), patterns=[a[j]]))
            return _adv(ex, a0, pos)
    if name == 'make_pair':
        return VStruct('pair', {'first': ex.rv(args[0]), 'second': ex.rv(args[1])})
    if name == 'to_string':
        return VStr((ex.rv(args[0]),))
    if name in ('operator==', 'operator!=', 'operator<', 'operator+', 'operator-'):
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if name in ('operator==', 'operator!='):
            e = ex.equal(a, b)
            return e if name == 'operator==' else z3.Not(e)
        if name == 'operator<':
            return ex.compare('<', a, b)
        return ex.arith(name[-1], a, b, node_type(n))
    if name in MATH:
        return mathfn(ex, name, args)
    if name == 'infinity' or name == 'lowest' or name == 'epsilon':
        return ex.fresh('limits_' + name, R)
    if name == '__builtin_expect':
        return ex.rv(args[0])
    raise Unsupported('call of external function %s' % name)


MATH = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'pow', 'abs', 'fabs', 'round', 'floor', 'ceil', 'log2', 'tanh'}


def loop_over_named(ex, tag, n, body, cells):
    k = ex.new_cell(iv(0), ('int', 64, False))

    def cond():
        return ex.read(k) < n

    def step():
        ex.write(k, z3.simplify(ex.read(k) + 1))
    ex.run_loop(tag, cond, lambda: body(ex.read(k)), step, hidden=[k] + list(cells))
    return k


def call_op(ex, op, args, n):
    op = ex.rv(op)
    if isinstance(op, VOpaque):
        t = str(op.ty)
        a = [ex.rv(x) for x in args]
        for nm, o in (('multiplies', '*'), ('plus', '+'), ('minus', '-'), ('divides', '/')):
            if nm in t:
                ety = ('int', 64, False) if z3.is_int(a[0]) else ('real',)
                return ex.arith(o, a[0], a[1], ety)
        for nm, o in (('equal_to', '=='), ('greater_equal', '>='), ('less_equal', '<='), ('greater', '>'), ('less', '<')):
            if nm in t:
                return ex.compare(o, a[0], a[1])
        raise Unsupported('functor %s' % t)
    return ex.call_value(op, args, n)


def _end_like(ex, a, n):
    return _adv(ex, a, n)


def _adv(ex, a, n):
    if isinstance(a, VBPtr):
        return VBPtr(a.cell, z3.simplify(a.off + n))
    if isinstance(a, VIter):
        return VIter(a.lv, z3.simplify(a.idx + n), a.kind, a.extra)
    raise Unsupported('advance %r' % (a,))


def _at(ex, a, k):
    if isinstance(a, VBPtr):
        return ex.mem_at(a, k)
    if isinstance(a, VIter):
        return iter_deref(ex, VIter(a.lv, z3.simplify(a.idx + k), a.kind, a.extra))
    if isinstance(a, VOpaque):
        raise Unsupported('output iterator')
    raise Unsupported('at %r' % (a,))


def bulk_write(ex, out, cnt, val):
    """out[0..cnt) = val(j)"""
    if isinstance(out, VBPtr):
        m = ex.cells[out.cell]
        ex.safe(z3.And(out.off >= 0, cnt >= 0, out.off + cnt <= m.n), 'bounds.bulk.%s' % (m.name or 'buffer'))
        if m.freed is not False:
            ex.safe(z3.Not(as_bool(m.freed)), 'use-after-free')
        old, off = m.arr, out.off
        new = define_array(ex, 'bw', old.sort(), lambda j: z3.If(z3.And(off <= j, j < off + cnt), val(j - off), z3.Select(old, j)))
        ex.note_write(LV(('c', out.cell), (('i', iv(0)),)))
        ex.cells[out.cell] = VMem(m.n, new, m.freed, m.name, m.ety)
        return
    if isinstance(out, VIter):
        v = ex.to_vvec(ex.read(out.lv))
        ex.safe(z3.And(out.idx >= 0, cnt >= 0, out.idx + cnt <= v.n), 'bounds.bulk')
        old, off = v.leaves[0], out.idx
        def vv(j):
            x = val(j)
            return as_real(x) if v.ety[0] == 'real' else x
        new = define_array(ex, 'bw', old.sort(), lambda j: z3.If(z3.And(off <= j, j < off + cnt), vv(j - off), z3.Select(old, j)))
        ex.write(out.lv, VVec(v.ety, v.n, [new]))
        return
    raise Unsupported('bulk write into %r' % (out,))


def exact_div(ex, nb, es):
    nb = z3.simplify(nb)
    c = ex.const_int(nb)
    if c is not None:
        return iv(c // es)
    # nb is syntactically es * e in sizeof(T)*n idioms
    q = z3.simplify(nb / es)
    if z3.is_app(nb) and nb.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(nb.arg(0)) and nb.arg(0).as_long() == es:
        rest = nb.children()[1:]
        r = rest[0]
        for x in rest[1:]:
            r = r * x
        return r
    w = ex.fresh_int('cnt')
    ex.assume(z3.Implies(nb % es == 0, es * w == nb))
    return w


def memcpy(ex, d, s, nb):
    if isinstance(d, VPtr) or isinstance(s, VPtr):
        ex.prove(z3.BoolVal(False), 'safety.memcpy-null', kind='safety')
        raise PathEnd()
    if isinstance(s, VIter) and isinstance(d, VBPtr):
        v = ex.to_vvec(ex.read(s.lv))
        es = ex.sizeof(v.ety)
        ex.safe(nb % es == 0, 'memcpy.size')
        cnt = exact_div(ex, nb, es)
        ex.safe(z3.And(s.idx >= 0, s.idx + cnt <= v.n), 'bounds.memcpy-src')
        src, so = v.leaves[0], s.idx
    elif isinstance(s, VBPtr):
        m = ex.cells[s.cell]
        es = ex.sizeof(m.ety)
        ex.safe(nb % es == 0, 'memcpy.size')
        cnt = exact_div(ex, nb, es)
        ex.safe(z3.And(s.off >= 0, cnt >= 0, s.off + cnt <= m.n), 'bounds.memcpy-src')
        if m.freed is not False:
            ex.safe(z3.Not(as_bool(m.freed)), 'use-after-free.src')
        src, so = m.arr, s.off
    else:
        h = ex.hook_memcpy(d, s, nb) if hasattr(ex, 'hook_memcpy') else NotImplemented
        if h is not NotImplemented:
            return h
        raise Unsupported('memcpy')
    bulk_write(ex, d, cnt, lambda j: z3.Select(src, j + so))
    return d


# ---------------------------------------------------------------- range for
def range_for(ex, n, rl, var, body):
    v = ex.read(rl)
    if isinstance(v, VList):
        k = 0
        while k < len(ex.read(rl).items) if isinstance(ex.read(rl), VList) else False:
            ex.bind_loop_var(var, rl.i(iv(k)))
            try:
                ex.stmt(body)
            except ContinueX:
                pass
            except BreakX:
                return
            k += 1
            if k > 64:
                raise Unsupported('long concrete range-for')
        return
    if isinstance(v, VVec):
        kc = ex.new_cell(iv(0), ('int', 64, False))

        def cond():
            return ex.read(kc) < ex.vlen(ex.read(rl))

        def b():
            ex.bind_loop_var(var, rl.i(ex.read(kc)))
            ex.stmt(body)

        def step():
            ex.write(kc, z3.simplify(ex.read(kc) + 1))
        ex.run_loop(n['id'], cond, b, step, hidden=[kc])
        return
    if isinstance(v, (VSet, VMap)):
        return set_for(ex, n, rl, v, var, body)
    raise Unsupported('range-for over %r' % type(v).__name__)


def set_for(ex, n, rl, v, var, body):
    ks = v.has.sort().domain()
    vis = ex.new_cell(VSet(v.kty, z3.K(ks, z3.BoolVal(False))), ('uset', v.kty))
    cur = {}

    def cond():
        if ex.specmode:
            raise ForkNeeded()
        m = ex.read(rl)
        more = ex.fresh('more', B)
        w = ex.fresh('key', ks)
        s = ex.read(vis).has
        j = z3.Const('k!q', ks)
        ex.assume(z3.Implies(more, z3.And(z3.Select(m.has, w), z3.Not(z3.Select(s, w)))))
        ex.assume(z3.Implies(z3.Not(more), z3.ForAll([j], z3.Implies(z3.Select(m.has, j), z3.Select(s, j)),
                                                    patterns=[z3.Select(m.has, j)])))
        cur['k'] = w
        return more

    def b():
        k = cur['k']
        m0 = ex.read(rl)
        if isinstance(m0, VMap):
            lv = map_pair(ex, rl, k)
        else:
            lv = ex.new_cell(key_value(m0.kty, k), m0.kty)
        ex.bind_loop_var(var, lv)
        s = ex.read(vis)
        ex.write(vis, VSet(s.kty, z3.Store(s.has, k, z3.BoolVal(True))))
        ex.stmt(body)
        m1 = ex.read(rl)
        if not m1.has.eq(m0.has):
            ex.safe(m1.has == m0.has, 'container-modified-while-iterating')
    ex.run_loop(n['id'], cond, b, None, hidden=[vis])
