"""Value model of the symbolic executor (immutable values, explicit lvalues)."""
import z3
from .frontend import parse_type, ExtractionError

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Unsupported(ExtractionError):
    pass


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def f(self, name):
        return LV(self.root, self.path + (('f', name),))

    def i(self, idx):
        return LV(self.root, self.path + (('i', idx),))

    def key(self):
        r = self.root
        rk = (r[0], r[1]) if r[0] == 'c' else (r[0], r[1], r[2].get_id())
        return (rk, tuple((p[0], p[1] if isinstance(p[1], (str, int)) else ('z', p[1].get_id())) for p in self.path))

    def __repr__(self):
        return 'LV(%r,%r)' % (self.root, self.path)


class VVec:
    """symbolic std::vector / list: length and one array per flattened leaf of the element type"""
    def __init__(self, ety, n, leaves):
        self.ety, self.n, self.leaves = ety, n, list(leaves)

    def __repr__(self):
        return 'VVec(%s,%s)' % (self.n, self.leaves)


class VMem:
    """a raw T buffer"""
    def __init__(self, n, arr, freed=False, name='', ety=('real',)):
        self.n, self.arr, self.freed, self.name, self.ety = n, arr, freed, name, ety


class VList:
    """vector with concretely known elements"""
    def __init__(self, ety, items):
        self.ety, self.items = ety, tuple(items)

    def __repr__(self):
        return 'VList%r' % (self.items,)


class VStruct:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def with_(self, name, v):
        d = dict(self.fields)
        d[name] = v
        return VStruct(self.cls, d)

    def __repr__(self):
        return '%s%r' % (self.cls, self.fields)


class VOpt:
    def __init__(self, has, val):
        self.has, self.val = has, val


class VPtr:
    """pointer to an object at a known location; lv None = null"""
    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'VPtr(%r)' % (self.lv,)


NULL = VPtr(None)


class VBPtr:
    """T* into a buffer: cell id of a VMem and an offset"""
    def __init__(self, cell, off):
        self.cell, self.off = cell, off


class VRef:
    """symbolic reference into a field-wise heap; 0 is null"""
    def __init__(self, cls, e):
        self.cls, self.e = cls, e


class VLink:
    """the value half of a map entry: an alias of the entry in the map"""
    def __init__(self, lv):
        self.lv = lv


class VClosure:
    def __init__(self, node, env, this, params, body, name='lambda'):
        self.node, self.env, self.this, self.params, self.body, self.name = node, env, this, params, body, name


class VFn:
    """a function given by a python semantics (uninterpreted or contract-level)"""
    def __init__(self, name, call):
        self.name, self.call = name, call


class VFnDecl:
    def __init__(self, decl_id, name, this=None):
        self.decl_id, self.name, self.this = decl_id, name, this


class VIter:
    def __init__(self, lv, idx, kind='vec', extra=None):
        self.lv, self.idx, self.kind, self.extra = lv, idx, kind, extra


class VStr:
    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ''):
                out.append(p)
        self.parts = tuple(out)

    def concrete(self):
        if all(isinstance(p, str) for p in self.parts):
            return ''.join(self.parts)
        return None

    def __repr__(self):
        return 'VStr%r' % (self.parts,)


class VSet:
    """unordered_set<K>: characteristic array"""
    def __init__(self, kty, has):
        self.kty, self.has = kty, has


class VMap:
    def __init__(self, kty, vty, has, leaves):
        self.kty, self.vty, self.has, self.leaves = kty, vty, has, list(leaves)


class VPQ:
    """priority_queue<K>: how often each element is in it (the order in which elements come out is left open)"""
    def __init__(self, ety, cnt):
        self.ety, self.cnt = ety, cnt


class VOpaque:
    """object of a type the model knows nothing about"""
    def __init__(self, ty, tag=None):
        self.ty, self.tag = ty, tag


class VNode:
    """contract-level view of a graph node (operator layer)"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return 'VNode(%s,%s)' % (self.kind, getattr(self, 'name', ''))


VOIDV = VOpaque(('void',))


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def iv(n):
    return z3.IntVal(n)


def as_int(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if z3.is_bool(v):
        if z3.is_true(v):
            return z3.IntVal(1)
        if z3.is_false(v):
            return z3.IntVal(0)
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if z3.is_real(v):
        return z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    return v


def as_real(v):
    if isinstance(v, (int, float)):
        return z3.RealVal(v)
    if z3.is_bool(v):
        v = as_int(v)
    if z3.is_int(v):
        if z3.is_int_value(v):
            return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    return v


def as_bool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_z3(v):
        if z3.is_bool(v):
            return v
        return z3.simplify(v != 0)
    if isinstance(v, VPtr):
        return z3.BoolVal(v.lv is not None)
    if isinstance(v, VBPtr):
        return z3.BoolVal(True)
    if isinstance(v, VRef):
        return v.e != 0
    if isinstance(v, (VClosure, VFn, VFnDecl)):
        return z3.BoolVal(True)
    if isinstance(v, VNode):
        return z3.BoolVal(v.kind != 'null')
    if isinstance(v, VOpt):
        return v.has
    raise Unsupported('cannot convert %r to bool' % (v,))
