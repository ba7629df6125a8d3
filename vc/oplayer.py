"""Operator layer: graph nodes are abstract values (VNode) with a length and their value at one generic position.

A node x stands for a tensor of x.n elements; x.v is its element at the generic flat position i0
(element 0 when x.n == 1: a scalar is used at every position)."""
import z3
from .engine import *
from .values import *
from .interp import Interp, inner, strip
from .frontend import node_type
from .theory import prod

NULLNODE = VNode('null')
VP = ('nnet::varptr<', 'nnet::placeptr<')
CONST, CONN, INODE = 'nnet::constant<double>', 'nnet::iconnector<double>', 'nnet::inode<double>'
SHAPE = 'nnet::tensorshape'


def unref(ty):
    while ty[0] in ('ref', 'const'):
        ty = ty[1]
    return ty


def is_vp(ty):
    ty = unref(ty)
    return ty[0] == 'cls' and ty[1].startswith(VP)


class Num:
    """a number printed into a label"""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s>' % self.t


class AnyLabel:
    """label of a node nothing is known about"""
    def __init__(self, node):
        self.node = node


class OpInterp(Interp):
    # ------------------------------------------------------------ nodes
    def i0(self):
        g = self.ghost
        if 'i0' not in g:
            g['i0'], g['N'] = z3.Int('i0'), z3.Int('N')
            self.assume(z3.And(g['N'] >= 1, 0 <= g['i0'], g['i0'] < g['N']))
        return g['i0']

    def at(self, n, arr):
        return arr[z3.If(n == 1, iv(0), self.i0())]

    def node(self, kind='any', v=None, n=None, **kw):
        self.i0()
        if n is None:
            n = self.fresh('n', I)
            self.assume(z3.Or(n == 1, n == self.ghost['N']))
        if v is None:
            v = self.fresh('v', R)
        return VNode(kind, v=v, n=n, shape=None, label=None, children=None, **kw)

    def const_node(self, n, arr):
        return self.node('const', self.at(n, arr), n, arr=arr)

    def to_const(self, x):
        x.kind = 'const'
        x.arr = self.fresh('carr', z3.ArraySort(I, R))
        self.assume(x.v == self.at(x.n, x.arr))

    def node_shape(self, x):
        if x.shape is None:
            s = self.fresh_val(('cls', SHAPE), 'shp')
            d = s.fields['dimensions_']
            j = z3.Int('j!t')
            self.assume(z3.And(d.n >= 1, prod(d.leaves[0], iv(0), d.n) == x.n))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d.n), d.leaves[0][j] >= 1), patterns=[d.leaves[0][j]]))
            x.shape = s
        return x.shape

    def as_node(self, x):
        x = self.rv(x)
        if isinstance(x, VPtr) and x.lv is None:
            return NULLNODE
        return x

    def node_equal(self, a, b):
        a, b = self.as_node(a), self.as_node(b)
        if not isinstance(a, VNode) or not isinstance(b, VNode):
            raise Unsupported('comparing a node with %r' % (b,))
        return z3.BoolVal(a is b or a.kind == 'null' and b.kind == 'null')

    def addr_of(self, lv):
        if not (lv.path and lv.path[-1][0] == 'i'):
            try:
                v = self.read(lv)
            except Unsupported:
                v = None
            if isinstance(v, VNode):
                return v
        return Interp.addr_of(self, lv)

    def dyn_cast(self, x, ty, n):
        x = self.as_node(x)
        if not isinstance(x, VNode):
            return Interp.dyn_cast(self, x, ty, n)
        c = unref(ty[1])[1] if ty[0] == 'ptr' else unref(ty)[1]
        c = self.ast.cls_name(c) if self.ast.cls_node(c) is not None else c
        if x.kind == 'null':
            return NULLNODE
        if c == INODE:
            return x
        if c == CONST:
            if x.kind == 'any':
                if self.choose(2) == 0:
                    self.to_const(x)
                else:
                    x.kind = 'nonconst'
            return x if x.kind == 'const' else NULLNODE
        if x.kind == 'any':
            if self.choose(2) == 0:
                self.to_const(x)
            else:
                x.kind = 'nonconst'
        if c in (CONN, 'nnet::base_immutable<double>', 'nnet::immutable<double>'):
            if x.kind == 'nonconst':
                x.kind = 'conn' if self.choose(2) == 0 else 'leaf'
            return x if x.kind == 'conn' else NULLNODE
        if x.kind == 'nonconst':
            x.kind = 'conn' if self.choose(2) == 0 else 'leaf'
        if c.startswith('nnet::ileaf'):
            return x if x.kind in ('leaf', 'const') else NULLNODE
        if x.kind == 'leaf':
            return x if self.choose(2) == 0 else NULLNODE
        return NULLNODE

    # ------------------------------------------------------------ syntax hooks
    def global_var(self, i, d):
        if d.get('name') == 'max_digits10':
            return iv(17)
        if d.get('name') == 'digits10':
            return iv(15)
        return Interp.global_var(self, i, d)

    def hook_construct(self, cls, ct, argn, n):
        if cls.startswith(VP):
            if not argn:
                return NULLNODE
            return self.as_node(self.ev(argn[0]))
        if cls.endswith('formatter') and not argn:
            return VStr(())
        return NotImplemented

    def hook_new(self, cls, e, n):
        if cls.startswith('nnet::transfer_func<'):
            return VNode('transfer', fn=self.rv(self.ev(inner(e)[0])))
        return NotImplemented

    def hook_operator(self, name, did, argn, n):
        if name in ('operator->', 'operator*') and len(argn) == 1 and is_vp(node_type(argn[0])):
            return self.as_node(self.ev(argn[0]))
        if name == 'operator=' and is_vp(node_type(argn[0])):
            v = self.as_node(self.ev(argn[1]))
            lv = self.ev(argn[0])
            self.write(lv, v)
            return lv
        if name == 'operator<<':
            t = unref(node_type(argn[0]))
            if t[0] == 'cls' and t[1].endswith('formatter') or n.get('_fmt'):
                x = self.ev(argn[0])
                s = self.rv(x)
                a = self.rv(self.ev(argn[1]))
                if not isinstance(s, VStr):
                    return NotImplemented
                return VStr(s.parts + (a.parts if isinstance(a, VStr) else (Num(a),)))
            if t[0] == 'cls' and 'stream' in t[1] or t[0] != 'cls':
                if 'precision' in self.ghost:
                    self.ghost.setdefault('printed', []).append((as_real(self.rv(self.ev(argn[1]))), self.ghost['precision']))
                return VOpaque(t, 'stream')
        return NotImplemented

    def hook_member(self, obj, arrow, name, q, argn, n):
        v = obj
        if isinstance(v, LV):
            try:
                v = self.read(v)
            except Unsupported:
                return NotImplemented
        if isinstance(v, VStr) and (name == 'str' or name.startswith('operator')):
            return v
        if isinstance(v, VOpaque) and v.tag == 'stream' and name == 'str':
            return VStr(('?',))
        if name == 'precision' and len(argn) == 1 and (isinstance(v, VStr) or isinstance(v, VOpaque) and v.tag == 'stream'):
            self.ghost['precision'] = as_int(self.E(argn[0]))
            return VOIDV
        if isinstance(v, VPtr) and v.lv is None and name in ('get',):
            return NULLNODE
        if not isinstance(v, VNode):
            return NotImplemented
        return self.node_method(v, name, q, argn, n)

    def node_method(self, v, name, q, argn, n):
        if name == 'get' or name.startswith('operator '):
            return v
        if v.kind == 'null':
            self.prove(z3.BoolVal(False), 'safety.null-call.%s' % name, kind='safety')
            raise PathEnd()
        if name in ('extract_metadata', 'set_jacobian_front', 'be_managed', 'set_metadata'):
            return VOIDV
        if name == 'get_metadata':
            return VOpt(z3.BoolVal(False), iv(0))
        if name == 'get_shape':
            return self.node_shape(v)
        if name == 'get_label':
            return v.label if v.label is not None else VStr((AnyLabel(v),))
        if name == 'get_arguments':
            if v.children is None:
                if v.kind in ('any', 'nonconst'):
                    v.kind = 'conn'
                v.children = [self.node(n=v.n)] if self.choose(2) == 0 else [self.node(), self.node()]
                self.relate(v)
            return VList(('ptr', ('cls', INODE)), v.children)
        if name == 'get_leaves':
            return VOpaque(('uset', ('ptr', ('cls', INODE))), 'leaves')
        if name == 'good_status':
            return z3.BoolVal(True)
        return self.node_other(v, name, q, argn, n)

    def node_other(self, v, name, q, argn, n):
        raise Unsupported('method %s of a node' % name)

    def label_is(self, node, s):
        """does an unknown node carry the label s?  (forks)"""
        if node.label is not None:
            c = node.label.concrete()
            if c is None:
                raise Unsupported('comparing labels')
            return z3.BoolVal(c == s)
        if s in getattr(node, 'notlabels', ()):
            return z3.BoolVal(False)
        if self.choose(2) == 0:
            node.label = VStr((s,))
            self.relate(node)
            return z3.BoolVal(True)
        node.notlabels = tuple(getattr(node, 'notlabels', ())) + (s,)
        return z3.BoolVal(False)

    def relate(self, node):
        """the meaning of a label: a unary node with the label of a known operator computes it (checked by the label goals)"""
        if node.label is None or not node.children or len(node.children) != 1:
            return
        f = (self.ghost.get('label_meaning') or {}).get(node.label.concrete())
        if f is not None:
            self.assume(node.v == f(node.children[0].v))

    def equal(self, a, b):
        if isinstance(a, VStr) and isinstance(b, VStr):
            for x, y in ((a, b), (b, a)):
                if len(x.parts) == 1 and isinstance(x.parts[0], AnyLabel) and y.concrete() is not None:
                    return self.label_is(x.parts[0].node, y.concrete())
        return Interp.equal(self, a, b)

    def hook_std_method(self, lv, v, name, args, n):
        if isinstance(v, VStr) and name == 'compare' and len(args) == 1:
            e = self.equal(v, self.rv(args[0]))
            return z3.If(e, iv(0), iv(1))
        return NotImplemented

    def hook_free(self, name, args, n):
        if name == 'print_shape':
            return VOIDV
        return NotImplemented

    def arith(self, op, a, b, ty):
        if op == '*' and is_z3(a) and is_z3(b) and not z3.is_real(a) and not z3.is_real(b):
            for x, y in ((a, b), (b, a)):
                y = as_int(y)
                if z3.is_app_of(y, z3.Z3_OP_ITE) and z3.is_int_value(y.arg(1)) and z3.is_int_value(y.arg(2)):
                    x = as_int(x)
                    return z3.simplify(z3.If(y.arg(0), x * y.arg(1), x * y.arg(2)))
        return Interp.arith(self, op, a, b, ty)
