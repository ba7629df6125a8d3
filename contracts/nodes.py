"""Contract-level view of graph nodes used by the layers above the graph: a node is the expression it was built from (C07, C09 to C11, C14)."""
from .lib import *
from vc.interp import Interp, inner, strip
from vc.frontend import ExtractionError

INO, ICON, VAR, PLH, VP = ('nnet::%s<double>' % x for x in ('inode', 'iconnector', 'variable', 'placeholder', 'varptr'))
REAL, INT, BOOL = ('real',), ('int', 64, False), ('bool',)


class Ex:
    """expression: operator and operands (nodes or numbers)"""
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(str, self.args)))


def node(ex, e, cls=INO):
    return VPtr(ex.new_cell(VStruct(cls, {'x': e}), ('cls', cls)))


def to_node(ex, v):
    """VPtr/VRef/number held by an argument: varptr, node pointer or number"""
    v = ex.rv(v) if not isinstance(v, (VPtr, VRef)) else v
    if isinstance(v, VStruct) and v.cls in (VP, 'nnet::placeptr<double>'):
        v = v.fields['node']
    if isinstance(v, (VPtr, VRef)):
        return v
    if is_z3(v):
        return as_real(v)
    if isinstance(v, (int, float)):
        return z3.RealVal(v)
    raise Unsupported('operand %r' % (v,))


def vp(p):
    return VStruct(VP, {'node': p})


def op(name):
    def c(ex, this, args, n):
        return vp(node(ex, Ex(name, *[to_node(ex, a) for a in args if a is not None])))
    return c


def c_vp(ex, cls, args, n):
    if not args:
        return vp(NULL)
    v = ex.rv(args[0])
    return v if isinstance(v, VStruct) else vp(v)


def c_vp_assign(ex, this, args, n):
    ex.write(this.lv.f('node'), to_node(ex, args[0]))
    return this.lv


OPS = {'nnet::operator+': 'add', 'nnet::operator*': 'mul', 'nnet::operator/': 'div', 'nnet::sqrt': 'sqrt', 'nnet::pow': 'pow', 'nnet::exp': 'exp',
       'nnet::matmul': 'matmul', 'nnet::transpose': 'transpose', 'nnet::sigmoid': 'sigmoid', 'nnet::tanh': 'tanh', 'nnet::log': 'log', 'nnet::identity': 'identity',
       'nnet::reduce_sum': 'reduce_sum', 'nnet::reduce_mean': 'reduce_mean', 'nnet::reduce_max': 'reduce_max', 'nnet::add_axial_b': 'add_b', 'nnet::add_axial_a': 'add_a'}


def c_minus(ex, this, args, n):
    args = [a for a in args if a is not None]
    return (op('neg') if len(args) == 1 else op('sub'))(ex, this, args, n)


CONTRACTS = {k: op(v) for k, v in OPS.items()}
CONTRACTS.update({'nnet::operator-': c_minus, VP + '::(ctor)': c_vp, VP + '::operator=': c_vp_assign})


class NodeInterp(Interp):
    """varptr is the node it holds"""
    def hook_member(self, obj, arrow, name, q, argn, n):
        if isinstance(obj, LV):
            x = self.read(obj)
            if isinstance(x, VStruct) and x.cls in (VP, 'nnet::placeptr<double>') and (name.startswith('operator') and name != 'operator=' or name == 'get'):
                return x.fields['node']
        return super().hook_member(obj, arrow, name, q, argn, n)

    def hook_operator(self, name, did, argn, n):
        if name in ('operator->', 'operator*') and len(argn) == 1:
            x = self.rv(self.ev(argn[0]))
            if isinstance(x, VStruct) and x.cls in (VP, 'nnet::placeptr<double>'):
                p = x.fields['node']
                return p if name == 'operator->' else self.deref(p)
        return super().hook_operator(name, did, argn, n)
