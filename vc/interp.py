"""C++ expression / statement semantics over the clang AST."""
import z3
from .engine import *
from .values import *
from .frontend import node_type, parse_type, fn_sig, norm_name

PURE_CALLS = {'operator[]', 'at', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'operator*',
              'operator->', 'operator!=', 'operator==', 'operator+', 'operator-', 'get', 'has_value', 'min', 'max',
              'operator bool'}
PURE_KINDS = {'DeclRefExpr', 'ImplicitCastExpr', 'ParenExpr', 'MemberExpr', 'IntegerLiteral', 'CXXBoolLiteralExpr',
              'CXXThisExpr', 'FloatingLiteral', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
              'MaterializeTemporaryExpr', 'CXXNullPtrLiteralExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr',
              'ArraySubscriptExpr', 'ConditionalOperator', 'ConstantExpr'}


def inner(n):
    return [x for x in n.get('inner', []) or [] if x.get('kind') is not None and not x['kind'].endswith('Comment')]


def is_pure(n):
    c = n.get('_pure')
    if c is not None:
        return c
    k = n['kind']
    if k in PURE_KINDS:
        r = True
    elif k == 'BinaryOperator':
        r = n['opcode'] not in ('=', ',')
    elif k == 'UnaryOperator':
        r = n['opcode'] in ('!', '-', '+', '*', '&', '~')
    elif k in ('CXXMemberCallExpr',):
        m = inner(n)[0]
        r = m.get('name') in PURE_CALLS
    elif k == 'CXXOperatorCallExpr':
        d = strip(inner(n)[0])
        r = d.get('referencedDecl', {}).get('name') in PURE_CALLS
    elif k == 'CallExpr':
        d = strip(inner(n)[0])
        r = d.get('referencedDecl', {}).get('name') in PURE_CALLS
    else:
        r = False
    r = r and all(is_pure(x) for x in inner(n))
    n['_pure'] = r
    return r


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                        'CXXBindTemporaryExpr', 'ConstantExpr') and inner(n):
        n = inner(n)[0]
    return n


class Interp(Ex):
    # ------------------------------------------------------------------ values
    def rv(self, x):
        if isinstance(x, LV):
            v = self.read(x)
            if v is None:
                raise Unsupported('read of uninitialised location')
            return v
        return x

    def E(self, n):
        """rvalue of expression"""
        return self.rv(self.ev(n))

    def lval(self, x, ty=None):
        if isinstance(x, LV):
            return x
        return self.new_cell(x, ty)

    def ev(self, n):
        if n.get('_l') is not None:
            self.line = n['_l']
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'])
        return m(n)

    def e_pass(self, n):
        return self.ev(inner(n)[0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_pass

    def e_MaterializeTemporaryExpr(self, n):
        x = self.ev(inner(n)[0])
        return self.lval(x, node_type(n))

    def e_IntegerLiteral(self, n):
        return iv(int(n['value']))

    def e_CharacterLiteral(self, n):
        return iv(int(n['value']))

    def e_FloatingLiteral(self, n):
        return z3.RealVal(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(n['value'])

    def e_StringLiteral(self, n):
        import json
        try:
            return VStr((json.loads(n['value']),))
        except Exception:
            return VStr((n['value'],))

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_CXXThisExpr(self, n):
        return self.frames[-1].this

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('bare default argument')

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('bare default init')

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        i = d['id']
        for fr in (self.frames[-1],):
            if i in fr.env:
                v = fr.env[i]
                return v
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return VFnDecl(i, d.get('name'))
        if d['kind'] == 'EnumConstantDecl':
            return self.enum_const(i, d)
        if i in self.globals:
            return self.globals[i]
        return self.global_var(i, d)

    def enum_const(self, i, d):
        n = self.ast.by_id.get(i)
        for x in inner(n or {}):
            if x['kind'] == 'ConstantExpr':
                return iv(int(x['value']))
        return self.ghost.setdefault(('enum', d['name']), z3.Int('enum_' + d['name']))

    def global_var(self, i, d):
        n = self.ast.by_id.get(i)
        ty = parse_type((d['type'].get('desugaredQualType') or d['type']['qualType']))
        if n is not None and 'const' in d['type']['qualType'] and inner(n):
            v = self.new_cell(self.E(inner(n)[0]), ty)
        else:
            v = self.new_cell(self.fresh_global(d, ty), ty)
        self.globals[i] = v
        return v

    def fresh_global(self, d, ty):
        try:
            return self.fresh_val(ty, 'g_' + d['name'])
        except Unsupported:
            return VOpaque(ty, 'global ' + d['name'])

    # ------------------------------------------------------------------ casts
    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    def e_CStyleCastExpr(self, n):
        return self.cast(n)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CStyleCastExpr

    def cast(self, n):
        k = n['castKind']
        x = self.ev(inner(n)[0])
        if k == 'LValueToRValue':
            return self.rv(x)
        if k in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase',
                 'UncheckedDerivedToBase', 'BaseToDerived', 'ArrayToPointerDecay', 'BitCast', 'Dependent'):
            if k in ('BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase'):
                return self.hook_cast(n, x)
            if k == 'BitCast' and isinstance(x, VBPtr):
                return x
            return x
        if k == 'NullToPointer':
            return NULL
        if k == 'ToVoid':
            return VOIDV
        x = self.rv(x)
        ty = node_type(n)
        if k in ('IntegralCast', 'BooleanToSignedIntegral'):
            if ty[0] == 'bool':
                return as_bool(x)
            return self.to_int(x, ty, node_type(inner(n)[0]))
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return as_bool(x)
        if k == 'IntegralToFloating':
            return self.to_float(x, n)
        if k == 'FloatingToIntegral':
            return as_int(x)
        if k == 'FloatingCast':
            return self.to_float(x, n)
        if k == 'PointerToIntegral':
            return self.ptr_int(x)
        raise Unsupported('cast %s' % k)

    def hook_cast(self, n, x):
        return x

    def ptr_int(self, x):
        if isinstance(x, VRef):
            return x.e
        return self.fresh('ptrint', I)

    def to_int(self, x, ty, sty):
        x = as_int(x)
        if ty[0] != 'int':
            return x
        bits, signed = ty[1], ty[2]
        if z3.is_int_value(x):
            c = x.as_long()
            if not signed:
                return iv(c % (2 ** bits))
            return x
        if not signed and sty[0] == 'int' and sty[2]:
            # signed -> unsigned: wraps when negative
            if self.valid(x >= 0):
                return x
            return z3.If(x >= 0, x, x + 2 ** bits)
        if sty[0] == 'int' and bits < sty[1]:
            # narrowing conversions keep the low bits
            lo, m = (-2 ** (bits - 1), 2 ** bits) if signed else (0, 2 ** bits)
            if self.valid(z3.And(x >= lo, x < lo + m)):
                return x
            return (x - lo) % m + lo
        return x

    def to_float(self, x, n):
        x = as_real(x)
        if n.get('type', {}).get('qualType', '').replace('const ', '') != 'float':
            return x
        # single precision rounds: nothing is known about the value except that small integers survive
        r = z3.Function('round32', R, R)(x)
        self.assume(z3.Implies(z3.And(x == z3.ToReal(z3.ToInt(x)), x <= 2 ** 24, x >= -2 ** 24), r == x))
        return r

    # ------------------------------------------------------------------ operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        s = inner(n)[0]
        if op in ('++', '--'):
            lv = self.ev(s)
            v = self.rv(lv)
            d = 1 if op == '++' else -1
            w = self.incr(v, d, node_type(n))
            self.write(lv, w)
            return v if n.get('isPostfix') else lv
        if op == '&':
            x = self.ev(s)
            if isinstance(x, LV):
                return self.addr_of(x)
            if isinstance(x, (VFnDecl, VNode)):
                return x
            raise Unsupported('address of rvalue')
        if op == '*':
            return self.deref(self.E(s))
        v = self.E(s)
        if op == '!':
            return z3.Not(as_bool(v))
        if op == '-':
            if z3.is_real(v):
                return -v
            return z3.simplify(-as_int(v)) if z3.is_int_value(as_int(v)) else -as_int(v)
        if op == '+':
            return v
        if op == '~':
            raise Unsupported('~')
        raise Unsupported('unary ' + op)

    def incr(self, v, d, ty):
        if isinstance(v, VBPtr):
            return VBPtr(v.cell, z3.simplify(v.off + d))
        if isinstance(v, VIter):
            return self.stl.iter_advance(self, v, d)
        if z3.is_real(v):
            return v + d
        if d < 0:
            return self.sub(as_int(v), iv(1), ty)
        return z3.simplify(as_int(v) + d)

    def addr_of(self, lv):
        if lv.path and lv.path[-1][0] == 'i':
            base = LV(lv.root, lv.path[:-1])
            b = self.read(base)
            if isinstance(b, VMem):
                return VBPtr(base.root[1], lv.path[-1][1])
            return VIter(base, lv.path[-1][1], 'buf')
        if lv.root[0] == 'h' and not lv.path:
            return VRef(lv.root[1], lv.root[2])
        return VPtr(lv)

    def deref(self, p):
        if isinstance(p, VPtr):
            if p.lv is None:
                self.prove(z3.BoolVal(False), 'safety.null-deref@%s' % self.line_tag(), kind='safety')
                raise PathEnd()
            return p.lv
        if isinstance(p, VBPtr):
            return self.mem_at(p, iv(0))
        if isinstance(p, VRef):
            self.safe(p.e != 0, 'null-deref')
            return LV(('h', p.cls, p.e))
        if isinstance(p, VIter):
            return self.stl.iter_deref(self, p)
        if isinstance(p, (VClosure, VFnDecl, VFn)):
            return p
        if isinstance(p, VNode):
            return p
        raise Unsupported('deref of %r' % (p,))

    def mem_at(self, p, idx):
        m = self.cells[p.cell]
        off = z3.simplify(p.off + idx)
        self.safe(z3.And(off >= 0, off < m.n), 'bounds.%s' % (m.name or 'buffer'))
        if m.freed is not False:
            self.safe(z3.Not(as_bool(m.freed)), 'use-after-free.%s' % (m.name or 'buffer'))
        return LV(('c', p.cell), (('i', off),))

    def e_ArraySubscriptExpr(self, n):
        a, b = inner(n)[:2]
        p = self.ev(a)
        pv = self.rv(p)
        i = as_int(self.E(b))
        if isinstance(pv, VBPtr):
            return self.mem_at(pv, i)
        if isinstance(pv, VIter):
            it = VIter(pv.lv, z3.simplify(pv.idx + i), pv.kind, pv.extra)
            return self.stl.iter_deref(self, it)
        if isinstance(pv, (VList, VVec)) and isinstance(p, LV):
            self.safe(z3.And(i >= 0, i < self.vlen(pv)), 'bounds.array')
            return p.i(i)
        if isinstance(pv, VList) and self.const_int(i) is not None:
            # an array handed on by its address, read only
            self.safe(z3.And(i >= 0, i < len(pv.items)), 'bounds.array')
            return pv.items[self.const_int(i)]
        raise Unsupported('subscript of %r' % (pv,))

    def sub(self, a, b, ty):
        """a - b in type ty (wrap-around for unsigned)"""
        d = z3.simplify(a - b)
        if ty[0] == 'int' and not ty[2]:
            if z3.is_int_value(d):
                return iv(d.as_long() % MAXU[ty[1]])
            if self.specmode:
                return d
            if self.valid(a >= b):
                return d
            if self.valid(a < b):
                return d + MAXU[ty[1]]
            return z3.If(a >= b, d, d + MAXU[ty[1]])
        return d

    def arith(self, op, a, b, ty):
        if isinstance(a, (VBPtr,)) or isinstance(b, VBPtr):
            return self.ptr_arith(op, a, b)
        if isinstance(a, VIter) or isinstance(b, VIter):
            return self.stl.iter_arith(self, op, a, b)
        real = (z3.is_real(a) if is_z3(a) else False) or (z3.is_real(b) if is_z3(b) else False)
        if real:
            a, b = as_real(a), as_real(b)
        else:
            a, b = as_int(a), as_int(b)
        if op == '+':
            return z3.simplify(a + b)
        if op == '-':
            return a - b if real else self.sub(a, b, ty)
        if op == '*':
            return a * b if not (z3.is_int_value(a) and z3.is_int_value(b)) else z3.simplify(a * b)
        if op == '/':
            if real:
                return a / b
            self.safe(b != 0, 'div-by-zero')
            return self.idiv(a, b, ty)
        if op == '%':
            self.safe(b != 0, 'mod-by-zero')
            if ty[0] == 'int' and not ty[2] or self.valid(z3.And(a >= 0, b > 0)):
                return a % b
            return a - b * self.idiv(a, b, ty)
        if op in ('<<', '>>'):
            c = self.const_int(b)
            if c is None:
                raise Unsupported('symbolic shift')
            return a * (2 ** c) if op == '<<' else self.idiv(a, iv(2 ** c), ty)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                c = self.const_int(y)
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return x % iv(c + 1)
            raise Unsupported('bitwise &')
        if op in ('|', '^'):
            raise Unsupported('bitwise ' + op)
        raise Unsupported('operator ' + op)

    def idiv(self, a, b, ty):
        if ty[0] == 'int' and not ty[2]:
            return a / b
        if self.valid(z3.And(a >= 0, b > 0)):
            return a / b
        q = z3.If(b > 0, a / b, -(a / (-b)))
        qn = z3.If(b > 0, -((-a) / b), ((-a) / (-b)))
        return z3.If(a >= 0, q, qn)

    def ptr_arith(self, op, a, b):
        if op == '+':
            if isinstance(b, VBPtr):
                a, b = b, a
            return VBPtr(a.cell, z3.simplify(a.off + as_int(b)))
        if op == '-':
            if isinstance(b, VBPtr):
                if b.cell != a.cell:
                    raise Unsupported('difference of pointers into different buffers')
                return a.off - b.off
            return VBPtr(a.cell, z3.simplify(a.off - as_int(b)))
        raise Unsupported('pointer ' + op)

    def compare(self, op, a, b):
        if op in ('==', '!='):
            e = self.equal(a, b)
            return e if op == '==' else z3.Not(e)
        if isinstance(a, VBPtr) and isinstance(b, VBPtr):
            if a.cell != b.cell:
                raise Unsupported('ordering of pointers into different buffers')
            a, b = a.off, b.off
        if isinstance(a, VIter):
            a, b = a.idx, b.idx
        if (is_z3(a) and z3.is_real(a)) or (is_z3(b) and z3.is_real(b)):
            a, b = as_real(a), as_real(b)
        else:
            a, b = as_int(a), as_int(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def equal(self, a, b):
        if is_z3(a) and is_z3(b):
            if z3.is_bool(a) and z3.is_bool(b):
                return a == b
            if z3.is_real(a) or z3.is_real(b):
                return as_real(a) == as_real(b)
            return as_int(a) == as_int(b)
        if isinstance(a, VNode) or isinstance(b, VNode):
            return self.node_equal(a, b)
        if isinstance(a, VRef) or isinstance(b, VRef):
            ea = a.e if isinstance(a, VRef) else (iv(0) if isinstance(a, VPtr) and a.lv is None else None)
            eb = b.e if isinstance(b, VRef) else (iv(0) if isinstance(b, VPtr) and b.lv is None else None)
            if ea is None or eb is None:
                return z3.BoolVal(False)
            return ea == eb
        if isinstance(a, VPtr) and isinstance(b, VPtr):
            if a.lv is None or b.lv is None:
                return z3.BoolVal(a.lv is None and b.lv is None)
            return z3.BoolVal(a.lv.key() == b.lv.key())
        if isinstance(a, VBPtr) and isinstance(b, VBPtr):
            return a.off == b.off if a.cell == b.cell else z3.BoolVal(False)
        if isinstance(a, (VBPtr, VPtr)) and isinstance(b, (VBPtr, VPtr)):
            return z3.BoolVal(False)
        if isinstance(a, VIter) and isinstance(b, VIter):
            return self.stl.iter_eq(self, a, b)
        if isinstance(a, (VClosure, VFn, VFnDecl)) and isinstance(b, VPtr):
            return z3.BoolVal(False)
        if isinstance(a, VStr) and isinstance(b, VStr):
            return self.stl.str_eq(self, a, b)
        if isinstance(a, (VVec, VList)) and isinstance(b, (VVec, VList)):
            return self.vec_eq(a, b)
        if isinstance(a, VPtr) and a.lv is None and isinstance(b, VOpaque) or isinstance(b, VPtr) and b.lv is None and isinstance(a, VOpaque):
            return z3.BoolVal(False)
        raise Unsupported('equality of %r and %r' % (a, b))

    def node_equal(self, a, b):
        raise Unsupported('node equality')

    def vec_eq(self, a, b):
        a, b = self.to_vvec(a), self.to_vvec(b)
        if len(a.leaves) != 1:
            raise Unsupported('deep vector equality')
        j = z3.Int('j!eq')
        return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), a.leaves[0][j] == b.leaves[0][j])))

    def vlen(self, v):
        if isinstance(v, VVec):
            return v.n
        if isinstance(v, VList):
            return iv(len(v.items))
        raise Unsupported('length of %r' % (v,))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = inner(n)[:2]
        if op == '=':
            v = self.E(r)
            lv = self.ev(l)
            ty = node_type(l)
            if ty[0] == 'real' and is_z3(v):
                v = as_real(v)
            self.write(lv, v)
            return lv
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op in ('&&', '||'):
            a = as_bool(self.E(l))
            s = z3.simplify(a)
            if op == '&&' and z3.is_false(s) or op == '||' and z3.is_true(s):
                return s
            if z3.is_true(s) or z3.is_false(s):
                return as_bool(self.E(r))
            if is_pure(r):
                g = a if op == '&&' else z3.Not(a)
                self.guards.append(g)
                try:
                    b = as_bool(self.E(r))
                    return z3.And(a, b) if op == '&&' else z3.Or(a, b)
                except (ForkNeeded, CppThrow, PathEnd):
                    pass
                finally:
                    self.guards.pop()
            if self.decide(a):
                return as_bool(self.E(r)) if op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if op == '&&' else as_bool(self.E(r))
        a = self.E(l)
        b = self.E(r)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, node_type(n))

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = inner(n)[:2]
        rvv = self.E(r)
        lv = self.ev(l)
        ty = node_type(l)
        v = self.arith(op, self.rv(lv), rvv, ty)
        if ty[0] == 'real':
            v = as_real(v)
        elif ty[0] == 'int' and z3.is_real(v):
            v = as_int(v)
        elif ty[0] == 'bool':
            v = as_bool(v)
        self.write(lv, v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = inner(n)[:3]
        cv = as_bool(self.E(c))
        s = z3.simplify(cv)
        if z3.is_true(s):
            return self.ev(a)
        if z3.is_false(s):
            return self.ev(b)
        if is_pure(a) and is_pure(b) and n.get('valueCategory') == 'prvalue':
            try:
                self.guards.append(cv)
                try:
                    x = self.E(a)
                finally:
                    self.guards.pop()
                self.guards.append(z3.Not(cv))
                try:
                    y = self.E(b)
                finally:
                    self.guards.pop()
                if is_z3(x) and is_z3(y):
                    if z3.is_real(x) or z3.is_real(y):
                        x, y = as_real(x), as_real(y)
                    elif z3.is_bool(x) != z3.is_bool(y):
                        x, y = as_int(x), as_int(y)
                    return z3.If(cv, x, y)
            except (ForkNeeded, CppThrow, PathEnd):
                pass
        return self.ev(a) if self.decide(cv) else self.ev(b)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType') or {}
        q = t.get('desugaredQualType') or t.get('qualType')
        if q is None:
            ty = node_type(inner(n)[0])
        else:
            ty = parse_type(q)
        return iv(self.sizeof(ty))

    def sizeof(self, ty):
        if ty[0] == 'int':
            return ty[1] // 8
        return {'bool': 1, 'real': 8, 'ptr': 8}.get(ty[0], 8)

    def e_CXXThrowExpr(self, n):
        ty = 'rethrow'
        if inner(n):
            t = node_type(inner(n)[0])
            ty = t[1] if t[0] == 'cls' else str(t)
        raise CppThrow(ty)

    def e_PredefinedExpr(self, n):
        return VStr(('__func__',))

    def e_SourceLocExpr(self, n):
        return VStr(('__loc__',))

    # ------------------------------------------------------------------ lambdas
    def e_LambdaExpr(self, n):
        ch = inner(n)
        rec = ch[0]
        body = None
        inits = []
        for x in ch[1:]:
            if x['kind'] == 'CompoundStmt':
                body = x
            elif body is None:
                inits.append(x)
        op = [x for x in rec['inner'] if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        if not op:
            raise Unsupported('generic lambda')
        params = [x for x in op[0].get('inner', []) if x.get('kind') == 'ParmVarDecl']
        fields = [x for x in rec['inner'] if x.get('kind') == 'FieldDecl']
        env, this = {}, self.frames[-1].this
        for f, ini in zip(fields, inits):
            ids = captured_id(ini)
            if ids == 'this':
                continue
            fty = f['type'].get('desugaredQualType') or f['type']['qualType']
            if fty.strip().endswith('&'):
                x = self.ev(ini)
                env[ids] = x if isinstance(x, LV) else self.lval(x)
            else:
                v = self.E(ini)
                env[ids] = self.new_cell(v, parse_type(fty))
        # enclosing-frame references to captured reference variables keep their ids; statics/globals resolve globally
        return VClosure(n, env, this, params, body)

    def call_value(self, f, args, node=None):
        f = self.rv(f)
        if isinstance(f, VFn):
            return f.call(self, args)
        if isinstance(f, VClosure):
            fr = Frame('lambda', f.this)
            fr.env.update(f.env)
            self.bind_params(fr, f.params, args)
            return self.run_body(fr, f.body, f.node['id'])
        if isinstance(f, VFnDecl):
            return self.call_decl(f.decl_id, f.name, f.this, args, node)
        if isinstance(f, VPtr) and f.lv is None:
            raise CppThrow('std::bad_function_call')
        if isinstance(f, VStruct):
            d = self.find_method(f.cls, 'operator()', len(args))
            if d is not None:
                return self.call_def(d, VPtr(self.lval(f)), args, node)
        return self.call_opaque(f, args, node)

    def call_opaque(self, f, args, node):
        raise Unsupported('call of %r' % (f,))

    def run_body(self, fr, body, site):
        self.frames.append(fr)
        self.callsites.append(site)
        if len(self.frames) > 60:
            raise Unsupported('recursion too deep (no contract)')
        try:
            self.stmt(body)
            return VOIDV
        except ReturnX as r:
            return r.v
        finally:
            self.frames.pop()
            self.callsites.pop()

    def bind_params(self, fr, params, args):
        for k, p in enumerate(params):
            ty = node_type(p)
            if k < len(args) and args[k] is not None:
                a = args[k]
            else:
                ini = inner(p)
                if not ini:
                    raise Unsupported('missing argument %s' % p.get('name'))
                self.frames.append(fr)
                try:
                    a = self.ev(ini[0])
                finally:
                    self.frames.pop()
            fr.env[p['id']] = self.bind(ty, a)

    def bind(self, ty, a):
        if ty[0] == 'ref':
            if isinstance(a, LV):
                return a
            if isinstance(a, VNode):
                return self.new_cell(a, ty[1])
            return self.new_cell(a, ty[1])
        v = self.rv(a)
        if ty[0] == 'real' and is_z3(v):
            v = as_real(v)
        return self.new_cell(v, ty)

    # ------------------------------------------------------------------ calls
    def args_of(self, nodes):
        out = []
        for a in nodes:
            if a['kind'] == 'CXXDefaultArgExpr':
                out.append(None)
            else:
                out.append(self.ev(a))
        return out

    def e_CallExpr(self, n):
        ch = inner(n)
        c = strip(ch[0])
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = c['referencedDecl']
            if c['referencedDecl']['name'] == '__assert_fail':
                if self.ghost.get('refuse'):
                    raise CppThrow('assertion')
                self.prove(z3.BoolVal(False), 'assert@%s' % self.line_tag(), kind='assert')
                raise PathEnd()
            args = self.args_of(ch[1:])
            return self.call_decl(d['id'], d['name'], None, args, n)
        f = self.ev(ch[0])
        return self.call_value(f, self.args_of(ch[1:]), n)

    def call_decl(self, did, name, this, args, n):
        d = self.ast.definition(did)
        q = self.ast.qual.get(did) or (d and d['_q'])
        if d is not None or (q and q in self.s.contracts):
            return self.call_def(d, this, args, n, q)
        return self.stl.call_free(self, name, args, n)

    def call_def(self, d, this, args, n, q=None):
        q = q or d['_q']
        c = self.s.contracts.get(q)
        if c is not None:
            r = c(self, this, args, n)
            if r is not NotImplemented:
                self.s.used_contracts.add(q)
                return r
        if d is None:
            raise Unsupported('no body and no contract for %s' % q)
        self.s.inlined.add(q)
        fr = Frame(q.replace('nnet::', ''), this)
        self.bind_params(fr, d['_params'], args)
        return self.run_body(fr, d['_body'], d['id'])

    def find_method(self, cls, name, nargs=None, sig=None, const=None):
        """most derived definition by name"""
        st = [cls]
        while st:
            c = st.pop(0)
            if self.ast.cls_node(c) is None:
                continue
            ms = self.ast.methods(c, name)
            ms = [m for m in ms if nargs is None or len([x for x in m.get('inner', []) if x.get('kind') == 'ParmVarDecl']) == nargs]
            if sig is not None and len(ms) > 1:
                ms2 = [m for m in ms if m['type']['qualType'] == sig]
                ms = ms2 or ms
            if const is not None and len(ms) > 1:
                ms = [m for m in ms if m['type']['qualType'].endswith('const') == const] or ms
            for m in ms:
                d = self.ast.definition(m['id'])
                if d is not None:
                    return d
                q = self.ast.qual.get(m['id'])
                if q in self.s.contracts:
                    return None
            st += self.ast.bases(c)
        return None

    def e_CXXMemberCallExpr(self, n):
        ch = inner(n)
        m = strip(ch[0])
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % m['kind'])
        base = inner(m)[0]
        name = m['name']
        mid = m.get('referencedMemberDecl')
        obj = self.ev(base)
        if m.get('isArrow'):
            pv = self.rv(obj)
            return self.member_call(pv, True, name, mid, ch[1:], n)
        return self.member_call(obj, False, name, mid, ch[1:], n)

    def member_call(self, obj, arrow, name, mid, argn, n):
        d = self.ast.definition(mid) if mid else None
        decl = self.ast.by_id.get(mid)
        q = self.ast.qual.get(mid)
        h = self.hook_member(obj, arrow, name, q, argn, n)
        if h is not NotImplemented:
            return h
        if q is not None or d is not None:
            if arrow:
                this = obj
                if isinstance(this, VPtr) and this.lv is None:
                    self.prove(z3.BoolVal(False), 'safety.null-call.%s' % name, kind='safety')
                    raise PathEnd()
            else:
                lv = self.lval(obj)
                this = self.addr_of(lv)
            d2, q2 = self.dispatch(this, name, d, decl, q)
            args = self.args_of(argn)
            return self.call_def(d2, this, args, n, q2)
        if arrow:
            lv = self.deref(obj)
        else:
            lv = obj if isinstance(obj, LV) else self.lval(obj)
        args = self.args_of(argn)
        return self.stl.call_method(self, lv, name, args, n)

    def hook_member(self, obj, arrow, name, q, argn, n):
        return NotImplemented

    def dispatch(self, this, name, d, decl, q):
        """virtual dispatch on the dynamic class of a known object"""
        if decl is not None and decl.get('virtual') or (d is not None and d.get('virtual')) or d is None:
            cls = self.dyn_class(this)
            if cls is not None:
                sig = (decl or d)['type']['qualType']
                np = len([x for x in (decl or d).get('inner', []) if x.get('kind') == 'ParmVarDecl'])
                m = self.find_method(cls, name, np, sig)
                if m is not None:
                    return m, m['_q']
        return d, q

    def dyn_class(self, this):
        if isinstance(this, VPtr) and this.lv is not None:
            v = self.read(this.lv)
            if isinstance(v, VStruct):
                return v.cls
        return None

    def e_CXXOperatorCallExpr(self, n):
        ch = inner(n)
        c = strip(ch[0])
        d = c.get('referencedDecl') or {}
        name = d.get('name')
        did = d.get('id')
        h = self.hook_operator(name, did, ch[1:], n)
        if h is not NotImplemented:
            return h
        df = self.ast.definition(did) if did else None
        q = self.ast.qual.get(did)
        if df is not None or q is not None:
            decl = df or self.ast.by_id.get(did)
            if decl['kind'] == 'CXXMethodDecl' or decl.get('_cls') and d.get('kind') == 'CXXMethodDecl':
                if self.is_lambda_call(decl):
                    return self.call_value(self.ev(ch[1]), self.args_of(ch[2:]), n)
                o = self.ev(ch[1])
                this = self.addr_of(self.lval(o))
                if df is None or df.get('virtual') or decl.get('virtual'):
                    df, q = self.dispatch(this, name, df, decl, q)
                if df is None and q not in self.s.contracts:
                    if name == 'operator=' :
                        v = self.rv(self.ev(ch[2]))
                        self.write(this.lv, v)
                        return this.lv
                    raise Unsupported('no definition of %s' % q)
                return self.call_def(df, this, self.args_of(ch[2:]), n, q)
            return self.call_decl(did, name, None, self.args_of(ch[1:]), n)
        if name == 'operator()':
            return self.call_value(self.ev(ch[1]), self.args_of(ch[2:]), n)
        return self.stl.call_operator(self, name, ch[1:], n)

    def hook_operator(self, name, did, argn, n):
        return NotImplemented

    def is_lambda_call(self, d):
        return d.get('_cls') is None and d.get('name') == 'operator()'

    def e_MemberExpr(self, n):
        b = inner(n)[0] if inner(n) else None
        name = n['name']
        if b is None:
            raise Unsupported('static member')
        x = self.ev(b)
        if n.get('isArrow'):
            p = self.rv(x)
            x = self.deref(p)
        mid = n.get('referencedMemberDecl')
        decl = self.ast.by_id.get(mid)
        if decl is not None and decl['kind'] == 'VarDecl':
            return self.global_var(mid, {'name': name, 'type': decl['type'], 'id': mid, 'kind': 'VarDecl'}) if mid not in self.globals else self.globals[mid]
        if isinstance(x, LV):
            if name == 'second' and x.root[0] == 'c':
                pv = self.read(x)
                if isinstance(pv, VStruct) and isinstance(pv.fields.get('second'), VLink):
                    return pv.fields['second'].lv
            return x.f(name)
        if isinstance(x, VStruct):
            if isinstance(x.fields[name], VLink):
                return x.fields[name].lv
            return x.fields[name]
        if isinstance(x, VNode):
            return self.node_field(x, name)
        x = self.lval(x)
        return x.f(name)

    def node_field(self, x, name):
        raise Unsupported('field %s of node' % name)

    # ------------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n):
        ty = node_type(n)
        return self.construct(ty, n, inner(n))

    def e_CXXTemporaryObjectExpr(self, n):
        return self.construct(node_type(n), n, inner(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.default_value(node_type(n))

    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(node_type(n))

    def e_CXXStdInitializerListExpr(self, n):
        x = self.E(inner(n)[0])
        if isinstance(x, VList):
            return x
        return x

    def e_InitListExpr(self, n):
        ty = node_type(n)
        items = [self.E(x) for x in inner(n)]
        if ty[0] == 'arr':
            return VList(ty[1], items)
        if ty[0] == 'cls' and self.ast.cls_node(ty[1]) is not None:
            fs = self.ast.fields(ty[1])
            return VStruct(self.ast.cls_name(ty[1]), {f['name']: v for f, v in zip(fs, items)})
        if ty[0] in ('int', 'bool', 'real', 'ptr'):
            return items[0] if items else self.default_value(ty)
        if ty[0] in ('opt', 'vec', 'pair'):
            return items[0]
        raise Unsupported('init list of %s' % (ty,))

    def construct(self, ty, n, argn):
        ct = n.get('ctorType', {}).get('qualType', '')
        if ty[0] == 'cls' and self.ast.cls_node(ty[1]) is not None:
            cls = self.ast.cls_name(ty[1])
            h = self.hook_construct(cls, ct, argn, n)
            if h is not NotImplemented:
                return h
            args = self.args_of(argn)
            return self.construct_cls(cls, ct, args, n)
        if ty[0] == 'cls' or ty[0] == 'fn':
            h = self.hook_construct(ty[1], ct, argn, n)
            if h is not NotImplemented:
                return h
        args = self.args_of(argn)
        return self.stl.construct(self, ty, args, n)

    def hook_construct(self, cls, ct, argn, n):
        return NotImplemented

    def construct_cls(self, cls, ct, args, n, into=None):
        key = cls + '::(ctor)'
        c = self.s.contracts.get(key)
        if c is not None:
            r = c(self, cls, args, n)
            if r is not NotImplemented:
                self.s.used_contracts.add(key)
                return r
        base = cls.split('<')[0].split('::')[-1]
        want = fn_sig(ct)
        cands = [m for m in self.ast.methods(cls) if m['kind'] == 'CXXConstructorDecl']
        sel = None
        for m in cands:
            if sig_match(m['type']['qualType'], ct):
                sel = m
                break
        d = self.ast.definition(sel['id']) if sel is not None else None
        if d is None:
            # implicit / defaulted
            if len(args) == 0:
                return self.default_object(cls)
            if len(args) == 1:
                v = self.rv(args[0])
                if isinstance(v, VStruct):
                    return v
                if isinstance(v, VNode):
                    return v
            raise Unsupported('constructor %s %s' % (cls, ct))
        lv = into or self.new_cell(VStruct(cls, {f['name']: None for f in self.ast.fields(cls)}), ('cls', cls))
        self.run_ctor(cls, d, lv, args, n)
        return self.read(lv) if into is None else None

    def run_ctor(self, cls, d, lv, args, n):
        self.s.inlined.add(d['_q'])
        fr = Frame(d['_q'].replace('nnet::', ''), VPtr(lv))
        self.bind_params(fr, d['_params'], args)
        self.frames.append(fr)
        self.callsites.append(d['id'])
        try:
            inits = [x for x in d.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
            done = set()
            delegating = False
            for i in inits:
                if 'anyInit' in i:
                    f = i['anyInit']
                    e = inner(i)[0] if inner(i) else None
                    fty = self.field_type(cls, f['name'])
                    if e is None or e['kind'] == 'CXXDefaultInitExpr':
                        self.default_field(cls, lv, f['name'])
                    else:
                        fld = lv.f(f['name'])
                        if fty and fty[0] == 'ref':
                            self.write(fld, VPtr(self.ev(e)))
                        else:
                            v = self.E(e)
                            if fty and fty[0] == 'real' and is_z3(v):
                                v = as_real(v)
                            self.write(fld, v)
                    done.add(f['name'])
                elif 'baseInit' in i:
                    t = i['baseInit']
                    b = parse_type(t.get('desugaredQualType') or t['qualType'])
                    if b == ('cls', cls) or self.ast.cls_name(b[1]) == cls:
                        delegating = True
                    e = strip(inner(i)[0])
                    self.base_init(lv, b, e)
                elif 'delegatingInit' in i:
                    delegating = True
                    e = strip(inner(i)[0])
                    self.base_init(lv, ('cls', cls), e)
                else:
                    raise Unsupported('ctor initializer')
            if d['_body'] is not None:
                self.stmt(d['_body'])
        except ReturnX:
            pass
        finally:
            self.frames.pop()
            self.callsites.pop()

    def base_init(self, lv, b, e):
        if self.ast.cls_node(b[1]) is None:
            return
        bc = self.ast.cls_name(b[1])
        if e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'):
            args = self.args_of(inner(e))
            ct = e.get('ctorType', {}).get('qualType', '')
            c = self.s.contracts.get(bc + '::(base)')
            if c is not None:
                r = c(self, VPtr(lv), args, e)
                if r is not NotImplemented:
                    self.s.used_contracts.add(bc + '::(base)')
                    return
            sel = None
            for m in self.ast.methods(bc):
                if m['kind'] == 'CXXConstructorDecl' and sig_match(m['type']['qualType'], ct):
                    sel = m
                    break
            d = self.ast.definition(sel['id']) if sel is not None else None
            if d is None:
                if not args:
                    for f in self.ast.fields(bc):
                        self.default_field(bc, lv, f['name'])
                    return
                v = self.rv(args[0])
                if isinstance(v, VStruct):
                    for f in self.ast.fields(bc):
                        self.write(lv.f(f['name']), v.fields[f['name']])
                    return
                raise Unsupported('base constructor %s' % bc)
            self.run_ctor(bc, d, lv, args, e)
            return
        raise Unsupported('base initialiser %s' % e['kind'])

    def default_field(self, cls, lv, name):
        for f in self.ast.fields(cls):
            if f['name'] == name:
                ini = [x for x in inner(f)]
                if not ini:
                    ini = self.default_init_of(cls, name)
                if ini:
                    v = self.E(ini[0])
                    self.write(lv.f(name), v)
                else:
                    try:
                        self.write(lv.f(name), self.default_value(node_type(f), False))
                    except Unsupported:
                        self.write(lv.f(name), None)

    def default_init_of(self, cls, name):
        """in-class initialiser from the template pattern (instantiations drop it)"""
        p = self.ast.classes.get('dep:' + cls.split('<')[0])
        if p is None:
            return []
        for x in p.get('inner', []):
            if x.get('kind') == 'FieldDecl' and x.get('name') == name:
                return inner(x)
        return []

    def default_object(self, cls):
        lv = self.new_cell(VStruct(cls, {f['name']: None for f in self.ast.fields(cls)}), ('cls', cls))
        for f in self.ast.fields(cls):
            self.default_field(cls, lv, f['name'])
        return self.read(lv)

    def default_value(self, ty, zero=True):
        k = ty[0]
        if k == 'int':
            return iv(0) if zero else self.fresh_val(ty, 'uninit')
        if k == 'bool':
            return z3.BoolVal(False) if zero else self.fresh('uninit', B)
        if k == 'real':
            return z3.RealVal(0) if zero else self.fresh('uninit', R)
        if k == 'ptr':
            return NULL if zero else None
        if k == 'vec':
            return VList(ty[1], []) if not self.scalar_elem(ty[1]) else self.empty_vec(ty[1])
        if k == 'opt':
            return VOpt(z3.BoolVal(False), None)
        if k == 'str':
            return VStr(())
        if k == 'pair':
            return VStruct('pair', {'first': self.default_value(ty[1]), 'second': self.default_value(ty[2])})
        if k == 'uset':
            return VSet(ty[1], z3.K(self.sorts(ty[1])[0], z3.BoolVal(False)))
        if k == 'pq':
            return VPQ(ty[1], z3.K(self.sorts(ty[1])[0], iv(0)))
        if k == 'umap':
            ks = self.sorts(ty[1])[0]
            return VMap(ty[1], ty[2], z3.K(ks, z3.BoolVal(False)),
                        [self.fresh('mapinit', z3.ArraySort(ks, s)) for s in self.sorts(ty[2])])
        if k == 'fn':
            return NULL
        if k == 'cls':
            if self.ast.cls_node(ty[1]) is not None:
                return self.construct_cls(self.ast.cls_name(ty[1]), 'void ()', [], None)
            return VOpaque(ty)
        if k == 'arr':
            return VList(ty[1], [self.default_value(ty[1], zero) for _ in range(ty[2])])
        raise Unsupported('default value of %s' % (ty,))

    def scalar_elem(self, ty):
        return ty[0] in ('int', 'bool', 'real')

    def empty_vec(self, ety):
        return VVec(ety, iv(0), [self.fresh('ev', z3.ArraySort(I, s)) for s in self.sorts(ety)])

    def e_CXXNewExpr(self, n):
        t = n['type'].get('desugaredQualType') or n['type']['qualType']
        ty = parse_type(t)[1]
        ch = inner(n)
        if n.get('isArray'):
            cnt = as_int(self.E(ch[0]))
            lv = self.new_cell(VMem(cnt, self.fresh('newarr', z3.ArraySort(I, self.sorts(ty)[0])), False, 'new[]', ty), ('mem', ty))
            self.ghost.setdefault('allocs', []).append(lv.root[1])
            return VBPtr(lv.root[1], iv(0))
        if ty[0] == 'cls' and self.ast.cls_node(ty[1]) is not None:
            e = strip(ch[-1]) if ch else None
            h = self.hook_new(self.ast.cls_name(ty[1]), e, n)
            if h is not NotImplemented:
                return h
        v = self.E(ch[-1]) if ch else self.default_value(ty, False)
        return VPtr(self.new_cell(v, ty))

    def hook_new(self, cls, e, n):
        return NotImplemented

    def e_CXXDeleteExpr(self, n):
        p = self.E(inner(n)[0])
        return self.delete(p, n)

    def delete(self, p, n):
        if isinstance(p, VPtr) and p.lv is None:
            return VOIDV
        if isinstance(p, VBPtr):
            m = self.cells[p.cell]
            self.safe(z3.And(z3.Not(as_bool(m.freed)), p.off == 0), 'delete[]')
            self.cells[p.cell] = VMem(m.n, m.arr, True, m.name, m.ety)
            return VOIDV
        return self.hook_delete(p, n)

    def hook_delete(self, p, n):
        raise Unsupported('delete of %r' % (p,))

    def e_CXXDynamicCastExpr(self, n):
        x = self.E(inner(n)[0])
        ty = node_type(n)
        return self.dyn_cast(x, ty, n)

    def dyn_cast(self, x, ty, n):
        if isinstance(x, VPtr):
            if x.lv is None:
                return NULL
            v = self.read(x.lv)
            if isinstance(v, VStruct):
                return x if self.ast.is_derived(v.cls, ty[1][1]) else NULL
        raise Unsupported('dynamic_cast of %r' % (x,))

    # ------------------------------------------------------------------ statements
    def stmt(self, n):
        if n.get('_l') is not None:
            self.line = n['_l']
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for x in inner(n):
            self.stmt(x)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in inner(n):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'CXXRecordDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration %s' % d['kind'])

    def vardecl(self, d):
        ty = node_type(d)
        ini = inner(d)
        env = self.frames[-1].env
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        if not ini:
            if ty[0] == 'cls' and self.ast.cls_node(ty[1]) is not None:
                env[d['id']] = self.new_cell(self.default_value(ty), ty)
            else:
                v = self.default_value(ty, ty[0] not in ('int', 'bool', 'real', 'ptr'))
                env[d['id']] = self.new_cell(v, ty)
            return
        if ty[0] == 'ref':
            x = self.ev(ini[0])
            env[d['id']] = x if isinstance(x, LV) else self.new_cell(x, ty[1])
            return
        v = self.E(ini[0])
        if ty[0] == 'real' and is_z3(v):
            v = as_real(v)
        elif ty[0] == 'int' and is_z3(v):
            v = as_int(v)
        env[d['id']] = self.new_cell(v, ty)

    def s_ReturnStmt(self, n):
        ch = inner(n)
        if not ch:
            raise ReturnX(VOIDV)
        x = self.ev(ch[0])
        # references may be returned as lvalues
        raise ReturnX(x)

    def s_IfStmt(self, n):
        ch = inner(n)
        if n.get('hasInit'):
            self.stmt(ch[0])
            ch = ch[1:]
        if n.get('hasVar'):
            self.stmt(ch[0])
            ch = ch[1:]
        if self.assert_idiom(n, ch):
            return
        c = as_bool(self.E(ch[0]))
        if self.decide(c):
            self.stmt(ch[1])
        elif n.get('hasElse'):
            self.stmt(ch[2])

    def assert_idiom(self, n, ch):
        return False

    def s_ForStmt(self, n):
        # JSON keeps empty slots as {} / missing kind
        raw = n.get('inner', [])
        init, var, cond, inc, body = (raw + [{}] * 5)[:5]
        if init.get('kind'):
            self.stmt(init)
        if var.get('kind'):
            self.stmt(var)
        self.run_loop(n['id'],
                      (lambda: as_bool(self.E(cond))) if cond.get('kind') else (lambda: z3.BoolVal(True)),
                      lambda: self.stmt(body),
                      (lambda: self.ev(inc)) if inc.get('kind') else None)

    def s_WhileStmt(self, n):
        ch = inner(n)
        if len(ch) == 3:
            decl = ch[0]

            def c():
                self.stmt(decl)
                return as_bool(self.E(ch[1]))
            self.run_loop(n['id'], c, lambda: self.stmt(ch[2]))
            return
        self.run_loop(n['id'], lambda: as_bool(self.E(ch[0])), lambda: self.stmt(ch[1]))

    def s_DoStmt(self, n):
        ch = inner(n)
        first = self.new_cell(z3.BoolVal(True), ('bool',))
        # do S while(c)  ==  S; while(c) S     (break/continue inside the first copy are handled)
        try:
            self.stmt(ch[0])
        except ContinueX:
            pass
        except BreakX:
            return
        self.run_loop(n['id'], lambda: as_bool(self.E(ch[1])), lambda: self.stmt(ch[0]))

    def s_BreakStmt(self, n):
        raise BreakX()

    def s_ContinueStmt(self, n):
        raise ContinueX()

    def s_CXXForRangeStmt(self, n):
        raw = n.get('inner', [])
        # init, range decl, begin, end, cond, inc, loop var, body
        rng = None
        for x in raw:
            if x.get('kind') == 'DeclStmt' and inner(x) and inner(x)[0].get('name', '').startswith('__range'):
                rng = inner(x)[0]
                break
        decls = [x for x in raw if x.get('kind') == 'DeclStmt']
        var = inner(decls[-1])[0]
        body = raw[-1]
        r = self.ev(inner(rng)[0])
        rl = self.lval(r, node_type(rng))
        self.stl.range_for(self, n, rl, var, body)

    def bind_loop_var(self, var, lv):
        ty = node_type(var)
        if ty[0] == 'ref':
            self.frames[-1].env[var['id']] = lv
        else:
            self.frames[-1].env[var['id']] = self.new_cell(self.read(lv) if isinstance(lv, LV) else lv, ty)

    def s_CXXTryStmt(self, n):
        raise Unsupported('try')

    def s_SwitchStmt(self, n):
        ch = inner(n)
        v = as_int(self.E(ch[0]))
        body = inner(ch[1])
        # collect case groups
        cases = []
        flat = []
        for x in body:
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                sub = inner(x)
                if x['kind'] == 'CaseStmt':
                    cases.append((as_int(self.E(sub[0])), len(flat)))
                    x = sub[1]
                else:
                    cases.append((None, len(flat)))
                    x = sub[0]
            flat.append(x)
        start = None
        for c, pos in cases:
            if c is not None and self.decide(v == c):
                start = pos
                break
        if start is None:
            for c, pos in cases:
                if c is None:
                    start = pos
        if start is None:
            return
        try:
            for x in flat[start:]:
                self.stmt(x)
        except BreakX:
            pass


def captured_id(n):
    if n['kind'] == 'CXXThisExpr':
        return 'this'
    if n['kind'] == 'DeclRefExpr':
        return n['referencedDecl']['id']
    for x in inner(n):
        r = captured_id(x)
        if r:
            return r
    return None


def norm_sig(q):
    q = q.replace('nnet::', '').replace('std::', '').replace('experimental::', '').replace('class ', '')
    q = re_sp(q)
    for a, b in (('unsigned long', 'size_t'),):
        q = q.replace(a, b)
    return [x.replace('const ', '').replace(' ', '') for x in fn_sig(q)]


def re_sp(q):
    import re
    q = re.sub(r'\s*noexcept(\([^)]*\))?', '', q)
    q = re.sub(r'\s*throw\(\)', '', q)
    return q


def sig_match(a, b):
    return norm_sig(a) == norm_sig(b)
