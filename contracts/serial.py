"""Serialised tensors (C18): message <-> tensor, leaf, file.

A message is (nbytes, data, allow, alloc): data[i] stands for the bytes 8i..8i+7 of its payload, so copying whole
elements is exact on bit patterns. The protobuf library is used through its contract: setters store, getters return
what was stored."""
from .leaf import *
from .leaf import CONTRACTS as LFC
from vc.engine import PathEnd

TU = 'serial_tu.cpp'
MSG = 'tenncor::tensor_proto'
U64 = S.U64


class VBytes:
    """payload of a message or a copy of it"""
    def __init__(self, nb, arr):
        self.nb, self.arr = nb, arr


def is_msg(v):
    return isinstance(v, VStruct) and v.cls == MSG


class SerialInterp(LeafInterp):
    def target(self, obj, arrow):
        if arrow:
            return self.deref(obj)
        return obj if isinstance(obj, LV) else self.lval(obj)

    def hook_member(self, obj, arrow, name, q, argn, n):
        if arrow and not isinstance(obj, VPtr) or (not arrow and not isinstance(obj, LV)):
            if isinstance(obj, VBytes):
                return self.bytes_method(obj, name)
            return NotImplemented
        if arrow and obj.lv is None:
            return NotImplemented
        lv = self.target(obj, arrow)
        try:
            v = self.read(lv)
        except Exception:
            return NotImplemented
        if isinstance(v, VBytes):
            return self.bytes_method(v, name)
        if is_msg(v):
            a = [self.rv(self.ev(x)) for x in argn]
            if name == 'set_data':
                if len(a) == 2:
                    p, nb = a
                    if not isinstance(p, VBPtr):
                        self.prove(z3.BoolVal(False), 'set_data: storage exists')
                        raise PathEnd()
                    m = self.cells[p.cell]
                    nb = as_int(nb)
                    self.safe(z3.Not(as_bool(m.freed)), 'use-after-free.message')
                    self.safe(z3.And(nb >= 0, p.off * 8 + nb <= m.n * 8), 'bounds.message')
                    self.write(lv.f('data'), VBytes(nb, self.shifted(m.arr, p.off)))
                else:
                    self.write(lv.f('data'), a[0])
                return VOIDV
            if name == 'data':
                return v.fields['data']
            if name in ('allow_shape', 'alloc_shape'):
                return lv.f(name)
            if name in ('mutable_allow_shape', 'mutable_alloc_shape'):
                return VPtr(lv.f(name[8:]))
            if name in ('add_allow_shape', 'add_alloc_shape'):
                f = lv.f(name[4:])
                return self.stl.call_method(self, f, 'push_back', [a[0]], n)
            if name in ('clear_allow_shape', 'clear_alloc_shape'):
                self.write(lv.f(name[6:]), VVec(U64, iv(0), [self.fresh('d', z3.ArraySort(I, I))]))
                return VOIDV
            raise Unsupported('message method ' + name)
        if q is None and isinstance(v, VVec) and name in ('Swap', 'Add', 'Get', 'Clear', 'Reserve', 'CopyFrom'):
            a = [self.ev(x) for x in argn]
            if name == 'Swap':
                o = self.deref(self.rv(a[0]))
                w = self.read(o)
                self.write(o, v)
                self.write(lv, w)
                return VOIDV
            if name == 'CopyFrom':
                self.write(lv, self.rv(a[0]))
                return VOIDV
            return self.stl.call_method(self, lv, {'Add': 'push_back', 'Get': 'at', 'Clear': 'clear', 'Reserve': 'reserve'}[name], a, n)
        return NotImplemented

    def shifted(self, arr, off):
        if z3.is_int_value(z3.simplify(off)) and z3.simplify(off).as_long() == 0:
            return arr
        b = self.fresh('bytes', z3.ArraySort(I, R))
        self.assume(z3.ForAll([J], b[J] == arr[J + off], patterns=[b[J]]))
        return b

    def bytes_method(self, v, name):
        if name in ('size', 'length'):
            return v.nb
        if name == 'empty':
            return v.nb == 0
        if name in ('c_str', 'data'):
            lv = self.new_cell(VMem(v.nb / 8, v.arr, False, 'payload'), ('mem', REAL))
            self.ghost.setdefault('payloads', []).append(lv.root[1])
            return VBPtr(lv.root[1], iv(0))
        raise Unsupported('payload method ' + name)

    def construct(self, ty, n, argn):
        if ty[0] in ('str', 'string') and len(argn) >= 1:
            v = self.rv(self.ev(argn[0]))
            if isinstance(v, VBytes):
                return v
        if ty[0] == 'cls' and 'RepeatedField' in ty[1]:
            return LeafInterp.construct(self, ('vec', U64), n, argn)
        return LeafInterp.construct(self, ty, n, argn)

    def default_value(self, ty, zero=True):
        if ty == ('cls', MSG):
            return empty_msg(self)
        return LeafInterp.default_value(self, ty, zero)


INTERP = SerialInterp


def empty_vec(ex):
    return VVec(U64, iv(0), [ex.fresh('d', z3.ArraySort(I, I))])


def empty_msg(ex):
    return VStruct(MSG, {'data': VBytes(iv(0), ex.fresh('nodata', z3.ArraySort(I, R))), 'allow_shape': empty_vec(ex), 'alloc_shape': empty_vec(ex)})


def any_msg(ex, nm='msg'):
    nb = ex.fresh(nm + '_bytes', I)
    ex.assume(nb >= 0)
    f = {'data': VBytes(nb, ex.fresh(nm + '_data', z3.ArraySort(I, R)))}
    for k in ('allow_shape', 'alloc_shape'):
        v = ex.fresh_val(('vec', U64), nm + '_' + k)
        ex.assume(v.n >= 0)
        ex.assume(z3.ForAll([J], v.leaves[0][J] >= 0, patterns=[v.leaves[0][J]]))
        f[k] = v
    return VStruct(MSG, f)


def same_vec(v, n, d):
    return z3.And(v.n == n, forall(0, n, lambda j: v.leaves[0][j] == d[j]))


def drop_payloads(ex):
    """strings that hold a copy of the payload release it themselves"""
    for c in ex.ghost.get('payloads', []):
        m = ex.cells[c]
        ex.cells[c] = VMem(m.n, m.arr, True, m.name, m.ety)


def read_msg(ex, dst, dc, msg, tag, two=False):
    """from_proto(msg) on the tensor: returns True/False as decided by the code"""
    ml = ex.new_cell(msg, ('cls', MSG))
    s0 = ex.read(dst)
    d0 = ex.cells[dc] if dc else None
    args = [ml] + ([ex.new_cell(ex.fresh_int('id'), U64)] if two else [])
    try:
        r = as_bool(call_ten(ex, dst, 'from_proto', args))
    except CppThrow:
        ex.prove(z3.BoolVal(two), tag + ': only an unknown allocator ends in an exception')
        drop_payloads(ex)
        kept(ex, dst, dc, s0, d0, tag + ' with an unknown allocator')
        raise PathEnd()
    drop_payloads(ex)
    m1 = ex.read(ml)
    ex.prove(z3.BoolVal(all(m1.fields[k] is msg.fields[k] for k in msg.fields)), tag + ': the message is not changed')
    return r, s0, d0


def call_ten(ex, lv, name, args):
    d = ex.ast.find(TEN + '::' + name, len(args), None)
    return ex.rv(ex.call_def(d, VPtr(lv), list(args), None))


def kept(ex, dst, dc, s0, d0, tag, moved=False):
    for f in ('alloc_shape_', 'allowed_shape_'):
        ex.prove(same_shape(ex, fld(ex, dst, f), s0.fields[f]), tag + ': shapes unchanged')
    raw = fld(ex, dst, 'raw_data_')
    ex.prove(isinstance(raw, VBPtr) == (dc is not None), tag + ': storage unchanged')
    if dc and isinstance(raw, VBPtr):
        data_eq(ex, raw.cell, d0.arr, d0.n, tag + ': elements unchanged')
    wf(ex, dst, tag)


def loaded(ex, dst, msg, tag):
    """the receiver holds exactly what the message says"""
    raw = wf(ex, dst, tag)
    n, d = dims_of(fld(ex, dst, 'alloc_shape_'))
    m, e = dims_of(fld(ex, dst, 'allowed_shape_'))
    al, aw = msg.fields['alloc_shape'], msg.fields['allow_shape']
    ex.prove(same_vec(al, n, d), tag + ': the shape is that of the message')
    ex.prove(same_vec(aw, m, e), tag + ': the allowed shape is that of the message')
    ex.prove(isinstance(raw, VBPtr), tag + ': the receiver has storage')
    if isinstance(raw, VBPtr):
        data_eq(ex, raw.cell, msg.fields['data'].arr, ex.cells[raw.cell].n, tag + ': every element is that of the message')
        ex.prove(compat_(n, d, m, e), tag + ': the shape satisfies the allowed shape')
    return raw


def g_from_proto(two):
    def run(ex):
        dst, dc = mk_tensor(ex, 'dst')
        TN.pre_inv(ex, dst, dc)
        msg = any_msg(ex)
        al, aw = msg.fields['alloc_shape'], msg.fields['allow_shape']
        tag = 'load'
        r, s0, d0 = read_msg(ex, dst, dc, msg, tag, two)
        n, d = al.n, al.leaves[0]
        fits = z3.And(alldef(n, d), msg.fields['data'].nb == 8 * prod(d, iv(0), n), compat_(n, d, aw.n, aw.leaves[0]))
        if ex.decide(r):
            ex.prove(fits, tag + ': accepted only when the data match a defined shape the allowed shape admits')
            loaded(ex, dst, msg, tag)
        else:
            ex.prove(z3.Not(fits), tag + ': refused only when the data do not match')
            kept(ex, dst, dc, s0, d0, tag + ' refused')
        live_others(ex, [dst], tag)
    return run


def live_others(ex, keep, tag):
    return TN.live_others(ex, keep, tag)


def g_serialize(ex):
    src, sc = mk_tensor(ex, 'src')
    TN.pre_inv(ex, src, sc)
    s0 = ex.read(src)
    arr = ex.cells[sc].arr if sc else None
    ml = ex.new_cell(any_msg(ex), ('cls', MSG))
    m0 = ex.read(ml)
    call_ten(ex, src, 'serialize', [VPtr(ml)])
    m = ex.read(ml)
    if sc is None:
        ex.prove(z3.BoolVal(all(m.fields[k] is m0.fields[k] for k in m.fields)), 'save: a tensor without storage writes nothing')
    else:
        n, d = dims_of(s0.fields['alloc_shape_'])
        w, e = dims_of(s0.fields['allowed_shape_'])
        ex.prove(same_vec(m.fields['alloc_shape'], n, d), 'save: the message has the shape')
        ex.prove(same_vec(m.fields['allow_shape'], w, e), 'save: the message has the allowed shape')
        ex.prove(m.fields['data'].nb == 8 * prod(d, iv(0), n), 'save: the message has the bytes of every element')
        ex.prove(forall(0, prod(d, iv(0), n), lambda j: m.fields['data'].arr[j] == arr[j]), 'save: the message has every element')
        data_eq(ex, sc, arr, ex.cells[sc].n, 'save: elements unchanged')
    for f in ('alloc_shape_', 'allowed_shape_'):
        ex.prove(same_shape(ex, fld(ex, src, f), s0.fields[f]), 'save: shapes unchanged')
    wf(ex, src, 'save')


def g_round(ex):
    """written and read back: the same shape and elements, whatever the receiver held"""
    src, sc = mk_tensor(ex, 'src', True)
    TN.pre_inv(ex, src, sc)
    s0 = ex.read(src)
    arr = ex.cells[sc].arr
    ml = ex.new_cell(empty_msg(ex), ('cls', MSG))
    call_ten(ex, src, 'serialize', [VPtr(ml)])
    msg = ex.read(ml)
    dst, dc = mk_tensor(ex, 'dst')
    TN.pre_inv(ex, dst, dc)
    r, _, _ = read_msg(ex, dst, dc, msg, 'round trip')
    ex.prove(r, 'round trip: a written tensor is accepted')
    for f in ('alloc_shape_', 'allowed_shape_'):
        ex.prove(same_shape(ex, fld(ex, dst, f), s0.fields[f]), 'round trip: same shapes')
    raw = wf(ex, dst, 'round trip')
    ex.prove(isinstance(raw, VBPtr), 'round trip: the receiver has storage')
    if isinstance(raw, VBPtr):
        n, d = dims_of(s0.fields['alloc_shape_'])
        data_eq(ex, raw.cell, arr, prod(d, iv(0), n), 'round trip: same elements')
    data_eq(ex, sc, arr, ex.cells[sc].n, 'round trip: the source is unchanged')
    live_others(ex, [src, dst], 'round trip')


def g_read_leaf(cls):
    def run(ex):
        lf, t, c = mk_leaf(ex, cls, 'v')
        msg = any_msg(ex)
        ml = ex.new_cell(msg, ('cls', MSG))
        s0, d0 = ex.read(t), (ex.cells[c] if c else None)
        i0 = ex.read(lf).fields['is_init_']
        before = snap(ex, lf)
        d = ex.ast.find('nnet::ileaf<double>::read_proto', 1, None)
        r = as_bool(ex.rv(ex.call_def(d, VPtr(lf), [ml], None)))
        drop_payloads(ex)
        tag = 'load leaf'
        if ex.decide(r):
            loaded(ex, t, msg, tag)
            ex.prove(as_bool(ex.read(lf).fields['is_init_']), tag + ': the leaf is initialised')
            notified(ex, lf, True, tag)
        else:
            kept(ex, t, c, s0, d0, tag + ' refused')
            ex.prove(as_bool(ex.read(lf).fields['is_init_']) == as_bool(i0), tag + ' refused: initialisation state unchanged')
            notified(ex, lf, False, tag + ' refused')
    return run


# ---------------------------------------------------------------- files
# A file is a partial map from keys to messages. Keys are "<label>:<number>" for the label at hand, so a key is its
# number (any other key is some other number no loop reaches). The protobuf library and the stream library are used
# through their contracts: parsing yields what was serialised, or fails; storing stores the map, or fails.
REPO_T = 'tenncor::repository'
MAPT = ('umap', ('int', 64, True), ('int', 64, True))
IB = z3.ArraySort(I, B)
val_ = z3.Function('value_of', I, I)        # the tensor a node evaluates to, 0 for none
ser_ = z3.Function('serialised', I, I)      # the message a tensor is written as
okp_ = z3.Function('accepts', I, I, B)      # whether a node accepts a message
nbad = z3.Function('unread', AII if 'AII' in globals() else z3.ArraySort(I, I), IB, z3.ArraySort(I, I), I, I)
register(nbad, lambda nd, has, ids, k: [z3.Implies(k <= 0, nbad(nd, has, ids, k) == 0),
                                        z3.Implies(k > 0, nbad(nd, has, ids, k) == nbad(nd, has, ids, k - 1) + z3.If(bad(nd, has, ids, k - 1), 1, 0)), nbad(nd, has, ids, k) >= 0])


def bad(nd, has, ids, k):
    return z3.Or(z3.Not(has[k]), z3.Not(okp_(nd[k], ids[k])))


class VSlot:
    def __init__(self, lv, k):
        self.lv, self.k = lv, k


class VFound:
    def __init__(self, lv, k):
        self.lv, self.k = lv, k


class VMapEnd:
    pass


class FileInterp(SerialInterp):
    def key(self, v):
        v = self.rv(v)
        parts = []
        for q in v.parts if isinstance(v, VStr) else ():
            if isinstance(q, str) and parts and isinstance(parts[-1], str):
                parts[-1] += q
            elif not (isinstance(q, str) and q == ''):
                parts.append(q)
        lab = self.ghost['label']
        if len(parts) == 3 and parts[0] is lab and parts[1] == ':' and is_z3(parts[2]):
            return as_int(parts[2])
        raise Unsupported('key of a message is not "<label>:<number>"')

    def default_value(self, ty, zero=True):
        if ty == ('cls', REPO_T):
            return VStruct(REPO_T, {'map': VMap(MAPT[1], MAPT[2], z3.K(I, z3.BoolVal(False)), [self.fresh('noid', z3.ArraySort(I, I))])})
        if ty == ('cls', MSG):
            return VStruct(MSG, {'id': self.fresh('empty_message', I)})
        return SerialInterp.default_value(self, ty, zero)

    def construct(self, ty, n, argn):
        if ty[0] == 'cls' and 'fstream' in ty[1]:
            if argn:
                f = self.rv(self.ev(argn[0]))
                self.prove(z3.BoolVal(isinstance(f, VStr) and f.parts == ('file',)), 'the named file is used')
            return VStruct('stream', {})
        if ty[0] == 'cls' and len(argn) == 1 and 'iterator' in ty[1]:
            return self.rv(self.ev(argn[0]))
        if ty[0] == 'cls' and ty[1] in (REPO_T, MSG) and not argn:
            return self.default_value(ty)
        return SerialInterp.construct(self, ty, n, argn)

    def call_decl(self, did, name, this, args, n):
        if name in ('VerifyVersion', 'ShutdownProtobufLibrary'):
            return VOIDV
        return SerialInterp.call_decl(self, did, name, this, args, n)

    def hook_operator(self, name, did, argn, n):
        if name == 'operator<<':
            return VOIDV
        if name in ('operator=', 'operator==', 'operator!=', 'operator->', 'operator[]', 'operator!'):
            if name == 'operator!':
                v = self.ev(argn[0])
                v = self.rv(v) if isinstance(v, LV) else v
                if isinstance(v, VStruct) and v.cls == 'stream':
                    return z3.Not(self.ghost['exists'])
                return NotImplemented
            t = argn[0].get('type', {}).get('qualType', '') + argn[0].get('type', {}).get('desugaredQualType', '')
            if not ('Map' in t or 'map' in t or 'tensor_proto' in t):
                return NotImplemented
            if name == 'operator[]':
                m = self.ev(argn[0])
                return VSlot(m, self.key(self.ev(argn[1])))
            if name == 'operator=':
                l = self.ev(argn[0])
                r = self.ev(argn[1])
                r = self.rv(r) if isinstance(r, LV) else r
                if isinstance(l, VSlot):
                    m = self.read(l.lv)
                    self.write(l.lv, VMap(m.kty, m.vty, z3.Store(m.has, l.k, z3.BoolVal(True)), [z3.Store(m.leaves[0], l.k, r.fields['id'])]))
                    return l
                self.write(l, r)
                return l
            a = [self.ev(x) for x in argn]
            a = [self.rv(x) if isinstance(x, LV) else x for x in a]
            if name == 'operator->':
                f = a[0]
                m = self.read(f.lv)
                self.safe(m.has[f.k], 'message exists')
                return VPtr(self.new_cell(VStruct('pair', {'first': VStr(('key',)), 'second': VStruct(MSG, {'id': m.leaves[0][f.k]})}), None))
            if len(a) == 2 and {type(x) for x in a} == {VFound, VMapEnd}:
                f = [x for x in a if isinstance(x, VFound)][0]
                has = self.read(f.lv).has[f.k]
                return z3.Not(has) if name == 'operator==' else has
        return NotImplemented

    def hook_member(self, obj, arrow, name, q, argn, n):
        x = self.rv(obj) if isinstance(obj, LV) else obj
        if isinstance(x, VPtr) and x.lv is not None:
            lv = x.lv
        elif isinstance(obj, LV):
            lv = obj
        else:
            return SerialInterp.hook_member(self, obj, arrow, name, q, argn, n)
        try:
            v = self.read(lv)
        except Exception:
            v = None
        if isinstance(v, VStruct) and v.cls == REPO_T:
            a = [self.ev(z) for z in argn]
            g = self.ghost
            if name in ('ParseFromIstream', 'MergeFromIstream'):
                if self.decide(z3.And(g['exists'], g['parsable'])):
                    self.write(lv, self.read(g['file']))
                    return z3.BoolVal(True)
                return z3.BoolVal(False)
            if name == 'SerializeToOstream':
                if self.choose(2):
                    g['stored'] = False
                    return z3.BoolVal(False)
                self.write(g['file'], v)
                g['stored'] = True
                return z3.BoolVal(True)
            if name == 'mutable_node_map':
                return VPtr(lv.f('map'))
            if name == 'node_map':
                return lv.f('map')
            raise Unsupported('repository method ' + name)
        if isinstance(v, VStruct) and v.cls == 'stream':
            for z in argn:
                self.ev(z)
            if name in ('is_open', 'good'):
                return self.ghost['exists']
            return VOIDV
        if isinstance(v, VMap):
            if name == 'find':
                return VFound(lv, self.key(self.ev(argn[0])))
            if name in ('end', 'cend'):
                return VMapEnd()
            if name in ('count', 'contains'):
                h = v.has[self.key(self.ev(argn[0]))]
                return z3.If(h, iv(1), iv(0)) if name == 'count' else h
            if name == 'at':
                k = self.key(self.ev(argn[0]))
                self.safe(v.has[k], 'message exists')
                return VStruct(MSG, {'id': v.leaves[0][k]})
        return SerialInterp.hook_member(self, obj, arrow, name, q, argn, n)


def c_node_eval(ex, this, args, node):
    return VRef(TEN, val_(as_ref(ex, this)))


def as_ref(ex, p):
    p = ex.rv(p)
    return p.e if isinstance(p, VRef) else iv(0)


def c_ser(ex, this, args, node):
    p = as_ref(ex, this)
    ex.prove(p != 0, 'only existing values are written')
    ex.write(ex.deref(ex.rv(args[0])), VStruct(MSG, {'id': ser_(p)}))
    return VOIDV


def c_read_proto(ex, this, args, node):
    """the node at index i takes the message with key i; ghost: whether index i0 was handled"""
    g = ex.ghost
    p = as_ref(ex, this)
    m = ex.rv(args[0])
    k = m.fields['id']
    v = ex.read(g['nodes'])
    ex.prove(z3.And(0 <= k, k < v.n, g['has'][k], z3.Select(g['vec0'], k) == p), 'every node is given the message stored under its own key')
    h = ex.read(g['hit'])
    ex.write(g['hit'], z3.If(k == g['i0'], h + 1, h))
    return okp_(p, k)


def file_state(ex, label):
    ex.ghost['label'] = label
    ex.ghost['exists'], ex.ghost['parsable'] = ex.fresh('file_exists', B), ex.fresh('file_parses', B)
    f = VStruct(REPO_T, {'map': VMap(MAPT[1], MAPT[2], ex.fresh('has', IB), [ex.fresh('ids', z3.ArraySort(I, I))])})
    ex.ghost['file'] = ex.new_cell(f, ('cls', REPO_T))
    return f


def run_file(ex, name, nodes, label):
    ds = [d for d in ex.ast.by_name.get('nnet::' + name, []) if d.get('_body') and not d.get('_dependent')]
    if not ds:
        raise Unsupported('%s not found' % name)
    d = ds[0]
    return as_bool(ex.rv(ex.call_def(d, None, [nodes, ex.new_cell(VStr((label,)), ('str',)), ex.new_cell(VStr(('file',)), ('str',))], None)))


def mk_nodes(ex):
    v = ex.fresh_val(('vec', ('ptr', ('cls', INO))), 'nodes')
    ex.assume(v.n >= 0)
    ex.assume(z3.ForAll([J], v.leaves[0][J] != 0, patterns=[v.leaves[0][J]]))
    return ex.new_cell(v, ('vec', ('ptr', ('cls', INO)))), v


def g_write(ex):
    label = ex.fresh('label', I)
    f0 = file_state(ex, label)
    lv, v = mk_nodes(ex)
    i0 = ex.fresh('i0', I)
    nd = v.leaves[0]
    ok0 = z3.And(ex.ghost['exists'], ex.ghost['parsable'])
    ex.ghost['wr'] = dict(nd=nd, i0=i0, ok0=ok0, has0=f0.fields['map'].has, id0=f0.fields['map'].leaves[0])
    r = run_file(ex, 'write_inorder', lv, label)
    m = ex.read(ex.ghost['file']).fields['map']
    st = ex.ghost.get('stored')
    h0, d0 = f0.fields['map'].has, f0.fields['map'].leaves[0]
    wr = z3.And(0 <= i0, i0 < v.n, val_(nd[i0]) != 0)
    if ex.decide(r):
        ex.prove(z3.BoolVal(st is True), 'save: success only when the file was stored')
        ex.prove(z3.Or(z3.Not(ex.ghost['exists']), ex.ghost['parsable']), 'save: an existing file that cannot be read is not overwritten')
        ex.prove(z3.Implies(wr, z3.And(m.has[i0], m.leaves[0][i0] == ser_(val_(nd[i0])))), 'save: every initialised node is stored under its own key')
        ex.prove(z3.Implies(z3.Not(wr), z3.And(m.has[i0] == z3.And(ok0, h0[i0]), z3.Implies(m.has[i0], m.leaves[0][i0] == d0[i0]))), 'save: everything else stored before is kept')
    elif st is None:
        ex.prove(z3.And(m.has == h0, m.leaves[0] == d0), 'save: failure before storing leaves the file alone')
    w = ex.read(lv)
    ex.prove(z3.And(w.n == v.n, w.leaves[0] == nd), 'save: the list of nodes is unchanged')


def t_write(L):
    ex = L.ex
    g = ex.ghost.get('wr')
    if not g:
        return
    for c, v in list(ex.cells.items()):
        if isinstance(v, VStruct) and v.cls == REPO_T and c != ex.ghost['file'].root[1]:
            i0, nd = g['i0'], g['nd']
            for kn, k in L.int_terms(True):
                def cell(c=c):
                    return ex.cells[c].fields['map']
                yield 'stored %s' % kn, lambda k=k, cell=cell: z3.Implies(z3.And(0 <= i0, i0 < k(), val_(nd[i0]) != 0), z3.And(cell().has[i0], cell().leaves[0][i0] == ser_(val_(nd[i0]))))
                yield 'kept %s' % kn, lambda k=k, cell=cell: z3.Implies(z3.Or(i0 < 0, i0 >= k(), val_(nd[i0]) == 0), z3.And(cell().has[i0] == z3.And(g['ok0'], g['has0'][i0]), z3.Implies(cell().has[i0], cell().leaves[0][i0] == g['id0'][i0])))
                yield 'at least %s' % kn, lambda k=k: k() >= 0


def g_read(ex):
    label = ex.fresh('label', I)
    f0 = file_state(ex, label)
    # messages are named by their keys
    ex.assume(z3.ForAll([J], f0.fields['map'].leaves[0][J] == J, patterns=[f0.fields['map'].leaves[0][J]]))
    lv, v = mk_nodes(ex)
    nd, has, ids = v.leaves[0], f0.fields['map'].has, f0.fields['map'].leaves[0]
    i0 = ex.fresh('i0', I)
    hit = ex.new_cell(iv(0), ('int', 64, False))
    ex.assume(z3.And(0 <= i0, i0 < v.n))
    ex.ghost.update(nodes=ex.new_cell(v, ('vec', ('ptr', ('cls', INO)))), has=has, vec0=nd, i0=i0, hit=hit)
    ex.ghost['rd'] = dict(nd=nd, has=has, ids=ids, i0=i0, hit=hit)
    r = run_file(ex, 'read_inorder', lv, label)
    w = ex.read(lv)
    ok = z3.And(ex.ghost['exists'], ex.ghost['parsable'])
    ex.prove(r == ok, 'load: success iff the file can be read')
    if ex.decide(r):
        ex.prove(ex.read(hit) == z3.If(has[i0], 1, 0), 'load: every node with a message takes it once')
        ex.prove(w.n == nbad(nd, has, ids, v.n), 'load: exactly the nodes not loaded are left in the list')
        induct(ex, 'unread grows', lambda k: nbad(nd, has, ids, k) >= nbad(nd, has, ids, i0 + 1), i0 + 1, v.n, pats=lambda k: [nbad(nd, has, ids, k)])
        ex.prove(z3.Implies(bad(nd, has, ids, i0), w.leaves[0][nbad(nd, has, ids, i0)] == nd[i0]), 'load: a node not loaded is left in the list, in order')
    else:
        ex.prove(ex.read(hit) == 0, 'load: an unreadable file loads nothing')
        ex.prove(z3.And(w.n == v.n, w.leaves[0] == nd), 'load: an unreadable file leaves the list alone')


def t_read(L):
    ex = L.ex
    g = ex.ghost.get('rd')
    if not g:
        return
    nd, has, ids, i0 = g['nd'], g['has'], g['ids'], g['i0']
    for kn, k in L.int_terms(True):
        yield 'at least %s' % kn, lambda k=k: k() >= 0
        yield 'hit %s' % kn, lambda k=k: ex.read(g['hit']) == z3.If(z3.And(i0 < k(), has[i0]), 1, 0)
        for nm, lv in L.vecs:
            if not L.is_mod(lv):
                continue
            yield 'left %s %s' % (nm, kn), lambda k=k, lv=lv: vec1(ex, ex.read(lv))[0] == nbad(nd, has, ids, k())
            yield 'order %s %s' % (nm, kn), lambda k=k, lv=lv: z3.Implies(z3.And(i0 < k(), bad(nd, has, ids, i0)), z3.And(nbad(nd, has, ids, i0) < nbad(nd, has, ids, k()), vec1(ex, ex.read(lv))[1][nbad(nd, has, ids, i0)] == nd[i0]))


CONTRACTS = dict(LFC)
USE = tuple(CONTRACTS)
o = {'use': USE, 'kw': {'batch': 400}}
CONTRACTS.update({'nnet::inode<double>::read_proto': c_read_proto, TEN + '::serialize': c_ser, INO + '::eval': lambda ex, this, args, node: c_node_eval(ex, this, args, node) if isinstance(ex.rv(this), VRef) else c_eval(ex, this, args, node)})
of = {'use': ('nnet::inode<double>::read_proto', TEN + '::serialize', INO + '::eval'), 'interp': FileInterp, 'kw': {'batch': 400}}
GOALS = {'C18': [
    ('tensor.serialize', g_serialize, [t_range], o),
    ('tensor.from_proto', g_from_proto(False), [t_range], o),
    ('tensor.from_proto(allocator)', g_from_proto(True), [t_range], o),
    ('write and read back', g_round, [t_range], o),
    ('variable.read_proto', g_read_leaf(VAR), [t_range], o),
    ('placeholder.read_proto', g_read_leaf(PLH), [t_range], o),
    ('write_inorder', g_write, [t_range, t_write], of),
    ('read_inorder', g_read, [t_range, t_read], of),
]}
