"""Deductive verifier: path-wise symbolic execution of clang's AST with contracts at calls,
inductive (Houdini-filtered, then *proved*) invariants at loops, obligations to z3 / cvc5."""
import time, os, subprocess
import z3
from .frontend import node_type, parse_type, fn_sig, norm_name, ExtractionError
from .values import *
from . import theory

z3.set_param('smt.auto_config', True)
MAXU = {8: 2 ** 8, 16: 2 ** 16, 32: 2 ** 32, 64: 2 ** 64, 128: 2 ** 128}
FACTOR = 1
T_QUICK = int(os.environ.get('VC_T1', '4000'))
T_SLOW = int(os.environ.get('VC_T2', '15000'))


class PathEnd(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, ty, val=None):
        self.ty, self.val = ty, val


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class LoopRestart(Exception):
    def __init__(self, depth):
        self.depth = depth


class ForkNeeded(Exception):
    pass


class AssertFail(Exception):
    """assert() whose condition is false on this path (abort)"""


class Obl:
    __slots__ = ('fn', 'name', 'status', 'backend', 'secs', 'detail', 'kind', 'path', 'model', 'line')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class LoopInfo:
    def __init__(self):
        self.havoc = {}
        self.cands = None
        self.dropped = set()


class Solver:
    """discharge with caching; z3 first, cvc5 second"""
    def __init__(self):
        self.cache = {}
        self.rounds = 2
        self.keep = []
        self.n = 0
        self.t = {'z3': 0.0, 'cvc5': 0.0}

    def check(self, pc, goal, quick=False):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', 'simplify', 0.0, None
        key = (frozenset(f.get_id() for f in pc), g.get_id(), quick)
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        res = self._check(pc, goal, quick)
        dt = time.time() - t0
        out = (res[0], res[1], dt, res[2])
        self.cache[key] = out
        self.keep.append((list(pc), g))
        self.n += 1
        return out

    def _check(self, pc, goal, quick):
        facts = list(pc)
        ng = z3.Not(goal)
        inst = theory.instances(facts + [ng], rounds=self.rounds)
        tried = []
        model = None
        def attempt(fs, opts, tmo):
            s = z3.SimpleSolver() if opts.get('simple') else z3.Solver()
            limit(s, tmo)
            if 'mbqi' in opts:
                s.set('mbqi', opts['mbqi'])
            for f in fs:
                s.add(f)
            s.add(ng)
            t0 = time.time()
            r = s.check()
            self.t['z3'] += time.time() - t0
            return r, s
        hasq = any(has_quant(f) for f in facts) or has_quant(goal)
        if not hasq:
            r, s = attempt(facts + inst, {}, T_QUICK if not quick else 1500)
            if r == z3.unsat:
                return 'proved', 'z3', None
            if r == z3.sat:
                try:
                    model = s.model()
                except z3.Z3Exception:
                    model = None
                return 'refuted', 'z3', model
        else:
            r, s = attempt(facts + inst, {'mbqi': False}, T_QUICK if not quick else 1500)
            if r == z3.unsat:
                return 'proved', 'z3', None
            if r == z3.sat:
                return 'refuted', 'z3', s.model()
        if quick:
            return 'unknown', 'z3', None
        # second back end
        r = self._cvc5(facts + inst, ng, T_SLOW if not hasq else T_SLOW)
        if r == 'unsat':
            return 'proved', 'cvc5', None
        r, s = attempt(facts + theory.instances(facts + [ng], rounds=4), {'simple': True}, T_SLOW)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        return 'unknown', 'z3+cvc5', candidate(s)

    def _cvc5(self, facts, ng, tmo):
        s = z3.Solver()
        for f in facts:
            s.add(f)
        s.add(ng)
        txt = s.to_smt2()
        txt = '(set-logic ALL)\n' + txt
        t0 = time.time()
        beat()
        try:
            p = subprocess.run([CVC5, '--tlimit=%d' % (tmo * FACTOR), '--lang=smt2', '-q'], input=txt.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo * FACTOR / 1000.0 + 5)
            out = p.stdout.decode().strip().split('\n')[0]
        except Exception:
            out = 'unknown'
        self.t['cvc5'] += time.time() - t0
        return out


HEART = None        # shared time of the last sign of life, watched by workers.run_jobs


def beat():
    if HEART is not None:
        HEART.value = time.time()


def limit(s, ms):
    """solver budget; a failed goal is run again with FACTOR raised, so that a busy machine does not decide a verdict"""
    s.set('timeout', int(ms * FACTOR))
    beat()


def candidate(s):
    try:
        return s.model()
    except z3.Z3Exception:
        return None


def _find_cvc5():
    for c in ('/usr/bin/cvc5', '/usr/local/bin/cvc5'):
        if os.path.exists(c):
            return c
    return 'cvc5'


CVC5 = _find_cvc5()
_hq = {}


def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None:
        return r[0]
    st, seen, r = [e], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _hq[k] = (r, e)
    return r


class Session:
    def __init__(self, ast, contracts=None, solver=None):
        self.ast = ast
        self.contracts = contracts or {}
        self.solver = solver or Solver()
        self.results = []          # Obl
        self.functions = {}        # verified function -> info
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.assumed = set()

    inputs = None
    bounded = None      # refutation mode: vectors of concrete length, loops unrolled, no contracts

    def model_inputs(self, o, cap=16):
        """values the failed obligation's model gives to the goal's inputs (vectors / scalars)"""
        out = {}
        m = o.model
        for name, (n, arr) in (self.inputs or {}).items():
            def num(t):
                v = m.eval(t, model_completion=True)
                try:
                    return v.as_long() if z3.is_int_value(v) else float(v.as_fraction()) if z3.is_rational_value(v) else 0
                except Exception:
                    return 0
            if arr is None:
                out[name] = [num(n)]
            else:
                k = max(0, min(num(n), cap))
                out[name] = [num(arr[i]) for i in range(k)]
        return out

    interp_cls = None

    def executor(self):
        if self.interp_cls is not None:
            return self.interp_cls
        from .interp import Interp
        return Interp

    def verify(self, fname, run, templates=(), max_paths=400, time_limit=240, expect_paths=1, batch=600, deep=True):
        """explore every path of run(ex); returns list of failed obligations"""
        self.batch, self.deep = batch, deep     # solver budget of a candidate invariant; second attempt for those over recursive functions
        self.loops, self.vac = {}, {}
        self.templates = list(templates)
        self.obl = {}
        self.cur = fname
        stack = [()]
        npaths = 0
        complete = 0
        t0 = time.time()
        err = None
        restarts = 0
        while stack:
            prefix = stack.pop()
            if npaths > max_paths * 6 or time.time() - t0 > time_limit:
                err = 'path/time budget exhausted (%d paths, %.0fs)' % (npaths, time.time() - t0)
                break
            ex = self.executor()(self, prefix, stack)
            npaths += 1
            try:
                run(ex)
                complete += 1
                ex.vacuity()
            except PathEnd:
                pass
            except LoopRestart as r:
                restarts += 1
                p = tuple(ex.decisions[:r.depth])
                stack[:] = [q for q in stack if q[:r.depth] != p]
                for k in [k for k in self.obl if k[0][:r.depth] == p]:
                    del self.obl[k]
                for k in [k for k in self.vac if k[0][:r.depth] == p]:
                    del self.vac[k]
                for k in [k for k in self.loops if len(k[1]) > r.depth and k[1][:r.depth] == p]:
                    pass
                stack.append(p)
            except AssertFail:
                ex.prove(z3.BoolVal(False), 'assertion-failure')
            except CppThrow as e:
                ex.prove(z3.BoolVal(False), 'no exception escapes (%s)' % e.ty)
        obl = list(self.obl.values())
        for where in {k[1] for k in self.vac}:
            if all(v for k, v in self.vac.items() if k[1] == where):
                obl.append(Obl(fn=fname, name='vacuity', status='unknown', backend='-', secs=0.0,
                               detail='every path through %s has contradictory hypotheses' % (where,), kind='vacuity'))
        if err is None and complete < expect_paths:
            obl.append(Obl(fn=fname, name='reachability', status='unknown', backend='-', secs=0.0,
                           detail='no execution path reaches the postcondition', kind='vacuity'))
        if err:
            obl.append(Obl(fn=fname, name='exploration', status='unknown', backend='-', secs=0.0, detail=err, kind='budget'))
        self.results += obl
        fl = [o for o in obl if o.status != 'proved']
        self.functions[fname] = dict(obligations=len(obl), discharged=len(obl) - len(fl), paths=npaths, complete=complete,
                                     restarts=restarts, secs=round(time.time() - t0, 2),
                                     loops=len(self.loops))
        return fl


# development aid: RV_VACUITY=1 asks for every loop body and every postcondition that its hypotheses are not contradictory
VACUITY = bool(os.environ.get('RV_VACUITY'))


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this, self.env = fn, this, {}


class Ex:
    """one execution path"""
    def __init__(self, session, prefix, stack):
        self.s = session
        self.ast = session.ast
        self.prefix = prefix
        self.stack = stack
        self.decisions = []
        self.cells = {}
        self.ctypes = {}
        self.heap = {}
        self.pc = []
        self.fs = z3.Solver()
        limit(self.fs, 300)
        self.ncell = 0
        self.nfresh = 0
        self.seq = 0
        self.frames = []
        self.loopstack = []
        self.callsites = []
        self.globals = {}
        self.ghost = {}
        self.trace = []
        self.line = None
        self.specmode = 0
        self.guards = []
        from . import stl
        self.stl = stl

    def input(self, name, n, arr=None):
        """register a goal input for counterexample replay"""
        if self.s.inputs is None:
            self.s.inputs = {}
        self.s.inputs[name] = (n, arr)

    # ------------------------------------------------------------ logic
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def fresh_int(self, name='n', lo=0):
        v = self.fresh(name, I)
        if lo is not None:
            self.assume(v >= lo)
        return v

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if self.guards:
            f = z3.Implies(z3.And(*self.guards), f)
        self.pc.append(f)
        if not has_quant(f) and not self.specmode:
            self.fs.add(f)

    def feasible(self, c):
        self.fs.push()
        self.fs.add(c)
        for f in theory.instances([c] + self.pc, rounds=1):
            self.fs.add(f)
        beat()
        r = self.fs.check()
        self.fs.pop()
        return r != z3.unsat

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.specmode or self.guards:
            raise ForkNeeded()
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if t and f:
                d = True
                self.stack.append(tuple(self.decisions) + (False,))
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd()
        self.decisions.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n, label='choice'):
        """non-deterministic choice among n alternatives (all explored)"""
        for k in range(n - 1):
            m = len(self.decisions)
            if m < len(self.prefix):
                d = self.prefix[m]
            else:
                d = True
                self.stack.append(tuple(self.decisions) + (False,))
            self.decisions.append(d)
            if d:
                return k
        return n - 1

    @property
    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def valid(self, goal, quick=True):
        return self.s.solver.check(self.pc + self.guards, goal, quick)[0] == 'proved'

    def batch_valid(self, goals, again=False):
        """validity of many candidate formulas under the current path condition (incremental solver)"""
        out = []
        s = z3.Solver()
        limit(s, self.s.batch)
        s.set('mbqi', False)
        pc = self.pc + self.guards
        for f in pc:
            s.add(f)
        base = theory.instances(pc)
        for f in base:
            s.add(f)
        seen = set(f.get_id() for f in base)
        pck = frozenset(f.get_id() for f in pc)
        t0 = time.time()
        for g in goals:
            beat()
            gs = z3.simplify(g)
            if z3.is_true(gs):
                out.append(True)
                continue
            if z3.is_false(gs):
                # only an impossible path proves this
                key = (pck, 'false', 'b')
                c = self.s.solver.cache.get(key)
                if c is None:
                    self.s.solver.cache[key] = c = s.check() == z3.unsat
                    self.s.solver.keep.append((pc, gs, g))
                out.append(c)
                continue
            key = (pck, gs.get_id(), 'b')
            c = self.s.solver.cache.get(key)
            if c is None:
                s.push()
                ng = z3.Not(g)
                for f in theory.instances([ng]):
                    if f.get_id() not in seen:
                        s.add(f)
                s.add(ng)
                r = s.check() == z3.unsat
                s.pop()
                if not r and again:
                    s2 = z3.Solver()        # a fresh solver sometimes succeeds where the incremental one gives up
                    limit(s2, self.s.batch)
                    s2.set('mbqi', False)
                    for f in pc + theory.instances(pc + [ng]):
                        s2.add(f)
                    s2.add(ng)
                    r = s2.check() == z3.unsat
                if not r and self.s.deep and theory.subapps(g):
                    r = self.s.solver.check(pc, g, True)[0] == 'proved'
                self.s.solver.cache[key] = c = r
                self.s.solver.keep.append((pc, gs, g))
            out.append(c)
        self.s.solver.t['z3'] += time.time() - t0
        return out

    def speculative(self, fn):
        """evaluate fn without obligations, forks or lasting effects; None if it needs a fork"""
        sv = (dict(self.cells), dict(self.ctypes), self.ncell, self.nfresh, len(self.pc), self.seq)
        self.specmode += 1
        try:
            return fn()
        except (ForkNeeded, CppThrow, LoopRestart):
            return None
        finally:
            self.specmode -= 1
            self.cells, self.ctypes, self.ncell, self.nfresh = sv[0], sv[1], sv[2], sv[3]
            del self.pc[sv[4]:]
            self.seq = sv[5]

    def prove(self, goal, name, kind='post', quick=False):
        """record + discharge a named obligation; afterwards it may be assumed"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.specmode:
            return True
        if self.replaying:
            self.assume(goal)
            return True
        st, be, dt, model = self.s.solver.check(self.pc + self.guards, goal, quick)
        self.seq += 1
        key = (tuple(self.decisions), self.seq, name)
        self.s.obl[key] = Obl(fn=self.s.cur, name=name, status=st, backend=be, secs=dt, kind=kind,
                              path=tuple(self.decisions), model=model, line=self.line,
                              detail=None if st == 'proved' else str(z3.simplify(goal))[:600])
        self.assume(goal)
        return st == 'proved'

    def safe(self, goal, name):
        """safety obligation (bounds, division, initialisation)"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(z3.simplify(goal)):
            return
        self.prove(goal, 'safety.%s@%s' % (name, self.line_tag()), kind='safety')

    def line_tag(self):
        return '%s' % (self.frames[-1].fn if self.frames else '?')

    def vacuity(self):
        if self.replaying:
            return
        st, be, dt, m = self.s.solver.check(self.pc, z3.BoolVal(False), True)
        if VACUITY:
            self.s.vac[(tuple(self.decisions), 'end')] = st == 'proved'
        if st == 'proved':
            # a path whose assumptions contradict each other: only an error when the ground part is consistent
            self.s.obl[(tuple(self.decisions), 10 ** 6, 'vacuity')] = Obl(
                fn=self.s.cur, name='path-infeasible', status='proved', backend=be, secs=dt, kind='vacuity-note')
            self.s.vacuous = getattr(self.s, 'vacuous', 0) + 1

    # ------------------------------------------------------------ memory
    def new_cell(self, val, ty=None):
        self.ncell += 1
        self.cells[self.ncell] = val
        self.ctypes[self.ncell] = ty
        return LV(('c', self.ncell))

    def type_of(self, lv):
        r = lv.root
        if r[0] == 'c':
            ty = self.ctypes.get(r[1])
        else:
            ty = ('cls', r[1])
        for k, x in lv.path:
            if ty is None:
                return None
            if k == 'f':
                if ty[0] == 'pair':
                    ty = ty[1] if x == 'first' else ty[2]
                elif ty[0] == 'cls':
                    ty = self.field_type(ty[1], x)
                elif ty[0] == 'opt':
                    ty = ty[1] if x == 'val' else ('bool',)
                else:
                    return None
            else:
                ty = ty[1] if ty[0] in ('vec', 'arr', 'mem') else (ty[2] if ty[0] == 'umap' else None)
        return ty

    def field_type(self, cls, name):
        if self.ast.cls_node(cls) is None:
            return None
        for f in self.ast.fields(cls):
            if f.get('name') == name:
                return node_type(f)
        return None

    def read(self, lv):
        r = lv.root
        path = lv.path
        if r[0] == 'c':
            v = self.cells[r[1]]
        else:
            if not path:
                raise Unsupported('whole heap object read %s' % r[1])
            v = self.heap_read(r[1], path[0][1], r[2])
            path = path[1:]
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k, x = p
        if k == 'f':
            if isinstance(v, VStruct):
                if x not in v.fields:
                    raise Unsupported('no field %s in %s' % (x, v.cls))
                return v.fields[x]
            if isinstance(v, VOpt) and x == 'val':
                return v.val
            raise Unsupported('field %s of %r' % (x, type(v)))
        if isinstance(v, VList):
            c = self.const_int(x)
            if c is None:
                v = self.to_vvec(v)
            else:
                if not (0 <= c < len(v.items)):
                    raise PathEnd()
                return v.items[c]
        if isinstance(v, VVec):
            return self.decode(v.ety, [z3.Select(a, x) for a in v.leaves])
        if isinstance(v, VMem):
            return z3.Select(v.arr, x)
        if isinstance(v, VMap):
            return self.decode(v.vty, [z3.Select(a, x) for a in v.leaves])
        raise Unsupported('index into %r' % type(v))

    def const_int(self, x):
        if isinstance(x, int):
            return x
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return None

    def write(self, lv, val):
        r = lv.root
        self.note_write(lv)
        if r[0] == 'c':
            self.cells[r[1]] = self.upd(self.cells[r[1]], lv.path, val)
        else:
            f = lv.path[0][1]
            old = self.heap_read(r[1], f, r[2]) if len(lv.path) > 1 else None
            self.heap_write(r[1], f, r[2], self.upd(old, lv.path[1:], val))

    def upd(self, v, path, val):
        if not path:
            return val
        k, x = path[0]
        if k == 'f':
            if isinstance(v, VOpt):
                return VOpt(v.has, self.upd(v.val, path[1:], val))
            return v.with_(x, self.upd(v.fields.get(x), path[1:], val))
        if isinstance(v, VList):
            c = self.const_int(x)
            if c is None:
                v = self.to_vvec(v)
            else:
                if not (0 <= c < len(v.items)):
                    raise PathEnd()
                it = list(v.items)
                it[c] = self.upd(it[c], path[1:], val)
                return VList(v.ety, it)
        if isinstance(v, VVec):
            if len(path) > 1:
                val = self.upd(self.decode(v.ety, [z3.Select(a, x) for a in v.leaves]), path[1:], val)
            lv = self.encode(v.ety, val)
            return VVec(v.ety, v.n, [z3.Store(a, x, l) for a, l in zip(v.leaves, lv)])
        if isinstance(v, VMem):
            return VMem(v.n, z3.Store(v.arr, x, as_real(val) if v.ety[0] == 'real' else val), v.freed, v.name, v.ety)
        if isinstance(v, VMap):
            if len(path) > 1:
                val = self.upd(self.decode(v.vty, [z3.Select(a, x) for a in v.leaves]), path[1:], val)
            lv = self.encode(v.vty, val)
            return VMap(v.kty, v.vty, v.has, [z3.Store(a, x, l) for a, l in zip(v.leaves, lv)])
        raise Unsupported('write into %r' % type(v))

    # field-wise heap of symbolic references
    def heap_leaves(self, cls, field):
        cls, fty = self.heap_field(cls, field)
        key = (cls, field)
        if key not in self.heap:
            sorts = self.sorts(fty)
            self.heap[key] = [z3.Const('H_%s_%s_%d' % (cls, field, i), z3.ArraySort(I, s)) for i, s in enumerate(sorts)]
        return key, fty, self.heap[key]

    def heap_field(self, cls, field):
        """class that actually declares the field"""
        st = [cls]
        while st:
            c = st.pop()
            n = self.ast.cls_node(c)
            if n is None:
                continue
            for x in n.get('inner', []):
                if x.get('kind') == 'FieldDecl' and x.get('name') == field:
                    return self.ast.cls_name(c), node_type(x)
            st += self.ast.bases(c)
        raise Unsupported('heap field %s::%s' % (cls, field))

    def heap_read(self, cls, field, ref):
        key, fty, leaves = self.heap_leaves(cls, field)
        return self.decode(fty, [z3.Select(a, ref) for a in leaves])

    def heap_write(self, cls, field, ref, val):
        key, fty, leaves = self.heap_leaves(cls, field)
        enc = self.encode(fty, val)
        self.heap[key] = [z3.Store(a, ref, l) for a, l in zip(leaves, enc)]

    # ------------------------------------------------------------ flattening
    def sorts(self, ty):
        k = ty[0]
        if k == 'int':
            return [I]
        if k == 'bool':
            return [B]
        if k == 'real':
            return [R]
        if k in ('ptr', 'str', 'fn'):
            return [I]
        if k == 'vec':
            return [I] + [z3.ArraySort(I, s) for s in self.sorts(ty[1])]
        if k == 'opt':
            return [B] + self.sorts(ty[1])
        if k == 'pair':
            return self.sorts(ty[1]) + self.sorts(ty[2])
        if k == 'uset':
            return [z3.ArraySort(self.sorts(ty[1])[0], B)]
        if k == 'pq':
            return [z3.ArraySort(self.sorts(ty[1])[0], I)]
        if k == 'umap':
            ks = self.sorts(ty[1])[0]
            return [z3.ArraySort(ks, B)] + [z3.ArraySort(ks, s) for s in self.sorts(ty[2])]
        if k == 'cls':
            if self.ast.cls_node(ty[1]) is None:
                raise Unsupported('cannot flatten type %s' % (ty,))
            out = []
            for f in self.ast.fields(ty[1]):
                out += self.sorts(node_type(f))
            return out
        raise Unsupported('cannot flatten type %s' % (ty,))

    def encode(self, ty, v):
        k = ty[0]
        if k == 'int':
            return [as_int(v)]
        if k == 'bool':
            return [as_bool(v)]
        if k == 'real':
            return [as_real(v)]
        if k in ('ptr', 'str', 'fn'):
            if isinstance(v, VRef):
                return [v.e]
            if v is NULL or (isinstance(v, VPtr) and v.lv is None):
                return [iv(0)]
            if is_z3(v):
                return [v]
            raise Unsupported('cannot encode %r' % (v,))
        if k == 'vec':
            v = self.to_vvec(v)
            return [v.n] + v.leaves
        if k == 'opt':
            if v.val is None:
                return [v.has] + [self.fresh('undef', s) for s in self.sorts(ty[1])]
            return [v.has] + self.encode(ty[1], v.val)
        if k == 'pair':
            return self.encode(ty[1], v.fields['first']) + self.encode(ty[2], v.fields['second'])
        if k == 'uset':
            return [v.has]
        if k == 'pq':
            return [v.cnt]
        if k == 'umap':
            return [v.has] + list(v.leaves)
        if k == 'cls':
            out = []
            for f in self.ast.fields(ty[1]):
                out += self.encode(node_type(f), v.fields[f['name']])
            return out
        raise Unsupported('cannot encode %s' % (ty,))

    def decode(self, ty, ls):
        v, rest = self._decode(ty, list(ls))
        return v

    def _decode(self, ty, ls):
        k = ty[0]
        if k in ('int', 'bool', 'real', 'str', 'fn'):
            return ls[0], ls[1:]
        if k == 'ptr':
            return VRef(ty[1][1] if ty[1][0] == 'cls' else str(ty[1]), ls[0]), ls[1:]
        if k == 'vec':
            n = len(self.sorts(ty[1]))
            return VVec(ty[1], ls[0], ls[1:1 + n]), ls[1 + n:]
        if k == 'opt':
            v, r = self._decode(ty[1], ls[1:])
            return VOpt(ls[0], v), r
        if k == 'pair':
            a, r = self._decode(ty[1], ls)
            b, r = self._decode(ty[2], r)
            return VStruct('pair', {'first': a, 'second': b}), r
        if k == 'uset':
            return VSet(ty[1], ls[0]), ls[1:]
        if k == 'pq':
            return VPQ(ty[1], ls[0]), ls[1:]
        if k == 'umap':
            n = len(self.sorts(ty[2]))
            return VMap(ty[1], ty[2], ls[0], ls[1:1 + n]), ls[1 + n:]
        if k == 'cls':
            d = {}
            for f in self.ast.fields(ty[1]):
                d[f['name']], ls = self._decode(node_type(f), ls)
            return VStruct(self.ast.cls_name(ty[1]), d), ls
        raise Unsupported('cannot decode %s' % (ty,))

    def to_vvec(self, v):
        if isinstance(v, VVec):
            return v
        if isinstance(v, VList):
            sorts = self.sorts(v.ety)
            arrs = [self.fresh('lst', z3.ArraySort(I, s)) for s in sorts]
            for k, it in enumerate(v.items):
                for j, l in enumerate(self.encode(v.ety, it)):
                    arrs[j] = z3.Store(arrs[j], iv(k), l)
            return VVec(v.ety, iv(len(v.items)), arrs)
        raise Unsupported('not a vector %r' % (v,))

    def fresh_val(self, ty, name='v'):
        """arbitrary value of a type, with the type's range facts assumed"""
        k = ty[0]
        if k == 'int':
            v = self.fresh(name, I)
            if not ty[2]:
                self.assume(v >= 0)
            return v
        if k == 'bool':
            return self.fresh(name, B)
        if k == 'real':
            return self.fresh(name, R)
        if k == 'vec':
            ls = [self.fresh(name, z3.ArraySort(I, s)) for s in self.sorts(ty[1])]
            n = self.fresh_int(name + '_n') if self.s.bounded is None else iv(self.choose(self.s.bounded + 1))
            vv = VVec(ty[1], n, ls)
            self.range_facts(vv)
            return vv
        if k == 'opt':
            return VOpt(self.fresh(name, B), self.fresh_val(ty[1], name))
        if k == 'pair':
            return VStruct('pair', {'first': self.fresh_val(ty[1], name), 'second': self.fresh_val(ty[2], name)})
        if k == 'cls' and self.ast.cls_node(ty[1]) is not None:
            return VStruct(self.ast.cls_name(ty[1]), {f['name']: self.fresh_val(node_type(f), name + '_' + f['name'])
                                                      for f in self.ast.fields(ty[1])})
        if k == 'ptr':
            return VRef(ty[1][1] if ty[1][0] == 'cls' else str(ty[1]), self.fresh(name, I))
        if k == 'uset':
            return VSet(ty[1], self.fresh(name, self.sorts(ty)[0]))
        if k == 'umap':
            ss = self.sorts(ty)
            ls = [self.fresh(name, s) for s in ss]
            return VMap(ty[1], ty[2], ls[0], ls[1:])
        if k == 'str':
            return VStr((self.fresh(name, I),))
        raise Unsupported('fresh value of %s' % (ty,))

    def range_facts(self, v):
        """unsigned elements are non-negative"""
        if isinstance(v, VVec):
            if v.ety[0] == 'int' and not v.ety[2]:
                j = z3.Int('j!r')
                self.assume(z3.ForAll([j], z3.Select(v.leaves[0], j) >= 0, patterns=[z3.Select(v.leaves[0], j)]))
        elif isinstance(v, VStruct):
            for x in v.fields.values():
                self.range_facts(x)

    def fresh_like(self, v, ty, name='h', elems_only=False):
        if is_z3(v):
            s = v.sort()
            w = self.fresh(name, s)
            if s == I and (ty is None or ty[0] != 'int' or not ty[2]):
                if ty is not None and ty[0] == 'int':
                    self.assume(w >= 0)
            return w
        if isinstance(v, VVec):
            ls = [self.fresh(name, a.sort()) for a in v.leaves]
            n = v.n if elems_only else self.fresh_int(name + '_n')
            w = VVec(v.ety, n, ls)
            self.range_facts(w)
            return w
        if isinstance(v, VList):
            if elems_only:
                return VList(v.ety, [self.fresh_like(x, v.ety, name) for x in v.items])
            return self.fresh_like(self.to_vvec(v), ty, name, elems_only)
        if isinstance(v, VMem):
            return VMem(v.n, self.fresh(name, v.arr.sort()), v.freed, v.name, v.ety)
        if isinstance(v, VStruct):
            return VStruct(v.cls, {k: self.fresh_like(x, self.field_ty(v.cls, ty, k), name) for k, x in v.fields.items()})
        if isinstance(v, VOpt):
            if v.val is None:
                return VOpt(self.fresh(name, B), self.fresh_val(ty[1], name))
            return VOpt(self.fresh(name, B), self.fresh_like(v.val, ty[1] if ty else None, name))
        if isinstance(v, VBPtr):
            return VBPtr(v.cell, self.fresh(name, I))
        if isinstance(v, VIter):
            if v.kind in ('vec', 'buf', 'mapseq'):
                return VIter(v.lv, self.fresh(name, I), v.kind, v.extra)
            raise Unsupported('havoc of a %s iterator' % v.kind)
        if isinstance(v, VRef):
            return VRef(v.cls, self.fresh(name, I))
        if isinstance(v, VSet):
            return VSet(v.kty, self.fresh(name, v.has.sort()))
        if isinstance(v, VMap):
            return VMap(v.kty, v.vty, self.fresh(name, v.has.sort()), [self.fresh(name, a.sort()) for a in v.leaves])
        if isinstance(v, VPQ):
            w = self.fresh(name, v.cnt.sort())
            j = z3.Const('k!r', w.sort().domain())
            self.assume(z3.ForAll([j], w[j] >= 0, patterns=[w[j]]))
            return VPQ(v.ety, w)
        if isinstance(v, VStr):
            return VStr((self.fresh(name, I),))
        if v is None and ty is not None:
            return self.fresh_val(ty, name)
        raise Unsupported('cannot havoc %r' % (v,))

    def field_ty(self, cls, ty, k):
        if ty and ty[0] == 'pair':
            return ty[1] if k == 'first' else ty[2]
        if cls == 'pair':
            return None
        return self.field_type(cls, k)

    # ------------------------------------------------------------ loops
    def note_write(self, lv):
        if self.specmode:
            return
        for L in self.loopstack:
            if lv.root[0] == 'c':
                if lv.root[1] > L.maxcell:
                    continue
                root = ('c', lv.root[1])
            else:
                root = ('h', self.heap_field(lv.root[1], lv.path[0][1])[0], lv.path[0][1])
            path, mode = [], 'whole'
            if root[0] == 'c':
                for k, x in lv.path:
                    if k == 'i':
                        mode = 'elems'
                        break
                    path.append(x)
            key = (root, tuple(path))
            old = L.info.havoc.get(key)
            if old is None and any(L.info.havoc.get((root, tuple(path[:n]))) == 'whole' for n in range(len(path))):
                continue
            if old == 'whole' or old == mode:
                continue
            L.info.havoc[key] = mode
            L.info.cands = None
            raise LoopRestart(L.depth)

    def run_loop(self, node_key, cond, body, step=None, hidden=()):
        """cond/body/step: callables.  hidden: extra LVs (range-for index)"""
        if self.s.bounded is not None:
            for _ in range(16):
                if not self.decide(cond()):
                    return
                try:
                    body()
                except ContinueX:
                    pass
                except BreakX:
                    return
                if step:
                    step()
            raise PathEnd()
        key = ((tuple(self.callsites), node_key), tuple(self.decisions))
        # concrete unrolling when the guard is decided by constants alone
        for unroll in range(200):
            cs = self.speculative(cond)
            if cs is None:
                break
            cs = z3.simplify(cs) if not isinstance(cs, bool) else z3.BoolVal(cs)
            if z3.is_false(cs):
                cond()
                return
            if not z3.is_true(cs):
                break
            cond()
            try:
                body()
            except ContinueX:
                pass
            except BreakX:
                return
            if step:
                step()
        else:
            raise Unsupported('unbounded constant loop')
        key = ((tuple(self.callsites), node_key), tuple(self.decisions))
        info = self.s.loops.setdefault(key, LoopInfo())
        L = LoopCtx(self, info, hidden)
        L.depth = len(self.decisions)
        L.maxcell = self.ncell
        if info.cands is None:
            L.collect()
            cands = []
            seen = set()
            for t in self.s.templates:
                for nm, fn in t(L):
                    if nm not in seen and nm not in info.dropped:
                        seen.add(nm)
                        cands.append((nm, fn))
            fs = []
            for nm, fn in cands:
                try:
                    f = fn()
                except (Unsupported, AttributeError):
                    continue
                if f is not None:
                    fs.append((nm, fn, f))
            ok = self.batch_valid([f for _, _, f in fs])
            keep = [(nm, fn) for (nm, fn, f), v in zip(fs, ok) if v]
            info.cands = [nm for nm, fn in keep]
            alive = keep
        else:
            L.collect()
            names = set(info.cands)
            alive, seen = [], set()
            for t in self.s.templates:
                for nm, fn in t(L):
                    if nm in names and nm not in seen:
                        seen.add(nm)
                        alive.append((nm, fn))
        L.do_havoc()
        for nm, fn in alive:
            f = fn()
            if f is not None:
                self.assume(f)
        self.loopstack.append(L)
        c = cond()
        if self.decide(c):
            try:
                body()
            except ContinueX:
                pass
            except BreakX:
                self.loopstack.remove(L)
                return
            if step:
                step()
            self.loopstack.remove(L)
            if not self.replaying:
                fs = [(nm, fn()) for nm, fn in alive]
                fs = [(nm, f) for nm, f in fs if f is not None]
                ok = self.batch_valid([f for _, f in fs], True)
                bad = [nm for (nm, f), v in zip(fs, ok) if not v]
                if bad:
                    bs = set(bad)
                    info.cands = [n for n in info.cands if n not in bs]
                    info.dropped.update(bad)
                    raise LoopRestart(L.depth)
                if VACUITY:
                    self.s.vac[(tuple(self.decisions), node_key)] = self.s.solver.check(self.pc, z3.BoolVal(False), True)[0] == 'proved'
                for nm, fn in alive:
                    self.seq += 1
                    self.s.obl[(tuple(self.decisions), self.seq, 'inv:' + nm)] = Obl(
                        fn=self.s.cur, name='loop-invariant.' + nm, status='proved', backend='z3', secs=0.0, kind='invariant')
            raise PathEnd()
        self.loopstack.remove(L)
        return


class LoopCtx:
    def __init__(self, ex, info, hidden):
        self.ex, self.info, self.hidden = ex, info, list(hidden)
        self.entry_cells = dict(ex.cells)
        self.entry_heap = {k: list(v) for k, v in ex.heap.items()}

    def lvs(self):
        """live named locations: locals of all frames (through references), hidden indices"""
        out, seen = [], set()
        def add(lv, nm):
            k = lv.key()
            if k not in seen:
                seen.add(k)
                out.append((nm, lv))
        for lv in self.hidden:
            add(lv, '#k')
        for d, fr in enumerate(reversed(self.ex.frames)):
            for vid, lv in fr.env.items():
                if isinstance(lv, LV):
                    add(lv, str(vid))
            if isinstance(fr.this, VPtr) and fr.this.lv is not None:
                add(fr.this.lv, 'this')
        return out

    def collect(self):
        ex = self.ex
        self.ints, self.bools, self.reals, self.vecs, self.mems, self.iters, self.ptrs = [], [], [], [], [], [], []
        names = {}
        def visit(lv, nm, depth=0):
            if lv.root[0] == 'c' and lv.root[1] not in ex.cells:
                return
            try:
                v = ex.read(lv)
            except (Unsupported, PathEnd):
                return
            nm = '%s' % (nm,)
            if is_z3(v):
                if z3.is_int(v):
                    self.ints.append((nm, lv))
                elif z3.is_bool(v):
                    self.bools.append((nm, lv))
                elif z3.is_real(v):
                    self.reals.append((nm, lv))
            elif isinstance(v, (VVec, VList)):
                self.vecs.append((nm, lv))
            elif isinstance(v, VMem):
                self.mems.append((nm, lv))
            elif isinstance(v, VIter) and v.kind in ('vec', 'buf', 'mapseq'):
                self.iters.append((nm, lv))
            elif isinstance(v, VBPtr):
                self.ptrs.append((nm, lv))
            elif isinstance(v, VStruct) and depth < 3:
                for k in v.fields:
                    visit(lv.f(k), nm + '.' + k, depth + 1)
        for n, (nm, lv) in enumerate(self.lvs()):
            visit(lv, 'L%d' % n)
        for cid, v in list(ex.cells.items()):
            if isinstance(v, VMem):
                self.mems.append(('M%d' % cid, LV(('c', cid))))
        self.modkeys = {}
        if not hasattr(self, 'old_terms'):
            self.old_terms = {}
            fill = True
        else:
            fill = False
        for (root, path), mode in self.info.havoc.items():
            if root[0] == 'c':
                lv = LV(root, [('f', x) for x in path])
                self.modkeys[lv.key()] = mode
        if fill:
            for nm, g in self.int_terms():
                try:
                    self.old_terms[nm] = g()
                except (Unsupported, AttributeError):
                    pass

    def is_mod(self, lv):
        k = lv.key()
        if k in self.modkeys:
            return True
        p = list(lv.path)
        while p:
            p.pop()
            if LV(lv.root, p).key() in self.modkeys:
                return True
        return False

    def old(self, lv):
        cells = self.ex.cells
        self.ex.cells = self.entry_cells
        try:
            return self.ex.read(lv)
        finally:
            self.ex.cells = cells

    def int_terms(self, mod=None):
        """[(name, getter)]: integer-valued views (scalars, iterator offsets, vector sizes)"""
        ex = self.ex
        out = []
        for nm, lv in self.ints:
            if mod is None or self.is_mod(lv) == mod:
                out.append((nm, lambda lv=lv: ex.read(lv)))
        for nm, lv in self.iters:
            if mod is None or self.is_mod(lv) == mod:
                out.append((nm + '.it', lambda lv=lv: ex.read(lv).idx))
        for nm, lv in self.ptrs:
            if mod is None or self.is_mod(lv) == mod:
                out.append((nm + '.off', lambda lv=lv: ex.read(lv).off))
        for nm, lv in self.vecs:
            whole = self.modkeys.get(lv.key()) == 'whole' or (self.is_mod(lv) and lv.key() not in self.modkeys)
            if mod is None or whole == mod:
                out.append((nm + '.size', lambda lv=lv: ex.vlen(ex.read(lv))))
        return out

    def do_havoc(self):
        ex = self.ex
        for (root, path), mode in list(self.info.havoc.items()):
            if root[0] == 'h':
                key, fty, leaves = ex.heap_leaves(root[1], root[2])
                ex.heap[key] = [ex.fresh('hv', a.sort()) for a in leaves]
                continue
            lv = LV(root, [('f', x) for x in path])
            v = ex.read(lv)
            w = ex.fresh_like(v, ex.type_of(lv), 'hv', mode == 'elems')
            ex.cells[root[1]] = ex.upd(ex.cells[root[1]], lv.path, w)
