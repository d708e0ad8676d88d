"""Symbolic executor / VC generator over LLVM IR of the real source.

Every path of a function body is executed once, states are merged at joins,
loops are unrolled until the back edge is infeasible, or cut by an inductive
invariant.  Calls to functions under contract use the contract, other calls
are inlined.  Produces a list of obligations (VC)."""
import heapq
import os
import re
import time as _time
from . import expr as X
from . import irparse as I
from .irparse import IntTy, FloatTy, PTR, ArrTy, StructTy, VOID, layout


class Unsupported(Exception):
    """the tool cannot analyse this construct: tool error, not a verdict"""


EXPLODE = 64


# ------------------------------------------------------------------ objects
class Obj:
    __slots__ = ('name', 'ty', 'kind', 'init', 'ro', 'local', 'explode', 'snap', 'base', 'ghost', 'freed', 'real')

    def __init__(self, name, ty, kind, init=None, ro=False, local=False):
        self.name = name
        self.ty = layout(ty)
        self.kind = kind            # 'sym' 'zero' 'undef' 'init'
        self.init = init
        self.ro = ro
        self.local = local
        self.explode = EXPLODE
        self.snap = None
        self.base = self
        self.ghost = False
        self.freed = False
        self.real = True

    def __repr__(self):
        return self.name


class Loc:
    __slots__ = ('obj', 'path', 'idx')

    def __init__(self, obj, path, idx):
        self.obj = obj
        self.path = path
        self.idx = idx

    def __repr__(self):
        s = self.obj.name
        k = 0
        for p in self.path:
            if p == '*':
                s += '[%r]' % (self.idx[k],)
                k += 1
            else:
                s += '.%s' % (p,)
        return '&' + s


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '@' + self.name


class Opaque:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '?' + self.name


class Ptr:
    """guarded union of targets (None = NULL)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return ' | '.join('%r->%r' % (g, t) for g, t in self.alts)


NULL = Ptr(((X.TRUE, None),))


def ptr1(t):
    return Ptr(((X.TRUE, t),))


def same_target(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, Loc):
        return a.obj is b.obj and a.path == b.path and all(x is y for x, y in zip(a.idx, b.idx))
    return a.name == b.name


def merge_ptr(c, a, b):
    """ite(c, a, b)"""
    if a is b or c is X.TRUE:
        return a
    if c is X.FALSE:
        return b
    if len(a.alts) == 1 and len(b.alts) == 1 and same_target(a.alts[0][1], b.alts[0][1]):
        return a
    out = []          # list of [guard, target]
    nc = X.Not(c)
    for (g, t) in a.alts:
        g2 = X.And(c, g)
        if g2 is not X.FALSE:
            out.append([g2, t])
    for (g, t) in b.alts:
        g2 = X.And(nc, g)
        if g2 is X.FALSE:
            continue
        for o in out:
            u = o[1]
            if same_target(u, t):
                o[0] = X.Or(o[0], g2)
                break
            if isinstance(u, Loc) and isinstance(t, Loc) and u.obj is t.obj and u.path == t.path:
                # same pattern, different indices
                idx = tuple(X.ite(g2, q, p) for p, q in zip(u.idx, t.idx))
                o[0] = X.Or(o[0], g2)
                o[1] = Loc(u.obj, u.path, idx)
                break
        else:
            out.append([g2, t])
    return Ptr(tuple((g, t) for g, t in out))


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, X.E) and isinstance(b, X.E):
        if isinstance(a.w, tuple):
            return X.aite(c, a, b)
        return X.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return merge_ptr(c, a, b)
    if isinstance(a, PInt) and isinstance(b, PInt):
        return PInt(merge_ptr(c, a.p, b.p))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return None
    raise Unsupported('merge of %r and %r' % (type(a), type(b)))


class PInt:
    """ptrtoint value"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class PDiff:
    pass


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc           # tuple of conjuncts

    def fork(self, c):
        return State(dict(self.mem), self.pc + (c,) if c is not X.TRUE else self.pc)


class VC:
    __slots__ = ('kind', 'label', 'props', 'where', 'nfacts', 'pc', 'goal', 'fn', 'id', 'status', 'time', 'model',
                 'chain', 'backend')

    def name(self):
        return '%s:%s%s@%s' % (self.fn, self.kind, ':' + self.label if self.label else '', self.where)


class Dead(Exception):
    pass


def bits_for(n):
    w = 1
    while (1 << w) < n:
        w += 1
    return w


class LeafInfo:
    __slots__ = ('dims', 'ty', 'exploded', 'widths', 'iw')


class Executor:
    def __init__(self, mod, contracts=None, props=None, prove=None, log=None):
        self.mod = mod
        self.flat = []
        self.contracts = contracts or {}     # fn name -> kvc function name
        self.active_props = props            # set of property ids or None = all
        self.vcs = []
        self.facts = []
        self.ncounter = 0
        self.objs = {}
        self.stack = []
        self.enforced = None
        self.enforce_used = False
        self.cframes = []
        self.spec = 0                        # >0: evaluating specification code
        self.quiet = 0
        self.ulit = {}
        self.ukeep = []
        self.clauses = {}
        self.trivial = 0
        self.stats = {'blocks': 0, 'inlined': {}, 'contracts_used': {}, 'unrolled': 0, 'feas': 0, 'models': {}, 'loops_cut': 0}
        self.leafcache = {}
        self.tycache = {}
        self.log = log
        self.symlog = []                     # symbolic inputs: (kind, label, ...)
        self.covers = []
        self.hints = []
        self.nshared = 0
        self.feas = None                     # feasibility oracle (pc, facts) -> bool
        self.strs = {}
        self.max_unroll = 4200
        self.invs = {}
        self.fresh_names = {}
        self.trace_fn = set()
        self.deadline = None
        self.noinline = set()
        self.kill = set()
        self.requires_seen = 0
        self.loop_budget = {}
        self.houdini = None
        self.cells_of = {}
        self.reads_fresh = []
        self.params = {}
        self.strmemo = {}
        self.exit_is_violation = False
        self.base_snap = {}
        self.nonneg = {}
        self.cuts = {}
        self.hmemo = {}
        self.invlog = {}
        self.prover = None
        self.sub = {}

    # ---------------------------------------------------------------- util
    def fresh(self, label, w):
        n = self.fresh_names.get(label, 0)
        self.fresh_names[label] = n + 1
        nm = label if n == 0 else '%s!%d' % (label, n)
        return X.var(nm, w)

    def fresharr(self, label, iw, ew):
        n = self.fresh_names.get(label, 0)
        self.fresh_names[label] = n + 1
        nm = label if n == 0 else '%s!%d' % (label, n)
        return X.arrvar(nm, iw, ew)

    def where(self, ins=None):
        dbg = ins.dbg if ins is not None else None
        if dbg:
            f, l = self.mod.dbgline(dbg)
            if f:
                return '%s:%d' % (f.rsplit('/', 1)[-1], l)
        return '?'

    def vc(self, st, kind, goal, label='', props='', ins=None):
        if goal is X.TRUE:
            if not self.quiet:
                self.trivial += 1
            return
        if self.quiet:
            return
        # syntactic discharge
        if goal in st.pc:
            self.trivial += 1
            return
        v = VC()
        v.kind = kind
        v.label = label
        v.props = props
        v.fn = self.stack[-1] if self.stack else '?'
        v.chain = tuple(self.stack)
        v.where = self.where(ins)
        v.nfacts = len(self.facts)
        v.pc = st.pc
        v.goal = goal
        v.status = None
        v.time = 0
        v.model = None
        v.backend = None
        v.id = len(self.vcs)
        self.vcs.append(v)

    def assume(self, st, c):
        if c is X.TRUE:
            return
        if c is X.FALSE:
            raise Dead()
        # unguarded assumption when the path condition is empty
        for y in (c.a if c.op == 'and' else (c,)):
            f = X.Implies(X.And(*st.pc), y)
            if f is not X.TRUE:
                self.facts.append(f)
                if not self.quiet:
                    for z in (f.a if f.op == 'and' else (f,)):
                        self.learn(z)

    def snapshot(self):
        return len(self.facts)

    def restore(self, n):
        del self.facts[n:]

    def prove(self, pc, g):
        """used only to choose candidate invariants: the choice is re-proved as obligations"""
        if g in pc:
            return True
        return self.prover(list(pc) + [X.Not(g)])

    def learn(self, f):
        """an unconditional upper bound on a symbol simplifies every term built from here on"""
        self.learn_unit(f)
        if f.op == 'not' and f.a[0].op == 'ult':
            c, x = f.a[0].a
            if c.op == 'c' and x.op in ('v', 'sel'):
                X.set_um(x, c.v)
        elif f.op == 'ult':
            x, c = f.a
            if c.op == 'c' and c.v and x.op in ('v', 'sel'):
                X.set_um(x, c.v - 1)
        elif f.op == 'not' and f.a[0].op == 'slt':
            # 0 <= x together with a signed upper bound learnt earlier
            x, c = f.a[0].a
            if c.op == 'c' and c.v == 0 and x.op in ('v', 'sel'):
                self.nonneg[x] = True
                if x in self.sub:
                    X.set_um(x, self.sub[x])
        elif f.op == 'slt' and f.a[1].op == 'c' and f.a[0].op in ('v', 'sel'):
            x, c = f.a
            v = X.sgn(c.v, c.w)
            if v > 0:
                self.sub[x] = min(self.sub.get(x, v - 1), v - 1)
                if x in self.nonneg:
                    X.set_um(x, self.sub[x])

    def learn_unit(self, f):
        """literals implied by the unconditional facts (unit propagation)"""
        q = [f]
        while q:
            f = q.pop()
            if f.op == 'and' and f.w == 0:
                q.extend(f.a)
                continue
            if f.op == 'not':
                a, v = f.a[0], False
                if a.op == 'or' and a.w == 0:
                    q.extend(X.Not(y) for y in a.a)
            else:
                a, v = f, True
            if a.id in self.ulit:
                continue
            self.ulit[a.id] = v
            self.ukeep.append(a)
            if a.op == ('or' if v else 'and') and a.w == 0 and len(a.a) <= 12:
                cl = a.a if v else tuple(X.Not(y) for y in a.a)
                for y in cl:
                    self.clauses.setdefault((y.a[0] if y.op == 'not' else y).id, []).append(cl)
                y = self.unit(cl, ())
                if y is not None:
                    q.append(y)
            for c in self.clauses.get(a.id, ()):
                y = self.unit(c, ())
                if y is not None:
                    q.append(y)

    def falsified(self, y, pc):
        n = y.op == 'not'
        v = self.ulit.get((y.a[0] if n else y).id)
        if v is not None:
            return v == n
        return X.Not(y) in pc

    def unit(self, c, pc):
        """the only literal of clause c not falsified"""
        left = None
        for y in c:
            if self.falsified(y, pc):
                continue
            if left is not None:
                return None
            left = y
        return left

    def conflict(self, lit, pc):
        """do the facts and the literals of the path condition refute lit?"""
        a = lit.a[0] if lit.op == 'not' else lit
        v = self.ulit.get(a.id)
        if v is not None:
            return v == (lit.op == 'not')
        for c in self.clauses.get(a.id, ()):
            for y in c:
                if (y is not lit and (y.a[0] if y.op == 'not' else y) is a) or self.falsified(y, pc):
                    continue
                break
            else:
                return True
        return False

    # ---------------------------------------------------------------- types
    def type_at(self, obj, path):
        k = (id(obj.ty), path)
        t = self.tycache.get(k)
        if t is None:
            t = obj.ty
            for p in path:
                if p == '*':
                    t = t.el
                elif isinstance(p, int):
                    t = t.fields[p]
                else:
                    t = IntTy(8)
            layout(t)
            self.tycache[k] = t
        return t

    def leafinfo(self, obj, path):
        k = (obj.base, path)
        li = self.leafcache.get(k)
        if li is None:
            li = LeafInfo()
            dims = []
            t = obj.ty
            for p in path:
                if p == '*':
                    dims.append(t.n)
                    t = t.el
                else:
                    t = t.fields[p]
            li.dims = dims
            li.ty = t
            n = 1
            for d in dims:
                n *= d
            li.exploded = n <= obj.base.explode and not any(
                o is obj.base and path[:len(p)] == p for (o, p) in self.flat)
            li.widths = [bits_for(d) for d in dims]
            li.iw = sum(li.widths)
            if isinstance(t, (ArrTy, StructTy)):
                raise Unsupported('leaf expected at %s %s' % (obj.name, path))
            self.leafcache[k] = li
        return li

    def leaves(self, ty):
        """list of (subpath, leafty) patterns under ty"""
        k = ('lv', id(ty))
        r = self.tycache.get(k)
        if r is None:
            r = []

            def rec(t, p):
                if isinstance(t, ArrTy):
                    if t.n:
                        rec(t.el, p + ('*',))
                elif isinstance(t, StructTy):
                    for i, f in enumerate(t.fields):
                        rec(f, p + (i,))
                else:
                    r.append((p, t))
            rec(ty, ())
            self.tycache[k] = r
        return r

    def elwidth(self, t):
        if isinstance(t, IntTy):
            return t.bits if t.bits > 1 else 8
        if isinstance(t, FloatTy):
            return t.bits
        if t is PTR:
            return 64
        raise Unsupported('elwidth %r' % t)

    # ---------------------------------------------------------------- initial values
    def cellname(self, obj, path, cidx):
        s = obj.base.name
        k = 0
        for p in path:
            if p == '*':
                s += '[%d]' % cidx[k] if cidx is not None else '[]'
                k += 1
            else:
                s += '.%d' % p
        return s

    def init_const(self, obj, path, cidx):
        """value of the static initialiser at (path, concrete idx)"""
        v = obj.init
        t = obj.ty
        k = 0
        for p in path:
            if v is None or v[0] == 'zero':
                return ('zero',)
            if v[0] == 'undef':
                return v
            if p == '*':
                i = cidx[k]
                k += 1
                if v[0] == 'str':
                    return ('i', v[1][i])
                v = v[1][i][1]
                t = t.el
            else:
                v = v[1][p][1]
                t = t.fields[p]
        return v

    def initial(self, obj, path, cidx):
        """initial content of a cell key"""
        b = obj.base
        li = self.leafinfo(b, path)
        if cidx is not None or not li.dims:
            if b.kind == 'zero':
                return NULL if li.ty is PTR else X.const(0, self.elwidth(li.ty))
            if b.kind == 'init':
                c = self.init_const(b, path, cidx or ())
                if li.ty is PTR:
                    return self.constval(PTR, c)
                if c[0] == 'zero' or c[0] == 'undef':
                    return X.const(0, self.elwidth(li.ty))
                if c[0] == 'i':
                    return X.const(c[1], self.elwidth(li.ty))
                if c[0] == 'f':
                    return X.var('float:%s' % (c[1],), li.ty.bits)
                raise Unsupported('init %r' % (c,))
            nm = self.cellname(b, path, cidx)
            if li.ty is PTR:
                return ptr1(Opaque(nm))
            return X.var(nm, self.elwidth(li.ty))
        # array cell
        if li.ty is PTR:
            if b.kind == 'zero':
                return X.arrconst(X.const(0, 64), li.iw)
            if b.kind == 'init':
                return self.init_table_ptr(b, path, li)
            return X.arrvar(self.cellname(b, path, None), li.iw, 64)
        ew = self.elwidth(li.ty)
        if b.kind == 'zero':
            return X.arrconst(X.const(0, ew), li.iw)
        if b.kind == 'init':
            if b.init is None or b.init[0] == 'zero':
                return X.arrconst(X.const(0, ew), li.iw)
            nm = self.cellname(b, path, None)
            if nm not in X._tabv:
                data = [0] * (1 << li.iw)
                for ci in _indices(li.dims):
                    c = self.init_const(b, path, ci)
                    k = 0
                    for d, w in zip(ci, li.widths):
                        k = (k << w) | d
                    data[k] = (c[1] & ((1 << ew) - 1)) if c[0] == 'i' else 0
                return X.arrtable(nm, data, li.iw, ew)
            return X.arrtable(nm, X._tabv[nm], li.iw, ew)
        return X.arrvar(self.cellname(b, path, None), li.iw, ew)

    def init_table_ptr(self, b, path, li):
        raise Unsupported('pointer table %s' % b.name)

    # ---------------------------------------------------------------- memory
    def read(self, mem, obj, path, cidx):
        if obj.snap is not None:
            mem = obj.snap
        k = (obj.base, path, cidx)
        v = mem.get(k)
        if v is None:
            v = self.initial(obj, path, cidx)
            mem[k] = v
        return v

    def idx_expr(self, li, idx):
        e = None
        for x, w in zip(idx, li.widths):
            y = X.trunc(x, w) if x.w > w else x
            e = y if e is None else X.concat(e, y)
        return e

    def read_leaf(self, st, obj, path, idx):
        li = self.leafinfo(obj, path)
        mem = st.mem
        if not li.dims:
            return self.read(mem, obj, path, None)
        if li.exploded:
            if all(x.op == 'c' for x in idx):
                ci = tuple(x.v for x in idx)
                if any(c >= d for c, d in zip(ci, li.dims)):
                    return self.undef(li.ty, 'oob')
                return self.read(mem, obj, path, ci)
            # symbolic index: decision over cells
            return self._sel_cells(mem, obj, path, li, idx, 0, ())
        if li.ty is PTR and obj.base.kind == 'init':
            if all(x.op == 'c' for x in idx):
                ci = tuple(x.v for x in idx)
                if any(c >= d for c, d in zip(ci, li.dims)):
                    return self.undef(li.ty, 'oob')
                return self.initial(obj, path, ci)
            if obj.base.ro:
                return self._sel_cells(mem, obj, path, li, idx, 0, (), True)
        a = self.read(mem, obj, path, None)
        v = X.sel(a, self.idx_expr(li, idx))
        if li.ty is PTR:
            return self.decode_ptr(obj, path, v)
        return v

    def _sel_cells(self, mem, obj, path, li, idx, k, pre, initial=False):
        if k == len(li.dims):
            if initial:
                return self.initial(obj, path, pre)
            return self.read(mem, obj, path, pre)
        x = idx[k]
        n = li.dims[k]
        if x.op == 'c':
            if x.v >= n:
                return self.undef(li.ty, 'oob')
            return self._sel_cells(mem, obj, path, li, idx, k + 1, pre + (x.v,), initial)
        r = None
        hi = min(n, X.umax(x) + 1)
        for i in range(hi - 1, -1, -1):
            c = X.eq(x, X.const(i, x.w))
            if c is X.FALSE:
                continue
            v = self._sel_cells(mem, obj, path, li, idx, k + 1, pre + (i,), initial)
            r = v if r is None else merge_val(c, v, r)
        if r is None:
            return self.undef(li.ty, 'oob')
        return r

    def undef(self, ty, nm):
        if ty is PTR:
            return ptr1(Opaque('undef:' + nm))
        if isinstance(ty, IntTy) and ty.bits == 1:
            return self.fresh('undef:' + nm, 0)
        if isinstance(ty, StructTy):
            return tuple(self.undef(f, nm) for f in ty.fields)
        if ty is VOID:
            return None
        return self.fresh('undef:' + nm, self.elwidth(ty))

    # pointer encoding for large pointer arrays
    def encode_ptr(self, obj, path, p):
        reg = self.cells_of.setdefault((obj.base, path), [])
        e = X.const(0, 64)
        for (g, t) in p.alts:
            if t is None:
                v = X.const(0, 64)
            elif isinstance(t, Loc):
                key = (t.obj, t.path)
                if key not in reg:
                    reg.append(key)
                i = reg.index(key) + 1
                v = X.const(i, 16)
                if len(t.idx) == 0:
                    v = X.concat(v, X.const(0, 48))
                elif len(t.idx) == 1:
                    v = X.concat(v, X.trunc(t.idx[0], 48))
                elif len(t.idx) == 2:
                    v = X.concat(v, X.concat(X.trunc(t.idx[0], 16), X.trunc(t.idx[1], 32)))
                else:
                    raise Unsupported('encode_ptr')
            else:
                raise Unsupported('encode_ptr of %r' % (t,))
            e = X.ite(g, v, e)
        return e

    def decode_ptr(self, obj, path, v):
        reg = self.cells_of.setdefault((obj.base, path), [])
        alts = []
        rest = X.TRUE
        tag = X.extract(v, 63, 48)
        for i, (o, pth) in enumerate(reg):
            g = X.eq(tag, X.const(i + 1, 16))
            if g is X.FALSE:
                continue
            n = sum(1 for q in pth if q == '*')
            if n == 0:
                idx = ()
            elif n == 1:
                idx = (X.zext(X.extract(v, 47, 0), 64),)
            else:
                idx = (X.zext(X.extract(v, 47, 32), 64), X.zext(X.extract(v, 31, 0), 64))
            alts.append((g, Loc(o, pth, idx)))
            rest = X.And(rest, X.Not(g))
        if rest is not X.FALSE:
            alts.append((rest, None))
        return Ptr(tuple(alts))

    def write_leaf(self, st, obj, path, idx, val, guard=X.TRUE):
        if obj.snap is not None:
            raise Unsupported('write through kv_old pointer')
        li = self.leafinfo(obj, path)
        mem = st.mem
        if not li.dims:
            k = (obj.base, path, None)
            if guard is not X.TRUE:
                val = merge_val(guard, val, self.read(mem, obj, path, None))
            mem[k] = val
            return
        if li.exploded:
            if all(x.op == 'c' for x in idx):
                ci = tuple(x.v for x in idx)
                if any(c >= d for c, d in zip(ci, li.dims)):
                    return
                if guard is not X.TRUE:
                    val = merge_val(guard, val, self.read(mem, obj, path, ci))
                mem[(obj.base, path, ci)] = val
                return
            for ci in _indices(li.dims):
                g = guard
                for x, i in zip(idx, ci):
                    g = X.And(g, X.eq(x, X.const(i, x.w)))
                    if g is X.FALSE:
                        break
                if g is X.FALSE:
                    continue
                mem[(obj.base, path, ci)] = merge_val(g, val, self.read(mem, obj, path, ci))
            return
        a = self.read(mem, obj, path, None)
        ie = self.idx_expr(li, idx)
        if li.ty is PTR:
            val = self.encode_ptr(obj, path, val)
        if guard is not X.TRUE:
            val = X.ite(guard, val, X.sel(a, ie))
        mem[(obj.base, path, None)] = X.store(a, ie, val)

    # ------------------------------------------------ location navigation
    def conform(self, loc, ty):
        """adjust loc so that its type node is ty (or None)"""
        o, path, idx = loc.obj, loc.path, loc.idx
        for _ in range(12):
            t = self.type_at(o, path)
            if t is ty:
                return loc if path is loc.path else Loc(o, path, idx)
            if isinstance(t, StructTy) and isinstance(ty, StructTy) and t.name is None and ty.name is None and repr(t) == repr(ty):
                return Loc(o, path, idx)
            if path and path[-1] not in ('*',) and not isinstance(path[-1], int):
                return None
            if isinstance(t, ArrTy):
                if not t.n:
                    return None
                path = path + ('*',)
                idx = idx + (X.const(0, 64),)
            elif isinstance(t, StructTy):
                if not t.fields:
                    return None
                path = path + (0,)
            else:
                break
        # go up: first element -> aggregate
        o, path, idx = loc.obj, loc.path, loc.idx
        while path:
            if path[-1] == '*':
                x = idx[-1]
                if not (x.op == 'c' and x.v == 0):
                    return None
                idx = idx[:-1]
            elif path[-1] != 0:
                return None
            path = path[:-1]
            t = self.type_at(o, path)
            if t is ty:
                return Loc(o, path, idx)
        return None

    def byte_off(self, loc, off):
        """loc + constant byte offset -> Loc (possibly with ('b',k) suffix)"""
        o, path, idx = loc.obj, loc.path, loc.idx
        sub = 0
        if path and isinstance(path[-1], tuple):
            sub = path[-1][1]
            path = path[:-1]
        off += sub
        t = self.type_at(o, path)
        # go up while out of range
        while off < 0 or off >= t.size:
            if not path:
                if off == 0:
                    break
                return Opaque('oob:%s+%d' % (o.name, off))
            p = path[-1]
            path = path[:-1]
            pt = self.type_at(o, path)
            if p == '*':
                x = idx[-1]
                idx = idx[:-1]
                if off % t.size == 0:
                    return Loc(o, path + ('*',), idx + (X.add(x, X.const(off // t.size, 64)),))
                q = off // t.size
                if x.op != 'c':
                    # stay within the array: element shift plus remainder
                    path = path + ('*',)
                    idx = idx + (X.add(x, X.const(q, 64)),)
                    off -= q * t.size
                    break
                off += x.v * t.size
            else:
                off += pt.offsets[p]
            t = pt
        # go down
        while off != 0 or False:
            t = self.type_at(o, path)
            if isinstance(t, ArrTy):
                q, off = divmod(off, t.el.size)
                path = path + ('*',)
                idx = idx + (X.const(q, 64),)
            elif isinstance(t, StructTy):
                k = 0
                for i, fo in enumerate(t.offsets):
                    if fo <= off:
                        k = i
                off -= t.offsets[k]
                path = path + (k,)
                if off >= self.type_at(o, path).size:
                    return Opaque('padding')
            else:
                path = path + (('b', off),)
                off = 0
        return Loc(o, path, idx)

    def gep(self, loc, sty, idxs):
        """idxs: list of 64-bit E"""
        if isinstance(loc, Opaque):
            return loc
        if not isinstance(loc, Loc):
            if loc is None:
                if all(i.op == 'c' and i.v == 0 for i in idxs):
                    return None
                return Opaque('null+off')
            return Opaque('fn+off')
        layout(sty)
        i0 = idxs[0]
        o, path, idx = loc.obj, loc.path, loc.idx
        z = i0.op == 'c' and i0.v == 0
        if z:
            l = self.conform(loc, sty)
            if l is None:
                if len(idxs) == 1:
                    return loc
                l = self._reinterpret(loc, sty, idxs)
                if l is None:
                    raise Unsupported('gep %r into %r (%r)' % (sty, loc, self.type_at(o, path)))
                return l
            o, path, idx = l.obj, l.path, l.idx
        else:
            # need an enclosing array with element type sty
            l = None
            cand = loc
            t = self.type_at(o, path)
            if path and path[-1] == '*' and t is sty:
                l = loc
            else:
                c = self.conform(loc, sty)
                if c is not None and c.path and c.path[-1] == '*':
                    l = c
            if l is not None:
                o, path = l.obj, l.path
                idx = l.idx[:-1] + (X.add(l.idx[-1], i0),)
            else:
                if i0.op == 'c' and len(idxs) == 1:
                    return self.byte_off(loc, X.sgn(i0.v, 64) * sty.size)
                if path and path[-1] == '*' and sty.size == 1 and t.size > 1:
                    # byte pointer arithmetic that is a multiple of the element size
                    m = _mulof(i0, t.size)
                    if m is not None:
                        return Loc(o, path, idx[:-1] + (X.add(idx[-1], m),))
                if i0.op == 'c':
                    l = self.byte_off(loc, X.sgn(i0.v, 64) * sty.size)
                    return self.gep(l, sty, [X.const(0, 64)] + idxs[1:])
                raise Unsupported('gep %r + symbolic on %r' % (sty, loc))
        t = sty
        for i in idxs[1:]:
            if isinstance(t, ArrTy):
                path = path + ('*',)
                idx = idx + (i,)
                t = t.el
            elif isinstance(t, StructTy):
                path = path + (i.v,)
                t = t.fields[i.v]
            else:
                raise Unsupported('gep into %r' % t)
        return Loc(o, path, idx)

    def _reinterpret(self, loc, sty, idxs):
        """field access through a differently typed pointer: by byte offset"""
        off = 0
        t = sty
        for i in idxs[1:]:
            layout(t)
            if i.op != 'c':
                return None
            if isinstance(t, ArrTy):
                off += t.el.size * i.v
                t = t.el
            else:
                off += t.offsets[i.v]
                t = t.fields[i.v]
        return self.byte_off(loc, off)

    # ------------------------------------------------ load / store
    def bounds(self, st, loc, guard, ins, what='bounds'):
        """obligations: every array index of loc is within its dimension"""
        if self.spec:
            return
        t = loc.obj.ty
        k = 0
        for p in loc.path:
            if p == '*':
                i = loc.idx[k]
                k += 1
                c = X.ult(i, X.const(t.n, i.w)) if t.n < (1 << i.w) else X.TRUE
                if c is not X.TRUE:
                    self.vc(st, 'bounds', X.Implies(guard, c), '', '', ins)
                t = t.el
            elif isinstance(p, int):
                t = t.fields[p]
        if loc.obj.freed:
            self.vc(st, 'use-after-free', X.Not(guard), loc.obj.name, '', ins)

    def deref(self, st, p, ins):
        """non-null targets of p, with obligations that it is a valid pointer"""
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r at %s' % (p, self.where(ins)))
        out = []
        for (g, t) in p.alts:
            if t is None:
                if not self.spec:
                    self.vc(st, 'null', X.Not(g), '', '', ins)
            elif isinstance(t, Loc):
                out.append((g, t))
            elif isinstance(t, Opaque):
                if t.name.startswith('null+') or t.name.startswith('oob:'):
                    if not self.spec:
                        self.vc(st, 'bounds', X.Not(g), t.name, '', ins)
                else:
                    if X.And(*(st.pc + (g,))) is X.FALSE:
                        continue
                    if t.name.startswith('undef:') and self.feas and not self.feas(st.pc + (g,)):
                        continue
                    raise Unsupported('dereference of unknown pointer %s at %s in %s' % (t.name, self.where(ins), self.stack))
            else:
                raise Unsupported('dereference of function pointer')
        return out

    def load_loc(self, st, loc, ty):
        c = self.conform(loc, ty) if not (loc.path and isinstance(loc.path[-1], tuple)) else None
        if c is not None and not isinstance(ty, (StructTy, ArrTy)):
            v = self.read_leaf(st, c.obj, c.path, c.idx)
            if isinstance(ty, IntTy) and ty.bits == 1:
                return X.bv2bool(X.trunc(v, 1))
            return v
        if isinstance(ty, StructTy):
            if c is None:
                raise Unsupported('load struct')
            return tuple(self.load_loc(st, Loc(c.obj, c.path + (i,), c.idx), f) for i, f in enumerate(ty.fields))
        # sub-leaf or multi-leaf access
        return self.load_bytes(st, loc, ty)

    def load_bytes(self, st, loc, ty):
        if ty is PTR:
            raise Unsupported('pointer load through %r' % loc)
        n = ty.size
        parts = []
        for k in range(n):
            parts.append(None)
        k = 0
        while k < n:
            l = self.byte_off(loc, k) if k else loc
            if isinstance(l, Opaque):
                parts[k] = X.const(0, 8)
                k += 1
                continue
            sub = 0
            path = l.path
            if path and isinstance(path[-1], tuple):
                sub = path[-1][1]
                path = path[:-1]
            idx = l.idx
            t = self.type_at(l.obj, path)
            while isinstance(t, (ArrTy, StructTy)):
                if isinstance(t, ArrTy):
                    path = path + ('*',)
                    idx = idx + (X.const(0, 64),)
                    t = t.el
                else:
                    path = path + (0,)
                    t = t.fields[0]
            if t is PTR:
                raise Unsupported('bytes of a pointer')
            v = self.read_leaf(st, l.obj, path, idx)
            for b in range(sub, t.size):
                if k >= n:
                    break
                if v.w < 8:
                    parts[k] = X.zext(v, 8)
                else:
                    parts[k] = X.extract(v, 8 * b + 7, 8 * b)
                k += 1
        e = parts[0]
        for q in parts[1:]:
            e = X.concat(q, e)
        if isinstance(ty, IntTy) and ty.bits == 1:
            return X.bv2bool(X.trunc(e, 1))
        if isinstance(ty, IntTy) and ty.bits < e.w:
            e = X.trunc(e, ty.bits)
        return e

    def store_loc(self, st, loc, ty, val, guard):
        c = self.conform(loc, ty) if not (loc.path and isinstance(loc.path[-1], tuple)) else None
        if c is not None and not isinstance(ty, (StructTy, ArrTy)):
            if isinstance(ty, IntTy) and ty.bits == 1:
                val = X.bool2bv(val, 8)
            if isinstance(val, PInt):
                raise Unsupported('store of ptrtoint')
            self.write_leaf(st, c.obj, c.path, c.idx, val, guard)
            return
        if isinstance(ty, StructTy):
            if c is None:
                raise Unsupported('store struct')
            for i, f in enumerate(ty.fields):
                self.store_loc(st, Loc(c.obj, c.path + (i,), c.idx), f, val[i], guard)
            return
        if ty is PTR or not isinstance(val, X.E):
            raise Unsupported('store %r through %r' % (ty, loc))
        n = ty.size
        if val.w < 8 * n:
            val = X.zext(val, 8 * n)
        k = 0
        while k < n:
            l = self.byte_off(loc, k) if k else loc
            if isinstance(l, Opaque):
                k += 1
                continue
            sub = 0
            path = l.path
            if path and isinstance(path[-1], tuple):
                sub = path[-1][1]
                path = path[:-1]
            idx = l.idx
            t = self.type_at(l.obj, path)
            while isinstance(t, (ArrTy, StructTy)):
                if isinstance(t, ArrTy):
                    path = path + ('*',)
                    idx = idx + (X.const(0, 64),)
                    t = t.el
                else:
                    path = path + (0,)
                    t = t.fields[0]
            if t is PTR:
                raise Unsupported('bytes of a pointer')
            take = min(t.size - sub, n - k)
            if sub == 0 and take == t.size:
                nv = X.extract(val, 8 * (k + take) - 1, 8 * k)
            else:
                old = self.read_leaf(st, l.obj, path, idx)
                nv = X.extract(val, 8 * (k + take) - 1, 8 * k)
                if sub + take < t.size:
                    nv = X.concat(X.extract(old, t.size * 8 - 1, 8 * (sub + take)), nv)
                if sub:
                    nv = X.concat(nv, X.extract(old, 8 * sub - 1, 0))
            self.write_leaf(st, l.obj, path, idx, nv, guard)
            k += take

    def load(self, st, p, ty, ins):
        alts = self.deref(st, p, ins)
        r = None
        for (g, loc) in reversed(alts):
            self.bounds(st, loc, g, ins)
            v = self.load_loc(st, loc, ty)
            r = v if r is None else merge_val(g, v, r)
        if r is None:
            raise Dead()
        return r

    def store(self, st, p, ty, val, ins):
        alts = self.deref(st, p, ins)
        if not alts:
            raise Dead()
        for (g, loc) in alts:
            self.bounds(st, loc, g, ins)
            if loc.obj.ro and not self.spec:
                self.vc(st, 'write-to-const', X.Not(g), loc.obj.name, '', ins)
            self.store_loc(st, loc, ty, val, g)

    # ------------------------------------------------ bulk operations
    def subtree(self, loc, nbytes):
        """describe [loc, loc+nbytes) as a list of (Loc of a type node, count) where
        count elements starting at loc (count=None: the node itself)"""
        o, path, idx = loc.obj, loc.path, loc.idx
        t = self.type_at(o, path)
        if t.size == nbytes:
            # prefer the node itself
            return [(loc, None)]
        if t.size > nbytes:
            # descend
            if isinstance(t, ArrTy):
                return self.subtree(Loc(o, path + ('*',), idx + (X.const(0, 64),)), nbytes)
            if isinstance(t, StructTy):
                # several leading fields?
                out = []
                rem = nbytes
                pos = 0
                for i, f in enumerate(t.fields):
                    if t.offsets[i] >= nbytes:
                        break
                    rem = nbytes - t.offsets[i]
                    l = Loc(o, path + (i,), idx)
                    if f.size <= rem:
                        out.append((l, None))
                    else:
                        out.extend(self.subtree(l, rem))
                return out
            raise Unsupported('partial leaf range %r %d' % (loc, nbytes))
        # larger than the node: must be an array slice (or the start of an aggregate)
        if path and path[-1] == '*':
            if nbytes % t.size == 0:
                cnt = nbytes // t.size
                at = self.type_at(o, path[:-1])
                x = idx[-1]
                if x.op == 'c' and x.v == 0 and cnt == at.n:
                    return [(Loc(o, path[:-1], idx[:-1]), None)]
                if x.op == 'c' and x.v == 0 and cnt > at.n:
                    return self.subtree(Loc(o, path[:-1], idx[:-1]), nbytes)
                return [(loc, cnt)]
            x = idx[-1]
            if x.op == 'c' and x.v == 0:
                return self.subtree(Loc(o, path[:-1], idx[:-1]), nbytes)
        elif path and path[-1] == 0:
            return self.subtree(Loc(o, path[:-1], idx), nbytes)
        elif path and isinstance(path[-1], int):
            # trailing fields of a struct
            out = []
            pp = path[:-1]
            pt = self.type_at(o, pp)
            i = path[-1]
            start = pt.offsets[i]
            while nbytes > 0 and i < len(pt.fields):
                l = Loc(o, pp + (i,), idx)
                nxt = pt.offsets[i + 1] if i + 1 < len(pt.fields) else pt.size
                span = nxt - pt.offsets[i]
                if nbytes >= pt.fields[i].size:
                    out.append((l, None))
                else:
                    out.extend(self.subtree(l, nbytes))
                nbytes -= span
                i += 1
            return out
        return [(loc, 'oob')]

    def range_bounds(self, st, loc, nbytes, guard, ins):
        """obligation: loc..loc+nbytes within the object's innermost array/object"""
        self.bounds(st, loc, guard, ins) if nbytes else None
        for (l, cnt) in self.subtree(loc, nbytes) if nbytes else []:
            if cnt == 'oob':
                self.vc(st, 'bounds', X.Not(guard), 'range of %d bytes' % nbytes, '', ins)
            elif cnt is not None:
                at = self.type_at(l.obj, l.path[:-1])
                last = X.add(l.idx[-1], X.const(cnt - 1, 64))
                c = X.And(X.ult(last, X.const(at.n, 64)), X.ule(l.idx[-1], last))
                if not self.spec:
                    self.vc(st, 'bounds', X.Implies(guard, c), 'range', '', ins)

    def each_leaf(self, loc, cnt):
        """leaf groups below loc: yields (path, prefix idx tuple, free dims, count)"""
        t = self.type_at(loc.obj, loc.path)
        for (sp, lt) in self.leaves(t):
            yield loc.path + sp, loc.idx, sum(1 for q in sp if q == '*'), lt

    def copy_node(self, st, dst, src, cnt, guard):
        """dst/src Locs of the same type node; cnt elements (None = 1 node)"""
        if cnt is not None and cnt != 'oob':
            t = self.type_at(dst.obj, dst.path)
            li = None
            if isinstance(t, (ArrTy, StructTy)) or cnt <= 16:
                for k in range(cnt):
                    d = Loc(dst.obj, dst.path, dst.idx[:-1] + (X.add(dst.idx[-1], X.const(k, 64)),))
                    s = Loc(src.obj, src.path, src.idx[:-1] + (X.add(src.idx[-1], X.const(k, 64)),))
                    self.copy_node(st, d, s, None, guard)
                return
            self.copy_slice(st, dst, src, X.const(cnt, 64), guard)
            return
        t = self.type_at(dst.obj, dst.path)
        for (sp, lt) in self.leaves(t):
            nd = sum(1 for q in sp if q == '*')
            dp, spth = dst.path + sp, src.path + sp
            if nd == 0:
                self.write_leaf(st, dst.obj, dp, dst.idx, self.read_leaf(st, src.obj, spth, src.idx), guard)
                continue
            dl, sl = self.leafinfo(dst.obj, dp), self.leafinfo(src.obj, spth)
            fd = dl.dims[len(dl.dims) - nd:]
            n = 1
            for q in fd:
                n *= q
            if dl.exploded or sl.exploded or (n <= 64 and not (dl.iw == sl.iw and nd == len(dl.dims) == len(sl.dims))) or lt is PTR and n <= 64:
                vals = []
                for ci in _indices(fd):
                    ce = tuple(X.const(c, 64) for c in ci)
                    vals.append((ce, self.read_leaf(st, src.obj, spth, src.idx + ce)))
                for ce, v in vals:
                    self.write_leaf(st, dst.obj, dp, dst.idx + ce, v, guard)
                continue
            if lt is PTR:
                # share encodings
                rd = self.cells_of.setdefault((dst.obj.base, dp), [])
                rs = self.cells_of.setdefault((src.obj.base, spth), [])
                if rd and rd != rs:
                    raise Unsupported('pointer array copy')
                self.cells_of[(dst.obj.base, dp)] = rs
            sa = self.read(st.mem, src.obj, spth, None)
            whole_d = nd == len(dl.dims)
            whole_s = nd == len(sl.dims)
            if whole_d and whole_s:
                na = sa
            else:
                b = X.boundvar(dl.iw)
                fw = sum(dl.widths[len(dl.dims) - nd:])
                suf = X.extract(b, fw - 1, 0)
                if whole_s:
                    sv = X.sel(sa, suf)
                else:
                    pe = self.prefix_expr(sl, src.idx)
                    sv = X.sel(sa, X.concat(pe, suf))
                if whole_d:
                    na = X.arrlambda(b, sv)
                else:
                    pd = self.prefix_expr(dl, dst.idx)
                    pre = X.extract(b, dl.iw - 1, fw)
                    da = self.read(st.mem, dst.obj, dp, None)
                    na = X.arrlambda(b, X.ite(X.eq(pre, pd), sv, X.sel(da, b)))
            if guard is not X.TRUE:
                na = X.aite(guard, na, self.read(st.mem, dst.obj, dp, None))
            if dst.obj.snap is not None:
                raise Unsupported('write to old')
            st.mem[(dst.obj.base, dp, None)] = na

    def prefix_expr(self, li, idx):
        e = None
        for x, w in zip(idx, li.widths):
            y = X.trunc(x, w) if x.w > w else x
            e = y if e is None else X.concat(e, y)
        return e

    def byte_array_of(self, loc):
        """(loc at element of an i8 array)"""
        t = self.type_at(loc.obj, loc.path)
        if isinstance(t, ArrTy) and t.el.size == 1:
            return Loc(loc.obj, loc.path + ('*',), loc.idx + (X.const(0, 64),))
        if loc.path and loc.path[-1] == '*':
            return loc
        return None

    def copy_slice(self, st, dst, src, n, guard):
        """copy n (symbolic) elements between arrays of scalars; handles overlap as memmove"""
        dl, sl = self.leafinfo(dst.obj, dst.path), self.leafinfo(src.obj, src.path)
        if dl.exploded or sl.exploded:
            N = dl.dims[-1] if dl.exploded else sl.dims[-1]
            if not sl.exploded and not dl.exploded:
                raise Unsupported('slice')
            um = X.umax(n)
            N = min(um, max(dl.dims[-1], 0))
            vals = []
            for k in range(N):
                kk = X.const(k, 64)
                vals.append(self.read_leaf(st, src.obj, src.path, src.idx[:-1] + (X.add(src.idx[-1], kk),)))
            for k in range(N):
                kk = X.const(k, 64)
                self.write_leaf(st, dst.obj, dst.path, dst.idx[:-1] + (X.add(dst.idx[-1], kk),), vals[k],
                                X.And(guard, X.ult(kk, n)))
            return
        sa = self.read(st.mem, src.obj, src.path, None)
        da = self.read(st.mem, dst.obj, dst.path, None)
        b = X.boundvar(dl.iw)
        lw = dl.widths[-1]
        last = X.zext(X.extract(b, lw - 1, 0), 64)
        off = X.sub(last, dst.idx[-1])
        c = X.ult(off, n)
        if len(dl.widths) > 1:
            c = X.And(c, X.eq(X.extract(b, dl.iw - 1, lw), self.prefix_expr(dl, dst.idx[:-1])))
        si = X.trunc(X.add(src.idx[-1], off), sl.widths[-1])
        if len(sl.widths) > 1:
            si = X.concat(self.prefix_expr(sl, src.idx[:-1]), si)
        na = X.arrlambda(b, X.ite(X.And(guard, c), X.sel(sa, si), X.sel(da, b)))
        st.mem[(dst.obj.base, dst.path, None)] = na

    def fill_slice(self, st, dst, n, val, guard):
        dl = self.leafinfo(dst.obj, dst.path)
        if dl.exploded:
            for k in range(min(X.umax(n), dl.dims[-1])):
                kk = X.const(k, 64)
                self.write_leaf(st, dst.obj, dst.path, dst.idx[:-1] + (X.add(dst.idx[-1], kk),), val,
                                X.And(guard, X.ult(kk, n)))
            return
        da = self.read(st.mem, dst.obj, dst.path, None)
        b = X.boundvar(dl.iw)
        lw = dl.widths[-1]
        last = X.zext(X.extract(b, lw - 1, 0), 64)
        off = X.sub(last, dst.idx[-1])
        c = X.ult(off, n)
        if len(dl.widths) > 1:
            c = X.And(c, X.eq(X.extract(b, dl.iw - 1, lw), self.prefix_expr(dl, dst.idx[:-1])))
        na = X.arrlambda(b, X.ite(X.And(guard, c), val, X.sel(da, b)))
        st.mem[(dst.obj.base, dst.path, None)] = na

    def fill_node(self, st, loc, cnt, mk, guard):
        """assign mk(path, leafty, iw|None, cidx) to every leaf below loc"""
        if cnt is not None:
            t = self.type_at(loc.obj, loc.path)
            if cnt > 1 and not isinstance(t, (ArrTy, StructTy)) and guard is X.TRUE:
                li = self.leafinfo(loc.obj, loc.path)
                if not li.exploded and len(li.dims) == 1 and li.dims[0] == cnt and loc.idx[-1].op == 'c' and loc.idx[-1].v == 0:
                    st.mem[(loc.obj.base, loc.path, None)] = mk(loc.obj, loc.path, t, li.iw)
                    return
            for k in range(cnt):
                d = Loc(loc.obj, loc.path, loc.idx[:-1] + (X.add(loc.idx[-1], X.const(k, 64)),))
                self.fill_node(st, d, None, mk, guard)
            return
        t = self.type_at(loc.obj, loc.path)
        for (sp, lt) in self.leaves(t):
            nd = sum(1 for q in sp if q == '*')
            p = loc.path + sp
            li = self.leafinfo(loc.obj, p)
            if nd == 0:
                self.write_leaf(st, loc.obj, p, loc.idx, mk(loc.obj, p, lt, None), guard)
                continue
            fd = li.dims[len(li.dims) - nd:]
            if li.exploded:
                for ci in _indices(fd):
                    ce = tuple(X.const(c, 64) for c in ci)
                    self.write_leaf(st, loc.obj, p, loc.idx + ce, mk(loc.obj, p, lt, None), guard)
                continue
            na = mk(loc.obj, p, lt, li.iw)
            if nd != len(li.dims):
                b = X.boundvar(li.iw)
                fw = sum(li.widths[len(li.dims) - nd:])
                pd = self.prefix_expr(li, loc.idx)
                pre = X.extract(b, li.iw - 1, fw)
                da = self.read(st.mem, loc.obj, p, None)
                na = X.arrlambda(b, X.ite(X.eq(pre, pd), X.sel(na, b), X.sel(da, b)))
            if guard is not X.TRUE:
                na = X.aite(guard, na, self.read(st.mem, loc.obj, p, None))
            st.mem[(loc.obj.base, p, None)] = na

    def havoc_mk(self, tag):
        def mk(obj, path, lt, iw):
            nm = '%s%s' % (tag, self.cellname(obj, path, None) if path.count('*') == 0 else
                           self.cellname(obj, path, ['?'] * 0 or None) if iw is not None else self._pn(obj, path))
            if iw is None:
                if lt is PTR:
                    return ptr1(Opaque('havoc:' + nm))
                return self.fresh(nm, self.elwidth(lt))
            return self.fresharr(nm, iw, self.elwidth(lt))
        return mk

    def _pn(self, obj, path):
        return obj.base.name + ''.join('[]' if p == '*' else '.%s' % (p,) for p in path)

    def zero_mk(self, byte=0):
        def mk(obj, path, lt, iw):
            if lt is PTR:
                if byte:
                    raise Unsupported('memset pointer')
                if iw is None:
                    return NULL
                return X.arrconst(X.const(0, 64), iw)
            w = self.elwidth(lt)
            v = 0
            for _ in range(w // 8):
                v = (v << 8) | byte
            c = X.const(v, w)
            return c if iw is None else X.arrconst(c, iw)
        return mk

    # ------------------------------------------------ globals
    def global_obj(self, name):
        o = self.objs.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            if g is None:
                raise Unsupported('unknown global %s' % name)
            ty, init, const = g
            if const:
                o = Obj(name, ty, 'init', init, ro=True)
            elif init is None:
                o = Obj(name, ty, 'sym')
            elif not (name in self.init_globals or ('*' in self.init_globals and not name.startswith('kvg_'))):
                o = Obj(name, ty, 'sym')
            else:
                o = Obj(name, ty, 'init' if init[0] != 'zero' else 'zero', init)
            if name.startswith('.str') or name.startswith('__PRETTY') or name.startswith('__func__'):
                o.real = False
            self.objs[name] = o
        return o

    flat = []
    init_globals = set()    # non-constant globals hold an arbitrary value unless listed here

    def constval(self, ty, v):
        k = v[0]
        if k == 'i':
            if isinstance(ty, IntTy):
                if ty.bits == 1:
                    return X.bconst(v[1] & 1)
                return X.const(v[1], ty.bits)
            raise Unsupported('const')
        if k == 'null':
            return NULL
        if k == 'g':
            n = v[1][1:].strip('"')
            if n in self.mod.funcs or n in self.mod.decls:
                return ptr1(Fn(n))
            return ptr1(Loc(self.global_obj(n), (), ()))
        if k in ('undef',):
            return self.undef(ty, 'undef')
        if k == 'zero':
            if ty is PTR:
                return NULL
            if isinstance(ty, IntTy):
                return X.FALSE if ty.bits == 1 else X.const(0, ty.bits)
            if isinstance(ty, StructTy):
                return tuple(self.constval(f, ('zero',)) for f in ty.fields)
            if isinstance(ty, FloatTy):
                return X.const(0, ty.bits)
        if k == 'f':
            return X.var('float:%s' % (v[1],), ty.bits)
        if k == 'cgep':
            base = self.constval(PTR, v[2])
            idx = [self.constval(t, o) for t, o in v[3]]
            idx = [X.sext(i, 64) if i.w < 64 else i for i in idx]
            return Ptr(tuple((g, self.gep(t, v[1], idx)) for g, t in base.alts))
        if k == 'ccast':
            kind, (t1, v1), t2 = v[1], v[2], v[3]
            x = self.constval(t1, v1)
            if kind == 'inttoptr':
                if x.op == 'c' and x.v == 0:
                    return NULL
                return ptr1(Opaque('int:%d' % x.v))
            raise Unsupported('const cast')
        if k == 'agg' and isinstance(ty, StructTy):
            return tuple(self.constval(t, o) for t, o in v[1])
        raise Unsupported('const value %r' % (v,))

    # ------------------------------------------------ function execution
    def call_function(self, name, args, st, ins=None):
        """execute function body; returns (state, retval) or raises Dead"""
        f = self.mod.funcs[name]
        if len(self.stack) > 60 or self.stack.count(name) > 6:
            raise Unsupported('recursion without contract: %s' % ' > '.join(self.stack[-8:] + [name]))
        I.parse_body(f)
        li = I.analyse_loops(f)
        self.stack.append(name)
        try:
            return Frame(self, f, li).run(args, st)
        finally:
            self.stack.pop()

    def call(self, st, name, args, ins, rty):
        """dispatch a call; returns (state, value)"""
        if self.deadline and _time.time() > self.deadline:
            raise Unsupported('execution time budget exceeded')
        h = INTRIN.get(name)
        if h is not None:
            r = h(self, st, args, ins, rty)
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], State):
                return r
            return st, r
        # contract?
        cn = self.contracts.get(name)
        if cn is not None:
            fr = self.cframes[-1] if self.cframes else None
            if fr is not None and fr['fn'] == name and fr['state'] == 'want' and fr['depth'] == len(self.stack):
                # the call inside kvc_<name> itself
                fr['state'] = 'done'
                if fr['mode'] == 'enforce':
                    fr['inbody'] = True
                    sp, self.spec = self.spec, 0
                    st2, rv = self.call_function(name, args, st, ins)
                    self.spec = sp
                    fr['inbody'] = False
                    self.check_frame(st2, fr, ins)
                    return st2, rv
                # replace: havoc
                for (g, l, cnt, nb) in fr['assigns']:
                    self.fill_node(st, l, cnt, self.havoc_mk('h:%s:' % name), g)
                if rty is VOID:
                    return st, None
                return st, self.fresh_val(rty, 'ret:%s' % name)
            return self.apply_contract(st, name, cn, args, ins)
        if name in self.mod.funcs:
            if name.startswith('kvc_'):
                return self.apply_contract(st, name[4:], name, args, ins)
            self.stats['inlined'][name] = self.stats['inlined'].get(name, 0) + 1
            if name.startswith('kvs_'):
                # specification function
                self.spec += 1
                try:
                    return self.call_function(name, args, st, ins)
                finally:
                    self.spec -= 1
            return self.call_function(name, args, st, ins)
        m = 'kvm_' + name
        if m in self.mod.funcs:
            self.stats['models'][name] = self.stats['models'].get(name, 0) + 1
            return self.call_function(m, args, st, ins)
        raise Unsupported('no model for external function %s (called from %s)' % (name, self.stack[-1:]))

    def fresh_val(self, ty, nm):
        if ty is VOID:
            return None
        if ty is PTR:
            return ptr1(Opaque('undef:' + nm))
        if isinstance(ty, IntTy) and ty.bits == 1:
            return self.fresh(nm, 0)
        if isinstance(ty, StructTy):
            return tuple(self.fresh_val(f, nm) for f in ty.fields)
        return self.fresh(nm, self.elwidth(ty))

    def apply_contract(self, st, fn, cn, args, ins):
        """execute kvc_<fn>: mode enforce for the outermost call of the enforced
        function, replace otherwise"""
        mode = 'replace'
        if self.enforced == fn and not self.enforce_used and not self.quiet:
            mode = 'enforce'
            self.enforce_used = True
        fr = {'fn': fn, 'mode': mode, 'state': 'want', 'assigns': [], 'snap': dict(st.mem), 'depth': len(self.stack) + 1,
              'inbody': False, 'ins': ins, 'caller': self.stack[-1] if self.stack else ''}
        if mode == 'replace':
            self.stats['contracts_used'][fn] = self.stats['contracts_used'].get(fn, 0) + 1
        if fn not in self.mod.funcs and fn not in self.mod.decls:
            raise Unsupported('contract for missing function %s' % fn)
        self.cframes.append(fr)
        self.spec += 1
        try:
            return self.call_function(cn, args, st, ins)
        finally:
            self.spec -= 1
            self.cframes.pop()

    def check_frame(self, st, fr, ins):
        """every cell of a non-local object that differs from the pre-state is covered by kv_assigns"""
        if self.quiet:
            return
        if fr.get('noframe'):
            return
        snap = fr['snap']
        for k, v in list(st.mem.items()):
            o, path, cidx = k
            if o.local or o.ghost:
                continue
            old = snap.get(k)
            if old is None:
                old = self.initial(o, path, cidx)
            if old is v:
                continue
            li = self.leafinfo(o, path)
            conds = []   # conditions under which this cell may change
            full = False
            b = None
            if cidx is None and li.dims:
                b = X.boundvar(li.iw)
            for (g, l, cnt, nb) in fr['assigns']:
                if l.obj.base is not o or path[:len(l.path)] != l.path:
                    continue
                c = g
                k2 = 0
                pos = li.iw
                nst = sum(1 for q in l.path if q == '*')
                for j in range(nst):
                    w = li.widths[j]
                    pos -= w
                    if cidx is not None:
                        cur = X.const(cidx[j], 64)
                    else:
                        cur = X.zext(X.extract(b, pos + w - 1, pos), 64)
                    if cnt is not None and j == nst - 1:
                        c = X.And(c, X.ult(X.sub(cur, l.idx[j]), X.const(cnt, 64)))
                    else:
                        c = X.And(c, X.eq(cur, l.idx[j]))
                if c is X.TRUE:
                    full = True
                    break
                conds.append(c)
            if full:
                continue
            ok = X.Or(*conds)
            if b is not None:
                same = X.eq(X.sel(v, b), X.sel(old, b))
                n = 1 << li.iw
                # only indices within the dimensions
                dom = X.TRUE
                pos = li.iw
                for d, w in zip(li.dims, li.widths):
                    pos -= w
                    if d != (1 << w):
                        dom = X.And(dom, X.ult(X.extract(b, pos + w - 1, pos), X.const(d, w)))
                goal = X.forall(b, n, X.Or(X.Not(dom), ok, same))
            else:
                goal = X.Or(ok, self.eqval(v, old))
            self.vc(st, 'frame', goal, self.srcname(o, path, cidx), '', ins)

    def srcname(self, o, path, cidx):
        return self.cellname(o, path, cidx)

    def eqval(self, a, b):
        if isinstance(a, X.E):
            return X.eq(a, b)
        if isinstance(a, Ptr):
            return self.ptr_eq(a, b)
        raise Unsupported('eqval')

    # ------------------------------------------------ pointers
    def leafnorm(self, loc):
        path, idx = loc.path, loc.idx
        t = self.type_at(loc.obj, path)
        while isinstance(t, (ArrTy, StructTy)):
            if isinstance(t, ArrTy):
                path = path + ('*',)
                idx = idx + (X.const(0, 64),)
                t = t.el
            else:
                if not t.fields:
                    break
                path = path + (0,)
                t = t.fields[0]
        return path, idx

    def target_eq(self, a, b):
        if a is None and b is None:
            return X.TRUE
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
                return X.TRUE
            na = a.name if isinstance(a, Opaque) else repr(a)
            nb = b.name if isinstance(b, Opaque) else repr(b)
            if na > nb:
                na, nb = nb, na
            return X.var('ptreq:%s:%s' % (na, nb), 0)
        if a is None or b is None:
            return X.FALSE
        if type(a) is not type(b):
            return X.FALSE
        if isinstance(a, Fn):
            return X.bconst(a.name == b.name)
        if a.obj.base is not b.obj.base:
            return X.FALSE
        pa, ia = self.leafnorm(a)
        pb, ib = self.leafnorm(b)
        if pa != pb:
            return X.FALSE
        return X.And(*[X.eq(x, y) for x, y in zip(ia, ib)])

    def ptr_eq(self, a, b):
        r = X.FALSE
        for (g, t) in a.alts:
            for (h, u) in b.alts:
                gh = X.And(g, h)
                if gh is X.FALSE:
                    continue
                r = X.Or(r, X.And(gh, self.target_eq(t, u)))
        return r

    def ptr_lin(self, p, ins):
        """(obj, path without last *, prefix idx, index) for relational operations"""
        if len(p.alts) != 1 or not isinstance(p.alts[0][1], Loc):
            raise Unsupported('pointer arithmetic on %r at %s' % (p, self.where(ins)))
        l = p.alts[0][1]
        path, idx = self.leafnorm(l)
        return l, path, idx

    def linoff(self, loc):
        """byte offset of loc within its object as a 64-bit term"""
        t = loc.obj.ty
        off = X.const(0, 64)
        k = 0
        for p in loc.path:
            if p == '*':
                t = layout(t).el
                layout(t)
                off = X.add(off, X.mul(loc.idx[k], X.const(t.size, 64)))
                k += 1
            elif isinstance(p, int):
                layout(t)
                off = X.add(off, X.const(t.offsets[p], 64))
                t = t.fields[p]
            else:
                off = X.add(off, X.const(p[1], 64))
        return off

    def ptr_diff(self, a, b, ins):
        r = None
        for (g, t) in a.alts:
            for (h, u) in b.alts:
                gh = X.And(g, h)
                if gh is X.FALSE:
                    continue
                if isinstance(t, Loc) and isinstance(u, Loc) and t.obj.base is u.obj.base:
                    v = X.sub(self.linoff(t), self.linoff(u))
                elif t is None and u is None:
                    v = X.const(0, 64)
                else:
                    v = X.var('ptrdiff:%r:%r' % (t, u), 64)
                r = v if r is None else X.ite(gh, v, r)
        return r


def _mulof(e, n):
    """e == n * q with q returned, or None"""
    if e.op == 'c':
        v = X.sgn(e.v, e.w)
        return X.const(v // n, e.w) if v % n == 0 else None
    if e.op == 'mul' and e.a[1].op == 'c' and e.a[1].v % n == 0:
        return X.mul(e.a[0], X.const(e.a[1].v // n, e.w))
    return None


def _indices(dims):
    if not dims:
        yield ()
        return
    for i in range(dims[0]):
        for r in _indices(dims[1:]):
            yield (i,) + r


# ------------------------------------------------------------------ frames
class Frame:
    def __init__(self, ex, f, li):
        self.ex = ex
        self.f = f
        self.li = li
        self.live = liveness(f)

    def pos(self, label, iters):
        chain = self.li.chain[label]
        out = []
        pre = ()
        for h, n in zip(chain, iters):
            out.append(self.li.ords[(pre, h)])
            out.append(n)
            pre = pre + (h,)
        out.append(self.li.ords[(pre, label)])
        return tuple(out)

    def next_iters(self, u, uit, v):
        cu, cv = self.li.chain[u], self.li.chain[v]
        out = []
        for k, h in enumerate(cv):
            if k < len(cu) and cu[k] == h:
                n = uit[k]
                if v == h:
                    n += 1       # back edge
                out.append(n)
            else:
                out.append(0)
        return tuple(out)

    def run(self, args, st):
        ex = self.ex
        f = self.f
        env = {}
        if len(args) < len(f.params):
            raise Unsupported('arity mismatch calling %s' % f.name)
        for (t, nm, byval), a in zip(f.params, args):
            if byval:
                raise Unsupported('byval parameter')
            env[nm] = a
        self.pending = {}        # (label, iters) -> list of (state, env, pred)
        self.heap = []
        self.rets = []
        self.allocas = {}
        entry = f.order[0]
        self.push(entry, tuple(0 for _ in self.li.chain[entry]), st, env, None)
        self.drain(None)
        if not self.rets:
            raise Dead()
        st, vals = merge_states(ex, [(s, {'r': v}) for s, v in self.rets], ['r'])
        for o in self.allocas.values():
            pass
        # drop locals
        dead = set(self.allocas.values())
        if dead:
            st.mem = {k: v for k, v in st.mem.items() if k[0] not in dead}
        return st, vals.get('r')

    def push(self, label, iters, st, env, pred):
        k = (label, iters)
        l = self.pending.get(k)
        if l is None:
            l = self.pending[k] = []
            heapq.heappush(self.heap, (self.pos(label, iters), label, iters))
        l.append((st, env, pred))

    def drain(self, stop):
        """run until heap empty; `stop`: (header, iters) of a cut loop: collect back-edge states"""
        ex = self.ex
        while self.heap:
            if stop is not None:
                # only process blocks inside the loop being cut
                p, label, iters = self.heap[0]
                if not self.inside(stop, label, iters):
                    return
                if label == stop[0] and iters == stop[2]:
                    return
            p, label, iters = heapq.heappop(self.heap)
            inc = self.pending.pop((label, iters))
            if label in self.li.body and self.cut_allowed(label) and (stop is None or (label, iters) != (stop[0], stop[1])):
                if iters[-1] == 0 and self.has_inv(label):
                    try:
                        self.cut_loop(label, iters, inc)
                    except Dead:
                        # the invariant cannot hold on this path: it is infeasible (its entry obligations stand)
                        s2 = (label, iters)
                        gone = [k for k in self.pending if self.inside(s2, k[0], k[1])]
                        for k in gone:
                            del self.pending[k]
                        self.heap = [x for x in self.heap if (x[1], x[2]) not in gone]
                        heapq.heapify(self.heap)
                    continue
            if label in self.li.body and iters and iters[-1] > 0:
                n = iters[-1]
                ex.stats['unrolled'] += 1
                if n > ex.max_unroll:
                    raise Unsupported('loop in %s unrolled more than %d times' % (self.f.name, ex.max_unroll))
                if n in (9, 17, 33, 65) or n % 64 == 1:
                    inc = [x for x in inc if self.feasible(x[0], n)]
                    if not inc:
                        continue
            self.block(label, iters, inc)

    def feasible(self, st, n=0):
        ex = self.ex
        # a loop with a concrete guard never needs the solver
        if ex.feas is None:
            return True
        ex.stats['feas'] += 1
        return ex.feas(st.pc, n)

    def inside(self, stop, label, iters):
        h, it = stop[0], stop[1]
        c = self.li.chain[label]
        d = len(it)
        return len(c) >= d and c[d - 1] == h and iters[:d - 1] == it[:d - 1]

    def has_inv(self, label):
        if self.loopkey(label) in self.ex.invs:
            return True
        mode = self.ex.cuts.get(self.f.name)
        if mode is None:
            return False
        mode = mode.split('-')[0]
        inner = not any(h != label and h in self.li.body[label] for h in self.li.headers)
        if mode == 'inner':
            return inner
        if mode == 'outer':
            return not any(h != label and label in self.li.body[h] for h in self.li.headers)
        return True

    def cut_allowed(self, label):
        return self.has_inv(label)

    def loopkey(self, label):
        return (self.f.name, self.li.headers.index(label))

    def block(self, label, iters, inc):
        ex = self.ex
        ex.stats['blocks'] += 1
        b = self.f.blocks[label]
        live = self.live[label]
        # phis
        phis = [i for i in b.instrs if i.op == 'phi']
        if phis:
            inc2 = []
            for (s, e, pred) in inc:
                e = dict(e)
                nv = {}
                for ph in phis:
                    for (v, l) in ph.a:
                        if l == pred:
                            nv[ph.res] = self.val(e, ph.ty, v)
                            break
                e.update(nv)
                inc2.append((s, e, pred))
            inc = inc2
            live = live | {p.res for p in phis}
        if len(inc) == 1:
            st, env = inc[0][0], dict(inc[0][1])
        else:
            st, env = merge_states(ex, [(s, e) for s, e, _ in inc], live)
        try:
            self.instrs(b, label, iters, st, env)
        except Dead:
            return

    def val(self, env, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        return self.ex.constval(ty, v)

    def instrs(self, b, label, iters, st, env):
        ex = self.ex
        val = self.val
        for ins in b.instrs:
            op = ins.op
            if op == 'load':
                t, v = ins.a[0]
                env[ins.res] = ex.load(st, val(env, t, v), ins.ty, ins)
            elif op == 'store':
                (t, v), (pt, pv) = ins.a
                ex.store(st, val(env, pt, pv), t, val(env, t, v), ins)
            elif op == 'gep':
                (bt, bv), idx = ins.a
                p = val(env, bt, bv)
                ii = []
                for (t, v) in idx:
                    x = val(env, t, v)
                    if isinstance(x, PInt):
                        raise Unsupported('gep with pointer integer')
                    if x.w == 0:
                        x = X.bool2bv(x, 64)
                    ii.append(X.sext(x, 64) if x.w < 64 else x)
                if isinstance(p, Ptr):
                    env[ins.res] = Ptr(tuple((g, ex.gep(t, ins.ty, ii)) for g, t in p.alts))
                else:
                    raise Unsupported('gep on %r' % (p,))
            elif op == 'bin':
                o, a, c = ins.a
                env[ins.res] = self.binop(st, o, val(env, ins.ty, a), val(env, ins.ty, c), ins)
            elif op == 'icmp':
                pred, a, c = ins.a
                env[ins.res] = self.icmp(pred, val(env, ins.ty, a), val(env, ins.ty, c), ins)
            elif op == 'cast':
                k, (t, v) = ins.a
                env[ins.res] = self.cast(k, t, val(env, t, v), ins.ty)
            elif op == 'alloca':
                o = self.allocas.get(ins.res)
                if o is None:
                    t = ins.ty
                    cnt = ins.a[0]
                    if cnt is not None:
                        n = val(env, cnt[0], cnt[1])
                        if n.op != 'c':
                            raise Unsupported('variable length array')
                        t = ArrTy(n.v, t)
                    ex.ncounter += 1
                    o = Obj('%s.%s#%d' % (self.f.name, ins.res[1:], ex.ncounter), t, 'undef', local=True)
                    self.allocas[ins.res] = o
                env[ins.res] = ptr1(Loc(o, (), ()))
            elif op == 'call':
                r = self.call(st, env, ins)
                if isinstance(r, tuple) and r and r[0] == '$fork':
                    raise Unsupported('fork')
                st2, rv = r
                if st2 is not st:
                    st.mem = st2.mem
                    st.pc = st2.pc
                if ins.res is not None:
                    env[ins.res] = rv
            elif op == 'br':
                t = ins.a[0]
                self.push(t, self.next_iters(label, iters, t), st, env, label)
            elif op == 'cbr':
                (ct, cv), a, c = ins.a
                cond = val(env, ct, cv)
                if cond.w:
                    cond = X.bv2bool(cond)
                cond = self.pcsimp(st, cond)
                if cond is X.TRUE or a == c:
                    self.push(a, self.next_iters(label, iters, a), st, env, label)
                elif cond is X.FALSE:
                    self.push(c, self.next_iters(label, iters, c), st, env, label)
                else:
                    s2 = st.fork(X.Not(cond))
                    st.pc = st.pc + (cond,)
                    self.push(a, self.next_iters(label, iters, a), st, env, label)
                    self.push(c, self.next_iters(label, iters, c), s2, dict(env), label)
            elif op == 'switch':
                (t, v), d, cases = ins.a
                x = val(env, t, v)
                groups = {}
                for (cv, l) in cases:
                    groups.setdefault(l, []).append(cv)
                rest = []
                targets = []
                for l, vs in groups.items():
                    c = X.Or(*[X.eq(x, X.const(q, x.w)) for q in vs])
                    c = self.pcsimp(st, c)
                    rest.append(X.Not(c))
                    targets.append((c, l))
                dc = self.pcsimp(st, X.And(*rest))
                merged = {}
                for c, l in targets + [(dc, d)]:
                    if c is X.FALSE:
                        continue
                    merged[l] = X.Or(merged.get(l, X.FALSE), c)
                first = True
                base = State(st.mem, st.pc)
                for l, c in merged.items():
                    s2 = base.fork(c)
                    self.push(l, self.next_iters(label, iters, l), s2, dict(env), label)
            elif op == 'ret':
                v = None
                if ins.a:
                    v = val(env, ins.a[0][0], ins.a[0][1])
                self.rets.append((st, v))
            elif op == 'unreachable':
                raise Dead()
            elif op == 'phi':
                pass
            elif op == 'select':
                (ct, cv), (t, a), (t2, c) = ins.a
                env[ins.res] = merge_val(val(env, ct, cv), val(env, t, a), val(env, t2, c))
            elif op == 'extractvalue':
                (t, v), _, idx = ins.a
                x = val(env, t, v)
                for k in idx:
                    x = x[k]
                env[ins.res] = x
            elif op == 'insertvalue':
                (t, v), (t2, v2), idx = ins.a
                x = val(env, t, v)

                def upd(x, idx, nv):
                    l = list(x)
                    l[idx[0]] = nv if len(idx) == 1 else upd(l[idx[0]], idx[1:], nv)
                    return tuple(l)
                env[ins.res] = upd(x, idx, val(env, t2, v2))
            elif op == 'freeze':
                env[ins.res] = val(env, ins.a[0][0], ins.a[0][1])
            elif op == 'fcmp':
                pred, a, c = ins.a
                env[ins.res] = X.ne(X.uf('fcmp_' + pred, (val(env, ins.ty, a), val(env, ins.ty, c)), 1), X.const(0, 1))
            elif op == 'fneg':
                env[ins.res] = X.uf('fneg', (val(env, ins.ty, ins.a[0]),), ins.ty.bits)
            else:
                raise Unsupported('instruction %s' % op)

    def pcsimp(self, st, cond):
        """syntactic simplification of a branch condition by the path condition"""
        if cond.op == 'c':
            return cond
        pc = st.pc
        if cond in pc:
            return X.TRUE
        n = X.Not(cond)
        if n in pc:
            return X.FALSE
        pcs = frozenset(pc)
        if self.ex.conflict(n, pcs):
            return X.TRUE
        if self.ex.conflict(cond, pcs):
            return X.FALSE
        return cond

    def call(self, st, env, ins):
        ex = self.ex
        cal, args = ins.a
        av = []
        for (t, v, byval) in args:
            av.append(self.val(env, t, v))
        if cal[0] == 'g':
            return ex.call(st, cal[1][1:].strip('"'), av, ins, ins.ty)
        p = env[cal[1]]
        alts = [(g, t) for g, t in p.alts]
        live = []
        for g, t in alts:
            if t is None:
                ex.vc(st, 'null', X.Not(g), 'call', '', ins)
            elif isinstance(t, Fn):
                live.append((g, t))
            elif isinstance(t, Opaque):
                if ex.feas and not ex.feas(st.pc + (g,)):
                    continue
                raise Unsupported('call through unknown pointer %s in %s' % (t.name, ex.stack))
            else:
                ex.vc(st, 'call-data', X.Not(g), '', '', ins)
        if len(live) == 1:
            return ex.call(st, live[0][1].name, av, ins, ins.ty)
        res = []
        for g, t in live:
            s2 = st.fork(g)
            try:
                s3, rv = ex.call(s2, t.name, av, ins, ins.ty)
                res.append((s3, {'r': rv}))
            except Dead:
                pass
        if not res:
            raise Dead()
        s, e = merge_states(ex, res, ['r'])
        return s, e.get('r')

    def binop(self, st, o, a, b, ins):
        ex = self.ex
        if isinstance(a, PInt) or isinstance(b, PInt):
            if o == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                return ex.ptr_diff(a.p, b.p, ins)
            raise Unsupported('pointer integer arithmetic')
        if o in ('udiv', 'sdiv', 'urem', 'srem') and not ex.spec:
            ex.vc(st, 'div0', X.ne(b, X.const(0, b.w)), '', '', ins)
        if o[0] == 'f':
            return X.uf(o, (a, b), a.w)
        return BINF[o](a, b)

    def icmp(self, pred, a, b, ins):
        ex = self.ex
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred == 'eq':
                return ex.ptr_eq(a, b)
            if pred == 'ne':
                return X.Not(ex.ptr_eq(a, b))
            d = ex.ptr_diff(a, b, ins)
            z = X.const(0, 64)
            if pred in ('ult', 'slt'):
                return X.slt(d, z)
            if pred in ('ule', 'sle'):
                return X.sle(d, z)
            if pred in ('ugt', 'sgt'):
                return X.slt(z, d)
            return X.sle(z, d)
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported('icmp on pointer integers')
        if a.w == 0 or b.w == 0:
            if pred == 'eq':
                return X.eq(a, b)
            if pred == 'ne':
                return X.Not(X.eq(a, b))
            a, b = X.bool2bv(a), X.bool2bv(b)
        return ICMP[pred](a, b)

    def cast(self, k, t, v, to):
        if k == 'zext':
            if v.w == 0:
                return X.bool2bv(v, to.bits)
            return X.zext(v, to.bits)
        if k == 'sext':
            if v.w == 0:
                return X.ite(v, X.const(-1, to.bits), X.const(0, to.bits))
            return X.sext(v, to.bits)
        if k == 'trunc':
            if isinstance(v, PInt):
                raise Unsupported('trunc of pointer')
            if to.bits == 1:
                return X.bv2bool(X.trunc(v, 1))
            return X.trunc(v, to.bits)
        if k == 'ptrtoint':
            return PInt(v)
        if k == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if v.op == 'c' and v.v == 0:
                return NULL
            return ptr1(Opaque('int'))
        if k == 'bitcast':
            return v
        # float conversions: uninterpreted
        w = to.bits
        if v.w == 0:
            v = X.bool2bv(v, 8)
        return X.uf('%s_%d' % (k, w), (v,), w)

    # ---------------------------------------------------------- loop cutting
    def cut_loop(self, header, iters, inc):
        """replace the iterations of a loop by an arbitrary one that satisfies an inductive invariant.  The
        invariant is the largest inductive subset of the candidate clauses (Houdini); the surviving clauses
        are emitted as obligations and proved with everything else."""
        ex = self.ex
        if len(inc) == 1:
            st, env = inc[0][0], dict(inc[0][1])
        else:
            st, env = merge_states(ex, [(s, e) for s, e, _ in inc], self.live[header])
        for i in self.f.blocks[header].instrs:
            if i.op == 'phi':
                raise Unsupported('phi in cut loop header')
        ex.stats['loops_cut'] += 1
        where = '%s loop %d' % (self.f.name, self.li.headers.index(header))
        entry = dict(st.mem)
        back = iters[:-1] + (iters[-1] + 1,)
        stop = (header, iters, back)
        cands = None
        dropped = ex.hmemo.setdefault((self.f.name, header), set())
        W = {}
        for rnd in range(60):
            if rnd == 59:
                raise Unsupported('invariant inference for %s does not stabilise' % where)
            snap = ex.snapshot()
            s2 = State(dict(st.mem), st.pc)
            self.havoc_keys(s2, W, 'd')
            ex.quiet += 1
            saved_rets, self.rets = self.rets, []
            hsave, psave = self.heap, self.pending
            self.heap, self.pending = [], {}
            try:
                if cands is not None:
                    for c in cands:
                        g = c.eval(self, s2, env, entry)
                        if HDEBUG and g is X.FALSE:
                            print('HOUD false', where, c.name, [str(f)[:300] for f in s2.pc[-3:]])
                        ex.assume(s2, g)
                pre = dict(s2.mem)
                try:
                    self.run_body(header, iters, s2, dict(env), stop)
                except Dead:
                    if HDEBUG:
                        import traceback
                        traceback.print_exc()
                ends = self.pending.get((header, back), [])
                new = self.writes(ends, pre, W)
                if new:
                    for k, v in new.items():
                        W[k] = v
                    cands = [c for c in self.candidates(header, st, env, entry, W) if c.name not in dropped]
                    # entry
                    ok = []
                    for c in cands:
                        ex.quiet -= 1
                        q = ex.spec
                        ex.spec += 1
                        ex.quiet += 1
                        try:
                            g = c.eval(self, st, env, entry)
                        finally:
                            ex.spec = q
                        if g is X.TRUE or ex.prove(st.pc, g):
                            ok.append(c)
                        else:
                            dropped.add(c.name)
                            if HDEBUG:
                                print('HOUD entry', where, c.name, {k: v for k, v in sorted(getattr(getattr(getattr(ex.prover, '__self__', None), 'why', None), 'vars', {}).items()) if v} if os.environ['KV_HOUD'] in c.name else '', flush=True)
                    cands = ok
                    continue
                bad = []
                for c in cands or ():
                    for (e, ev, _) in ends:
                        g = c.eval(self, e, ev, entry)
                        if g is not X.TRUE and not ex.prove(e.pc, g):
                            bad.append(c)
                            if HDEBUG:
                                w = getattr(ex.prover, '__self__', None)
                                w = getattr(w, 'why', None)
                                print('HOUD step', where, c.name, w if w == 'unknown' else 'model', flush=True)
                                if os.environ['KV_HOUD'] in c.name:
                                    print('  ', {k: v for k, v in sorted(w.vars.items()) if v} if hasattr(w, 'vars') else w, flush=True)
                            break
                if not bad:
                    break
                for c in bad:
                    dropped.add(c.name)
                cands = [c for c in cands if c not in bad]
            finally:
                ex.quiet -= 1
                self.heap, self.pending = hsave, psave
                self.rets = saved_rets
                ex.restore(snap)
        cands = cands or []
        ex.invlog.setdefault(where, set()).update(c.name for c in cands)
        for c in cands:
            ex.vc(st, 'inv-entry', c.eval(self, st, env, entry), where + ': ' + c.name)
        # arbitrary iteration
        self.havoc_keys(st, W, 'L')
        free = State(st.mem, ())
        for c in cands:
            # a template holds when the fresh values equal the entry values: it can be asserted unconditionally
            ex.assume(free if isinstance(c, TCand) and c.kind in ('le', 'ge', 'diff', 'sum') else st, c.eval(self, st, env, entry))
        seen = {id(x[0]) for l in self.pending.values() for x in l}
        base = st.pc
        nret = len(self.rets)
        self.run_body(header, iters, st, env, stop)
        ends = self.pending.pop((header, back), [])
        outs = [x[0] for l in self.pending.values() for x in l if id(x[0]) not in seen]
        if len(outs) == 1 and len(self.rets) == nret and outs[0].pc[:len(base)] == base:
            # the only way out: its condition is known to hold afterwards (partial correctness)
            o = outs[0]
            extra = o.pc[len(base):]
            o.pc = base
            ex.assume(o, X.And(*extra))
        if ends:
            self.heap = [x for x in self.heap if not (x[1] == header and x[2] == back)]
            heapq.heapify(self.heap)
            for (s, e, _) in ends:
                for c in cands:
                    ex.vc(s, 'inv-step', c.eval(self, s, e, entry), where + ': ' + c.name)

    def writes(self, ends, pre, W):
        ex = self.ex
        new = {}
        for (e, _, _) in ends:
            for k, v in e.mem.items():
                if k in W:
                    continue
                if k[0].local and k[0] not in self.allocas.values() and k not in pre:
                    continue
                o = pre.get(k)
                if o is None:
                    o = ex.initial(k[0], k[1], k[2])
                if o is not v and not (isinstance(v, Ptr) and isinstance(o, Ptr) and len(v.alts) == 1 and len(o.alts) == 1
                                       and same_target(v.alts[0][1], o.alts[0][1])):
                    new[k] = v
        return new

    def candidates(self, header, st, env, entry, W):
        ex = self.ex
        out = []
        ints = []
        for k in W:
            li = self.ex.leafinfo(k[0], k[1])
            if li.ty is PTR or (li.dims and k[2] is None):
                continue
            ints.append(k)
        if '-nt' in (ex.cuts.get(self.f.name) or ''):
            ints = []        # no template candidates: the written ones suffice
        for k in ints:
            out.append(TCand('le', k))
            out.append(TCand('ge', k))
        if len(ints) <= 8:
            for a in range(len(ints)):
                for b in range(len(ints)):
                    if a < b:
                        out.append(TCand('diff', ints[a], ints[b]))
                        out.append(TCand('sum', ints[a], ints[b]))
        gh = [k for k in ints if k[0].name.lstrip('@').startswith('kvg_')]
        sc = [k for k in ints if not k[0].local and k not in gh]
        if gh and sc and len(gh) * len(sc) <= 32:
            # a state variable records a ghost condition (as a truth value or in one bit)
            for g in gh:
                for k in sc:
                    out.append(TCand('bool', g, k))
                    for bit in range(min(4, ex.elwidth(ex.leafinfo(k[0], k[1]).ty))):
                        out.append(TCand('bit%d' % bit, g, k))
        pre = 'kvinv_%s_' % self.f.name
        for n, f in self.ex.mod.funcs.items():
            if n.startswith(pre) or n == pre[:-1] or n.startswith('kvinv_any_'):
                combos = [[]]
                for (t, nm, _) in f.params:
                    opts = []
                    m = re.match(r'%?v(\d+)(_|$)', nm)
                    if m:
                        # the integer local named after the '__', else any integer local of that width
                        tail = nm.split('__')[1] if '__' in nm else None
                        for o in self.allocas.values():
                            if isinstance(o.ty, IntTy) and o.ty.bits == int(m.group(1)):
                                if tail and o.name.split('.')[-1].split('#')[0] == tail:
                                    opts = [ptr1(Loc(o, (), ()))]
                                    break
                                opts.append(ptr1(Loc(o, (), ())))
                    else:
                        r = self.local(env, nm)
                        if r is not None:
                            opts.append(r)
                    combos = [c + [o] for c in combos for o in opts]
                for args in combos:
                    out.append(CCand(n, args))
        return out

    def local(self, env, nm):
        """pointer to the local variable or parameter called nm"""
        if nm.endswith('.addr'):
            nm = nm[:-5]
        for cand in (nm + '.addr', nm):
            for e in (cand, '%' + cand):
                p = env.get(e)
                if isinstance(p, Ptr) and len(p.alts) == 1 and isinstance(p.alts[0][1], Loc) and p.alts[0][1].obj in self.allocas.values():
                    return p
        return None

    def assume_inv(self, inv, st, env, entry):
        g = inv(self, st, env, entry, 'assume')
        self.ex.assume(st, g)

    def run_body(self, header, iters, st, env, stop):
        self.block(header, iters, [(st, env, None)])
        self.drain(stop)

    def havoc_keys(self, st, W, tag):
        ex = self.ex
        for k, v in W.items():
            o, path, cidx = k
            li = ex.leafinfo(o, path)
            nm = '%s:%s' % (tag, ex.cellname(o, path, cidx))
            if li.dims and cidx is None:
                st.mem[k] = ex.fresharr(nm, li.iw, ex.elwidth(li.ty))
            elif li.ty is PTR:
                st.mem[k] = self.havoc_ptr(st, k, v, nm)
            else:
                st.mem[k] = ex.fresh(nm, ex.elwidth(li.ty))

    def havoc_ptr(self, st, k, v, nm):
        """a pointer modified by the loop: keeps its target pattern, index becomes arbitrary"""
        ex = self.ex
        old = st.mem.get(k)
        pats = []
        for p in (old, v):
            if isinstance(p, Ptr):
                for g, t in p.alts:
                    if isinstance(t, Loc):
                        key = (t.obj, t.path)
                        if key not in [x[0] for x in pats]:
                            # keep prefix indices that are identical
                            pats.append((key, t.idx))
                    else:
                        if (t if t is None else repr(t)) not in [x[0] for x in pats]:
                            pats.append((t if t is None else repr(t), t))
        alts = []
        rest = X.TRUE
        for n, (key, idx) in enumerate(pats):
            last = n == len(pats) - 1
            g = rest if last else X.And(rest, ex.fresh(nm + ':alt%d' % n, 0))
            if not last:
                rest = X.And(rest, X.Not(g.a[-1] if False else g))
            if isinstance(key, tuple):
                ni = tuple(ex.fresh(nm + ':idx', 64) if j == len(idx) - 1 or idx[j].op != 'c' else idx[j] for j in range(len(idx)))
                alts.append((g, Loc(key[0], key[1], ni)))
            else:
                alts.append((g, idx if not isinstance(idx, tuple) else None))
        return Ptr(tuple(alts))


class TCand:
    """template candidate over modified scalars"""

    def __init__(self, kind, *keys):
        self.kind = kind
        self.keys = keys
        self.name = kind + ' ' + ', '.join('%s%s' % (k[0].name, ''.join('.%s' % p for p in k[1])) for k in keys)

    def eval(self, fr, st, env, entry):
        ex = fr.ex
        cur, ini = [], []
        for k in self.keys:
            li = ex.leafinfo(k[0], k[1])
            c = st.mem.get(k)
            i = entry.get(k)
            cur.append(c if c is not None else ex.initial(*k))
            ini.append(i if i is not None else ex.initial(*k))
        if any(not isinstance(x, X.E) or isinstance(x.w, tuple) or x.w == 0 for x in cur + ini):
            return X.TRUE
        if self.kind == 'bool':
            return X.eq(X.eq(cur[0], X.const(0, cur[0].w)), X.eq(cur[1], X.const(0, cur[1].w)))
        if self.kind.startswith('bit'):
            m = 1 << int(self.kind[3:])
            return X.eq(X.eq(cur[0], X.const(0, cur[0].w)), X.eq(X.band(cur[1], X.const(m, cur[1].w)), X.const(0, cur[1].w)))
        if self.kind == 'le':
            return X.ule(cur[0], ini[0])
        if self.kind == 'ge':
            return X.ule(ini[0], cur[0])
        z = [X.zext(x, 64) if x.w < 64 else x for x in cur + ini]
        f = X.sub if self.kind == 'diff' else X.add
        if cur[0].w == cur[1].w:
            return X.eq(f(cur[0], cur[1]), f(ini[0], ini[1]))
        # mixed widths: compare modulo the smaller
        w = max(cur[0].w, cur[1].w)
        a, b = [X.zext(x, w) for x in cur], [X.zext(x, w) for x in ini]
        return X.eq(f(a[0], a[1]), f(b[0], b[1]))


HDEBUG = bool(os.environ.get('KV_HOUD'))


class CCand:
    """candidate written in C: kvinv_<function>_<name>(pointers to named locals)"""

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args
        self.name = fn + ''.join('.' + a.alts[0][1].obj.name for a in args)

    def eval(self, fr, st, env, entry):
        ex = fr.ex
        s2 = State(dict(st.mem), st.pc)
        ex.spec += 1
        ex.quiet += 1
        nf = len(ex.facts)
        # KV_OLD in a candidate means: at loop entry
        ex.cframes.append({'fn': self.fn, 'mode': 'inv', 'state': 'none', 'assigns': [], 'snap': entry, 'depth': -1,
                           'inbody': False, 'ins': None, 'caller': ''})
        try:
            s3, rv = ex.call_function(self.fn, self.args, s2)
        except Dead:
            return X.FALSE
        finally:
            ex.cframes.pop()
            ex.spec -= 1
            ex.quiet -= 1
            del ex.facts[nf:]
        return X.bv2bool(rv) if rv.w else rv


FEASN = {2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 17, 20, 24, 28, 31, 32, 33, 40, 48, 56, 64}


def merge_states(ex, lst, live):
    """lst: list of (State, env)"""
    if len(lst) == 1:
        s, e = lst[0]
        return s, dict(e)
    # common prefix of path conditions
    pcs = [s.pc for s, _ in lst]
    n = min(len(p) for p in pcs)
    k = 0
    p0 = pcs[0]
    while k < n and all(p[k] is p0[k] for p in pcs[1:]):
        k += 1
    rests = [X.And(*p[k:]) for p in pcs]
    pc = p0[:k]
    # fold: start from the last
    st0, env0 = lst[-1]
    mem = st0.mem
    acc = dict(mem)
    env = {v: env0[v] for v in live if v in env0}
    accg = rests[-1]
    for (s, e), g in zip(lst[-2::-1], rests[-2::-1]):
        # when only two: g vs not g
        m2 = s.mem
        gg = g
        # prefer a small guard: literals of g that contradict the accumulated guard
        gg = _small_guard(g, accg)
        for key, v in m2.items():
            o = acc.get(key)
            if o is v:
                continue
            if o is None:
                if key[0].local:
                    acc[key] = v
                    continue
                o = ex.initial(key[0], key[1], key[2])
                if o is v:
                    acc[key] = v
                    continue
            acc[key] = merge_val(gg, v, o)
        for key in list(acc.keys()):
            if key not in m2:
                o = acc[key]
                if key[0].local:
                    continue
                v = ex.initial(key[0], key[1], key[2])
                if v is not o:
                    acc[key] = merge_val(gg, v, o)
        for v in live:
            if v in e:
                if v in env:
                    env[v] = merge_val(gg, e[v], env[v])
                else:
                    env[v] = e[v]
        accg = X.Or(accg, g)
    if accg is not X.TRUE:
        pc = pc + tuple(y for y in (accg.a if accg.op == 'and' else (accg,))
                        if not ex.ulit.get(y.id if y.op != 'not' else -1) and not (y.op == 'not' and ex.ulit.get(y.a[0].id) is False))
    return State(acc, pc), env


def _small_guard(g, other):
    """a conjunct of g whose negation is a conjunct of `other` discriminates the two"""
    ga = g.a if g.op == 'and' else (g,)
    oa = other.a if other.op == 'and' else (other,)
    os = set(oa)
    for c in ga:
        if X.Not(c) in os:
            return c
    return g


def liveness(f):
    r = getattr(f, 'src', None)
    if r is not None:
        return r
    use = {}
    deff = {}
    phiuse = {}
    for l in f.order:
        b = f.blocks[l]
        u, d = set(), set()
        for i in b.instrs:
            for v in operands(i):
                if i.op == 'phi':
                    continue
                if v not in d:
                    u.add(v)
            if i.op == 'phi':
                for (v, pl) in i.a:
                    if v[0] == 'l':
                        phiuse.setdefault((pl, l), set()).add(v[1])
            if i.res:
                d.add(i.res)
        use[l], deff[l] = u, d
    livein = {l: set(use[l]) for l in f.order}
    changed = True
    while changed:
        changed = False
        for l in reversed(f.order):
            out = set()
            for s in f.blocks[l].succs:
                phis = {i.res for i in f.blocks[s].instrs if i.op == 'phi'}
                out |= livein[s] - phis
                out |= phiuse.get((l, s), set())
            n = use[l] | (out - deff[l])
            if n != livein[l]:
                livein[l] = n
                changed = True
    # phi operands must also be live at entry of the block holding the phi (edge env)
    for (pl, l), vs in phiuse.items():
        pass
    f.src = livein
    return livein


def operands(i):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l':
                out.append(x[1])
            else:
                for y in x:
                    rec(y)
        elif isinstance(x, list):
            for y in x:
                rec(y)
    rec(i.a)
    return out


BINF = dict(add=X.add, sub=X.sub, mul=X.mul, udiv=X.udiv, urem=X.urem, sdiv=X.sdiv, srem=X.srem, shl=X.shl,
            lshr=X.lshr, ashr=X.ashr, xor=X.bxor)
BINF['and'] = X.band
BINF['or'] = X.bor
ICMP = dict(eq=X.eq, ne=X.ne, ult=X.ult, ule=X.ule, slt=X.slt, sle=X.sle,
            ugt=lambda a, b: X.ult(b, a), uge=lambda a, b: X.ule(b, a),
            sgt=lambda a, b: X.slt(b, a), sge=lambda a, b: X.sle(b, a))

INTRIN = {}
from . import intrin  # noqa: E402,F401
