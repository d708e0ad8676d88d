"""Built-in functions of the verifier: the kv_* specification vocabulary and the
few libc functions that are not modelled in C."""
from . import expr as X
from .irparse import IntTy, PTR, ArrTy, StructTy, VOID, layout
from .exec import (INTRIN, Unsupported, Dead, Ptr, Loc, Fn, Opaque, NULL, ptr1, State, merge_states, Obj, bits_for,
                   merge_val, _indices)


def intrin(*names):
    def d(f):
        for n in names:
            INTRIN[n] = f
        return f
    return d


def b(e):
    return e if e.w == 0 else X.bv2bool(e)


def cstring(ex, p):
    """concrete string of a literal pointer (or None)"""
    if isinstance(p, Ptr) and len(p.alts) == 1 and isinstance(p.alts[0][1], Loc):
        l = p.alts[0][1]
        o = l.obj
        if o.kind == 'init' and o.ro and o.init and o.init[0] in ('str', 'zero'):
            if o.init[0] == 'zero':
                return b''
            off = 0
            if l.idx:
                if l.idx[0].op != 'c':
                    return None
                off = l.idx[0].v
            s = o.init[1]
            if off <= len(s):
                return s[off:].split(b'\0')[0]
    return None


def lit(ex, p):
    s = cstring(ex, p)
    if s is None:
        raise Unsupported('literal string expected')
    return s.decode('latin1')


def const(e, what='constant'):
    if e.op != 'c':
        raise Unsupported('%s expected' % what)
    return e.v


def props_on(ex, s):
    if s in ('', '*') or ex.active_props is None:
        return True
    return bool(set(s.split()) & ex.active_props)


@intrin('kv_on')
def kv_on(ex, st, a, ins, rty):
    return X.const(1 if props_on(ex, lit(ex, a[0])) else 0, 32)


@intrin('kv_param')
def kv_param(ex, st, a, ins, rty):
    return X.const(ex.params.get(const(a[0]), 0), 32)


def do_assert(ex, st, c, kind, label, props, ins):
    sp, ex.spec = ex.spec, 0
    ex.vc(st, kind, c, label, props, ins)
    ex.spec = sp


@intrin('kv_assume')
def kv_assume(ex, st, a, ins, rty):
    ex.assume(st, b(a[0]))


@intrin('kv_assert')
def kv_assert(ex, st, a, ins, rty):
    c = b(a[0])
    do_assert(ex, st, c, 'assert', lit(ex, a[1]), lit(ex, a[2]) if len(a) > 2 else '', ins)
    ex.assume(st, c)


def shared(ex, props):
    """a clause common to all properties, discharged by the check of another property on this very run's source"""
    if props == '*' and ex.active_props and '-*' in ex.active_props:
        ex.nshared += 1
        return True
    return False


@intrin('kv_requires_')
def kv_requires(ex, st, a, ins, rty):
    fr = ex.cframes[-1]
    c = b(a[0])
    if fr['mode'] == 'enforce' or shared(ex, lit(ex, a[2])):
        ex.assume(st, c)
    else:
        # attribute to the caller
        s = ex.stack
        ex.stack = ex.stack[:-1]
        do_assert(ex, st, c, 'requires', '%s.%s' % (fr['fn'], lit(ex, a[1])), '', fr['ins'])
        ex.stack = s
        ex.assume(st, c)


@intrin('kv_ensures_')
def kv_ensures(ex, st, a, ins, rty):
    fr = ex.cframes[-1]
    c = b(a[0])
    if fr['mode'] == 'enforce' and not shared(ex, lit(ex, a[2])):
        s = ex.stack
        ex.stack = ex.stack[:-1] + [fr['fn']]
        do_assert(ex, st, c, 'ensures', lit(ex, a[1]), lit(ex, a[2]), ins)
        ex.stack = s
    ex.assume(st, c)


@intrin('kv_replacing')
def kv_replacing(ex, st, a, ins, rty):
    return X.const(0 if ex.cframes[-1]['mode'] == 'enforce' else 1, 32)


@intrin('kv_assigns')
def kv_assigns(ex, st, a, ins, rty):
    fr = ex.cframes[-1]
    p, n = a[0], const(a[1])
    for (g, t) in p.alts:
        if not isinstance(t, Loc):
            if t is None:
                continue
            raise Unsupported('kv_assigns target')
        for (l, cnt) in ex.subtree(t, n):
            if cnt == 'oob':
                raise Unsupported('kv_assigns range')
            fr['assigns'].append((g, l, cnt, n))


@intrin('kv_assigns_col')
def kv_assigns_col(ex, st, a, ins, rty):
    """kv_assigns_col(&arr[0].field, n): that field of all n elements"""
    n = const(a[1])
    for (g, t) in a[0].alts:
        ex.cframes[-1]['assigns'].append((g, t, n, 0))


@intrin('kv_flat')
def kv_flat(ex, st, a, ins, rty):
    """represent the arrays below this object as SMT arrays (not cell by cell)"""
    for (g, t) in a[0].alts:
        ex.flat.append((t.obj.base, t.path))
        if any(k[0] is t.obj.base and k[1][:len(t.path)] == t.path for k in st.mem):
            raise Unsupported('kv_flat after use')
        ex.leafcache.clear()


@intrin('kv_assigns_any')
def kv_assigns_any(ex, st, a, ins, rty):
    ex.cframes[-1]['noframe'] = True


def nondet(w):
    def f(ex, st, a, ins, rty):
        v = ex.fresh('in:' + lit(ex, a[0]), w)
        ex.symlog.append((v.v, w))
        return v
    return f


INTRIN['kv_u8'] = nondet(8)
INTRIN['kv_u16'] = nondet(16)
INTRIN['kv_u32'] = nondet(32)
INTRIN['kv_u64'] = nondet(64)
INTRIN['kv_int'] = nondet(32)
INTRIN['kv_long'] = nondet(64)


@intrin('kv_bool')
def kv_bool(ex, st, a, ins, rty):
    v = ex.fresh('in:' + lit(ex, a[0]), 1)
    ex.symlog.append((v.v, 1))
    return X.zext(v, 32)


@intrin('kv_havoc')
def kv_havoc(ex, st, a, ins, rty):
    n = const(a[1])
    for (g, t) in a[0].alts:
        if not isinstance(t, Loc):
            continue
        for (l, cnt) in ex.subtree(t, n):
            if cnt == 'oob':
                raise Unsupported('kv_havoc range')
            ex.fill_node(st, l, cnt, ex.havoc_mk('hv:'), g)


@intrin('kv_forall', 'kv_forall1')
def kv_forall(ex, st, a, ins, rty):
    n = const(a[0], 'forall domain')
    fn = a[1].alts[0][1]
    w = 64
    nw = bits_for(n)
    bv = X.boundvar(nw)
    bv.um = n - 1
    arg = X.zext(bv, 64)
    s2 = State(dict(st.mem), st.pc)
    ex.spec += 1
    ex.quiet += 1
    nf = len(ex.facts)
    try:
        s3, rv = ex.call(s2, fn.name, [arg, a[2]] if len(a) > 2 else [arg], ins, IntTy(32))
    except Dead:
        raise Unsupported('forall body is infeasible')
    finally:
        ex.quiet -= 1
        ex.spec -= 1
        del ex.facts[nf:]
    # cells first read inside the body are initial values: harmless
    f = X.forall(bv, n, b(rv))
    return X.bool2bv(f, 32)


@intrin('kv_old_')
def kv_old(ex, st, a, ins, rty):
    fr = ex.cframes[-1] if ex.cframes else None
    snap = fr['snap'] if fr else ex.base_snap
    out = []
    for (g, t) in a[0].alts:
        if isinstance(t, Loc):
            o = t.obj.base
            so = Obj.__new__(Obj)
            for s in ('name', 'ty', 'kind', 'init', 'ro', 'local', 'explode', 'ghost', 'freed', 'real'):
                setattr(so, s, getattr(o, s))
            so.base = o
            so.snap = snap
            # locals created after the snapshot keep their current value
            if o.local and not any(k[0] is o for k in snap):
                so = o
            t = Loc(so, t.path, t.idx)
        out.append((g, t))
    return Ptr(tuple(out))


@intrin('kv_symptr')
def kv_symptr(ex, st, a, ins, rty):
    """kv_symptr(&cell, base, n, nullable, label): cell := NULL | base + [0,n)"""
    cell, base, n, nullable, label = a
    n = const(n)
    lb = lit(ex, label)
    (g, t), = base.alts
    if not t.path or t.path[-1] != '*':
        t = ex.gep(t, ex.type_at(t.obj, t.path), [X.const(0, 64), X.const(0, 64)])
    alts = []
    if n > 1:
        if not (t.path and t.path[-1] == '*'):
            raise Unsupported('kv_symptr base')
        w = bits_for(n)
        i = ex.fresh('in:%s.idx' % lb, w)
        ex.symlog.append((i.v, w))
        if n != 1 << w:
            ex.assume(st, X.ult(i, X.const(n, w)))
        t = Loc(t.obj, t.path, t.idx[:-1] + (X.add(t.idx[-1], X.zext(i, 64)),))
    if const(nullable):
        nz = ex.fresh('in:%s.nonnull' % lb, 0)
        ex.symlog.append((nz.v, 0))
        alts = [(nz, t), (X.Not(nz), None)]
    else:
        alts = [(X.TRUE, t)]
    ex.store(st, cell, PTR, Ptr(tuple(alts)), ins)


@intrin('kv_cover')
def kv_cover(ex, st, a, ins, rty):
    if not ex.quiet:
        ex.covers.append((lit(ex, a[0]), st.pc, len(ex.facts)))


@intrin('kv_hint')
def kv_hint(ex, st, a, ins, rty):
    """a choice that makes it easy to show that the assumptions are satisfiable; used for nothing else"""
    ex.hints.append(X.as_bool(a[0]) if a[0].w else a[0])


@intrin('kv_stop')
def kv_stop(ex, st, a, ins, rty):
    raise Dead()


@intrin('kv_unreachable')
def kv_unreachable(ex, st, a, ins, rty):
    do_assert(ex, st, X.FALSE, 'unreachable', lit(ex, a[0]), '', ins)
    raise Dead()


@intrin('kv_uf')
def kv_uf(ex, st, a, ins, rty):
    """uninterpreted function of up to 4 64-bit arguments (rigid: state independent)"""
    return X.uf('uf:' + lit(ex, a[0]), [x for x in a[1:]], 64)


@intrin('kv_concrete')
def kv_concrete(ex, st, a, ins, rty):
    return X.const(0, 32)


@intrin('kv_verifying')
def kv_verifying(ex, st, a, ins, rty):
    return X.const(1, 32)


@intrin('__assert_fail')
def assert_fail(ex, st, a, ins, rty):
    if not ex.spec:
        ex.vc(st, 'abort', X.FALSE, 'assert(%s)' % lit(ex, a[0]), '', ins)
    raise Dead()


@intrin('abort')
def abort_(ex, st, a, ins, rty):
    if not ex.spec:
        ex.vc(st, 'abort', X.FALSE, 'abort', '', ins)
    raise Dead()


@intrin('exit', '_exit')
def exit_(ex, st, a, ins, rty):
    if ex.exit_is_violation and not ex.spec:
        ex.vc(st, 'exit', X.FALSE, 'exit', '', ins)
    raise Dead()


@intrin('_keyd_log', 'printf', 'fprintf', 'perror', 'puts', 'fputs', 'vprintf', 'vfprintf', 'fflush', 'err', 'warn',
        'llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0',
        'llvm.stackrestore.p0', 'usleep', 'putchar')
def noop(ex, st, a, ins, rty):
    if rty is VOID:
        return None
    return ex.fresh('lib', rty.bits)


@intrin('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
def memcpy_(ex, st, a, ins, rty):
    dst, src, n = a[0], a[1], a[2]
    if n.op == 'c' and n.v == 0:
        return dst if rty is not VOID else None
    ds = ex.deref(st, dst, ins)
    ss = ex.deref(st, src, ins)
    for (g, d) in ds:
        for (h, s) in ss:
            gh = X.And(g, h)
            if gh is X.FALSE:
                continue
            copy1(ex, st, d, s, n, gh, ins)
    return dst if rty is not VOID else None


def copy1(ex, st, d, s, n, g, ins):
    if n.op == 'c':
        nb = n.v
        ex.range_bounds(st, d, nb, g, ins)
        ex.range_bounds(st, s, nb, g, ins)
        dd, ss = ex.subtree(d, nb), ex.subtree(s, nb)
        if len(dd) == len(ss) and all(compat(ex, x, y) for x, y in zip(dd, ss)):
            for (l, c), (m, c2) in zip(dd, ss):
                ex.copy_node(st, l, m, c if c is not None else None, g)
            return
        # try to match node against array of nodes
        ty = None
        for (l, c) in dd + ss:
            pass
        if len(dd) == 1 and len(ss) == 1:
            (l, c), (m, c2) = dd[0], ss[0]
            # normalise both to element slices
            l2, n1 = elemslice(ex, l, c)
            m2, n2 = elemslice(ex, m, c2)
            if n1 == n2 and n1 is not None and ex.type_at(l2.obj, l2.path) is ex.type_at(m2.obj, m2.path):
                ex.copy_node(st, l2, m2, n1, g)
                return
        # bytewise
        if nb <= 64:
            vals = [ex.load_bytes(st, s if k == 0 else ex.byte_off(s, k), IntTy(8)) for k in range(nb)]
            for k in range(nb):
                t = d if k == 0 else ex.byte_off(d, k)
                if isinstance(t, Opaque):
                    continue
                store_byte(ex, st, t, vals[k], g)
            return
        raise Unsupported('memcpy %r <- %r (%d)' % (d, s, nb))
    # symbolic size: byte arrays
    d2, s2 = ex.byte_array_of(d) or elemloc(ex, d), ex.byte_array_of(s) or elemloc(ex, s)
    if d2 is None or s2 is None:
        raise Unsupported('memcpy of symbolic size %r <- %r' % (d, s))
    slice_bounds(ex, st, d2, n, g, ins)
    slice_bounds(ex, st, s2, n, g, ins)
    es = ex.type_at(d2.obj, d2.path).size
    if es != ex.type_at(s2.obj, s2.path).size:
        raise Unsupported('memcpy element size')
    if es != 1:
        from .exec import _mulof
        m = _mulof(n, es)
        if m is None:
            raise Unsupported('memcpy element multiple')
        n = m
        t = ex.type_at(d2.obj, d2.path)
        if isinstance(t, (StructTy, ArrTy)):
            for (sp, lt) in ex.leaves(t):
                if '*' in sp:
                    raise Unsupported('memcpy nested')
                copy_field_slice(ex, st, d2, s2, sp, n, g)
            return
    ex.copy_slice(st, d2, s2, n, g)


def copy_field_slice(ex, st, d, s, sp, n, g):
    dims = ex.type_at(d.obj, d.path[:-1]).n
    vals = []
    N = min(dims, X.umax(n))
    if N > 64:
        raise Unsupported('field slice')
    for k in range(N):
        kk = X.const(k, 64)
        vals.append(ex.read_leaf(st, s.obj, s.path + sp, s.idx[:-1] + (X.add(s.idx[-1], kk),)))
    for k in range(N):
        kk = X.const(k, 64)
        ex.write_leaf(st, d.obj, d.path + sp, d.idx[:-1] + (X.add(d.idx[-1], kk),), vals[k], X.And(g, X.ult(kk, n)))


def store_byte(ex, st, t, v, g):
    ex.store_loc(st, t, IntTy(8), v, g)


def slice_bounds(ex, st, l, n, g, ins):
    if ex.spec:
        return
    at = ex.type_at(l.obj, l.path[:-1])
    es = at.el.size
    dim = X.const(at.n, 64)
    i = l.idx[-1]
    if es != 1:
        from .exec import _mulof
        m = _mulof(n, es)
        if m is None:
            raise Unsupported('slice')
        n = m
    c = X.And(X.ule(i, dim), X.ule(n, X.sub(dim, i)))
    ex.vc(st, 'bounds', X.Implies(g, c), 'copy range', '', ins)
    ex.bounds(st, Loc(l.obj, l.path[:-1], l.idx[:-1]), g, ins)


def elemloc(ex, l):
    t = ex.type_at(l.obj, l.path)
    if isinstance(t, ArrTy):
        return Loc(l.obj, l.path + ('*',), l.idx + (X.const(0, 64),))
    return None


def elemslice(ex, l, c):
    if c == 'oob':
        return l, None
    if c is not None:
        return l, c
    t = ex.type_at(l.obj, l.path)
    if isinstance(t, ArrTy):
        return Loc(l.obj, l.path + ('*',), l.idx + (X.const(0, 64),)), t.n
    return l, 1


def compat(ex, x, y):
    (l, c), (m, c2) = x, y
    return c == c2 and c != 'oob' and ex.type_at(l.obj, l.path) is ex.type_at(m.obj, m.path)


@intrin('llvm.memset.p0.i64', 'memset')
def memset_(ex, st, a, ins, rty):
    dst, v, n = a[0], a[1], a[2]
    v = X.trunc(v, 8)
    for (g, d) in ex.deref(st, dst, ins):
        if n.op == 'c':
            if n.v == 0:
                continue
            ex.range_bounds(st, d, n.v, g, ins)
            if v.op != 'c':
                d2 = ex.byte_array_of(d)
                ex.fill_slice(st, d2, n, v, g)
                continue
            for (l, c) in ex.subtree(d, n.v):
                if c == 'oob':
                    continue
                ex.fill_node(st, l, c, ex.zero_mk(v.v), g)
        else:
            d2 = ex.byte_array_of(d)
            if d2 is None:
                raise Unsupported('memset')
            slice_bounds(ex, st, d2, n, g, ins)
            ex.fill_slice(st, d2, n, v, g)
    return dst if rty is not VOID else None


@intrin('llvm.stacksave.p0')
def stacksave(ex, st, a, ins, rty):
    return NULL


@intrin('kv_size_left')
def kv_size_left(ex, st, a, ins, rty):
    """number of elements between the pointer and the end of its array (bytes)"""
    r = None
    for (g, t) in a[0].alts:
        if isinstance(t, Loc):
            l = ex.byte_array_of(t)
            if l is None:
                v = X.const(1, 64)
            else:
                at = ex.type_at(l.obj, l.path[:-1])
                v = X.sub(X.const(at.n, 64), l.idx[-1])
        else:
            v = X.const(0, 64)
        r = v if r is None else X.ite(g, v, r)
    return r


# ------------------------------------------------------------------ strings
def byte_at(ex, st, l, k):
    return ex.read_leaf(st, l.obj, l.path, l.idx[:-1] + (X.add(l.idx[-1], k),))


def strlen1(ex, st, t, g, ins):
    """length of the NUL terminated string at t (a Loc); obligation: a NUL exists in bounds"""
    l = ex.byte_array_of(t)
    if l is None:
        raise Unsupported('strlen of %r' % (t,))
    o = l.obj
    s = cstring(ex, ptr1(t))
    if s is not None:
        return X.const(len(s), 64)
    at = ex.type_at(l.obj, l.path[:-1])
    dim = at.n
    i0 = l.idx[-1]
    key = (st_key(ex, st, l))
    m = ex.strmemo.get(key)
    if m is not None and m[0] is st.pc or m is not None and m[2] is X.TRUE:
        return m[1]
    # constant prefix: look for the first certain NUL
    w = bits_for(dim + 1)
    n = ex.fresh('strlen', w)
    n.um = dim
    n64 = X.zext(n, 64)
    bv = X.boundvar(w)
    bv.um = dim - 1
    k = X.zext(bv, 64)
    cur = ex.read_leaf(st, l.obj, l.path, l.idx[:-1] + (k,))
    # terminated: not all cells from i0 are non-zero
    allnz = X.forall(bv, dim, X.Or(X.ult(k, i0), X.ne(cur, X.const(0, 8))))
    if not ex.spec:
        ex.vc(st, 'bounds', X.Or(X.Not(g), X.And(X.ult(i0, X.const(dim, 64)), X.Not(allnz))), 'string is terminated', '', ins)
    end = X.add(i0, n64)
    ok = X.And(X.ult(end, X.const(dim, 64)), X.ule(i0, end),
               X.eq(ex.read_leaf(st, l.obj, l.path, l.idx[:-1] + (end,)), X.const(0, 8)),
               X.forall(bv, dim, X.Or(X.ult(k, i0), X.ule(end, k), X.ne(cur, X.const(0, 8)))))
    ex.assume(st, X.Implies(g, ok))
    ex.strmemo[key] = (st.pc, n64, X.And(*st.pc) if st.pc else X.TRUE)
    return n64


def st_key(ex, st, l):
    li = ex.leafinfo(l.obj, l.path)
    if li.exploded:
        cells = tuple(ex.read(st.mem, l.obj, l.path, ci).id for ci in _indices(li.dims))
        return (cells, tuple(x.id for x in l.idx))
    return (ex.read(st.mem, l.obj, l.path, None).id, tuple(x.id for x in l.idx))


@intrin('strlen')
def strlen_(ex, st, a, ins, rty):
    r = None
    alts = ex.deref(st, a[0], ins)
    if not alts:
        raise Dead()
    for (g, t) in reversed(alts):
        v = strlen1(ex, st, t, g, ins)
        r = v if r is None else X.ite(g, v, r)
    return r


def streq(ex, st, p, q, ins, lim=None, nocase=False):
    """boolean: strings equal (first lim bytes)"""
    r = X.FALSE
    for (g, t) in ex.deref(st, p, ins):
        for (h, u) in ex.deref(st, q, ins):
            gh = X.And(g, h)
            if gh is X.FALSE:
                continue
            s, z = cstring(ex, ptr1(t)), cstring(ex, ptr1(u))
            if s is not None and z is not None:
                if lim is not None:
                    s, z = s[:lim], z[:lim]
                e = X.bconst(s == z)
            else:
                if s is not None:
                    t, u, s, z = u, t, z, s
                l = ex.byte_array_of(t)
                if l is None:
                    raise Unsupported('streq')
                if z is not None:
                    zz = z + b'\0'
                    if lim is not None:
                        zz = zz[:lim]
                    e = X.TRUE
                    at = ex.type_at(l.obj, l.path[:-1])
                    for k, ch in enumerate(zz):
                        kk = X.const(k, 64)
                        if not ex.spec:
                            ex.vc(st, 'bounds', X.Implies(X.And(gh, e), X.ult(X.add(l.idx[-1], kk), X.const(at.n, 64))),
                                  'string compare', '', ins)
                        by = byte_at(ex, st, l, kk)
                        e = X.And(e, X.eq(by, X.const(ch, 8)))
                        if e is X.FALSE:
                            break
                else:
                    m = ex.byte_array_of(u)
                    if lim is not None:
                        e = X.TRUE
                        stop = X.FALSE
                        for k in range(lim):
                            kk = X.const(k, 64)
                            x, y = byte_at(ex, st, l, kk), byte_at(ex, st, m, kk)
                            e = X.And(e, X.Or(stop, X.eq(x, y)))
                            stop = X.Or(stop, X.eq(x, X.const(0, 8)))
                    else:
                        n1 = strlen1(ex, st, t, gh, ins)
                        n2 = strlen1(ex, st, u, gh, ins)
                        at = ex.type_at(l.obj, l.path[:-1])
                        bt = ex.type_at(m.obj, m.path[:-1])
                        dim = min(at.n, bt.n)
                        bv = X.boundvar(bits_for(dim))
                        bv.um = dim - 1
                        k = X.zext(bv, 64)
                        f = X.forall(bv, dim, X.Or(X.ule(n1, k), X.eq(byte_at(ex, st, l, k), byte_at(ex, st, m, k))))
                        e = X.And(X.eq(n1, n2), f)
            r = X.Or(r, X.And(gh, e))
    return r


def cmpres(ex, e):
    if e is X.TRUE:
        return X.const(0, 32)
    v = ex.fresh('strcmp', 32)
    nz = X.ite(X.eq(v, X.const(0, 32)), X.const(1, 32), v)
    return X.ite(e, X.const(0, 32), nz)


@intrin('strcmp')
def strcmp_(ex, st, a, ins, rty):
    return cmpres(ex, streq(ex, st, a[0], a[1], ins))


@intrin('strncmp')
def strncmp_(ex, st, a, ins, rty):
    if a[2].op != 'c':
        raise Unsupported('strncmp length')
    return cmpres(ex, streq(ex, st, a[0], a[1], ins, a[2].v))


@intrin('strcpy')
def strcpy_(ex, st, a, ins, rty):
    for (g, s) in ex.deref(st, a[1], ins):
        n = X.add(strlen1(ex, st, s, g, ins), X.const(1, 64))
        for (h, d) in ex.deref(st, a[0], ins):
            gh = X.And(g, h)
            if gh is X.FALSE:
                continue
            l, m = ex.byte_array_of(d), ex.byte_array_of(s)
            slice_bounds(ex, st, l, n, gh, ins)
            ex.copy_slice(st, l, m, n, gh)
    return a[0]


@intrin('snprintf', 'vsnprintf')
def snprintf_(ex, st, a, ins, rty):
    """buffer receives an arbitrary string that fits (format semantics modelled for short buffers and %s, %c only)"""
    n = a[1]
    if len(a) > 3:
        r = snprintf_exact(ex, st, a, ins)
        if r is not None:
            return r
    for (h, d) in ex.deref(st, a[0], ins):
        l = ex.byte_array_of(d)
        slice_bounds(ex, st, l, n, h, ins)
        w = bits_for(ex.type_at(l.obj, l.path[:-1]).n + 1)
        # arbitrary content, with a NUL at an arbitrary position < n
        li = ex.leafinfo(l.obj, l.path)
        k = ex.fresh('snprintf.len', 64)
        ex.assume(st, X.Or(X.eq(n, X.const(0, 64)), X.ult(k, n)))
        if li.exploded:
            for i in range(li.dims[-1]):
                ex.write_leaf(st, l.obj, l.path, l.idx[:-1] + (X.const(i, 64),), ex.fresh('snprintf', 8),
                              X.And(h, X.ult(X.sub(X.const(i, 64), l.idx[-1]), n)))
        else:
            na = ex.fresharr('snprintf', li.iw, 8)
            o = Obj('snprintf#%d' % ex.ncounter, ArrTy(1 << li.widths[-1], IntTy(8)), 'undef', local=True)
            ex.ncounter += 1
            st.mem[(o, ('*',), None)] = ex.fresharr('snprintf', li.widths[-1], 8)
            ex.leafcache.pop((id(o.ty), ('*',), o.explode), None)
            o.explode = 0
            ex.copy_slice(st, l, Loc(o, ('*',), (X.const(0, 64),)), n, h)
        ex.write_leaf(st, l.obj, l.path, l.idx[:-1] + (X.add(l.idx[-1], k),), X.const(0, 8), X.And(h, X.ne(n, X.const(0, 64))))
    return ex.fresh('snprintf.ret', 32)


def snprintf_exact(ex, st, a, ins):
    fmt = cstring(ex, a[2])
    alts = ex.deref(st, a[0], ins)
    if fmt is None or len(alts) != 1 or a[1].op != 'c':
        return None
    h, d = alts[0]
    l = ex.byte_array_of(d)
    if l is None or l.idx[-1].op != 'c':
        return None
    dim = ex.type_at(l.obj, l.path[:-1]).n
    if dim > 128:
        return None
    segs, args, i = [], list(a[3:]), 0
    while i < len(fmt):
        if fmt[i:i + 1] != b'%':
            segs.append(('c', X.const(fmt[i], 8)))
            i += 1
        elif fmt[i:i + 2] == b'%c' and args:
            segs.append(('c', X.trunc(args.pop(0), 8)))
            i += 2
        elif fmt[i:i + 2] == b'%s' and args:
            p = args.pop(0)
            if not isinstance(p, Ptr):
                return None
            t = ex.deref(st, p, ins)
            if len(t) != 1 or not isinstance(t[0][1], Loc) or ex.byte_array_of(t[0][1]) is None:
                return None
            segs.append(('s', ex.byte_array_of(t[0][1]), strlen1(ex, st, t[0][1], t[0][0], ins)))
            i += 2
        else:
            return None
    slice_bounds(ex, st, l, a[1], h, ins)
    offs, off = [], X.const(0, 64)
    for sg in segs:
        offs.append(off)
        off = X.add(off, X.const(1, 64) if sg[0] == 'c' else sg[2])
    base = l.idx[-1].v
    for k in range(dim - base):
        K = X.const(k, 64)
        v = X.const(0, 8)
        for sg, o in reversed(list(zip(segs, offs))):
            if sg[0] == 'c':
                v = X.ite(X.eq(K, o), sg[1], v)
            else:
                src = sg[1]
                ch = ex.read_leaf(st, src.obj, src.path, src.idx[:-1] + (X.add(src.idx[-1], X.sub(K, o)),))
                v = X.ite(X.And(X.ule(o, K), X.ult(X.sub(K, o), sg[2])), ch, v)
        v = X.ite(X.And(X.ult(K, off), X.ult(K, X.sub(a[1], X.const(1, 64)))), v, X.const(0, 8))
        ex.write_leaf(st, l.obj, l.path, l.idx[:-1] + (X.const(base + k, 64),), v,
                      X.And(h, X.ult(K, a[1]), X.ule(K, off)))
    return X.trunc(off, 32)


@intrin('strerror')
def strerror_(ex, st, a, ins, rty):
    return ptr1(Opaque('strerror'))


@intrin('fork', 'wait', 'close', 'dup2', 'execl', 'kill', 'getpid', 'isatty')
def fresh_int(ex, st, a, ins, rty):
    return ex.fresh('lib', 32)


@intrin('llvm.fmuladd.f64')
def fmuladd_(ex, st, a, ins, rty):
    return X.uf('fmuladd_64', tuple(a), 64)


@intrin('kv_index')
def kv_index(ex, st, a, ins, rty):
    """index number k of the element of nested arrays a pointer designates"""
    k = const(a[1], 'index number')
    r = None
    for g, t in reversed(a[0].alts):
        if isinstance(t, Loc) and k == len(t.idx) and isinstance(ex.type_at(t.obj, t.path), ArrTy):
            v = X.const(0, 64)
        elif not isinstance(t, Loc) or k >= len(t.idx):
            # not an element: an unspecified index
            v = ex.fresh('noindex', 64)
        else:
            v = t.idx[k]
            v = X.zext(v, 64) if v.w < 64 else v
        r = v if r is None else X.ite(g, v, r)
    return X.zext(r, 64) if r.w < 64 else r
