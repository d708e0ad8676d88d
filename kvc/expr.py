"""Hash-consed term layer: booleans (w == 0), bit-vectors (w > 0) and arrays
(w == (iw, ew)).  Simplification is done at construction time; every rewrite is
an equivalence.  Terms are turned into z3 terms by solve.py."""
import sys

sys.setrecursionlimit(200000)


class E:
    __slots__ = ('op', 'a', 'w', 'v', 'id', 'um', 'bv')
    # op, args, width, const value / name / payload, id, unsigned max, contains bound var

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_next = [0]


def _mk(op, a, w, v=None):
    k = (op, v, w) + tuple([x.id for x in a])
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        e.w = w
        e.v = v
        e.id = _next[0]
        e.um = None
        b = False
        for x in a:
            if x.bv:
                b = True
                break
        e.bv = b
        _next[0] += 1
        _tab[k] = e
    return e


def reset():
    """drop all terms (between tasks)"""
    _tab.clear()
    _selmemo.clear()
    _xmemo.clear()
    _tabv.clear()
    global TRUE, FALSE
    TRUE = _mk('c', (), 0, 1)
    FALSE = _mk('c', (), 0, 0)
    import sys as _s
    # keep module level names in importing modules valid: they must use expr.TRUE / bconst


_selmemo = {}
_xmemo = {}
_tabv = {}

TRUE = _mk('c', (), 0, 1)
FALSE = _mk('c', (), 0, 0)


def const(v, w):
    return _mk('c', (), w, v & ((1 << w) - 1))


def bconst(b):
    return TRUE if b else FALSE


def var(name, w):
    return _mk('v', (), w, name)


_bn = [0]


def boundvar(w):
    e = _mk('bvar', (), w, _bn[0])
    _bn[0] += 1
    e.bv = True
    return e


def isc(e):
    return e.op == 'c'


def set_um(e, c):
    m = umax(e)
    if c < m:
        e.um = c


def umax(e):
    """upper bound of the unsigned value"""
    m = e.um
    if m is not None:
        return m
    op = e.op
    full = (1 << e.w) - 1
    if op == 'c':
        m = e.v
    elif op == 'zext':
        m = umax(e.a[0])
    elif op == 'ite':
        m = max(umax(e.a[1]), umax(e.a[2]))
    elif op == 'and':
        m = min(umax(x) for x in e.a)
        if m < full and m:
            m = min(m, full)
    elif op in ('or', 'xor'):
        mx = max(umax(x) for x in e.a)
        m = (1 << mx.bit_length()) - 1
    elif op == 'add':
        m = umax(e.a[0]) + umax(e.a[1])
        if m > full:
            m = full
    elif op == 'mul':
        m = umax(e.a[0]) * umax(e.a[1])
        if m > full:
            m = full
    elif op == 'lshr' and e.a[1].op == 'c':
        m = umax(e.a[0]) >> min(e.a[1].v, e.w)
    elif op == 'shl' and e.a[1].op == 'c':
        m = umax(e.a[0]) << min(e.a[1].v, e.w)
        if m > full:
            m = full
    elif op == 'urem' and e.a[1].op == 'c' and e.a[1].v:
        m = min(umax(e.a[0]), e.a[1].v - 1)
    elif op == 'udiv':
        m = umax(e.a[0])
        if e.a[1].op == 'c' and e.a[1].v:
            m //= e.a[1].v
        elif e.a[1].op != 'c':
            m = full  # division by zero is all ones in SMT-LIB
    elif op == 'extract':
        m = umax(e.a[0])
        hi, lo = e.v
        m >>= lo
        if m > full:
            m = full
    elif op == 'concat':
        m = (umax(e.a[0]) << e.a[1].w) | ((1 << e.a[1].w) - 1)
    else:
        m = full
    e.um = m
    return m


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------- boolean
def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.w == 0 and a.op in ('and', 'or') and all(y.op == 'not' for y in a.a):
        return (Or if a.op == 'and' else And)(*[y.a[0] for y in a.a])
    return _mk('not', (a,), 0)


def _bound_lit(y):
    """(x, strict lower bound as an integer threshold t, positive): literal x >= t or x < t"""
    pos = True
    if y.op == 'not':
        pos = False
        y = y.a[0]
    if y.op != 'ult':
        return None
    a, b = y.a
    if a.op == 'c' and b.op != 'c':
        # a < b  <=>  b >= a+1
        return b, a.v + 1, pos
    if b.op == 'c' and a.op != 'c':
        # a < b  <=> not (a >= b)
        return a, b.v, not pos
    return None


def _bounds(s, conj):
    """subsumption among threshold literals; returns (list, absorbing?)"""
    lits = None
    for y in s:
        if y.op == 'ult' or (y.op == 'not' and y.a[0].op == 'ult'):
            l = _bound_lit(y)
            if l is not None:
                if lits is None:
                    lits = []
                lits.append((l, y))
    if lits is None or len(lits) < 2:
        return s, False
    by = {}
    for (x, t, pos), y in lits:
        by.setdefault(x.id, []).append((t, pos, y))
    drop = set()
    for l in by.values():
        if len(l) < 2:
            continue
        ge = [q for q in l if q[1]]
        lt = [q for q in l if not q[1]]
        pick = None
        if ge:
            g = max(ge, key=lambda q: q[0]) if conj else min(ge, key=lambda q: q[0])
            drop |= {q[2].id for q in ge if q is not g}
        if lt:
            h = min(lt, key=lambda q: q[0]) if conj else max(lt, key=lambda q: q[0])
            drop |= {q[2].id for q in lt if q is not h}
        if ge and lt:
            if conj and g[0] >= h[0]:
                return s, True
            if not conj and g[0] <= h[0]:
                return s, True
    if drop:
        s = [q for q in s if q.id not in drop]
    return s, False


def And(*xs):
    s = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and' and x.w == 0:
            it = x.a
        else:
            it = (x,)
        for y in it:
            if y.id in seen:
                continue
            seen.add(y.id)
            s.append(y)
    ch = False
    for i, y in enumerate(s):
        if y.op == 'or' and y.w == 0:
            # a & (!a | b)  ->  a & b
            zs = [z for z in y.a if not (z.op == 'not' and z.a[0].id in seen)]
            if len(zs) < len(y.a):
                if not zs:
                    return FALSE
                s[i] = Or(*zs)
                ch = True
        elif y.op == 'not' and y.a[0].op == 'and' and y.a[0].w == 0:
            zs = [z for z in y.a[0].a if z.id not in seen]
            if len(zs) < len(y.a[0].a):
                if not zs:
                    return FALSE
                s[i] = Not(And(*zs))
                ch = True
    if ch:
        return And(*s)
    for y in s:
        if y.op == 'not' and y.a[0].id in seen:
            return FALSE
    s, dead = _bounds(s, True)
    if dead:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda e: e.id)
    return _mk('and', tuple(s), 0)


def Or(*xs):
    s = []
    seen = set()
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or' and x.w == 0:
            it = x.a
        else:
            it = (x,)
        for y in it:
            if y.id in seen:
                continue
            seen.add(y.id)
            s.append(y)
    ch = False
    for i, y in enumerate(s):
        if y.op == 'not' and y.a[0].op == 'or' and y.a[0].w == 0:
            # a | !(a | b)  ->  a | !b
            zs = [z for z in y.a[0].a if z.id not in seen]
            if len(zs) < len(y.a[0].a):
                if not zs:
                    return TRUE
                s[i] = Not(Or(*zs))
                ch = True
        elif y.op == 'and' and y.w == 0:
            # a | (!a & b)  ->  a | b
            zs = []
            c2 = False
            for z in y.a:
                if z.op == 'not':
                    t = z.a[0]
                    if t.id in seen:
                        c2 = True
                        continue
                    if t.op == 'or' and t.w == 0:
                        us = [u for u in t.a if u.id not in seen]
                        if len(us) < len(t.a):
                            c2 = True
                            if us:
                                zs.append(Not(Or(*us)))
                            continue
                zs.append(z)
            if c2:
                s[i] = And(*zs)
                ch = True
    if ch:
        return Or(*s)
    for y in s:
        if y.op == 'not' and y.a[0].id in seen:
            return TRUE
        if y.op == 'and':
            # absorption a | (a & b)
            for z in y.a:
                if z.id in seen:
                    s = [q for q in s if q is not y]
                    break
    s, dead = _bounds(s, False)
    if dead:
        return TRUE
    # (a & b) | (a & !b)  ->  a   (common after branch joins)
    if len(s) == 2:
        p, q = s
        pa = p.a if p.op == 'and' else (p,)
        qa = q.a if q.op == 'and' else (q,)
        ps, qs = set(pa), set(qa)
        common = ps & qs
        if common:
            r1, r2 = ps - common, qs - common
            if len(r1) == 1 and len(r2) == 1:
                (u,), (v,) = r1, r2
                if Not(u) is v:
                    return And(*common)
            if not r1 or not r2:
                return And(*common)
            if len(common) >= 1:
                return And(*(list(common) + [Or(And(*r1), And(*r2))]))
        elif len(ps) == 1 and len(qs) > 1:
            u = pa[0]
            nu = Not(u)
            if nu in qs:
                return Or(u, And(*(qs - {nu})))
        elif len(qs) == 1 and len(ps) > 1:
            u = qa[0]
            nu = Not(u)
            if nu in ps:
                return Or(u, And(*(ps - {nu})))
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda e: e.id)
    return _mk('or', tuple(s), 0)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.w == 0:
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        if a is c:
            return Or(c, b)
        if b is c:
            return And(c, a)
    else:
        x = as_bool(a)
        if x is not None:
            y = as_bool(b)
            if y is not None:
                if x is TRUE and y is FALSE:
                    return _mk('ite', (c, a, b), a.w)
                if x is FALSE and y is TRUE:
                    return _mk('ite', (Not(c), b, a), a.w) if Not(c).op != 'not' else _mk('ite', (c, a, b), a.w)
                return bool2bv(ite(c, x, y), a.w)
        if a.op == 'or' or b.op == 'or':
            la, lb = _orleaves(a), _orleaves(b)
            if len(la) > len(lb) and set(lb) <= set(la):
                return bor(b, ite(c, _orjoin(set(la) - set(lb)), const(0, a.w)))
            if len(lb) > len(la) and set(la) <= set(lb):
                return bor(a, ite(c, const(0, a.w), _orjoin(set(lb) - set(la))))
    # nested same condition
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if b.op == 'ite' and b.a[1] is a:
        return ite(Or(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a:
        return ite(And(Not(c), b.a[0]), b.a[1], a)
    if a.op == 'ite' and a.a[2] is b:
        return ite(And(c, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(And(c, Not(a.a[0])), a.a[2], b)
    return _mk('ite', (c, a, b), a.w)


_bitmemo = {}


def bitk(x, k):
    """bit k of x as a proposition"""
    key = (x.id, k)
    r = _bitmemo.get(key)
    if r is not None:
        return r
    op = x.op
    if op == 'c':
        r = TRUE if x.v >> k & 1 else FALSE
    elif k >= umax(x).bit_length():
        r = FALSE
    elif op == 'or':
        r = Or(*[bitk(y, k) for y in x.a])
    elif op == 'and':
        r = And(*[bitk(y, k) for y in x.a])
    elif op == 'ite':
        r = ite(x.a[0], bitk(x.a[1], k), bitk(x.a[2], k))
    elif op == 'xor':
        p, q = bitk(x.a[0], k), bitk(x.a[1], k)
        r = Not(eq(p, q))
    elif op == 'bnot':
        r = Not(bitk(x.a[0], k))
    elif op == 'zext':
        r = bitk(x.a[0], k) if k < x.a[0].w else FALSE
    elif op == 'concat':
        w = x.a[1].w
        r = bitk(x.a[1], k) if k < w else bitk(x.a[0], k - w)
    elif op == 'extract':
        y, j = x.a[0], x.v[1] + k
        if y.op in ('or', 'and', 'ite', 'xor', 'bnot', 'zext', 'concat', 'extract', 'c'):
            r = bitk(y, j)
        else:
            r = _mk('eq', _ord(const(1, 1), _mk('extract', (y,), 1, (j, j)) if y.w > 1 else y), 0)
    else:
        y = _mk('extract', (x,), 1, (k, k)) if x.w > 1 else x
        r = _mk('eq', _ord(const(1, 1), y), 0)
    _bitmemo[key] = r
    return r


def _ord(a, b):
    return (a, b) if a.op == 'c' or a.id <= b.id else (b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
        if a.op == 'not':
            return Not(eq(a.a[0], b)) if b.op != 'not' else eq(a.a[0], b.a[0])
        if b.op == 'not':
            return Not(eq(a, b.a[0]))
        if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
            return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
        if a.op == 'or' and b.op == 'or':
            sa, sb = set(a.a), set(b.a)
            com = sa & sb
            if com:
                x, y = Or(*[t for t in a.a if t not in com]), Or(*[t for t in b.a if t not in com])
                return Or(*(list(com) + [eq(x, y)]))
        if a.id > b.id:
            a, b = b, a
        return _mk('eq', (a, b), 0)
    if isinstance(a.w, tuple):
        raise Exception('array eq')
    if a.op == 'c' and b.op == 'c':
        return FALSE
    if a.w > 1 and a.op != 'c' and b.op != 'c':
        x = as_bool(a)
        if x is not None:
            y = as_bool(b)
            if y is not None:
                return eq(x, y)
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        v = a.v
        op = b.op
        if v > umax(b):
            return FALSE
        if op == 'zext':
            x = b.a[0]
            return eq(const(v, x.w), x)
        if op == 'sext':
            x = b.a[0]
            lo = v & ((1 << x.w) - 1)
            if (sgn(lo, x.w) & ((1 << b.w) - 1)) != v:
                return FALSE
            return eq(const(lo, x.w), x)
        if op == 'ite':
            x, y = b.a[1], b.a[2]
            cx, cy = x.op == 'c', y.op == 'c'
            if cx or cy:
                return ite(b.a[0], eq(a, x), eq(a, y))
            if _itec(b, 0):
                return ite(b.a[0], eq(a, x), eq(a, y))
        if op == 'add' and b.a[1].op == 'c':
            return eq(const(v - b.a[1].v, b.w), b.a[0])
        if op == 'add' and b.a[0].op == 'c':
            return eq(const(v - b.a[0].v, b.w), b.a[1])
        if op == 'concat':
            hi, lo = b.a
            return And(eq(const(v >> lo.w, hi.w), hi), eq(const(v, lo.w), lo))
        if op == 'xor' and b.a[0].op == 'c':
            return eq(const(v ^ b.a[0].v, b.w), b.a[1])
        if b.w == 1 and op in ('or', 'and', 'ite', 'xor', 'extract'):
            r = bitk(b, 0)
            return r if v == 1 else Not(r)
        if v == 0 and op == 'and' and b.a[1].op == 'c' and bin(b.a[1].v).count('1') <= 4:
            m = b.a[1].v
            return Not(Or(*[bitk(b.a[0], k) for k in range(b.w) if m >> k & 1]))
    else:
        if a.op == 'zext' and b.op == 'zext':
            x, y = a.a[0], b.a[0]
            if x.w == y.w:
                return eq(x, y)
            if x.w < y.w:
                return eq(zext(x, y.w), y)
            return eq(x, zext(y, x.w))
        if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
            return eq(a.a[0], b.a[0])
        # constant-leaf ite on one side of a shared condition
        if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
            return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
        if a.op == 'add' and b.op == 'add' and a.a[1] is b.a[1]:
            return eq(a.a[0], b.a[0])
        if a.op == 'add' and a.a[0] is b and a.a[1].op == 'c':
            return bconst(a.a[1].v == 0)
        if b.op == 'add' and b.a[0] is a and b.a[1].op == 'c':
            return bconst(b.a[1].v == 0)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 0)


def _itec(e, d):
    """ite tree whose leaves are mostly constants"""
    if e.op == 'c':
        return True
    if d > 40:
        return False
    if e.op == 'ite':
        return _itec(e.a[1], d + 1) and _itec(e.a[2], d + 1)
    return False


def ne(a, b):
    return Not(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return bconst(a.v < b.v)
    if b.op == 'c':
        if umax(a) < b.v:
            return TRUE
        if b.v == 0:
            return FALSE
        if b.v == 1:
            return eq(a, const(0, a.w))
        if a.op == 'zext':
            x = a.a[0]
            return ult(x, const(b.v, x.w))
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if a.op == 'c':
        if a.v >= umax(b):
            return FALSE
        if a.v == 0:
            return ne(b, a)
        if b.op == 'zext':
            x = b.a[0]
            return ult(const(a.v, x.w), x)
        if b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c'):
            return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.a[0], b.a[0]
        w = max(x.w, y.w)
        if w < a.w:
            return ult(zext(x, w), zext(y, w))
    return _mk('ult', (a, b), 0)


def ule(a, b):
    return Not(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return bconst(sgn(a.v, w) < sgn(b.v, w))
    half = 1 << (w - 1)
    ua, ub = umax(a), umax(b)
    if ua < half and ub < half:
        return ult(a, b)
    if b.op == 'c':
        bs = sgn(b.v, w)
        if bs <= 0 and ua < half:
            return FALSE
        if a.op == 'sext':
            x = a.a[0]
            lo, hi = -(1 << (x.w - 1)), (1 << (x.w - 1)) - 1
            if hi < bs:
                return TRUE
            if lo >= bs:
                return FALSE
            return slt(x, const(bs, x.w))
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    if a.op == 'c':
        as_ = sgn(a.v, w)
        if as_ < 0 and ub < half:
            return TRUE
        if b.op == 'sext':
            x = b.a[0]
            lo, hi = -(1 << (x.w - 1)), (1 << (x.w - 1)) - 1
            if as_ >= hi:
                return FALSE
            if as_ < lo:
                return TRUE
            return slt(const(as_, x.w), x)
        if b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c'):
            return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]))
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0])
    return _mk('slt', (a, b), 0)


def sle(a, b):
    return Not(slt(b, a))


# ------------------------------------------------------------- bit-vectors
def zext(a, w):
    if a.w == w:
        return a
    if a.op == 'c':
        return const(a.v, w)
    if a.op == 'zext':
        return zext(a.a[0], w)
    if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], zext(a.a[1], w), zext(a.a[2], w))
    return _mk('zext', (a,), w)


def sext(a, w):
    if a.w == w:
        return a
    if a.op == 'c':
        return const(sgn(a.v, a.w), w)
    if a.op == 'sext':
        return sext(a.a[0], w)
    if umax(a) < (1 << (a.w - 1)):
        return zext(a, w)
    if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
    return _mk('sext', (a,), w)


def extract(e, hi, lo):
    w = hi - lo + 1
    if w == e.w:
        return e
    if e.op == 'c':
        return const(e.v >> lo, w)
    k = (e.id, hi, lo)
    r = _xmemo.get(k)
    if r is None:
        r = _extract(e, hi, lo, w)
        _xmemo[k] = r
    return r


def _extract(e, hi, lo, w):
    op = e.op
    if op == 'zext' or op == 'sext':
        x = e.a[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if op == 'zext':
            if lo >= x.w:
                return const(0, w)
            return zext(extract(x, x.w - 1, lo), w)
        if lo < x.w:
            return sext(extract(x, x.w - 1, lo), w)
    elif op == 'concat':
        h, l = e.a
        if hi < l.w:
            return extract(l, hi, lo)
        if lo >= l.w:
            return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    elif op == 'extract':
        b = e.v[1]
        return extract(e.a[0], hi + b, lo + b)
    elif op == 'ite':
        return ite(e.a[0], extract(e.a[1], hi, lo), extract(e.a[2], hi, lo))
    elif op in ('and', 'or', 'xor'):
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        return f(extract(e.a[0], hi, lo), extract(e.a[1], hi, lo))
    elif op == 'bnot':
        return bnot(extract(e.a[0], hi, lo))
    elif lo == 0 and op in ('add', 'sub', 'mul'):
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        return f(extract(e.a[0], hi, 0), extract(e.a[1], hi, 0))
    elif op == 'shl' and e.a[1].op == 'c':
        s = e.a[1].v
        if s >= e.w or hi < s:
            return const(0, w)
        if lo >= s:
            return extract(e.a[0], hi - s, lo - s)
    elif op == 'lshr' and e.a[1].op == 'c':
        s = e.a[1].v
        if hi + s < e.w:
            return extract(e.a[0], hi + s, lo + s)
        if lo + s >= e.w:
            return const(0, w)
        return zext(extract(e.a[0], e.w - 1, lo + s), w)
    elif op == 'ashr' and e.a[1].op == 'c':
        s = e.a[1].v
        if hi + s < e.w:
            return extract(e.a[0], hi + s, lo + s)
    return _mk('extract', (e,), w, (hi, lo))


def trunc(e, w):
    return extract(e, w - 1, 0)


def concat(h, l):
    w = h.w + l.w
    if h.op == 'c' and l.op == 'c':
        return const((h.v << l.w) | l.v, w)
    if h.op == 'c' and h.v == 0:
        return zext(l, w)
    if h.op == 'extract' and l.op == 'extract' and h.a[0] is l.a[0] and h.v[1] == l.v[0] + 1:
        return extract(h.a[0], h.v[0], l.v[1])
    return _mk('concat', (h, l), w)


def add(a, b):
    w = a.w
    if a.op == 'c':
        if b.op == 'c':
            return const(a.v + b.v, w)
        a, b = b, a
    if b.op == 'c':
        if b.v == 0:
            return a
        if a.op == 'add' and a.a[1].op == 'c':
            return add(a.a[0], const(a.a[1].v + b.v, w))
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
        return _mk('add', (a, b), w)
    # pull constants out
    if a.op == 'add' and a.a[1].op == 'c':
        return add(add(a.a[0], b), a.a[1])
    if b.op == 'add' and b.a[1].op == 'c':
        return add(add(a, b.a[0]), b.a[1])
    if b.op == 'sub' and b.a[1] is a:
        return b.a[0]
    if a.op == 'sub' and a.a[1] is b:
        return a.a[0]
    if a.id > b.id:
        a, b = b, a
    return _mk('add', (a, b), w)


def sub(a, b):
    w = a.w
    if a is b:
        return const(0, w)
    if b.op == 'c':
        return add(a, const(-b.v, w))
    if a.op == 'add':
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
        if a.a[1].op == 'c':
            return add(sub(a.a[0], b), a.a[1])
    if b.op == 'add':
        if b.a[0] is a:
            return neg(b.a[1])
        if b.a[1] is a:
            return neg(b.a[0])
        if b.a[1].op == 'c':
            return add(sub(a, b.a[0]), const(-b.a[1].v, w))
    return _mk('sub', (a, b), w)


def neg(a):
    if a.op == 'c':
        return const(-a.v, a.w)
    return _mk('sub', (const(0, a.w), a), a.w)


def mul(a, b):
    w = a.w
    if a.op == 'c':
        if b.op == 'c':
            return const(a.v * b.v, w)
        a, b = b, a
    if b.op == 'c':
        if b.v == 0:
            return b
        if b.v == 1:
            return a
    elif a.id > b.id:
        a, b = b, a
    return _mk('mul', (a, b), w)


def udiv(a, b):
    w = a.w
    if b.op == 'c' and b.v:
        if a.op == 'c':
            return const(a.v // b.v, w)
        if b.v == 1:
            return a
        if a.op == 'mul' and len(a.a) == 2:
            for x, y in (a.a, a.a[::-1]):
                if y.op == 'c' and y.v and y.v % b.v == 0 and umax(x) * y.v < 1 << w:
                    return mul(x, const(y.v // b.v, w))
        if a.op == 'zext' and b.v < (1 << a.a[0].w):
            return zext(udiv(a.a[0], const(b.v, a.a[0].w)), w)
    return _mk('udiv', (a, b), w)


def urem(a, b):
    w = a.w
    if b.op == 'c' and b.v:
        if a.op == 'c':
            return const(a.v % b.v, w)
        if umax(a) < b.v:
            return a
        if b.v & (b.v - 1) == 0:
            return band(a, const(b.v - 1, w))
        if a.op == 'zext' and b.v < (1 << a.a[0].w):
            return zext(urem(a.a[0], const(b.v, a.a[0].w)), w)
    return _mk('urem', (a, b), w)


def sdiv(a, b):
    w = a.w
    half = 1 << (w - 1)
    if a.op == 'c' and b.op == 'c' and b.v:
        x, y = sgn(a.v, w), sgn(b.v, w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, w)
    if umax(a) < half and umax(b) < half and b.op == 'c' and b.v:
        return udiv(a, b)
    return _mk('sdiv', (a, b), w)


def srem(a, b):
    w = a.w
    half = 1 << (w - 1)
    if a.op == 'c' and b.op == 'c' and b.v:
        x, y = sgn(a.v, w), sgn(b.v, w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, w)
    if umax(a) < half and umax(b) < half and b.op == 'c' and b.v:
        return urem(a, b)
    return _mk('srem', (a, b), w)


def as_bool(e):
    """the condition when e is 0/1-valued by construction, else None"""
    if e.op == 'ite' and e.a[1].op == 'c' and e.a[2].op == 'c':
        x, y = e.a[1].v, e.a[2].v
        if x == 1 and y == 0:
            return e.a[0]
        if x == 0 and y == 1:
            return Not(e.a[0])
    elif e.op == 'c' and e.v <= 1:
        return TRUE if e.v else FALSE
    elif e.op == 'zext':
        return as_bool(e.a[0])
    return None


def _logic(f, a, b):
    if a.op == 'c' and b.op == 'c':
        return None
    x = as_bool(a)
    if x is None:
        return None
    y = as_bool(b)
    if y is None:
        return None
    return bool2bv(f(x, y), a.w)


def band(a, b):
    w = a.w
    if w == 0:
        return And(a, b)
    if a is b:
        return a
    r = _logic(And, a, b)
    if r is not None:
        return r
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'c':
            return const(a.v & b.v, w)
        m = b.v
        if m == 0:
            return b
        if m == (1 << w) - 1:
            return a
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], band(a.a[1], b), band(a.a[2], b))
        if m & (m + 1) == 0:
            k = m.bit_length()
            if umax(a) <= m:
                return a
            return zext(extract(a, k - 1, 0), w)
        if a.op == 'and' and a.a[1].op == 'c':
            return band(a.a[0], const(a.a[1].v & m, w))
        if a.op == 'zext' and a.a[0].w < w:
            return zext(band(a.a[0], const(m, a.a[0].w)), w)
        return _mk('and', (a, b), w)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return zext(band(a.a[0], b.a[0]), w)
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), w)


def bor(a, b):
    w = a.w
    if w == 0:
        return Or(a, b)
    if a is b:
        return a
    r = _logic(Or, a, b)
    if r is not None:
        return r
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'c':
            return const(a.v | b.v, w)
        if b.v == 0:
            return a
        if b.v == (1 << w) - 1:
            return b
        if a.op != 'or':
            return _mk('or', (a, b), w)
        ls = set(_orleaves(a))
        cs = [x for x in ls if x.op == 'c']
        ls -= set(cs)
        for x in cs:
            b = const(b.v | x.v, w)
        return _orjoin(ls | {b})
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return zext(bor(a.a[0], b.a[0]), w)
    if a.op == 'or' or b.op == 'or':
        la, lb = _orleaves(a), _orleaves(b)
        ls = set(la)
        ls.update(lb)
        if len(ls) == len(la):
            return a
        if len(ls) == len(lb):
            return b
        if len(ls) <= 80:
            return _orjoin(ls)
    if a.id > b.id:
        a, b = b, a
    return _mk('or', (a, b), w)


_orl = {}


def _orleaves(e):
    """leaves of a chain of bitwise ors"""
    if e.op != 'or':
        return (e,)
    r = _orl.get(e)
    if r is None:
        r = tuple(dict.fromkeys(_orleaves(e.a[0]) + _orleaves(e.a[1])))
        _orl[e] = r
    return r


def _orjoin(ls):
    """canonical chain over a set of leaves (constants last)"""
    ls = sorted(ls, key=lambda x: (x.op == 'c', x.id))
    r = ls[0]
    for x in ls[1:]:
        if x.op == 'c' and r.op == 'c':
            r = const(x.v | r.v, x.w)
        else:
            r = _mk('or', (r, x), x.w)
    return r


def bxor(a, b):
    w = a.w
    if w == 0:
        return Not(eq(a, b))
    if a is b:
        return const(0, w)
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'c':
            return const(a.v ^ b.v, w)
        if b.v == 0:
            return a
        if b.v == (1 << w) - 1:
            return bnot(a)
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], bxor(a.a[1], b), bxor(a.a[2], b))
        a, b = b, a
        return _mk('xor', (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return _mk('xor', (a, b), w)


def bnot(a):
    if a.w == 0:
        return Not(a)
    if a.op == 'c':
        return const(~a.v, a.w)
    if a.op == 'bnot':
        return a.a[0]
    return _mk('bnot', (a,), a.w)


def shl(a, b):
    w = a.w
    if b.op == 'c':
        if b.v == 0:
            return a
        if b.v >= w:
            return const(0, w)
        if a.op == 'c':
            return const(a.v << b.v, w)
    return _mk('shl', (a, b), w)


def lshr(a, b):
    w = a.w
    if b.op == 'c':
        if b.v == 0:
            return a
        if b.v >= w:
            return const(0, w)
        if a.op == 'c':
            return const(a.v >> b.v, w)
        if umax(a) >> b.v == 0:
            return const(0, w)
        return zext(extract(a, w - 1, b.v), w)
    return _mk('lshr', (a, b), w)


def ashr(a, b):
    w = a.w
    if b.op == 'c':
        if b.v == 0:
            return a
        if a.op == 'c':
            return const(sgn(a.v, w) >> min(b.v, w), w)
        if umax(a) < (1 << (w - 1)):
            return lshr(a, b)
        if b.v < w:
            return sext(extract(a, w - 1, b.v), w)
    return _mk('ashr', (a, b), w)


def bool2bv(b, w=1):
    return ite(b, const(1, w), const(0, w))


def bv2bool(e):
    if e.w == 0:
        return e
    return ne(e, const(0, e.w))


def uf(name, args, w):
    return _mk('uf', tuple(args), w, name)


# ------------------------------------------------------------- arrays
def arrvar(name, iw, ew):
    return _mk('av', (), (iw, ew), name)


def arrconst(v, iw):
    return _mk('ac', (v,), (iw, v.w))


def arrtable(name, data, iw, ew):
    """constant table"""
    _tabv[name] = data
    return _mk('at', (), (iw, ew), name)


def arrlambda(bvar, body):
    """array given by a term over a bound variable"""
    e = _mk('al', (bvar, body), (bvar.w, body.w))
    e.bv = False
    return e


def store(arr, i, v):
    # replace an earlier write to the same index when only distinct concrete
    # writes lie in between
    if i.op == 'c':
        x = arr
        pend = []
        n = 0
        while x.op == 'st' and n < 300:
            j = x.a[1]
            if j is i:
                base = x.a[0]
                for (jj, vv) in reversed(pend):
                    base = _mk('st', (base, jj, vv), arr.w)
                return _mk('st', (base, i, v), arr.w)
            if j.op != 'c':
                break
            pend.append((j, x.a[2]))
            x = x.a[0]
            n += 1
    elif arr.op == 'st' and arr.a[1] is i:
        arr = arr.a[0]
    if v.op == 'sel' and v.a[0] is arr and v.a[1] is i:
        return arr
    return _mk('st', (arr, i, v), arr.w)


def sel(arr, i):
    k = (arr.id, i.id)
    r = _selmemo.get(k)
    if r is not None:
        return r
    # iterative walk through the store chain
    chain = []
    x = arr
    while True:
        k2 = (x.id, i.id)
        r = _selmemo.get(k2)
        if r is not None:
            break
        if x.op == 'st':
            j = x.a[1]
            c = eq(i, j)
            if c is TRUE:
                r = x.a[2]
                break
            chain.append((x, c))
            x = x.a[0]
            continue
        r = _sel0(x, i)
        break
    _selmemo[(x.id, i.id)] = r
    for (y, c) in reversed(chain):
        if c is not FALSE:
            r = ite(c, y.a[2], r)
        _selmemo[(y.id, i.id)] = r
    _selmemo[k] = r
    return r


def _sel0(x, i):
    op = x.op
    if op == 'ac':
        return x.a[0]
    if op == 'ai':
        return ite(x.a[0], sel(x.a[1], i), sel(x.a[2], i))
    if op == 'at':
        d = _tabv[x.v]
        if i.op == 'c':
            return const(d[i.v] if i.v < len(d) else 0, x.w[1])
        if i.op == 'ite' and _itec(i, 0):
            return ite(i.a[0], sel(x, i.a[1]), sel(x, i.a[2]))
        if len(d) <= 1024:
            return _tree(d, i, x.w[1])
        return _mk('sel', (x, i), x.w[1])
    if op == 'al':
        return subst(x.a[1], {x.a[0]: i})
    return _mk('sel', (x, i), x.w[1])


def _tree(d, i, ew):
    """balanced decision tree over index bits"""
    w = i.w

    def rec(bit, base):
        if base >= len(d):
            return const(0, ew)
        if bit < 0:
            return const(d[base], ew)
        lo = rec(bit - 1, base)
        hi = rec(bit - 1, base + (1 << bit)) if base + (1 << bit) < len(d) else lo
        return ite(eq(extract(i, bit, bit), const(1, 1)), hi, lo)
    return rec(w - 1, 0)


def aite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    # find common ancestor in the store chains
    anc = {}
    x = a
    n = 0
    wa = []
    while True:
        anc[x.id] = n
        if x.op != 'st':
            break
        wa.append((x.a[1], x.a[2]))
        x = x.a[0]
        n += 1
    y = b
    wb = []
    while y.id not in anc:
        if y.op != 'st':
            return _mk('ai', (c, a, b), a.w)
        wb.append((y.a[1], y.a[2]))
        y = y.a[0]
    wa = wa[:anc[y.id]]
    arr = y
    if len(wa) + len(wb) > 2000:
        return _mk('ai', (c, a, b), a.w)
    # when both sides wrote the same concrete/syntactic index exactly once and no
    # other possibly-aliasing write exists, merge pairwise
    da = {}
    for (i, v) in reversed(wa):
        da.setdefault(i, []).append(v)
    db = {}
    for (i, v) in reversed(wb):
        db.setdefault(i, []).append(v)
    allidx = list(dict.fromkeys(list(da) + list(db)))
    distinct = all(i.op == 'c' for i in allidx) or len(allidx) == 1
    if distinct:
        for i in allidx:
            va = da[i][-1] if i in da else sel(y, i)
            vb = db[i][-1] if i in db else sel(y, i)
            arr = store(arr, i, ite(c, va, vb))
        return arr
    for (i, v) in reversed(wa):
        arr = store(arr, i, ite(c, v, sel(arr, i)))
    for (i, v) in reversed(wb):
        arr = store(arr, i, ite(c, sel(arr, i), v))
    return arr


# ------------------------------------------------------------- quantifier
def forall(bvar, n, body):
    """for all 0 <= bvar < n: body"""
    if not body.bv:
        return body if n > 0 else TRUE
    # does bvar occur?
    if body is TRUE:
        return TRUE
    if n <= 64 and n * size(body) <= 20000:
        return And(*[subst(body, {bvar: const(i, bvar.w)}) for i in range(n)])
    e = _mk('forall', (bvar, body), 0, n)
    # bound-ness: other free bound variables?
    e.bv = bool(_freeb(body) - {bvar})
    return e


_fbmemo = {}


def _freeb(e):
    if not e.bv:
        return frozenset()
    k = e.id
    r = _fbmemo.get(k)
    if r is None:
        if e.op == 'bvar':
            r = frozenset((e,))
        else:
            r = frozenset()
            for x in e.a:
                r = r | _freeb(x)
            if e.op == 'forall':
                r = r - {e.a[0]}
        _fbmemo[k] = r
    return r


# ------------------------------------------------------------- substitution
BUILD = {}


def rebuild(e, a):
    op = e.op
    f = BUILD.get(op)
    if f is not None:
        return f(*a)
    if op == 'and':
        return And(*a) if e.w == 0 else band(*a)
    if op == 'or':
        return Or(*a) if e.w == 0 else bor(*a)
    if op == 'zext':
        return zext(a[0], e.w)
    if op == 'sext':
        return sext(a[0], e.w)
    if op == 'extract':
        return extract(a[0], e.v[0], e.v[1])
    if op == 'uf':
        return uf(e.v, a, e.w)
    if op == 'forall':
        return forall(e.a[0], e.v, a[1])
    if op == 'ac':
        return arrconst(a[0], e.w[0])
    if op == 'al':
        return arrlambda(e.a[0], a[1])
    raise Exception('rebuild ' + op)


BUILD.update(dict(add=add, sub=sub, mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, xor=bxor, bnot=bnot,
                  shl=shl, lshr=lshr, ashr=ashr, concat=concat, ite=ite, eq=eq, ult=ult, slt=slt, sel=sel,
                  st=store, ai=aite))
BUILD['not'] = Not


def subst(e, m, memo=None):
    """replace variables/bound variables (dict E -> E)"""
    if memo is None:
        memo = {}
    only_b = all(k.op == 'bvar' for k in m)

    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x in m:
            memo[x.id] = m[x]
            stack.pop()
            continue
        if not x.a or (only_b and not x.bv):
            memo[x.id] = x
            stack.pop()
            continue
        todo = [y for y in x.a if y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        na = tuple(memo[y.id] for y in x.a)
        if all(p is q for p, q in zip(na, x.a)):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x, na)
    return memo[e.id]


# ------------------------------------------------------------- misc
def show(e, d=6):
    if e.op == 'c':
        if e.w == 0:
            return 'true' if e.v else 'false'
        return '%d' % e.v if e.w < 64 else '%d' % sgn(e.v, e.w)
    if e.op in ('v', 'av', 'at'):
        return str(e.v)
    if e.op == 'bvar':
        return '#%d' % e.v
    if d == 0:
        return '..'
    s = ' '.join(show(x, d - 1) for x in e.a)
    if e.op == 'extract':
        return '(x[%d:%d] %s)' % (e.v[0], e.v[1], s)
    if e.op == 'uf':
        return '(%s %s)' % (e.v, s)
    return '(%s %s)' % (e.op, s)


def size(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(x.a)
    return len(seen)


# ------------------------------------------------------------- concrete evaluation
class Model:
    """concrete assignment: vars (name->int), arrays (name -> (dict, default)), ufs"""

    def __init__(self, vars=None, arrs=None, ufs=None):
        self.vars = vars or {}
        self.arrs = arrs or {}
        self.ufs = ufs or {}


def evaluate(e, m, env=None, memo=None):
    """evaluate a term under a Model; env maps bound vars to ints.  Foralls are
    evaluated by enumeration."""
    if memo is None:
        memo = {}
    closed = memo.base if isinstance(memo, _Split) else memo

    def ev(x):
        k = x.id
        d = memo if x.bv else closed
        r = d.get(k)
        if r is None:
            r = _ev(x, m, env, memo, ev)
            d[k] = r
        return r
    return ev(e)


class _Arr:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


def _ev(x, m, env, memo, ev):
    op = x.op
    if op == 'c':
        return x.v
    if op == 'v':
        return m.vars.get(x.v, 0) & ((1 << x.w) - 1 if x.w else 1)
    if op == 'bvar':
        return env[x]
    if op == 'not':
        return 1 - ev(x.a[0])
    if op == 'ite':
        return ev(x.a[1]) if ev(x.a[0]) else ev(x.a[2])
    if x.w == 0:
        if op == 'and':
            for y in x.a:
                if not ev(y):
                    return 0
            return 1
        if op == 'or':
            for y in x.a:
                if ev(y):
                    return 1
            return 0
        if op == 'eq':
            return 1 if ev(x.a[0]) == ev(x.a[1]) else 0
        if op == 'ult':
            return 1 if ev(x.a[0]) < ev(x.a[1]) else 0
        if op == 'slt':
            w = x.a[0].w
            return 1 if sgn(ev(x.a[0]), w) < sgn(ev(x.a[1]), w) else 0
        if op == 'forall':
            b = x.a[0]
            for i in range(x.v):
                e2 = dict(env) if env else {}
                e2[b] = i
                # memo for closed subterms can be shared
                if not evaluate(x.a[1], m, e2, _Overlay(memo)):
                    return 0
            return 1
    w = x.w
    if op == 'sel':
        return evsel(x.a[0], ev(x.a[1]), m, env, memo, ev)
    if op == 'uf':
        args = tuple(ev(y) for y in x.a)
        d = m.ufs.get(x.v)
        if d is None:
            return 0
        return d[0].get(args, d[1])
    mask = (1 << w) - 1
    if op == 'zext':
        return ev(x.a[0])
    if op == 'sext':
        return sgn(ev(x.a[0]), x.a[0].w) & mask
    if op == 'extract':
        return (ev(x.a[0]) >> x.v[1]) & mask
    if op == 'concat':
        return (ev(x.a[0]) << x.a[1].w) | ev(x.a[1])
    a = ev(x.a[0])
    if op == 'bnot':
        return ~a & mask
    b = ev(x.a[1])
    if op == 'add':
        return (a + b) & mask
    if op == 'sub':
        return (a - b) & mask
    if op == 'mul':
        return (a * b) & mask
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & mask if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (sgn(a, w) >> min(b, w)) & mask
    if op == 'udiv':
        return a // b if b else mask
    if op == 'urem':
        return a % b if b else a
    if op in ('sdiv', 'srem'):
        sa, sb = sgn(a, w), sgn(b, w)
        if sb == 0:
            if op == 'srem':
                return a
            return 1 if sa < 0 else mask
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return (q if op == 'sdiv' else sa - q * sb) & mask
    raise Exception('eval ' + op)


def evalq(body, m, b, i, base):
    """evaluate body with bound variable b = i; `base` memoises closed subterms"""
    return evaluate(body, m, {b: i}, _Split(base))


class _Split(dict):
    """memo: closed terms go to the shared base"""
    __slots__ = ('base',)

    def __init__(self, base):
        dict.__init__(self)
        self.base = base


def _Overlay(memo):
    """memo for a quantifier body: bound values do not leak, closed terms are shared"""
    return _Split(memo.base if isinstance(memo, _Split) else memo)


def evsel(arr, i, m, env, memo, ev):
    while True:
        if arr.op == 'st':
            if ev(arr.a[1]) == i:
                return ev(arr.a[2])
            arr = arr.a[0]
        elif arr.op == 'ai':
            arr = arr.a[1] if ev(arr.a[0]) else arr.a[2]
        elif arr.op == 'ac':
            return ev(arr.a[0])
        elif arr.op == 'at':
            d = _tabv[arr.v]
            return d[i] if i < len(d) else 0
        elif arr.op == 'av':
            d = m.arrs.get(arr.v)
            if d is None:
                return 0
            return d[0].get(i, d[1])
        elif arr.op == 'al':
            e2 = dict(env) if env else {}
            e2[arr.a[0]] = i
            return evaluate(arr.a[1], m, e2, _Overlay(memo))
        else:
            raise Exception('evsel')
