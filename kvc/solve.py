"""Discharging obligations.

A query (facts + path condition + negated goal) is quantifier-free bit-vector
arithmetic with uninterpreted functions after the bounded quantifiers have been
removed by skolemisation, pattern-driven instantiation and model-driven
refinement (complete: every quantifier ranges over a finite domain).  It is
printed as SMT-LIB and given to cvc5 and z3 (a portfolio, first answer wins)."""
import os
import selectors
import signal
import subprocess
import time
from . import expr as X
from .expr import Model

STATS = {'cvc5': 0, 'z3': 0, 'trivial': 0, 'time': 0.0, 'queries': 0, 'insts': 0}


SEQ = 0


class Unknown(Exception):
    pass


_bvop = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'udiv': 'bvudiv', 'urem': 'bvurem', 'sdiv': 'bvsdiv',
         'srem': 'bvsrem', 'xor': 'bvxor', 'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr', 'concat': 'concat',
         'ite': 'ite', 'eq': '=', 'ult': 'bvult', 'slt': 'bvslt', 'bnot': 'bvnot', 'not': 'not'}


def q(n):
    return '|' + str(n).replace('|', '!').replace('\\', '/') + '|'


class Printer:
    """term DAG -> SMT-LIB text"""

    def __init__(self):
        self.vars = {}
        self.funs = {}
        self.apps = {}       # node id -> (fun key, [arg nodes], node)
        self.tabs = {}       # table name -> array node
        self.foralls = {}

    def text(self, exprs):
        self.vars = {}
        self.funs = {}
        self.apps = {}
        self.tabs = {}
        ref = {}
        order = []
        seen = set()
        for e in exprs:
            stack = [(e, 0)]
            while stack:
                x, ph = stack.pop()
                if ph:
                    order.append(x)
                    continue
                if x.id in seen:
                    continue
                seen.add(x.id)
                stack.append((x, 1))
                for y in self.kids(x):
                    ref[y.id] = ref.get(y.id, 0) + 1
                    if y.id not in seen:
                        stack.append((y, 0))
        s = {}
        ln = {}
        defs = []
        for x in order:
            t = self.term(x, s)
            if x.op in ('c', 'v', 'forall'):
                s[x.id] = t
            elif ref.get(x.id, 0) > 1 or len(t) > 2000 or x.id in self.apps:
                nm = 'n%d' % x.id
                defs.append('(define-fun %s () %s %s)' % (nm, 'Bool' if x.w == 0 else '(_ BitVec %d)' % x.w, t))
                s[x.id] = nm
            else:
                s[x.id] = t
        self.s = s
        out = ['(set-option :produce-models true)', '(set-logic QF_UFBV)']
        for n, w in self.vars.items():
            out.append('(declare-fun %s () %s)' % (q(n), 'Bool' if w == 0 else '(_ BitVec %d)' % w))
        for k, (ws, w) in self.funs.items():
            out.append('(declare-fun %s (%s) (_ BitVec %d))' % (q(k), ' '.join('(_ BitVec %d)' % a for a in ws), w))
        out += defs
        for e in exprs:
            out.append('(assert %s)' % s[e.id])
        out.append('(check-sat)')
        return '\n'.join(out) + '\n'

    def kids(self, x):
        if x.op == 'sel':
            return (x.a[1],)
        if x.op == 'forall':
            return ()
        return x.a

    def term(self, x, s):
        op = x.op
        if op == 'c':
            if x.w == 0:
                return 'true' if x.v else 'false'
            return '(_ bv%d %d)' % (x.v, x.w)
        if op == 'v':
            self.vars[x.v] = x.w
            return q(x.v)
        if op == 'forall':
            n = 'forall!%d' % x.id
            self.vars[n] = 0
            return q(n)
        if op == 'sel':
            arr = x.a[0]
            if arr.op not in ('av', 'at'):
                raise Exception('sel over ' + arr.op)
            k = ('A!' if arr.op == 'av' else 'T!') + arr.v
            if arr.op == 'at':
                self.tabs[k] = arr
            self.funs[k] = ((arr.w[0],), arr.w[1])
            self.apps[x.id] = (k, (x.a[1],), x)
            return '(%s %s)' % (q(k), s[x.a[1].id])
        if op == 'uf':
            k = 'U!' + x.v
            self.funs[k] = (tuple(y.w for y in x.a), x.w)
            self.apps[x.id] = (k, x.a, x)
            if not x.a:
                return q(k)
            return '(%s %s)' % (q(k), ' '.join(s[y.id] for y in x.a))
        a = [s[y.id] for y in x.a]
        if op == 'and' or op == 'or':
            return '(%s %s)' % (op if x.w == 0 else 'bv' + op, ' '.join(a))
        if op == 'zext':
            return '((_ zero_extend %d) %s)' % (x.w - x.a[0].w, a[0])
        if op == 'sext':
            return '((_ sign_extend %d) %s)' % (x.w - x.a[0].w, a[0])
        if op == 'extract':
            return '((_ extract %d %d) %s)' % (x.v[0], x.v[1], a[0])
        o = _bvop.get(op)
        if o is None:
            raise Exception('print ' + op)
        return '(%s %s)' % (o, ' '.join(a))


def _sexp(t):
    """minimal parser of get-value answers"""
    toks = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c in '()':
            toks.append(c)
            i += 1
        elif c.isspace():
            i += 1
        elif c == '|':
            j = t.index('|', i + 1)
            toks.append(t[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and t[j] not in '() \n\t\r':
                j += 1
            toks.append(t[i:j])
            i = j
    stack = [[]]
    for k in toks:
        if k == '(':
            stack.append([])
        elif k == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(k)
    return stack[0]


def _num(v):
    if isinstance(v, list):
        if v and v[0] == '_':
            return int(v[1][2:])
        raise Exception('value %r' % v)
    if v == 'true':
        return 1
    if v == 'false':
        return 0
    if v.startswith('#b'):
        return int(v[2:], 2)
    if v.startswith('#x'):
        return int(v[2:], 16)
    raise Exception('value %r' % v)


TMP = None


def tmpdir():
    global TMP
    if TMP is None or TMP[0] != os.getpid():
        base = os.environ.get('KV_TMP') or '/dev/shm'
        TMP = (os.getpid(), base)
    return TMP[1]


class Proc:
    def __init__(self, name, argv, path):
        self.name = name
        self.p = subprocess.Popen(argv + [path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        try:
            self.p.stdout.close()
        except Exception:
            pass
        self.p.wait()

    def values(self, nterms, deadline):
        """the answer to the get-value commands that follow check-sat in the file"""
        buf = self.p.stdout.read().decode()
        if '(error' in buf:
            raise Unknown('get-value ' + buf[:200])
        out = []
        for x in _sexp(buf):
            out += [_num(pr[1]) for pr in x]
        if len(out) != nterms:
            raise Unknown('get-value: %d of %d values' % (len(out), nterms))
        return out


def run_portfolio(path, budget, seed=1, memmb=6000):
    """returns ('unsat', None, name) or ('sat', Proc, name); raises Unknown"""
    t0 = time.time()
    procs = []
    sel = selectors.DefaultSelector()
    plan = [('cvc5', 0.0, ['cvc5', '--lang=smt2', '--seed=%d' % seed]),
            ('z3', 0.7, ['z3', '-smt2', 'smt.random_seed=%d' % seed, '-memory:%d' % memmb]),
            ]
    reasons = []
    try:
        while True:
            now = time.time() - t0
            while plan and (now >= plan[0][1] or (not procs)):
                nm, _, argv = plan.pop(0)
                p = Proc(nm, argv, path)
                procs.append(p)
                sel.register(p.p.stdout, selectors.EVENT_READ, p)
            if now > budget:
                raise Unknown('timeout %.0fs' % budget)
            if not procs and not plan:
                raise Unknown('; '.join(reasons))
            w = budget - now
            if plan:
                w = min(w, max(0.01, plan[0][1] - now))
            for key, _ in sel.select(w):
                p = key.data
                line = p.p.stdout.readline().decode().strip()
                if line == 'unsat':
                    return 'unsat', None, p.name
                if line == 'sat':
                    procs.remove(p)
                    return 'sat', p, p.name
                sel.unregister(p.p.stdout)
                reasons.append('%s: %s' % (p.name, line or 'died'))
                p.kill()
                procs.remove(p)
    finally:
        sel.close()
        for p in procs:
            p.kill()


def units(clauses, lits):
    """consequences of the clauses by unit propagation"""
    true = set()
    false = set()
    new = []

    def learn(e):
        if e.op == 'and' and e.w == 0:
            for y in e.a:
                learn(y)
            return
        if e.op == 'not':
            if e.a[0].id in false:
                return
            false.add(e.a[0].id)
            if e.a[0].op == 'or' and e.a[0].w == 0:
                for y in e.a[0].a:
                    learn(X.Not(y))
            elif e.a[0].op == 'and' and e.a[0].w == 0:
                pend.append(e)
        else:
            if e.id in true:
                return
            true.add(e.id)
            if e.op == 'or' and e.w == 0:
                pend.append(e)
        new.append(e)
    pend = []
    for e in lits:
        learn(e)
    pend = pend + [c for c in clauses if c.id not in true] + [c for c in clauses if c.id in true]
    n0 = len(new)
    while True:
        nxt = []
        todo, pend = pend, []
        grew = False
        for c in todo:
            left = []
            sat = False
            for y in (c.a if c.op == 'or' else [X.Not(z) for z in c.a[0].a]):
                if y.id in true or (y.op == 'not' and y.a[0].id in false):
                    sat = True
                    break
                if y.id in false or (y.op == 'not' and y.a[0].id in true):
                    continue
                left.append(y)
            if sat:
                continue
            if len(left) < len(c.a if c.op == 'or' else c.a[0].a) and left:
                e = X.Or(*left) if len(left) > 1 else left[0]
                k = len(new)
                learn(e)
                grew |= len(new) > k
                if len(left) > 1:
                    nxt.append(c)
            else:
                nxt.append(c)
        pend += nxt
        if not grew:
            break
    return new[n0:]


def contextual(exprs, facts):
    """simplify a conjunction under its own literals and the unit facts; an equivalent conjunction given the facts"""
    conj = []
    seen = set()

    def flat(e):
        if e.op == 'and' and e.w == 0:
            for y in e.a:
                flat(y)
        elif e.op == 'not' and e.a[0].op == 'or' and e.a[0].w == 0:
            for y in e.a[0].a:
                flat(X.Not(y))
        elif e.id not in seen:
            seen.add(e.id)
            conj.append(e)
    for e in exprs:
        flat(e)
    flits = []
    clauses = []
    for f in facts:
        for y in (f.a if f.op == 'and' and f.w == 0 else (f,)):
            if y.op in ('eq', 'not', 'ult', 'slt', 'v', 'or'):
                flits.append(y)
            if y.op == 'or' and y.w == 0 or y.op == 'not' and y.a[0].op == 'and' and y.a[0].w == 0:
                clauses.append(y)
    for rnd in range(6):
        lits = [e for e in conj if e.op in ('eq', 'not', 'ult', 'slt', 'v', 'or') and e.op != 'forall']
        m = {}
        fl = units(clauses, flits)
        known = {e.id for e in flits} | {e.id for e in fl} | {e.id for e in conj}
        more = []
        for e in units(clauses, flits + lits):
            if e.id not in known:
                known.add(e.id)
                more.append(e)
        # what follows from the query's own clauses must stay part of the query
        conj = conj + more
        for e in flits + fl + lits + more:
            if e.op == 'not':
                m[e.a[0]] = X.FALSE
            else:
                m[e] = X.TRUE
                if e.op == 'eq':
                    a, b = e.a
                    if b.op == 'c' and a.op != 'c':
                        m.setdefault(a, b)
                    elif a.op == 'c' and b.op != 'c':
                        m.setdefault(b, a)
        out = []
        changed = False
        memo = {}
        for e in conj:
            t = e.a[0] if e.op == 'not' else e
            if t.op in ('or', 'and', 'ite') and t in m:
                m2 = dict(m)
                del m2[t]
                r = X.subst(e, m2)
            elif e in m or (e.op == 'not' and e.a[0] in m) or (e.op == 'eq' and (e.a[0] in m or e.a[1] in m)):
                out.append(e)    # a literal stays as it is
                continue
            else:
                r = X.subst(e, m, memo)
            if r is not e:
                changed = True
            out.append(r)
        if not changed:
            break
        conj = []
        seen = set()
        for e in out:
            if e is X.FALSE:
                return [X.FALSE]
            flat(e)
        conj = [e for e in conj if e is not X.TRUE]
    return conj


DEBUG = os.environ.get('KV_CORE')


class Session:
    """a set of facts; each check builds a query from the relevant ones"""

    def __init__(self, timeout=60, seed=1):
        self.timeout = timeout
        self.seed = seed
        self.facts = []
        self.checks = 0
        self.insts = 0
        self._vars = {}
        self._fa = {}
        self._sel = {}
        self._pat = {}
        self._keys = {}
        self.backends = {}
        self.rounds = 0

    # -- symbols and quantifier atoms of a term
    def syms(self, e):
        r = self._vars.get(e.id)
        if r is not None:
            return r
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ('v', 'av'):
                out.add(x.v)
            elif x.op == 'uf':
                out.add(('uf', x.v))
            st.extend(x.a)
        self._vars[e.id] = out
        return out

    def scan(self, e):
        """(quantifier atoms, array reads) of a term, not entering quantifiers"""
        r = self._fa.get(e.id)
        if r is not None:
            return r
        out = []
        sels = []
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'forall':
                out.append(x)
                continue
            if x.op == 'sel':
                if x.a[0].op == 'av':
                    sels.append((x.a[0].v, x.a[1]))
                st.append(x.a[1])
                continue
            st.extend(x.a)
        r = (out, sels)
        self._fa[e.id] = r
        return r

    def cone(self, exprs, facts):
        syms = set()
        for e in exprs:
            syms |= self.syms(e)
        rest = [(f, self.syms(f)) for f in facts]
        out = []
        while True:
            nxt = []
            grew = False
            for (f, s) in rest:
                if not s or s & syms:
                    out.append(f)
                    if not s <= syms:
                        syms |= s
                        grew = True
                else:
                    nxt.append((f, s))
            rest = nxt
            if not grew:
                return out

    def keys(self, e):
        """variables and array reads (not whole arrays) of a term"""
        r = self._keys.get(e.id)
        if r is not None:
            return r
        out = set()
        fsel = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'v':
                out.add(x.v)
            elif x.op == 'sel' and x.a[0].op == 'av':
                out.add(x.id)
                n = x.a[0].v
                if (':' in n and not n.startswith('in:')) or '!' in n:
                    fsel.add(x.id)
                st.append(x.a[1])
                continue
            elif x.op == 'av':
                out.add('[' + x.v)
            elif x.op == 'uf':
                out.add(('uf', x.v))
            st.extend(x.a)
        fresh = {k for k in out if isinstance(k, str) and k[0] != '[' and (':' in k and not k.startswith('in:') or '!' in k)}
        fresh |= fsel
        r = (out, fresh)
        self._keys[e.id] = r
        return r

    def core(self, exprs, facts, ext=0):
        """the facts that are about nothing but what the query is about, and those that define the fresh
        symbols it uses"""
        K = set()
        for e in exprs:
            K |= self.keys(e)[0]
        rest = [(f,) + self.keys(f) for f in facts]
        if ext:
            more = set()
            for f, ks, fr in rest:
                if len(ks - K) <= ext and ks & K and not self.scan(f)[0]:
                    more |= ks
            K |= more
        out = []
        while True:
            nxt = []
            grew = False
            for it in rest:
                f, ks, fr = it
                if ks <= K:
                    out.append(f)
                elif fr and fr & K and not any(q for q in self.scan(f)[0]):
                    out.append(f)
                    K |= ks
                    grew = True
                else:
                    nxt.append(it)
            rest = nxt
            if not grew:
                return out

    # -- building a query
    def add(self, e):
        if e is X.TRUE or e.id in self.inq:
            return
        self.inq.add(e.id)
        self.query.append(e)
        qs, sels = self.scan(e)
        for s in sels:
            k = (s[0], s[1].id)
            if k not in self.selseen:
                self.selseen.add(k)
                self.newsels.append(s)
        for f in qs:
            if f.id not in self.handled:
                self.handle(f)

    def handle(self, f):
        """p <-> forall: not p -> not body(sk); instances of p -> body(t) follow"""
        self.handled[f.id] = f
        b, n = f.a[0], f.v
        sk = X.var('sk!%d' % f.id, b.w)
        self.skolems[f.id] = sk
        cond = X.Not(X.subst(f.a[1], {b: sk}))
        if n < (1 << b.w):
            cond = X.And(cond, X.ult(sk, X.const(n, b.w)))
        self.newq.append(f)
        self.add(X.Or(f, cond))
        if n <= 16:
            for i in range(n):
                self.inst(f, X.const(i, b.w))

    def inst(self, f, t):
        k = (f.id, t.id)
        if k in self.instdone:
            return False
        self.instdone.add(k)
        body = X.subst(f.a[1], {f.a[0]: t})
        if f.v < (1 << f.a[0].w) and t.op != 'c':
            body = X.Or(X.Not(X.ult(t, X.const(f.v, t.w))), body)
        elif t.op == 'c' and t.v >= f.v:
            return False
        if body is X.TRUE:
            return False
        self.insts += 1
        STATS['insts'] += 1
        self.add(X.Or(X.Not(f), body))
        return True

    def patterns(self, f):
        """[(array, index term containing only the bound variable)] usable to infer instances"""
        r = self._pat.get(f.id)
        if r is not None:
            return r
        out = {}
        b = f.a[0]
        seen = set()
        st = [f.a[1]]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'sel' and x.a[0].op == 'av' and x.a[1].bv:
                out[(x.a[0].v, x.a[1].id)] = (x.a[0].v, x.a[1])
            if x.op == 'forall':
                continue
            st.extend(x.a)
        r = list(out.values())
        self._pat[f.id] = r
        return r

    def match(self, p, t, b):
        """bindings of slices of b such that p == t syntactically solvable; None if impossible"""
        sl = {}

        def rec(p, t):
            if p is b:
                return put(b.w - 1, 0, t)
            if p.op == 'extract' and p.a[0] is b:
                return put(p.v[0], p.v[1], t)
            if p.op == 'c':
                return not (t.op == 'c' and t.v != p.v)
            if p.op == 'concat':
                w1 = p.a[1].w
                return rec(p.a[0], X.extract(t, t.w - 1, w1)) and rec(p.a[1], X.extract(t, w1 - 1, 0))
            if p.op == 'zext':
                w1 = p.a[0].w
                return rec(X.const(0, p.w - w1), X.extract(t, t.w - 1, w1)) and rec(p.a[0], X.extract(t, w1 - 1, 0))
            if p.op == 'add' and p.a[1].op == 'c':
                return rec(p.a[0], X.sub(t, p.a[1]))
            if p.op == 'add' and p.a[0].op == 'c':
                return rec(p.a[1], X.sub(t, p.a[0]))
            return False

        def put(hi, lo, t):
            o = sl.get((hi, lo))
            if o is not None and o is not t:
                return False
            sl[(hi, lo)] = t
            return True
        if not rec(p, t):
            return None
        # assemble
        out = None
        pos = b.w - 1
        for (hi, lo) in sorted(sl, reverse=True):
            if hi != pos:
                return None
            out = sl[(hi, lo)] if out is None else X.concat(out, sl[(hi, lo)])
            pos = lo - 1
        if pos != -1:
            return None
        return out

    def ematch(self, rounds=3, limit=4000):
        n0 = self.insts
        allsels = {}
        for rnd in range(rounds):
            new = self.newsels
            newq = set(f.id for f in self.newq)
            self.newsels = []
            self.newq = []
            if not new and not newq:
                return
            fresh = {}
            for a, t in new:
                fresh.setdefault(a, []).append(t)
                allsels.setdefault(a, []).append(t)
            for f in list(self.handled.values()):
                if f.v <= 16:
                    continue
                for (a, p) in self.patterns(f):
                    ts = allsels.get(a, ()) if f.id in newq else fresh.get(a, ())
                    for t in list(ts):
                        b = self.match(p, t, f.a[0])
                        if b is not None:
                            self.inst(f, b)
                            if self.insts - n0 > limit:
                                return

    def build(self, exprs, facts):
        self.query = []
        self.inq = set()
        self.handled = {}
        self.skolems = {}
        self.instdone = set()
        self.selseen = set()
        self.newsels = []
        self.newq = []
        for f in facts:
            self.add(f)
        for e in exprs:
            self.add(e)

    def check(self, exprs, nfacts=None, budget=None):
        """satisfiability of facts[:nfacts] and exprs.  None (unsat) or a Model"""
        t0 = time.time()
        STATS['queries'] += 1
        budget = budget or self.timeout
        facts = self.facts if nfacts is None else self.facts[:nfacts]
        if any(e is X.FALSE for e in exprs):
            STATS['trivial'] += 1
            return None
        exprs = contextual(exprs, facts)
        if any(e is X.FALSE for e in exprs):
            STATS['trivial'] += 1
            return None
        cone = self.cone(exprs, facts)
        core = self.core(exprs, facts)
        for stage, fs in ((0, core), (1, None)):
            if fs is None:
                fs = self.core(exprs, facts, 3)
                if len(fs) == len(core):
                    break
            if len(fs) >= len(cone):
                break
            try:
                if self.check1(exprs, fs, min(15, budget / 3)) is None:
                    return None
                r = 'insufficient'
            except Unknown:
                r = 'unknown'
            if DEBUG:
                print('core', stage, r, len(fs), len(cone), '%.1f' % (time.time() - t0))
        return self.check1(exprs, cone, max(1, budget - (time.time() - t0)))

    def cover(self, exprs, nfacts, budget):
        """are the facts and exprs satisfiable?"""
        facts = self.facts[:nfacts]
        qf = [f for f in facts if not self.scan(f)[0]]
        rest = [f for f in facts if self.scan(f)[0]]
        ex2 = contextual(exprs + qf, [])
        if DEBUG:
            print('cover', len(exprs), len(qf), len(rest), len(ex2), sum(map(X.size, ex2)))
        return self.check1(ex2, rest, budget) is not None

    def check1(self, exprs, facts, budget):
        t0 = time.time()
        self.build(exprs, facts)
        self.ematch()
        self.tabpts = {}
        try:
            while True:
                if any(e is X.FALSE for e in self.query):
                    STATS['trivial'] += 1
                    return None
                left = budget - (time.time() - t0)
                if left <= 0:
                    raise Unknown('budget')
                pr = Printer()
                text = pr.text(self.query)
                extra = []
                for k, arr in pr.tabs.items():
                    data = X._tabv[arr.v]
                    pts = self.tabpts.get(k, ())
                    if len(data) <= 64 and not pts:
                        pts = range(len(data))
                    for i in pts:
                        extra.append('(assert (= (%s (_ bv%d %d)) (_ bv%d %d)))' % (
                            q(k), i, arr.w[0], data[i] if i < len(data) else 0, arr.w[1]))
                if extra:
                    text = text.replace('(check-sat)\n', '\n'.join(extra) + '\n(check-sat)\n')
                self.checks += 1
                self.rounds += 1
                self.lasttext = text
                terms, apps, vs = self.wanted(pr)
                for i in range(0, len(terms), 400):
                    text += '(get-value (%s))\n' % ' '.join(terms[i:i + 400])
                global SEQ
                SEQ += 1
                path = '%s/kv%d.%d.smt2' % (tmpdir(), os.getpid(), SEQ)
                with open(path, 'w') as f:
                    f.write(text)
                p = None
                try:
                    r, p, nm = run_portfolio(path, left, self.seed)
                    vals = p.values(len(terms), left) if r == 'sat' else None
                finally:
                    if p is not None:
                        p.kill()
                    os.unlink(path)
                self.backends[nm] = self.backends.get(nm, 0) + 1
                STATS[nm] += 1
                if r == 'unsat':
                    return None
                md = self.model(vals, apps, vs)
                if self.tables(pr, md):
                    continue
                if not self.refine(md):
                    return md
                self.ematch()
        finally:
            STATS['time'] += time.time() - t0

    def wanted(self, pr):
        vs = list(pr.vars)
        terms = [q(n) for n in vs]
        apps = list(pr.apps.values())
        for (k, args, x) in apps:
            terms += [pr.s[a.id] for a in args if a.op != 'c']
            terms.append(pr.s[x.id])
        return terms, apps, vs

    def model(self, vals, apps, vs):
        md = Model()
        md.sparse = {}
        for n, v in zip(vs, vals):
            md.vars[n] = v
        i = len(vs)
        for (k, args, x) in apps:
            av = []
            for a in args:
                if a.op == 'c':
                    av.append(a.v)
                else:
                    av.append(vals[i])
                    i += 1
            v = vals[i]
            i += 1
            if k[0] == 'U':
                md.ufs.setdefault(k[2:], ({}, 0))[0][tuple(av)] = v
            else:
                md.arrs.setdefault(k[2:], ({}, 0))[0][av[0]] = v
        return md

    def tables(self, pr, md):
        added = False
        for k, arr in pr.tabs.items():
            data = X._tabv[arr.v]
            cur = md.arrs.get(arr.v, ({}, 0))[0]
            for i, v in cur.items():
                real = data[i] if i < len(data) else 0
                if v != real:
                    s = self.tabpts.setdefault(k, set())
                    if i not in s:
                        s.add(i)
                        added = True
                    elif len(data) <= 64:
                        s.update(range(len(data)))
        if added:
            # a table that needed points once usually needs many: add neighbours in bulk
            for k, s in self.tabpts.items():
                data = X._tabv[pr.tabs[k].v] if k in pr.tabs else []
                if len(s) > 8 and len(data) <= 4096:
                    s.update(range(len(data)))
        return added

    def complete(self, md):
        """values at unconstrained points: copy those of a constrained point of the same array, so that
        uniform quantified facts hold there too"""
        for n, (d, df) in list(md.arrs.items()):
            if d and not df:
                # choose the value at the largest constrained index
                md.arrs[n] = (d, d[max(d)])

    def refine(self, md):
        """returns True when instances were added; completes the model otherwise"""
        for attempt in (0, 1):
            bad = []
            for f in list(self.handled.values()):
                if f.v <= 16 or not md.vars.get('forall!%d' % f.id):
                    continue
                b = f.a[0]
                base = {}
                for i in range(f.v):
                    if not X.evalq(f.a[1], md, b, i, base):
                        bad.append((f, i))
                        if len(bad) > 40:
                            break
                if len(bad) > 40:
                    break
            if not bad:
                return False
            if attempt == 0:
                md0 = {n: x for n, x in md.arrs.items()}
                self.complete(md)
        added = False
        for f, i in bad[:12]:
            if self.inst(f, X.const(i, f.a[0].w)):
                added = True
        if not added:
            md.arrs = md0
            raise Unknown('refinement does not converge')
        return added


class Feas:
    """cheap over-approximate feasibility of a path condition (True when not refuted)"""

    def __init__(self, ex, budget=1.0):
        self.ex = ex
        self.sess = Session(budget)
        self.memo = {}
        self.big = {}

    def small(self, c):
        r = self.big.get(c.id)
        if r is None:
            r = X.size(c) <= 60
            self.big[c.id] = r
        return r

    def check(self, pc, n=0):
        if not pc:
            return True
        S = self.sess
        conj = [c for c in pc if self.small(c)]
        syms = set()
        for c in conj:
            syms |= S.syms(c)
        facts = [f for f in self.ex.facts if S.syms(f) <= syms]
        if self.refuted(conj, facts):
            return False
        if n >= 33:
            S.timeout = 3
            try:
                return not self.refuted(list(pc), None)
            finally:
                S.timeout = 1
        return True

    def refuted(self, conj, facts):
        S = self.sess
        k = (tuple(c.id for c in conj), tuple(f.id for f in facts) if facts is not None else (-1, len(self.ex.facts), self.ex.facts[-1].id if self.ex.facts else 0))
        r = self.memo.get(k)
        if r is None:
            S.facts = self.ex.facts if facts is None else facts
            try:
                r = S.check(conj) is None
            except Unknown:
                r = False
            self.memo[k] = r
        return r

    def prove(self, exprs):
        S = self.sess
        S.facts = self.ex.facts
        t = S.timeout
        S.timeout = getattr(self.ex, 'inv_timeout', 5)
        try:
            m = S.check(exprs)
            self.why = m
            return m is None
        except Unknown:
            self.why = 'unknown'
            return False
        finally:
            S.timeout = t
