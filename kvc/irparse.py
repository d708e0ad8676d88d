"""Parser for the subset of textual LLVM IR (clang 18, -O0, opaque pointers)
that the verifier consumes.  Unknown constructs raise IRError (tool error,
never a verdict)."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()


class IntTy(Ty):
    __slots__ = ('bits', 'size', 'align')
    cache = {}

    def __new__(cls, bits):
        t = cls.cache.get(bits)
        if t is None:
            t = object.__new__(cls)
            t.bits = bits
            s = 1
            while s * 8 < bits:
                s *= 2
            t.size = s
            t.align = min(s, 16)
            cls.cache[bits] = t
        return t

    def __repr__(self):
        return 'i%d' % self.bits


class FloatTy(Ty):
    __slots__ = ('bits', 'size', 'align')
    cache = {}

    def __new__(cls, bits):
        t = cls.cache.get(bits)
        if t is None:
            t = object.__new__(cls)
            t.bits = bits
            t.size = bits // 8
            t.align = bits // 8
            cls.cache[bits] = t
        return t

    def __repr__(self):
        return 'f%d' % self.bits


class _PtrTy(Ty):
    __slots__ = ('size', 'align')

    def __init__(self):
        self.size = 8
        self.align = 8

    def __repr__(self):
        return 'ptr'


PTR = _PtrTy()


class _VoidTy(Ty):
    size = 0
    align = 1

    def __repr__(self):
        return 'void'


VOID = _VoidTy()


class ArrTy(Ty):
    __slots__ = ('n', 'el', 'size', 'align')
    cache = {}

    def __new__(cls, n, el):
        k = (n, id(el))
        t = cls.cache.get(k)
        if t is None:
            t = object.__new__(cls)
            t.n = n
            t.el = el
            t.size = None
            cls.cache[k] = t
        return t

    def __repr__(self):
        return '[%d x %r]' % (self.n, self.el)


class StructTy(Ty):
    __slots__ = ('name', 'fields', 'offsets', 'size', 'align', 'packed')

    def __init__(self, name, fields=None, packed=False):
        self.name = name
        self.fields = fields
        self.packed = packed
        self.size = None

    def __repr__(self):
        return self.name or '{%s}' % ', '.join(map(repr, self.fields))


class FnTy(Ty):
    size = 8
    align = 8
    __slots__ = ('ret', 'params', 'vararg')


def layout(t):
    """compute size/align/offsets lazily"""
    if isinstance(t, ArrTy):
        if t.size is None:
            layout(t.el)
            t.size = t.n * t.el.size
            t.align = t.el.align
    elif isinstance(t, StructTy):
        if t.size is None:
            if t.fields is None:
                raise IRError('opaque struct %s' % t.name)
            off = 0
            al = 1
            offs = []
            for f in t.fields:
                layout(f)
                a = 1 if t.packed else f.align
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size
                al = max(al, a)
            t.offsets = offs
            t.align = al
            t.size = (off + al - 1) // al * al
    return t


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?(?![\w]))
  | (?P<hex>0x[KMLH]?[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    out.append(('eof', ''))
    return out


PARAM_ATTRS = {
    'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
    'immarg', 'returned', 'inreg', 'nofree', 'readnone', 'swiftself', 'nest', 'noinline',
    'dso_local', 'internal', 'private', 'external', 'local_unnamed_addr', 'unnamed_addr',
    'common', 'weak', 'linkonce_odr', 'hidden', 'tail', 'musttail', 'notail', 'fastcc', 'ccc',
    'nnan', 'ninf', 'nsz', 'fast', 'contract', 'arcp', 'afn', 'reassoc', 'thread_local', 'weak_odr',
    'linkonce', 'allocptr', 'mustprogress', 'noreturn', 'nounwind',
}


# ---------------------------------------------------------------- constants / operands
# operand forms:
#  ('l', name) local, ('g', name) global/function, ('i', value) int const,
#  ('null',), ('undef',), ('zero',), ('str', bytes), ('agg', [ (ty,op) ]),
#  ('cgep', ty, base_op, [(ty,op)...]), ('ccast', kind, (ty,op), toty), ('f', value)

class P:
    def __init__(self, mod, s):
        self.mod = mod
        self.t = tokenize(s)
        self.i = 0

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:200]))

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = FloatTy(32)
            elif v == 'double':
                t = FloatTy(64)
            elif v == 'x86_fp80':
                t = FloatTy(128)
            elif v == 'metadata' or v == 'label':
                t = VOID
            elif v[0] == 'i' and v[1:].isdigit():
                t = IntTy(int(v[1:]))
            else:
                raise IRError('type? %s' % v)
        elif k == 'local':
            t = self.mod.struct(v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = ArrTy(n, el)
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = StructTy(None, fs)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = StructTy(None, fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = ArrTy(n, el)   # vectors are not interpreted
        else:
            raise IRError('type? %r in %s' % (v, ' '.join(x[1] for x in self.t)[:200]))
        # function type  "ret (args)" in vararg calls
        if self.peek() == '(' and self.kind() == 'p' and self._is_fnty():
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            f = FnTy()
            f.ret = t
            return f
        return t

    def _is_fnty(self):
        # "i32 (ptr, ...) @f(" : a '(' directly after a type
        return True

    def attrs(self):
        while True:
            k, v = self.t[self.i]
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'sret', 'byval', 'memory', 'range', 'alignstack', 'captures'):
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                else:
                    self.next()
            elif k == 'attr':
                self.i += 1
            elif k == 'str' and v[0] == '"':
                self.i += 1
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('l', v)
        if k == 'global':
            return ('g', v)
        if k == 'num':
            if isinstance(ty, FloatTy):
                return ('f', float(v))
            return ('i', int(v))
        if k == 'hex':
            return ('f', v)
        if k == 'str':
            assert v[0] == 'c'
            return ('str', cstr(v[2:-1]))
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'true':
                return ('i', 1)
            if v == 'false':
                return ('i', 0)
            if v == 'getelementptr':
                self.accept('inbounds')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = self.typed_list(')')
                return ('cgep', bt, ops[0][1], ops[1:])
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sext', 'zext'):
                self.expect('(')
                t1 = self.type()
                v1 = self.value(t1)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, (t1, v1), t2)
            if v in ('sub', 'add'):
                while self.peek() in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                ops = self.typed_list(')')
                return ('cbin', v, ops)
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            return ('agg', self.typed_list(close))
        if v == '<':
            if self.accept('{'):
                r = ('agg', self.typed_list('}'))
                self.expect('>')
                return r
            return ('agg', self.typed_list('>'))
        raise IRError('value? %r (%s) in %s' % (v, k, ' '.join(x[1] for x in self.t)[:300]))

    def typed_list(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            t = self.type()
            self.attrs()
            out.append((t, self.value(t)))
            if self.accept(close):
                return out
            self.expect(',')

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(0x5c)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('latin1') if ord(s[i]) < 256 else s[i].encode('utf8')
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'a', 'ty', 'dbg', 'x')

    def __init__(self, op, res, ty, a, x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = None

    def __repr__(self):
        return '%s=%s %r %r' % (self.res, self.op, self.ty, self.a)


class Block:
    __slots__ = ('label', 'instrs', 'succs')


class Function:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'vararg', 'dbg', 'lines', '_parsed', 'loops', 'mod',
                 'loopinfo', 'src')


class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}      # name -> (ty, init or None, is_const)
        self.funcs = {}
        self.decls = {}
        self.meta = {}

    def struct(self, name):
        s = self.structs.get(name)
        if s is None:
            s = self.structs[name] = StructTy(name)
        return s

    def dbgline(self, ref):
        """('!123') -> (file, line)"""
        m = self.meta.get(ref)
        if not m:
            return (None, 0)
        l = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: (!\d+)', m)
        line = int(l.group(1)) if l else 0
        f = None
        cur = sc.group(1) if sc else None
        for _ in range(50):
            if cur is None:
                break
            mm = self.meta.get(cur, '')
            fm = re.search(r'file: (!\d+)', mm)
            if fm:
                fmm = self.meta.get(fm.group(1), '')
                x = re.search(r'filename: "([^"]*)"', fmm)
                if x:
                    f = x.group(1)
                break
            scm = re.search(r'scope: (!\d+)', mm)
            cur = scm.group(1) if scm else None
        return (f, line)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
        'fpext', 'fptrunc'}


def parse_module(path):
    mod = Module()
    with open(path, encoding='latin1') as f:
        lines = f.read().split('\n')
    i = 0
    n = len(lines)
    glines = []
    while i < n:
        ln = lines[i]
        if ln.startswith('define '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            _func(mod, ln, lines[i + 1:j])
            i = j + 1
            continue
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            s = mod.struct(name)
            if rest.strip() != 'opaque':
                p = P(mod, rest)
                if p.peek() == '<':
                    t = p.type()
                    s.packed = True
                    s.fields = t.fields
                else:
                    s.fields = p.type().fields
        elif ln.startswith('@'):
            glines.append(ln)
        elif ln.startswith('declare '):
            m = re.match(r'declare .*?@("[^"]*"|[-\w.$]+)\(', ln)
            mod.decls[m.group(1)] = ln
        elif ln.startswith('!'):
            m = re.match(r'(!\d+) = (.*)', ln)
            if m:
                mod.meta[m.group(1)] = m.group(2)
        i += 1
    for g in glines:
        _global(mod, g)
    return mod


def _global(mod, ln):
    p = P(mod, ln.split(', !dbg')[0])
    name = p.next()[1:]
    p.expect('=')
    const = False
    ext = False
    while True:
        w = p.peek()
        if w in ('constant', 'global'):
            const = w == 'constant'
            p.next()
            break
        if w == 'external' or w == 'extern_weak':
            ext = True
        if w == 'thread_local':
            p.next()
            if p.accept('('):
                p.next()
                p.expect(')')
            continue
        p.next()
    ty = p.type()
    init = None
    if not ext:
        # big tables: keep lazily parsed
        init = p.value(ty)
        if isinstance(ty, StructTy) and ty.packed and init[0] == 'agg' and all(isinstance(t, ArrTy) and t.el is ty.fields[0].el for t in ty.fields):
            # clang splits an array with trailing zeros: put it together again
            els = []
            for t, v in init[1]:
                if v[0] == 'str':
                    els += [(t.el, ('i', x)) for x in v[1]]
                elif v[0] == 'agg':
                    els += list(v[1])
                else:
                    els += [(t.el, ('zero',))] * t.n
            ty = ArrTy(len(els), ty.fields[0].el)
            init = ('agg', els)
    mod.globals[name] = (ty, init, const)


def _func(mod, head, body):
    f = Function()
    f.mod = mod
    m = re.match(r'define (.*?)@("[^"]*"|[-\w.$]+)\(', head)
    f.name = m.group(2)
    p = P(mod, m.group(1))
    p.attrs()
    f.ret = p.type()
    rest = head[m.end():]
    p = P(mod, rest.split('!dbg')[0].rstrip('{ '))
    params = []
    f.vararg = False
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            byval = None
            # detect byval
            k0 = p.i
            p.attrs()
            seg = p.t[k0:p.i]
            if any(x[1] == 'byval' for x in seg):
                byval = True
            nm = p.next()
            params.append((t, nm, byval))
            if p.accept(')'):
                break
            p.expect(',')
    f.params = params
    mm = re.search(r'!dbg (!\d+)', head)
    f.dbg = mm.group(1) if mm else None
    f.lines = body
    f._parsed = False
    f.blocks = {}
    f.order = []
    f.loopinfo = None
    f.src = None
    mod.funcs[f.name] = f


LABEL = re.compile(r'^("[^"]*"|[-\w.$]+):')


def parse_body(f):
    if f._parsed:
        return f
    mod = f.mod
    cur = None
    body = f.lines
    i = 0
    # entry block may have no label
    n = len(body)
    while i < n:
        ln = body[i]
        i += 1
        if not ln.strip():
            continue
        m = LABEL.match(ln)
        if m:
            cur = Block()
            cur.label = m.group(1)
            cur.instrs = []
            f.blocks[cur.label] = cur
            f.order.append(cur.label)
            continue
        if cur is None:
            cur = Block()
            cur.label = '.entry'
            cur.instrs = []
            f.blocks[cur.label] = cur
            f.order.append(cur.label)
        if ln.lstrip().startswith('switch'):
            while ']' not in ln:
                ln = ln + ' ' + body[i].strip()
                i += 1
        ins = parse_instr(mod, ln.strip())
        if ins is not None:
            cur.instrs.append(ins)
    for b in f.blocks.values():
        t = b.instrs[-1]
        if t.op == 'br':
            b.succs = [t.a[0]]
        elif t.op == 'cbr':
            b.succs = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succs = [t.a[1]] + [x[1] for x in t.a[2]]
        elif t.op in ('ret', 'unreachable'):
            b.succs = []
        else:
            raise IRError('block without terminator: %s in %s' % (b.label, f.name))
        s2 = []
        for s in b.succs:
            if s not in s2:
                s2.append(s)
        b.succs = s2
    f._parsed = True
    return f


def parse_instr(mod, ln):
    if 'call void @llvm.dbg.' in ln:
        return None
    dbg = None
    k = ln.rfind(', !dbg ')
    if k >= 0:
        dm = re.match(r', !dbg (!\d+)', ln[k:])
        dbg = dm.group(1)
        tail = ln[k + dm.end():]
        ln = ln[:k]
    # strip other metadata attachments such as ", !srcloc !5", ", !llvm.loop !7"
    ln = re.sub(r', !(?:llvm\.loop|srcloc|heapallocsite|range|prof|nosanitize|tbaa|annotation) ![0-9]+', '', ln)
    p = P(mod, ln)
    res = None
    if p.kind() == 'local':
        res = p.next()
        p.expect('=')
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins = None
    if op == 'alloca':
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.typed()
        ins = Instr('alloca', res, t, [cnt])
    elif op == 'load':
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        ins = Instr('load', res, t, [p.typed()])
    elif op == 'store':
        p.accept('volatile')
        v = p.typed()
        p.expect(',')
        ins = Instr('store', None, v[0], [v, p.typed()])
    elif op == 'getelementptr':
        p.accept('inbounds')
        t = p.type()
        p.expect(',')
        base = p.typed()
        idx = []
        while p.accept(','):
            idx.append(p.typed())
        ins = Instr('gep', res, t, [base, idx])
    elif op in BIN:
        flags = []
        while p.peek() in ('nuw', 'nsw', 'exact') or p.peek() in PARAM_ATTRS:
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr('bin', res, t, [op, a, b], flags)
    elif op == 'fneg':
        p.attrs()
        t = p.type()
        ins = Instr('fneg', res, t, [p.value(t)])
    elif op in ('icmp', 'fcmp'):
        p.attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr(op, res, t, [pred, a, b])
    elif op in CAST:
        p.accept('nneg')
        a = p.typed()
        p.expect('to')
        t = p.type()
        ins = Instr('cast', res, t, [op, a])
    elif op == 'br':
        if p.accept('label'):
            ins = Instr('br', None, VOID, [lab(p.next())])
        else:
            c = p.typed()
            p.expect(',')
            p.expect('label')
            a = lab(p.next())
            p.expect(',')
            p.expect('label')
            b = lab(p.next())
            ins = Instr('cbr', None, VOID, [c, a, b])
    elif op == 'switch':
        v = p.typed()
        p.expect(',')
        p.expect('label')
        d = lab(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type()
            cv = p.value(t)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], lab(p.next())))
        ins = Instr('switch', None, VOID, [v, d, cases])
    elif op == 'ret':
        if p.accept('void'):
            ins = Instr('ret', None, VOID, [])
        else:
            ins = Instr('ret', None, VOID, [p.typed()])
    elif op == 'unreachable':
        ins = Instr('unreachable', None, VOID, [])
    elif op == 'phi':
        p.attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, lab(p.next())))
            p.expect(']')
            if not p.accept(','):
                break
        ins = Instr('phi', res, t, inc)
    elif op == 'select':
        p.attrs()
        c = p.typed()
        p.expect(',')
        a = p.typed()
        p.expect(',')
        b = p.typed()
        ins = Instr('select', res, a[0], [c, a, b])
    elif op == 'call':
        p.attrs()
        t = p.type()
        if isinstance(t, FnTy):
            t = t.ret
        p.attrs()
        k, callee = p.t[p.i]
        p.i += 1
        if k == 'global':
            cal = ('g', callee)
        elif k == 'local':
            cal = ('l', callee)
        elif callee == 'asm':
            return Instr('asm', res, t, [])
        else:
            raise IRError('callee %r' % callee)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                k0 = p.i
                p.attrs()
                byval = any(x[1] == 'byval' for x in p.t[k0:p.i])
                if p.kind() == 'meta':
                    raise IRError('metadata operand')
                args.append((at, p.value(at), byval))
                if p.accept(')'):
                    break
                p.expect(',')
        ins = Instr('call', res, t, [cal, args])
    elif op in ('extractvalue', 'insertvalue'):
        a = p.typed()
        v = None
        if op == 'insertvalue':
            p.expect(',')
            v = p.typed()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        ins = Instr(op, res, a[0], [a, v, idx])
    elif op == 'freeze':
        a = p.typed()
        ins = Instr('freeze', res, a[0], [a])
    elif op in ('fence', 'va_arg'):
        ins = Instr(op, res, VOID, [])
    else:
        raise IRError('instruction? %s' % ln)
    ins.dbg = dbg
    return ins


def lab(s):
    assert s[0] == '%'
    return s[1:].strip('"') if s[1] == '"' else s[1:]


# ---------------------------------------------------------------- loops
class LoopInfo:
    """natural loops; pos[label] = list of (loop header chain) and topological ordinals"""
    __slots__ = ('chain', 'ords', 'headers', 'body', 'parent')


def analyse_loops(f):
    if f.loopinfo is not None:
        return f.loopinfo
    parse_body(f)
    entry = f.order[0]
    succ = {b: f.blocks[b].succs for b in f.order}
    # reachable, rpo
    seen = set()
    post = []
    stack = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    # dominators
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p_ in preds[b]:
                if p_ in idom:
                    if new is None:
                        new = p_
                    else:
                        x, y = p_, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise IRError('irreducible control flow in %s' % f.name)
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(preds[x])
    li = LoopInfo()
    li.body = loops
    li.headers = sorted(loops, key=lambda h: num[h])
    # nesting chain for each block: outermost first
    chain = {}
    for b in rpo:
        c = [h for h in loops if b in loops[h]]
        c.sort(key=lambda h: -len(loops[h]))
        chain[b] = tuple(c)
    li.chain = chain
    # ordinals: topological order within each loop level
    ords = {}

    def level(prefix, blocks, header):
        # children: blocks directly in this level or subloop headers
        d = len(prefix)

        def rep(b):
            c = chain[b]
            if len(c) > d:
                return c[d]
            return b
        nodes = []
        for b in rpo:
            if b in blocks:
                r = rep(b)
                if r not in nodes:
                    nodes.append(r)
        es = {x: set() for x in nodes}
        for b in rpo:
            if b not in blocks:
                continue
            for s in succ[b]:
                if s in blocks and s != header:
                    a, c = rep(b), rep(s)
                    if a != c:
                        es[a].add(c)
        # topo sort, stable by rpo
        indeg = {x: 0 for x in nodes}
        for a in nodes:
            for c in es[a]:
                indeg[c] += 1
        order = []
        ready = [x for x in nodes if indeg[x] == 0]
        while ready:
            ready.sort(key=lambda x: num[x])
            x = ready.pop(0)
            order.append(x)
            for c in es[x]:
                indeg[c] -= 1
                if indeg[c] == 0:
                    ready.append(c)
        if len(order) != len(nodes):
            raise IRError('toposort failed in %s' % f.name)
        for k, x in enumerate(order):
            ords[(prefix, x)] = k
        for x in order:
            if x in loops and len(chain[x]) > d and chain[x][d] == x:
                level(prefix + (x,), loops[x], x)
    level((), set(rpo), None)
    li.ords = ords
    li.parent = None
    f.loopinfo = li
    return li
