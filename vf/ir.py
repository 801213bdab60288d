"""Parser for the textual LLVM-18 IR that clang/opt produce from the real sources."""
import re

TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<local>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<str>"[^"]*")
 | (?P<meta>!(?:[-\w.]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<word>[A-Za-z_$][-\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: ' + s[pos:pos + 60] + ' in ' + s[:200])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'packed', 'name', 'layout')

    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k = k          # int ptr void double float array struct named func label meta x86_fp80 opaque
        self.n = n
        self.el = el
        self.fields = fields
        self.packed = packed
        self.name = name
        self.layout = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.fields))
        if self.k == 'named':
            return self.name
        return self.k


INT = {}


def ity(n):
    t = INT.get(n)
    if t is None:
        t = INT[n] = Ty('int', n)
    return t


PTR = Ty('ptr')
VOID = Ty('void')
DOUBLE = Ty('double')
FLOAT = Ty('float')
FP80 = Ty('x86_fp80')
LABEL = Ty('label')
META = Ty('meta')


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line', 'fn')

    def __init__(self, op, dst=None, ty=None, a=(), x=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.x = x
        self.line = None

    def __repr__(self):
        return '%s=%s %s %s %s' % (self.dst, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, name, byval ty or None)
        self.ret = None
        self.blocks = {}      # name -> [Instr]
        self.order = []
        self.entry = None
        self.vararg = False
        self.loops = None
        self.subprogram = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (ty, init value or None, const?)
        self.funcs = {}
        self.decls = {}
        self.meta = {}
        self.aliases = {}

    # ---- layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def sizeof(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int':
            b = (t.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return t.n * self.sizeof(t.el)
        if k == 'struct':
            return self.layout(t)[1]
        raise IRError('sizeof %r' % t)

    def alignof(self, t):
        t = self.resolve(t)
        if t.k == 'array':
            return self.alignof(t.el)
        if t.k == 'struct':
            return self.layout(t)[2]
        return self.sizeof(t)

    def layout(self, t):
        if t.layout is None:
            off = 0
            al = 1
            offs = []
            for f in t.fields:
                a = 1 if t.packed else self.alignof(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.sizeof(f)
            off = (off + al - 1) // al * al
            t.layout = (offs, off, al)
        return t.layout


ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg immarg
 returned nofree nosync nest swiftself swifterror noreturn nounwind allocptr noinline dead_on_unwind writable
 tail musttail notail fastcc ccc coldcc dso_local local_unnamed_addr unnamed_addr hidden internal private linkonce_odr
 weak_odr weak linkonce external extern_weak available_externally common appending constant global protected default
 inbounds nuw nsw exact volatile nneg disjoint reassoc nnan ninf nsz arcp contract afn fast inalloca
 thread_local externally_initialized willreturn comdat atomic'''.split())
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated',
               'elementtype', 'allocsize', 'allockind', 'memory', 'nofpclass', 'range', 'initializes', 'captures'}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise IRError('expected %s got %s in %s' % (v, g, ' '.join(x[1] for x in self.t)))

    def end(self):
        return self.i >= len(self.t)

    # ---- types
    def is_type(self):
        p = self.peek()
        if p is None:
            return False
        if re.fullmatch(r'i\d+', p) or p in ('ptr', 'void', 'double', 'float', 'x86_fp80', 'label', 'metadata', 'opaque'):
            return True
        return p in ('[', '{', '<') or self.kind() == 'local'

    def type(self):
        k = self.kind()
        p = self.next()
        t = None
        if k == 'word':
            if p[0] == 'i' and p[1:].isdigit():
                t = ity(int(p[1:]))
            elif p == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif p == 'void':
                t = VOID
            elif p == 'double':
                t = DOUBLE
            elif p == 'float':
                t = FLOAT
            elif p == 'x86_fp80':
                t = FP80
            elif p == 'label':
                t = LABEL
            elif p == 'metadata':
                t = META
            elif p == 'opaque':
                t = Ty('opaque')
            else:
                raise IRError('type? ' + p)
        elif k == 'local':
            t = Ty('named', name=p)
        elif p == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = Ty('array', n, el)
        elif p == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = Ty('struct', fields=fs)
        elif p == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = Ty('vector', n, el)
        else:
            raise IRError('type? %s' % p)
        # function type suffix
        while self.peek() == '(':
            depth = 0
            while True:
                q = self.next()
                if q == '(':
                    depth += 1
                elif q == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = Ty('func', el=t)
        return t

    def skip_attrs(self):
        """returns dict of interesting attrs"""
        res = {}
        while not self.end():
            p = self.peek()
            k = self.kind()
            if k == 'attr':
                self.next()
            elif p in PAREN_ATTRS:
                self.next()
                if p == 'align' and self.kind() == 'num':
                    self.next()
                    continue
                if self.accept('('):
                    if p in ('byval', 'sret') and self.is_type():
                        res[p] = self.type()
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            q = self.next()
                            if q == '(':
                                d += 1
                            elif q == ')':
                                d -= 1
            elif p in ATTR_WORDS:
                res[p] = True
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                break
        return res

    # ---- values: returned as tuples
    #  ('l',name) ('c',ty,pyval) ('g',name) ('undef',ty) ('zero',ty) ('agg',ty,[vals]) ('gep',srcTy,base,[(ty,val)])
    #  ('cast',op,fromty,val,toty) ('bytes',ty,b'') ('fp',ty,float) ('bin',op,ty,a,b)
    def value(self, ty):
        k = self.kind()
        p = self.next()
        if k == 'local':
            return ('l', p)
        if k == 'glob':
            return ('g', p)
        if k == 'num':
            rt = self.m.resolve(ty)
            if rt.k in ('double', 'float'):
                return ('fp', ty, float(p))
            if rt.k == 'ptr':
                return ('c', ty, int(p))
            return ('c', ty, int(p) & ((1 << rt.n) - 1))
        if k == 'flt':
            return ('fp', ty, float(p))
        if k == 'hex':
            import struct
            rt = self.m.resolve(ty)
            if rt.k in ('double', 'float'):
                return ('fp', ty, struct.unpack('>d', int(p[2:], 16).to_bytes(8, 'big'))[0])
            if p[2] == 'K':
                return ('undef', ty)
            return ('undef', ty)
        if k == 'cstr':
            s = p[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('bytes', ty, bytes(b))
        if p == 'true':
            return ('c', ty, 1)
        if p == 'false':
            return ('c', ty, 0)
        if p == 'null':
            return ('c', ty, 0)
        if p in ('undef', 'poison'):
            return ('undef', ty)
        if p in ('zeroinitializer', 'none'):
            return ('zero', ty)
        if p == '[' or p == '{' or p == '<':
            close = {'[': ']', '{': '}', '<': '>'}[p]
            if p == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            else:
                packed = False
            vals = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    vals.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', ty, vals)
        if p == 'getelementptr':
            self.skip_attrs()
            if self.peek() == 'inrange':
                self.next()
            self.expect('(')
            src = self.type()
            self.expect(',')
            bt = self.type()
            base = self.value(bt)
            idx = []
            while self.accept(','):
                self.skip_attrs()
                if self.peek() == 'inrange':
                    self.next()
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', src, base, idx)
        if p in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', p, t, v, t2)
        if p in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or'):
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('bin', p, t, a, b)
        if p == 'dso_local_equivalent' or p == 'no_cfi':
            return self.value(ty)
        if p == 'metadata':
            return ('meta',)
        if k == 'meta':
            # metadata operand: skip rest parens
            if self.accept('('):
                d = 1
                while d:
                    q = self.next()
                    if q == '(':
                        d += 1
                    elif q == ')':
                        d -= 1
            return ('meta',)
        raise IRError('value? %s %s in %s' % (k, p, ' '.join(x[1] for x in self.t)))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


def parse_instr(m, toks, line):
    p = P(m, toks)
    dst = None
    if p.kind() == 'local' and p.peek(1) == '=':
        dst = p.next()
        p.next()
    p.skip_attrs()
    op = p.next()
    ins = None
    if op in BIN:
        fl = p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr(op, dst, t, (a, b), fl)
    elif op == 'fneg':
        p.skip_attrs()
        t = p.type()
        ins = Instr(op, dst, t, (p.value(t),))
    elif op in CAST:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        ins = Instr(op, dst, t2, (a,), t)
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr(op, dst, t, (a, b), pred)
    elif op == 'alloca':
        p.skip_attrs()
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        ins = Instr(op, dst, t, (), cnt)
    elif op == 'load':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        ins = Instr(op, dst, t, (a,))
    elif op == 'store':
        p.skip_attrs()
        t, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        ins = Instr(op, None, t, (v, a))
    elif op == 'getelementptr':
        p.skip_attrs()
        src = p.type()
        p.expect(',')
        bt, base = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(p.tv())
        ins = Instr(op, dst, src, (base,), idx)
    elif op == 'br':
        if p.accept('label'):
            ins = Instr('jmp', None, None, (), p.next())
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            ins = Instr('br', None, None, (c,), (a, b))
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[2], p.next()))
        ins = Instr('switch', None, t, (v,), (d, cases))
    elif op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.kind() == 'meta':
                break
        ins = Instr('phi', dst, t, (), inc)
    elif op == 'select':
        p.skip_attrs()
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        ins = Instr('select', dst, t, (c, a, b))
    elif op in ('call', 'invoke'):
        p.skip_attrs()
        rt = p.type()
        if rt.k == 'func':
            rt = rt.el
        if p.kind() == 'word' and p.peek() == 'asm':
            ins = Instr('asm', dst, rt)
        else:
            ft = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    if p.peek() == 'metadata':
                        # skip metadata arg
                        d = 0
                        while True:
                            q = p.peek()
                            if d == 0 and q in (',', ')'):
                                break
                            if q == '(':
                                d += 1
                            if q == ')':
                                d -= 1
                            p.next()
                        args.append((META, ('meta',), {}))
                    else:
                        t = p.type()
                        at = p.skip_attrs()
                        args.append((t, p.value(t), at))
                    if p.accept(')'):
                        break
                    p.expect(',')
            x = {'fn': ft}
            if op == 'invoke':
                p.skip_attrs()
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                x['normal'] = p.next()
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = p.next()
            ins = Instr(op, dst, rt, args, x)
    elif op == 'ret':
        if p.accept('void'):
            ins = Instr('ret')
        else:
            t = p.type()
            ins = Instr('ret', None, t, (p.value(t),))
    elif op == 'unreachable':
        ins = Instr('unreachable')
    elif op in ('extractvalue',):
        t, a = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        ins = Instr(op, dst, t, (a,), idx)
    elif op == 'insertvalue':
        t, a = p.tv()
        p.expect(',')
        t2, b = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        ins = Instr(op, dst, t, (a, b), (t2, idx))
    elif op == 'landingpad':
        t = p.type()
        clauses = []
        while not p.end():
            q = p.next()
            if q == 'cleanup':
                clauses.append(('cleanup',))
            elif q == 'catch':
                ct = p.type()
                clauses.append(('catch', p.value(ct)))
            elif q == 'filter':
                ct = p.type()
                clauses.append(('filter', p.value(ct)))
            else:
                break
        ins = Instr(op, dst, t, (), clauses)
    elif op == 'resume':
        t, a = p.tv()
        ins = Instr(op, None, t, (a,))
    elif op == 'atomicrmw':
        p.skip_attrs()
        o = p.next()
        _, a = p.tv()
        p.expect(',')
        t, v = p.tv()
        ins = Instr(op, dst, t, (a, v), o)
    elif op == 'cmpxchg':
        p.skip_attrs()
        if p.peek() == 'weak':
            p.next()
        p.skip_attrs()
        _, a = p.tv()
        p.expect(',')
        t, c = p.tv()
        p.expect(',')
        _, v = p.tv()
        ins = Instr(op, dst, t, (a, c, v))
    elif op == 'fence':
        ins = Instr('nop')
    elif op == 'freeze':
        t, a = p.tv()
        ins = Instr('freeze', dst, t, (a,))
    elif op == 'va_arg':
        ins = Instr('va_arg', dst)
    else:
        raise IRError('unknown instr ' + op + ' : ' + line)
    mm = re.search(r'!dbg !(\d+)', line)
    if mm:
        ins.line = int(mm.group(1))
    return ins


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';' or ln.startswith(('source_filename', 'target ', 'attributes ', '$', 'module asm')):
            continue
        if ln[0] == '%':
            name, rest = ln.split(' = type ', 1)
            m.types[name] = P(m, tokenize(rest)).type()
            continue
        if ln[0] == '@':
            parse_global(m, ln)
            continue
        if ln[0] == '!':
            mm = re.match(r'!(\d+) = (.*)', ln)
            if mm:
                m.meta[int(mm.group(1))] = mm.group(2)
            continue
        if ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
            m.decls['@' + mm.group(1)] = ln
            continue
        if ln.startswith('define'):
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            parse_func(m, ln, body)
            continue
    # source file of every subprogram
    m.srcfile = {}
    for f in m.funcs.values():
        if f.subprogram is not None:
            mm = re.search(r'file: !(\d+)', m.meta.get(f.subprogram, ''))
            fm = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', m.meta.get(int(mm.group(1)), '')) if mm else None
            if fm:
                m.srcfile[f.subprogram] = (fm.group(2) or '') + '/' + fm.group(1)
    return m


def parse_global(m, ln):
    name, rest = ln.split(' = ', 1)
    p = P(m, tokenize(rest))
    at = {}
    while True:
        at.update(p.skip_attrs())
        if p.peek() == 'thread_local':
            p.next()
            if p.accept('('):
                p.next()
                p.expect(')')
            continue
        if p.peek() in ('addrspace',):
            p.next(); p.expect('('); p.next(); p.expect(')')
            continue
        if p.peek() == 'alias':
            p.next()
            p.type()
            p.expect(',')
            p.type()
            m.aliases[name] = p.value(PTR)
            return
        if p.peek() == '(':
            d = 0
            while True:
                q = p.next()
                if q == '(': d += 1
                if q == ')':
                    d -= 1
                    if d == 0: break
            continue
        break
    t = p.type()
    init = None
    if not p.end() and p.peek() != ',' and not ('external' in at or 'extern_weak' in at):
        init = p.value(t)
    m.globals[name] = (t, init, 'constant' in at)


def parse_func(m, head, body):
    mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
    name = '@' + mm.group(1)
    f = Func(name)
    dm = re.search(r'!dbg !(\d+)', head)
    if dm:
        f.subprogram = int(dm.group(1))
    # return type: tokens before name
    pre = head[len('define'):mm.start()]
    p = P(m, tokenize(pre))
    p.skip_attrs()
    f.ret = p.type()
    toks = tokenize(head[mm.end() - 1:].rstrip('{ '))
    p = P(m, toks)
    p.expect('(')
    k = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            at = p.skip_attrs()
            if p.kind() == 'local':
                nm = p.next()
            else:
                nm = '%%%d' % k
            k += 1
            f.params.append((t, nm, at.get('byval')))
            if p.accept(')'):
                break
            p.expect(',')
    # body
    cur = None
    i = 0
    anon = None
    nb = len(body)
    first = True
    while i < nb:
        ln = body[i]
        i += 1
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if not ln.startswith(' '):
            mm = re.match(r'("[^"]*"|[-\w.$]+):', s)
            lab = '%' + mm.group(1)
            cur = f.blocks[lab] = []
            f.order.append(lab)
            if first:
                f.entry = lab
                first = False
            continue
        if cur is None:
            lab = '%' + str(len(f.params))
            cur = f.blocks[lab] = []
            f.order.append(lab)
            f.entry = lab
            first = False
        if s.startswith('switch') or ' = switch' in s:
            while not body[i - 1].rstrip().split(', !')[0].endswith(']'):
                s += ' ' + body[i].strip()
                i += 1
        else:
            while i < nb and re.match(r'\s+(to label|catch |cleanup|filter )', body[i]):
                s += ' ' + body[i].strip()
                i += 1
        if s.startswith(('call void @llvm.dbg', 'tail call void @llvm.dbg', '#dbg')):
            continue
        ins = parse_instr(m, tokenize(s), s)
        ins.fn = name
        cur.append(ins)
    m.funcs[name] = f


# ---------------------------------------------------------------- cfg / loops
def succs(ins):
    if ins.op == 'jmp':
        return [ins.x]
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [c[1] for c in ins.x[1]]
    if ins.op == 'invoke':
        return [ins.x['normal'], ins.x['unwind']]
    return []


def find_loops(f):
    """natural loops: header -> set(blocks)"""
    if f.loops is not None:
        return f.loops
    sc = {b: succs(f.blocks[b][-1]) for b in f.order}
    # reverse postorder
    seen = set()
    post = []
    stack = [(f.entry, iter(sc[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sc[s])))
                adv = True
                break
        if not adv:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in sc[b]:
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in sc[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    q = st.pop()
                    if q not in body:
                        body.add(q)
                        st.extend(preds[q])
    f.loops = loops
    f.preds = preds
    return loops
