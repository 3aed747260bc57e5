"""Reader for LLVM 18 textual IR (opaque pointers): enough of the language for
unoptimised C++14 lowered by clang and cleaned by sroa/early-cse/simplifycfg."""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# ('i',n) 'ptr' 'float' 'double' 'x86_fp80' ('arr',n,t) ('struct',(t..),packed)
# ('vec',n,t) 'void' 'label' 'token' 'metadata' ('named',name) ('opaque',)
TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\.)*"            # c string
 | "(?:[^"\\]|\\.)*"
 | [%@$](?:"(?:[^"\\]|\\.)*"|[-\w.$]+)
 | ![\w.]*
 | \#\d+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d*(?:e[+-]?\d+)?
 | -?\d+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | [-()\[\]{}<>,=*:|]
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: ' + s[pos:pos + 80])
        out.append(m.group(1))
        pos = m.end()
        while pos < n and s[pos] in ' \t':
            pos += 1
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly',
               'noalias', 'returned', 'immarg', 'inreg', 'nest', 'readnone', 'swiftself',
               'nofree', 'noreturn', 'allocptr', 'allocalign', 'writable', 'dead_on_unwind', 'inalloca', 'nofpclass'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                   'elementtype', 'range', 'nofpclass', 'initializes', 'preallocated', 'inalloca'}


class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = 'ptr'
            if self.accept('addrspace'):
                self.expect('(')
                self.next()
                self.expect(')')
        elif t in ('float', 'double', 'void', 'label', 'token', 'metadata', 'x86_fp80', 'half', 'fp128'):
            r = t
        elif re.fullmatch(r'i\d+', t):
            r = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.accept('{'):
                r = self.struct_body('}', True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = self.struct_body('}', False)
        elif t[0] == '%':
            r = ('named', t[1:].strip('"'))
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(self.t[:40])))
        # function type suffix: ret (args)
        if self.peek() == '(' and self._fnty_ok:
            self.next()
            while not self.accept(')'):
                if self.accept(','):
                    continue
                if self.accept('...'):
                    continue
                self.type()
        return r

    _fnty_ok = False

    def struct_body(self, close, packed):
        fs = []
        while not self.accept(close):
            if self.accept(','):
                continue
            fs.append(self.type())
        return ('struct', tuple(fs), packed)

    def skip_param_attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                elif t == 'align':
                    self.next()
                continue
            if t in PARAM_ATTRS:
                self.next()
                continue
            if t[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
                continue
            return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def value(self, ty):
        """operand of type ty -> ('l',name) | ('c',const) | ('g',name) | ('ce',...) | ('agg',[...]) | ('undef',) ('zero',)"""
        t = self.next()
        if t[0] == '%':
            return ('l', t[1:].strip('"'))
        if t[0] == '@':
            return ('g', t[1:].strip('"'))
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('c', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            return ('str', cstring(t[2:-1]))
        if t == '[' or t == '{' or t == '<':
            if t == '<' and self.accept('{'):
                close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[t]
            vals = []
            while not self.accept(close):
                if self.accept(','):
                    continue
                ety = self.type()
                vals.append((ety, self.value(ety)))
            if t == '<' and close == '}':
                self.expect('>')
            return ('agg', vals)
        if t in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
                self.skip_paren()
            self.expect('(')
            bty = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.accept('inrange'):
                    if self.peek() == '(':
                        self.skip_paren()
                oty = self.type()
                ops.append((oty, self.value(oty)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('gepc', bty, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            oty = self.type()
            v = self.value(oty)
            self.expect('to')
            dty = self.type()
            self.expect(')')
            return ('castc', t, oty, v, dty)
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            oty = self.type()
            a = self.value(oty)
            self.expect(',')
            oty2 = self.type()
            b = self.value(oty2)
            self.expect(')')
            return ('binc', t, oty, a, b)
        if t == 'blockaddress' or t == 'dso_local_equivalent':
            raise IRError('unsupported constant ' + t)
        if isinstance(ty, tuple) and ty[0] == 'i':
            return ('c', int(t) & ((1 << ty[1]) - 1))
        if ty == 'double':
            return ('c', fp_const(t, 64))
        if ty == 'float':
            return ('c', fp_const(t, 32))
        if ty == 'x86_fp80':
            return ('c', int(t[3:], 16))
        raise IRError('value? %r of %r in %s' % (t, ty, ' '.join(self.t[:60])))


def cstring(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fp_const(t, w):
    if t.startswith('0x'):
        bits64 = int(t[2:], 16)
        if w == 64:
            return bits64
        d = struct.unpack('<d', struct.pack('<Q', bits64))[0]
        if d != d or d in (float('inf'), float('-inf')):
            s = bits64 >> 63
            m = (bits64 & ((1 << 52) - 1)) >> 29
            return s << 31 | 0xff << 23 | m
        return struct.unpack('<I', struct.pack('<f', d))[0]
    d = float(t)
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]


class Instr:
    __slots__ = ('op', 'dst', 'a', 'raw')

    def __init__(self, op, dst, a, raw):
        self.op = op
        self.dst = dst
        self.a = a
        self.raw = raw


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'code', 'nregs', 'regidx', 'vararg', 'internal', 'tmpl')


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external', 'tls')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._sz = {}

    # ----- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def sizealign(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._sizealign(t)
        return r

    def _sizealign(self, t):
        t = self.resolve(t)
        if t == 'ptr':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'double':
            return 8, 8
        if t == 'x86_fp80':
            return 16, 16
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p, min(p, 16)
        if k == 'arr':
            s, a = self.sizealign(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.sizealign(t[2])
            return s * t[1], s * t[1]
        if k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.sizealign(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        raise IRError('sizeof %r' % (t,))

    def size(self, t):
        return self.sizealign(t)[0]

    def field_offset(self, t, idx):
        t = self.resolve(t)
        off = 0
        for i, f in enumerate(t[1]):
            s, a = self.sizealign(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise IRError('field')


LINKAGE = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'common', 'external',
           'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'protected', 'default', 'available_externally',
           'extern_weak', 'appending', 'externally_initialized', 'dso_preemptable'}
FNATTR = LINKAGE | PARAM_ATTRS | {'fastcc', 'ccc', 'coldcc', 'tailcc'}

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg',
         'inbounds', 'nusw', 'samesign'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        c = ln[0]
        if c == '%':
            m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', ln)
            if m:
                p = P(tokenize(m.group(2)), mod)
                mod.types[m.group(1).strip('"')] = p.type()
        elif c == '@':
            parse_global(mod, ln)
        elif ln.startswith('define'):
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            f = parse_header(mod, ln)
            f.blocks, f.order = None, body   # lazily parsed
            mod.funcs[f.name] = f
        elif ln.startswith('declare'):
            f = parse_header(mod, ln)
            mod.decls[f.name] = f
    return mod


def parse_global(mod, ln):
    p = P(tokenize(ln), mod)
    g = Global()
    g.name = p.next()[1:].strip('"')
    p.expect('=')
    g.external = False
    g.tls = False
    while True:
        t = p.peek()
        if t in LINKAGE:
            if t in ('external', 'extern_weak'):
                g.external = True
            p.next()
        elif t == 'thread_local':
            g.tls = True
            p.next()
            if p.peek() == '(':
                p.skip_paren()
        elif t == 'addrspace':
            p.next()
            p.skip_paren()
        else:
            break
    t = p.next()
    if t in ('alias', 'ifunc'):
        ty = p.type()
        p.expect(',')
        pty = p.type()
        v = p.value(pty)
        mod.aliases[g.name] = v
        return
    if t not in ('global', 'constant'):
        raise IRError('global? ' + ln)
    g.const = t == 'constant'
    g.ty = p.type()
    g.init = None
    if not g.external:
        g.init = p.value(g.ty)
    mod.globals[g.name] = g


def parse_header(mod, ln):
    p = P(tokenize(ln), mod)
    p.next()
    f = Func()
    f.code = None
    f.vararg = False
    f.internal = False
    while True:
        p.skip_param_attrs()
        t = p.peek()
        if t in FNATTR:
            if t in ('internal', 'private'):
                f.internal = True
            p.next()
        elif t == 'cc':
            p.next()
            p.next()
        else:
            break
    f.ret = p.type()
    f.name = p.next()[1:].strip('"')
    p.expect('(')
    f.params = []
    while not p.accept(')'):
        if p.accept(','):
            continue
        if p.accept('...'):
            f.vararg = True
            continue
        ty = p.type()
        p.skip_param_attrs()
        nm = None
        if p.peek() and p.peek()[0] == '%':
            nm = p.next()[1:].strip('"')
        f.params.append((ty, nm if nm is not None else str(len(f.params))))
    return f


def parse_body(mod, f):
    if f.blocks is not None:
        return
    body = f.order
    blocks = {}
    order = []
    cur = None
    # join multi-line constructs (switch, landingpad clauses, invoke "to label")
    joined = []
    k = 0
    while k < len(body):
        ln = body[k]
        k += 1
        s = ln.strip()
        if not s:
            continue
        if s.startswith('switch') or ' = switch' in s:
            while ']' not in body[k]:
                s += ' ' + body[k].strip()
                k += 1
            s += ' ' + body[k].strip()
            k += 1
        elif re.match(r'(%[^ ]+ = )?invoke', s):
            s += ' ' + body[k].strip()
            k += 1
        elif ' = landingpad' in s:
            while k < len(body) and body[k].strip().startswith(('catch', 'cleanup', 'filter')):
                s += ' ' + body[k].strip()
                k += 1
        joined.append(s)
    first = True
    for s in joined:
        m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):(\s*;.*)?$', s)
        if m:
            cur = m.group(1).strip('"')
            blocks[cur] = []
            order.append(cur)
            first = False
            continue
        if first:
            # implicit entry label: number of params
            cur = '%entry'
            blocks[cur] = []
            order.append(cur)
            first = False
        if s.startswith(';'):
            continue
        if s.startswith('#dbg'):
            continue
        blocks[cur].append(parse_instr(mod, s))
    f.blocks = blocks
    f.order = order
    # implicit entry label is the next unnamed number; phis refer to it
    if order and order[0] == '%entry':
        nparam = len(f.params)
        implicit = str(nparam)
        if implicit not in blocks:
            for b in blocks.values():
                for ins in b:
                    if ins.op == 'phi':
                        ins.a = (ins.a[0], [(v, '%entry' if l == implicit else l) for v, l in ins.a[1]])


def parse_call_tail(mod, p):
    """after optional cc/attrs: type callee(args)"""
    while True:
        p.skip_param_attrs()
        t = p.peek()
        if t in FNATTR or t in FLAGS:
            p.next()
        elif t == 'cc':
            p.next()
            p.next()
        else:
            break
    p._fnty_ok = True
    rty = p.type()
    p._fnty_ok = False
    p.skip_param_attrs()
    if p.peek() == 'asm':
        raise IRError('inline asm')
    callee = p.value('ptr')
    p.expect('(')
    args = []
    while not p.accept(')'):
        if p.accept(','):
            continue
        ty = p.type()
        p.skip_param_attrs()
        if ty == 'metadata':
            # skip
            d = 0
            while True:
                t = p.peek()
                if d == 0 and t in (',', ')'):
                    break
                if t == '(':
                    d += 1
                if t == ')':
                    d -= 1
                p.next()
            args.append((ty, ('undef',)))
            continue
        args.append((ty, p.value(ty)))
    return rty, callee, args


def parse_instr(mod, s):
    p = P(tokenize(s), mod)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        flags = set()
        while p.peek() in FLAGS:
            flags.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr('bin', dst, (op, ty, a, b, flags), s)
    if op in CASTS:
        flags = set()
        while p.peek() in FLAGS:
            flags.add(p.next())
        ty = p.type()
        v = p.value(ty)
        p.expect('to')
        dty = p.type()
        return Instr('cast', dst, (op, ty, v, dty), s)
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, dst, (pred, ty, a, b), s)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        return Instr('fneg', dst, (ty, p.value(ty)), s)
    if op == 'freeze':
        ty = p.type()
        return Instr('freeze', dst, (ty, p.value(ty)), s)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = (('i', 32), ('c', 1))
        if p.accept(','):
            if p.peek() != 'align' and p.peek() is not None:
                cty = p.type()
                cnt = (cty, p.value(cty))
        return Instr('alloca', dst, (ty, cnt), s)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        pty = p.type()
        return Instr('load', dst, (ty, p.value(pty)), s)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pty = p.type()
        return Instr('store', None, (ty, v, p.value(pty)), s)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bty = p.type()
        p.expect(',')
        pty = p.type()
        base = p.value(pty)
        idx = []
        while p.accept(','):
            if p.peek() and p.peek()[0] == '!':
                break
            t = p.type()
            idx.append((t, p.value(t)))
        return Instr('gep', dst, (bty, base, idx), s)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('jmp', None, (p.next()[1:].strip('"'),), s)
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        t = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        f = p.next()[1:].strip('"')
        return Instr('br', None, (c, t, f), s)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1:].strip('"')))
        return Instr('switch', None, (ty, v, d, cases), s)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            l = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
            if p.peek() != '[':
                break
        return Instr('phi', dst, (ty, inc), s)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        cty = p.type()
        c = p.value(cty)
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        ty2 = p.type()
        b = p.value(ty2)
        return Instr('select', dst, (c, ty, a, b), s)
    if op == 'call':
        rty, callee, args = parse_call_tail(mod, p)
        return Instr('call', dst, (rty, callee, args, None, None), s)
    if op == 'invoke':
        rty, callee, args = parse_call_tail(mod, p)
        while p.peek() != 'to':
            p.next()
        p.expect('to')
        p.expect('label')
        n = p.next()[1:].strip('"')
        p.expect('unwind')
        p.expect('label')
        u = p.next()[1:].strip('"')
        return Instr('call', dst, (rty, callee, args, n, u), s)
    if op == 'ret':
        ty = p.type()
        if ty == 'void':
            return Instr('ret', None, None, s)
        return Instr('ret', None, (ty, p.value(ty)), s)
    if op == 'unreachable':
        return Instr('unreachable', None, None, s)
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return Instr('extractvalue', dst, (ty, v, idx), s)
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        ety = p.type()
        e = p.value(ety)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return Instr('insertvalue', dst, (ty, v, ety, e, idx), s)
    if op in ('landingpad', 'resume', 'cleanupret', 'catchret'):
        return Instr('exc', dst, (op,), s)
    if op == 'fence':
        return Instr('nop', None, None, s)
    return Instr('unsupported', dst, (op,), s)
