"""Turns a parsed LLVM function into a flat list of Python closures.

A closure has the signature  op(E, st, fr)  and returns None to fall through to
the next one, or True when it has set the control state itself.  A closure may
raise Fork before it changed anything; it is then run again on every branch with
the branch's condition known.
"""
import sx
from sx import (Sym, FPV, FPL, Cond, Lin, UNDEF, Unsupported, Violation, Fork, c_le, c_eq, c_and, c_or, c_not,
                lin_add, lin_scale, lin_const, LIN, fval, fbits)


def width(E, ty):
    if ty == 'ptr':
        return 64
    if isinstance(ty, tuple) and ty[0] == 'i':
        return ty[1]
    raise Unsupported('width of %r' % (ty,))


def asint(E, st, v):
    """i1 Cond used as a number"""
    if isinstance(v, Cond):
        return E.bit(st, v)
    if v is True or v is False:
        return int(v)
    return v


def nsw_range(E, st, l, lo, hi, N):
    """signed expression l in [lo,hi]: representation, or UNDEF when it overflows"""
    half = 1 << (N - 1)
    if not isinstance(l, Lin):
        l = Lin(l, ())
    if not l.t:
        if -half <= l.c < half:
            return l.c & ((1 << N) - 1)
        return UNDEF
    if lo < -half or hi >= half:
        l2, h2 = E.rnglin(st, l)
        if l2 is not None:
            lo = max(lo, l2)
        if h2 is not None:
            hi = min(hi, h2)
        if lo < -half or hi >= half:
            c = c_and([c_le(Lin(l.c - half + 1, l.t)), c_le(Lin(-half - l.c, tuple((v, -k) for v, k in l.t)))])
            if not E.decide(st, c):
                return UNDEF
            lo = max(lo, -half)
            hi = min(hi, half - 1)
    return E.wrap(st, l, lo, hi, N)


def binop(E, st, op, a, b, N, flags):
    if a is UNDEF or b is UNDEF:
        if op == 'and' and (a == 0 or b == 0):
            return 0
        return UNDEF
    ca = isinstance(a, (Cond, bool))
    cb = isinstance(b, (Cond, bool))
    if ca or cb or (N == 1 and op in ('and', 'or', 'xor')):
        if N != 1:
            a = asint(E, st, a)
            b = asint(E, st, b)
        else:
            a = E.tocond(a)
            b = E.tocond(b)
            if op == 'and' or op == 'mul':
                return c_and([a, b])
            if op == 'or':
                return c_or([a, b])
            if op == 'xor' or op == 'add' or op == 'sub':
                return E.cxor(a, b)
            raise Unsupported('i1 ' + op)
    if op == 'add' or op == 'sub' or op == 'mul':
        if 'nsw' in flags and not (op == 'mul' and isinstance(a, Sym) and isinstance(b, Sym)):
            A, la, ha = E.signed(st, a, N)
            B, lb, hb = E.signed(st, b, N)
            if op == 'add':
                return nsw_range(E, st, lin_add(LIN(A), LIN(B)), la + lb, ha + hb, N)
            if op == 'sub':
                return nsw_range(E, st, lin_add(LIN(A), LIN(B), -1), la - hb, ha - lb, N)
            if isinstance(A, int):
                A, B, la, ha, lb, hb = B, A, lb, hb, la, ha
            k = B
            if isinstance(A, int):
                return nsw_range(E, st, A * k, 0, 0, N)
            return nsw_range(E, st, lin_scale(LIN(A), k), min(la * k, ha * k), max(la * k, ha * k), N)
        if op == 'add':
            return E.add(st, a, b, N)
        if op == 'sub':
            return E.sub(st, a, b, N)
        return E.mul(st, a, b, N)
    if op in ('shl', 'lshr', 'ashr'):
        if not isinstance(b, int):
            b = E.concretize(st, b)
        if b >= N:
            return UNDEF
        if op == 'lshr':
            return E.lshr(st, a, b)
        if op == 'shl':
            if 'nsw' in flags:
                A, la, ha = E.signed(st, a, N)
                if isinstance(A, int):
                    return nsw_range(E, st, A << b, 0, 0, N)
                return nsw_range(E, st, lin_scale(A, 1 << b), la << b, ha << b, N)
            return E.shl(st, a, b, N)
        A, la, ha = E.signed(st, a, N)
        if isinstance(A, int):
            return (A >> b) & ((1 << N) - 1)
        q, _ = E.split(st, Sym(A, la, ha), 1 << b)
        return E.unsign(st, q if isinstance(q, int) else q.l, la >> b, ha >> b, N)
    if op == 'and':
        return E.and_(st, a, b, N)
    if op == 'or':
        return E.or_(st, a, b, N)
    if op == 'xor':
        return E.xor(st, a, b, N)
    if op in ('udiv', 'urem'):
        if not isinstance(b, int):
            b = E.concretize(st, b)
        if b == 0:
            raise Violation('undefined-behaviour', 'division by zero')
        q, r = E.split(st, a, b)
        return q if op == 'udiv' else r
    if op in ('sdiv', 'srem'):
        if not isinstance(b, int):
            b = E.concretize(st, b)
        if b == 0:
            raise Violation('undefined-behaviour', 'division by zero')
        d = b - (1 << N) if b >= 1 << (N - 1) else b
        A, la, ha = E.signed(st, a, N)
        if isinstance(A, int):
            if A == -(1 << (N - 1)) and d == -1:
                raise Violation('undefined-behaviour', 'signed division overflow')
            q = abs(A) // abs(d)
            if (A < 0) != (d < 0):
                q = -q
            r = A - q * d
            return (q if op == 'sdiv' else r) & ((1 << N) - 1)
        if d < 0:
            raise Unsupported('sdiv by a negative constant')
        if la >= 0:
            q, r = E.split(st, Sym(A, la, ha), d)
            return q if op == 'sdiv' else r
        if ha <= 0 or not E.decide(st, c_le(lin_scale(A, -1))):
            ha = min(ha, 0)
            q, r = E.split(st, Sym(lin_scale(A, -1), -ha, -la), d)
            z = q if op == 'sdiv' else r
            return E.sub(st, 0, z, N)
        q, r = E.split(st, Sym(A, 0, ha), d)
        return q if op == 'sdiv' else r
    raise Unsupported('binop ' + op)


# Numbers made from symbolic integers: n / 2^s with a linear n.  Each rounding is a fresh variable
# within half a unit in the last place (at most 2^-p of the magnitude) of the exact result.
def fp_linear(v):
    if isinstance(v, FPL):
        return v
    if isinstance(v, FPV) and isinstance(v.b, int):
        x = fval(v)
        if x - x == 0:
            n, d = x.as_integer_ratio()
            return FPL(lin_const(n), d.bit_length() - 1, n, n, v.w)
    raise Unsupported('symbolic floating-point operand')


def fp_round(E, st, n, s, lo, hi, w):
    p = 53 if w == 64 else 24
    m = max(abs(lo), abs(hi))
    if s > 900 or m >> s > 1 << 63:
        raise Unsupported('symbolic floating-point number out of range')
    if m <= 1 << p:
        return FPL(n, s, lo, hi, w)
    key = ('fpround', n, s, w)
    r = st.user.get(key)
    if r is None:
        if lo < 0 < hi:
            if E.decide(st, c_le(n)):
                hi = 0
            else:
                lo = 1
        g = m >> p
        v = E.var(st, lo - g if lo else 0, hi + g if hi else 0, 'fp')
        d = lin_add(v.l, n, -1)
        k = 1 if lo >= 0 else -1
        # k * |n| - 2^p * |v - n| >= 0
        for z in (1, -1):
            E.define(c_le(lin_add(lin_scale(d, z << p), n, -k)))
        r = st.user[key] = FPL(v.l, s, v.lo, v.hi, w)
    return r


def fp_op(E, st, op, a, b):
    a, b = fp_linear(a), fp_linear(b)
    if op == 'fmul':
        if a.n.t and b.n.t:
            raise Unsupported('product of symbolic floating-point numbers')
        if a.n.t:
            a, b = b, a
        q = [a.n.c * b.lo, a.n.c * b.hi]
        return fp_round(E, st, lin_scale(b.n, a.n.c), a.s + b.s, min(q), max(q), a.w)
    if op == 'fdiv' and not b.n.t and b.n.c and abs(b.n.c) & (abs(b.n.c) - 1) == 0:
        # by a power of two: exact
        k = abs(b.n.c).bit_length() - 1 - b.s
        z = 1 if b.n.c > 0 else -1
        n, lo, hi = (a.n, a.lo, a.hi) if z > 0 else (lin_scale(a.n, -1), -a.hi, -a.lo)
        if k >= -a.s:
            return FPL(n, a.s + k, lo, hi, a.w)
        return FPL(lin_scale(n, 1 << (-k - a.s)), 0, lo << (-k - a.s), hi << (-k - a.s), a.w)
    if op == 'fdiv' and not b.n.t and b.n.c:
        # n1 2^s2 / (n2 2^s1) rounded: in units 2^-(p+12) of one
        p = 53 if a.w == 64 else 24
        s = p + 12
        lo, hi, n, c = a.lo, a.hi, a.n, b.n.c
        if c < 0:
            n, c, lo, hi = lin_scale(n, -1), -c, -hi, -lo
        if lo < 0 < hi:
            if E.decide(st, c_le(n)):
                hi = 0
            else:
                lo = 1
        # |v * c 2^a.s - n 2^(b.s + s)| <= |n| 2^(b.s + s - p)
        q = lambda x: (x << (b.s + s)) // (c << a.s)
        v = E.var(st, q(lo) - (abs(q(lo)) >> p) - 2 if lo else 0, q(hi) + (abs(q(hi)) >> p) + 2 if hi else 0, 'fp')
        d = lin_add(lin_scale(v.l, c << (a.s + p)), lin_scale(n, 1 << (b.s + s + p)), -1)
        k = 1 if lo >= 0 else -1
        for z in (1, -1):
            E.define(c_le(lin_add(lin_scale(d, z), n, -k << (b.s + s))))
        return FPL(v.l, s, v.lo, v.hi, a.w)
    if op in ('fadd', 'fsub'):
        s = max(a.s, b.s)
        x, y = s - a.s, s - b.s
        k = 1 if op == 'fadd' else -1
        q = [(b.lo << y) * k, (b.hi << y) * k]
        return fp_round(E, st, lin_add(lin_scale(a.n, 1 << x), b.n, k << y), s, (a.lo << x) + min(q), (a.hi << x) + max(q), a.w)
    raise Unsupported('symbolic floating-point ' + op)


def fp_integer(E, st, v, how):
    """integer part as (Lin, lo, hi): how is 'floor', 'ceil' or 'trunc'"""
    n, lo, hi = v.n, v.lo, v.hi
    if not v.s:
        return n, lo, hi
    if how == 'trunc':
        how = 'floor' if lo >= 0 else 'ceil' if hi <= 0 else 'ceil' if E.decide(st, c_le(n)) else 'floor'
    off = (1 << v.s) - 1 if how == 'ceil' else 0
    k = max(0, -(lo >> v.s))            # shifted to be nonnegative
    q, _ = E.split(st, E.mk(st, Lin(n.c + off + (k << v.s), n.t), lo + off + (k << v.s), hi + off + (k << v.s)), 1 << v.s)
    q = LIN(q)
    return Lin(q.c - k, q.t), lo + off >> v.s, hi + off >> v.s


def fcmp_linear(E, st, pred, a, b):
    if isinstance(a, FPV) and isinstance(a.b, int) and not fval(a) - fval(a) == 0 or isinstance(b, FPV) and isinstance(b.b, int) and not fval(b) - fval(b) == 0:
        raise Unsupported('comparison with infinity')
    a, b = fp_linear(a), fp_linear(b)
    s = max(a.s, b.s)
    d = lin_add(lin_scale(a.n, 1 << (s - a.s)), b.n, -1 << (s - b.s))
    if pred in ('ord', 'true', 'uno', 'false'):
        return pred in ('ord', 'true')
    m = lin_scale(d, -1)
    return {'eq': lambda: c_eq(d), 'ne': lambda: c_not(c_eq(d)), 'lt': lambda: c_le(Lin(d.c + 1, d.t)), 'le': lambda: c_le(d),
            'gt': lambda: c_le(Lin(m.c + 1, m.t)), 'ge': lambda: c_le(m)}[pred[1:]]()


def fp_fneg(E, st, v):
    return FPL(lin_scale(v.n, -1), v.s, -v.hi, -v.lo, v.w)


def fbin(E, st, op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, FPL) or isinstance(b, FPL):
        return fp_op(E, st, op, a, b)
    if not (isinstance(a.b, int) and isinstance(b.b, int)):
        raise Unsupported('symbolic floating-point ' + op)
    x = fval(a)
    y = fval(b)
    try:
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
    except ZeroDivisionError:
        raise Unsupported('floating division by zero')
    return FPV(fbits(r, a.w), a.w)


def cast(E, st, op, v, sty, dty):
    if v is UNDEF:
        return UNDEF
    if op == 'trunc':
        n = dty[1]
        if isinstance(v, (Cond, bool)):
            return v
        r = E.low(st, v, n)
        if n == 1:
            return E.tocond(r)
        return r
    if op == 'zext':
        if isinstance(v, Cond):
            return E.bit(st, v)
        return int(v) if isinstance(v, bool) else v
    if op == 'sext':
        N = dty[1]
        if isinstance(v, Cond):
            v = E.decide(st, v)
        if isinstance(v, bool):
            return ((1 << N) - 1) if v else 0
        if sty[1] == 1 and isinstance(v, int):
            return ((1 << N) - 1) if v & 1 else 0
        A, lo, hi = E.signed(st, v, sty[1])
        if isinstance(A, int):
            return A & ((1 << N) - 1)
        if lo >= 0:
            return v
        return E.wrap(st, A, lo, hi, N)
    if op in ('ptrtoint', 'inttoptr'):
        if op == 'ptrtoint' and dty[1] < 64:
            return E.low(st, v, dty[1])
        return v
    if op == 'bitcast':
        if isinstance(v, FPV):
            if dty in ('double', 'float'):
                return v
            return v.b
        if dty == 'double':
            return FPV(v, 64)
        if dty == 'float':
            return FPV(v, 32)
        return v
    if op == 'addrspacecast':
        return v
    if op in ('fpext', 'fptrunc'):
        if isinstance(v, FPV) and isinstance(v.b, int) and dty in ('float', 'double'):
            w = 64 if dty == 'double' else 32
            return FPV(fbits(fval(v), w), w)
        if isinstance(v, FPL):
            return fp_round(E, st, v.n, v.s, v.lo, v.hi, 64 if dty == 'double' else 32)
        raise Unsupported('symbolic ' + op)
    if op in ('sitofp', 'uitofp'):
        if isinstance(v, int) and dty in ('float', 'double'):
            if op == 'sitofp' and v >= 1 << (sty[1] - 1):
                v -= 1 << sty[1]
            w = 64 if dty == 'double' else 32
            return FPV(fbits(float(v), w), w)
        if dty in ('float', 'double') and not isinstance(v, int):
            if isinstance(v, (Cond, bool)):
                v = int(E.decide(st, v)) if isinstance(v, Cond) else int(v)
                if op == 'sitofp':
                    v = -v
                w = 64 if dty == 'double' else 32
                return FPV(fbits(float(v), w), w)
            l, lo, hi = E.signed(st, v, sty[1]) if op == 'sitofp' else (v.l,) + tuple(E.rng(st, v))
            return fp_round(E, st, LIN(l) if isinstance(l, Sym) else lin_const(l) if isinstance(l, int) else l, 0, lo, hi, 64 if dty == 'double' else 32)
        raise Unsupported('symbolic ' + op)
    if op in ('fptosi', 'fptoui'):
        if isinstance(v, FPV) and isinstance(v.b, int):
            return int(fval(v)) & ((1 << dty[1]) - 1)
        if isinstance(v, FPL):
            n, lo, hi = fp_integer(E, st, v, 'trunc')
            N = dty[1]
            a, b = (-1 << (N - 1), (1 << (N - 1)) - 1) if op == 'fptosi' else (0, (1 << N) - 1)
            if lo < a or hi > b:
                raise Unsupported('conversion of a floating-point number outside the type')
            return E.wrap(st, n, lo, hi, N)
        raise Unsupported('symbolic ' + op)
    raise Unsupported('cast ' + op)


def compile_func(E, f):
    mod = E.mod
    regidx = {}
    for i, (ty, nm) in enumerate(f.params):
        regidx[nm] = i
    tmpl = [None] * len(f.params)
    consts = {}

    def reg(nm):
        i = regidx.get(nm)
        if i is None:
            i = regidx[nm] = len(tmpl)
            tmpl.append(None)
        return i

    def opnd(v, ty):
        if v[0] == 'l':
            return reg(v[1])
        try:
            key = (v if v[0] in ('c', 'g', 'undef', 'zero') else repr(v), ty)
            i = consts.get(key)
        except TypeError:
            key = None
            i = None
        if i is None:
            i = len(tmpl)
            tmpl.append(E.wrapfp(E.constval(v, ty), ty))
            if key is not None:
                consts[key] = i
        return i

    # first pass: addresses of blocks
    addr = {}
    pos = 0
    for b in f.order:
        addr[b] = pos
        for ins in f.blocks[b]:
            if ins.op not in ('phi', 'nop'):
                pos += 1

    phis = {b: [i for i in f.blocks[b] if i.op == 'phi'] for b in f.order}

    def edge(src, tgt):
        """closure performing the phi moves and the jump"""
        a = addr[tgt]
        mv = []
        for ph in phis[tgt]:
            ty, inc = ph.a
            for v, l in inc:
                if l == src:
                    mv.append((reg(ph.dst), opnd(v, ty)))
                    break
            else:
                raise Unsupported('phi without edge')
        if not mv:
            def go(E, st, fr):
                fr.ip = a
                return True
        elif len(mv) == 1:
            d, s = mv[0]

            def go(E, st, fr):
                R = fr.regs
                R[d] = R[s]
                fr.ip = a
                return True
        else:
            ds = [d for d, _ in mv]
            ss = [s for _, s in mv]

            def go(E, st, fr):
                R = fr.regs
                vals = [R[s] for s in ss]
                for d, v in zip(ds, vals):
                    R[d] = v
                fr.ip = a
                return True
        return go

    code = []
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op in ('phi', 'nop'):
                continue
            code.append(comp(E, mod, f, b, ins, reg, opnd, edge))
    f.code = code
    f.regidx = regidx
    f.nregs = len(tmpl)
    f.tmpl = tmpl


def comp(E, mod, f, blk, ins, reg, opnd, edge):
    op = ins.op
    a = ins.a
    if op == 'bin':
        o, ty, x, y, flags = a
        d = reg(ins.dst)
        i = opnd(x, ty)
        j = opnd(y, ty)
        if o[0] == 'f':
            def k(E, st, fr):
                R = fr.regs
                R[d] = fbin(E, st, o, R[i], R[j])
            return k
        N = width(E, ty)
        M = (1 << N) - 1
        if o == 'add' and 'nsw' not in flags:
            def k(E, st, fr):
                R = fr.regs
                p = R[i]
                q = R[j]
                if type(p) is int and type(q) is int:
                    R[d] = (p + q) & M
                else:
                    R[d] = binop(E, st, o, p, q, N, flags)
            return k

        def k(E, st, fr):
            R = fr.regs
            R[d] = binop(E, st, o, R[i], R[j], N, flags)
        return k
    if op == 'cast':
        o, sty, v, dty = a
        d = reg(ins.dst)
        i = opnd(v, sty)

        def k(E, st, fr):
            R = fr.regs
            R[d] = cast(E, st, o, R[i], sty, dty)
        return k
    if op == 'icmp':
        pred, ty, x, y = a
        d = reg(ins.dst)
        i = opnd(x, ty)
        j = opnd(y, ty)
        N = width(E, ty)

        def k(E, st, fr):
            R = fr.regs
            p = R[i]
            q = R[j]
            if p is UNDEF or q is UNDEF:
                R[d] = UNDEF
            else:
                R[d] = E.icmp(st, pred, p, q, N)
        return k
    if op == 'fcmp':
        pred, ty, x, y = a
        d = reg(ins.dst)
        i = opnd(x, ty)
        j = opnd(y, ty)

        def k(E, st, fr):
            R = fr.regs
            p = R[i]
            q = R[j]
            if p is UNDEF or q is UNDEF:
                R[d] = UNDEF
            else:
                R[d] = E.fcmp(st, pred, p, q)
        return k
    if op == 'fneg':
        ty, v = a
        d = reg(ins.dst)
        i = opnd(v, ty)

        def k(E, st, fr):
            v = fr.regs[i]
            if v is UNDEF:
                fr.regs[d] = UNDEF
                return
            if isinstance(v, FPL):
                fr.regs[d] = fp_fneg(E, st, v)
                return
            half = 1 << (v.w - 1)
            if isinstance(v.b, int):
                fr.regs[d] = FPV(v.b ^ half, v.w)
            else:
                fr.regs[d] = FPV(E.wrap(st, Lin(v.b.l.c + half, v.b.l.t), v.b.lo + half, v.b.hi + half, v.w), v.w)
        return k
    if op == 'freeze':
        ty, v = a
        d = reg(ins.dst)
        i = opnd(v, ty)

        def k(E, st, fr):
            v = fr.regs[i]
            if v is UNDEF:
                raise Violation('undefined-behaviour', 'use of an uninitialised or undefined value')
            fr.regs[d] = v
        return k
    if op == 'alloca':
        ty, (cty, cv) = a
        d = reg(ins.dst)
        i = opnd(cv, cty)
        size = mod.size(ty)
        nm = 'local %s in %s' % (ins.dst, f.name)

        def k(E, st, fr):
            n = fr.regs[i]
            if not isinstance(n, int):
                n = E.concretize(st, n)
            p = E.alloc(st, size * n, 'stack', nm)
            fr.allocas.append(p >> sx.OBJ_SHIFT)
            fr.regs[d] = p
        return k
    if op == 'load':
        ty, p = a
        d = reg(ins.dst)
        i = opnd(p, 'ptr')

        def k(E, st, fr):
            fr.regs[d] = E.load(st, fr.regs[i], ty)
        return k
    if op == 'store':
        ty, v, p = a
        i = opnd(v, ty)
        j = opnd(p, 'ptr')

        def k(E, st, fr):
            v = fr.regs[i]
            if isinstance(v, Cond) or v is True or v is False:
                v = asint(E, st, v)
            E.store(st, fr.regs[j], ty, v)
        return k
    if op == 'gep':
        bty, base, idx = a
        d = reg(ins.dst)
        i = opnd(base, 'ptr')
        const = 0
        terms = []
        ty = bty
        for n, (ity, iv) in enumerate(idx):
            if n == 0:
                sc = mod.size(ty)
            else:
                ty = mod.resolve(ty)
                if ty[0] == 'struct':
                    fo, ty = mod.field_offset(ty, E.constval(iv, ity))
                    const += fo
                    continue
                ty = ty[2]
                sc = mod.size(ty)
            W = ity[1]
            if iv[0] == 'c':
                x = iv[1]
                if x >= 1 << (W - 1):
                    x -= 1 << W
                const += x * sc
            else:
                terms.append((opnd(iv, ity), W, sc))
        M = (1 << 64) - 1
        if not terms:
            def k(E, st, fr):
                p = fr.regs[i]
                if type(p) is int:
                    fr.regs[d] = (p + const) & M
                elif p is UNDEF:
                    fr.regs[d] = UNDEF
                else:
                    fr.regs[d] = E.add(st, p, const & M, 64)
            return k

        def k(E, st, fr):
            R = fr.regs
            p = R[i]
            if p is UNDEF:
                R[d] = UNDEF
                return
            off = const
            l = None
            lo = hi = 0
            for r, W, sc in terms:
                x = R[r]
                if x is UNDEF:
                    R[d] = UNDEF
                    return
                if isinstance(x, int):
                    if x >= 1 << (W - 1):
                        x -= 1 << W
                    off += x * sc
                else:
                    A, la, ha = E.signed(st, x, W)
                    A = lin_scale(LIN(A), sc)
                    l = A if l is None else lin_add(l, A)
                    lo += la * sc
                    hi += ha * sc
            if l is None and type(p) is int:
                R[d] = (p + off) & M
                return
            if l is None:
                R[d] = E.add(st, p, off & M, 64)
                return
            plo, phi = E.rng(st, p)
            l = lin_add(l, LIN(p))
            R[d] = E.wrap(st, Lin(l.c + off, l.t), lo + plo + off, hi + phi + off, 64)
        return k
    if op == 'jmp':
        return edge(blk, a[0])
    if op == 'br':
        c, t, e = a
        i = opnd(c, ('i', 1))
        if t == e:
            return edge(blk, t)
        gt = edge(blk, t)
        ge = edge(blk, e)

        def k(E, st, fr):
            c = fr.regs[i]
            if c is True or c is False:
                return gt(E, st, fr) if c else ge(E, st, fr)
            if c is UNDEF:
                raise Violation('undefined-behaviour', 'branch on an uninitialised or undefined value')
            if not isinstance(c, Cond):
                c = E.tocond(c)
            if E.decide(st, c):
                return gt(E, st, fr)
            return ge(E, st, fr)
        return k
    if op == 'switch':
        ty, v, dflt, cases = a
        i = opnd(v, ty)
        W = ty[1]
        table = {}
        groups = {}
        for cv, l in cases:
            g = edges_get(groups, l, edge, blk)
            table[cv] = g[0]
            g[1].append(cv)
        gd = edge(blk, dflt)
        merged = []
        for l, (g, vals) in groups.items():
            vals.sort()
            rs = []
            for x in vals:
                if rs and rs[-1][1] + 1 == x:
                    rs[-1][1] = x
                else:
                    rs.append([x, x])
            merged.append((g, [tuple(r) for r in rs]))

        def k(E, st, fr):
            v = fr.regs[i]
            if v is UNDEF:
                raise Violation('undefined-behaviour', 'switch on an uninitialised or undefined value')
            if isinstance(v, (Cond, bool)):
                v = int(E.decide(st, v))
            if isinstance(v, int):
                return table.get(v, gd)(E, st, fr)
            conds = []
            for g, rs in merged:
                conds.append(E.in_ranges(st, v, rs))
            none = c_and([c_not(c) for c in conds])
            for (g, rs), c in zip(merged, conds):
                if E.ev(st, c) is True:
                    return g(E, st, fr)
            if E.ev(st, none) is True:
                return gd(E, st, fr)
            opts = [c for c in conds + [none] if E.ev(st, c) is not False]
            if len(opts) == 1:
                E.learn(st, opts[0])
                if opts[0] is none or opts[0] == none:
                    return gd(E, st, fr)
                for (g, rs), c in zip(merged, conds):
                    if c is opts[0]:
                        return g(E, st, fr)
            raise Fork(opts)
        return k
    if op == 'select':
        c, ty, x, y = a
        d = reg(ins.dst)
        i = opnd(c, ('i', 1))
        j = opnd(x, ty)
        l = opnd(y, ty)
        i1 = ty == ('i', 1)

        def k(E, st, fr):
            R = fr.regs
            c = R[i]
            if c is UNDEF:
                R[d] = UNDEF
                return
            if c is not True and c is not False:
                if not isinstance(c, Cond):
                    c = E.tocond(c)
                p = R[j]
                q = R[l]
                if i1 and c is not True and c is not False and p is not UNDEF and q is not UNDEF:
                    p = E.tocond(p)
                    q = E.tocond(q)
                    e = E.ev(st, c)
                    if e is None:
                        R[d] = c_or([c_and([c, p]), c_and([c_not(c), q])])
                    else:
                        R[d] = p if e else q
                    return
                if type(p) is int and p == q:
                    R[d] = p
                    return
                c = E.decide(st, c)
            R[d] = R[j] if c else R[l]
        return k
    if op == 'call':
        return comp_call(E, mod, f, blk, ins, reg, opnd, edge)
    if op == 'ret':
        if a is None:
            def k(E, st, fr):
                E.pop_ret(st, None)
                return True
            return k
        i = opnd(a[1], a[0])

        def k(E, st, fr):
            E.pop_ret(st, fr.regs[i])
            return True
        return k
    if op == 'unreachable':
        def k(E, st, fr):
            raise Violation('undefined-behaviour', 'unreachable code reached in ' + f.name)
        return k
    if op == 'extractvalue':
        ty, v, idx = a
        d = reg(ins.dst)
        i = opnd(v, ty)

        def k(E, st, fr):
            v = fr.regs[i]
            for x in idx:
                if v is UNDEF:
                    break
                v = v[x]
            fr.regs[d] = v
        return k
    if op == 'insertvalue':
        ty, v, ety, e, idx = a
        d = reg(ins.dst)
        i = opnd(v, ty)
        j = opnd(e, ety)

        def ins_at(t, v, idx, e):
            t = mod.resolve(t)
            n = len(t[1]) if t[0] == 'struct' else t[1]
            if v is UNDEF:
                v = (UNDEF,) * n
            v = list(v)
            if len(idx) == 1:
                v[idx[0]] = e
            else:
                v[idx[0]] = ins_at(t[1][idx[0]] if t[0] == 'struct' else t[2], v[idx[0]], idx[1:], e)
            return tuple(v)

        def k(E, st, fr):
            fr.regs[d] = ins_at(ty, fr.regs[i], idx, fr.regs[j])
        return k
    if op == 'exc':
        def k(E, st, fr):
            raise Unsupported('exception handling reached in ' + f.name)
        return k
    raw = ins.raw

    def k(E, st, fr):
        raise Unsupported('instruction: ' + raw)
    return k


def edges_get(groups, l, edge, blk):
    g = groups.get(l)
    if g is None:
        g = groups[l] = (edge(blk, l), [])
    return g


def comp_call(E, mod, f, blk, ins, reg, opnd, edge):
    rty, callee, args, n, u = ins.a
    d = reg(ins.dst) if ins.dst is not None else None
    norm = edge(blk, n) if n is not None else None
    if callee[0] == 'g':
        name = callee[1]
        if name in mod.aliases and mod.aliases[name][0] == 'g':
            name = mod.aliases[name][1]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing',
                            'llvm.var.annotation')):
            return lambda E, st, fr: None
        ci = None
    else:
        name = None
        ci = opnd(callee, 'ptr')
    ai = [opnd(v, ty) for ty, v in args if ty != 'metadata']

    def k(E, st, fr):
        R = fr.regs
        nm = name
        if nm is None:
            p = R[ci]
            if p is UNDEF:
                raise Violation('undefined-behaviour', 'call through an uninitialised pointer')
            if not isinstance(p, int):
                p = E.concretize(st, p)
            nm = E.addrfn.get(p)
            if nm is None:
                raise Violation('memory', 'call through a wild pointer')
        av = [R[i] for i in ai]
        h = E.hooks.get(nm)
        if h is not None:
            r = h(E, st, av)
            if r is not NotImplemented:
                if d is not None:
                    R[d] = r
                if norm is not None:
                    return norm(E, st, fr)
                return None
        if nm in mod.funcs and nm not in E.force_stub:
            E.push_call(st, nm, av, d, norm)
            return True
        s = E.stub_for(nm)
        if s is None:
            raise Unsupported('call of %s' % nm)
        r = s(E, st, av)
        if d is not None:
            R[d] = r
        if norm is not None:
            return norm(E, st, fr)
        return None
    return k
