"""Environment of the code under test: libc, libstdc++ and LLVM intrinsics.

Every entry here is part of the trusted base and is listed in the evidence."""
import sx
from sx import Sym, FPV, Cond, Lin, UNDEF, Unsupported, Violation, Inconclusive, c_le, c_eq, c_and, c_or, c_not, lin_add, LIN

TERMINATORS = ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_throw', '__cxa_rethrow',
               '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt16__throw_bad_castv',
               '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc', '_ZSt20__throw_out_of_rangePKc',
               '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt24__throw_invalid_argumentPKc', '__cxa_bad_cast',
               '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt21__throw_runtime_errorPKc', '_ZSt25__throw_bad_function_callv',
               '__stack_chk_fail', 'exit', '_exit')


def cstr(E, st, p, wide=1, limit=200):
    out = []
    while len(out) < limit:
        b = E.read(st, p, wide)
        if not isinstance(b, int) or b == 0:
            break
        out.append(b)
        p += wide
    return ''.join(chr(x) for x in out)


def die(name):
    def f(E, st, a):
        msg = name
        if name == '__assert_fail':
            try:
                msg = 'assertion failed: ' + cstr(E, st, a[0])
            except Exception:
                pass
        raise Violation('abort', msg)
    return f


def s_malloc(E, st, a):
    n = a[0]
    if not isinstance(n, int):
        n = E.concretize(st, n, 4096)
    if n > 1 << 32:
        raise Violation('memory', 'allocation of %d bytes' % n)
    p = E.alloc(st, n, 'heap', 'heap block of %d bytes' % n)
    st.user['heap'] = st.user.get('heap', 0) + 1
    return p


def s_free(E, st, a):
    p = a[0]
    if p == 0:
        return None
    if not isinstance(p, int):
        p = E.concretize(st, p)
    oid = p >> sx.OBJ_SHIFT
    o = st.mem.get(oid)
    if o is None or o.kind != 'heap' or p & sx.OFF_MASK:
        raise Violation('memory', 'free of a pointer that was not allocated')
    if not o.alive:
        raise Violation('memory', 'double free')
    if o.owner is not st.token:
        o = o.copy(st.token)
        st.mem[oid] = o
    o.alive = False
    o.data = {}
    st.user['heap'] -= 1
    return None


def conc(E, st, n):
    return n if isinstance(n, int) else E.concretize(st, n, 4096)


def s_memcpy(E, st, a):
    n = conc(E, st, a[2])
    if n:
        d = conc(E, st, a[0])
        s = conc(E, st, a[1])
        if d != s and d < s + n and s < d + n:
            raise Violation('undefined-behaviour', 'memcpy of overlapping ranges')
        E.copy_mem(st, d, s, n)
    return a[0]


def s_memmove(E, st, a):
    n = conc(E, st, a[2])
    if n:
        E.copy_mem(st, conc(E, st, a[0]), conc(E, st, a[1]), n)
    return a[0]


def setter(w):
    def f(E, st, a):
        n = conc(E, st, a[2])
        v = a[1]
        if n:
            d = conc(E, st, a[0])
            if v is not UNDEF and w == 1 and not isinstance(v, int):
                v = E.low(st, v, 8)
            elif isinstance(v, int):
                v &= (1 << (8 * w)) - 1
            oid, o, off = E.locate(st, d, n * w, 'write')
            if not o.writable:
                raise Violation('memory', 'write into constant ' + o.name)
            if o.owner is not st.token:
                o = o.copy(st.token)
                st.mem[oid] = o
            if o.kind == 'global' and not st.user.get('guard'):
                st.events.append(('gwrite', o.name))
            for i in range(n):
                E.put(st, o, off + i * w, w, v)
        return a[0]
    return f


def mover(w, overlap):
    g = s_memmove if overlap else s_memcpy

    def f(E, st, a):
        n = conc(E, st, a[2])
        g(E, st, [a[0], a[1], n * w])
        return a[0]
    return f


def strlen_w(w):
    def f(E, st, a):
        p = conc(E, st, a[0])
        n = 0
        while True:
            b = E.read(st, p + n * w, w)
            if b is UNDEF:
                raise Violation('undefined-behaviour', 'strlen over uninitialised memory')
            if isinstance(b, int):
                z = b == 0
            else:
                z = E.decide(st, c_eq(b.l))
            if z:
                return n
            n += 1
    return f


def strcmp_n(E, st, a):
    """strncmp/memcmp/strcmp style comparison of concrete length: sign only"""
    raise Unsupported('comparison')


def memcmp_w(w, signed=False):
    def f(E, st, a):
        n = conc(E, st, a[2])
        p = conc(E, st, a[0])
        q = conc(E, st, a[1])
        for i in range(n):
            x = E.read(st, p + i * w, w)
            y = E.read(st, q + i * w, w)
            if x is UNDEF or y is UNDEF:
                raise Violation('undefined-behaviour', 'comparison of uninitialised memory')
            if isinstance(x, int) and isinstance(y, int):
                if x == y:
                    continue
                return 1 if x > y else (1 << 32) - 1
            if E.decide(st, E.icmp(st, 'eq', x, y, 8 * w)):
                continue
            if E.decide(st, E.icmp(st, 'ugt', x, y, 8 * w)):
                return 1
            return (1 << 32) - 1
        return 0
    return f


def strncmp_w(w, bounded, fold=False):
    def low(E, st, x):
        if not fold:
            return x
        if isinstance(x, int):
            return x + 32 if 65 <= x <= 90 else x
        if E.decide(st, E.in_ranges(st, x, [(65, 90)])):
            return E.add(st, x, 32, 8 * w)
        return x

    def f(E, st, a):
        n = conc(E, st, a[2]) if bounded else 1 << 30
        p = conc(E, st, a[0])
        q = conc(E, st, a[1])
        for i in range(n):
            x = E.read(st, p + i * w, w)
            y = E.read(st, q + i * w, w)
            if x is UNDEF or y is UNDEF:
                raise Violation('undefined-behaviour', 'comparison of uninitialised memory')
            x = low(E, st, x)
            y = low(E, st, y)
            if not E.decide(st, E.icmp(st, 'eq', x, y, 8 * w)):
                if E.decide(st, E.icmp(st, 'ugt', x, y, 8 * w)):
                    return 1
                return (1 << 32) - 1
            if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0:
                return 0
            if not isinstance(x, int) and E.decide(st, c_eq(x.l)):
                return 0
        return 0
    return f


def memchr_w(w):
    def f(E, st, a):
        n = conc(E, st, a[2])
        p = conc(E, st, a[0])
        c = a[1]
        if w == 1:
            c = E.low(st, c, 8)
        for i in range(n):
            x = E.read(st, p + i * w, w)
            if E.decide(st, E.icmp(st, 'eq', x, c, 8 * w)):
                return p + i * w
        return 0
    return f


def minmax(kind):
    def f(E, st, a):
        if a[0] is UNDEF or a[1] is UNDEF:
            return UNDEF
        N = E.cur_width
        raise Unsupported('minmax width')
    return f


def make_minmax(pred, N):
    def f(E, st, a):
        x, y = a
        if x is UNDEF or y is UNDEF:
            return UNDEF
        return x if E.decide(st, E.icmp(st, pred, x, y, N)) else y
    return f


def make_abs(N):
    def f(E, st, a):
        x = a[0]
        if x is UNDEF:
            return UNDEF
        A, lo, hi = E.signed(st, x, N)
        if isinstance(A, int):
            if A == -(1 << (N - 1)):
                return UNDEF if a[1] in (1, True) else x
            return abs(A)
        if lo >= 0:
            return x
        if hi <= 0:
            return E.sub(st, 0, x, N)
        if E.decide(st, c_le(A)):
            return E.sub(st, 0, x, N)
        return x
    return f


def make_clz(N, trailing):
    def f(E, st, a):
        x = a[0]
        if x is UNDEF:
            return UNDEF
        if isinstance(x, int):
            if x == 0:
                return UNDEF if a[1] in (1, True) else N
            return (x & -x).bit_length() - 1 if trailing else N - x.bit_length()
        lo, hi = E.rng(st, x)
        if trailing:
            for k in range(N):
                if not E.decide(st, c_eq(LIN(E.low(st, x, k + 1)))):
                    return k
            return UNDEF if a[1] in (1, True) else N
        b = hi.bit_length()
        while b > 0:
            if lo >= 1 << (b - 1) or E.decide(st, c_le(Lin((1 << (b - 1)) - x.l.c, tuple((v, -k) for v, k in x.l.t)))):
                return N - b
            b -= 1
        return UNDEF if a[1] in (1, True) else N
    return f


def make_ctpop(N):
    def f(E, st, a):
        x = a[0]
        if isinstance(x, int):
            return bin(x).count('1')
        raise Unsupported('ctpop')
    return f


def make_bswap(N):
    def f(E, st, a):
        if isinstance(a[0], int):
            return int.from_bytes(a[0].to_bytes(N // 8, 'little'), 'big')
        raise Unsupported('bswap')
    return f


def make_fsh(left, N):
    def f(E, st, a):
        x, y, s = a
        s = conc(E, st, s) % N
        if not left:
            s = (N - s) % N if s else 0
            if s == 0:
                return y
        if s == 0:
            return x
        return E.add(st, E.shl(st, x, s, N), E.lshr(st, y, N - s), N)
    return f


def make_overflow(op, signed, N):
    def f(E, st, a):
        import compile_ir
        x, y = a
        if x is UNDEF or y is UNDEF:
            return (UNDEF, UNDEF)
        if signed:
            A, la, ha = E.signed(st, x, N)
            B, lb, hb = E.signed(st, y, N)
        else:
            A, B = x, y
            la, ha = E.rng(st, x)
            lb, hb = E.rng(st, y)
        A = LIN(A)
        B = LIN(B)
        if op == 'add':
            l, lo, hi = lin_add(A, B), la + lb, ha + hb
        elif op == 'sub':
            l, lo, hi = lin_add(A, B, -1), la - hb, ha - lb
        else:
            if A.t and B.t:
                if ha - la < hb - lb:
                    A, B, la, ha, lb, hb = B, A, lb, hb, la, ha
                k = E.concretize(st, Sym(B, lb, hb))
            elif A.t:
                k = B.c
            else:
                k = A.c
                A, la, ha = B, lb, hb
            l = sx.lin_scale(A, k)
            lo, hi = min(la * k, ha * k), max(la * k, ha * k)
        mn, mx = (-(1 << (N - 1)), (1 << (N - 1)) - 1) if signed else (0, (1 << N) - 1)
        if not l.t:
            return (l.c & ((1 << N) - 1), not (mn <= l.c <= mx))
        inr = c_and([True if lo >= mn else c_le(lin_add(Lin(mn, ()), l, -1)),
                     True if hi <= mx else c_le(Lin(l.c - mx, l.t))])
        if inr is not True:
            ok = E.decide(st, inr)
        else:
            ok = True
        return (E.wrap(st, l, lo, hi, N), not ok)
    return f


def make_sat(op, N):
    def f(E, st, a):
        x, y = a
        la, ha = E.rng(st, x)
        lb, hb = E.rng(st, y)
        if op == 'add':
            l = lin_add(LIN(x), LIN(y))
            if ha + hb < 1 << N or E.decide(st, c_le(Lin(l.c - (1 << N) + 1, l.t))):
                return E.add(st, x, y, N)
            return (1 << N) - 1
        if lb <= la and la >= hb:
            return E.sub(st, x, y, N)
        if E.decide(st, E.icmp(st, 'uge', x, y, N)):
            return E.sub(st, x, y, N)
        return 0
    return f


def s_fpclass(E, st, a):
    v, mask = a
    if v is UNDEF:
        return UNDEF
    return E.in_ranges(st, v.b, E.fclass_ranges(v.w, mask))


def s_fabs(E, st, a):
    v = a[0]
    if v is UNDEF:
        return UNDEF
    return FPV(E.low(st, v.b, v.w - 1), v.w)


def s_copysign(E, st, a):
    x, y = a
    s = E.lshr(st, y.b, y.w - 1)
    return FPV(E.add(st, E.low(st, x.b, x.w - 1), E.shl(st, s, x.w - 1, x.w), x.w), x.w)


def s_fmuladd(E, st, a):
    import compile_ir
    return compile_ir.fbin(E, st, 'fadd', compile_ir.fbin(E, st, 'fmul', a[0], a[1]), a[2])


def fp1(fn):
    def f(E, st, a):
        v = a[0]
        if isinstance(v, sx.FPL):
            import compile_ir
            n, lo, hi = compile_ir.fp_integer(E, st, v, fn.__name__)
            return sx.FPL(n, 0, lo, hi, v.w)
        if isinstance(v, FPV) and isinstance(v.b, int):
            return FPV(sx.fbits(fn(sx.fval(v)), v.w), v.w)
        raise Unsupported('symbolic math function')
    return f


def s_expect(E, st, a):
    return a[0]


def s_nop(E, st, a):
    return None


def s_ret0(E, st, a):
    return a[0] if a else None


def s_errno(E, st, a):
    p = st.user.get('errno_p')
    if p is None:
        p = E.alloc(st, 4, 'errno', 'errno')
        st.mem[p >> sx.OBJ_SHIFT].zero = True
        st.user['errno_p'] = p
    return p


def make_lower(N, up=False):
    def f(E, st, a):
        c = a[0]
        lo, hi = (97, 122) if up else (65, 90)
        d = -32 if up else 32
        if isinstance(c, int):
            return (c + d) & ((1 << N) - 1) if lo <= c <= hi else c
        if E.decide(st, E.in_ranges(st, c, [(lo, hi)])):
            return E.add(st, c, d & ((1 << N) - 1), N)
        return c
    return f


def make_ctype(N, ranges):
    def f(E, st, a):
        c = E.in_ranges(st, a[0], ranges)
        if isinstance(c, bool):
            return int(c)
        return int(E.decide(st, c))
    return f


STRTO = {'strtod': ('char', 64), 'strtof': ('char', 32), 'strtold': ('char', 80),
         'wcstod': ('wchar_t', 64), 'wcstof': ('wchar_t', 32), 'wcstold': ('wchar_t', 80)}


def make_strto(name):
    def f(E, st, a):
        h = E.strto
        if h is None:
            raise Unsupported('call of ' + name)
        return h(E, st, name, a)
    return f


def s_guard_acquire(E, st, a):
    if E.read(st, a[0], 1) != 0:
        return 0
    st.user['guard'] = st.user.get('guard', 0) + 1
    return 1


def s_guard_release(E, st, a):
    E.write(st, a[0], 1, 1)
    st.user['guard'] -= 1


def install(E):
    S = E.stubs
    S['__cxa_guard_acquire'] = s_guard_acquire
    S['__cxa_guard_release'] = s_guard_release
    E.strto = None
    for n in TERMINATORS:
        S[n] = die(n)
    for n in ('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
        S[n] = s_malloc
    for n in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvRKSt9nothrow_t'):
        S[n] = s_free
    S['memcpy'] = s_memcpy
    S['memmove'] = s_memmove
    S['memset'] = setter(1)
    S['wmemset'] = setter(4)
    S['wmemcpy'] = mover(4, False)
    S['wmemmove'] = mover(4, True)
    S['strlen'] = strlen_w(1)
    S['wcslen'] = strlen_w(4)
    S['memcmp'] = memcmp_w(1)
    S['wmemcmp'] = memcmp_w(4)
    S['bcmp'] = memcmp_w(1)
    S['strncmp'] = strncmp_w(1, True)
    S['strcmp'] = strncmp_w(1, False)
    S['wcsncmp'] = strncmp_w(4, True)
    S['wcscmp'] = strncmp_w(4, False)
    S['strncasecmp'] = strncmp_w(1, True, True)
    S['strcasecmp'] = strncmp_w(1, False, True)
    S['memchr'] = memchr_w(1)
    S['wmemchr'] = memchr_w(4)
    S['__errno_location'] = s_errno
    S['tolower'] = make_lower(32)
    S['towlower'] = make_lower(32)
    S['toupper'] = make_lower(32, True)
    S['towupper'] = make_lower(32, True)
    S['isdigit'] = make_ctype(32, [(48, 57)])
    S['iswdigit'] = make_ctype(32, [(48, 57)])
    S['isspace'] = make_ctype(32, [(9, 13), (32, 32)])
    S['isalpha'] = make_ctype(32, [(65, 90), (97, 122)])
    S['isalnum'] = make_ctype(32, [(48, 57), (65, 90), (97, 122)])
    for n in ('_ZNSt6localeC1Ev', '_ZNSt6localeD1Ev', '_ZNSt6localeC2Ev', '_ZNSt6localeD2Ev', '_ZNSt6localeC1ERKS_',
              '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_atexit', '__cxa_thread_atexit', '__cxa_thread_atexit_impl'):
        S[n] = s_nop
    # std::tolower<C>(C, const locale&): classic "C" locale
    for ch, N in (('c', 8), ('w', 32), ('Ds', 16), ('Di', 32)):
        for fn, up in (('tolower', False), ('toupper', True)):
            nm = '_ZSt%d%sI%sET_S0_RKSt6locale' % (len(fn), fn, ch)
            S[nm] = make_lower(N, up)
            E.force_stub.add(nm)
    for n in STRTO:
        S[n] = make_strto(n)
    P = E.stub_patterns
    P.append(('llvm.memcpy.', s_memcpy))
    P.append(('llvm.memmove.', s_memmove))
    P.append(('llvm.memset.', setter(1)))
    for N in (8, 16, 32, 64):
        for k, p in (('umin', 'ule'), ('umax', 'uge'), ('smin', 'sle'), ('smax', 'sge')):
            S['llvm.%s.i%d' % (k, N)] = make_minmax(p, N)
        S['llvm.abs.i%d' % N] = make_abs(N)
        S['llvm.ctlz.i%d' % N] = make_clz(N, False)
        S['llvm.cttz.i%d' % N] = make_clz(N, True)
        S['llvm.ctpop.i%d' % N] = make_ctpop(N)
        S['llvm.bswap.i%d' % N] = make_bswap(N)
        S['llvm.fshl.i%d' % N] = make_fsh(True, N)
        S['llvm.fshr.i%d' % N] = make_fsh(False, N)
        S['llvm.expect.i%d' % N] = s_expect
        for o in ('add', 'sub', 'mul'):
            S['llvm.u%s.with.overflow.i%d' % (o, N)] = make_overflow(o, False, N)
            S['llvm.s%s.with.overflow.i%d' % (o, N)] = make_overflow(o, True, N)
        S['llvm.uadd.sat.i%d' % N] = make_sat('add', N)
        S['llvm.usub.sat.i%d' % N] = make_sat('sub', N)
    S['abs'] = make_abs(32)
    S['labs'] = make_abs(64)
    S['llvm.expect.i1'] = s_expect
    S['llvm.is.constant.i1'] = lambda E, st, a: False
    P.append(('llvm.threadlocal.address', lambda E, st, a: a[0]))
    P.append(('llvm.is.constant', lambda E, st, a: False))
    P.append(('llvm.is.fpclass', s_fpclass))
    P.append(('llvm.fabs', s_fabs))
    S['fabs'] = s_fabs
    S['fabsf'] = s_fabs
    P.append(('llvm.copysign', s_copysign))
    S['copysign'] = s_copysign
    S['copysignf'] = s_copysign
    P.append(('llvm.fmuladd', s_fmuladd))
    import math
    P.append(('llvm.ceil', fp1(math.ceil)))
    P.append(('llvm.floor', fp1(math.floor)))
    S['ceil'] = fp1(math.ceil)
    S['floor'] = fp1(math.floor)
    P.append(('llvm.trunc', fp1(math.trunc)))
    S['trunc'] = fp1(math.trunc)
    P.append(('llvm.trap', die('trap')))
    P.append(('llvm.ubsantrap', die('trap')))
    P.append(('llvm.stacksave', lambda E, st, a: 0))
    P.append(('llvm.stackrestore', s_nop))
