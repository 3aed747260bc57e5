"""Symbolic execution of the printing side and the oracles over its output."""
import sx
from fractions import Fraction
from sx import Sym, Lin, FPV, UNDEF, Violation, c_le, c_eq, c_and, c_or, c_not, lin_add, lin_scale, LIN

FT = {'d': dict(w=64, mb=52, emax=2047, bias=1075, buf=34), 'f': dict(w=32, mb=23, emax=255, bias=150, buf=24)}
CH = {'c': 1, 'w': 4, 'u': 2, 'v': 4}


def value_of_bits(T, b):
    """exact value of a finite pattern"""
    p = FT[T]
    s = b >> (p['w'] - 1)
    e = (b >> p['mb']) & p['emax']
    m = b & ((1 << p['mb']) - 1)
    assert e != p['emax']
    if e:
        m += 1 << p['mb']
    else:
        e = 1
    k = e - p['bias']
    v = Fraction(m) * (Fraction(2) ** k)
    return -v if s else v


def kind_of_bits(T, b):
    p = FT[T]
    x = b & ((1 << (p['w'] - 1)) - 1)
    inf = p['emax'] << p['mb']
    if x > inf:
        return 'nan'
    if x == inf:
        return 'inf'
    return 'zero' if x == 0 else 'num'


def finite_tasks(T, exps, sign=None):
    """(T, sign, biased exponent, lowest mantissa, highest mantissa) covering the given exponents"""
    p = FT[T]
    out = []
    for e in exps:
        s = sign if sign is not None else e & 1
        if e == 0:
            for j in range(p['mb']):
                out.append((T, s, 0, 1 << j, (2 << j) - 1))
        else:
            out.append((T, s, e, 0, (1 << p['mb']) - 1))
    return out


def sym_value(E, st, t):
    T, s, e, lo, hi = t
    p = FT[T]
    m = E.var(st, lo, hi, 'm')
    base = (s << (p['w'] - 1)) + (e << p['mb'])
    b = E.mk(st, lin_add(LIN(m), Lin(base, ())), base + lo, base + hi)
    st.user['inputs'] = [('bits', b)]
    st.user['m'] = m
    return FPV(b, p['w'])


def special_value(E, st, T, which):
    """symbolic NaN payloads or one of the four specials"""
    p = FT[T]
    inf = p['emax'] << p['mb']
    S = 1 << (p['w'] - 1)
    if which in ('nan', '-nan'):
        base = inf + (S if which[0] == '-' else 0)
        m = E.var(st, 1, (1 << p['mb']) - 1, 'm')
        b = E.mk(st, lin_add(LIN(m), Lin(base, ())), base + 1, base + (1 << p['mb']) - 1)
    else:
        b = {'inf': inf, '-inf': S + inf, '0': 0, '-0': S}[which]
    st.user['inputs'] = [('bits', b)]
    return FPV(b, p['w'])


def text(E, st, buf, w, limit=120):
    """characters up to the terminator; a symbolic character must not be able to be the terminator"""
    out = []
    while len(out) < limit:
        c = E.read(st, buf + len(out) * w, w)
        if c is UNDEF:
            raise Violation('property', 'the text is not terminated (character %d was never written)' % len(out))
        if isinstance(c, Sym):
            if E.decide(st, c_eq(c.l)):
                return out
        elif c == 0:
            return out
        out.append(c)
    raise Violation('property', 'the text is not terminated')


def digit_of(E, st, c, what='character'):
    """value of a digit character (Lin), or None when it is another concrete character"""
    if isinstance(c, int):
        return Lin(c - 48, ()) if 48 <= c <= 57 else None
    lo, hi = E.rng(st, c)
    if not (lo >= 48 and hi <= 57):
        E.prove(st, c_and([c_le(lin_add(Lin(48, ()), c.l, -1)), c_le(Lin(c.l.c - 57, c.l.t))]), 'a printed character is not a digit')
    return Lin(c.l.c - 48, c.l.t)


class Num:
    pass


def parse_number(E, st, cs):
    """printed text -> Num(neg, ip, fp, has_dot, exp (int or None), eneg, edigits); raises Violation when malformed"""
    r = Num()
    i = 0
    n = len(cs)
    bad = lambda why: Violation('property', 'malformed output: ' + why)
    r.neg = i < n and isinstance(cs[i], int) and cs[i] == 45
    if r.neg:
        i += 1
    r.ip = []
    r.fp = []
    r.exp = None
    r.edigits = 0
    r.eneg = False
    while i < n:
        d = digit_of(E, st, cs[i])
        if d is None:
            break
        r.ip.append(d)
        i += 1
    if not r.ip:
        raise bad('no digits')
    r.dot = i < n and cs[i] == 46
    if r.dot:
        i += 1
        while i < n:
            d = digit_of(E, st, cs[i])
            if d is None:
                break
            r.fp.append(d)
            i += 1
        if not r.fp:
            raise bad('no digits after the decimal point')
    if i < n and cs[i] == 101:
        i += 1
        if i < n and cs[i] == 45:
            r.eneg = True
            i += 1
        x = 0
        while i < n:
            d = digit_of(E, st, cs[i])
            if d is None:
                break
            if d.t:
                d = Lin(E.concretize(st, E.mk(st, d, 0, 9)), ())
            x = x * 10 + d.c
            r.edigits += 1
            i += 1
        if not r.edigits:
            raise bad('no digits in the exponent')
        r.exp = -x if r.eneg else x
    if i != n:
        raise bad('unexpected character at position %d' % i)
    # value = D * 10^k
    D = Lin(0, ())
    for d in r.ip + r.fp:
        D = lin_add(lin_scale(D, 10), d)
    r.D = D
    r.k = (r.exp or 0) - len(r.fp)
    return r


def cmp_scaled(A, a10, a2, B, b10, b2):
    """A*10^a10*2^a2 - B*10^b10*2^b2 as an integer linear expression of the same sign"""
    m10 = min(a10, b10)
    m2 = min(a2, b2)
    ka = 10 ** (a10 - m10) * 2 ** (a2 - m2)
    kb = 10 ** (b10 - m10) * 2 ** (b2 - m2)
    return lin_add(lin_scale(A, ka), B, -kb)


def neg(l):
    return lin_scale(l, -1)


def lt(l):
    """l < 0"""
    return c_le(Lin(l.c + 1, l.t))


def in_rounding_interval(E, st, t, m, num, subject='the printed number is'):
    """obligation: num.D * 10^num.k (* 2^num.k2) lies in the rounding interval of the value with mantissa field m"""
    T, s, e, lo, hi = t
    p = FT[T]
    k2 = getattr(num, 'k2', 0)
    hid = (1 << p['mb']) if e else 0
    e2 = (e if e else 1) - p['bias']
    M = lin_add(LIN(m), Lin(hid, ()))
    # X < (2M+1) * 2^(e2-1)
    up = cmp_scaled(num.D, num.k, k2, Lin(2 * M.c + 1, tuple((v, 2 * k) for v, k in M.t)), 0, e2 - 1)
    # X > (2M-1)*2^(e2-1);  at a power of two the lower neighbour is twice as close
    low = cmp_scaled(num.D, num.k, k2, Lin(2 * M.c - 1, tuple((v, 2 * k) for v, k in M.t)), 0, e2 - 1)
    pow2 = cmp_scaled(num.D, num.k, k2, Lin(4 * M.c - 1, tuple((v, 4 * k) for v, k in M.t)), 0, e2 - 2)
    E.stats['obligations'] += 2
    lo, hi = E.rng(st, m) if isinstance(m, Sym) else (m, m)
    two = lo == 0 and e > 1             # the mantissa may be a power of two
    for c, nonstrict, what in ((lt(up), c_le(up), 'above'), (lt(neg(low)), c_le(neg(low)), 'below')):
        if what == 'below' and two:
            both = c_and([c, c_or([c_not(c_eq(LIN(m))), lt(neg(pow2))])])
            if both is True or (both is not False and not E.maybe(c_not(both))):
                continue
            if E.decide(st, c_eq(LIN(m))):
                c = lt(neg(pow2))
                nonstrict = c_le(neg(pow2))
        if c is True or (c is not False and not E.maybe(c_not(c))):
            continue
        # the end points belong to the interval when the significand is even
        _, odd = E.split(st, E.mk(st, M, lo + hid, hi + hid), 2)
        full = c_or([c, c_and([nonstrict, c_eq(LIN(odd))])])
        E.prove(st, full, '%s %s the rounding interval of the value' % (subject, what))


# ---------------------------------------------------------------- native side
def parse_answer(a):
    """driver answer of ftoa_*: (returned length, terminator position, overrun flag, codes)"""
    f = a.split()
    codes = [] if f[3] == '-' else [int(x, 16) for x in f[3].split(',')]
    return int(f[0]), int(f[1]), int(f[2]), codes


import re
NUM = re.compile(r'(-?)(\d+)(?:\.(\d+))?(?:e(-?)(\d+))?\Z')


def native_text(codes):
    return ''.join(chr(c) if c < 0x110000 else '?' for c in codes)


def exact(m):
    v = Fraction(int(m.group(2) + (m.group(3) or '')))
    k = -len(m.group(3) or '') + (int(m.group(5)) * (-1 if m.group(4) else 1) if m.group(5) else 0)
    return v * Fraction(10) ** k


def rounds_to(T, X, bits):
    """does the exact non-negative rational X round (nearest, ties to even) to the pattern?"""
    return round_nearest(T, X) == bits


def round_nearest(T, X):
    """pattern of the correctly rounded value of a non-negative rational"""
    p = FT[T]
    if X == 0:
        return 0
    num, den = X.numerator, X.denominator
    e = num.bit_length() - den.bit_length()
    # 2^e <= X < 2^(e+1)
    if (num >= den << e) if e >= 0 else (num << -e >= den):
        pass
    else:
        e -= 1
    q = max(e - p['mb'], 1 - p['bias'])      # exponent of the unit in the last place
    if q >= 0:
        d = den << q
        n = num
    else:
        n = num << -q
        d = den
    m, r = divmod(n, d)
    if 2 * r > d or (2 * r == d and m & 1):
        m += 1
    if m >= 1 << (p['mb'] + 1):
        m >>= 1
        q += 1
    if m < 1 << p['mb']:
        return m
    be = q + p['bias']
    if be >= p['emax']:
        return p['emax'] << p['mb']
    return (be << p['mb']) + m - (1 << p['mb'])
