"""Symbolic execution of the parsing side, its reference grammar and oracles."""
import sx, re
from fractions import Fraction
from sx import Sym, Lin, FPV, UNDEF, Violation, c_le, c_eq, c_and, c_or, c_not, lin_add, lin_scale, LIN
from printing import FT, CH, in_rounding_interval, round_nearest, cmp_scaled, lt, neg, Num

SUCCESS, UNDERFLOW, OVERFLOW = 0, 1, 2
KAPPA = {'d': 19, 'f': 9}


class Run:
    """addresses of one call"""


def chars(E, st, shape):
    """shape: list of items, int (code), '#' (nonzero digit), '%' (digit), (lo, hi) or a string of those;
    returns values and declares symbolic ones as inputs"""
    out = []
    ins = []
    n = 0
    for i, c in enumerate(shape):
        if c in ('#', '%'):
            x = E.var(st, 49 if c == '#' else 48, 57, 'c%d' % i)
        elif isinstance(c, tuple):
            x = E.var(st, c[0], c[1], 'c%d' % i)
        elif isinstance(c, str):
            x = ord(c)
        else:
            x = c
        out.append(x)
        if isinstance(x, Sym):
            ins.append((str(i), x))
    st.user['inputs'] = st.user.get('inputs', []) + ins
    return out


def put(E, st, vals, w, term=True):
    """exactly sized buffer holding the characters and the terminator"""
    a = E.alloc(st, (len(vals) + (1 if term else 0)) * w, 'heap', 'str')
    for i, x in enumerate(vals):
        E.write(st, a + i * w, w, x)
    if term:
        E.write(st, a + len(vals) * w, w, 0)
    return a


def outs(E, st):
    r = Run()
    r.ep = E.alloc(st, 8, 'heap', 'endptr')
    r.v = E.alloc(st, 8, 'heap', 'value')
    r.ss = E.alloc(st, 1, 'heap', 'status')
    return r


def codes_of(shape, inputs, pre=''):
    """concrete codes of a counterexample"""
    r = []
    for i, c in enumerate(shape):
        x = inputs.get(pre + str(i))
        r.append(x if x is not None else (ord(c) if isinstance(c, str) else c))
    return r


def hexcodes(codes):
    return ','.join('%x' % (c & 0xffffffff) for c in codes) if codes else '-'


def lower(c):
    return c | 0x20 if 65 <= c <= 90 else c


# ------------------------------------------------------------------ grammar
GRAMMAR = re.compile(r'[+-]?(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[nN][aA][nN](?:\([0-9A-Za-z_]*\))?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?)', re.A)


def native_prefix(codes):
    """length of the longest prefix that is a number, by the documented grammar"""
    s = ''.join(chr(c) if c < 0x110000 and c else '\n' for c in codes)
    m = GRAMMAR.match(s)
    return m.end() if m else 0


def native_value(T, codes):
    """(bits, status) of the longest number prefix; bits is None for NaN"""
    n = native_prefix(codes)
    if not n:
        return 0, SUCCESS
    s = ''.join(chr(c) for c in codes[:n])
    sign = 0
    if s[0] in '+-':
        sign = s[0] == '-'
        s = s[1:]
    p = FT[T]
    top = sign << (p['w'] - 1)
    if s[0] in 'nN':
        return None, SUCCESS
    if s[0] in 'iI':
        return top | p['emax'] << p['mb'], SUCCESS
    m = re.match(r'(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?', s, re.A)
    D = int((m.group(1) + m.group(2)) or '0')
    k = int(m.group(3) or 0) - len(m.group(2))
    if D == 0:
        return top, SUCCESS
    nd = len(str(D))
    if nd + k > 400:
        return top | p['emax'] << p['mb'], OVERFLOW
    if nd + k < -400:
        return top, UNDERFLOW
    b = round_nearest(T, Fraction(D) * Fraction(10) ** k)
    st = SUCCESS if b not in (0, p['emax'] << p['mb']) else UNDERFLOW if b == 0 else OVERFLOW
    return top | b, st


class Ref:
    """symbolic reference reading of a character sequence: decides on the path what each
    character is, only as far as the grammar needs"""
    def __init__(self, E, st, cs):
        self.E = E
        self.st = st
        self.cs = cs

    def isin(self, i, *ranges):
        """is character i in one of the ranges (given as (lo, hi) pairs of codes)?"""
        if i >= len(self.cs):
            return False
        c = self.cs[i]
        if not isinstance(c, Sym):
            return any(a <= c <= b for a, b in ranges)
        conds = []
        for a, b in ranges:
            if a == b:
                conds.append(c_eq(Lin(c.l.c - a, c.l.t)))
            else:
                conds.append(c_and([c_le(lin_add(Lin(a, ()), c.l, -1)), c_le(Lin(c.l.c - b, c.l.t))]))
        return self.E.decide(self.st, c_or(conds))

    def digit(self, i):
        return self.isin(i, (48, 57))

    def letter(self, i, ch):
        o = ord(ch)
        return self.isin(i, (o, o), (o - 32, o - 32))

    def word(self, i, w):
        for j, ch in enumerate(w):
            if not self.letter(i + j, ch):
                return False
        return True

    def parse(self):
        """result with: end, kind ('none', 'nan', 'inf', 'num'), sign, idx of digits before/after the point, exponent
        (start, end, negative)"""
        r = Run()
        r.kind = 'none'
        r.end = 0
        r.neg = False
        i = 0
        if self.isin(0, (43, 43), (45, 45)):
            r.neg = self.isin(0, (45, 45))
            i = 1
        if self.word(i, 'nan'):
            r.kind = 'nan'
            r.end = i + 3
            if self.isin(i + 3, (40, 40)):
                j = i + 4
                while self.isin(j, (48, 57), (65, 90), (95, 95), (97, 122)):
                    j += 1
                if self.isin(j, (41, 41)):
                    r.end = j + 1
            return r
        if self.word(i, 'inf'):
            r.kind = 'inf'
            r.end = i + 3
            if self.word(i + 3, 'inity'):
                r.end = i + 8
            return r
        r.ip = []
        r.fp = []
        while self.digit(i):
            r.ip.append(i)
            i += 1
        if self.isin(i, (46, 46)):
            if r.ip:
                i += 1
                while self.digit(i):
                    r.fp.append(i)
                    i += 1
            elif self.digit(i + 1):
                i += 1
                while self.digit(i):
                    r.fp.append(i)
                    i += 1
        if not r.ip and not r.fp:
            return r
        r.kind = 'num'
        r.exp = None
        if self.isin(i, (101, 101), (69, 69)):
            j = i + 1
            eneg = False
            if self.isin(j, (43, 43), (45, 45)):
                eneg = self.isin(j, (45, 45))
                j += 1
            if self.digit(j):
                k = j
                while self.digit(k):
                    k += 1
                r.exp = (j, k, eneg)
                i = k
        r.end = i
        return r


# ------------------------------------------------------------------ oracles
def mantissa_of(E, st, bits, T):
    """result pattern -> (sign, exponent field, mantissa field Sym/int); the first two concrete"""
    p = FT[T]
    if not isinstance(bits, Sym):
        return bits >> (p['w'] - 1), (bits >> p['mb']) & p['emax'], bits & ((1 << p['mb']) - 1)
    q, m = E.split(st, bits, 1 << p['mb'])
    if isinstance(q, Sym):
        q = E.concretize(st, q)
        _, m = E.split(st, bits, 1 << p['mb'])
    return q >> (p['w'] - p['mb'] - 1), q & p['emax'], m


def correctly_rounded(E, st, T, s, e, m, D, k, k2=0, subject='the text is'):
    """obligation: the magnitude pattern (e, m) is D*10^k rounded to nearest, ties to even; D > 0"""
    p = FT[T]
    top = 1 << p['mb']
    if e == p['emax']:
        E.stats['obligations'] += 1
        if isinstance(m, Sym) or m != 0:
            raise Violation('property', 'the result is a NaN')
        # X >= (2^(mb+2) - 1) * 2^(emax - 1 - bias - 1)
        d = cmp_scaled(D, k, k2, Lin(4 * top - 1, ()), 0, p['emax'] - 2 - p['bias'])
        E.prove(st, c_le(neg(d)), 'the result is an infinity although the value is in range')
        return
    n = Num()
    n.D = D
    n.k = k
    n.k2 = k2
    ml = LIN(m)
    lo, hi = (0, top - 1) if isinstance(m, Sym) else (m, m)
    in_rounding_interval(E, st, (T, s, e, lo, hi), m, n, subject=subject)


def digits_value(vals, idx):
    D = Lin(0, ())
    for i in idx:
        d = LIN(vals[i])
        D = lin_add(lin_scale(D, 10), Lin(d.c - 48, d.t))
    return D


def parse_answer(a):
    """(bits, status, end, fallback calls, ok, errno, heap delta)"""
    f = a.split()
    return int(f[0], 16), int(f[1]), int(f[2]), int(f[3]), int(f[4]), int(f[5]), int(f[6])
