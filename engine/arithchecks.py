"""Arithmetic of the decomposed representation (class diy_fp, powers of ten, rounding decisions)."""
import random
from fractions import Fraction
import sx
from sx import Sym, Lin, FPV, UNDEF, Violation, c_le, c_eq, c_and, c_or, c_not, lin_add, lin_scale, LIN
from base import Check
from printing import FT, cmp_scaled, neg, lt, sym_value, finite_tasks, round_nearest, value_of_bits, Num
from parsing import mantissa_of, correctly_rounded, SUCCESS, OVERFLOW, UNDERFLOW

K = {'d': 343, 'f': 50}             # powers of ten the table covers: -K..K


def two(n):
    return Fraction(2) ** n


def log2floor(x):
    b = x.numerator.bit_length() - x.denominator.bit_length() - 1
    while two(b + 1) <= x:
        b += 1
    return b


def s32(x):
    return x - (1 << 32) if x >> 31 else x


def u32(x):
    return x & 0xffffffff


class Arith(Check):
    tus = ('arith',)
    level = 'model_checking'
    outside = 'significands of other widths than 32 and 64 bits; exponents whose sums exceed int'

    def w(self, T):
        return FT[T]['w']

    conc = None

    def sym(self, E, st, lo, hi, name):
        """symbolic argument (concrete while the translator is validated)"""
        v = self.conc.randrange(lo, hi + 1) if self.conc else E.var(st, lo, hi, name) if hi > lo else lo
        st.user.setdefault('inputs', []).append((name, v))
        return v

    def pair(self, E, st, T, f, e, i):
        """component i of the result arrays"""
        n = self.w(T) // 8
        x = E.read(st, f + i * n, n)
        y = E.read(st, e + i * 4, 4)
        if x is UNDEF or y is UNDEF:
            raise Violation('property', 'part of the result is never set')
        if isinstance(y, Sym):
            y = E.concretize(st, y)
        return LIN(x), s32(y)

    EMAX = 3000

    def exponent(self, E, st, sign, name):
        """symbolic exponent of one sign, as the unsigned number of its 32 bits"""
        return self.sym(E, st, (1 << 32) - self.EMAX, (1 << 32) - 1, name) if sign else self.sym(E, st, 0, self.EMAX, name)

    def relative(self, E, st, T, f, e, i, ref):
        """component i of the result arrays; exponent relative to the sum of the given ones"""
        n = self.w(T) // 8
        x = E.read(st, f + i * n, n)
        y = E.read(st, e + i * 4, 4)
        if x is UNDEF or y is UNDEF:
            raise Violation('property', 'part of the result is never set')
        for r in ref:
            y = E.sub(st, y, r, 32)
        if isinstance(y, Sym):
            y = E.concretize(st, y)
        return LIN(x), s32(y)

    def outs(self, E, st, T):
        return E.alloc(st, 2 * self.w(T) // 8, 'heap', 'significands'), E.alloc(st, 8, 'heap', 'exponents')

    def run_task(self, E, t):
        st = sx.State()
        a = self.call(E, st, t)
        kinds = {}

        def done(E, st):
            k = self.verify(E, st, t, a)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'task': repr(t), 'paths': E.stats['paths'], 'outcomes': kinds})

    def validation(self, rng):
        """random tasks run with concrete arguments: the result of the encoding against the native one"""
        out = []
        ts = self.tasks('quick', rng)
        for t in rng.sample(ts, 40):
            E = self.engine(self.tus[0])
            st = sx.State()
            self.conc = rng
            try:
                a = self.call(E, st, t)
            finally:
                self.conc = None
            res = []
            cmd = self.replay_cmds({'inputs': dict(st.user['inputs'])}, t)[0]

            def done(E, st):
                z = []
                for addr, n, k in self.places(t, a):
                    z += [E.read(st, addr + i * n, n) for i in range(k)]
                res.append([x.b if isinstance(x, FPV) else x for x in z])
            E.explore(st, done)
            out.append((cmd, res[0] if res else None, t))
        return out

    def validate(self, drv):
        items = self.validation(random.Random(self.seed + 17))
        ans = drv.many([c for c, _, _ in items])
        for (c, got, t), a in zip(items, ans or []):
            if a == '?':
                continue
            g = a.split()
            want = self.native_places(t, [int(g[0], 16), int(g[2], 16), u32(int(g[1])), u32(int(g[3])), int(g[4]), int(g[5])])
            if got is None or len(got) != len(want) or any(x is not UNDEF and x != y for x, y in zip(got, want)):
                self.tot['mismatch'].append('%s: native %s, encoding %s' % (c, a, got))
            else:
                self.tot['validated'] += 1

    def places(self, t, a):
        n = self.w(t[1]) // 8
        return [(a[-2], n, 2), (a[-1], 4, 2)]

    def native_places(self, t, g):
        return g[:4]

    def zero(self, E, st, l, what):
        """obligation: the expression is zero"""
        E.stats['obligations'] += 1
        if l.t or l.c:
            E.prove(st, c_eq(l), what)

    def judge(self, cmds, answers, t):
        for c, a in zip(cmds, answers):
            if isinstance(a, tuple):
                return '%s: %s' % (c, a[1])
            f = c.split()
            g = a.split()
            w = self.judge1(f[0][:-2], f[0][-1], int(f[1], 16), [int(x) for x in f[2:3]] + [int(x, 16) for x in f[3:4]] + [int(x) for x in f[4:5]],
                            [int(g[0], 16), int(g[1]), int(g[2], 16), int(g[3]), int(g[4]), int(g[5])])
            if w:
                return '%s: %s' % (c, w)
        return None


# ------------------------------------------------------------------ C21
class C21(Arith):
    """products"""
    id = 'C21'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for T in 'df':
            W = self.w(T)
            for x in range(4):
                out.append(('all', T, 0, x & 1, x >> 1))
            for k in range(-K[T], K[T] + 1):
                out.append(('scale', T, k, rng.randrange(2)))
            h = W // 2
            top = (1 << W) - 1
            g = [0, 1, 2, 3, top, top - 1, 1 << (W - 1), (1 << (W - 1)) + 1, (1 << (W - 1)) - 1, (1 << h) - 1, 1 << h, (1 << h) + 1, (1 << (h - 1)), (1 << (h - 1)) - 1,
                 top - (1 << h), top - (1 << h) + 1, top << h & top, (1 << W) // 3, (1 << W) // 3 * 2, (1 << (h + 1)) - 1, ((1 << (h - 1)) << h) | (1 << (h - 1)), ((1 << (h - 1)) << h) | ((1 << h) - 1)]
            for _ in range(120 if q else 4000):
                g.append(rng.choice((lambda: rng.randrange(1 << W), lambda: rng.randrange(1 << W) | 1 << (W - 1), lambda: rng.randrange(1 << rng.randrange(1, W)),
                                     lambda: rng.randrange(1 << h) << h | (1 << h) - 1, lambda: (1 << W) - 1 - rng.randrange(1 << rng.randrange(1, W)),
                                     lambda: 1 << rng.randrange(W) | 1 << rng.randrange(W)))())
            for x in g:
                out.append(('mul', T, x, rng.randrange(2), rng.randrange(2), rng.randrange(2)))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return ('one factor: every significand (32 and 64 bits); other factor: every power of ten of the table (-343..343, float -50..50), and %d concrete significands per type '
                '(carry patterns and random ones) on either side, as well as all pairs of significands (products of halves taken for variables of which the bounds are known: a proof for all of them); every exponent in -3000..-1 or 0..3000 (sign random per task)' % (142 if self.tier == 'quick' else 4022))

    def call(self, E, st, t):
        T = t[1]
        E.bilinear = t[0] == 'all'
        o, e = self.outs(E, st, T)
        x = self.exponent(E, st, t[3], 'e')
        if t[0] == 'all':
            h = self.w(T) // 2
            f, g = [self.halves(E, st, h, n) for n in 'fg']
            y = self.exponent(E, st, t[4], 'x')
            E.push_call(st, 'h_mul_' + T, [f, x, g, y, o, e])
            return (f, g), (x, y), o, e
        f = self.sym(E, st, 0, (1 << self.w(T)) - 1, 'f')
        if t[0] == 'scale':
            E.push_call(st, 'h_scale_' + T, [f, x, u32(t[2]), o, e])
            return f, (x,), o, e
        y = self.exponent(E, st, t[4], 'x')
        if t[5]:
            E.push_call(st, 'h_mul_' + T, [t[2], y, f, x, o, e])
        else:
            E.push_call(st, 'h_mul_' + T, [f, x, t[2], y, o, e])
        return f, (x, y), o, e

    def halves(self, E, st, h, n):
        """symbolic significand put together of two variables"""
        if self.conc:
            return self.sym(E, st, 0, (1 << 2 * h) - 1, n)
        u = Lin(0, ((E.fresh(st, 0, (1 << h) - 1, n), 1 << h), (E.fresh(st, 0, (1 << h) - 1, n), 1)))
        v = Sym(u, 0, (1 << 2 * h) - 1)
        st.user.setdefault('inputs', []).append((n, v))
        return v

    def verify(self, E, st, t, a):
        T = t[1]
        W = self.w(T)
        f = None if t[0] == 'all' else LIN(a[0])
        r, er = self.relative(E, st, T, a[2], a[3], 0, a[1])
        E.stats['obligations'] += 2
        # exponents relative to those of the factors
        if t[0] == 'scale':
            unit = log2floor(Fraction(10) ** t[2]) + 1        # e + (exponent of the power's significand of W bits) + W
            A, a10, a2, tol, what = f, t[2], 0, unit, 'more than a unit off the product with the power of ten'
        elif t[0] == 'all':
            A, a10, a2, tol, what = E.product(st, a[0][0].l, a[0][1].l), 0, 0, W - 1, 'more than half a unit off the product'
        else:
            A, a10, a2, tol, what = lin_scale(f, t[2]), 0, 0, W - 1, 'more than half a unit off the product'
        # |A*10^a10*2^a2 - r*2^er| <= 2^tol
        m = min(er, tol)
        R = lin_scale(r, 1 << (er - m))
        one = 1 << (tol - m)
        up = cmp_scaled(A, a10, a2, lin_add(R, Lin(one, ())), 0, m)
        dn = cmp_scaled(A, a10, a2, lin_add(R, Lin(-one, ())), 0, m)
        E.prove(st, c_le(up), 'the result is too small: ' + what)
        E.prove(st, c_le(neg(dn)), 'the result is too large: ' + what)
        return t[0]

    def replay_cmds(self, rec, t):
        f, x = rec['inputs']['f'], s32(rec['inputs']['e'])
        if t[0] == 'scale':
            return ['scale_%s %x %d 0 %d' % (t[1], f, x, t[2])]
        y = s32(rec['inputs']['x'])
        if t[0] == 'all':
            return ['mul_%s %x %d %x %d' % (t[1], f, x, rec['inputs']['g'], y)]
        if t[5]:
            return ['mul_%s %x %d %x %d' % (t[1], t[2], y, f, x)]
        return ['mul_%s %x %d %x %d' % (t[1], f, x, t[2], y)]

    def judge1(self, op, T, f, args, r):
        W = self.w(T)
        R = r[0] * two(r[1])
        if op == 'scale':
            e, _, k = args
            X = f * two(e) * Fraction(10) ** k
            unit = two(e + log2floor(Fraction(10) ** k) + 1)
            if abs(X - R) > unit:
                return 'times 10^%d gives %x * 2^%d, off by %.3f units' % (k, r[0], r[1], float(abs(X - R) / unit))
            return None
        e, g, x = args
        X = f * g * two(e + x)
        unit = two(e + x + W)
        if 2 * abs(X - R) > unit:
            return 'the product is %x * 2^%d, off by %.3f units' % (r[0], r[1], float(abs(X - R) / unit))
        return None


# ------------------------------------------------------------------ C22
class C22(Arith):
    """boundaries of the rounding interval"""
    id = 'C22'

    def tasks(self, tier, rng):
        out = []
        for T in 'df':
            for x in finite_tasks(T, range(FT[T]['emax']), 0):
                out.append(('bounds', T) + x[1:])
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return 'every positive finite double and float: all biased exponents with the whole mantissa symbolic (denormals split by bit length)'

    def call(self, E, st, t):
        if self.conc:
            b = t[3] << FT[t[1]]['mb'] | self.conc.randrange(t[4], t[5] + 1)
            st.user['inputs'] = [('bits', b)]
            v = FPV(b, self.w(t[1]))
        else:
            v = sym_value(E, st, (t[1],) + t[2:])
        o, e = self.outs(E, st, t[1])
        E.push_call(st, 'h_bounds_' + t[1], [v, o, e])
        return o, e

    def verify(self, E, st, t, a):
        T, s, e = t[1:4]
        p = FT[T]
        W = self.w(T)
        m = LIN(st.user['m'])
        lo, le = self.pair(E, st, T, a[0], a[1], 0)
        hi, he = self.pair(E, st, T, a[0], a[1], 1)
        E.stats['obligations'] += 2
        if le != he:
            raise Violation('property', 'the exponents of the boundaries differ')
        E.prove(st, c_le(Lin((1 << (W - 1)) - hi.c, tuple((v, -k) for v, k in hi.t))), 'the upper boundary is not normalized')
        M = Lin(m.c + ((1 << p['mb']) if e else 0), m.t)
        q = max(e, 1) - p['bias']
        at = lambda n, c: lin_add(lin_scale(M, n), Lin(c, ()))
        self.zero(E, st, cmp_scaled(hi, 0, he, at(2, 1), 0, q - 1), 'the upper boundary is not the middle to the next value')
        mid = cmp_scaled(lo, 0, le, at(2, -1), 0, q - 1)
        if e == 0 or t[4] > 0:
            self.zero(E, st, mid, 'the lower boundary is not the middle to the next lower value')
            return 'inside a binade'
        near = cmp_scaled(lo, 0, le, at(4, -1), 0, q - 2)
        if E.decide(st, c_eq(m)):
            E.stats['obligations'] += 1
            if e > 1:
                self.zero(E, st, near, 'the lower boundary of a power of two is not the middle to the next lower value')
            else:
                E.prove(st, c_and([c_le(neg(mid)), c_le(near)]), 'the lower boundary of the least normalized value is outside its rounding interval')
            return 'power of two'
        self.zero(E, st, mid, 'the lower boundary is not the middle to the next lower value')
        return 'inside a binade'

    def replay_cmds(self, rec, t):
        return ['bounds_%s %x' % (t[1], rec['inputs']['bits'])]

    def judge1(self, op, T, b, args, r):
        p = FT[T]
        v = value_of_bits(T, b)
        q = two(max(b >> p['mb'], 1) - p['bias'])
        lo, hi = r[0] * two(r[1]), r[2] * two(r[3])
        if r[1] != r[3]:
            return 'the exponents of the boundaries are %d and %d' % (r[1], r[3])
        if not r[2] >> (self.w(T) - 1):
            return 'the upper boundary is not normalized'
        if hi != v + q / 2:
            return 'the upper boundary is not the middle to the next value'
        below = value_of_bits(T, b - 1)
        if b == 1 << p['mb']:
            if not (v + below) / 2 <= lo <= v - q / 4:
                return 'the lower boundary is outside the rounding interval'
        elif lo != (v + below) / 2:
            return 'the lower boundary is not the middle to the next lower value'
        return None


# ------------------------------------------------------------------ C23
class C23(Arith):
    """composition of a value from significand and exponent"""
    id = 'C23'
    ERR = 60
    EXP = {'d': (-1160, 980), 'f': (-200, 110)}

    def tasks(self, tier, rng):
        out = []
        for T in 'df':
            lo, hi = self.EXP[T]
            for e in range(lo, hi):
                out.append(('down', T, e, 0))
                if T == 'f' or tier != 'quick' or not -1050 < e < 940 or (e + self.seed) % 4 == 0:
                    out.append(('down', T, e, self.ERR))
            for e in (-5000, -100000, 5000, 100000):
                out.append(('down', T, e, 0))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return ('every normalized significand of 64 (32) bits at every binary exponent %d..%d (float: %d..%d) and at +-5000, +-100000; error bounds 0 and, symbolic, 0..%d%s'
                % (self.EXP['d'] + self.EXP['f'] + (self.ERR, ' (double, far from the limits: at one exponent in 4)' if self.tier == 'quick' else '')))

    def call(self, E, st, t):
        T = t[1]
        W = self.w(T)
        f = self.sym(E, st, 1 << (W - 1), (1 << W) - 1, 'f')
        err = self.sym(E, st, 0, t[3], 'err')
        o = E.alloc(st, W // 8, 'heap', 'value')
        s = E.alloc(st, 2, 'heap', 'status')
        E.push_call(st, 'h_down_' + T, [f, u32(t[2]), err, o, s])
        return f, err, o, s

    def verify(self, E, st, t, a):
        T, q = t[1:3]
        q = max(-4000, min(4000, q))            # far out of range all the same
        p = FT[T]
        f, err = LIN(a[0]), LIN(a[1])
        b = E.read(st, a[2], self.w(T) // 8)
        if b is UNDEF:
            raise Violation('property', 'the value is never set')
        b = b.b if isinstance(b, FPV) else b
        f2 = []
        for i in (0, 1):
            x = E.read(st, a[3] + i, 1)
            if x is UNDEF:
                raise Violation('property', 'part of the result is never set')
            f2.append(E.concretize(st, x) if isinstance(x, Sym) else x)
        ss, acc = f2
        s, e, m = mantissa_of(E, st, b, T)
        E.stats['obligations'] += 3
        if s:
            raise Violation('property', 'negative result')
        zero = e == 0 and (E.decide(st, c_eq(m.l)) if isinstance(m, Sym) else m == 0)
        if zero:
            m = 0
        correctly_rounded(E, st, T, 0, e, m, f, 0, q, 'the composed value is')
        want = OVERFLOW if e == p['emax'] else UNDERFLOW if zero else SUCCESS
        if ss != want:
            raise Violation('property', 'status %d instead of %d' % (ss, want))
        if acc:
            # everything within the error rounds the same way
            if t[3]:
                correctly_rounded(E, st, T, 0, e, m, lin_add(f, err), 0, q, 'called accurate, but a value within the error is')
                correctly_rounded(E, st, T, 0, e, m, lin_add(f, err, -1), 0, q, 'called accurate, but a value within the error is')
        else:
            # there is the middle of two adjacent values within the error
            l = LIN(m)
            M = Lin(l.c + ((1 << p['mb']) if e else 0), l.t)
            x = max(e, 1) - p['bias']
            mids = []
            if e == p['emax']:
                mids.append((Lin(4 * (1 << p['mb']) - 1, ()), p['emax'] - 2 - p['bias']))
            else:
                at = lambda n, c: lin_add(lin_scale(M, n), Lin(c, ()))
                mids = [(at(2, 1), x - 1), (at(2, -1), x - 1), (at(4, -1), x - 2)]
            alts = []
            for mm, y in mids:
                u = cmp_scaled(lin_add(f, err, -1), 0, q, mm, 0, y)
                d = cmp_scaled(lin_add(f, err), 0, q, mm, 0, y)
                alts.append(c_and([c_le(u), c_le(neg(d))]))
            E.prove(st, c_or(alts), 'called inaccurate although no middle of two adjacent values is within the error')
        return '%s %s' % ('infinity' if e == p['emax'] else 'zero' if zero else 'denormal' if e == 0 else 'normal', 'accurate' if acc else 'inaccurate')

    def places(self, t, a):
        return [(a[2], self.w(t[1]) // 8, 1), (a[3], 1, 2)]

    def native_places(self, t, g):
        return [g[0], g[4], g[5]]

    def replay_cmds(self, rec, t):
        return ['down_%s %x %d %x' % (t[1], rec['inputs']['f'], t[2], rec['inputs']['err'])]

    def judge1(self, op, T, f, args, r):
        e, err = args
        p = FT[T]
        if abs(e) > 4000:
            e = -4000 if e < 0 else 4000
        want = round_nearest(T, f * two(e))
        inf = p['emax'] << p['mb']
        if r[0] != want:
            return 'gives the bits %x, the correctly rounded ones are %x' % (r[0], want)
        ws = OVERFLOW if want == inf else UNDERFLOW if want == 0 else SUCCESS
        if r[4] != ws:
            return 'status %d instead of %d' % (r[4], ws)
        lo, hi = round_nearest(T, (f - err) * two(e)), round_nearest(T, (f + err) * two(e))
        if r[5] and not lo == want == hi:
            return 'called accurate, but values within the error round to %x .. %x' % (lo, hi)
        if not r[5]:
            # a hair more on either side
            d = two(e) * Fraction(1, 1 << 20)
            if round_nearest(T, (f - err) * two(e) - d) == want == round_nearest(T, (f + err) * two(e) + d):
                return 'called inaccurate although everything within the error rounds to the same value'
        return None


# ------------------------------------------------------------------ C24
OPS = ('++x', '--x', 'x - y', 'x -= y', 'x++', 'x--', 'normalize')


class C24(Arith):
    """rounding decisions on raw bits, steps, differences, normalization"""
    id = 'C24'

    def tasks(self, tier, rng):
        out = []
        for T in 'df':
            W = self.w(T)
            for n in range(1, W + 1):
                out.append(('rnd', T, n))
            for op in range(6):
                for _ in range(2):
                    out.append(('step', T, op, 0 if op in (0, 4) else 2 if op in (1, 5) else 0, (1 << W) - 1, _))
            for x in range(4):
                out.append(('eq', T, 0, x & 1, x >> 1))
            for n in range(W):
                out.append(('step', T, 6, 1 << n, (2 << n) - 1, rng.randrange(2)))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return 'every 32 and 64 bit value and every position for the rounding decision; every significand (decrement: from 2; difference: every not smaller minuend; normalize: from 1) and every exponent in -3000..3000 (normalize: of one sign per highest bit) for the steps'

    def call(self, E, st, t):
        T = t[1]
        W = self.w(T)
        if t[0] == 'rnd':
            v = self.sym(E, st, 0, (1 << W) - 1, 'f')
            s = E.alloc(st, 2, 'heap', 'flags')
            E.push_call(st, 'h_rnd_' + T, [v, t[2], s])
            return v, s
        if t[0] == 'eq':
            f, g = [self.sym(E, st, 0, (1 << W) - 1, n) for n in 'fg']
            e, x = self.exponent(E, st, t[3], 'e'), self.exponent(E, st, t[4], 'x')
            s = E.alloc(st, 2, 'heap', 'flags')
            E.push_call(st, 'h_eq_' + T, [f, e, g, x, s])
            return f, s, g, e, x
        f = self.sym(E, st, t[3], t[4], 'f')
        g = 0
        if t[2] in (2, 3):
            g = self.sym(E, st, 0, f if self.conc else (1 << W) - 1, 'g')
            E.assume(st, c_le(lin_add(LIN(g), LIN(f), -1)))
        o, e = self.outs(E, st, T)
        x = self.exponent(E, st, t[5], 'e')
        E.push_call(st, 'h_step_' + T, [f, x, g, t[2], o, e])
        return f, g, (x,), o, e

    def verify(self, E, st, t, a):
        T = t[1]
        W = self.w(T)
        if t[0] == 'rnd':
            n = t[2]
            half = 1 << (n - 1)
            fl = []
            for i in (0, 1):
                x = E.read(st, a[1] + i, 1)
                fl.append(E.concretize(st, x) if isinstance(x, Sym) else x)
            q, r = E.split(st, a[0], 1 << n) if n < W else (0, a[0])
            _, odd = E.split(st, q, 2) if isinstance(q, Sym) else (0, q & 1)
            r, odd = LIN(r), LIN(odd)
            up = c_or([c_le(Lin(half + 1 - r.c, tuple((v, -k) for v, k in r.t))), c_and([c_eq(Lin(r.c - half, r.t)), c_eq(Lin(odd.c - 1, odd.t))])])
            tie = c_eq(Lin(r.c - half, r.t))
            E.stats['obligations'] += 2
            E.prove(st, up if fl[0] else c_not(up), 'rounds %s although it should not' % ('up' if fl[0] else 'down'))
            E.prove(st, c_not(tie) if fl[1] else tie, 'a tie is %sreported as accurate' % ('' if fl[1] else 'not the only case not '))
            return 'rounding decision'
        if t[0] == 'eq':
            r = [E.read(st, a[1] + i, 1) for i in (0, 1)]
            r = [E.concretize(st, x) if isinstance(x, Sym) else x for x in r]
            if UNDEF in r:
                raise Violation('property', 'part of the result is never set')
            same = c_and([c_eq(lin_add(LIN(a[0]), LIN(a[2]), -1)), c_eq(lin_add(LIN(a[3]), LIN(a[4]), -1))])
            E.stats['obligations'] += 1
            if r[0] == r[1]:
                raise Violation('property', '== and != give the same answer')
            E.prove(st, same if r[0] else c_not(same), 'compared wrongly')
            return 'equal' if r[0] else 'unequal'
        op, e = t[2], 0
        f, g = LIN(a[0]), LIN(a[1])
        w, we = self.relative(E, st, T, a[3], a[4], 0, a[2])
        r, re = self.relative(E, st, T, a[3], a[4], 1, a[2])
        new = Lin(f.c + 1, f.t) if op in (0, 4) else Lin(f.c - 1, f.t) if op in (1, 5) else lin_add(f, g, -1) if op in (2, 3) else f
        self.zero(E, st, cmp_scaled(w, 0, we, f if op == 2 else new, 0, e), '%s leaves the wrong value behind' % OPS[op])
        self.zero(E, st, cmp_scaled(r, 0, re, f if op in (4, 5) else new, 0, e), '%s returns the wrong value' % OPS[op])
        if op == 6:
            E.stats['obligations'] += 1
            E.prove(st, c_le(Lin((1 << (W - 1)) - w.c, tuple((v, -k) for v, k in w.t))), 'the highest bit is not set after normalization')
        return OPS[op]

    def places(self, t, a):
        return [(a[1], 1, 2)] if t[0] in ('rnd', 'eq') else Arith.places(self, t, a)

    def native_places(self, t, g):
        return g[4:] if t[0] in ('rnd', 'eq') else g[:4]

    def replay_cmds(self, rec, t):
        i = rec['inputs']
        if t[0] == 'rnd':
            return ['rnd_%s %x %d' % (t[1], i['f'], t[2])]
        if t[0] == 'eq':
            return ['eq_%s %x %d %x %d' % (t[1], i['f'], s32(i['e']), i['g'], s32(i['x']))]
        return ['step_%s %x %d %x %d' % (t[1], i['f'], s32(i['e']), i.get('g', 0), t[2])]

    def judge1(self, op, T, f, args, r):
        W = self.w(T)
        if op == 'rnd':
            n = args[0]
            q, x = f >> n, f & ((1 << n) - 1)
            half = 1 << (n - 1)
            up = x > half or (x == half and q & 1)
            if bool(r[4]) != bool(up) or bool(r[5]) != (x != half):
                return 'round up: %d, accurate: %d instead of %d, %d' % (r[4], r[5], up, x != half)
            return None
        if op == 'eq':
            e, g, x = args
            if bool(r[4]) != ((f, e) == (g, x)) or bool(r[5]) == bool(r[4]):
                return '== gives %d, != gives %d' % (r[4], r[5])
            return None
        e, g, o = args
        new = f + 1 if o in (0, 4) else f - 1 if o in (1, 5) else f - g if o in (2, 3) else f
        if r[0] * two(r[1]) != (f if o == 2 else new) * two(e):
            return '%s leaves %x * 2^%d behind' % (OPS[o], r[0], r[1])
        if r[2] * two(r[3]) != (f if o in (4, 5) else new) * two(e):
            return '%s returns %x * 2^%d' % (OPS[o], r[2], r[3])
        if o == 6 and not r[0] >> (W - 1):
            return 'the highest bit is not set after normalization'
        return None


# ------------------------------------------------------------------ C25
FRAC = ((1, 1), (2, 1), (3, 3), (3, 4), (4, 7), (4, 8), (5, 9), (6, 10), (9, 8))      # as in harness/frac.cpp


class C25(Arith):
    """decimal digits to a binary fraction"""
    id = 'C25'
    tus = ('frac',)
    outside = 'other pairs of numbers of digits than the listed ones'

    def tasks(self, tier, rng):
        out = []
        for i, (d, b) in enumerate(FRAC):
            for c in 'sl':
                # one task per leading digit
                for k in range(10):
                    out.append(('conv', c, i, k * 10 ** (d - 1), (k + 1) * 10 ** (d - 1) - 1))
            for k in range(10):
                out.append(('next', 's', i, k * 10 ** (d - 1), (k + 1) * 10 ** (d - 1) - 1 - (k == 9)))
            for c in 'cw':
                for n in range(d):
                    out.append(('frac', c, i, n, None))
                out.append(('frac', c, i, d, None))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return 'decimal/binary digits %s; every numerator with 32 and 64 bits; every text of up to that many arbitrary characters (narrow: all bytes, wide: up to 10ffff)' % ', '.join('%d/%d' % x for x in FRAC)

    def call(self, E, st, t):
        o = E.alloc(st, 16, 'heap', 'results')
        st.user['inputs'] = []
        if t[0] != 'frac':
            n = self.sym(E, st, t[3], t[4], 'n') if t[3] <= t[4] else t[4]
            E.push_call(st, 'h_%s_%s' % t[:2], [t[2], n, o])
            return [n], o
        w = 1 if t[1] == 'c' else 4
        d = FRAC[t[2]][0]
        if self.conc:
            cs = [self.sym(E, st, *self.conc.choice(((48, 57), (48, 57), (48, 57), (1, 127))), 'c%d' % i) for i in range(t[3])]
        else:
            cs = [self.sym(E, st, 0 if i == d - 1 else 1, 255 if w == 1 else 0x10ffff, 'c%d' % i) for i in range(t[3])]
        a = E.alloc(st, max(len(cs) + (len(cs) < d), 1) * w, 'heap', 'str')
        for i, x in enumerate(cs):
            E.write(st, a + i * w, w, x)
        if len(cs) < d:
            E.write(st, a + len(cs) * w, w, 0)
        E.push_call(st, 'h_frac_' + t[1], [t[2], a, o])
        return cs, o

    def verify(self, E, st, t, a):
        d, b = FRAC[t[2]]
        r = [E.read(st, a[1] + 8 * i, 8) for i in range(2)]
        if t[0] == 'next':
            if r[0] is UNDEF or r[1] is UNDEF:
                raise Violation('property', 'the result is never set')
            E.stats['obligations'] += 1
            E.prove(st, c_le(lin_add(LIN(r[0]), LIN(r[1]), -1)), 'a larger numerator gives a smaller binary fraction')
            return '%d/%d in order' % (d, b)
        if t[0] == 'conv':
            n, r = LIN(a[0][0]), r[0]
        else:
            # leading digits, as many as are known on this path
            want = Lin(0, ())
            k = 0
            for x in a[0]:
                l = LIN(x)
                digit = c_and([c_le(Lin(48 - l.c, tuple((v, -y) for v, y in l.t))), c_le(Lin(l.c - 57, l.t))])
                if not E.decide(st, digit):
                    break
                want = lin_add(lin_scale(want, 10), Lin(l.c - 48, l.t))
                k += 1
            want = lin_scale(want, 10 ** (d - k))
            n = LIN(r[0])
            self.zero(E, st, lin_add(n, want, -1), 'the digits are read as another number')
            r = r[1]
        if r is UNDEF:
            raise Violation('property', 'the result is never set')
        # r * 10^d - n * 2^b in (-10^d, 10^d / 8]
        x = lin_add(lin_scale(LIN(r), 10 ** d), lin_scale(n, 1 << b), -1)
        E.stats['obligations'] += 3
        E.prove(st, c_le(lin_add(Lin(1 - 10 ** d, ()), x, -1)), 'the binary fraction is a unit or more too small')
        E.prove(st, c_le(lin_add(LIN(r), Lin(1 - (1 << b), ()))), 'the binary fraction is not below one')
        E.prove(st, c_le(lin_add(lin_scale(x, 8), Lin(-10 ** d, ()))), 'the binary fraction is more than an eighth of a unit too large')
        return '%d/%d' % (d, b)

    def places(self, t, a):
        return [(a[-1], 8, 1 if t[0] == 'conv' else 2)]

    def validate(self, drv):
        items = self.validation(random.Random(self.seed + 17))
        ans = drv.many([c for c, _, _ in items])
        for (c, got, t), a in zip(items, ans or []):
            if a == '?':
                continue
            if got != [int(x) for x in a.split()]:
                self.tot['mismatch'].append('%s: native %s, encoding %s' % (c, a, got))
            else:
                self.tot['validated'] += 1

    def replay_cmds(self, rec, t):
        i = rec['inputs']
        if t[0] != 'frac':
            return ['%s_%s %x %d' % (t[0], t[1], t[2], i.get('n', t[4]))]
        cs = [i['c%d' % k] for k in range(t[3])]
        if t[3] < FRAC[t[2]][0]:
            cs.append(0)
        return ['frac_%s %x %d %s' % (t[1], t[2], len(cs), ' '.join('%x' % x for x in cs))]

    def judge(self, cmds, answers, t):
        for c, a in zip(cmds, answers):
            if isinstance(a, tuple):
                return '%s: %s' % (c, a[1])
            f = c.split()
            g = [int(x) for x in a.split()]
            d, b = FRAC[int(f[1], 16)]
            if f[0] == 'next_s':
                if g[0] > g[1]:
                    return '%s: %s/10^%d gives %d, the next numerator %d' % (c, f[2], d, g[0], g[1])
                continue
            if f[0].startswith('conv'):
                n, r = int(f[2]), g[0]
            else:
                s = ''
                for x in f[3:]:
                    if not 48 <= int(x, 16) <= 57:
                        break
                    s += chr(int(x, 16))
                n, r = int((s + '0' * d)[:d]), g[1]
                if g[0] != n:
                    return '%s: the digits are read as %d instead of %d' % (c, g[0], n)
            x = r * 10 ** d - n * 2 ** b
            if not -10 ** d < x <= Fraction(10 ** d, 8) or r >> b:
                return '%s: %d/10^%d is converted to %d/2^%d' % (c, n, d, r, b)
        return None


# ------------------------------------------------------------------ C27
def log10_2(bits=160):
    """floor of lg 2 * 2^bits, by exact comparison of powers: 2^(2^bits') is out of reach, so by a series"""
    # lg 2 = ln 2 / ln 10, both by atanh series with exact remainders
    n = bits + 64

    def atanh_inv(q):
        s, t, k = 0, (1 << n) // q, 1
        while t:
            s += t // k
            t //= q * q
            k += 2
        return s
    # ln 2 = 2 atanh(1/3); ln 10 = 3 ln 2 + ln(5/4), ln(5/4) = 2 atanh(1/9)
    ln2 = 2 * atanh_inv(3)
    ln10 = 3 * ln2 + 2 * atanh_inv(9)
    return (ln2 << bits) // ln10


class C27(Arith):
    """scaling exponents, helpers on bits and powers"""
    id = 'C27'
    tus = ('tool',)
    outside = 'other instances of the templates than the listed ones; numbers printed for debugging'
    BITS = 96
    L = log10_2(96)
    ALPHA = (None, None, -60, 0, 32)
    WIN = {'d': (-1175, 1106), 'f': (-186, 149)}       # all exponents whose power is in the table

    def tasks(self, tier, rng):
        out = []
        for i in range(5):
            for a in range(-3000, 3000, 250):
                out.append(('comp', 'k', i, a, a + 249))
        for T in 'df':
            lo, hi = self.WIN[T]
            for a, b in ((lo, -1), (0, hi)):
                for c in range(a, b + 1, 10):
                    out.append(('wind', T, 0, c, min(c + 9, b)))
            for n in range(self.w(T) + 1):
                out.append(('bits', T, n, 0, (1 << self.w(T)) - 1))
            out.append(('powr', T, 0, 0, 19 if T == 'd' else 9))
        out.append(('kapp', 'i', 0, 0, (1 << 32) - 1))
        for c, n in (('i', 31), ('l', 63)):
            out.append(('sign', c, 0, 0, (1 << n) - 1))
            out.append(('sign', c, 0, 1 - (1 << n), -1))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return ('every exponent in -3000..2999 for five pairs of parameters; exponents %d..%d (float %d..%d) with the tables of powers; every 32 and 64 bit number, every position; '
                'powers 0..19 (32 bit: 0..9)' % (self.WIN['d'] + self.WIN['f']))

    def call(self, E, st, t):
        o = E.alloc(st, 32, 'heap', 'results')
        st.user['inputs'] = []
        if t[0] == 'bits':
            W = self.w(t[1])
        else:
            W = 64 if t[0] == 'sign' and t[1] == 'l' else 32
        off = (1 << W) if t[3] < 0 else 0
        parts = [(t[3] + off, t[4] + off)]
        if t[3] < 0 <= t[4]:
            raise ValueError('range across zero')
        x = self.sym(E, st, *parts[0], 'x')
        st.user['x'] = Lin(LIN(x).c - off, LIN(x).t)
        a = [x, o]
        if t[0] == 'comp':
            a = [t[2], x, o]
        elif t[0] == 'bits':
            a = [x, t[2], o]
        E.push_call(st, 'h_%s_%s' % t[:2], a)
        return o,

    def result(self, E, st, o, i, signed=True):
        """result as a number"""
        r = E.read(st, o + 8 * i, 8)
        if r is UNDEF:
            raise Violation('property', 'the result is never set')
        if isinstance(r, int):
            return Lin(r - (1 << 64) if signed and r >> 63 else r, ())
        if not signed:
            return LIN(r)
        z = E.signed(st, r, 64)[0]
        return Lin(z, ()) if isinstance(z, int) else z

    def verify(self, E, st, t, a):
        o = a[0]
        x = st.user['x']
        get = lambda i, s=True: self.result(E, st, o, i, s)
        if t[0] == 'comp':
            k = get(0)
            alpha = self.ALPHA[t[2]] if t[2] > 1 else get(1).c
            y = Lin(alpha - 1 - x.c, tuple((v, -n) for v, n in x.t))
            if k.t:
                lo, hi = E.rnglin(st, k)
                k = Lin(E.concretize(st, Sym(Lin(k.c - lo, k.t), 0, hi - lo)) + lo, ())
            E.stats['obligations'] += 2
            K = lin_scale(k, 1 << self.BITS)
            E.prove(st, c_and([c_le(lin_add(lin_scale(y, z), K, -1)) for z in (self.L, self.L + 1)]), 'the exponent chosen is too small')
            less = lin_add(K, Lin(1 - (1 << self.BITS), ()))
            E.prove(st, c_and([c_le(lin_add(less, lin_scale(y, z), -1)) for z in (self.L, self.L + 1)]), 'the exponent chosen is too large')
            return 'exponent'
        if t[0] == 'wind':
            e, lo, hi = get(0), get(1).c, get(2).c
            E.stats['obligations'] += 2
            E.prove(st, c_le(Lin(lo - e.c, tuple((v, -n) for v, n in e.t))), 'the product has an exponent below the window')
            E.prove(st, c_le(Lin(e.c - hi, e.t)), 'the product has an exponent above the window')
            return 'window'
        if t[0] == 'bits':
            W = self.w(t[1])
            n = t[2]
            want = [Lin(1 << n if n < W else 0, ()), Lin((1 << n) - 1, ())]
            v = Sym(x, 0, (1 << W) - 1) if x.t else x.c
            for i in (n, W - 1):
                q, _ = E.split(st, v, 1 << i) if i < W else (0, 0)
                want.append(LIN(E.split(st, q, 2)[1]))
            for i, (w, s) in enumerate(zip(want, ('raised_bit', 'mask', 'nth_bit', 'highest_bit'))):
                self.zero(E, st, lin_add(get(i, False), w, -1), '%s is wrong' % s)
            return 'bits'
        if t[0] == 'powr':
            n = E.concretize(st, Sym(x, t[3], t[4])) if x.t else x.c
            self.zero(E, st, lin_add(get(0, False), Lin(10 ** n, ()), -1), 'a power of ten is wrong')
            return 'power'
        if t[0] == 'kapp':
            k = get(0)
            k = E.concretize(st, Sym(k, 0, 255)) if k.t else k.c
            if not 1 <= k <= 10:
                raise Violation('property', 'the number of digits is %d' % k)
            E.stats['obligations'] += 1
            E.prove(st, c_and([c_le(Lin((10 ** (k - 1) if k > 1 else 0) - x.c, tuple((v, -n) for v, n in x.t))), c_le(Lin(x.c - 10 ** k + 1, x.t))]), 'the number of digits is wrong')
            self.zero(E, st, lin_add(get(1, False), Lin(10 ** (k - 1), ()), -1), 'the divisor of the first digit is wrong')
            return 'digits'
        m = x if t[3] >= 0 else lin_scale(x, -1)
        if t[1] == 'i':
            self.zero(E, st, lin_add(get(0), x if t[3] >= 0 else Lin(0, ()), -1), 'the positive part is wrong')
        self.zero(E, st, lin_add(get(1 if t[1] == 'i' else 0), m, -1), 'the absolute value is wrong')
        return 'sign'

    def places(self, t, a):
        return [(a[0], 8, {'comp': 2 if t[2] < 2 else 1, 'wind': 3, 'bits': 4, 'powr': 1, 'kapp': 2}.get(t[0], 2 if t[1] == 'i' else 1))]

    def validate(self, drv):
        items = self.validation(random.Random(self.seed + 17))
        ans = drv.many([c for c, _, _ in items])
        for (c, got, t), a in zip(items, ans or []):
            if a == '?':
                continue
            if got is None or got != [int(x) for x in a.split()][:len(got)]:
                self.tot['mismatch'].append('%s: native %s, encoding %s' % (c, a, got))
            else:
                self.tot['validated'] += 1

    def replay_cmds(self, rec, t):
        W = self.w(t[1]) if t[0] == 'bits' else 64 if t[1] == 'l' else 32
        x = rec['inputs'].get('x', t[3])
        if t[3] < 0 and x >= 0:
            x -= 1 << W
        if t[0] == 'bits':
            return ['tool bits_%s %d %d' % (t[1], x - (1 << 64) if x >> 63 else x, t[2])]
        if t[0] == 'comp':
            return ['tool comp_k %d %d' % (t[2], x)]
        return ['tool %s_%s %d 0' % (t[0], t[1], x)]

    def judge(self, cmds, answers, t):
        for c, a in zip(cmds, answers):
            if isinstance(a, tuple):
                return '%s: %s' % (c, a[1])
            g = [int(x) for x in a.split()]
            s = [x - (1 << 64) if x >> 63 else x for x in g]
            _, op, x, y = c.split()
            x, y = int(x), int(y)
            if op == 'comp_k':
                p = (self.ALPHA[x] if x > 1 else s[1]) - y - 1
                if not Fraction(10) ** s[0] >= two(p) > Fraction(10) ** (s[0] - 1):
                    return '%s: %d is not the least k with 10^k >= 2^%d' % (c, s[0], p)
            elif op[:4] == 'wind':
                if not s[1] <= s[0] <= s[2]:
                    return '%s: the exponent of the product is %d' % (c, s[0])
            elif op[:4] == 'bits':
                W = self.w(op[-1])
                x &= (1 << W) - 1
                w = [1 << y if y < W else 0, (1 << y) - 1, x >> y & 1, x >> (W - 1)]
                if g != w:
                    return '%s: %s instead of %s' % (c, g, w)
            elif op == 'kapp_i':
                k = len(str(x))
                if g[:2] != [k, 10 ** (k - 1)]:
                    return '%s: %s' % (c, g[:2])
            elif op[:4] == 'powr':
                if g[0] != 10 ** x:
                    return '%s: %d' % (c, g[0])
            else:
                w = [max(x, 0), abs(x)] if op[-1] == 'i' else [abs(x)]
                if g[:len(w)] != w:
                    return '%s: %s instead of %s' % (c, g, w)
        return None
