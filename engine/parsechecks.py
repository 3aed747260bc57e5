"""Checks of the parsing side."""
import random
import sx
from sx import Sym, Lin, FPV, UNDEF, Violation, PathDone, c_le, c_eq, c_and, c_or, c_not, lin_add, lin_scale, LIN
from base import Check
from parsing import *

NAMES = ('vp_fb_d_c', 'vp_fb_f_c', 'vp_fb_d_w', 'vp_fb_f_w')


class ParseCheck(Check):
    tus = ('parse',)
    entry = 'atofc'

    def setup_engine(self, E):
        for n in NAMES:
            E.hooks[n] = self.fallback
        E.strto = lambda E, st, name, a: self.fallback(E, st, a)

    def fallback(self, E, st, a):
        """the call of the fallback ends the path: what it returns is the caller's business"""
        E.ensure()
        self.check_args(E, st, a)
        self.hit('handed over to the fallback')
        raise PathDone()

    def check_args(self, E, st, a):
        E.stats['obligations'] += 1
        r = st.user['run']
        if a[0] != r.s or a[1] != r.ep:
            raise Violation('property', 'the fallback is not called with the arguments of atof')

    def start(self, E, st, T, C, vals, entry=None):
        r = outs(E, st)
        r.vals = vals
        r.w = CH[C]
        r.s = put(E, st, vals, CH[C])
        st.user['run'] = r
        E.push_call(st, 'h_%s_%s_%s' % (entry or self.entry, T, C), [r.s, r.ep, r.v, r.ss])
        return r

    def result(self, E, st, r, T):
        """(bits, status, consumed) at the end of a path"""
        v = E.read(st, r.v, FT[T]['w'] // 8)
        ss = E.read(st, r.ss, 1)
        e = E.read(st, r.ep, 8)
        if ss is UNDEF or e is UNDEF or v is UNDEF:
            raise Violation('property', 'part of the result is never set (%s)' % ('value' if v is UNDEF else 'status' if ss is UNDEF else 'end pointer'))
        if isinstance(v, FPV):
            v = v.b
        if isinstance(ss, Sym):
            ss = E.concretize(st, ss)
        if isinstance(e, Sym):
            e = E.concretize(st, e)
        return v, ss, (e - r.s) // r.w if (e - r.s) % r.w == 0 else e - r.s

    def ask(self, T, C, codes, entry=None, extra=''):
        return '%s_%s_%s %s%s' % (entry or self.entry, T, C, hexcodes(codes), extra)

    def shape_of(self, t):
        return t[3]

    def replay_cmds(self, rec, t):
        return [self.ask(t[1], t[2], codes_of(self.shape_of(t), rec['inputs']))]

    def judge(self, cmds, answers, task):
        for c, a in zip(cmds, answers):
            if isinstance(a, tuple):
                return '%s: %s' % (c, a[1])
            f = c.split()
            T = f[0].split('_')[1]
            codes = [] if f[1] == '-' else [int(x, 16) for x in f[1].split(',')]
            w = self.judge1(f[0], T, codes, parse_answer(a))
            if w:
                s = ''.join(chr(x) if 32 <= x < 127 else '\\x%x' % x for x in codes)
                return '%s (text %s): %s' % (c[:300], repr(s[:100]), w)
        return None

    def validation(self, rng):
        out = []
        for i in range(14):
            T = 'df'[i & 1]
            n = rng.choice((1, 3, 6, 9, 15, 17, 19, 19))
            s = ''.join(rng.choice('0123456789') for _ in range(n))
            p = rng.randrange(n + 1)
            s = rng.choice(('', '-')) + s[:p] + '.' * (n > 1) + s[p:] + 'e%d' % rng.randrange(-40, 36)
            if i >= 10:
                s = ('nan(1)', '-Infinity', '+.e1', '0e5x')[i - 10]
            codes = [ord(c) for c in s]
            out.append((self.ask(T, 'c', codes, 'atofc'), lambda T=T, codes=codes: self.concrete(T, codes)))
        return out

    def validate(self, drv):
        # the fallback ends a path, so only runs without it can be compared
        items = self.validation(random.Random(self.seed + 17))
        ans = drv.many([c for c, _ in items])
        for (c, f), a in zip(items, ans or []):
            want = a.split()[:3]
            got = f()
            if got is None or a.split()[3] != '0':
                if (got is None) != (a.split()[3] != '0'):
                    self.tot['mismatch'].append('%s: native %s, encoding %s' % (c, a, got))
                else:
                    self.tot['validated'] += 1
            elif got == want:
                self.tot['validated'] += 1
            else:
                self.tot['mismatch'].append('%s: native %s, encoding %s' % (c, want, got))

    def concrete(self, T, codes):
        E = self.engine('parse')
        self.cover = {}
        for n in NAMES:
            E.hooks[n] = stop
        st = sx.State()
        r = self.start(E, st, T, 'c', codes, 'atofc')
        res = []
        E.explore(st, lambda E, st: res.append(self.result(E, st, r, T)))
        if not res:
            return None
        return ['%x' % res[0][0], '%d' % res[0][1], '%d' % res[0][2]]

    outside = 'texts outside the shapes listed in the bounds; texts longer than 2048 characters; locales other than "C"; long double'


def stop(E, st, a):
    raise PathDone()


# ------------------------------------------------------------------ number shapes
def number_shape(digits, point, K, sign=''):
    """text of digits (items '#', '%' or concrete) with the point after `point` of them, times 10^K:
    value = D * 10^(K)"""
    n = len(digits)
    out = list(sign) + list(digits[:point])
    if point < n:
        out += ['.'] + list(digits[point:])
    e = K + (n - point)
    if e:
        out += list('e%d' % e)
    return out


def spelling(rng, d, p):
    """text of the number d[0].d[1]d[2]... * 10^p, written in one of many ways"""
    n = len(d)
    d = list(d)
    style = rng.randrange(5)
    lead = rng.choice((0, 0, 0, 1, 4))
    point = 1 if style == 0 else n if style == 1 else rng.randrange(1, n + 1)
    e = p - point + 1
    if style == 4 and -8 <= p <= 24:
        # plain notation
        e = 0
        if p < 0:
            d = ['0'] * (-p) + d
            point = 1
        elif p < n:
            point = p + 1
        else:
            d += ['0'] * (p - n + 1)
            point = len(d)
    elif style == 3 and lead:
        # zeros only before the first digit
        d = ['0'] * lead + d
        point = rng.choice((0, 1))
        e = p - point + lead + 1
    else:
        d = ['0'] * lead + d
        point += lead
    trail = rng.choice((0, 0, 0, 1, 3)) if point < len(d) or rng.random() < .1 else 0
    d += ['0'] * trail
    out = list(rng.choice(('', '', '', '-', '+'))) + d[:point]
    if point < len(d) or rng.random() < .1:
        out += ['.'] + d[point:]
    if e or rng.random() < .1:
        out += list(rng.choice('eeE') + ('-' if e < 0 else rng.choice(('', '', '+'))) + rng.choice(('', '', '', '00')) + str(abs(e)))
    return out


def with_point(rng, d, p):
    """d[0].d[1].. * 10^p with the point somewhere between the digits"""
    n = len(d)
    i = rng.choice((1, n, rng.randrange(1, n + 1)))
    out = list(d[:i]) + (['.'] + list(d[i:]) if i < n or rng.random() < .2 else [])
    e = p - i + 1
    return out + (list(rng.choice('eE') + str(e)) if e else [])


def long_numbers(rng, T, tier, exps=None):
    """texts with hundreds of digits: zeros before, between and behind the significant ones, more digits than fit"""
    n0 = KAPPA[T]
    lo, hi = (-300, 300) if T == 'd' else (-36, 36)
    lens = [12, 40, 120, 250, 256, 300, 520] + ([700, 1000, 1024, 1500] if tier == 'thorough' else [1100])
    tail = lambda n: ''.join(rng.choice('0123456789') for _ in range(n - 1)) + rng.choice('123456789')
    for z in lens:
        p = exps or (lambda: rng.randrange(lo, hi))
        dig = lambda: ['#'] * rng.choice((1, 4, n0 - 2, n0))
        # zeros after the point, before the first digit
        x = rng.choice((p(), -z - 1)) if z < -lo else p()
        d = dig()
        yield ['0', '.'] + ['0'] * z + d + list('e%d' % (x + z + 1) if x != -z - 1 else '')
        yield ['.'] + ['0'] * z + dig() + list('E%d' % (p() + z + 1))
        # leading zeros
        yield ['0'] * z + with_point(rng, dig(), p())
        # zeros that only fill up
        yield dig()[:5] + ['0'] * z + list('e%d' % (p() - z))
        yield with_point(rng, dig() + ['0'] * z, p())
        # zeros between digits
        yield with_point(rng, dig()[:5] + ['0'] * z + list('7'), p())
        yield ['#'] * 3 + ['.'] + ['0'] * z + ['9'] + list('e%d' % p())
        # many digits
        yield with_point(rng, ['#'] * n0 + list(tail(z)), p())
        yield with_point(rng, ['#'] * (n0 - 3) + ['0', '#', '#'] + list(tail(z)), p())
        yield ['0', '.'] + ['0'] * z + ['#'] * n0 + list(tail(20)) + list('e%d' % (p() + z))


def close_calls(rng, T, count):
    """(digits, decimal exponent of the first one) of texts around the middle of two adjacent values, the last digits symbolic"""
    p = FT[T]
    n0 = KAPPA[T]
    mb, emax = p['mb'], p['emax']
    low = [0, 0, 0, 1, (1 << mb) - 1, 1 << mb, (emax << mb) - 1, (emax << mb) - 1, (emax << mb) - 1, (emax << mb) - 2]
    for _ in range(count):
        low.append(rng.choice((lambda: rng.randrange(1, emax << mb), lambda: rng.randrange(1, emax) << mb, lambda: (rng.randrange(1, emax) << mb) - 1,
                               lambda: rng.randrange(1, 1 << rng.randrange(1, mb)), lambda: rng.randrange(p['bias'] - 10, p['bias'] + 70) << mb | rng.randrange(1 << mb)))())
    for b in low:
        e = max(b >> mb, 1)
        f = (b & ((1 << mb) - 1)) | (b >> mb > 0) << mb
        X = Fraction(2 * f + 1) * Fraction(2) ** (e - p['bias'] - 1)
        x = len(str(X.numerator)) - len(str(X.denominator)) - 1
        while Fraction(10) ** (x + 1) <= X:
            x += 1
        full = ''
        if X.denominator <= 1 << 200:
            full = str(int(X * Fraction(10) ** max(X.denominator.bit_length() - 1, 0))).rstrip('0')
        digs = lambda n: list(str(int(X * Fraction(10) ** (n - 1 - x))))
        k = rng.randrange(4)
        if k == 0:
            yield digs(n0)[:-2] + ['%'] * 2, x
        elif k == 1:
            yield digs(n0)[:-1] + ['%'] * 3, x
        elif k == 2:
            n = n0 + rng.randrange(3, 12)
            yield digs(n)[:-2] + ['%'] * 2, x
        elif 3 < len(full) <= 120:
            yield list(full[:-1]) + ['%'] + rng.choice(([], ['%'], ['0', '%'])), x
        else:
            yield digs(n0 - 1)[:-2] + ['%'] * 2, x


class Numbers(ParseCheck):
    """C06 / C07: shapes of numbers over all decimal exponents"""
    T = 'd'
    P = (-330, 312)

    TAILS = ('9999', '5', '0001', '99', '5000', '49', '8765', '4999', '5001', '00009', '050', '1', '95', '999999999', '77', '51', '0' * 12 + '3')

    def shapes(self, tier, rng):
        """(digits, decimal exponent of the first one)"""
        n0 = KAPPA[self.T]
        f = self.T == 'f'
        th = tier == 'thorough'
        tails = list(self.TAILS)
        rng.shuffle(tails)
        for p in range(self.P[0], self.P[1] + 1):
            x = p - self.P[0] + self.seed
            nth = lambda a, b: th or x % (a if f else b) == 0
            yield ['#'] * n0, p
            n = rng.randrange(1, n0)
            if nth(1, 2):
                yield ['#' if i in (0, n - 1) or rng.random() < .7 else '0' for i in range(n)], p
            if th:
                for n in (1, 2, 4, 8, n0 - 3, n0 - 2, n0 - 1):
                    yield ['#'] * n, p
                for _ in range(3):
                    n = rng.randrange(2, n0 + 1)
                    yield ['#' if i in (0, n - 1) or rng.random() < .5 else '0' for i in range(n)], p
            if nth(2, 8):
                n = rng.randrange(3, n0 + 1)
                pos = set(rng.sample(range(1, n), min(3, n - 1)))
                yield ['%' if i in pos else '#' for i in range(n)], p
            # digits that do not fit the mantissa
            for i in range(6 if th else 3 if f else 1):
                if nth(1, 3):
                    yield ['#'] * n0 + list(tails[(x + 5 * i) % len(tails)]), p
            if nth(1, 3):
                # the same behind a run of zeros which starts inside the mantissa
                n = rng.randrange(max(1, n0 - 6), n0)
                yield ['1'] + ['#'] * (n - 1) + ['0'] * (n0 - n + rng.randrange(0, 9)) + list(rng.choice(('9', '99', '1', '5'))), p
            if nth(2, 32):
                yield ['#'] * n0 + ['%'] * (4 if f or th else 3), p
            if nth(4, 32):
                yield ['#'] * (n0 - 1) + ['0'] * rng.randrange(2, 6) + ['%'] * 3, p

    def tasks(self, tier, rng):
        out = []
        for d, p in self.shapes(tier, rng):
            out.append(('num', self.T, 'c', tuple(spelling(rng, d, p))))
        for sh in long_numbers(rng, self.T, tier):
            out.append(('num', self.T, 'c', tuple(sh)))
        # every power of ten the text can name, with as few digits as it needs
        n0 = KAPPA[self.T]
        for K in range(self.P[1] - n0, self.P[1] - 3):
            for n in (self.P[1] - 3 - K, max(1, self.P[1] - 5 - K)):
                out.append(('num', self.T, 'c', tuple(['#'] * n + list('e%d' % K))))
        for d, p in close_calls(rng, self.T, 60 if tier == 'quick' else 1500):
            out.append(('num', self.T, 'c', tuple(spelling(rng, d, p))))
        rng.shuffle(out)
        out.sort(key=lambda t: -t[3].count('%'))
        return out

    def run_task(self, E, t):
        T, C, shape = t[1:4]
        st = sx.State()
        vals = chars(E, st, shape)
        r = self.start(E, st, T, C, vals)
        ref = reference(shape, vals)
        kinds = {}

        def done(E, st):
            k = self.verify(E, st, t, r, ref)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'text': ''.join(str(c) for c in shape), 'paths': E.stats['paths'], 'outcomes': kinds})

    def verify(self, E, st, t, r, ref):
        T = t[1]
        bits, ss, end = self.result(E, st, r, T)
        s, e, m = mantissa_of(E, st, bits, T)
        if s != ref.neg:
            raise Violation('property', 'wrong sign')
        correctly_rounded(E, st, T, s, e, m, ref.D, ref.K)
        return ('infinity' if e == FT[T]['emax'] else 'zero' if not isinstance(m, Sym) and m == 0 and e == 0 else 'denormal' if e == 0 else 'normal')

    def judge1(self, name, T, codes, a):
        bits, st, end, calls, ok, err, heap = a
        if calls:
            return None
        want, _ = native_value(T, codes)
        if want is not None and bits != want:
            return 'returns the bits %x without using the fallback, the correctly rounded ones are %x' % (bits, want)
        return None

    def bounds_text(self):
        n = KAPPA[self.T]
        return ('decimal exponents %d..%d of the leading digit; at each: %d symbolic digits 1..9; a shorter pattern of symbolic digits and zeros (double: every '
                'second exponent); at a part of them patterns with digits 0..9, %d symbolic digits followed by a concrete tail out of %d that does not fit the '
                'mantissa, by a run of zeros across the end of the mantissa and a tail, or by 3 or 4 symbolic digits (thorough: all of these at every exponent, '
                'seven more lengths and three more patterns); point, leading and trailing zeros, plain or exponent notation and its spelling, and the sign chosen by '
                'VERIF_SEED; texts with 12..1100 zeros or digits before, between or behind the symbolic ones; texts whose last 1..3 digits are symbolic '
                'around the middles of %d pairs of adjacent values (the limits of the type included). Paths which call the fallback are ended there.' % (self.P + (n, n, len(self.TAILS), 70 if self.tier == 'quick' else 1510)))


def reference(shape, vals):
    """D and K of a number shape (the structure is concrete, the digits are symbolic)"""
    r = Run()
    i = 0
    r.neg = 0
    n = len(shape)
    if shape[0] in ('-', '+'):
        r.neg = int(shape[0] == '-')
        i = 1
    idx = []
    frac = 0
    dot = False
    while i < n and shape[i] not in ('e', 'E'):
        if shape[i] == '.':
            dot = True
        else:
            idx.append(i)
            frac += dot
        i += 1
    x = int(''.join(shape[i + 1:])) if i < n else 0
    r.D = digits_value(vals, idx)
    r.K = x - frac
    r.end = n
    return r


class C06(Numbers):
    id = 'C06'
    T = 'd'
    P = (-330, 312)


class C07(Numbers):
    id = 'C07'
    T = 'f'
    P = (-52, 42)


# ------------------------------------------------------------------ texts that need not be numbers
ANY = (0, 255)
ASCII = (0, 127)


class Texts(ParseCheck):
    """arbitrary characters"""

    def run_task(self, E, t):
        T, C, shape = t[1:4]
        st = sx.State()
        vals = chars(E, st, shape)
        self.before(E, st, t)
        r = self.start(E, st, T, C, vals)
        kinds = {}

        def done(E, st):
            k = self.verify(E, st, t, r)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'text': ''.join(str(c) if isinstance(c, str) else '?' if isinstance(c, tuple) else chr(c) for c in shape)[-60:],
                             'length': len(shape), 'paths': E.stats['paths'], 'outcomes': kinds})

    def before(self, E, st, t):
        pass

    def tmpl(self, s, any_=ANY):
        """'?' stands for an arbitrary character"""
        return tuple(any_ if c == '?' else c for c in s)


CORE = ['', '?', '??', '???', '????', '-???', '+???', '1???', '.???', '0.??', '12.5???', '-1e???', '1e+???', '3.e??', '.5E??', '1e-1??',
        'n???', '-N???', 'nan(???', 'NaN(a?)?', '+nan???', 'i???', 'inf????', '-INF?????', 'infin????', '0x???', '1..??', '--???', '+-???', '00??', '0e???',
        '-0.0e??', '123456789012345678901234?.?e?', '0.000000000000000000000000?1??']


LONG = ['1' * 300 + '??', '0' * 300 + '.?', '.' + '0' * 300 + '??', '12.' + '5' * 500 + 'e??', '0.' + '0' * 700 + '??', '1' + '0' * 1500 + 'e-??',
        'nan(' + 'zA_9' * 70 + '??', '1e' + '0' * 300 + '??', '1e-' + '9' * 300 + '?', '-0.' + '0' * 260 + '?e?', '123456789' * 28 + '.??',
        # the documented limit
        '7' * 2046 + '??', '0.' + '3' * 2043 + '?e?', '0' * 2040 + '12.??e-?', '1' * 30 + 'e' + '0' * 2015 + '??']


class C09(Texts):
    """consumed extent"""
    id = 'C09'
    deadline = {'quick': 300, 'thorough': 3600}

    def tasks(self, tier, rng):
        ls = list(CORE)
        out = []
        if tier == 'thorough':
            ls += ['?????', '-????', '1????', '12.5????', '1e????', 'nan(????', 'inf?????', '-i?????', '.????', '0.0????', '9?e???', '??e???']
        for s in LONG:
            for T in 'df':
                out.append(('txt', T, 'c', self.tmpl(s)))
        for s in ls:
            out.append(('txt', 'd', 'c', self.tmpl(s)))
            if tier == 'thorough' or len(s) < 9:
                out.append(('txt', 'f', 'c', self.tmpl(s)))
        for s in ('???', '1e???', 'nan(??', 'inf???', '-.???', '1.?e?'):
            for T in 'df':
                out.append(('txt', T, 'w', self.tmpl(s, (0, 0x10ffff))))
        out.sort(key=lambda t: -sum(isinstance(c, tuple) for c in t[3]))
        return out

    def bounds_text(self):
        return ('every text of up to 4 (thorough: 5) arbitrary bytes, and %d templates such as "12.5???", "nan(???", "inf????", "1e+???" whose "?" are arbitrary '
                'bytes; %d long ones (to 2048 characters); wide characters in six templates' % (len(CORE), len(LONG)))

    def verify(self, E, st, t, r):
        bits, ss, end = self.result(E, st, r, t[1])
        ref = Ref(E, st, r.vals).parse()
        E.stats['obligations'] += 1
        if end != ref.end:
            raise Violation('property', 'consumes %d characters, the longest number prefix has %d' % (end, ref.end))
        if ref.kind == 'none':
            E.stats['obligations'] += 1
            if isinstance(bits, Sym) or bits != 0 or ss != SUCCESS:
                raise Violation('property', 'a text without a number does not give the default result')
        return '%s, %d characters' % (ref.kind, end)

    def judge1(self, name, T, codes, a):
        bits, st, end, calls, ok, err, heap = a
        n = native_prefix(codes)
        if end != n:
            return 'consumes %d characters, the longest prefix that is a number has %d' % (end, n)
        if n == 0 and (bits or st):
            return 'gives the bits %x and the status %d for a text without a number' % (bits, st)
        return None


class C10(Texts):
    """memory safety and termination on arbitrary input"""
    id = 'C10'
    task_limit = {'quick': 120, 'thorough': 900}

    def tasks(self, tier, rng):
        ls = list(CORE) + ['1' * 2046 + '????', '0' * 2044 + '.???', '0.' + '0' * 2044 + '???', '-' + '9' * 40 + '.' + '9' * 30 + '??', '1e' + '9' * 30 + '??',
                           '1e-' + '0' * 60 + '???', 'nan(' + 'a' * 3000 + '??', '0.' + '0' * 400 + '1?e4??', '1' + '0' * 400 + '?e-?']
        # around the number of digits that fit the mantissa
        ls += ['7' * n + x for n in (7, 8, 9, 10, 17, 18, 19, 20) for x in ('??', '.??', 'e?')] + ['0.' + '7' * n + '??' for n in (8, 9, 18, 19)]
        if tier == 'thorough':
            ls += ['?????', '1' * 18 + '????', '1' * 2047 + '.???', '0' * 2047 + '??', '1' * 8 + '????', '.' + '0' * 30 + '????']
        out = []
        for s in ls:
            for T in 'df':
                out.append(('txt', T, 'c', self.tmpl(s), 'atofc'))
        for s in ('', '???', '1e???', 'nan(??', 'inf???', '12.5??'):
            for T in 'df':
                out.append(('txt', T, 'c', self.tmpl(s), 'atofn'))
                out.append(('txt', T, 'w', self.tmpl(s, (0, 0xffffffff)), 'atofc'))
        out.sort(key=lambda t: -sum(isinstance(c, tuple) for c in t[3]))
        return out

    def bounds_text(self):
        return ('every text of up to 4 (thorough: 5) arbitrary bytes, %d templates with arbitrary bytes at "?", long texts (up to 3006 characters) with concrete '
                'bodies and arbitrary tails; buffers of exactly the size of the text; end pointer given or null; char and wchar_t; %d instructions per path'
                % (len(CORE), sx.Engine.MAXSTEPS))

    now = None

    def start(self, E, st, T, C, vals, entry=None):
        if self.now != 'atofn':
            return ParseCheck.start(self, E, st, T, C, vals, entry)
        r = outs(E, st)
        r.vals = vals
        r.w = CH[C]
        r.s = put(E, st, vals, CH[C])
        st.user['run'] = r
        E.push_call(st, 'h_atofn_%s_%s' % (T, C), [r.s, r.v, r.ss])
        return r

    def run_task(self, E, t):
        self.now = t[4]
        Texts.run_task(self, E, t)

    def fallback(self, E, st, a):
        E.ensure()
        self.hit('handed over to the fallback')
        raise PathDone()

    def verify(self, E, st, t, r):
        E.stats['obligations'] += 1
        return 'returned'

    def replay_cmds(self, rec, t):
        return [self.ask(t[1], t[2], codes_of(t[3], rec['inputs']), entry=t[4])]

    def judge1(self, name, T, codes, a):
        return None if a[4] else 'the text or the arguments of the fallback were modified'


class C11(Texts):
    """NaN and infinity"""
    id = 'C11'

    def tasks(self, tier, rng):
        ls = ['???', '-???', '+???', 'nan', 'NAN(??)', 'nan(???', 'nAn()?', '-nan(?)?', 'Nan(_?Z9?', 'inf', 'inf?????', 'INF?NITY', '-Infinit??', '+infinity?',
              'iNFI?I??', 'nan(' + 'zA_9' * 70 + '??', '?nf', 'na?', '+?an', '-inf???']
        if tier == 'thorough':
            ls += ['????', 'nan(????', 'nan(?????', 'inf??????', '?nfi????', '-?????']
        out = []
        for s in ls:
            for T in 'df':
                out.append(('txt', T, 'c', self.tmpl(s)))
            out.append(('txt', 'df'[len(out) & 1], 'w', self.tmpl(s, (0, 0x10ffff))))
        out.sort(key=lambda t: -sum(isinstance(c, tuple) for c in t[3]))
        return out

    def bounds_text(self):
        return '20 (thorough: 26) templates around "nan", "nan(...)", "inf" and "infinity" with arbitrary characters at "?", both signs, char and wchar_t'

    def verify(self, E, st, t, r):
        T = t[1]
        p = FT[T]
        bits, ss, end = self.result(E, st, r, T)
        ref = Ref(E, st, r.vals).parse()
        if ref.kind not in ('nan', 'inf'):
            # must not be taken for one
            E.stats['obligations'] += 1
            if isinstance(bits, Sym):
                return 'other'
            if ((bits >> p['mb']) & p['emax']) == p['emax'] and ref.kind == 'none':
                raise Violation('property', 'a text that is neither nan nor inf is taken for one')
            return 'other'
        E.stats['obligations'] += 3
        inf = p['emax'] << p['mb']
        if isinstance(bits, Sym):
            raise Violation('property', 'the value of a special text depends on its letters')
        if end != ref.end:
            raise Violation('property', 'consumes %d characters of %d' % (end, ref.end))
        if ss != SUCCESS:
            raise Violation('property', 'status %d' % ss)
        if ref.kind == 'nan':
            if not (bits & ((1 << (p['w'] - 1)) - 1)) > inf:
                raise Violation('property', 'nan gives the bits %x' % bits)
        elif bits != (int(ref.neg) << (p['w'] - 1)) + inf:
            raise Violation('property', 'inf gives the bits %x' % bits)
        return '%s of %d characters' % (ref.kind, end)

    def judge1(self, name, T, codes, a):
        bits, st, end, calls, ok, err, heap = a
        p = FT[T]
        n = native_prefix(codes)
        inf = p['emax'] << p['mb']
        special = n and any(c in (73, 105, 78, 110) for c in codes[:n])
        if not special:
            if n == 0 and (bits & ((1 << (p['w'] - 1)) - 1)) >= inf:
                return 'gives the bits %x' % bits
            return None
        want, ws = native_value(T, codes)
        if end != n:
            return 'consumes %d characters instead of %d' % (end, n)
        if st != SUCCESS:
            return 'gives the status %d' % st
        if want is None:
            return None if (bits & ((1 << (p['w'] - 1)) - 1)) > inf else 'gives the bits %x instead of a NaN' % bits
        return None if bits == want else 'gives the bits %x instead of %x' % (bits, want)


# ------------------------------------------------------------------ range of the results
class C08(ParseCheck):
    """overflow and underflow: value and status"""
    id = 'C08'

    def tasks(self, tier, rng):
        out = []

        def add(T, digits, p, neg=False, plain=False):
            n = len(digits)
            if plain:
                if p >= n:
                    s = list(digits) + ['0'] * (p - n + 1)
                elif p < 0:
                    s = ['0', '.'] + ['0'] * (-p - 1) + list(digits)
                else:
                    s = list(digits[:p + 1]) + ['.'] + list(digits[p + 1:])
                s = ['-'] * neg + s
            else:
                s = number_shape(digits, rng.randrange(1, n + 1), p - n + 1, '-' if neg else '')
            out.append(('num', T, 'c', tuple(s)))
        q = tier == 'quick'
        for T, lo, hi in (('d', -324, 308), ('f', -46, 38)):
            n0 = KAPPA[T]
            near = list(range(lo - 6, lo + 18)) + list(range(hi - 3, hi + 5))
            for p in near:
                for n in (n0, n0 - 1, 12 if T == 'd' else 6, 5, 1) if q else (n0, n0 - 1, n0 - 2, n0 - 3, 12 if T == 'd' else 6, 5, 4, 3, 2, 1):
                    add(T, ['#'] * n, p, rng.random() < .5)
                if p in (lo - 1, lo, hi, hi + 1):
                    add(T, ['#'] * n0 + list('5001'), p)
                    add(T, ['#'] * (n0 - 2), p, True, True)
                    add(T, ['#', '%', '%', '#'], p)
                if p < lo + 4:
                    add(T, ['#'] + ['0'] * (n0 - 2) + ['#'], p)
                    add(T, ['#'] * (n0 + 1), p, True, p > lo - 4)
            far = [lo - 8, lo - 12, lo - 19, lo - 25, lo - 40, lo - 100, lo - 400, lo - 2000, hi + 6, hi + 10, hi + 21, hi + 40, hi + 300, hi + 3000, hi + 40000, lo - 40000]
            far += [rng.randrange(-320, 300) if T == 'd' else rng.randrange(-45, 36) for _ in range(6 if q else 60)]
            for p in far:
                for n in (n0, n0 - 3, 4, 1):
                    add(T, ['#'] * n, p, rng.random() < .5)
            add(T, ['#'] * 3, lo - 30, False, True)
            add(T, ['#'] * 3, hi + 30, True, True)
            for sh in long_numbers(rng, T, tier, lambda: rng.choice(near)):
                out.append(('num', T, 'c', tuple(sh)))
            for s in ('0', '-0', '0.00', '-.0e5', '0e99999', '-0e-99999', '+0.0E+7'):
                out.append(('num', T, 'c', tuple(s)))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return ('%s symbolic significant digits at decimal exponents within 6 below and 18 above the least denormalized value, within 5 of the largest value, at '
                '16 exponents far outside the range (to +-40000) and some random ones inside; both signs; plain and exponential notation; the digits that do not fit '
                'the mantissa concrete; texts with 12..1100 zeros or digits before, between or behind the symbolic ones' % ('1, 5, 6/12, 18/8 and all 19/9' if self.tier == 'quick' else '1..5, 6/12, 16..18/6..8 and all 19/9'))

    def run_task(self, E, t):
        T, C, shape = t[1:4]
        st = sx.State()
        vals = chars(E, st, shape)
        r = self.start(E, st, T, C, vals)
        ref = reference([lower(ord(c)) and c.lower() for c in shape], vals)
        kinds = {}

        def done(E, st):
            k = self.verify(E, st, t, r, ref)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'text': ''.join(shape)[:60], 'paths': E.stats['paths'], 'outcomes': kinds})

    def verify(self, E, st, t, r, ref):
        T = t[1]
        p = FT[T]
        bits, ss, end = self.result(E, st, r, T)
        s, e, m = mantissa_of(E, st, bits, T)
        E.stats['obligations'] += 2
        if s != ref.neg:
            raise Violation('property', 'wrong sign')
        zero = False
        if e == 0:
            zero = m == 0 if not isinstance(m, Sym) else E.decide(st, c_eq(m.l))
        if not ref.D.t and ref.D.c == 0:
            if not zero or ss != SUCCESS:
                raise Violation('property', 'zero is not parsed as a successful zero')
            return 'exact zero'
        half = cmp_scaled(ref.D, ref.K, 0, Lin(1, ()), 0, -p['bias'])            # X - half of the least denormalized value
        top = cmp_scaled(ref.D, ref.K, 0, Lin(4 * (1 << p['mb']) - 1, ()), 0, p['emax'] - 2 - p['bias'])   # X - (max + half ulp)
        if e == p['emax']:
            if isinstance(m, Sym) or m:
                raise Violation('property', 'the result is a NaN')
            if ss != OVERFLOW:
                raise Violation('property', 'infinite result without the overflow status')
            E.prove(st, c_le(neg(top)), 'infinity for a value in range')
            return 'overflow'
        if zero:
            if ss != UNDERFLOW:
                raise Violation('property', 'a value rounded to zero without the underflow status')
            E.prove(st, c_le(half), 'zero for a value above half of the least denormalized one')
            return 'underflow'
        if ss != SUCCESS:
            raise Violation('property', 'status %d with a finite non-zero result' % ss)
        E.prove(st, lt(top), 'a finite result for a value out of range')
        E.prove(st, lt(neg(half)), 'non-zero result for a value of at most half the least denormalized one')
        return 'in range'

    def judge1(self, name, T, codes, a):
        bits, st, end, calls, ok, err, heap = a
        if calls:
            return None
        p = FT[T]
        want, ws = native_value(T, codes)
        mag = lambda b: b & ((1 << (p['w'] - 1)) - 1)
        cl = lambda b: 'infinity' if mag(b) == p['emax'] << p['mb'] else 'zero' if mag(b) == 0 else 'finite' if mag(b) < p['emax'] << p['mb'] else 'nan'
        if want is None:
            return None
        if cl(bits) != cl(want) or (bits ^ want) >> (p['w'] - 1):
            return 'gives the bits %x (%s), the value is %x (%s)' % (bits, cl(bits), want, cl(want))
        if st != ws:
            return 'gives the bits %x with the status %d instead of %d' % (bits, st, ws)
        return None


# ------------------------------------------------------------------ exponent field
class C13(ParseCheck):
    id = 'C13'
    task_limit = {'quick': 200, 'thorough': 900}

    def tasks(self, tier, rng):
        out = []
        q = tier == 'quick'
        for T in 'df':
            ms = ['1', '123.456', '9', '0.00012', '-7'] if q else ['1', '123.456', '9', '0.00012', '-7', '5000', '.5', '2.', '99999', '0.1', '1' + '0' * 30, '0.' + '0' * 30 + '3',
                                                                   '-8.25', '3.0625', '65536']
            for i, m in enumerate(ms):
                if i < 2:
                    # the exponent makes up for a long mantissa
                    for z in (120, 1200):
                        out.append(('num', T, 'c', tuple('0.' + '0' * z + m.replace('.', '') + 'e' + str(z)[:-2] + '%%')))
                        out.append(('num', T, 'c', tuple(m.replace('.', '') + '0' * z + 'e-' + str(z)[:-2] + '%%')))
                        out.append(('num', T, 'c', tuple(m + '0' * z + 'E-%%')))
                        out.append(('num', T, 'c', tuple('.' + '0' * z + m.replace('.', '') + 'e%%%')))
                for x in ('e%', 'E-%%', 'e+%%', 'e%%%', 'e-%%%') + (() if q and i else ('E0%%%', 'e-00%%%', 'e%%%%%', 'e-%%%%%%', 'e+%%%%%%%%%%%%')):
                    out.append(('num', T, 'c' if (i + len(x)) % 5 else 'w', tuple(m + x)))
        rng.shuffle(out)
        out.sort(key=lambda t: -t[3].count('%'))
        return out

    def bounds_text(self):
        return ('every exponent part of 1..3 digits (and 5, 6 and 12 digits, with and without leading zeros and signs, for some mantissas) with all digits symbolic, '
                'for %d concrete mantissas; fields that make up for 120 or 1200 zeros in the mantissa' % (5 if self.tier == 'quick' else 15))

    def run_task(self, E, t):
        T, C, shape = t[1:4]
        st = sx.State()
        vals = chars(E, st, shape)
        r = self.start(E, st, T, C, vals)
        n = len(shape)
        i = next(i for i in range(n) if shape[i] in 'eE')
        mref = reference(list(shape[:i]), vals[:i])
        j = i + 1
        eneg = False
        if shape[j] in '+-':
            eneg = shape[j] == '-'
            j += 1
        X = digits_value(vals, range(j, n))
        if eneg:
            X = neg(X)
        X = lin_add(X, Lin(mref.K, ()))     # decimal exponent of the integer mref.D
        kinds = {}

        def done(E, st):
            k = self.verify(E, st, t, r, mref, X, n)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'text': ''.join(shape)[:60], 'paths': E.stats['paths'], 'outcomes': kinds})

    def verify(self, E, st, t, r, mref, X, n):
        T = t[1]
        p = FT[T]
        bits, ss, end = self.result(E, st, r, T)
        E.stats['obligations'] += 1
        if end != n:
            raise Violation('property', 'consumes %d characters of %d' % (end, n))
        s, e, m = mantissa_of(E, st, bits, T)
        if s != mref.neg:
            raise Violation('property', 'wrong sign')
        D = mref.D.c
        zero = e == 0 and not isinstance(m, Sym) and m == 0
        if e == p['emax'] or zero:
            # exact threshold of the exponent
            k = -400
            inf = p['emax'] << p['mb']
            want = inf if e == p['emax'] else 0
            if zero:
                while round_nearest(T, Fraction(D) * Fraction(10) ** (k + 1)) == 0:
                    k += 1
                E.prove(st, c_le(Lin(X.c - k, X.t)), 'zero for a value that does not round to zero')
            else:
                k = 400
                while round_nearest(T, Fraction(D) * Fraction(10) ** (k - 1)) == inf:
                    k -= 1
                E.prove(st, c_le(lin_add(Lin(k, ()), X, -1)), 'infinity for a value in range')
            if ss != (UNDERFLOW if zero else OVERFLOW):
                raise Violation('property', 'status %d' % ss)
            return 'zero' if zero else 'infinity'
        if ss != SUCCESS:
            raise Violation('property', 'status %d' % ss)
        lo, hi = E.rnglin(st, X)
        k = X.c if not X.t else E.concretize(st, E.mk(st, X, lo, hi), 4096)
        correctly_rounded(E, st, T, s, e, m, Lin(D, ()), k)
        return 'finite'

    def judge1(self, name, T, codes, a):
        bits, st, end, calls, ok, err, heap = a
        n = native_prefix(codes)
        if end != n:
            return 'consumes %d characters of %d' % (end, n)
        want, ws = native_value(T, codes)
        if calls:
            return None
        if bits != want or st != ws:
            return 'gives the bits %x and the status %d instead of %x and %d' % (bits, st, want, ws)
        return None


# ------------------------------------------------------------------ fallback
STD = {('d', 'c'): 'strtod', ('f', 'c'): 'strtof', ('d', 'w'): 'wcstod', ('f', 'w'): 'wcstof'}
ERANGE = 34


# just above the middle of two adjacent values, at both ends of the range and inside
TELLING = {'f': ('1.00000005960464477539062500000000000000001', '340282356779733661637539395458142568447.99999999999999999999e0',
                 '16777217.0000000000000000000001', '1.0000001788139343261718749999999999999999'),
           'd': ('1.00000000000000011102230246251565404236316680908203125000000000000000000000001', '9007199254740993.00000000000000000000000000001',
                 '1.0000000000000003330669073875469621270895004272460937499999999999999999999999')}


class C12(ParseCheck):
    """contract of the fallback"""
    id = 'C12'

    def tasks(self, tier, rng):
        out = []
        for T in 'df':
            n0 = KAPPA[T]
            ps = (-8, 0, n0, 25, -30) if tier == 'quick' else (-300, -44, -30, -8, -1, 0, 5, n0, 25, 30, 37, 200, 308) if T == 'd' else (-44, -30, -8, -1, 0, 5, n0, 25, 30, 37)
            for C in 'cw':
                for i, p in enumerate(ps):
                    for j, (e0, e1) in enumerate(((0, None), (ERANGE, None), (33, ERANGE), (0, ERANGE), (ERANGE, 0), (0, 22))):
                        neg = '-' if (i + j) & 1 else ''
                        d = ['#'] * n0 + list('5001') if (i + j) % 3 == 0 else ['#'] * (n0 - 1) + ['5']
                        sh = tuple(number_shape(d, 1 + (i % n0), p - len(d) + 1, neg))
                        out.append(('fb', T, C, sh, 'atofc', e0, e1))
                    sh = tuple(number_shape(['#'] * n0 + list('5'), 1, p - n0, '-' if i & 1 else ''))
                    out.append(('fb', T, C, sh, 'atof', 0, None))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return ('texts with %s symbolic digits (some with more digits than fit) at several decimal exponents; the fallback returns an arbitrary bit pattern, leaves or '
                'sets errno (0, EINVAL, ERANGE), errno before the call 0, EDOM or ERANGE; char and wchar_t; for the default fallback the C function called' % '19/9 and 18/8')

    def run_task(self, E, t):
        T, C, shape, entry, e0, e1 = t[1:7]
        p = FT[T]
        st = sx.State()
        vals = chars(E, st, shape)
        ep = E.stubs['__errno_location'](E, st, [])
        E.write(st, ep, 4, e0)
        F = E.var(st, 0, (1 << p['w']) - 1, 'ret')
        st.user['inputs'].append(('ret', F))

        def called(E, st, a, name=None):
            E.ensure()
            self.check_args(E, st, a)
            E.stats['obligations'] += 1
            if name is not None and name != STD[T, C]:
                raise Violation('property', 'the default fallback is ' + name)
            if st.user.get('called'):
                raise Violation('property', 'the fallback is called twice')
            st.user['called'] = True
            r = st.user['run']
            E.write(st, r.ep, 8, r.s + 3 * CH[C])
            if e1 is not None:
                E.write(st, ep, 4, e1)
            return FPV(F, p['w'])
        for n in NAMES:
            E.hooks[n] = called
        E.strto = lambda E, st, name, a: called(E, st, a, name)
        r = self.start(E, st, T, C, vals, entry)
        kinds = {}

        def done(E, st):
            k = 'no fallback'
            if st.user.get('called'):
                k = self.after(E, st, t, r, F)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'text': ''.join(shape), 'errno': [e0, e1], 'outcomes': kinds})

    def after(self, E, st, t, r, F):
        T, C = t[1:3]
        p = FT[T]
        e1 = t[6]
        bits, ss, end = self.result(E, st, r, T)
        E.stats['obligations'] += 2
        if LIN(bits) != F.l:
            E.prove(st, c_eq(lin_add(LIN(bits), F.l, -1)), 'the value of the fallback is not returned unchanged')
        if end != 3:
            raise Violation('property', 'the end pointer set by the fallback is changed')
        if e1 != ERANGE:
            if ss != SUCCESS:
                raise Violation('property', 'status %d although the fallback reports no range error' % ss)
            return 'returned, success'
        inf = p['emax'] << p['mb']
        S = 1 << (p['w'] - 1)
        is_ = lambda *b: E.decide(st, c_or([c_eq(Lin(F.l.c - x, F.l.t)) for x in b]))
        want = OVERFLOW if is_(inf, S + inf) else UNDERFLOW if is_(0, S) else SUCCESS
        if ss != want:
            raise Violation('property', 'status %d instead of %d' % (ss, want))
        return 'returned, range error, status %d' % want

    def replay_cmds(self, rec, t):
        codes = codes_of(t[3], rec['inputs'])
        if t[4] == 'atof':
            # the text found, and some whose value tells a fallback of another type from the right one
            return [self.ask(t[1], t[2], codes, 'atof')] + [self.ask(t[1], t[2], [ord(c) for c in x], 'atof') for x in TELLING[t[1]]]
        e0, e1 = t[5:7]
        return ['fbk_%s_%s %s %d %x %d' % (t[1], t[2], hexcodes(codes), e0, rec['inputs']['ret'], -1 if e1 is None else e1)]

    def judge(self, cmds, answers, task):
        for c, a in zip(cmds, answers):
            w = self.judge_one(c, a)
            if w:
                return w
        return None

    def judge_one(self, c, a):
        if isinstance(a, tuple):
            return '%s: %s' % (c, a[1])
        f = c.split()
        T = f[0].split('_')[1]
        p = FT[T]
        codes = [int(x, 16) for x in f[1].split(',')]
        bits, st, end, calls, ok, err, heap = parse_answer(a)
        if not calls and f[0].startswith('fbk'):
            return None
        if not ok:
            return '%s: the fallback is not called with the arguments of atof' % c[:200]
        if f[0].startswith('atof'):
            want, ws = native_value(T, codes)
            return None if (bits, st) == (want, ws) and end == native_prefix(codes) else \
                '%s: gives %x with status %d and %d characters, the C library gives %x' % (c[:200], bits, st, end, want)
        if calls > 1:
            return '%s: the fallback is called %d times' % (c[:200], calls)
        ret, e1 = int(f[3], 16), int(f[4])
        mag = ret & ((1 << (p['w'] - 1)) - 1)
        inf = p['emax'] << p['mb']
        want = SUCCESS if e1 != ERANGE else OVERFLOW if mag == inf else UNDERFLOW if mag == 0 else SUCCESS
        if bits != ret and not (mag > inf and (bits & ((1 << (p['w'] - 1)) - 1)) > inf):
            return '%s: gives %x, the fallback returned %x' % (c[:200], bits, ret)
        if end != 3:
            return '%s: the end pointer set by the fallback is changed (%d)' % (c[:200], end)
        if st != want:
            return '%s: fallback returned %x with errno %d, status %d instead of %d' % (c[:200], ret, e1, st, want)
        return None


class C19(ParseCheck):
    """the fallback is reserved for close calls"""
    id = 'C19'
    # distance from the middle of two adjacent values, in units in the last place
    LIMIT = {'d': Fraction(1, 64), 'f': Fraction(1, 8)}

    def tasks(self, tier, rng):
        out = []
        q = tier == 'quick'
        for T, lo, hi, step in (('d', -285, 308, 4 if q else 1), ('f', -36, 38, 1)):
            n0 = KAPPA[T]
            off = rng.randrange(step)
            for p in range(lo, hi):
                if (p - off) % step and lo + 5 < p < hi - 8:
                    continue
                for n in (n0, rng.randrange(n0 - 3, n0), rng.randrange(1, n0 - 3)) if q else (n0, n0 - 1, n0 - 2, n0 - 3, n0 // 2, 2, 1):
                    d = ['#'] * n
                    out.append(('num', T, 'c', tuple(spelling(rng, d, p))))
                if p % 5 == 0:
                    d = ['#'] * n0 + list(rng.choice(('1', '9', '37', '99999')))
                    out.append(('num', T, 'c', tuple(spelling(rng, d, p))))
            for d, p in close_calls(rng, T, 40 if q else 600):
                if lo <= p < hi:
                    out.append(('num', T, 'c', tuple(spelling(rng, d, p))))
        rng.shuffle(out)
        return out

    def bounds_text(self):
        return ('texts of 1..19 (float: 1..9) non-zero digits (three lengths an exponent, thorough: seven), and with some more, and the last digits of texts around the middles of 50 (610) pairs of adjacent values, at %s decimal exponent of the normalized range; the fallback may only be called when '
                'the exact value is within 1/64 (float: 1/8) unit in the last place of the middle of two adjacent values' % ('one in four (double; the ends all)' if self.tier == 'quick' else 'every'))

    def run_task(self, E, t):
        T, C, shape = t[1:4]
        st = sx.State()
        vals = chars(E, st, shape)
        ref = reference(shape, vals)
        self.ref = ref
        self.task = t
        kinds = self.kinds = {}
        self.start(E, st, T, C, vals)

        def done(E, st):
            kinds['no fallback'] = kinds.get('no fallback', 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'text': ''.join(shape), 'paths': E.stats['paths'], 'outcomes': kinds})

    def fallback(self, E, st, a):
        E.ensure()
        t, ref = self.task, self.ref
        T = t[1]
        p = FT[T]
        lim = self.LIMIT[T]
        # binade of the value: 2^b <= X < 2^(b+1)
        lo, hi = E.rnglin(st, ref.D)
        ten = Fraction(10) ** ref.K
        b = (Fraction(lo) * ten)
        b = b.numerator.bit_length() - b.denominator.bit_length() - 1
        while True:
            d = cmp_scaled(ref.D, ref.K, 0, Lin(1, ()), 0, b + 1)
            if E.decide(st, lt(d)):
                break
            b += 1
        q = max(b - p['mb'], 1 - p['bias'])         # exponent of the unit in the last place
        # candidates for the integer below the value in units: quotients computed on this path
        seen = set()
        cands = []
        for k, v in st.splits.items():
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Lin):
                l = v[0]
                if l.t and l not in seen:
                    seen.add(l)
                    cands.append(l)
        E.stats['obligations'] += 1
        scale = ten / Fraction(2) ** q
        xlo, xhi = Fraction(lo) * scale, Fraction(hi) * scale
        if xhi - xlo < 2:
            cands += [Lin(x, ()) for x in range(int(xlo) - 1, int(xhi) + 1)]
        for l in reversed(cands):
            a, z = E.rnglin(st, l)
            if a is None or z is None or z < xlo - 2 or a > xhi + 2:
                continue
            # |X - (l + 1/2)*2^q| <= lim*2^q
            L2 = Lin(2 * l.c + 1, tuple((v, 2 * k) for v, k in l.t))
            f = lim.denominator
            # f*2*X <= (f*(2l+1) + 2*lim*f) * 2^q
            r = int(2 * lim * f)
            up = cmp_scaled(lin_scale(ref.D, 2 * f), ref.K, 0, lin_add(lin_scale(L2, f), Lin(r, ())), 0, q)
            dn = cmp_scaled(lin_scale(ref.D, 2 * f), ref.K, 0, lin_add(lin_scale(L2, f), Lin(-r, ())), 0, q)
            if not E.maybe(c_not(c_le(up))) and not E.maybe(c_not(c_le(neg(dn)))):
                self.kinds['fallback for a close call'] = self.kinds.get('fallback for a close call', 0) + 1
                raise PathDone()
        raise Violation('property', 'the fallback is called for a value that is not close to the middle of two adjacent ones')

    def judge1(self, name, T, codes, a):
        bits, st, end, calls, ok, err, heap = a
        if not calls:
            return None
        n = native_prefix(codes)
        s = ''.join(chr(c) for c in codes[:n]).lstrip('+-')
        m = re.match(r'(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?', s)
        X = Fraction(int(m.group(1) + m.group(2))) * Fraction(10) ** (int(m.group(3) or 0) - len(m.group(2)))
        p = FT[T]
        b = X.numerator.bit_length() - X.denominator.bit_length() - 1
        while Fraction(2) ** (b + 1) <= X:
            b += 1
        q = max(b - p['mb'], 1 - p['bias'])
        u = X / Fraction(2) ** q
        d = abs(u - int(u) - Fraction(1, 2))
        if d > self.LIMIT[T]:
            return 'uses the fallback although the value is %.5f units in the last place away from the middle of two adjacent values' % float(d)
        return None


# ------------------------------------------------------------------ two calls compared
class Pair(ParseCheck):
    tus = ('pair',)
    OUT = {'d': (8, 9, 16, 24), 'f': (4, 5, 8, 16)}       # offsets: status end, size of struct
    what = ''

    def setup_engine(self, E):
        ParseCheck.setup_engine(self, E)
        E.hooks['vp_between'] = self.between

    def between(self, E, st, a):
        st.user['second'] = True
        return None

    def fallback(self, E, st, a):
        """both calls must use the fallback or none; what it returns does not matter"""
        E.ensure()
        k = 'fb2' if st.user.get('second') else 'fb1'
        st.user[k] = st.user.get(k, 0) + 1
        E.write(st, a[1], 8, a[0]) if a[1] != 0 else None
        return FPV(0x3ff0000000000000 if self.curT == 'd' else 0x3f800000, FT[self.curT]['w'])

    def setup(self, E, st, t):
        raise NotImplementedError

    def run_task(self, E, t):
        self.curT = T = t[1]
        st = sx.State()
        a = E.alloc(st, 24 if T == 'd' else 16, 'heap', 'out')
        b = E.alloc(st, 24 if T == 'd' else 16, 'heap', 'out2')
        self.setup(E, st, t, a, b)
        kinds = {}

        def done(E, st):
            k = self.verify2(E, st, t, a, b)
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'task': ''.join(str(c) if isinstance(c, str) else '?' for c in t[3])[-50:], 'paths': E.stats['paths'], 'outcomes': kinds})

    def out(self, E, st, o, T):
        w = FT[T]['w'] // 8
        v = E.read(st, o, w)
        ss = E.read(st, o + w, 1)
        c = E.read(st, o + 2 * w if T == 'd' else o + 8, 8)
        if v is UNDEF or ss is UNDEF or c is UNDEF:
            raise Violation('property', 'part of the result is never set')
        return (v.b if isinstance(v, FPV) else v), ss, c

    def verify2(self, E, st, t, a, b):
        T = t[1]
        E.stats['obligations'] += 1
        if st.user.get('fb1', 0) != st.user.get('fb2', 0):
            raise Violation('property', self.what + ': only one of the two calls uses the fallback')
        if st.user.get('fb1'):
            return 'both use the fallback'
        x = self.out(E, st, a, T)
        y = self.out(E, st, b, T)
        return self.compare2(E, st, t, x, y)

    def eq(self, E, st, x, y, what, off=0):
        E.stats['obligations'] += 1
        d = lin_add(lin_add(LIN(x), Lin(off, ())), LIN(y), -1)
        if d.t or d.c:
            E.prove(st, c_eq(d), '%s: %s differs' % (self.what, what))

    def validate(self, drv):
        pass

    def judge(self, cmds, answers, task):
        for c, a in zip(cmds, answers):
            if isinstance(a, tuple):
                return '%s: %s' % (c[:300], a[1])
        codes = []
        for c in cmds:
            f = c.split()
            codes.append([] if f[1] == '-' else [int(x, 16) for x in f[1].split(',')])
        A = [parse_answer(a) for a in answers]
        w = self.judge2(task, codes, A)
        return '%s: %s' % (' / '.join(c[:200] for c in cmds), w) if w else None


def nanless(T, b):
    p = FT[T]
    m = b & ((1 << (p['w'] - 1)) - 1)
    return 'nan' if m > p['emax'] << p['mb'] else b


NUMS = [('#' * 19, 0), ('#' * 17, -20), ('#' * 9, 5), ('####', -3), ('#' * 19 + '5', 30), ('#' * 12, -320), ('##', 307), ('#%%#', 12), ('#' * 19, -330), ('###', 400)]


def some_shapes(rng, count, T, signs=True):
    out = []
    for i in range(count):
        n = rng.choice((1, 3, 6, 9, 12, 15, 17, 18, 19, 20)) if T == 'd' else rng.choice((1, 3, 5, 7, 8, 9, 10))
        d = ['#' if k in (0, n - 1) or rng.random() < .8 else '0' for k in range(n)]
        p = rng.randrange(-335, 315) if T == 'd' else rng.randrange(-52, 42)
        if i % 3 == 0:
            out.append(tuple(number_shape(d, rng.randrange(1, n + 1), p - n + 1)))
            continue
        if i % 3 == 1:
            p = rng.randrange(-8, 25)
        x = spelling(rng, d, p)
        out.append(tuple(x[1:] if x[0] in '-+' and not signs else x))
    long = [tuple(x) for x in long_numbers(rng, T, 'quick')]
    return out + rng.sample(long, max(3, min(len(long), count // 5)))


TXT = ['???', '1???', '.???', '1e???', 'n???', 'nan(??', 'inf???', '0???', '12.5??', '0.00?', '']
