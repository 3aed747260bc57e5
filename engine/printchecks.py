"""Checks of the printing side."""
import random
import sx
from sx import Sym, Lin, FPV, UNDEF, Violation, c_le, c_eq, c_and, c_or, c_not, lin_add, lin_scale, LIN
from base import Check
from printing import *

SPECIAL = {'nan': 'nan', '-nan': 'nan', 'inf': 'inf', '-inf': '-inf', '0': '0', '-0': '0'}


def hexbits(b):
    return '%x' % b


class PrintCheck(Check):
    tus = ('print',)
    slack = True            # the buffer is larger than needed: bounds are another property's business
    relational = False

    # tasks: ('num', T, C, s, e, lo, hi) or ('sp', T, C, name)
    def num_tasks(self, T, C, exps, sign=None, win=None, every=1):
        """whole mantissa for the given exponents; with win: a window of 2^win mantissas at a random place for
        the others (one in `every`), and their first and last mantissa"""
        r = [('num', T, C) + t[1:] for t in finite_tasks(T, exps, sign)]
        if win is None or self.tier == 'thorough' and len(exps) == FT[T]['emax']:
            return r
        Check.window_note = ('; at the exponents left out: a window of 2^2..2^20 mantissas at a random place, the first and the last mantissa '
                             '(one exponent in 2..8 for some character types)')
        top = (1 << FT[T]['mb']) - 1
        done = set(exps)
        for e in range(1, FT[T]['emax']):
            s = sign if sign is not None else (e + 1) & 1
            for x in (s,) if sign is not None else (0, 1):
                if x == s or every == 1:
                    r.append(('num', T, C, x, e, 0, 0))
            if e in done or e % every:
                continue
            lo = self.rng.randrange(1, top - (1 << win))
            r.append(('num', T, C, s, e, lo, lo + (1 << win) - 1))
            r.append(('num', T, C, s, e, top, top))
        return r

    def lay_tasks(self, T, C, every=1):
        """the layout step on symbolic digits: every number of digits and every power of ten there is (one in `every`)"""
        r = []
        n, lo, hi = {'d': (17, -323, 309), 'f': (9, -44, 39)}[T]
        for j in range(1, n + 1):
            ks = list(range(lo - j, hi - j + 1))
            if every > 1:
                o = self.rng.randrange(every)
                ks = [k for i, k in enumerate(ks) if i % every == o or -20 < k < 20 or i in (0, len(ks) - 1)]
            # few of the chunks take most of the cases near the change of the notation
            r += [('lay', T, C, j, tuple(ks[i:i + 40])) for i in range(0, len(ks), 40)]
        return r

    def lay_all(self, q):
        return self.lay_tasks('d', 'c') + self.lay_tasks('f', 'c') + self.lay_tasks('d', 'w', 8 if q else 1) + self.lay_tasks('f', 'w', 8 if q else 1)

    def lay_text(self):
        return ('; the layout step (prettify) on its own, before replay on ftoa(): symbolic digits, every number of them (1..17, 1..9) and power of ten (wchar_t: one power in 8 in quick)')

    def sp_tasks(self, T, C, names=SPECIAL):
        return [('sp', T, C, n) for n in names]

    def exps(self, T, step, extra=()):
        """seeded choice of biased exponents: all residues over different seeds, ends always included"""
        n = FT[T]['emax']
        if step == 1:
            r = list(range(n))
        else:
            off = self.rng.randrange(step)
            r = sorted(set(list(range(off, n, step)) + [0, 1, 2, n - 2, n - 1] + [x for x in extra if 0 <= x < n]))
        self.rng.shuffle(r)
        return r

    def tu_of(self, t):
        return 'layout' if t[0] == 'lay' else 'print16' if t[2] in 'uv' else 'print'

    def bufsize(self, E, T):
        return 200 if self.slack else FT[T]['buf']

    def value(self, E, st, t):
        if t[0] == 'sp':
            return special_value(E, st, t[1], t[3])
        return sym_value(E, st, (t[1],) + t[3:])

    def call(self, E, st, t, v):
        """pushes the call under test; returns the addresses to look at"""
        w = CH[t[2]]
        buf = E.alloc(st, self.bufsize(E, t[1]) * w, 'heap', 'buf')
        E.push_call(st, 'h_ftoa_%s_%s' % (t[1], t[2]), [v, buf])
        return buf

    def run_lay(self, E, t):
        _, T, C, n, ks = t
        w = CH[C]
        forms = {}
        for k in ks:
            keep = E.violations, E.inconclusive
            E.reset()
            E.violations, E.inconclusive = keep
            st = sx.State()
            size = self.bufsize(E, T)
            if size < n + 2:
                continue
            buf = E.alloc(st, size * w, 'heap', 'buf')
            ds = [E.var(st, 1 if i in (0, n - 1) else 0, 9, 'd%d' % i) for i in range(n)]
            D = Lin(0, ())
            E.write(st, buf, w, 45)
            for i, d in enumerate(ds):
                D = lin_add(lin_scale(D, 10), LIN(d))
                E.write(st, buf + (i + 1) * w, w, E.mk(st, lin_add(LIN(d), Lin(48, ())), 48, 57))
            st.user['inputs'] = [('D', D), ('k', k)]
            st.user['lay'] = (D, k)
            E.push_call(st, 'h_lay_' + C, [buf + w, n, k])

            def done(E, st):
                st.ret = st.ret + 1 if isinstance(st.ret, int) else E.mk(st, lin_add(st.ret.l, Lin(1, ())), st.ret.lo + 1, st.ret.hi + 1)
                f = self.verify(E, st, ('lay', T, C, 1), buf)
                if f is not None:
                    forms['layout ' + f] = forms.get('layout ' + f, 0) + 1
            E.explore(st, done)
        for f in forms:
            self.hit(f, forms[f])

    def lay_cmds(self, t, D, k):
        """values with that many digits at that place: the digits found and some others"""
        # where many such findings are not reproduced the step means something else in this tree
        self.lay_tried = getattr(self, 'lay_tried', 0) + 1
        if self.lay_tried > 40:
            return []
        r = []
        rng = random.Random(D * 1009 + k)
        n = t[3]
        for i in range(16):
            X = Fraction(D) * Fraction(10) ** k
            b = round_nearest(t[1], X)
            if 0 < b < FT[t[1]]['emax'] << FT[t[1]]['mb']:
                r += self.cmds_of(t, b | 1 << (FT[t[1]]['w'] - 1))
            D = rng.randrange(10 ** (n - 1), 10 ** n)
            D -= D % 10 - rng.randrange(1, 10)
        return r

    def run_task(self, E, t):
        if t[0] == 'lay':
            self.run_lay(E, t)
            return
        st = sx.State()
        v = self.value(E, st, t)
        addr = self.call(E, st, t, v)
        forms = {}
        tok = object()

        def done(E, st):
            f = self.verify(E, st, t, addr)
            if f is not None:
                forms[f] = forms.get(f, 0) + 1
        E.explore(st, done)
        for f in forms:
            self.hit(f, forms[f])
        self.samples.append({'task': repr(t), 'paths': E.stats['paths'], 'forms': dict(list(forms.items())[:8])})

    def cmds_of(self, t, b):
        return ['ftoa_%s_%s %s' % (t[1], t[2], hexbits(b))]

    def replay_cmds(self, rec, t):
        if t[0] == 'lay':
            return self.lay_cmds(t, rec['inputs']['D'], rec['inputs']['k'])
        return self.cmds_of(t, rec['inputs']['bits'])

    def judge(self, cmds, answers, task):
        for c, a in zip(cmds, answers):
            name, arg = c.split()[:2]
            if isinstance(a, tuple):
                return '%s: %s' % (c, a[1])
            w = self.judge1(name, name.split('_')[1], int(arg, 16), a)
            if w:
                return '%s (%s of bits %s): %s' % (c, 'double' if name.split('_')[1] == 'd' else 'float', arg, w)
        return None

    def validation(self, rng):
        out = []
        for i in range(12):
            for T in 'df':
                p = FT[T]
                if i == 0:
                    b = 1
                elif i == 1:
                    b = (p['emax'] << p['mb']) - 1
                else:
                    b = rng.getrandbits(p['w'])
                    if i < 7 and kind_of_bits(T, b) == 'num':
                        # values with short decimal forms
                        b = round_nearest(T, Fraction(rng.randrange(1, 100000)) * Fraction(10) ** rng.randrange(-9, 17))
                out.append(('ftoa_%s_c %s' % (T, hexbits(b)), lambda T=T, b=b: self.concrete(T, b)))
        return out

    def concrete(self, T, b):
        E = self.engine('print')
        st = sx.State()
        buf = E.alloc(st, 200, 'heap', 'buf')
        E.push_call(st, 'h_ftoa_%s_c' % T, [FPV(b, FT[T]['w']), buf])
        res = []
        E.explore(st, lambda E, st: res.append((st.ret, [E.read(st, buf + i, 1) for i in range(60)])))
        n, cs = res[0]
        z = next(i for i in range(60) if cs[i] == 0)
        return '%d %d 0 %s' % (n, z, ','.join('%x' % c for c in cs[:z]))

    outside = ('exponents not listed in the bounds of the tier (quick tiers of some properties stride over the exponents with an offset chosen by '
               'VERIF_SEED); long double and other float types; locales other than "C"')


def form(num, cs):
    return '%d.%d%s' % (len(num.ip), len(num.fp), 'e%s%d' % ('-' if num.eneg else '', num.edigits) if num.exp is not None else '')


class Rounding(PrintCheck):
    """C01 / C02"""
    optional = ('layout',)
    T = 'd'
    step = {'quick': 16, 'thorough': 1}

    def tasks(self, tier, rng):
        r = self.num_tasks(self.T, 'c', self.exps(self.T, self.step[tier]), None, 20 if self.T == 'd' else None)
        if tier == 'thorough':
            r = [t for t in r] + [t[:3] + (1 - t[3],) + t[4:] for t in r]
        return self.lay_tasks(self.T, 'c') + r

    def bounds_text(self):
        return self.lay_text()[2:] + '; ' + ('every finite non-zero %s of %s biased exponents 0..%d with the whole mantissa symbolic (denormals split by bit length); %s'
                % ('double' if self.T == 'd' else 'float', 'all' if self.step[self.tier] == 1 else 'one in %d and the extreme' % self.step[self.tier],
                   FT[self.T]['emax'] - 1,
                   'both signs' if self.tier == 'thorough' else 'the sign alternates with the exponent (C14 relates the signs)'))

    def verify(self, E, st, t, buf):
        cs = text(E, st, buf, 1)
        num = parse_number(E, st, cs)
        if num.neg != bool(t[3]):
            raise Violation('property', 'wrong sign')
        if t[0] == 'lay':
            D, k = st.user['lay']
            E.prove(st, c_eq(cmp_scaled(num.D, num.k, 0, D, k, 0)), 'the text is not the number with these digits')
            return form(num, cs)
        in_rounding_interval(E, st, (t[1],) + t[3:], st.user['m'], num)
        return form(num, cs)

    def judge1(self, name, T, b, a):
        if kind_of_bits(T, b) != 'num':
            return None
        n, z, over, codes = parse_answer(a)
        s = native_text(codes)
        m = NUM.match(s)
        if not m:
            return 'prints %r, which is not a number' % s
        p = FT[T]
        mag = b & ((1 << (p['w'] - 1)) - 1)
        if (m.group(1) == '-') != bool(b >> (p['w'] - 1)):
            return 'prints %r: wrong sign' % s
        if round_nearest(T, exact(m)) != mag:
            return 'prints %r, which does not round back to the value' % s
        return None


class C01(Rounding):
    id = 'C01'
    T = 'd'


class C02(Rounding):
    id = 'C02'
    T = 'f'
    step = {'quick': 1, 'thorough': 1}


class C03(PrintCheck):
    """well-formed text, terminator, returned length, specials"""
    optional = ('layout',)
    id = 'C03'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        r = []
        for T in 'df':
            for C in 'cw':
                r += self.sp_tasks(T, C)
        r += self.num_tasks('d', 'c', self.exps('d', 4 if q else 1, range(960, 1100)), None, 8)
        r += self.num_tasks('d', 'w', self.exps('d', 64 if q else 4), None, 4, 8)
        r += self.num_tasks('f', 'c', self.exps('f', 2 if q else 1), None, 6)
        r += self.num_tasks('f', 'w', self.exps('f', 16 if q else 2), None, 4)
        return self.lay_all(q) + r

    def bounds_text(self):
        return ('whole mantissa symbolic for every biased exponent explored: double/char all (thorough) or one in four plus 960..1099 and the ends (quick), '
                'double/wchar_t one in 4 / 64, float/char all / one in 2, float/wchar_t one in 2 / 16; all NaN payloads, infinities and zeros of both signs' + self.lay_text())

    def verify(self, E, st, t, buf):
        w = CH[t[2]]
        cs = text(E, st, buf, w)
        if isinstance(st.ret, Sym):
            E.prove(st, c_eq(Lin(st.ret.l.c - len(cs), st.ret.l.t)), 'the returned length is not the position of the terminator')
        elif st.ret != len(cs):
            raise Violation('property', 'returned length %d, terminator at %d' % (st.ret, len(cs)))
        if t[0] == 'sp':
            s = ''.join(chr(c) if isinstance(c, int) else '?' for c in cs)
            E.stats['obligations'] += 1
            if s != SPECIAL[t[3]]:
                raise Violation('property', 'special value printed as %r' % s)
            return 'special ' + s
        num = parse_number(E, st, cs)
        if num.neg != bool(t[3]):
            raise Violation('property', 'wrong sign')
        if len(num.ip) > 1:
            d = num.ip[0]
            E.prove(st, c_le(Lin(1 - d.c, lin_scale(d, -1).t)), 'integer part starts with a zero')
        if num.exp is not None:
            if len(num.ip) != 1:
                raise Violation('property', 'more than one digit before the point of an exponential form')
            d = num.ip[0]
            E.prove(st, c_le(Lin(1 - d.c, lin_scale(d, -1).t)), 'exponential form starts with a zero')
            if num.edigits not in (2, 3) or (num.edigits == 3 and abs(num.exp) < 100):
                raise Violation('property', 'exponent has %d digits' % num.edigits)
        return form(num, cs)

    def judge1(self, name, T, b, a):
        n, z, over, codes = parse_answer(a)
        s = native_text(codes)
        k = kind_of_bits(T, b)
        neg = bool(b >> (FT[T]['w'] - 1))
        if n != z:
            return 'prints %r with the terminator at %d, but returns the length %d' % (s, z, n)
        if k != 'num':
            want = {'nan': 'nan', 'inf': '-inf' if neg else 'inf', 'zero': '0'}[k]
            return None if s == want else 'prints %r instead of %r' % (s, want)
        if not re.match(r'-?(0|[1-9]\d*)(\.\d+)?\Z|-?[1-9](\.\d+)?e-?(\d\d|[1-9]\d\d)\Z', s):
            return 'prints malformed text %r' % s
        if (s[0] == '-') != neg:
            return 'prints %r: wrong sign' % s
        return None


class C04(PrintCheck):
    """buffer bound"""
    optional = ('layout',)
    id = 'C04'
    slack = False

    def bufsize(self, E, T):
        n = self.maxbuf.get(T)
        if n is None:
            st = sx.State()
            E.push_call(st, 'h_max_%s' % T, [])
            r = []
            E.explore(st, lambda E, st: r.append(st.ret))
            n = self.maxbuf[T] = r[0]
        return n

    def tasks(self, tier, rng):
        self.maxbuf = {}
        q = tier == 'quick'
        r = []
        for T in 'df':
            for C in 'cw':
                r += self.sp_tasks(T, C)
        r += self.num_tasks('d', 'c', self.exps('d', 4 if q else 1, range(960, 1100)), 1, 8)
        r += self.num_tasks('d', 'w', self.exps('d', 64 if q else 4), 1, 4, 8)
        r += self.num_tasks('f', 'c', self.exps('f', 2 if q else 1), 1, 6)
        r += self.num_tasks('f', 'w', self.exps('f', 16 if q else 2), 1, 4)
        return self.lay_all(q) + r

    def run_task(self, E, t):
        self.bufsize(E, t[1])
        PrintCheck.run_task(self, E, t)

    def bounds_text(self):
        return ('buffer of exactly max_buffer_size<F>() characters; negative values (one character longer) with the whole mantissa symbolic for every biased '
                'exponent explored: double/char all (thorough) or one in four plus 960..1099 and the ends (quick), double/wchar_t one in 4 / 64, float/char all / '
                'one in 2, float/wchar_t one in 2 / 16; NaNs, infinities and zeros' + self.lay_text())

    def verify(self, E, st, t, buf):
        E.stats['obligations'] += 1
        cs = text(E, st, buf, CH[t[2]])
        return 'length %d of %d' % (len(cs) + 1, self.bufsize(E, t[1]))

    def judge1(self, name, T, b, a):
        n, z, over, codes = parse_answer(a)
        if over:
            return 'writes past the first max_buffer_size<>() characters of the buffer'
        return None


class C05(PrintCheck):
    """digit economy"""
    optional = ('layout',)
    id = 'C05'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        return (self.lay_tasks('d', 'c') + self.lay_tasks('f', 'c') +
                self.num_tasks('d', 'c', self.exps('d', 4 if q else 1, range(960, 1100)), None, 10) + self.num_tasks('f', 'c', self.exps('f', 1)))

    def bounds_text(self):
        return ('whole mantissa symbolic; double: all biased exponents (thorough) or one in four plus 960..1099 and the ends (quick); float: all' + self.lay_text())

    def verify(self, E, st, t, buf):
        cs = text(E, st, buf, 1)
        num = parse_number(E, st, cs)
        lim = 17 if t[1] == 'd' else 9
        ds = num.ip + num.fp
        nz = lambda d: c_or([c_le(Lin(1 - d.c, lin_scale(d, -1).t)), c_le(Lin(d.c + 1, d.t))])
        if num.fp:
            E.prove(st, nz(num.fp[-1]), 'the fraction ends with a zero')
        # significant digits: from the first to the last non-zero one
        i = 0
        while i < len(ds) and not ds[i].t and ds[i].c == 0:
            i += 1
        j = len(ds)
        while j > i and not ds[j - 1].t and ds[j - 1].c == 0:
            j -= 1
        E.stats['obligations'] += 1
        if j - i > lim:
            # more digits than needed unless the surplus ones are zeros
            conds = []
            for a in range(j - i - lim + 1):
                conds.append(c_and([c_eq(d) for d in ds[i:i + a] + ds[i + a + lim:j]]))
            E.prove(st, c_or(conds), 'more than %d significant digits' % lim)
        return '%d digits' % (j - i)

    def judge1(self, name, T, b, a):
        if kind_of_bits(T, b) != 'num':
            return None
        n, z, over, codes = parse_answer(a)
        s = native_text(codes)
        m = NUM.match(s)
        if not m:
            return None
        if (m.group(3) or '1')[-1] == '0':
            return 'prints %r: the fraction ends with a zero' % s
        if len((m.group(2) + (m.group(3) or '')).strip('0')) > (17 if T == 'd' else 9):
            return 'prints %r: more significant digits than %d' % (s, 17 if T == 'd' else 9)
        return None


class C20(PrintCheck):
    """notation"""
    optional = ('layout',)
    id = 'C20'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        return (self.lay_tasks('d', 'c') + self.lay_tasks('f', 'c') +
                self.num_tasks('d', 'c', self.exps('d', 8 if q else 1, range(950, 1110)), None, 10) +
                self.num_tasks('f', 'c', self.exps('f', 2 if q else 1, range(60, 190)), None, 6))

    def bounds_text(self):
        return ('whole mantissa symbolic; double: all biased exponents (thorough) or 950..1109, one in eight elsewhere and the ends (quick); '
                'float: all (thorough) or 60..189, one in two elsewhere (quick)' + self.lay_text())

    def verify(self, E, st, t, buf):
        cs = text(E, st, buf, 1)
        num = parse_number(E, st, cs)
        E.stats['obligations'] += 1
        if num.exp is None:
            il = len(num.ip)
            if il > 16 or len(num.fp) > 16:
                raise Violation('property', 'decimal form with %d integer and %d fraction digits' % (il, len(num.fp)))
        else:
            nd = 1 + len(num.fp)
            dot = num.exp + 1
            k = dot - nd
            E.stats['obligations'] += 2
            if len(num.ip) != 1:
                raise Violation('property', 'exponential form with %d digits before the point' % len(num.ip))
            if num.edigits != max(2, len(str(abs(num.exp)))):
                raise Violation('property', 'exponent %d written with %d digits' % (num.exp, num.edigits))
            d = LIN(num.ip[0])
            E.prove(st, c_le(Lin(1 - d.c, lin_scale(d, -1).t)), 'exponential form with a zero before the point')
            if max(dot, -k) <= 16:
                # trailing zeros of the digits do not count
                raise Violation('property', 'exponential form where the decimal one takes at most 16 digits on either side')
        return ('exponential ' if num.exp is not None else 'decimal ') + form(num, cs)

    def judge1(self, name, T, b, a):
        if kind_of_bits(T, b) != 'num':
            return None
        n, z, over, codes = parse_answer(a)
        s = native_text(codes)
        m = NUM.match(s)
        if not m:
            return None
        if m.group(5) is None:
            if len(m.group(2)) > 16 or len(m.group(3) or '') > 16:
                return 'prints %r in decimal form with more than 16 digits on one side of the point' % s
        else:
            x = int(m.group(5)) * (-1 if m.group(4) else 1)
            nd = 1 + len(m.group(3) or '')
            if len(m.group(2)) != 1 or m.group(2) == '0':
                return 'prints %r: not one non-zero digit before the point of the exponential form' % s
            if len(m.group(5)) != max(2, len(str(abs(x)))):
                return 'prints %r: %d exponent digits' % (s, len(m.group(5)))
            if max(x + 1, nd - x - 1) <= 16:
                return 'prints %r in exponential form although the decimal form has at most 16 digits on either side of the point' % s
        return None


class Relational(PrintCheck):
    """two texts of one run compared character by character"""

    def verify(self, E, st, t, addr):
        a, b, n, w = addr
        x = text(E, st, a, self.wa(t))
        y = text(E, st, b, w) if not self.counted else None
        n0 = E.read(st, n, 8)
        n1 = E.read(st, n + 8, 8)
        if isinstance(n0, Sym):
            n0 = E.concretize(st, n0)
        if isinstance(n1, Sym):
            n1 = E.concretize(st, n1)
        if y is None:
            y = [E.read(st, b + i * w, w) for i in range(min(n1, 100))]
        self.compare(E, st, t, x, y, n0, n1)
        return '%d characters' % len(x)

    counted = False

    def wa(self, t):
        return 1

    def same(self, E, st, x, y, what):
        for i in range(len(x)):
            E.stats['obligations'] += 1
            if x[i] is UNDEF or y[i] is UNDEF:
                raise Violation('property', '%s: character %d was never written' % (what, i))
            p = LIN(x[i])
            q = LIN(y[i])
            if p != q:
                E.prove(st, c_eq(lin_add(p, q, -1)), '%s: character %d differs' % (what, i))

    def compare(self, E, st, t, x, y, n0, n1):
        E.stats['obligations'] += 1
        if n0 != n1 or len(x) != len(y):
            raise Violation('property', 'lengths differ: %s %s, %d %d' % (n0, n1, len(x), len(y)))
        self.same(E, st, x, y, self.what)


def split_two(a):
    f = a.split()
    g = lambda s: [] if s == '-' else [int(x, 16) for x in s.split(',')]
    return int(f[0]), int(f[1]), g(f[2]), g(f[3])


class C26(PrintCheck):
    """no superfluous digit"""
    id = 'C26'
    eps = {'d': 8, 'f': 5}          # the interval is narrowed by 2^-eps of a unit
    least = {'d': 33, 'f': 17}      # denormalized values: from this significand bit on

    def tasks(self, tier, rng):
        q = tier == 'quick'
        r = (self.num_tasks('d', 'c', self.exps('d', 16 if q else 1, range(1020, 1060) if q else ()), None, 14) + self.num_tasks('f', 'c', self.exps('f', 1)))
        return [t for t in r if t[4] or t[5] >> self.least[t[1]]]

    def bounds_text(self):
        return ('whole mantissa symbolic; double: all biased exponents (thorough) or one in 16, 1020..1059 and the ends (quick); float: all; denormalized values from 2^-1041 (2^-132)')

    def verify(self, E, st, t, buf):
        num = parse_number(E, st, text(E, st, buf, 1))
        T, s, e, lo, hi = (t[1],) + t[3:]
        p = FT[T]
        ds = num.ip + num.fp
        k = num.k
        # zeros that are there on every path are no digits of the number
        while len(ds) > 1 and not ds[-1].t and ds[-1].c == 0:
            ds = ds[:-1]
            k += 1
        i = 0
        while i < len(ds) and not ds[i].t and ds[i].c == 0:
            i += 1
        if len(ds) - i < 2:
            return 'one digit'
        Q = Lin(0, ())
        for d in ds[:-1]:
            Q = lin_add(lin_scale(Q, 10), d)
        n = self.eps[T]
        M = lin_add(LIN(st.user['m']), Lin((1 << p['mb']) if e else 0, ()))
        e2 = (e if e else 1) - p['bias'] - n
        edge = lambda x: Lin((M.c << n) + x, tuple((v, y << n) for v, y in M.t))
        half = (1 << (n - 1)) - 1
        E.stats['obligations'] += 2
        E.prove(st, lt(cmp_scaled(edge(half), 0, e2, lin_add(Q, Lin(1, ())), k + 1, 0)), 'the last digit is superfluous: the number rounded up there identifies the value')
        down = lambda x: lt(cmp_scaled(Q, k + 1, 0, edge(-x), 0, e2))
        c = down(half)
        if lo == 0 and e > 1 and (c is False or c is not True and E.maybe(c_not(c))):
            # a power of two: the lower half of the interval is half as wide
            if not hi or E.decide(st, c_eq(LIN(st.user['m']))):
                c = down((1 << (n - 2)) - 1)
        E.prove(st, c, 'the last digit is superfluous: the number without it identifies the value')
        return '%d digits' % (len(ds) - i)

    def judge1(self, name, T, b, a):
        if kind_of_bits(T, b) != 'num':
            return None
        n, z, over, codes = parse_answer(a)
        s = native_text(codes)
        m = NUM.match(s)
        p = FT[T]
        b &= (1 << (p['w'] - 1)) - 1
        if not m or b >> self.least[T] == 0:
            return None
        v = value_of_bits(T, b)
        u = value_of_bits(T, b + 1) - v if b + 1 < p['emax'] << p['mb'] else v - value_of_bits(T, b - 1)
        low = u / 4 if b & ((1 << p['mb']) - 1) == 0 and b >> p['mb'] > 1 else u / 2
        eps = u / (1 << self.eps[T])
        ds = (m.group(2) + (m.group(3) or '')).lstrip('0')
        k = (int(m.group(5)) * (-1 if m.group(4) else 1) if m.group(5) else 0) - len(m.group(3) or '')
        z = ds.rstrip('0')
        if len(z) < 2:
            return None
        q = int(z) // 10
        step = Fraction(10) ** (k + len(ds) - len(z) + 1)
        for x in (q, q + 1):
            if v - low + eps <= x * step <= v + u / 2 - eps:
                return 'prints %r, although %d * 10^%d identifies the value' % (s, x, k + len(ds) - len(z) + 1)
        return None
