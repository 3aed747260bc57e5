"""Properties that relate two runs, and properties with both a printing and a parsing side."""
import random
import sx
from sx import Sym, Lin, FPV, UNDEF, Violation, PathDone, c_le, c_eq, c_and, c_or, c_not, lin_add, lin_scale, LIN
import printchecks, parsechecks
from base import Check
from printing import *
import printing, parsing
from parsing import chars, put, codes_of, hexcodes, parse_answer as pans, native_prefix, native_value
from parsechecks import Pair, some_shapes, TXT, ANY, nanless, number_shape, KAPPA, Texts, ParseCheck
from printchecks import Relational, PrintCheck, split_two


class Mixed(Check):
    """tasks ('print', part, ...) and ('parse', part, ...) dispatched to two checks"""
    parts = {}

    def __init__(self, tier, seed):
        Check.__init__(self, tier, seed)
        self.sub = {}
        for k, c in self.parts.items():
            s = c(tier, seed)
            s.id = self.id
            self.sub[k] = s
        self.tus = tuple(sorted(set(x for c in self.sub.values() for x in c.tus)))

    def tasks(self, tier, rng):
        out = []
        for k, s in self.sub.items():
            out += [(k, t) for t in s.tasks(tier, rng)]
        return out

    def worker(self, t):
        s = self.sub[t[0]]
        s.mods = self.mods
        return s.worker(t[1])

    def replay_cmds(self, rec, t):
        return self.sub[t[0]].replay_cmds(rec, t[1])

    def judge(self, cmds, answers, t):
        return self.sub[t[0]].judge(cmds, answers, t[1])

    def native_for(self, t, drv):
        s = self.sub[t[0]]
        s.B = self.B
        return s.native_for(t[1], drv)

    def validate(self, drv):
        for s in self.sub.values():
            s.mods = self.mods
            s.tot = self.tot
            s.validate(drv)

    def bounds_text(self):
        return '; '.join('%s: %s' % (k, s.bounds_text()) for k, s in self.sub.items())

    @property
    def outside(self):
        return '; '.join(sorted(set(s.outside for s in self.sub.values())))


# ------------------------------------------------------------------ C14: signs
class SignPrint(Relational):
    id = 'x14p'
    what = 'the text of -v is not the text of v with a minus sign'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        return (self.num_tasks('d', 'c', self.exps('d', 32 if q else 2, range(1000, 1060, 2 if q else 1)), 0, 4) + self.num_tasks('f', 'c', self.exps('f', 4 if q else 1), 0, 4))

    def bounds_text(self):
        return ('whole mantissa symbolic, double exponents 1000..1059 (quick tier: every other) and one in %d, float one in %d' % ((32, 4) if self.tier == 'quick' else (2, 1)))

    def call(self, E, st, t, v):
        a = E.alloc(st, 200, 'heap', 'a')
        b = E.alloc(st, 200, 'heap', 'b')
        n = E.alloc(st, 16, 'heap', 'n')
        E.push_call(st, 'h_sign_%s_c' % t[1], [v, a, b, n])
        return a, b, n, 1

    def compare(self, E, st, t, x, y, n0, n1):
        E.stats['obligations'] += 1
        if not y or not isinstance(y[0], int) or y[0] != 45:
            raise Violation('property', 'the text of the negative value does not start with a minus sign')
        if n1 != n0 + 1 or len(y) != len(x) + 1:
            raise Violation('property', 'lengths do not match: %s %s' % (n0, n1))
        self.same(E, st, x, y[1:], self.what)

    def replay_cmds(self, rec, t):
        b = rec['inputs']['bits']
        return ['ftoa_%s_c %x' % (t[1], b), 'ftoa_%s_c %x' % (t[1], b | 1 << (FT[t[1]]['w'] - 1))]

    def judge(self, cmds, answers, t):
        for c, a in zip(cmds, answers):
            if isinstance(a, tuple):
                return '%s: %s' % (c, a[1])
        x, y = [parse_answer(a) for a in answers]
        if [45] + x[3] != y[3] or y[0] != x[0] + 1:
            return '%s prints %r (length %d), its opposite %r (length %d)' % (cmds[0], native_text(x[3]), x[0], native_text(y[3]), y[0])
        return None


class SignParse(Pair):
    id = 'x14r'
    what = 'sign'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for T in 'df':
            for sg in '-+':
                for sh in some_shapes(rng, 24 if q else 300, T, False):
                    out.append(('pair', T, 'c', sh, sg))
                for s in TXT:
                    if s:
                        out.append(('pair', T, 'c', tuple(ANY if c == '?' else c for c in s), sg))
        return out

    def bounds_text(self):
        return ('%d number shapes per type and sign over all decimal exponents and %d templates with arbitrary bytes, the text without sign against the same text after "-" '
                'and after "+"' % (24 if self.tier == 'quick' else 300, len(TXT) - 1))

    def setup(self, E, st, t, a, b):
        vals = chars(E, st, t[3])
        c = vals[0]
        if isinstance(c, Sym):
            # the text itself starts with no sign
            E.assume(st, c_and([c_not(c_eq(Lin(c.l.c - 43, c.l.t))), c_not(c_eq(Lin(c.l.c - 45, c.l.t)))]))
        s1 = put(E, st, vals, 1)
        s2 = put(E, st, [ord(t[4])] + vals, 1)
        E.push_call(st, 'h_ps_%s_cc' % t[1], [s1, s2, a, b])

    def compare2(self, E, st, t, x, y):
        T = t[1]
        p = FT[T]
        self.eq(E, st, x[1], y[1], 'the status')
        # consumed: one more, unless nothing at all is consumed
        if isinstance(x[2], Sym):
            x = (x[0], x[1], E.concretize(st, x[2]))
        if isinstance(y[2], Sym):
            y = (y[0], y[1], E.concretize(st, y[2]))
        sg = lambda v: v - (1 << 64) if v >> 63 else v
        cx, cy = sg(x[2]), sg(y[2])
        E.stats['obligations'] += 1
        if cy != (cx + 1 if cx else 0):
            raise Violation('property', 'consumes %d characters with the sign, %d without' % (cy, cx))
        if not cx:
            return 'nothing consumed'
        inf = p['emax'] << p['mb']
        if not isinstance(x[0], Sym) and x[0] & ((1 << (p['w'] - 1)) - 1) > inf:
            return 'nan'
        self.eq(E, st, x[0], y[0], 'the value', (1 << (p['w'] - 1)) if t[4] == '-' else 0)
        return 'equal'

    def replay_cmds(self, rec, t):
        codes = codes_of(t[3], rec['inputs'])
        return [self.ask(t[1], 'c', codes), self.ask(t[1], 'c', [ord(t[4])] + codes)]

    def judge2(self, t, codes, A):
        T = t[1]
        if A[0][3] != A[1][3]:
            return 'only one of the two texts is handed to the fallback'
        S = 1 << (FT[T]['w'] - 1)
        x, y = nanless(T, A[0][0]), nanless(T, A[1][0])
        if codes[0] and codes[0][0] in (43, 45):
            return None
        if A[0][2]:
            if x == 'nan' or y == 'nan':
                if x != y:
                    return 'the values are %s and %s' % (x, y)
            elif (x ^ (S if codes[1][0] == 45 else 0)) != y:
                return 'the values are %x and %x' % (x, y)
        if A[0][1] != A[1][1]:
            return 'the statuses are %d and %d' % (A[0][1], A[1][1])
        if A[1][2] != (A[0][2] + 1 if A[0][2] else 0):
            return 'the consumed lengths are %d and %d' % (A[0][2], A[1][2])
        return None


class C14(Mixed):
    id = 'C14'
    parts = {'print': SignPrint, 'parse': SignParse}


# ------------------------------------------------------------------ C15: character types
class CharPrint(Relational):
    id = 'x15p'
    tus = ('print', 'print16')
    what = 'the text depends on the character type'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for C in 'wuv':
            for T in 'df':
                out += self.sp_tasks(T, C)
            out += self.num_tasks('d', C, self.exps('d', 64 if q else 6, range(1020, 1050, (2 if C == 'w' else 8) if q else 1)), None, 2, 4)
            out += self.num_tasks('f', C, self.exps('f', 16 if q else 2), None, 4)
        return out

    def bounds_text(self):
        return ('char against wchar_t, char16_t and char32_t, whole mantissa symbolic, double exponents around 1020..1049 and one in %d, float one in %d, all specials'
                % ((64, 16) if self.tier == 'quick' else (6, 2)))

    def call(self, E, st, t, v):
        w = CH[t[2]]
        a = E.alloc(st, 200, 'heap', 'a')
        b = E.alloc(st, 200 * w, 'heap', 'b')
        n = E.alloc(st, 16, 'heap', 'n')
        E.push_call(st, 'h_two_%s_%s' % (t[1], t[2]), [v, a, b, n])
        return a, b, n, w

    def replay_cmds(self, rec, t):
        return ['two_%s_%s %x' % (t[1], t[2], rec['inputs']['bits'])]

    def judge(self, cmds, answers, t):
        c, a = cmds[0], answers[0]
        if isinstance(a, tuple):
            return '%s: %s' % (c, a[1])
        n0, n1, x, y = split_two(a)
        if n0 != n1 or x != y:
            return '%s: prints %r (length %d) with char and %r (length %d) with the other character type' % (c, native_text(x), n0, native_text(y), n1)
        return None


class CharParse(Pair):
    id = 'x15r'
    what = 'char against wchar_t'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for T in 'df':
            for sh in some_shapes(rng, 40 if q else 400, T):
                out.append(('pair', T, 'w', sh))
            for s in TXT + ['-i???', '+.??', 'nan(_??', '????']:
                out.append(('pair', T, 'w', tuple((0, 127) if c == '?' else c for c in s)))
        return out

    def bounds_text(self):
        return ('%d number shapes per type over all decimal exponents and %d templates with arbitrary 7-bit characters at "?"' % (40 if self.tier == 'quick' else 400, len(TXT) + 4))

    def setup(self, E, st, t, a, b):
        vals = chars(E, st, t[3])
        s1 = put(E, st, vals, 1)
        s2 = put(E, st, vals, 4)
        E.push_call(st, 'h_ps_%s_cw' % t[1], [s1, s2, a, b])

    def compare2(self, E, st, t, x, y):
        for i, w in enumerate(('the value', 'the status', 'the consumed length')):
            self.eq(E, st, x[i], y[i], w)
        return 'equal'

    def replay_cmds(self, rec, t):
        codes = codes_of(t[3], rec['inputs'])
        return [self.ask(t[1], 'c', codes), self.ask(t[1], 'w', codes)]

    def judge2(self, t, codes, A):
        T = t[1]
        x, y = A
        if x[3] != y[3]:
            return 'only one of the two character types uses the fallback'
        if nanless(T, x[0]) != nanless(T, y[0]) or x[1:3] != y[1:3]:
            return 'bits, status, length are %x %d %d with char and %x %d %d with wchar_t' % (x[:3] + y[:3])
        return None


class C15(Mixed):
    id = 'C15'
    parts = {'print': CharPrint, 'parse': CharParse}


# ------------------------------------------------------------------ C16: std::basic_string adapters
class StrPrint(Relational):
    id = 'x16p'
    tus = ('print', 'print16')
    what = 'the string differs from the buffer'
    counted = True

    def wa(self, t):
        return CH[t[2]]

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for C in 'cwuv':
            for T in 'df':
                out += self.sp_tasks(T, C)
            step = {'c': 32, 'w': 64, 'u': 128, 'v': 128}[C] if q else 8
            out += self.num_tasks('d', C, self.exps('d', step, range(1020, 1050, 2) if C == 'c' or not q else ()), None, 2, 4)
            out += self.num_tasks('f', C, self.exps('f', 16 if q else 2), None, 4)
        return out

    def bounds_text(self):
        return ('to_string, to_wstring, to_u16string, to_u32string against ftoa, whole mantissa symbolic, double one exponent in 32..128 (thorough: 8), float one in 16 (2), all specials')

    def call(self, E, st, t, v):
        w = CH[t[2]]
        a = E.alloc(st, 200 * w, 'heap', 'a')
        b = E.alloc(st, 200 * w, 'heap', 'b')
        n = E.alloc(st, 16, 'heap', 'n')
        E.push_call(st, 'h_str_%s_%s' % (t[1], t[2]), [v, a, b, n])
        return a, b, n, w

    def replay_cmds(self, rec, t):
        return ['str_%s_%s %x' % (t[1], t[2], rec['inputs']['bits'])]

    def judge(self, cmds, answers, t):
        c, a = cmds[0], answers[0]
        if isinstance(a, tuple):
            return '%s: %s' % (c, a[1])
        n0, n1, x, y = split_two(a)
        if n0 != n1 or x != y:
            return '%s: the buffer gets %r (length %d), the string is %r (length %d)' % (c, native_text(x), n0, native_text(y), n1)
        return None


class StrParse(Pair):
    id = 'x16r'
    what = 'from_string against atof'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for T in 'df':
            for C in 'cw':
                for sh in some_shapes(rng, (30 if C == 'c' else 10) if q else 200, T):
                    out.append(('pair', T, C, sh))
                for s in TXT + ['1?2', '?5', '12\0?3']:
                    out.append(('pair', T, C, tuple((ANY if C == 'c' else (0, 0x7fffffff)) if c == '?' else 0 if c == '\0' else c for c in s)))
        return out

    def bounds_text(self):
        return ('number shapes over all decimal exponents and %d templates with arbitrary characters (null characters inside included), char and wchar_t' % (len(TXT) + 3))

    def setup(self, E, st, t, a, b):
        vals = chars(E, st, t[3])
        s1 = put(E, st, vals, CH[t[2]])
        E.push_call(st, 'h_pstr_%s_%s' % (t[1], t[2]), [s1, len(vals), a, b])

    def compare2(self, E, st, t, x, y):
        for i, w in enumerate(('the value', 'the status')):
            self.eq(E, st, x[i], y[i], w)
        return 'equal'

    def replay_cmds(self, rec, t):
        codes = codes_of(t[3], rec['inputs'])
        z = codes[:codes.index(0)] if 0 in codes else codes
        return [self.ask(t[1], t[2], z, 'atof'), self.ask(t[1], t[2], codes, 'fstr')]

    def judge2(self, t, codes, A):
        T = t[1]
        x, y = A
        if nanless(T, x[0]) != nanless(T, y[0]) or x[1] != y[1]:
            return 'atof gives the bits %x and the status %d, from_string %x and %d' % (x[0], x[1], y[0], y[1])
        return None


class C16(Mixed):
    id = 'C16'
    parts = {'print': StrPrint, 'parse': StrParse}


# ------------------------------------------------------------------ C17: no state
def pure(E, st):
    E.stats['obligations'] += 2
    g = [e for e in st.events if e[0] == 'gwrite']
    if g:
        raise Violation('property', 'writes the global variable ' + g[0][1])
    if st.user.get('heap', 0):
        raise Violation('property', '%d memory block(s) not released' % st.user['heap'])


class PurePrint(Relational):
    id = 'x17p'
    what = 'the second text of the same value'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for T in 'df':
            out += self.sp_tasks(T, 'c')
        out += self.num_tasks('d', 'c', self.exps('d', 24 if q else 4, range(1020, 1050)), None, 4, 2)
        out += self.num_tasks('f', 'c', self.exps('f', 6 if q else 1), None, 4)
        return out

    def bounds_text(self):
        return ('whole mantissa symbolic, double exponents 1020..1049 and one in %d, float one in %d, all specials' % ((24, 6) if self.tier == 'quick' else (4, 1)))

    def call(self, E, st, t, v):
        a = E.alloc(st, 200, 'heap', 'a')
        b = E.alloc(st, 200, 'heap', 'b')
        n = E.alloc(st, 16, 'heap', 'n')
        ep = E.stubs['__errno_location'](E, st, [])
        E.write(st, ep, 4, 77)
        st.user['ep'] = ep
        E.push_call(st, 'h_again_%s' % t[1], [v, a, b, n])
        return a, b, n, 1

    def compare(self, E, st, t, x, y, n0, n1):
        pure(E, st)
        if E.read(st, st.user['ep'], 4) != 77:
            raise Violation('property', 'errno is changed')
        Relational.compare(self, E, st, t, x, y, n0, n1)

    def replay_cmds(self, rec, t):
        return ['again_%s %x' % (t[1], rec['inputs']['bits'])]

    def judge(self, cmds, answers, t):
        c, a = cmds[0], answers[0]
        if isinstance(a, tuple):
            return '%s: %s' % (c, a[1])
        f = a.split()
        if f[0] != '1':
            return '%s: printing the same value again gives another text' % c
        if f[1] != '77':
            return '%s: errno becomes %s' % (c, f[1])
        if f[2] != '0':
            return '%s: %s byte(s) of memory are not released' % (c, f[2])
        return None


class PureParse(ParseCheck):
    id = 'x17r'

    def tasks(self, tier, rng):
        q = tier == 'quick'
        out = []
        for T in 'df':
            for sh in some_shapes(rng, 60 if q else 400, T):
                out.append(('pure', T, 'c', sh))
            for s in TXT + ['-i???', '????']:
                out.append(('pure', T, 'c', tuple(ANY if c == '?' else c for c in s)))
            for sh in some_shapes(rng, 8 if q else 60, T):
                out.append(('pure', T, 'w', sh))
        return out

    def bounds_text(self):
        return ('number shapes over all decimal exponents and %d templates with arbitrary bytes; errno before the call symbolic' % (len(TXT) + 2))

    def run_task(self, E, t):
        T, C, shape = t[1:4]
        st = sx.State()
        vals = chars(E, st, shape)
        ep = E.stubs['__errno_location'](E, st, [])
        er = E.var(st, 0, 133, 'errno')
        st.user['inputs'].append(('errno', er))
        E.write(st, ep, 4, er)
        r = self.start(E, st, T, C, vals)
        w = CH[C]

        def fb(E, st, a):
            E.ensure()
            self.check_args(E, st, a)
            st.user['fb'] = True
            E.write(st, r.ep, 8, r.s)
            return FPV(0, FT[T]['w'])
        for n in parsechecks.NAMES:
            E.hooks[n] = fb
        kinds = {}

        def done(E, st):
            pure(E, st)
            for i, x in enumerate(vals):
                y = E.read(st, r.s + i * w, w)
                if y is UNDEF or LIN(x) != LIN(y):
                    E.prove(st, c_eq(lin_add(LIN(x), LIN(y), -1)), 'the text is modified')
            y = E.read(st, ep, 4)
            if LIN(y) != er.l:
                E.prove(st, c_eq(lin_add(LIN(y), er.l, -1)), 'errno is changed')
            k = 'with fallback' if st.user.get('fb') else 'without fallback'
            kinds[k] = kinds.get(k, 0) + 1
        E.explore(st, done)
        for k in kinds:
            self.hit(k, kinds[k])
        self.samples.append({'task': ''.join(str(c) if isinstance(c, str) else '?' for c in shape)[-50:], 'outcomes': kinds})

    def replay_cmds(self, rec, t):
        return [self.ask(t[1], t[2], codes_of(t[3], rec['inputs']), extra=' %d' % rec['inputs']['errno'])]

    def judge(self, cmds, answers, task):
        c, a = cmds[0], answers[0]
        if isinstance(a, tuple):
            return '%s: %s' % (c[:300], a[1])
        bits, st, end, calls, ok, err, heap = pans(a)
        if not ok:
            return '%s: the text is modified' % c[:300]
        if heap:
            return '%s: %d byte(s) of memory are not released' % (c[:300], heap)
        e0 = int(c.split()[2])
        if not calls and err != e0:
            return '%s: errno becomes %d' % (c[:300], err)
        return None


class C17(Mixed):
    id = 'C17'
    parts = {'print': PurePrint, 'parse': PureParse}

    def extra_confirm(self, task, rec):
        """writes of global variables: shown by two threads under the thread sanitizer"""
        if not rec['msg'].startswith('writes the global'):
            return None
        cmds = ['race_' + c for c in self.replay_cmds(rec, task)]
        import base
        d = base.Native(self.B.driver('thread'))
        ans = [d.ask(c) for c in cmds]
        for c, a in zip(cmds, ans):
            if isinstance(a, tuple):
                return {'cmds': cmds, 'answers': ans, 'what': '%s: concurrent calls race: %s' % (c[:200], a[1][:300].replace('\n', ' '))}
        return None


# ------------------------------------------------------------------ C18: diy_fp
class C18(PrintCheck):
    id = 'C18'
    tus = ('diy',)

    def tu_of(self, t):
        return 'diy'

    def tasks(self, tier, rng):
        return self.num_tasks('d', 'c', self.exps('d', 1), 0) + self.num_tasks('f', 'c', self.exps('f', 1), 0)

    def bounds_text(self):
        return 'every positive finite double and float: all biased exponents with the whole mantissa symbolic (denormals split by bit length)'

    def call(self, E, st, t, v):
        o = E.alloc(st, 8, 'heap', 'out')
        s = E.alloc(st, 1, 'heap', 'status')
        E.push_call(st, 'h_updown_%s' % t[1], [v, o, s])
        return o, s, v

    def verify(self, E, st, t, addr):
        o, s, v = addr
        x = E.read(st, o, FT[t[1]]['w'] // 8)
        x = x.b if isinstance(x, FPV) else x
        E.stats['obligations'] += 1
        if LIN(x) != LIN(v.b):
            E.prove(st, c_eq(lin_add(LIN(x), LIN(v.b), -1)), 'decomposing and composing changes the value')
        ss = E.read(st, s, 1)
        if isinstance(ss, Sym):
            ss = E.concretize(st, ss)
        if ss != 0:
            raise Violation('property', 'status %d' % ss)
        return 'equal'

    def cmds_of(self, t, b):
        return ['updown_%s %x' % (t[1], b)]

    def judge1(self, name, T, b, a):
        f = a.split()
        if int(f[0], 16) != b or f[1] != '0':
            return 'gives the bits %s with the status %s' % (f[0], f[1])
        return None

    def validate(self, drv):
        pass
