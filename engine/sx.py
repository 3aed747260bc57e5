"""Symbolic executor for LLVM IR over mathematical integers.

Every iN value is either a Python int or a Sym: a linear expression over integer
variables, together with an interval, whose value is the *unsigned machine
representation* in [0, 2^N).  Wrap-around, shifts, masks, truncations and
divisions by constants introduce quotient/remainder variables (or a case split)
so the mod-2^N semantics is kept exactly; everything that reaches the solver is
linear integer arithmetic.  Branches on symbolic conditions fork; feasibility
and obligations are decided by Z3 on one incremental solver that follows the
depth-first search.
"""
import sys, struct, time, math
from fractions import Fraction
import z3
import lattice
import ir

sys.setrecursionlimit(100000)

OBJ_SHIFT = 40
OFF_MASK = (1 << OBJ_SHIFT) - 1


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg, cond=True):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg
        self.cond = cond      # the violation happens in the models of this condition


class PathDone(Exception):
    """ends the current path silently (hook decided the rest is out of scope)"""


class Infeasible(Exception):
    """the current path turned out to have no model"""


class Enough(Exception):
    """the task has found what it can report; the rest of it is not explored"""
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


# ------------------------------------------------------------------ Lin
class Lin:
    __slots__ = ('c', 't', '_h', '_n')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = hash((c, t))
        self._n = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.c == o.c and self.t == o.t

    def __repr__(self):
        return ' + '.join(['%d*v%d' % (k, v) for v, k in self.t] + [str(self.c)])

    def norm(self):
        """(key, mult): sum(t) == mult * sum(key)"""
        n = self._n
        if n is None:
            g = 0
            for _, k in self.t:
                g = math.gcd(g, k)
            if self.t[0][1] < 0:
                g = -g
            if g == 1:
                n = (self.t, 1)
            else:
                n = (tuple((v, k // g) for v, k in self.t), g)
            self._n = n
        return n


def lin_const(c):
    return Lin(c, ())


def lin_add(a, b, kb=1):
    """a + kb*b"""
    if not b.t:
        return Lin(a.c + kb * b.c, a.t)
    if not a.t:
        if kb == 1:
            return Lin(a.c + b.c, b.t)
        return Lin(a.c + kb * b.c, tuple((v, k * kb) for v, k in b.t))
    d = dict(a.t)
    for v, k in b.t:
        x = d.get(v, 0) + k * kb
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return Lin(a.c + kb * b.c, tuple(sorted(d.items())))


def lin_scale(a, k):
    if k == 0:
        return lin_const(0)
    if k == 1:
        return a
    return Lin(a.c * k, tuple((v, x * k) for v, x in a.t))


class Sym:
    __slots__ = ('l', 'lo', 'hi')

    def __init__(self, l, lo, hi):
        self.l = l
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'Sym(%r in [%d,%d])' % (self.l, self.lo, self.hi)


class FPV:
    __slots__ = ('b', 'w')

    def __init__(self, b, w):
        self.b = b
        self.w = w

    def __repr__(self):
        return 'FP%d(%r)' % (self.w, self.b)


class FPL:
    """floating number n / 2^s with a symbolic integer n (lo..hi), s >= 0"""
    __slots__ = ('n', 's', 'lo', 'hi', 'w')

    def __init__(self, n, s, lo, hi, w):
        self.n = n
        self.s = s
        self.lo = lo
        self.hi = hi
        self.w = w

    def __repr__(self):
        return 'FPL((%r) / 2^%d)' % (self.n, self.s)


class Cond:
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self._h == o._h and self.k == o.k and self.a == o.a

    def __repr__(self):
        return '%s(%r)' % (self.k, self.a)


def c_le(l):
    """l <= 0"""
    if not l.t:
        return l.c <= 0
    return Cond('le', l)


def c_ge0(l):
    return c_le(lin_scale(l, -1))


def c_eq(l):
    if not l.t:
        return l.c == 0
    key, m = l.norm()
    if l.c % m:
        return False
    return Cond('eq', Lin(l.c // m, key))


def c_not(c):
    if c is True or c is False:
        return not c
    k = c.k
    if k == 'le':
        return Cond('le', Lin(1 - c.a.c, tuple((v, -x) for v, x in c.a.t)))
    if k == 'eq':
        return Cond('ne', c.a)
    if k == 'ne':
        return Cond('eq', c.a)
    if k == 'and':
        return c_or([c_not(x) for x in c.a])
    return c_and([c_not(x) for x in c.a])


def c_ne(l):
    return c_not(c_eq(l))


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.k == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond('and', tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c.k == 'or':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond('or', tuple(out))


def LIN(v):
    if isinstance(v, int):
        return Lin(v, ())
    if isinstance(v, Sym):
        return v.l
    if isinstance(v, Lin):
        return v
    raise Unsupported('not an integer: %r' % (v,))


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('size', 'kind', 'name', 'data', 'owner', 'alive', 'zero', 'writable')

    def __init__(self, size, kind, name, owner):
        self.size = size
        self.kind = kind
        self.name = name
        self.data = {}
        self.owner = owner
        self.alive = True
        self.zero = False
        self.writable = True

    def copy(self, owner):
        o = Obj(self.size, self.kind, self.name, owner)
        o.data = dict(self.data)
        o.alive = self.alive
        o.zero = self.zero
        o.writable = self.writable
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'ip', 'dst', 'normal', 'allocas', 'code', 'hook')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.ip = self.ip
        f.dst = self.dst
        f.normal = self.normal
        f.allocas = list(self.allocas)
        f.code = self.code
        f.hook = self.hook
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.bounds = {}
        self.known = {}
        self.splits = {}
        self.events = []
        self.user = {}
        self.nobj = 0
        self.token = object()
        self.done = False
        self.ret = None
        self.steps = 0

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.bounds = dict(self.bounds)
        s.known = dict(self.known)
        s.splits = dict(self.splits)
        s.events = list(self.events)
        s.user = dict(self.user)
        s.nobj = self.nobj
        s.done = self.done
        s.ret = self.ret
        s.steps = self.steps
        self.token = object()
        return s


# ------------------------------------------------------------------ engine
class Engine:
    MAXSTEPS = 3000000

    def __init__(self, mod, timeout_ms=60000):
        self.mod = mod
        self.timeout_ms = timeout_ms
        self.hooks = {}
        self.force_stub = set()
        self.stubs = {}
        self.stub_patterns = []
        self.gaddr = {}
        self.gobj = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.nextg = 1 << 20
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'instrs': 0, 'forks': 0, 'obligations': 0,
                      'proved_by_interval': 0, 'infeasible': 0}
        self.encoded = set()
        self.reset()
        import stubs
        stubs.install(self)

    # ---- solver life cycle
    # Every fact is a Cond.  `asserts` is the stack of facts of the current path;
    # `rs` holds the same facts over the reals (integer conditions are tightened,
    # so "unsat over the reals" is a proof for the integers as well).  Integer
    # queries are built from `asserts` only when the relaxation is satisfiable and
    # the answer matters (violations, models, enumeration).
    def reset(self):
        self.rs = z3.SimpleSolver()
        self.rs.set('timeout', self.timeout_ms)
        self.asserts = []
        self.rv = []
        self.iv = []
        self.vname = []
        self.vb = []
        self.zcache = {}
        self.ccache = {}
        self.icache = {}
        self.bitcond = {}
        self.violations = []
        self.witness_s = 0
        self.splitinfo = {}
        self.splitrem = {}
        self.qdeps = {}
        self.inconclusive = []
        self.unsure = False

    def fresh(self, st, lo, hi, name):
        v = len(self.rv)
        nm = '%s!%d' % (name, v)
        z = z3.Real(nm)
        self.rv.append(z)
        self.iv.append(None)
        self.vname.append(nm)
        self.vb.append((lo, hi))
        key = ((v, 1),)
        self.fact(Cond('le', Lin(-hi, key)))
        self.fact(Cond('le', Lin(lo, ((v, -1),))))
        st.bounds[key] = (lo, hi)
        return v

    def var(self, st, lo, hi, name):
        if lo == hi:
            return lo
        v = self.fresh(st, lo, hi, name)
        return Sym(Lin(0, ((v, 1),)), lo, hi)

    def fact(self, c):
        self.asserts.append(c)
        self.rs.add(self.zreal(c))

    def push(self):
        self.rs.push()
        return len(self.asserts)

    def pop(self, mark):
        self.rs.pop()
        del self.asserts[mark:]

    def zlin(self, t):
        z = self.zcache.get(t)
        if z is None:
            rv = self.rv
            terms = [rv[v] if k == 1 else rv[v] * k for v, k in t]
            z = terms[0] if len(terms) == 1 else z3.Sum(terms)
            self.zcache[t] = z
        return z

    def zreal(self, c):
        if c is True:
            return z3.BoolVal(True)
        if c is False:
            return z3.BoolVal(False)
        z = self.ccache.get(c)
        if z is None:
            k = c.k
            if k == 'le':
                key, m = c.a.norm()
                # m*key <= -c  ->  integer bound on key
                if m > 0:
                    z = self.zlin(key) <= (-c.a.c) // m
                else:
                    z = self.zlin(key) >= self._ceil(c.a.c, -m)
            elif k == 'eq':
                z = self.zlin(c.a.t) == -c.a.c
            elif k == 'ne':
                e = self.zlin(c.a.t)
                z = z3.Or(e <= -c.a.c - 1, e >= -c.a.c + 1)
            elif k == 'and':
                z = z3.And([self.zreal(x) for x in c.a])
            else:
                z = z3.Or([self.zreal(x) for x in c.a])
            self.ccache[c] = z
        return z

    def zint_lin(self, t):
        terms = []
        for v, k in t:
            if self.iv[v] is None:
                self.iv[v] = z3.Int(self.vname[v])
            terms.append(self.iv[v] if k == 1 else self.iv[v] * k)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zint(self, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        z = self.icache.get(c)
        if z is None:
            k = c.k
            if k == 'le':
                z = self.zint_lin(c.a.t) <= -c.a.c
            elif k == 'eq':
                z = self.zint_lin(c.a.t) == -c.a.c
            elif k == 'ne':
                z = self.zint_lin(c.a.t) != -c.a.c
            elif k == 'and':
                z = z3.And([self.zint(x) for x in c.a])
            else:
                z = z3.Or([self.zint(x) for x in c.a])
            self.icache[c] = z
        return z

    def maybe(self, *extra, model=False):
        """False: no model (proved).  True: the rational relaxation has one."""
        t = time.time()
        self.stats['queries'] += 1
        if extra:
            self.rs.push()
            for e in extra:
                self.rs.add(self.zreal(e))
        r = self.rs.check()
        self.rmodel = self.rs.model() if model and r == z3.sat else None
        if extra:
            self.rs.pop()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unsat:
            if self.unsure:
                # this path was entered without a feasibility query
                self.stats['queries'] += 1
                if not extra or self.rs.check() == z3.unsat:
                    raise Infeasible()
                self.unsure = False
        elif r == z3.sat:
            self.unsure = False
        if r == z3.unknown:
            self.stats['unknown_real'] = self.stats.get('unknown_real', 0) + 1
        return r != z3.unsat

    def ensure(self):
        """the current path has a model (of the relaxation)"""
        if self.unsure:
            self.maybe()
            self.unsure = False

    def real_model_ints(self):
        """values of the rational model, or None when one is not an integer"""
        out = {}
        m = self.rmodel
        if m is None:
            return None
        for v, z in enumerate(self.rv):
            x = m.eval(z, model_completion=True)
            if not z3.is_rational_value(x) or x.denominator_as_long() != 1:
                return None
            x = x.numerator_as_long()
            lo, hi = self.vb[v]
            if not lo <= x <= hi:
                x = lo
            out[v] = x
        for c in self.asserts:
            if not self.holds(c, out):
                return None
        return out

    def holds(self, c, m):
        if c is True or c is False:
            return c
        if c.k == 'and':
            return all(self.holds(x, m) for x in c.a)
        if c.k == 'or':
            return any(self.holds(x, m) for x in c.a)
        v = c.a.c + sum(k * m[x] for x, k in c.a.t)
        return v <= 0 if c.k == 'le' else (v == 0 if c.k == 'eq' else v != 0)

    WITNESS_S = 25          # seconds for the search of an integer model
    INTEGER_S = 2           # and for the integer solver afterwards

    def solve(self, extra=()):
        """decide over the integers: None = no model, else {var: value}.
        Raises Inconclusive when the solvers give up."""
        if not self.maybe(*extra, model=True):
            return None
        m = self.real_model_ints()
        if m is not None and all(self.holds(c, m) for c in extra):
            return m
        t = time.time()
        rm = self.rmodel
        if rm is not None:
            self.stats['lattice_searches'] = self.stats.get('lattice_searches', 0) + 1

            def rat(v):
                x = rm.eval(self.rv[v], model_completion=True)
                return Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else Fraction(self.vb[v][0])
            conds = self.asserts + list(extra)
            r, m = lattice.find(conds, self.vb, rat, self.WITNESS_S)
            self.witness_s += time.time() - t
            self.stats['solver_s'] += time.time() - t
            if r == 'unsat':
                return None
            if r == 'sat' and all(self.holds(c, m) for c in conds):
                return m
        t = time.time()
        self.stats['queries'] += 1
        self.stats['int_queries'] = self.stats.get('int_queries', 0) + 1
        s = z3.SolverFor('QF_LIA')
        s.set('timeout', self.INTEGER_S * 1000)
        for c in self.asserts:
            s.add(self.zint(c))
        for c in extra:
            s.add(self.zint(c))
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            self.rmodel = rm
            raise Inconclusive('integer solver: ' + s.reason_unknown())
        m = s.model()
        out = {}
        for v in range(len(self.rv)):
            if self.iv[v] is None:
                out[v] = self.vb[v][0]
            else:
                out[v] = m.eval(self.iv[v], model_completion=True).as_long()
        return out

    def value(self, m, l):
        l = LIN(l)
        return l.c + sum(k * m[v] for v, k in l.t)

    # ---- intervals
    def rng(self, st, s):
        if isinstance(s, int):
            return s, s
        l = s.l
        lo, hi = s.lo, s.hi
        if l.t:
            key, m = l.norm()
            b = st.bounds.get(key)
            if b is not None:
                if m > 0:
                    blo = None if b[0] is None else m * b[0] + l.c
                    bhi = None if b[1] is None else m * b[1] + l.c
                else:
                    blo = None if b[1] is None else m * b[1] + l.c
                    bhi = None if b[0] is None else m * b[0] + l.c
                if blo is not None and blo > lo:
                    lo = blo
                if bhi is not None and bhi < hi:
                    hi = bhi
        else:
            return l.c, l.c
        return lo, hi

    def rnglin(self, st, l):
        """interval of a linear expression (None = unbounded)"""
        if not l.t:
            return l.c, l.c
        lo = hi = l.c
        B = st.bounds
        for v, k in l.t:
            b = B.get(((v, 1),))
            if b is None:
                lo = hi = None
                break
            if k > 0:
                lo += k * b[0]
                hi += k * b[1]
            else:
                lo += k * b[1]
                hi += k * b[0]
        if len(l.t) > 1:
            key, m = l.norm()
            b = B.get(key)
            if b is not None:
                if m > 0:
                    x, y = b
                else:
                    y, x = b
                if x is not None:
                    x = m * x + l.c
                    if lo is None or x > lo:
                        lo = x
                if y is not None:
                    y = m * y + l.c
                    if hi is None or y < hi:
                        hi = y
        return lo, hi

    def ev(self, st, c):
        """three-valued evaluation by known facts and intervals"""
        if c is True or c is False:
            return c
        k = st.known.get(c)
        if k is not None:
            return k
        if c.k == 'le':
            lo, hi = self.rnglin(st, c.a)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            return None
        if c.k == 'eq' or c.k == 'ne':
            lo, hi = self.rnglin(st, c.a)
            r = None
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            elif lo == 0 and hi == 0:
                r = True
            if r is None:
                return None
            return r if c.k == 'eq' else not r
        if c.k == 'and':
            res = True
            for x in c.a:
                e = self.ev(st, x)
                if e is False:
                    return False
                if e is None:
                    res = None
            return res
        res = False
        for x in c.a:
            e = self.ev(st, x)
            if e is True:
                return True
            if e is None:
                res = None
        return res

    def learn(self, st, c, val=True):
        """record that c holds (val) on this path"""
        if c is True or c is False:
            return
        st.known[c] = val
        st.known[c_not(c)] = not val
        if not val:
            c = c_not(c)
        self._learn(st, c)

    def _learn(self, st, c):
        k = c.k
        if k == 'and':
            for x in c.a:
                st.known[x] = True
                self._learn(st, x)
        elif k == 'le':
            self._bound(st, c.a)
        elif k == 'eq':
            self._bound(st, c.a)
            self._bound(st, lin_scale(c.a, -1))
        elif k == 'ne':
            key, m = c.a.norm()
            if m == 1 or m == -1:
                v = -c.a.c * m
                b = st.bounds.get(key)
                if b is not None:
                    lo, hi = b
                    if lo is not None and lo == v:
                        st.bounds[key] = (lo + 1, hi)
                    elif hi is not None and hi == v:
                        st.bounds[key] = (lo, hi - 1)
        elif k == 'or':
            # convex hull for single-key disjunctions of intervals
            hull = None
            for x in c.a:
                h = self._hull1(x)
                if h is None:
                    return
                if hull is None:
                    hull = h
                else:
                    if hull[0] != h[0]:
                        return
                    lo = None if hull[1] is None or h[1] is None else min(hull[1], h[1])
                    hi = None if hull[2] is None or h[2] is None else max(hull[2], h[2])
                    hull = (hull[0], lo, hi)
            if hull:
                self._setb(st, hull[0], hull[1], hull[2])

    def _hull1(self, x):
        if x.k == 'and':
            r = None
            for y in x.a:
                h = self._hull1(y)
                if h is None:
                    return None
                if r is None:
                    r = h
                elif r[0] != h[0]:
                    return None
                else:
                    lo = h[1] if r[1] is None else (r[1] if h[1] is None else max(r[1], h[1]))
                    hi = h[2] if r[2] is None else (r[2] if h[2] is None else min(r[2], h[2]))
                    r = (r[0], lo, hi)
            return r
        if x.k == 'le':
            key, m = x.a.norm()
            if m > 0:
                return (key, None, -x.a.c // m)
            return (key, -((-x.a.c) // -m), None)
        if x.k == 'eq':
            key, m = x.a.norm()
            return (key, -x.a.c // m, -x.a.c // m)
        return None

    def _setb(self, st, key, lo, hi):
        b = st.bounds.get(key, (None, None))
        if b[0] is not None and (lo is None or b[0] > lo):
            lo = b[0]
        if b[1] is not None and (hi is None or b[1] < hi):
            hi = b[1]
        if b == (lo, hi):
            return
        st.bounds[key] = (lo, hi)
        for qv, m, c, d in self.qdeps.get(key, ()):
            # bounds of a dividend are bounds of the quotient
            k = ((qv, 1),)
            qb = st.bounds.get(k)
            if qb is None:
                continue
            x, y = (lo, hi) if m > 0 else (hi, lo)
            x = None if x is None else (m * x + c) // d
            y = None if y is None else (m * y + c) // d
            if x is not None and (qb[0] is None or x > qb[0]):
                self.fact(Cond('le', Lin(x, ((qv, -1),))))
                self._setb(st, k, x, None)
            if y is not None and (qb[1] is None or y < qb[1]):
                self.fact(Cond('le', Lin(-y, k)))
                self._setb(st, k, None, y)
        if len(key) == 1:
            # bounds of a quotient are bounds of the dividend
            si = self.splitinfo.get(key[0][0])
            if si is not None and b != (lo, hi):
                l, d = si
                if hi is not None:
                    self._bound(st, Lin(l.c - hi * d - d + 1, l.t))
                if lo is not None:
                    self._bound(st, Lin(lo * d - l.c, tuple((v, -k) for v, k in l.t)))

    def _bound(self, st, l):
        """l <= 0"""
        key, m = l.norm()
        if m > 0:
            self._setb(st, key, None, (-l.c) // m)
        else:
            self._setb(st, key, -((-l.c) // (-m)) if False else self._ceil(l.c, -m), None)

    @staticmethod
    def _ceil(a, b):
        return -((-a) // b)

    # ---- decisions
    def decide(self, st, c):
        e = self.ev(st, c)
        if e is None:
            raise Fork([c, c_not(c)])
        return e

    def assume(self, st, c):
        """add an assumption to the current path (only valid before any sibling exploration)"""
        if c is True:
            return
        if c is False:
            raise PathDone()
        self.fact(c)
        self.learn(st, c)

    def define(self, c):
        """definitional constraint on fresh variables"""
        if c is True:
            return
        self.fact(c)

    def concretize(self, st, v, limit=128):
        """return a concrete value of v, forking over its feasible values"""
        if isinstance(v, int):
            return v
        lo, hi = self.rng(st, v)
        if lo == hi:
            return lo
        d = st.user.get(('conc', v.l))
        if d is not None:
            return d
        if hi - lo < 8:
            conds = [c_eq(lin_add(v.l, lin_const(x), -1)) for x in range(lo, hi + 1)]
            raise Fork(conds)
        vals = []
        todo = [(lo, hi)]
        it = 0
        while todo:
            # values the relaxation allows (none is lost: only parts without any model are dropped)
            a, b = todo.pop()
            if a > b:
                continue
            it += 1
            if it > 6 * limit or len(vals) > limit:
                raise Unsupported('more than %d values for a value that must be concrete' % limit)
            if a == b:
                if self.maybe(c_eq(lin_add(v.l, lin_const(a), -1))):
                    vals.append(a)
                continue
            if not self.maybe(c_and([c_le(lin_add(lin_const(a), v.l, -1)), c_le(lin_add(v.l, lin_const(b), -1))]), model=True):
                continue
            x = (a + b) // 2
            if self.rmodel is not None:
                z = self.rmodel.eval(self.zlin(v.l.t) + v.l.c, model_completion=True)
                if z3.is_rational_value(z):
                    x = min(b, max(a, z.numerator_as_long() // z.denominator_as_long()))
            if self.maybe(c_eq(lin_add(v.l, lin_const(x), -1))):
                vals.append(x)
            todo.append((a, x - 1))
            todo.append((x + 1, b))
        if not vals:
            raise PathDone()
        raise Fork([c_eq(lin_add(v.l, lin_const(x), -1)) for x in sorted(vals)])

    def prove(self, st, c, what):
        """obligation: c holds in every model of the current path"""
        self.stats['obligations'] += 1
        e = self.ev(st, c)
        if e is True:
            self.stats['proved_by_interval'] += 1
            return True
        nc = c_not(c)
        if e is not False and not self.maybe(nc):
            self.learn(st, c)
            return True
        raise Violation('property', what, nc)

    # ---- arithmetic on values (unsigned representation)
    def mk(self, st, l, lo, hi):
        if not l.t:
            return l.c
        s = Sym(l, lo, hi)
        lo, hi = self.rng(st, s)
        if lo == hi:
            return lo
        s.lo = lo
        s.hi = hi
        return s

    def wrap(self, st, l, lo, hi, N):
        if not l.t:
            return l.c & ((1 << N) - 1)
        klo = lo >> N
        khi = hi >> N
        if klo == khi:
            if klo:
                l = Lin(l.c - (klo << N), l.t)
                lo -= klo << N
                hi -= klo << N
            return self.mk(st, l, lo, hi)
        l2, h2 = self.rnglin(st, l)
        if l2 is not None and l2 > lo:
            lo = l2
        if h2 is not None and h2 < hi:
            hi = h2
        klo = lo >> N
        khi = hi >> N
        if klo == khi:
            return self.wrap(st, l, lo, hi, N)
        # ask the solver which multiples of 2^N are really reachable
        if not self.maybe(c_le(Lin(((klo + 1) << N) - l.c, tuple((v, -k) for v, k in l.t)))):
            self.learn(st, c_le(Lin(l.c - ((klo + 1) << N) + 1, l.t)))
            return self.wrap(st, l, lo, ((klo + 1) << N) - 1, N)
        if not self.maybe(c_le(Lin(l.c - (khi << N) + 1, l.t))):
            self.learn(st, c_le(Lin((khi << N) - l.c, tuple((v, -k) for v, k in l.t))))
            return self.wrap(st, l, khi << N, hi, N)
        if khi - klo <= 2:
            if self.decide(st, c_le(Lin(l.c - (khi << N) + 1, l.t))):
                return self.wrap(st, l, lo, (khi << N) - 1, N)
            return self.wrap(st, l, khi << N, hi, N)
        q, r = self.split(st, Sym(l, lo, hi), 1 << N)
        return r

    def add(self, st, a, b, N):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & ((1 << N) - 1)
        alo, ahi = self.rng(st, a)
        blo, bhi = self.rng(st, b)
        return self.wrap(st, lin_add(LIN(a), LIN(b)), alo + blo, ahi + bhi, N)

    def sub(self, st, a, b, N):
        if isinstance(a, int) and isinstance(b, int):
            return (a - b) & ((1 << N) - 1)
        alo, ahi = self.rng(st, a)
        blo, bhi = self.rng(st, b)
        lo, hi = alo - bhi, ahi - blo
        if lo < 0 and isinstance(a, Sym) and isinstance(b, Sym):
            # x - d * (x / d) is x % d
            for d in st.splits.get(a.l, ()):
                ql, rl = st.splits[(a.l, d)]
                if lin_scale(ql, d) == b.l:
                    return self.mk(st, rl, 0, d - 1)
        l = lin_add(LIN(a), LIN(b), -1)
        if len(l.t) > 1 and lo < 0:
            l, lo, hi = self.fold(l, lo, hi)
        return self.wrap(st, l, lo, hi, N)

    def fold(self, l, lo, hi):
        """x - d * (quotient of x and d) is the remainder"""
        for v, k in l.t:
            si = self.splitinfo.get(v)
            if si is None or k % si[1]:
                continue
            x, d = si
            c = -k // d
            n = lin_add(lin_add(l, x, -c), Lin(0, ((v, c * d), (self.splitrem[v], c))))
            if len(n.t) < len(l.t):
                if len(n.t) == 1:
                    m = n.t[0][1]
                    y, z = self.vb[n.t[0][0]]
                    y, z = (n.c + m * y, n.c + m * z) if m > 0 else (n.c + m * z, n.c + m * y)
                    lo, hi = max(lo, y), min(hi, z)
                return self.fold(n, lo, hi) if len(n.t) > 1 else (n, lo, hi)
        return l, lo, hi

    def mul(self, st, a, b, N):
        if isinstance(a, int) and isinstance(b, int):
            return (a * b) & ((1 << N) - 1)
        if isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if ha - la < hb - lb:
                a, b = b, a
                la, ha, lb, hb = lb, hb, la, ha
            if hb - lb > 64:
                if self.bilinear and la >= 0 and lb >= 0:
                    return self.wrap(st, self.product(st, a.l, b.l), la * lb, ha * hb, N)
                raise Unsupported('product of two symbolic values')
            b = self.concretize(st, b)
        if b == 0:
            return 0
        if b == 1:
            return a
        lo, hi = self.rng(st, a)
        if b >= 1 << (N - 1) and (hi * b) >> N:
            # negative multiplier
            nb = b - (1 << N)
            return self.wrap(st, lin_scale(a.l, nb), hi * nb, lo * nb, N)
        return self.wrap(st, lin_scale(a.l, b), lo * b, hi * b, N)

    bilinear = False

    def product(self, st, a, b):
        """product of two expressions: each product of two variables is a variable of its own, known by bounds only"""
        l = lin_add(lin_scale(Lin(0, a.t), b.c), lin_scale(b, a.c))
        for v, k in a.t:
            for w, m in b.t:
                key = ('product', min(v, w), max(v, w))
                p = st.user.get(key)
                if p is None:
                    (vl, vh), (wl, wh) = self.vb[v], self.vb[w]
                    cs = (vl * wl, vl * wh, vh * wl, vh * wh)
                    p = self.fresh(st, min(cs), max(cs), 'p')
                    st.user[key] = p
                    # envelope of the product
                    for x, y, sg in ((vl, wl, 1), (vh, wh, 1), (vl, wh, -1), (vh, wl, -1)):
                        # sg * (v - x) * (w - y) >= 0
                        self.define(c_le(lin_scale(lin_add(lin_add(Lin(x * y, ((p, 1),)), Lin(0, ((v, -y),))), Lin(0, ((w, -x),))), -sg)))
                l = lin_add(l, Lin(0, ((p, k * m),)))
        return l

    def split(self, st, x, d):
        """x = q*d + r, 0 <= r < d   (x may be any integer-valued Sym or int)"""
        if isinstance(x, int):
            return x // d, x % d
        if d == 1:
            return x, 0
        lo, hi = self.rng(st, x)
        key = (x.l, d)
        qr = st.splits.get(key)
        if qr is None:
            if lo // d == hi // d:
                q = lo // d
                return q, self.mk(st, Lin(x.l.c - q * d, x.l.t), lo - q * d, hi - q * d)
            qr = self.split_new(st, x, d, lo, hi)
            st.splits[key] = qr
            st.splits[x.l] = st.splits.get(x.l, ()) + (d,)
        ql, rl = qr
        return self.mk(st, ql, lo // d, hi // d), self.mk(st, rl, 0, d - 1)

    def split_new(self, st, x, d, lo, hi):
        # partition into multiples of d and the rest
        A = []
        B = []
        for v, k in x.l.t:
            if k % d == 0:
                A.append((v, k // d))
            else:
                B.append((v, k))
        if not B:
            r = x.l.c % d
            return Lin((x.l.c - r) // d, tuple(A)), Lin(r, ())
        if A:
            cr = x.l.c % d
            bl = Lin(cr, tuple(B))
            blo, bhi = self.rnglin(st, bl)
            if blo is not None and bhi is not None and blo // d == bhi // d:
                kq = blo // d
                return Lin((x.l.c - cr) // d + kq, tuple(A)), Lin(cr - kq * d, bl.t)
        ds = st.splits.get(x.l, ())
        up = min((y for y in ds if y % d == 0), default=None)
        if up is not None:
            # x = up*q + r:  split the remainder
            ql, rl = st.splits[(x.l, up)]
            q1, r1 = self.split(st, self.mk(st, rl, 0, up - 1), d)
            return lin_add(lin_scale(ql, up // d), LIN(q1)), LIN(r1)
        dn = max((y for y in ds if d % y == 0), default=None)
        if dn is not None:
            # x = dn*q + r:  split the quotient
            ql, rl = st.splits[(x.l, dn)]
            q1, r1 = self.split(st, self.mk(st, ql, lo // dn, hi // dn), d // dn)
            return LIN(q1), lin_add(lin_scale(LIN(r1), dn), rl)
        if A and blo is not None and bhi is not None:
            # split only the rest
            q2, r = self.split(st, Sym(bl, blo, bhi), d)
            return lin_add(Lin((x.l.c - cr) // d, tuple(A)), LIN(q2)), LIN(r)
        qv = self.fresh(st, lo // d, hi // d, 'q')
        rv = self.fresh(st, 0, d - 1, 'r')
        self.define(c_eq(lin_add(Lin(0, ((qv, d), (rv, 1))), x.l, -1)))
        self.splitinfo[qv] = (x.l, d)
        self.splitrem[qv] = rv
        k, m = x.l.norm()
        self.qdeps.setdefault(k, []).append((qv, m, x.l.c, d))
        return Lin(0, ((qv, 1),)), Lin(0, ((rv, 1),))

    def shl(self, st, a, k, N):
        if isinstance(a, int):
            return (a << k) & ((1 << N) - 1)
        lo, hi = self.rng(st, a)
        if hi << k >> N == 0:
            return self.mk(st, lin_scale(a.l, 1 << k), lo << k, hi << k)
        _, r = self.split(st, a, 1 << (N - k))
        return self.shl(st, r, k, N) if isinstance(r, int) else self.mk(st, lin_scale(r.l, 1 << k), 0, ((1 << (N - k)) - 1) << k)

    def lshr(self, st, a, k):
        if isinstance(a, int):
            return a >> k
        return self.split(st, a, 1 << k)[0]

    def low(self, st, a, k):
        if isinstance(a, int):
            return a & ((1 << k) - 1)
        lo, hi = self.rng(st, a)
        if lo >= 0 and hi < 1 << k:
            return a
        return self.split(st, a, 1 << k)[1]

    def and_(self, st, a, b, N):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        if isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            if a.l == b.l:
                return a
            if self.disjoint(st, a, b):
                return 0
            # concretise the smaller one
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if ha - la < hb - lb:
                a, b = b, a
            b = self.concretize(st, b)
        if b == 0:
            return 0
        lo, hi = self.rng(st, a)
        res = 0
        pos = 0
        m = b
        while m:
            # next run of ones
            tz = (m & -m).bit_length() - 1
            pos += tz
            m >>= tz
            run = ((m + 1) & -(m + 1)).bit_length() - 1
            # bits [pos, pos+run)
            part = self.lshr(st, a, pos)
            part = self.low(st, part, run)
            part = self.shl(st, part, pos, N)
            res = self.add(st, res, part, N)
            pos += run
            m >>= run
        return res

    def tz(self, l):
        g = l.c
        for _, k in l.t:
            g = math.gcd(g, k)
        return (g & -g).bit_length() - 1 if g else 4096

    def disjoint(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a & b == 0
        _, ha = self.rng(st, a)
        _, hb = self.rng(st, b)
        if self.tz(LIN(a)) >= hb.bit_length() or self.tz(LIN(b)) >= ha.bit_length():
            return True
        return False

    def or_(self, st, a, b, N):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        if self.disjoint(st, a, b):
            return self.add(st, a, b, N)
        if isinstance(b, int):
            x = self.and_(st, a, b, N)
            return self.sub(st, self.add(st, a, b, N + 1), x, N)
        # bitwise split at the alignment of one operand
        for x, y in ((a, b), (b, a)):
            t = self.tz(x.l)
            if t > 0:
                q, r = self.split(st, y, 1 << t)
                hi = self.or_(st, self.lshr(st, x, t), q, N)
                return self.add(st, self.shl(st, hi, t, N), r, N)
        la, ha = self.rng(st, a)
        lb, hb = self.rng(st, b)
        if ha - la < hb - lb:
            a, b = b, a
        b = self.concretize(st, b)
        return self.or_(st, a, b, N)

    def xor(self, st, a, b, N):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        if isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            if a.l == b.l:
                return 0
            if self.disjoint(st, a, b):
                return self.add(st, a, b, N)
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if ha - la < hb - lb:
                a, b = b, a
            b = self.concretize(st, b)
        if b == (1 << N) - 1:
            return self.sub(st, b, a, N)
        x = self.and_(st, a, b, N)
        s = self.add(st, a, b, N + 2)
        return self.sub(st, s, self.mul(st, x, 2, N + 2), N)

    def signed(self, st, a, N):
        """signed value as (Lin/int, lo, hi); forks on the sign when unknown"""
        half = 1 << (N - 1)
        if isinstance(a, int):
            v = a - (1 << N) if a >= half else a
            return v, v, v
        lo, hi = self.rng(st, a)
        if hi < half:
            return a.l, lo, hi
        if lo >= half:
            return Lin(a.l.c - (1 << N), a.l.t), lo - (1 << N), hi - (1 << N)
        if self.decide(st, c_le(Lin(a.l.c - half + 1, a.l.t))):
            return a.l, lo, min(hi, half - 1)
        return Lin(a.l.c - (1 << N), a.l.t), max(lo, half) - (1 << N), hi - (1 << N)

    def unsign(self, st, l, lo, hi, N):
        """signed integer expression to representation"""
        if isinstance(l, int):
            return l & ((1 << N) - 1)
        return self.wrap(st, l, lo, hi, N)

    def icmp(self, st, pred, a, b, N):
        """returns bool or Cond"""
        if isinstance(a, Cond) or isinstance(b, Cond):
            if pred in ('eq', 'ne') and N == 1:
                r = self.cxor(self.tocond(a), self.tocond(b))
                return c_not(r) if pred == 'eq' else r
            raise Unsupported('icmp on conditions')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                h = 1 << (N - 1)
                a = a - (1 << N) if a >= h else a
                b = b - (1 << N) if b >= h else b
                pred = 'u' + pred[1:]
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]
        if pred == 'eq' or pred == 'ne':
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if ha < lb or hb < la:
                return pred == 'ne'
            c = c_eq(lin_add(LIN(a), LIN(b), -1))
            return c if pred == 'eq' else c_not(c)
        if pred[0] == 's':
            A, la, ha = self.signed(st, a, N)
            B, lb, hb = self.signed(st, b, N)
            A = LIN(A)
            B = LIN(B)
        else:
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            A = LIN(a)
            B = LIN(b)
        p = pred[1:]
        if p == 'gt':
            A, B, la, ha, lb, hb, p = B, A, lb, hb, la, ha, 'lt'
        elif p == 'ge':
            A, B, la, ha, lb, hb, p = B, A, lb, hb, la, ha, 'le'
        if p == 'lt':
            if ha < lb:
                return True
            if la >= hb:
                return False
            d = lin_add(A, B, -1)
            return c_le(Lin(d.c + 1, d.t))
        if ha <= lb:
            return True
        if la > hb:
            return False
        return c_le(lin_add(A, B, -1))

    def tocond(self, v):
        if isinstance(v, Cond) or v is True or v is False:
            return v
        if isinstance(v, int):
            return v & 1 == 1
        if isinstance(v, Sym):
            if len(v.l.t) == 1 and v.l.t[0][1] == 1 and v.l.c == 0 and v.l.t[0][0] in self.bitcond:
                return self.bitcond[v.l.t[0][0]]
            return c_eq(Lin(v.l.c - 1, v.l.t))
        raise Unsupported('condition from %r' % (v,))

    def cxor(self, a, b):
        if a is True:
            return c_not(b)
        if a is False:
            return b
        if b is True:
            return c_not(a)
        if b is False:
            return a
        return c_or([c_and([a, c_not(b)]), c_and([c_not(a), b])])

    def bit(self, st, c):
        """0/1 integer equal to condition c"""
        e = self.ev(st, c)
        if e is not None:
            return int(e)
        key = ('bit', c)
        v = st.splits.get(key)
        if v is None:
            v = self.fresh(st, 0, 1, 'b')
            st.splits[key] = v
            L = Lin(0, ((v, 1),))
            self.fact(c_or([c_eq(L), c]))
            self.fact(c_or([c_eq(Lin(-1, L.t)), c_not(c)]))
            self.bitcond[v] = c
        return self.mk(st, Lin(0, ((v, 1),)), 0, 1)

    # ---- memory
    def alloc(self, st, size, kind, name):
        st.nobj += 1
        oid = 16 + st.nobj
        st.mem[oid] = Obj(size, kind, name, st.token)
        return oid << OBJ_SHIFT

    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is None:
            if name in self.mod.aliases:
                v = self.mod.aliases[name]
                a = self.constval(v, 'ptr')
            elif name in self.mod.globals:
                g = self.mod.globals[name]
                self.nextg += 1
                a = self.nextg << OBJ_SHIFT
                self.gaddr[name] = a
                o = Obj(self.mod.size(g.ty) if not g.external else 1 << 20, 'threadlocal' if g.tls else 'global', name, None)
                o.writable = not g.const
                o.zero = True
                if g.init is not None:
                    self.fill(o, 0, g.ty, g.init)
                self.gobj[a >> OBJ_SHIFT] = o
                return a
            else:
                self.nextg += 1
                a = self.nextg << OBJ_SHIFT
                self.addrfn[a] = name
            self.gaddr[name] = a
        return a

    def fill(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if v[0] in ('zero', 'undef'):
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]):
                o.data[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if ty[0] == 'arr':
                s = self.mod.size(ty[2])
                for i, (ety, ev) in enumerate(v[1]):
                    self.fill(o, off + i * s, ety, ev)
            else:
                for i, (ety, ev) in enumerate(v[1]):
                    fo, _ = self.mod.field_offset(ty, i)
                    self.fill(o, off + fo, ety, ev)
            return
        val = self.constval(v, ty)
        o.data[off] = (self.mod.size(ty), val)

    def constval(self, v, ty):
        """constant operand -> python value (ints / FPV handled by caller type)"""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_addr(v[1])
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'undef':
            return UNDEF
        if k == 'gepc':
            bty, ops = v[1], v[2]
            base = self.constval(ops[0][1], ops[0][0])
            idx = [(t, self.constval(x, t)) for t, x in ops[1:]]
            off = 0
            ty = bty
            for n, (it, ix) in enumerate(idx):
                w = it[1]
                if ix >= 1 << (w - 1):
                    ix -= 1 << w
                if n == 0:
                    off += ix * self.mod.size(ty)
                else:
                    ty = self.mod.resolve(ty)
                    if ty[0] == 'struct':
                        fo, ty = self.mod.field_offset(ty, ix)
                        off += fo
                    else:
                        ty = ty[2]
                        off += ix * self.mod.size(ty)
            return base + off
        if k == 'castc':
            x = self.constval(v[3], v[2])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'addrspacecast'):
                return x
            if v[1] == 'trunc':
                return x & ((1 << v[4][1]) - 1)
        if k == 'binc':
            a = self.constval(v[3], v[2])
            b = self.constval(v[4], v[2])
            N = v[2][1]
            M = (1 << N) - 1
            if v[1] == 'add':
                return (a + b) & M
            if v[1] == 'sub':
                return (a - b) & M
        if k == 'agg':
            return tuple(self.wrapfp(self.constval(x, t), t) for t, x in v[1])
        raise Unsupported('constant %r' % (v,))

    def wrapfp(self, x, ty):
        if ty == 'double' and not isinstance(x, (FPV, FPL)):
            return x if x is UNDEF else FPV(x, 64)
        if ty == 'float' and not isinstance(x, (FPV, FPL)):
            return x if x is UNDEF else FPV(x, 32)
        return x

    def zero_of(self, ty):
        ty = self.mod.resolve(ty)
        if ty == 'double':
            return 0
        if ty == 'float':
            return 0
        if ty == 'ptr' or ty[0] == 'i':
            return 0
        if ty[0] == 'struct':
            return tuple(self.wrapfp(self.zero_of(t), t) for t in ty[1])
        if ty[0] == 'arr':
            return tuple(self.wrapfp(self.zero_of(ty[2]), ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero of %r' % (ty,))

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobj.get(oid)
            if o is None:
                return None
            st.mem[oid] = o
        return o

    def locate(self, st, addr, n, what):
        """-> (object, offset); raises Violation when the access can be invalid"""
        if not isinstance(addr, int):
            if addr is UNDEF:
                raise Violation('undefined-behaviour', what + ' through an uninitialised pointer')
            lo, hi = self.rng(st, addr)
            oid = lo >> OBJ_SHIFT
            o = self.obj(st, oid)
            if o is None or hi >> OBJ_SHIFT != oid or hi - (oid << OBJ_SHIFT) + n > o.size:
                # may it be out of bounds?
                if o is None:
                    # maybe a small negative offset
                    oid = hi >> OBJ_SHIFT
                    o = self.obj(st, oid)
                    if o is None:
                        raise Violation('memory', what + ' through a wild pointer')
                base = oid << OBJ_SHIFT
                inb = c_and([c_le(lin_add(Lin(base, ()), addr.l, -1)),
                             c_le(Lin(addr.l.c - base - o.size + n, addr.l.t))])
                if not self.decide(st, inb):
                    raise Violation('memory', '%s of %d byte(s) outside %s' % (what, n, o.name))
            addr = self.concretize(st, addr, 1024)
        oid = addr >> OBJ_SHIFT
        off = addr & OFF_MASK
        if oid == 0:
            raise Violation('memory', what + ' through a null pointer')
        o = self.obj(st, oid)
        if o is None:
            raise Violation('memory', what + ' through a wild pointer')
        if off + n > o.size:
            o2 = self.obj(st, oid + 1)
            raise Violation('memory', '%s of %d byte(s) at offset %d outside %s (size %d)' % (
                what, n, off if off < 1 << 39 else off - (1 << 40), (o.name if off < 1 << 39 or o2 is None else o2.name), o.size))
        if not o.alive:
            raise Violation('memory', what + ' after end of lifetime of ' + o.name)
        return oid, o, off

    def read(self, st, addr, n):
        oid, o, off = self.locate(st, addr, n, 'read')
        e = o.data.get(off)
        if e is not None and e[0] == n:
            return e[1]
        return self.read_slow(st, o, off, n)

    def byte_at(self, st, o, off):
        d = o.data
        for k in range(off, off - 17, -1):
            e = d.get(k)
            if e is not None:
                if k + e[0] > off:
                    v = e[1]
                    if v is UNDEF:
                        return UNDEF
                    if e[0] == 1:
                        return v
                    i = off - k
                    return self.low(st, self.lshr(st, v, 8 * i), 8)
                break
        return 0 if o.zero else UNDEF

    def read_slow(self, st, o, off, n):
        d = o.data
        parts = []
        k = 0
        alldef = False
        while k < n:
            e = d.get(off + k)
            if e is not None:
                w = e[0]
                if w <= n - k:
                    parts.append((k, w, e[1]))
                    k += w
                    continue
                v = e[1]
                parts.append((k, n - k, v if v is UNDEF else self.low(st, v, 8 * (n - k))))
                break
            for s in range(off + k - 1, off + k - 17, -1):
                e = d.get(s)
                if e is not None:
                    break
            if e is not None and s + e[0] > off + k:
                w = min(n - k, s + e[0] - off - k)
                v = e[1]
                if v is not UNDEF:
                    v = self.low(st, self.lshr(st, v, 8 * (off + k - s)), 8 * w)
                parts.append((k, w, v))
                k += w
                continue
            parts.append((k, 1, 0 if o.zero else UNDEF))
            k += 1
        if all(v is UNDEF for _, _, v in parts):
            return UNDEF
        l = Lin(0, ())
        lo = hi = 0
        for k, w, v in parts:
            if v is UNDEF:
                continue    # padding inside a wider access
            a, b = self.rng(st, v)
            l = lin_add(l, LIN(v), 1 << (8 * k))
            lo += a << (8 * k)
            hi += b << (8 * k)
        return self.mk(st, l, lo, hi)

    def write(self, st, addr, n, val):
        oid, o, off = self.locate(st, addr, n, 'write')
        if not o.writable:
            raise Violation('memory', 'write into constant %s' % o.name)
        if o.owner is not st.token:
            o = o.copy(st.token)
            st.mem[oid] = o
        if o.kind == 'global' and not st.user.get('guard'):
            st.events.append(('gwrite', o.name))
        self.put(st, o, off, n, val)

    def put(self, st, o, off, n, val):
        d = o.data
        e = d.get(off)
        if e is None or e[0] != n:
            for k in range(off - 16, off + n):
                e = d.get(k)
                if e is None:
                    continue
                if k + e[0] <= off:
                    continue
                if k >= off and k + e[0] <= off + n:
                    del d[k]
                    continue
                # partial overlap: explode into bytes
                w, v = e
                bs = [self.byte_at(st, o, k + i) for i in range(w)]
                del d[k]
                for i in range(w):
                    if not (off <= k + i < off + n):
                        d[k + i] = (1, bs[i])
        d[off] = (n, val)

    def copy_mem(self, st, dst, src, n):
        if n == 0:
            return
        so, sobj, soff = self.locate(st, src, n, 'read')
        do, dobj, doff = self.locate(st, dst, n, 'write')
        if not dobj.writable:
            raise Violation('memory', 'write into constant %s' % dobj.name)
        items = []
        k = 0
        while k < n:
            e = sobj.data.get(soff + k)
            if e is not None and k + e[0] <= n:
                items.append((k, e[0], e[1]))
                k += e[0]
                continue
            items.append((k, 1, self.byte_at(st, sobj, soff + k)))
            k += 1
        if dobj.owner is not st.token:
            dobj = dobj.copy(st.token)
            st.mem[do] = dobj
        if dobj.kind == 'global' and not st.user.get('guard'):
            st.events.append(('gwrite', dobj.name))
        for k, w, v in items:
            self.put(st, dobj, doff + k, w, v)

    def load(self, st, addr, ty):
        if ty == 'ptr':
            return self.read(st, addr, 8)
        if ty == 'double':
            v = self.read(st, addr, 8)
            return v if v is UNDEF else FPV(v, 64)
        if ty == 'float':
            v = self.read(st, addr, 4)
            return v if v is UNDEF else FPV(v, 32)
        if isinstance(ty, tuple) and ty[0] == 'i':
            n = (ty[1] + 7) // 8
            v = self.read(st, addr, n)
            if ty[1] == 1 and v is not UNDEF:
                return self.tocond(self.low(st, v, 1)) if not isinstance(v, int) else v & 1
            return v
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            return tuple(self.load(st, self.add(st, addr, self.mod.field_offset(ty, i)[0], 64), f) for i, f in enumerate(ty[1]))
        if ty[0] == 'arr':
            s = self.mod.size(ty[2])
            return tuple(self.load(st, self.add(st, addr, i * s, 64), ty[2]) for i in range(ty[1]))
        if ty == 'x86_fp80':
            return self.read(st, addr, 10)
        raise Unsupported('load of %r' % (ty,))

    def store(self, st, addr, ty, v):
        if ty == 'ptr':
            return self.write(st, addr, 8, v)
        if ty == 'double' or ty == 'float':
            return self.write(st, addr, 8 if ty == 'double' else 4, v if v is UNDEF else v.b)
        if isinstance(ty, tuple) and ty[0] == 'i':
            if isinstance(v, Cond):
                v = self.bit(st, v)
            return self.write(st, addr, (ty[1] + 7) // 8, v)
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            for i, f in enumerate(ty[1]):
                self.store(st, self.add(st, addr, self.mod.field_offset(ty, i)[0], 64), f, UNDEF if v is UNDEF else v[i])
            return
        if ty[0] == 'arr':
            s = self.mod.size(ty[2])
            for i in range(ty[1]):
                self.store(st, self.add(st, addr, i * s, 64), ty[2], UNDEF if v is UNDEF else v[i])
            return
        raise Unsupported('store of %r' % (ty,))

    # ---- floating point
    def fclass_ranges(self, w, mask):
        """ranges of the bit pattern for llvm.is.fpclass mask"""
        m = 52 if w == 64 else 23
        S = 1 << (w - 1)
        inf = ((1 << (w - 1 - m)) - 1) << m
        q = 1 << (m - 1)
        R = []
        if mask & 1:
            R += [(inf + 1, inf + q - 1), (S + inf + 1, S + inf + q - 1)]
        if mask & 2:
            R += [(inf + q, S - 1), (S + inf + q, 2 * S - 1)]
        if mask & 4:
            R.append((S + inf, S + inf))
        if mask & 8:
            R.append((S + (1 << m), S + inf - 1))
        if mask & 0x10:
            R.append((S + 1, S + (1 << m) - 1))
        if mask & 0x20:
            R.append((S, S))
        if mask & 0x40:
            R.append((0, 0))
        if mask & 0x80:
            R.append((1, (1 << m) - 1))
        if mask & 0x100:
            R.append((1 << m, inf - 1))
        if mask & 0x200:
            R.append((inf, inf))
        R.sort()
        out = []
        for lo, hi in R:
            if out and out[-1][1] + 1 == lo:
                out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        return out

    def in_ranges(self, st, b, ranges):
        if isinstance(b, int):
            return any(lo <= b <= hi for lo, hi in ranges)
        blo, bhi = self.rng(st, b)
        cs = []
        for lo, hi in ranges:
            if hi < blo or lo > bhi:
                continue
            if lo <= blo and bhi <= hi:
                return True
            if lo == hi:
                cs.append(c_eq(Lin(b.l.c - lo, b.l.t)))
            else:
                cs.append(c_and([True if lo <= blo else c_le(lin_add(Lin(lo, ()), b.l, -1)),
                                 True if hi >= bhi else c_le(Lin(b.l.c - hi, b.l.t))]))
        return c_or(cs)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, FPL) or isinstance(b, FPL):
            import compile_ir
            return compile_ir.fcmp_linear(self, st, pred, a, b)
        w = a.w
        nanr = self.fclass_ranges(w, 3)
        if isinstance(a.b, Sym) and isinstance(b.b, Sym):
            if a.b.l == b.b.l:
                isn = self.in_ranges(st, a.b, nanr)
                if pred in ('uno', 'une'):
                    return isn
                if pred in ('ord', 'oeq'):
                    return c_not(isn)
                raise Unsupported('fcmp ' + pred)
            raise Unsupported('fcmp of two symbolic values')
        if isinstance(a.b, int) and isinstance(b.b, int):
            x = fval(a)
            y = fval(b)
            un = x != x or y != y
            if pred == 'uno':
                return un
            if pred == 'ord':
                return not un
            if pred == 'true':
                return True
            if pred == 'false':
                return False
            if un:
                return pred[0] == 'u'
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        if isinstance(a.b, int):
            flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
            if pred not in ('uno', 'ord'):
                pred = pred[0] + flip.get(pred[1:], pred[1:])
            a, b = b, a
        isn = self.in_ranges(st, a.b, nanr)
        y = fval(b)
        if y != y:
            return pred in ('uno', 'une') or pred[0] == 'u'
        if pred == 'uno':
            return isn
        if pred == 'ord':
            return c_not(isn)
        m = 52 if w == 64 else 23
        S = 1 << (w - 1)
        inf = ((1 << (w - 1 - m)) - 1) << m
        p = pred[1:]
        yb = b.b
        if yb == S:
            yb = 0
        # ranges of patterns x with x <p> y, ordered values
        neg = yb >= S
        mag = yb - S if neg else yb
        R = []
        if p in ('lt', 'le', 'ne'):
            # values below y
            if neg:
                if mag < inf:
                    R.append((S + mag + 1, S + inf))
            elif mag == 0:
                R.append((S + 1, S + inf))
            else:
                R.append((0, mag - 1))
                R.append((S, S + inf))
        if p in ('gt', 'ge', 'ne'):
            if neg:
                R.append((S, S + mag - 1))
                R.append((0, inf))
            else:
                if mag < inf:
                    R.append((mag + 1, inf))
        if p in ('eq', 'le', 'ge'):
            R.append((yb, yb))
            if yb == 0:
                R.append((S, S))
        if pred[0] == 'u':
            R += nanr
        R.sort()
        out = []
        for lo, hi in R:
            if out and out[-1][1] + 1 >= lo:
                out[-1] = (out[-1][0], max(hi, out[-1][1]))
            else:
                out.append((lo, hi))
        return self.in_ranges(st, a.b, out)

    # ---- running
    def stub_for(self, name):
        s = self.stubs.get(name)
        if s is None:
            for pat, fn in self.stub_patterns:
                if name.startswith(pat):
                    s = self.stubs[name] = fn
                    break
        return s

    def code_of(self, name):
        f = self.mod.funcs[name]
        if f.code is None:
            import compile_ir
            ir.parse_body(self.mod, f)
            compile_ir.compile_func(self, f)
        return f

    def push_call(self, st, name, args, dst=None, normal=None, hook=None):
        f = self.code_of(name)
        self.encoded.add(name)
        fr = Frame()
        fr.fn = f
        fr.code = f.code
        fr.regs = f.tmpl[:]
        for i, a in enumerate(args):
            if i < len(f.params):
                fr.regs[i] = a
        fr.ip = 0
        fr.dst = dst
        fr.normal = normal
        fr.allocas = []
        fr.hook = hook
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported('call depth')

    def pop_ret(self, st, val):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = st.mem[a]
            if o.owner is not st.token:
                o = o.copy(st.token)
                st.mem[a] = o
            o.alive = False
        if fr.hook is not None:
            r = fr.hook(self, st, val)
            if r is not None:
                val = r
        if not st.frames:
            st.done = True
            st.ret = val
            return
        caller = st.frames[-1]
        if fr.dst is not None:
            caller.regs[fr.dst] = val
        if fr.normal is not None:
            fr.normal(self, st, caller)
        else:
            caller.ip += 1

    def explore(self, st, on_exit):
        """run st to all its ends (depth first)"""
        self.on_exit = on_exit
        self._explore(st)

    def _explore(self, st):
        while True:
            fk = vi = None
            try:
                self.run(st)
                self.ensure()
                self.on_exit(self, st)
                self.stats['paths'] += 1
                return
            except Fork as e:
                fk = e.conds
            except PathDone:
                self.stats['paths'] += 1
                return
            except Infeasible:
                self.stats['infeasible'] += 1
                return
            except Violation as e:
                vi = e
            if vi is not None:
                try:
                    if self.violated(st, vi):
                        continue
                except Infeasible:
                    self.stats['infeasible'] += 1
                    return
                self.stats['paths'] += 1
                return
            try:
                if not self.branch(st, fk):
                    return
            except Infeasible:
                self.stats['infeasible'] += 1
                return

    def violated(self, st, v):
        """a violation was reached: decide whether it really has a model.
        True: it has not, and the path goes on."""
        extra = () if v.cond is True else (v.cond,)
        try:
            m = self.solve(extra)
        except Inconclusive as e:
            cand = None
            if self.rmodel is not None:
                cand = {}
                for nm, l in st.user.get('inputs', []):
                    l = LIN(l)
                    x = self.rmodel.eval(z3.Sum([self.rv[k] * c for k, c in l.t] + [z3.RealVal(l.c)]), model_completion=True)
                    cand[nm] = x.numerator_as_long() // x.denominator_as_long() if z3.is_rational_value(x) else None
            self.inconclusive.append({'kind': v.kind, 'msg': v.msg, 'why': str(e), 'candidate': cand,
                                      'info': dict((k, x) for k, x in st.user.items() if isinstance(k, str) and k.startswith('info'))})
            if len(self.inconclusive) >= self.MAX_INCONCLUSIVE:
                raise Enough('%d undecided obligations' % len(self.inconclusive))
            return False
        if m is None:
            if v.cond is True:
                return False
            self.learn(st, c_not(v.cond))
            return True
        self.report(st, v, m)
        return False

    def report(self, st, v, model):
        vals = {}
        for nm, l in st.user.get('inputs', []):
            vals[nm] = self.value(model, l)
        rec = {'kind': v.kind, 'msg': v.msg, 'inputs': vals,
               'info': dict((k, x) for k, x in st.user.items() if isinstance(k, str) and k.startswith('info'))}
        self.violations.append(rec)
        if len(self.violations) >= self.MAX_VIOLATIONS or self.witness_s > 3:
            raise Enough('%d violations' % len(self.violations))

    MAX_VIOLATIONS = 2
    MAX_INCONCLUSIVE = 3

    def branch(self, st, conds):
        """returns True when the same state continues (single feasible option)"""
        feas = []
        n = len(conds)
        last = False
        for i, c in enumerate(conds):
            if c is False:
                continue
            if i == n - 1 and not feas:
                feas.append(c)      # the alternatives are exhaustive
                break
            if i == n - 1 and n == 2:
                feas.append(c)      # nearly always feasible: found out later when it is not
                last = True
                break
            if self.maybe(c):
                feas.append(c)
            else:
                self.stats['infeasible'] += 1
        if not feas:
            return False
        if len(feas) == 1:
            self.fact(feas[0])      # not implied by the relaxation
            self.learn(st, feas[0])
            return True
        self.stats['forks'] += 1
        for i, c in enumerate(feas):
            s2 = st.clone() if i < len(feas) - 1 else st
            if s2 is st:
                s2.token = object()
            mark = self.push()
            self.fact(c)
            self.learn(s2, c)
            self.unsure = last and s2 is st
            try:
                self._explore(s2)
            finally:
                self.unsure = False
                self.pop(mark)
        return False

    def run(self, st):
        steps = 0
        try:
            while not st.done:
                fr = st.frames[-1]
                code = fr.code
                ip = fr.ip
                while True:
                    steps += 1
                    if code[ip](self, st, fr) is None:
                        ip += 1
                        fr.ip = ip
                    else:
                        break
                if st.steps + steps > self.MAXSTEPS:
                    raise Violation('steps', 'no end after %d instructions' % (st.steps + steps))
        finally:
            st.steps += steps
            self.stats['instrs'] += steps

    def start(self, fn, args):
        st = State()
        self.push_call(st, fn, args)
        return st


def fval(f):
    if f.w == 64:
        return struct.unpack('<d', struct.pack('<Q', f.b))[0]
    return struct.unpack('<f', struct.pack('<I', f.b))[0]


def fbits(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000
