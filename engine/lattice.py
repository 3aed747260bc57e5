"""Integer models of a conjunction of linear constraints whose rational relaxation is satisfiable.

Branch and bound over the coordinates of a reduced lattice basis (Lenstra's scheme): equalities with a unit
coefficient are eliminated, the rows are scaled by their width over the polytope, the columns are LLL-reduced
under that scaling, and the coordinates of the reduced basis are enumerated, last one first, within the ranges
which linear programs (Z3) give.  A model is checked by the caller against the original conditions."""
import time, math, random, decimal
from fractions import Fraction
import z3


info = {}


class GiveUp(Exception):
    pass


def lll(G, n, stop):
    """LLL on a Gram matrix (integers) with the orthogonalization in decimal floating point of high precision.
    Returns the transformation U (rows), its inverse V and the coefficients mu of the orthogonalization.
    Rounding errors can only cost quality: U and V are exact."""
    bits = max(max(abs(x) for x in r) for r in G).bit_length()
    ctx = decimal.Context(prec=60 + bits, Emax=10 ** 9, Emin=-10 ** 9)
    with decimal.localcontext(ctx):
        D = decimal.Decimal
        U = [[int(i == j) for j in range(n)] for i in range(n)]
        V = [[int(i == j) for j in range(n)] for i in range(n)]
        mu = [[D(0)] * n for _ in range(n)]
        B = [D(0)] * n
        for i in range(n):
            r = []
            for j in range(i + 1):
                x = D(G[i][j])
                for k in range(j):
                    x -= mu[j][k] * r[k]
                r.append(x)
                if j < i:
                    mu[i][j] = x / B[j]
            B[i] = r[i]
            if B[i] <= 0:
                raise GiveUp()
        with decimal.localcontext() as c2:
            c2.prec = ctx.prec
            k = 1
            it = 0
            half = D('0.51')
            delta = D('0.95')

            def red(k, l):
                if abs(mu[k][l]) <= half:
                    return
                q = int(mu[k][l].to_integral_value())
                Uk, Ul = U[k], U[l]
                for j in range(n):
                    Uk[j] -= q * Ul[j]
                for r in V:
                    r[l] += q * r[k]
                mk, ml = mu[k], mu[l]
                mk[l] -= q
                q = D(q)
                for i in range(l):
                    mk[i] -= q * ml[i]

            while k < n:
                it += 1
                if it & 63 == 0 and time.time() > stop:
                    raise GiveUp()
                red(k, k - 1)
                m = mu[k][k - 1]
                if B[k] < (delta - m * m) * B[k - 1]:
                    U[k], U[k - 1] = U[k - 1], U[k]
                    for r in V:
                        r[k], r[k - 1] = r[k - 1], r[k]
                    b = B[k] + m * m * B[k - 1]
                    t = mu[k][k - 1] = m * B[k - 1] / b
                    B[k] = B[k - 1] * B[k] / b
                    B[k - 1] = b
                    x = mu[k][:k - 1]
                    mu[k][:k - 1] = mu[k - 1][:k - 1]
                    mu[k - 1][:k - 1] = x
                    for i in range(k + 1, n):
                        y = mu[i][k]
                        mu[i][k] = mu[i][k - 1] - m * y
                        mu[i][k - 1] = y + t * mu[i][k]
                    k = max(1, k - 1)
                else:
                    for l in range(k - 2, -1, -1):
                        red(k, l)
                    k += 1
    return U, V, mu


def flatten(conds, truth):
    """atoms of a conjunction; of a disjunction one alternative that holds in the rational model"""
    out = []
    chosen = False
    todo = list(conds)
    while todo:
        c = todo.pop()
        if c is True:
            continue
        if c is False:
            return None, chosen
        if c.k == 'and':
            todo.extend(c.a)
        elif c.k == 'or':
            chosen = True
            for x in c.a:
                if truth(x):
                    todo.append(x)
                    break
            else:
                todo.append(c.a[0])
        else:
            out.append(c)
    return out, chosen


def find(conds, bounds, rat, seconds=10):
    """conds: Cond objects; bounds[v] = (lo, hi); rat(v): value in a rational model.
    ('sat', {v: x}) | ('unsat', None) | ('unknown', None)"""
    stop = time.time() + seconds
    cache = {}

    def val(v):
        x = cache.get(v)
        if x is None:
            x = cache[v] = rat(v)
        return x

    def truth(c):
        if c is True or c is False:
            return c
        if c.k == 'and':
            return all(truth(x) for x in c.a)
        if c.k == 'or':
            return any(truth(x) for x in c.a)
        s = c.a.c + sum(k * val(v) for v, k in c.a.t)
        return s <= 0 if c.k == 'le' else (s == 0 if c.k == 'eq' else s != 0)

    atoms, partial = flatten(conds, truth)
    if atoms is None:
        return 'unsat', None
    try:
        return search(atoms, partial, bounds, val, stop)
    except GiveUp:
        return 'unknown', None


def search(atoms, partial, bounds, val, stop):
    t0 = time.time()
    used = set()
    eqs = []
    rows = []               # (dict, lo, hi)
    for c in atoms:
        t = dict(c.a.t)
        used.update(t)
        if c.k == 'eq':
            eqs.append((t, c.a.c))
        elif c.k == 'le':
            rows.append((t, None, -c.a.c))
        else:
            s = sum(k * val(v) for v, k in c.a.t)
            partial = True
            if s < -c.a.c:
                rows.append((t, None, -c.a.c - 1))
            else:
                rows.append((t, -c.a.c + 1, None))
    for v in used:
        rows.append(({v: 1}, bounds[v][0], bounds[v][1]))
    # eliminate
    sub = {}                # v -> (dict, const)

    def apply(t, c):
        hit = [v for v in t if v in sub]
        while hit:
            for v in hit:
                k = t.pop(v, 0)
                if not k:
                    continue        # cancelled by an earlier substitution
                st, sc = sub[v]
                c += k * sc
                for u, x in st.items():
                    y = t.get(u, 0) + k * x
                    if y:
                        t[u] = y
                    else:
                        t.pop(u, None)
            hit = [v for v in t if v in sub]
        return t, c

    rest = []
    for t, c in eqs:
        t, c = apply(dict(t), c)
        if not t:
            if c:
                return ('unknown' if partial else 'unsat'), None
            continue
        g = 0
        for k in t.values():
            g = math.gcd(g, k)
        if c % g:
            return ('unknown' if partial else 'unsat'), None
        t = dict((v, k // g) for v, k in t.items())
        c //= g
        u = [v for v in t if abs(t[v]) == 1]
        if u:
            # prefer the variable defined last
            v = max(u)
            k = t.pop(v)
            sub[v] = (dict((x, -k * y) for x, y in t.items()), -k * c)
        else:
            rest.append((t, c))
    R = {}
    for t, lo, hi in rows + [(t, -c, -c) for t, c in rest]:
        t, c = apply(dict(t), 0)
        lo = None if lo is None else lo - c
        hi = None if hi is None else hi - c
        if not t:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return ('unknown' if partial else 'unsat'), None
            continue
        it = sorted(t.items())
        g = 0
        for _, k in it:
            g = math.gcd(g, k)
        if it[0][1] < 0:
            g = -g
        key = tuple((v, k // g) for v, k in it)
        if g > 0:
            lo = None if lo is None else -((-lo) // g)
            hi = None if hi is None else hi // g
        else:
            lo, hi = (None if hi is None else -((-hi) // g) if False else math.ceil(Fraction(hi, g)),
                      None if lo is None else math.floor(Fraction(lo, g)))
        a, b = R.get(key, (None, None))
        if lo is not None and (a is None or lo > a):
            a = lo
        if hi is not None and (b is None or hi < b):
            b = hi
        R[key] = (a, b)
    free = sorted(set(v for key in R for v, _ in key))
    n = len(free)

    def finish(x):
        m = dict(x)

        def get(v):
            r = m.get(v)
            if r is None:
                if v not in sub:
                    r = bounds[v][0]
                else:
                    t, c = sub[v]
                    r = c + sum(k * get(u) for u, k in t.items())
                m[v] = r
            return r
        for v in range(len(bounds)):
            get(v)
        return m

    if n == 0:
        return 'sat', finish({})
    if n > 60:
        raise GiveUp()
    pos = dict((v, i) for i, v in enumerate(free))
    zs = [z3.Real('x%d' % i) for i in range(n)]
    opt = z3.Optimize()
    keys = list(R)
    # a central start keeps the numbers of the linear programs small
    def zrow(key):
        return z3.Sum([zs[pos[v]] * k for v, k in key])
    for key in keys:
        lo, hi = R[key]
        e = zrow(key)
        if lo is not None:
            opt.add(e >= lo)
        if hi is not None:
            opt.add(e <= hi)
    points = []

    def lp(e, up):
        left = stop - time.time()
        if left <= 0:
            raise GiveUp()
        opt.push()
        opt.set('timeout', int(left * 1000) + 1)
        h = opt.maximize(e) if up else opt.minimize(e)
        r = opt.check()
        if r == z3.unsat:
            opt.pop()
            return None
        if r != z3.sat:
            opt.pop()
            raise GiveUp()
        m = opt.model()
        x = [m.eval(z, model_completion=True) for z in zs]
        opt.pop()
        if not all(z3.is_rational_value(y) for y in x):
            raise GiveUp()
        return [Fraction(y.numerator_as_long(), y.denominator_as_long()) for y in x]

    def at(key, x):
        return sum(k * x[pos[v]] for v, k in key)

    # widths
    width = {}
    for key in keys:
        e = zrow(key)
        a = lp(e, False)
        if a is None:
            return ('unknown' if partial else 'unsat'), None
        b = lp(e, True)
        lo, hi = at(key, a), at(key, b)
        points.append(a)
        points.append(b)
        if math.ceil(lo) > math.floor(hi):
            return ('unknown' if partial else 'unsat'), None
        if math.ceil(lo) > lo:
            opt.add(e >= math.ceil(lo))
        if math.floor(hi) < hi:
            opt.add(e <= math.floor(hi))
        width[key] = hi - lo
    info.update(n=n, rows=len(keys), t_lp=time.time() - t0)
    # scaled Gram matrix
    wmax = max(width.values())
    P = max(1, math.ceil(wmax)).bit_length() + 24
    scale = dict((k, (1 << P) * 4 if width[k] * 4 < 1 else max(1, int((1 << P) / width[k]))) for k in keys)
    cols = [[0] * len(keys) for _ in range(n)]
    for i, key in enumerate(keys):
        for v, k in key:
            cols[pos[v]][i] = k * scale[key]
    G = [[sum(x * y for x, y in zip(cols[i], cols[j])) for j in range(n)] for i in range(n)]
    U, V, mu = lll(G, n, stop)
    info['t_lll'] = time.time() - t0
    # x = sum_j y_j b_j,  y = x V  (x as a row vector)
    ys = [z3.Sum([zs[i] * V[i][j] for i in range(n) if V[i][j]]) for j in range(n)]

    def point(y):
        """the point with integer coordinates y, when it satisfies every row"""
        x = [sum(y[i] * U[i][k] for i in range(n)) for k in range(n)]
        for key in keys:
            lo, hi = R[key]
            s = at(key, x)
            if (lo is not None and s < lo) or (hi is not None and s > hi):
                return None
        return x

    # points near random inner points of the polytope (nearest plane)
    den = 1 << 200
    mf = [[int(mu[i][j].scaleb(0) * den) if j < i else 0 for j in range(n)] for i in range(n)]
    corner = []
    for p in points:
        p = [int(x * den) for x in p]
        corner.append([sum(p[i] * V[i][j] for i in range(n)) for j in range(n)])
    rnd = random.Random(1)
    for k in range(400):
        if time.time() > stop:
            raise GiveUp()
        ws = [1 if k == 0 else rnd.expovariate(1) ** (1 + k % 3) for _ in corner]
        tot = sum(ws)
        ws = [int(w / tot * (1 << 60)) for w in ws]
        tot = sum(ws)
        t = [sum(w * c[j] for w, c in zip(ws, corner)) // tot for j in range(n)]
        y = [0] * n
        for j in range(n - 1, -1, -1):
            z = (t[j] + den // 2) // den
            y[j] = z
            e = t[j] - z * den
            if e:
                mj = mf[j]
                for i in range(j):
                    t[i] += e * mj[i] // den
        x = point(y)
        if x is not None:
            info['tries'] = k + 1
            return 'sat', finish(dict((v, x[pos[v]]) for v in free))
    info['t_near'] = time.time() - t0

    def rec(j, y):
        if j < 0:
            return point(y)
        yv = lambda x: sum(x[i] * V[i][j] for i in range(n))
        a = lp(ys[j], False)
        if a is None:
            return None
        b = lp(ys[j], True)
        lo, hi = math.ceil(yv(a)), math.floor(yv(b))
        if lo > hi:
            return None
        mid = (yv(a) + yv(b)) / 2
        c = round(mid)
        c = min(hi, max(lo, c))
        tried = 0
        step = 0
        while True:
            for z in ((c,) if step == 0 else (c + step, c - step)):
                if lo <= z <= hi:
                    tried += 1
                    opt.push()
                    opt.add(ys[j] == z)
                    y[j] = z
                    r = rec(j - 1, y)
                    opt.pop()
                    if r is not None:
                        return r
            step += 1
            if c + step > hi and c - step < lo:
                return None

    x = rec(n - 1, [0] * n)
    if x is None:
        return ('unknown' if partial else 'unsat'), None
    return 'sat', finish(dict((v, x[pos[v]]) for v in free))
