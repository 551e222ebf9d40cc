"""Rounding-error analysis of machine terms, in exact rational arithmetic.

A machine term is enclosed as   value = N/D + e   where N, D are polynomials over real
symbols (the exact-arithmetic meaning of the code) and e is an interval of accumulated
rounding error; lo..hi encloses the machine value itself.  Nothing here is approximate:
all bounds are rationals, rounding of each operation is bounded by its documented error
(fixed point: multiplication rounds down, division towards zero; IEEE-754: half an ulp).
"""
from fractions import Fraction
from .mir import Unsupported, INTS, FLOATS, int_range
from .terms import Term, TRUE, FALSE, num_val, round_float
from .models import is_fx
from .field import padd, pmul

F = Fraction
FP = {'f32': (F(1, 1 << 24), F(1, 1 << 149), F(1, 1 << 126), (2 - F(1, 1 << 23)) * F(2) ** 127),
      'f64': (F(1, 1 << 53), F(1, 1 << 1074), F(1, 1 << 1022), (2 - F(1, 1 << 52)) * F(2) ** 1023)}
CONST = ()


def pc_(v):
    return {CONST: F(v)} if v else {}


def psym(s):
    return {((s, 1),): F(1)}


def is_const_poly(p):
    return not p or (len(p) == 1 and CONST in p)


def cval(p):
    return p.get(CONST, F(0))


def pscale(p, c):
    return {k: v * c for k, v in p.items()} if c else {}


def ppow(p, n):
    r = {CONST: F(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


# ---------------------------------------------------------------- intervals

def iadd(a, b):
    return a[0] + b[0], a[1] + b[1]


def isub(a, b):
    return a[0] - b[1], a[1] - b[0]


def imul(a, b):
    c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return min(c), max(c)


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        raise Unsupported('division by an interval containing zero')
    c = (a[0] / b[0], a[0] / b[1], a[1] / b[0], a[1] / b[1])
    return min(c), max(c)


def ipow(a, n):
    if n == 0:
        return F(1), F(1)
    x, y = a[0] ** n, a[1] ** n
    if n % 2 == 0 and a[0] <= 0 <= a[1]:
        return F(0), max(x, y)
    return min(x, y), max(x, y)


def mag(a):
    return max(abs(a[0]), abs(a[1]))


def mig(a):
    return F(0) if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))


def meet(a, b):
    return max(a[0], b[0]), min(a[1], b[1])


def prange(p, box):
    """Enclosure of a polynomial over a box (naive, exact rationals)."""
    lo = hi = F(0)
    for m, c in p.items():
        r = (c, c)
        for s, e in m:
            r = imul(r, ipow(box[s], e))
        lo += r[0]
        hi += r[1]
    return lo, hi


def coeffs(p, s):
    """Coefficients of a univariate polynomial."""
    n = max([dict(m).get(s, 0) for m in p] + [0])
    c = [F(0)] * (n + 1)
    for m, v in p.items():
        d = dict(m)
        e = d.pop(s, 0)
        if d:
            raise Unsupported('polynomial of more variables')
        c[e] += v
    return c


def shift(c, a, w):
    """Coefficients of q(u) = p(a + w*u)."""
    c = list(c)
    n = len(c)
    for i in range(n - 1):
        for j in range(n - 2, i - 1, -1):
            c[j] += a * c[j + 1]
    f = F(1)
    for i in range(n):
        c[i] *= f
        f *= w
    return c


def bern(c):
    """Bernstein coefficients on [0,1]."""
    n = len(c) - 1
    # b_i = sum_k C(i,k)/C(n,k) c_k
    from math import comb
    return [sum(F(comb(i, k), comb(n, k)) * c[k] for k in range(i + 1)) for i in range(n + 1)]


def down(v, bits=96):
    """A nearby rational with a short power-of-two denominator, not above v."""
    return F((v.numerator << bits) // v.denominator, 1 << bits)


def up(v, bits=96):
    return -down(-v, bits)


def bernstein(c, a, b, parts=1):
    """Enclosures of a univariate polynomial over `parts` equal pieces of [a,b]."""
    out = []
    w = (b - a) / parts
    for i in range(parts):
        q = shift(c, a + i * w, w)
        # shorten the coefficients; the difference goes into a margin
        s = [down(x, 110) for x in q]
        slack = F(len(q), 1 << 110)
        bs = bern(s)
        out.append((a + i * w, a + (i + 1) * w, min(bs), max(bs) + slack))
    return out


# ---------------------------------------------------------------- values

class Val:
    __slots__ = ('num', 'den', 'e', 'r')

    def __init__(self, num, den, e, r):
        self.num, self.den, self.e, self.r = num, den, e, r     # r: machine range

    def poly(self):
        if self.den is not None:
            raise Unsupported('rational function where a polynomial is expected')
        return self.num


class Analysis:
    """env: leaf term -> Val.  box: symbol -> interval.  scale_free: float analysis without underflow terms.
    pc: a path whose comparisons bound differences."""

    def __init__(self, env, box, scale_free=False, pc=()):
        self.env, self.box, self.scale_free, self.pc = env, box, scale_free, tuple(pc)
        self.memo = {}
        self.worst = {}

    def leaf(self, t, poly, rng):
        self.env[t] = Val(poly, None, (F(0), F(0)), rng)

    def of(self, t):
        v = self.memo.get(t)
        if v is None:
            v = self.env.get(t) or self.ev(t)
            self.memo[t] = v
        return v

    def real(self, v):
        """Range of the exact value."""
        r = v.r[0] - v.e[1], v.r[1] - v.e[0]
        if v.den is None and not is_const_poly(v.num):
            try:
                q = prange(v.num, self.box)
                r = max(r[0], q[0]), min(r[1], q[1])
            except KeyError:
                pass
        return r

    def ev(self, t):
        op, ty = t.op, t.ty
        v = num_val(t)
        if v is not None:
            return Val(pc_(v), None, (F(0), F(0)), (v, v))
        if op == 'neg':
            a = self.of(t.args[0])
            return Val(pscale(a.num, -1), a.den, (-a.e[1], -a.e[0]), (-a.r[1], -a.r[0]))
        if op in ('add', 'sub'):
            a, b = self.of(t.args[0]), self.of(t.args[1])
            s = 1 if op == 'add' else -1
            if a.den is None and b.den is None:
                num, den = padd(a.num, b.num, s), None
            elif a.den is None:
                num, den = padd(pmul(a.num, b.den), b.num, s), b.den
            elif b.den is None:
                num, den = padd(a.num, pmul(b.num, a.den), s), a.den
            else:
                num, den = padd(pmul(a.num, b.den), pmul(b.num, a.den), s), pmul(a.den, b.den)
            f = iadd if op == 'add' else isub
            z = f(a.r, b.r)
            if den is None:
                try:
                    q = prange(num, self.box)
                    z = meet(z, iadd(q, f(a.e, b.e)))
                except KeyError:
                    pass
            if op == 'sub' and self.pc and ge_on(self.pc, *t.args):
                z = max(F(0), z[0]), max(F(0), z[1])
            return self.round(Val(num, den, f(a.e, b.e), z), ty, 'add')
        if op == 'mul':
            a, b = self.of(t.args[0]), self.of(t.args[1])
            return self.mul(a, b, ty, t.args[0] is t.args[1])
        if op == 'pw' or op == 'fpowi':
            b, n = t.args
            if n.op != 'const' or n.val < 0 or n.val > 64:
                raise Unsupported('power')
            x = self.of(b)
            r = Val(pc_(1), None, (F(0), F(0)), (F(1), F(1)))
            for i in range(n.val):
                r = x if i == 0 else self.mul(r, x, ty, i == 1)
            if op == 'fpowi' and n.val > 2:
                # association of the product is the library's business: twice the error of the plain product
                u = FP[ty][0]
                g = ((1 + u) ** (2 * n.val) - 1) * mag(self.real(r)) * (1 if not x.e[0] and not x.e[1] else 2)
                r = Val(r.num, r.den, (min(2 * r.e[0], -g), max(2 * r.e[1], g)), (r.r[0] - g, r.r[1] + g))
            return r
        if op == 'div':
            a, b = self.of(t.args[0]), self.of(t.args[1])
            if b.den is None and is_const_poly(b.num) and b.e == (0, 0):
                c = cval(b.num)
                if c == 0:
                    raise Unsupported('division by zero')
                e = tuple(sorted((a.e[0] / c, a.e[1] / c)))
                z = tuple(sorted((a.r[0] / c, a.r[1] / c)))
                return self.round(Val(pscale(a.num, 1 / c), a.den, e, z), ty, 'div', power2(c) and abs(c) > 1, abs(c) == 1)
            if a.den is not None or b.den is not None:
                raise Unsupported('nested fraction')
            num, den = cancel(a.num, b.num)
            D = self.real(b)
            q = idiv(self.real(a), D)
            q = self.qrange(num, den, q)
            e = idiv(isub(a.e, imul(q, b.e)), b.r)
            return self.round(Val(num, den, e, iadd(q, e)), ty, 'div')
        if op == 'fabs':
            a = self.of(t.args[0])
            if a.r[0] >= 0:
                return a
            if a.r[1] <= 0:
                return Val(pscale(a.num, -1), a.den, (-a.e[1], -a.e[0]), (-a.r[1], -a.r[0]))
        if op == 'cast' and t.args[0].ty == 'f32' and ty == 'f64':
            return self.of(t.args[0])
        raise Unsupported('error analysis of %s' % op)

    def qrange(self, num, den, q):
        try:
            r = idiv(prange(num, self.box), prange(den, self.box))
            return meet(q, r)
        except (KeyError, Unsupported):
            return q

    def mul(self, a, b, ty, same=False):
        if a.den is None and b.den is None:
            num, den = pmul(a.num, b.num), None
        else:
            num, den = pmul(a.num, b.num), pmul(a.den or pc_(1), b.den or pc_(1))
        A, B = self.real(a), self.real(b)
        e = iadd(iadd(imul(A, b.e), imul(B, a.e)), imul(a.e, b.e))
        z = ipow(a.r, 2) if same else imul(a.r, b.r)
        exact = False
        p2 = False
        for x in (a, b):
            if x.den is None and is_const_poly(x.num) and x.e == (0, 0):
                c = cval(x.num)
                if is_fx(ty) and c.denominator == 1:
                    exact = True
                if power2(c):
                    p2 = True
        return self.round(Val(num, den, e, z), ty, 'mul', p2, exact)

    def round(self, v, ty, kind, p2=False, exact=False):
        """Account for the rounding of one operation with unrounded machine range v.r."""
        z = v.r
        if is_fx(ty):
            d = F(1, 1 << ty[3])
            if kind == 'add' or exact:
                return v
            if kind == 'mul':
                return Val(v.num, v.den, (v.e[0] - d, v.e[1]), (fdown(z[0], d), fdown(z[1], d)))
            lo = -d if z[1] > 0 else F(0)
            hi = d if z[0] < 0 else F(0)
            return Val(v.num, v.den, (v.e[0] + lo, v.e[1] + hi), (ftrunc(z[0], d), ftrunc(z[1], d)))
        if ty in FLOATS:
            u, eta, tiny, big = FP[ty]
            if mag(z) > big:
                raise Unsupported('possible overflow')
            if exact or (p2 and (self.scale_free or mig(z) >= tiny)):
                return v
            m = u * mag(z)
            if kind != 'add' and not self.scale_free:
                m += eta
            r = (z[0] - u * abs(z[0]) - eta, z[1] + u * abs(z[1]) + eta) if self.scale_free else (
                F(round_float(z[0], ty)), F(round_float(z[1], ty)))
            return Val(v.num, v.den, (v.e[0] - m, v.e[1] + m), r)
        if ty in INTS:
            if kind == 'div' and not exact:
                raise Unsupported('integer division')
            return v
        raise Unsupported('rounding of %s' % (ty,))


def power2(c):
    n, d = abs(c.numerator), c.denominator
    return n != 0 and n & (n - 1) == 0 and d & (d - 1) == 0


def fdown(v, d):
    return F((v / d).__floor__()) * d


def ftrunc(v, d):
    q = v / d
    return F(q.__floor__() if q >= 0 else q.__ceil__()) * d


def cancel(num, den):
    """Divide both by their common monomial."""
    com = None
    for p in (num, den):
        for m in p:
            d = dict(m)
            com = d if com is None else {k: min(v, d[k]) for k, v in com.items() if k in d}
    com = com or {}

    def q(p):
        out = {}
        for m, c in p.items():
            d = dict(m)
            for k, v in com.items():
                d[k] -= v
                if not d[k]:
                    del d[k]
            out[tuple(sorted(d.items()))] = c
        return out
    return q(num), q(den)


# ---------------------------------------------------------------- path conditions -> bounds

def nextf(x, ty, up_):
    import numpy as np
    f = np.float32 if ty == 'f32' else np.float64
    return float(np.nextafter(f(x), f(np.inf if up_ else -np.inf)))


def step(v, ty, up_):
    """The representable value strictly above/below v."""
    if ty in FLOATS:
        return F(nextf(float(v), ty, up_))
    d = F(1, 1 << ty[3]) if is_fx(ty) else F(1)
    return v + d if up_ else v - d


def type_range(ty):
    if ty in FLOATS:
        return -FP[ty][3], FP[ty][3]
    lo, hi = int_range(ty)
    d = F(1, 1 << ty[3]) if is_fx(ty) else F(1)
    return lo * d, hi * d


def ge_on(pc, a, b):
    """The path says b <= a."""
    return any(c.op == 'not' and c.args[0].op in ('le', 'lt') and c.args[0].args == (a, b) or
               c.op in ('le', 'lt') and c.args == (b, a) for c in atoms(pc))


def about(pc):
    """Comparisons with constants on the path, by the term they bound."""
    m = _about.get(pc)
    if m is None:
        if len(_about) > 2000:
            _about.clear()
        m = _about[pc] = {}
        for c in atoms(pc):
            pos = True
            if c.op == 'not':
                pos, c = False, c.args[0]
            if c.op not in ('lt', 'le', 'eq'):
                continue
            a, b = c.args
            v, w = num_val(a), num_val(b)
            if w is not None:
                m.setdefault(a, []).append((c.op, pos, True, w))
            if v is not None:
                m.setdefault(b, []).append((c.op, pos, False, v))
    return m


_about = {}


def bounds(pc, t, start=None):
    """Interval of the machine values of term t allowed by comparisons with constants on the path."""
    lo, hi = start or type_range(t.ty)
    cs = about(tuple(pc)).get(t, ())
    for op, pos, left, v in cs:
        if op == 'eq':
            if pos:
                lo, hi = max(lo, v), min(hi, v)
            continue
        # t < v, t <= v, v < t, v <= t (or their negations, over numbers)
        strict, upper = op == 'lt', left
        if not pos:
            upper, strict = not upper, not strict
        if upper:
            hi = min(hi, step(v, t.ty, False) if strict else v)
        else:
            lo = max(lo, step(v, t.ty, True) if strict else v)
    # != at a boundary
    for i in range(2):
        for op, pos, left, v in cs:
            if op == 'eq' and not pos:
                if lo == v:
                    lo = step(v, t.ty, True)
                elif hi == v:
                    hi = step(v, t.ty, False)
    return lo, hi


def atoms(pc):
    for c in pc:
        if c.op == 'and':
            yield from atoms(c.args)
        else:
            yield c


# ---------------------------------------------------------------- reference functions

PI_LO = F(314159265358979323846264338327950288419716939937510, 10 ** 50)
PI_HI = PI_LO + F(1, 10 ** 50)
PI = PI_LO


def sin_poly(n=31):
    """Taylor polynomial of sin, and the bound of its remainder for |x| <= r."""
    c = [F(0)] * (n + 1)
    f = F(1)
    for k in range(1, n + 1):
        f *= k
        if k % 2:
            c[k] = (F(1) if k % 4 == 1 else F(-1)) / f

    def rem(r):
        return r ** (n + 2) / (f * (n + 1) * (n + 2))
    return c, rem


def atan_encl(t):
    """Rational enclosure of atan(t), 0 <= t <= 1."""
    # atan t = 2 atan(t / (1 + sqrt(1 + t^2))); one halving brings the argument below 0.42
    s = sqrt_encl(1 + t * t)
    r = []
    for q in s:
        z = t / (1 + q)
        z = down(z, 100), up(z, 100)
        r.append(z)
    zlo, zhi = min(x[0] for x in r), max(x[1] for x in r)

    def series(z):
        acc, p, n = F(0), z, 1
        z2 = z * z
        while True:
            term = p / n
            if term < F(1, 1 << 80):
                return acc, term
            acc += term if n % 4 == 1 else -term
            acc = down(acc, 160)
            p = down(p * z2, 160)
            n += 2
    a, e1 = series(zlo)
    b, e2 = series(zhi)
    eps = F(1, 1 << 70)
    return 2 * (a - eps), 2 * (b + eps)


def sqrt_encl(x, bits=100):
    from math import isqrt
    n = (x.numerator << (2 * bits)) // x.denominator
    r = isqrt(n)
    return F(r, 1 << bits), F(r + 1, 1 << bits)


# ---------------------------------------------------------------- interval feasibility

def leaves(t):
    r = _leaves.get(t)
    if r is None:
        if len(_leaves) > 50000:
            _leaves.clear()
        r = _leaves[t] = frozenset([t]) if t.op == 'var' else frozenset().union(*[leaves(a) for a in t.args])
    return r


_leaves = {}


class PathAnalysis(Analysis):
    """Analysis whose leaves are variables bounded by the path condition."""

    def __init__(self, pc, start=None):
        super().__init__({}, {}, pc=pc)
        self.start = start

    def ev(self, t):
        if t.op == 'var':
            r = bounds(self.pc, t, self.start.get(t) if self.start else None)
            self.box[t] = r
            return Val(psym(t), None, (F(0), F(0)), r)
        return super().ev(t)


def machine_range(pc, t, start=None, an=None):
    """Enclosure of the machine value of t on a path: rounding analysis met with the path's comparisons."""
    r = (an or PathAnalysis(pc, start)).of(t).r
    b = bounds(pc, t, r)
    return max(r[0], b[0]), min(r[1], b[1])


def infeasible(pc, start=None):
    """A comparison on the path contradicts the enclosures."""
    pc = tuple(pc)
    an = PathAnalysis(pc, start)
    seen = set()
    for c in atoms(pc):
        if c is FALSE:
            return True
        a = c.args[0] if c.op == 'not' else c
        if a.op not in ('lt', 'le', 'eq'):
            continue
        for t in a.args:
            if t in seen:
                continue
            seen.add(t)
            if num_val(t) is not None or t.ty in ('bool', 'nat'):
                continue
            try:
                lo, hi = machine_range(pc, t, start, an)
            except (Unsupported, KeyError, ZeroDivisionError):
                continue
            if lo > hi:
                return True
    return False


class IFeas:
    """Path feasibility by interval enclosure (undecided counts as feasible)."""

    def __init__(self, start=None):
        self.start, self.memo = start, {}

    def __call__(self, pc):
        k = frozenset(pc)
        if k not in self.memo:
            self.memo[k] = not infeasible(pc, self.start)
        return self.memo[k]


class Intervals:
    """Loop invariants for floats: every changed float stays within a box."""

    def __init__(self, box):
        self.box = box
        self.start = {}

    def invariants(self, lp, pol):
        from .terms import cmp, mk
        out = []
        new = {h: self.box for h in lp.havoc.values() if h.ty in FLOATS}
        while new:
            bad = None
            for key, h in lp.havoc.items():
                if h not in new:
                    continue
                st = dict(self.start)
                try:
                    lo, hi = machine_range(lp.entry.pc, pol.at(lp.entry, key), st)
                    ok = self.box[0] <= lo and hi <= self.box[1]
                    st.update(new)
                    for b in lp.back:
                        lo, hi = machine_range(b.pc, pol.at(b, key), st)
                        ok = ok and (lo > hi or (self.box[0] <= lo and hi <= self.box[1]))
                except (Unsupported, KeyError):
                    ok = False
                if not ok:
                    bad = h
                    break
            if bad is None:
                break
            del new[bad]
        for h in new:
            self.start[h] = self.box
            for lo, hi in ((self.box[0], h), (h, self.box[1])):
                a, b = [x if isinstance(x, Term) else mk('const', (), h.ty, round_float(x, h.ty)) for x in (lo, hi)]
                out.append(cmp('le', a, b))
        return out
