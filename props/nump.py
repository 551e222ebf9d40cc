"""Contracts of the numeric approximations (C12, C13, C14): error bounds proved by rounding-error analysis."""
import time
from fractions import Fraction
from mirvc.core import *
from mirvc import smt, mir, err
from mirvc.err import FP, padd, psym, pc_
from mirvc.mir import INTS, FLOATS, INT_W, int_range, is_signed, subst, tstr
from mirvc.terms import mk, arith, neg, cmp, const, not_, and_, or_, TRUE, FALSE, round_float, num_val
from mirvc.models import lit, is_fx
from mirvc.exec import State, Outcome, Agg
from mirvc.loops import Policy, IntFeas, numeral
from mirvc.terms import Term, var
from .complexp import sig, base, kind
from .realp import isreal, pi_of

F = Fraction
PL, PH = err.PI_LO, err.PI_HI


def delta(T_):
    return F(1, 1 << T_[3]) if is_fx(T_) else 2 * FP[T_][0]


def num(v, T_):
    """The constant v (representable) of type T_."""
    return mk('const', (), T_, int(F(v) * (1 << T_[3])) if is_fx(T_) else round_float(F(v), T_))


def machine(v, T_):
    """A machine value next to v."""
    return F(int(F(v) / delta(T_))) * delta(T_) if is_fx(T_) else F(round_float(F(v), T_))


class Obs:
    """Obligations of one function, with their worst outcome."""

    def __init__(self, label, f, T_, names, backend):
        self.t0 = time.time()
        self.T = T_
        self.d = {n: Ob('%s: %s' % (label, n), f.name, OK, backend, types=(T_,)) for n in names}

    def worse(self, n, status, detail, hints=()):
        o = self.d[n]
        rank = {OK: 0, UNDEC: 1, FAILED: 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail = status, detail
        o.hints += list(hints)

    def list(self):
        for o in self.d.values():
            o.t = (time.time() - self.t0) / len(self.d)
        return list(self.d.values())


def hint(v, T_):
    """A failing argument for the replay."""
    b = int(F(v) * (1 << T_[3])) if is_fx(T_) else None
    return {'value': repr(float(v)), 'bits': b}


def overflow_free(O, name, pc, partials, an):
    """Every intermediate result of the path is representable."""
    for t, k in partials:
        if t.ty in FLOATS or t.op in ('const', 'lit'):
            continue
        lo, hi = err.type_range(t.ty)
        try:
            r = an.of(t).r
        except (Unsupported, KeyError) as e:
            O.worse(name, UNDEC, '%s: %s' % (t, e))
            continue
        if r[0] < lo or r[1] > hi:
            O.worse(name, UNDEC, '%s may leave the range of the type: %s to %s' % (t, float(r[0]), float(r[1])))


# ------------------------------------------------------------------ C13

SIN, SREM = err.sin_poly(31)


def sin_tol(T_):
    return F(4, 10 ** 6) + (40 * delta(T_) if is_fx(T_) else 16 * delta(T_))


def sin_check(world, f, T_, env):
    label = 'trigonometry::sin::<%s>' % tstr(T_)
    names = ['within the error bound of the true sine on [-pi,pi]', 'does not panic', 'performs no operation that may overflow']
    O = Obs(label, f, T_, names, 'rounding-error analysis + Bernstein enclosure')
    st = State()
    args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
    x = deep(st, args[0])
    P = num_val(pi_of(T_, 1))
    pre = [cmp('le', num(-P, T_), x), cmp('le', x, num(P, T_))]
    try:
        run = Run(world, f, env, feasible=err.IFeas(), unroll=40, args=args, pre=pre, st=st)
    except Unsupported as e:
        return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=(T_,))]
    tol = sin_tol(T_)
    rem = SREM(P)
    for o in run.outs:
        pc = o.st.pc
        ps = ' && '.join(map(str, pc))[:300]
        if o.kind == 'panic':
            O.worse(names[1], UNDEC, 'panic (%s) under [%s]' % (o.why, ps))
            continue
        lo, hi = err.bounds(pc, x)
        if lo > hi:
            continue
        an = err.Analysis({}, {x: (lo, hi)})
        an.leaf(x, psym(x), (lo, hi))
        overflow_free(O, names[2], pc, o.st.partials, an)
        try:
            v = an.of(deep(o.st, o.val))
            c = err.coeffs(v.poly(), x)
        except (Unsupported, KeyError) as e:
            O.worse(names[0], UNDEC, 'under [%s]: %s' % (ps, e))
            continue
        D = [a - b for a, b in zip(c + [F(0)] * (len(SIN) - len(c)), SIN + [F(0)] * (len(c) - len(SIN)))]
        e = err.mag(v.e) + rem
        if lo == hi:
            parts = [(lo, lo, horner(D, lo), horner(D, lo))]
        else:
            parts = err.bernstein(D, lo, hi, 16)
        bad = [(a, b) for a, b, l, h in parts if max(-l, h) + e > tol]
        for a, b in bad:
            for l2, h2, l, h in err.bernstein(D, a, b, 16) if a < b else [(a, b, horner(D, a), horner(D, a))]:
                if max(-l, h) + e <= tol:
                    continue
                p = [(abs(horner(D, q)), q) for q in (machine(l2 + (h2 - l2) * i / 8, T_) for i in range(9)) if lo <= q <= hi]
                if p and max(p)[0] - e > tol:
                    O.worse(names[0], FAILED, 'at x = %s the error is at least %s, bound %s' % (
                        float(max(p)[1]), float(max(p)[0] - e), float(tol)), [hint(max(p)[1], T_)])
                else:
                    O.worse(names[0], UNDEC, 'error up to %s near %s under [%s]' % (float(max(-l, h) + e), float(l2), ps),
                            [hint(l2, T_)])
    return O.list()


def horner(c, x):
    r = F(0)
    for a in reversed(c):
        r = r * x + a
    return r


def cos_check(world, f, T_, env):
    """cos(x) = sin(wrap(x + pi/2)) against the contracts of wrap_phase (C11) and sin (above)."""
    label = 'trigonometry::cos::<%s>' % tstr(T_)
    names = ['within the error bound of the true cosine', 'does not panic', 'performs no operation that may overflow',
             'calls wrap_phase and sin within their preconditions']
    O = Obs(label, f, T_, names, 'callee contracts + rounding-error analysis')
    d = delta(T_)
    P = num_val(pi_of(T_, 1))
    half = machine(P / 2, T_)
    st = State()
    args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
    x = deep(st, args[0])
    # arguments whose shift is representable (fixed), or which the wrap accepts (floats)
    X = err.type_range(T_)[1] - half - d if is_fx(T_) else F(99990)
    X = machine(X, T_)
    low = err.type_range(T_)[0] if is_fx(T_) else -X
    pre = [cmp('le', num(low, T_), x), cmp('le', x, num(X, T_))]
    wraps = {id(g) for n in ('wrap_phase', 'mixed_wrap_phase') for g in world.fns(n)}
    sins = {id(g) for g in world.fns('sin') if len(g.params) == 1 and not g.impl_span}
    ctx = Ctx()

    def callee(ex, st, fn, env, args, rty):
        if id(fn) in wraps:
            t = mk('WRAP', (deep(st, args[0]),), T_)
        elif id(fn) in sins:
            t = mk('SIN', (deep(st, args[0]),), T_)
        else:
            return None
        return [Outcome('ret', st, t)]
    ctx.fn_contracts['callee'] = callee
    try:
        run = Run(world, f, env, ctx=ctx, feasible=None, unroll=40, args=args, pre=pre, st=st)
    except Unsupported as e:
        return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=(T_,))]
    for o in run.outs:
        pc = o.st.pc
        ps = ' && '.join(map(str, pc))[:300]
        lo, hi = err.bounds(pc, x)
        if lo > hi:
            continue
        if o.kind == 'panic':
            O.worse(names[1], UNDEC, 'panic (%s) under [%s]' % (o.why, ps))
            continue
        r = deep(o.st, o.val)
        if r.op != 'SIN' or r.args[0].op != 'WRAP':
            O.worse(names[0], UNDEC, 'returns %s' % r)
            continue
        t = r.args[0].args[0]
        an = err.Analysis({}, {x: (lo, hi)})
        an.leaf(x, psym(x), (lo, hi))
        overflow_free(O, names[2], pc, [p for p in o.st.partials if not has(p[0], ('SIN', 'WRAP'))], an)
        try:
            v = an.of(t)
            off = padd(v.poly(), psym(x), -1)
            if not err.is_const_poly(off):
                raise Unsupported('the shift is not a constant: %s' % t)
        except (Unsupported, KeyError) as e:
            O.worse(names[0], UNDEC, str(e))
            continue
        if T_ in FLOATS and err.mag(v.r) > 100000:
            O.worse(names[3], UNDEC, 'wrap_phase is called outside its domain')
        # w = x + c + 2 k P + rounding, |w| <= P;   cos x = sin(x + pi/2) = sin(x + pi/2 + 2 k pi)
        c = err.cval(off)
        shift = max(abs(c - PL / 2), abs(c - PH / 2))
        dp = max(abs(P - PL), abs(P - PH))
        slope = dp / P                      # 2|k| |P - pi| <= (|x| + c + P) |P - pi| / P
        A = sin_tol(T_) + shift + slope * (abs(c) + P)
        B = slope
        C = F(0)
        if T_ in FLOATS:
            u = FP[T_][0]
            # x + c: one rounding; each turn: two, of values below |x| + |c| + 1; at most (|t| + P)/(2P - 1/100) + 1 turns
            m = abs(c) + 2
            per = 2 * u
            n0, n1 = (m + P) / (2 * P - F(1, 100)) + 1, 1 / (2 * P - F(1, 100))
            A += u * m + per * m * n0
            B += u + per * (n0 + m * n1)
            C += per * n1
            want = (F(4, 10 ** 6) + d * (32 + 16), 8 * d, d)
        else:
            want = (F(4, 10 ** 6) + 60 * d, d, F(0))
        got = (A, B, C)
        if any(g > w for g, w in zip(got, want)):
            st_ = UNDEC
            O.worse(names[0], st_, 'error up to %s + %s|x| + %s x^2, bound %s + %s|x| + %s x^2' % tuple(map(float, got + want)),
                    [hint(F(0), T_), hint(F(1, 2), T_)])
    return O.list()


def has(t, ops):
    return t.op in ops or any(has(a, ops) for a in t.args)


def c13(world):
    miss = []
    sins = [f for f in world.fns('sin') if len(f.params) == 1 and not f.impl_span and kind(f.params[0]) == 'scalar']
    coss = [f for f in world.fns('cos') if len(f.params) == 1 and not f.impl_span and kind(f.params[0]) == 'scalar']
    if not sins:
        miss.append('trigonometry::sin')
    if not coss:
        miss.append('trigonometry::cos')
    types = [T_ for T_ in (base(f.params[0]) for f in world.fns('mixed_wrap_phase'))
             if T_ in FLOATS or (is_fx(T_) and T_[1] == 'I' and T_[3] >= 12 and T_[2] - T_[3] >= 21)]
    if len(types) < 34:
        miss.append('types: %d of 34' % len(types))
    tasks = [(sin_check, f, T_) for f in sins for T_ in types] + [(cos_check, f, T_) for f in coss for T_ in types]
    return pmap(world, lambda t: t[0](world, t[1], t[2], {p: t[2] for p in mir.GENERIC_NAMES}), tasks), miss


# ------------------------------------------------------------------ C14

NSEG = 256
_atan = {}


def atan_table():
    """Enclosures of atan at the centres of NSEG segments of [0,1]."""
    if not _atan:
        for i in range(NSEG):
            c = F(2 * i + 1, 2 * NSEG)
            _atan[i] = err.atan_encl(c)
        _atan['pi4'] = (PL / 4, PH / 4)
    return _atan


class Piece:
    """Region of the plane: signs of y and x, and which is larger in magnitude ('t': the ratio smaller/larger in (0,1))."""

    def __init__(self, sy, sx, order):
        self.sy, self.sx, self.order = sy, sx, order      # order: '<' |y|<|x|, '>' , '='

    def __str__(self):
        def s(v, n):
            return n + {1: ' > 0', -1: ' < 0', 0: ' = 0'}[v]
        return '%s, %s%s' % (s(self.sy, 'y'), s(self.sx, 'x'), '' if not (self.sx and self.sy) else ', |y| %s |x|' % self.order)

    def polys(self):
        m, mt = psym('m'), {(('m', 1), ('t', 1)): F(1)}
        y = m if self.order in '>=' else mt
        x = m if self.order in '<=' else mt
        return (err.pscale(y, self.sy), err.pscale(x, self.sx))

    def target(self, a):
        """Enclosure of the angle from the enclosure a of the arctangent of the ratio."""
        P = (PL, PH)
        if self.order == '>':
            r = err.isub((PL / 2, PH / 2), a) if self.sx > 0 else err.iadd((PL / 2, PH / 2), a)
        else:
            r = a if self.sx > 0 else err.isub(P, a)
        return r if self.sy > 0 else (-r[1], -r[0])

    def slope(self):
        """d target / d atan"""
        s = 1 if self.order != '>' and self.sx > 0 else -1
        if self.order == '>':
            s = -1 if self.sx > 0 else 1
        return s * self.sy


def sign_of(p, box):
    """Possible signs of a polynomial in m > 0 and 0 < t < 1."""
    if not p:
        return {0}
    degs = {dict(k).get('m', 0) for k in p}
    if len(degs) == 1:
        q = {}
        for k, v in p.items():
            d = dict(k)
            d.pop('m', None)
            q[tuple(sorted(d.items()))] = v
        b = err.bern(err.coeffs(q, 't'))
        if all(v >= 0 for v in b):
            return {1}
        if all(v <= 0 for v in b):
            return {-1}
    lo, hi = err.prange(p, box)
    return {s for s, ok in ((-1, lo < 0), (0, lo <= 0 <= hi), (1, hi > 0)) if ok}


class PieceFeas:
    def __init__(self, env, box, zero_sign):
        self.env, self.box, self.zero_sign = env, box, zero_sign
        self.memo = {}

    def __call__(self, pc):
        return not any(self.truth(c) is False for c in err.atoms(pc))

    def truth(self, c):
        if c not in self.memo:
            try:
                self.memo[c] = self.ev(c)
            except (Unsupported, KeyError, ZeroDivisionError):
                self.memo[c] = None
        return self.memo[c]

    def exact(self, t):
        """Exact polynomial with the sign of t."""
        an = err.Analysis(dict(self.env), self.box, scale_free=True)
        v = an.of(t)
        if v.den is None and v.e == (0, 0):
            return v.num
        return None

    def ev(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c.op == 'not':
            v = self.ev(c.args[0])
            return None if v is None else not v
        if c.op == 'and':
            vs = [self.ev(a) for a in c.args]
            return False if False in vs else True if all(v is True for v in vs) else None
        if c.op == 'or':
            vs = [self.ev(a) for a in c.args]
            return True if True in vs else False if all(v is False for v in vs) else None
        if c.op == 'fsign':
            p = self.exact(c.args[0])
            if p is None:
                return None
            s = sign_of(p, self.box)
            if s == {0}:
                return self.zero_sign
            return True if s == {-1} else False if s == {1} else None
        if c.op in ('lt', 'le', 'eq'):
            a, b = c.args
            p = None
            if num_val(b) == 0 and a.op == 'sub' or num_val(a) == 0 and b.op == 'sub':
                # the sign of a rounded difference is the sign of the difference
                s = a if a.op == 'sub' and num_val(b) == 0 else b
                u, v = self.exact(s.args[0]), self.exact(s.args[1])
                if u is not None and v is not None:
                    p = padd(u, v, -1)
                    if s is b:
                        p = err.pscale(p, -1)
            if p is None:
                u, v = self.exact(a), self.exact(b)
                if u is None or v is None:
                    return None
                p = padd(u, v, -1)
            s = sign_of(p, self.box)
            yes = {'lt': {-1}, 'le': {-1, 0}, 'eq': {0}}[c.op]
            return True if s <= yes else False if not (s & yes) else None
        return None


def peval(p, t):
    return sum(c * t ** dict(k).get('t', 0) for k, c in p.items())


def drop_m(num, den):
    num, den = err.cancel(num, den)
    for p in (num, den):
        for k in p:
            if 'm' in dict(k):
                raise Unsupported('the result depends on the magnitude')
    return num, den


def pdiff(p):
    out = {}
    for k, c in p.items():
        d = dict(k)
        n = d.get('t', 0)
        if n:
            d['t'] = n - 1
            if not d['t']:
                del d['t']
            q = tuple(sorted(d.items()))
            out[q] = out.get(q, F(0)) + c * n
    return out


def atan_error(num, den, piece):
    """Enclosure of |num/den - target| on the piece, with a worst point: (bound, t, error there)."""
    tab = atan_table()
    if piece.order == '=':
        R = peval(num, F(1)) / peval(den, F(1))
        lo, hi = piece.target(tab['pi4'])
        e = max(abs(R - lo), abs(R - hi))
        return e, F(1), e
    dn, dd = pdiff(num), pdiff(den)
    worst, at, there = F(0), F(0), F(0)
    for i in range(NSEG):
        t0, t1 = F(i, NSEG), F(i + 1, NSEG)
        c = (t0 + t1) / 2
        R = peval(num, c) / peval(den, c)
        lo, hi = piece.target(tab[i])
        e = max(abs(R - lo), abs(R - hi))
        bx = {'t': (t0, t1)}
        D = err.prange(den, bx)
        Q = err.isub(err.imul(err.prange(dn, bx), D), err.imul(err.prange(num, bx), err.prange(dd, bx)))
        R1 = err.idiv(Q, err.ipow(D, 2))
        s = piece.slope()
        A1 = (s / (1 + t1 * t1), s / (1 + t0 * t0))
        A1 = min(A1), max(A1)
        b = e + err.mag(err.isub(R1, A1)) * (t1 - t0) / 2
        if b > worst:
            worst = b
        if e > there:
            there, at = e, c
    return worst, at, there


def m_boxes(T_):
    if T_ in FLOATS:
        return [(F(1), F(2))]
    d = delta(T_)
    hi = err.sqrt_encl(err.type_range(T_)[1])[1]
    m2 = 64 * d
    out = []
    b = hi
    while True:
        a = err.down(b * F(6, 7), 80)
        out.append((a, b))
        if a * a <= m2:
            return out
        b = a


def atan_tol(T_, m):
    d = delta(T_)
    if T_ in FLOATS:
        return F(52, 10000) + 16 * d
    return F(52, 10000) + 8 * d + 4 * d / (m * m)


def atan2_check(world, f, T_, env):
    label = 'trigonometry::atan2::<%s>' % tstr(T_)
    names = ['within 0.0052 rad of the true angle in every octant', 'exact on the axes and at the origin', 'does not panic',
             'performs no operation that may overflow']
    O = Obs(label, f, T_, names, 'rounding-error analysis + enclosure of arctangent')
    d = delta(T_)
    P = num_val(pi_of(T_, 1))
    fx = is_fx(T_)
    half = F(int(P / d / 2)) * d if fx else P / 2
    mb = m_boxes(T_)
    whole = {'m': (mb[-1][0], mb[0][1]), 't': (F(0), F(1))}
    pieces = [Piece(sy, sx, o) for sy in (1, -1) for sx in (1, -1) for o in '<>=']
    axes = [(0, 1, F(0)), (0, -1, P), (0, 0, F(0)), (1, 0, half), (-1, 0, -half)]

    def execute(sy, sx, polys, box, zero_sign):
        st = State()
        args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
        y, x = [deep(st, a) for a in args]
        envv = {}
        for v, p, s in ((y, polys[0], sy), (x, polys[1], sx)):
            r = err.prange(p, box)
            envv[v] = err.Val(p, None, (F(0), F(0)), r)
        feas = PieceFeas(envv, box, zero_sign)
        run = Run(world, f, env, feasible=feas, unroll=40, args=args, st=st)
        return run, (y, x)

    def leafs(an, yx, polys, box):
        for v, p in zip(yx, polys):
            an.leaf(v, p, err.prange(p, box))

    def no_overflow(pc, partials, yx, polys, box):
        an = err.Analysis({}, box)
        leafs(an, yx, polys, box)
        lo, hi = err.type_range(T_)
        for t, k in partials:
            if t.ty != T_ or t.op in ('const', 'lit'):
                continue
            try:
                v = an.of(t)
                if v.r[0] >= lo and v.r[1] <= hi:
                    continue
                # a quadratic form below the sum of the squares, rounded down
                p, degs = {}, set()
                for k2, c in v.poly().items():
                    dd = dict(k2)
                    degs.add(dd.pop('m', 0))
                    p[tuple(sorted(dd.items()))] = c
                if degs == {2} and v.e[1] <= 0:
                    ss = {(): F(1), (('t', 2),): F(1)} if polys[0] != polys[1] and polys[0] != err.pscale(polys[1], -1) else {(): F(2)}
                    up_ = err.bern(err.coeffs(padd(ss, p, -1), 't'))
                    dn_ = err.bern(err.coeffs(padd(err.pscale(ss, F(1, 2)), p), 't'))
                    if min(up_) >= 0 and min(dn_) >= 0:
                        continue
                O.worse(names[3], UNDEC, '%s may leave the range of the type' % t)
            except (Unsupported, KeyError) as e:
                O.worse(names[3], UNDEC, '%s: %s' % (t, e))

    for sy, sx, want in axes:
        polys = [err.pscale(psym('m'), s) for s in (sy, sx)]
        try:
            run, yx = execute(sy, sx, polys, whole, False)
        except Unsupported as e:
            return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=(T_,))]
        where = 'y %s, x %s' % tuple({1: '> 0', -1: '< 0', 0: '= 0'}[s] for s in (sy, sx))
        for o in run.outs:
            if o.kind == 'panic':
                O.worse(names[2], UNDEC, 'panic (%s) for %s' % (o.why, where))
                continue
            r = deep(o.st, o.val)
            an = err.Analysis({}, whole)
            leafs(an, yx, polys, whole)
            try:
                v = an.of(r)
                if v.den is not None or v.e != (0, 0) or not err.is_const_poly(v.num):
                    raise Unsupported('not a constant: %s' % r)
                if err.cval(v.num) != want:
                    ok = all(PieceFeas(an.env, whole, False).truth(c) for c in err.atoms(o.st.pc))
                    O.worse(names[1], FAILED if ok else UNDEC, 'for %s returns %s, contract says %s' % (
                        where, float(err.cval(v.num)), float(want)), [hint(1, T_)])
            except (Unsupported, KeyError) as e:
                O.worse(names[1], UNDEC, '%s: %s' % (where, e))
            no_overflow(o.st.pc, o.st.partials, yx, polys, whole)
    for pc_e in pieces:
        polys = pc_e.polys()
        try:
            run, yx = execute(pc_e.sy, pc_e.sx, polys, whole, None)
        except Unsupported as e:
            return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=(T_,))]
        for o in run.outs:
            if o.kind == 'panic':
                O.worse(names[2], UNDEC, 'panic (%s) for %s' % (o.why, pc_e))
                continue
            r = deep(o.st, o.val)
            certain = all(PieceFeas({v: err.Val(p, None, (F(0), F(0)), err.prange(p, whole)) for v, p in zip(yx, polys)}, whole, None).truth(c)
                          for c in err.atoms(o.st.pc))
            res = None
            for bx in mb:
                for t0, t1 in ([(F(0), F(1, 2)), (F(1, 2), F(3, 4)), (F(3, 4), F(1))] if pc_e.order != '=' else [(F(1), F(1))]):
                    box = {'m': bx, 't': (t0, t1)}
                    an = err.Analysis({}, box, scale_free=not fx)
                    leafs(an, yx, polys, box)
                    try:
                        v = an.of(r)
                        if res is None:
                            nd = drop_m(v.num, v.den or pc_(1))
                            res = atan_error(nd[0], nd[1], pc_e)
                        e = err.mag(v.e)
                    except (Unsupported, KeyError, ZeroDivisionError) as ex:
                        O.worse(names[0], UNDEC, '%s: %s' % (pc_e, ex))
                        continue
                    if res[0] + e > atan_tol(T_, bx[1]):
                        slack = 2 * d / bx[0] if fx else 4 * d
                        bad = certain and t0 <= res[1] <= t1 and res[2] - e - slack > atan_tol(T_, bx[0])
                        O.worse(names[0], FAILED if bad else UNDEC, 'for %s the error reaches %s at ratio %s (rounding %s), bound %s' % (
                            pc_e, float(res[2]), float(res[1]), float(e), float(atan_tol(T_, bx[1]))),
                            [hint(res[1], T_)] + ([hint(res[1] * bx[0], T_), hint(bx[0], T_)] if fx else []))
                if fx and mb.index(bx) < 3:
                    for t0, t1 in ((F(0), F(1)),):
                        no_overflow(o.st.pc, o.st.partials, yx, polys, {'m': bx, 't': (t0, t1)})
            if fx:
                no_overflow(o.st.pc, o.st.partials, yx, polys, {'m': (mb[-1][0], mb[3][1]) if len(mb) > 3 else mb[-1], 't': (F(0), F(1))})
    return O.list()


def same_call(world, f, T_, env, label, order):
    """f(args) = atan2(...) of the arguments in the given order, against the contract of atan2."""
    names = ['equals the four-quadrant arctangent of its arguments', 'does not panic']
    O = Obs(label, f, T_, names, 'callee contract')
    st = State()
    args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
    vals = [deep(st, a) for a in args]
    tgt = {id(g) for g in world.fns('atan2') if len(g.params) == 2 and not g.impl_span}
    ctx = Ctx()

    def callee(ex, st, fn, env, args, rty):
        if id(fn) in tgt:
            return [Outcome('ret', st, mk('ATAN2', tuple(deep(st, a) for a in args), T_))]
        return None
    ctx.fn_contracts['callee'] = callee
    try:
        run = Run(world, f, env, ctx=ctx, unroll=40, args=args, st=st)
    except Unsupported as e:
        return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=(T_,))]
    want = mk('ATAN2', tuple(order(vals)), T_)
    for o in run.outs:
        if o.kind == 'panic':
            O.worse(names[1], UNDEC, 'panic (%s)' % o.why)
        elif deep(o.st, o.val) is not want:
            O.worse(names[0], UNDEC, 'returns %s' % (deep(o.st, o.val),))
    return O.list()


def c14(world):
    miss = []
    at2 = [f for f in world.fns('atan2') if len(f.params) == 2 and not f.impl_span and kind(f.params[0]) == 'scalar']
    at1 = [f for f in world.fns('atan') if len(f.params) == 1 and not f.impl_span and kind(f.params[0]) == 'scalar']
    polys = [f for f in world.fns('mixed_atan2_poly') if len(f.params) == 2 and isreal(base(f.params[0]))]
    if not at2:
        miss.append('trigonometry::atan::atan2')
    if not at1:
        miss.append('trigonometry::atan::atan')
    types = [T_ for T_ in (base(f.params[0]) for f in world.fns('mixed_wrap_phase'))
             if T_ in FLOATS or (is_fx(T_) and T_[1] == 'I' and T_[3] >= 8)]
    have = {base(f.params[0]) for f in polys}
    for T_ in types:
        if T_ not in have:
            miss.append('mixed_atan2_poly of %s' % tstr(T_))
    atan_table()

    def one(t):
        k, f, T_ = t
        env = {p: T_ for p in mir.GENERIC_NAMES}
        if k == 'at2':
            return atan2_check(world, f, T_, env)
        if k == 'at1':
            return same_call(world, f, T_, env, 'trigonometry::atan::<%s>' % tstr(T_), lambda v: (v[0], lit(1, T_)))
        return same_call(world, f, T_, {}, sig(f), lambda v: v)
    tasks = [('at2', f, T_) for f in at2 for T_ in types] + [('at1', f, T_) for f in at1 for T_ in types if lit(1, T_) is not None]
    tasks += [('poly', f, base(f.params[0])) for f in polys]
    return pmap(world, one, tasks), miss


# ------------------------------------------------------------------ C12

REL = F(6, 1000)         # relative error of the estimate
ULP = 9                  # plus so many units in the last place of the normalised estimate


def srange(lo, hi):
    return err.sqrt_encl(lo)[0], err.sqrt_encl(hi)[1]


def split(p):
    """Coefficients of the powers of 'e' as polynomials in 's'."""
    out = {}
    for k, c in p.items():
        d = dict(k)
        n = d.pop('e', 0)
        out.setdefault(n, {})[tuple(sorted(d.items()))] = c
    return out


def prange_se(p, box):
    """Enclosure of a polynomial in s and e: Bernstein in s for each power of e."""
    r = (F(0), F(0))
    for n, q in split(p).items():
        a, b = box['s']
        c = err.coeffs(q, 's')
        if a < b:
            e = err.bernstein(c, a, b, 8)
            e = (min(x[2] for x in e), max(x[3] for x in e))
        else:
            e = (horner(c, a),) * 2
        r = err.iadd(r, err.imul(e, err.ipow(box['e'], n)) if n else e)
    return r


class Niirf(Policy):
    """Loops of the square root: normalisation (closed form), iteration (|y - sqrt X| <= E), denormalisation."""

    def __init__(self, T_):
        super().__init__(invariants=self.near_invariants, floats='euf')
        self.T = T_
        self.near = {}          # iterate -> (X, E)
        self.why = []

    def argument(self, t):
        """The value whose root t estimates: the only variable of t other than iterates."""
        xs = {self.near[v][0] if v in self.near else v for v in err.leaves(t) if v.ty == self.T}
        if len(xs) != 1:
            raise Unsupported('estimate of several values: %s' % t)
        return xs.pop()

    def setup(self, pc, X):
        lo, hi = err.bounds(pc, X)
        if lo > hi:
            return None
        if lo <= 0:
            raise Unsupported('argument not bounded away from zero')
        s = srange(lo, hi)
        an = err.Analysis({}, {'s': s, 'e': (F(0), F(0))}, pc=pc)
        an.leaf(X, {(('s', 2),): F(1)}, (lo, hi))
        return an, s

    def deviation(self, pc, t, h=None, E=None):
        """(sup |t - sqrt X|, s range) on the path, rounding included; None if infeasible."""
        X = self.argument(t) if h is None else (h[1] if isinstance(h, tuple) else None)
        hv = h[0] if h is not None else None
        S = self.setup(pc, X)
        if S is None:
            return None
        an, s = S
        for v in err.leaves(t):
            if v in self.near:
                self.iterate(an, v, s, self.near[v][1])
        if hv is not None:
            self.iterate(an, hv, s, E)
        v = an.of(t)
        D = padd(v.poly(), psym('s'), -1)
        return err.mag(err.iadd(prange_se(D, an.box), v.e)), s, an

    def iterate(self, an, v, s, E):
        an.box['e'] = (-E, E)
        an.leaf(v, {(('s', 1),): F(1), (('e', 1),): F(1)}, (s[0] - E, s[1] + E))

    def near_invariants(self, lp, pol):
        out = []
        for key, h in lp.havoc.items():
            if key in lp.forms or h.ty != self.T:
                continue
            try:
                y0 = self.at(lp.entry, key)
                X = self.argument(y0)
                r = self.deviation(lp.entry.pc, y0)
                if r is None:
                    continue
                E = err.up(r[0], 24)
                for b in lp.back:
                    q = self.deviation(b.pc, self.at(b, key), (h, X), E)
                    if q is not None and q[0] > E:
                        raise Unsupported('the iteration may move away from the root: %s to %s' % (float(E), float(q[0])))
            except (Unsupported, KeyError) as e:
                self.why.append(str(e))
                continue
            self.near[h] = (X, E)
            out.append(cmp('le', numeral(r[1][0] - E, h.ty, False), h))
            out.append(cmp('le', h, numeral(r[1][1] + E, h.ty, True)))
        return out

    def range(self, pc, t):
        """Machine range, sharpened for estimates of a root."""
        r = super().range(pc, t)
        try:
            if any(v in self.near for v in err.leaves(t)):
                q = self.deviation(pc, t)
                if q is not None:
                    r = max(r[0], q[1][0] - q[0]), min(r[1], q[1][1] + q[0])
        except (Unsupported, KeyError):
            pass
        return r


def niirf_check(world, f, T_, env):
    label = 'trigonometry::niirf::<%s>' % tstr(T_)
    names = ['n >= 2 iterations: within 0.6 % and rounding of the square root', 'zero for zero', 'depends on |x| only',
             'terminates', 'does not panic', 'performs no operation that may overflow']
    rough = is_fx(T_) and T_[3] < 8         # two iterations, and no accuracy claimed
    if rough:
        names[0] = 'two iterations: returns a value of the type'
    O = Obs(label, f, T_, names, 'loop invariants + rounding-error analysis')
    d = delta(T_) if is_fx(T_) else F(0)
    st = State()
    args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
    if rough:
        args[1] = mk('const', (), f.params[1], 2)
    x, n = [deep(st, a) for a in args]
    zero = lit(0, T_)
    ax = var('absx', T_)
    big = err.type_range(T_)[1]
    tiny = d if is_fx(T_) else FP[T_][1]
    pre = [cmp('le', const(2, n.ty), n)]
    signed = T_ in FLOATS or T_[1] == 'I'
    pre += [cmp('le', num(-big if signed else 0, T_), x), cmp('le', x, num(big, T_))]
    abses = {id(g) for g in world.fns('mixed_abs')}
    ctx = Ctx()

    def callee(ex, st, fn, env, args, rty):
        if id(fn) in abses and len(args) == 1 and deep(st, args[0]) is x:
            st.assume(cmp('le', zero, ax))
            st.assume(cmp('le', ax, num(big, T_)))
            if not_(cmp('eq', x, zero)) in st.pc:
                st.assume(cmp('le', num(tiny, T_), ax))
            return [Outcome('ret', st, ax)]
        return None
    ctx.fn_contracts['mixed_abs (C15)'] = callee
    pol = Niirf(T_)
    fi, ff = IntFeas(), err.IFeas()
    try:
        run = Run(world, f, env, ctx=ctx, feasible=lambda pc: fi(pc) and ff(pc), policy=pol, unroll=20, args=args, pre=pre, st=st)
    except Unsupported as e:
        return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s; %s' % (e, pol.why), types=(T_,))]
    for o in run.outs:
        pc = o.st.pc
        ps = ' && '.join(map(str, pc))[:600]
        if o.kind == 'panic':
            O.worse(names[4], UNDEC, 'panic (%s) under [%s]' % (o.why, ps))
            continue
        r = deep(o.st, o.val)
        if any(cmp('eq', v, zero) in pc or err.bounds(pc, v) == (0, 0) for v in (x, ax)):
            if r is not zero and r is not x and r is not ax:
                O.worse(names[1], UNDEC, 'returns %s' % r)
            continue
        if x in err.leaves(r) or any(x in err.leaves(c) for c in err.atoms(pc) if c not in pre and c is not not_(cmp('eq', x, zero))):
            O.worse(names[2], UNDEC, 'under [%s] returns %s' % (ps, r))
        h = []
        if rough:
            no_ovf(O, names[5], pc, o.st.partials, pol)
            continue
        try:
            # outer rescaling of the estimate
            y, sy, ky = r, 0, None
            if r in pol.facts:
                _, y, sy, ky = pol.facts[r]
            X = pol.argument(y)
            a, sx, kx = X, 0, None
            if X in pol.facts:
                _, a, sx, kx = pol.facts[X]
            if a is not ax:
                raise Unsupported('estimate of the root of %s' % a)
            if X in err.leaves(y) and y is X:
                raise Unsupported('no estimate')
            q = pol.deviation(pc, y)
            if q is None:
                continue
            sup, s, an = q
            if sup > REL * s[0] + ULP * d:
                h = [hint(machine(s[0] * s[0], T_), T_), hint(machine(s[1] * s[1], T_), T_), hint(machine((s[0] + s[1]) ** 2 / 4, T_), T_)]
                raise Unsupported('error of the normalised estimate up to %s for roots from %s to %s' % (float(sup), float(s[0]), float(s[1])))
            if kx is None and ky is None:
                pass                                            # error below 0.006 s + 9 d
            elif kx is not None and ky is not None and sx == -2 * sy and abs(sy) == 1 or \
                    kx is not None and ky is not None and (sx, sy) in ((2, -1), (-2, 1)):
                # |x| = X 4^-k up to one unit of X when halved, result = y 2^k up to one unit when halved:
                # the error is at most 0.006 s + 10 d when halving, 0.006 s + 20 d s when doubling (X >= 1/4)
                if not pol.prove_int(pc, mk('eq', (kx, ky), 'bool')):
                    raise Unsupported('number of denormalisations %s, normalisations %s' % (ky, kx))
                if s[0] * s[0] < F(1, 4) - 4 * F(1, 10 ** 20):
                    raise Unsupported('normalised below a quarter: %s' % float(s[0]))
            else:
                raise Unsupported('normalised by 2^(%s k), result rescaled by 2^(%s k)' % (sx, sy))
        except (Unsupported, KeyError) as e:
            O.worse(names[0], UNDEC, 'under [%s]: %s %s' % (ps, e, pol.why), h)
        no_ovf(O, names[5], pc, o.st.partials, pol)
    if any(not lp.terminates for lp in pol.loops) or not pol.loops:
        O.worse(names[3], UNDEC, 'no termination argument')
    return O.list()


def no_ovf(O, name, pc, partials, pol, memo={}):
    for t, k in partials:
        if t.op in ('const', 'lit') or t.ty in FLOATS:
            continue
        if t.ty in INTS:
            if not pol.prove_int(pc[:k], mk('inrng', (t,), 'bool')):
                O.worse(name, UNDEC, '%s may overflow' % t)
            continue
        lo, hi = err.type_range(t.ty)
        if t.op == 'sub' and lo == 0:
            # never below zero where the path compares the operands
            if err.ge_on(pc[:k], *t.args):
                lo = -hi
        try:
            r = pol.range(pc[:k], t)
        except (Unsupported, KeyError) as e:
            O.worse(name, UNDEC, '%s: %s' % (t, e))
            continue
        if r[0] < lo or r[1] > hi:
            O.worse(name, UNDEC, '%s may leave the range of the type: %s to %s' % (t, float(r[0]), float(r[1])))


def root_call(world, f, T_):
    """mixed_niirf and the fixed-point mixed_sqrt are niirf with two iterations."""
    label = sig(f)
    names = ['equals niirf of its argument with at least two iterations', 'does not panic']
    O = Obs(label, f, T_, names, 'callee contract')
    st = State()
    args = [sym(p, st, 'a%d' % i) for i, p in enumerate(f.params)]
    vals = [deep(st, a) for a in args]
    tgt = {id(g) for g in world.fns('niirf') if len(g.params) == 2 and not g.impl_span}
    ctx = Ctx()

    def callee(ex, st, fn, env, args, rty):
        if id(fn) in tgt:
            return [Outcome('ret', st, mk('NIIRF', tuple(deep(st, a) for a in args), T_))]
        return None
    ctx.fn_contracts['niirf'] = callee
    try:
        run = Run(world, f, {}, ctx=ctx, unroll=40, args=args, st=st)
    except Unsupported as e:
        return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=(T_,))]
    for o in run.outs:
        r = deep(o.st, o.val) if o.kind == 'ret' else None
        if o.kind == 'panic':
            O.worse(names[1], UNDEC, 'panic (%s)' % o.why)
        elif r.op != 'NIIRF' or r.args[0] is not vals[0] or r.args[1].op != 'const' or r.args[1].val < 2:
            O.worse(names[0], UNDEC, 'returns %s' % r)
    return O.list()


def c12(world):
    miss = []
    ns = [f for f in world.fns('niirf') if len(f.params) == 2 and not f.impl_span and kind(f.params[0]) == 'scalar']
    ms = [f for f in world.fns('mixed_niirf') if len(f.params) == 1 and isreal(base(f.params[0]))]
    sq = [f for f in world.fns('mixed_sqrt') if len(f.params) == 1 and is_fx(base(f.params[0]))]
    if not ns:
        miss.append('trigonometry::sqrt::niirf')
    if len(ms) < 226:
        miss.append('mixed_niirf: %d of 226 types' % len(ms))
    types = [T_ for T_ in dict.fromkeys(base(f.params[0]) for f in ms) if T_ in FLOATS or is_fx(T_)]
    tasks = [('own', f, T_) for f in ns for T_ in types]
    tasks += [('call', f, base(f.params[0])) for f in ms + sq]

    def one(t):
        k, f, T_ = t
        if k == 'own':
            return niirf_check(world, f, T_, {p: T_ for p in mir.GENERIC_NAMES})
        return root_call(world, f, T_)
    return pmap(world, one, tasks), miss
