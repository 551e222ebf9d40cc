"""Z3 back end: encodes terms and decides path-condition => goal.

Theories used:
  * abstract component types: uninterpreted sort, every operation an
    uninterpreted function (so a proof holds in floats and fixed point alike);
  * integers and fixed point: mathematical integers (the stored bits), exact
    meaning of every operation, wrapping ones modulo 2^n;
  * floats: IEEE-754 theory (mode 'fp') or uninterpreted (mode 'euf').
"""
import time
from fractions import Fraction
import z3
from .mir import INTS, FLOATS, INT_W, int_range, is_signed, tstr
from .terms import Term, TRUE, FALSE, mk, num_val, not_, and_, cmp
from .models import is_fx, is_abs

STATS = {'queries': 0, 'time': 0.0}


class NoEnc(Exception):
    pass


# operations with a meaning of their own that is not encoded: no counterexample rests on them
OPAQUE = {'band', 'bor', 'bxor', 'bnot', 'shl', 'shr', 'to_bits', 'from_bits', 'fxbits', 'fxfrombits', 'fbits', 'clz'}


class Enc:
    def __init__(self, floats='euf', nonlinear=True):
        self.floats = floats
        self.nonlinear = nonlinear
        self.memo = {}
        self.sorts = {}
        self.ufs = {}
        self.side = []
        self.vars = {}
        self.lits = {}
        self.opaque = False

    # ---- sorts
    def sort(self, ty):
        if ty == 'bool':
            return z3.BoolSort()
        if ty in INTS or is_fx(ty) or ty in ('char', 'nat'):
            return z3.IntSort()
        if ty in FLOATS and self.floats == 'fp':
            return z3.Float32() if ty == 'f32' else z3.Float64()
        k = tstr(ty)
        if k not in self.sorts:
            self.sorts[k] = z3.DeclareSort('T_' + k)
        return self.sorts[k]

    def uf(self, name, args, ty):
        self.opaque = self.opaque or name in OPAQUE
        k = (name, tuple(a.sort().sexpr() if hasattr(a.sort(), 'sexpr') else str(a.sort()) for a in args), tstr(ty))
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function('%s!%d' % (name, len(self.ufs)), *[a.sort() for a in args], self.sort(ty))
            self.ufs[k] = f
        r = f(*args)
        if ty in INTS or is_fx(ty):
            lo, hi = int_range(ty)
            self.side.append(z3.And(r >= lo, r <= hi))
        return r

    def wrap(self, x, ty):
        lo, hi = int_range(ty)
        n = hi - lo + 1
        if lo == 0:
            return x % n
        return (x - lo) % n + lo

    def tdiv(self, a, b):
        """truncating division of z3 ints"""
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def e(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._e(t)
            self.memo[t] = r
        return r

    def isnum(self, ty):
        return ty in INTS or is_fx(ty) or ty in ('char', 'nat')

    def _e(self, t):
        op, ty = t.op, t.ty
        if t is TRUE:
            return z3.BoolVal(True)
        if t is FALSE:
            return z3.BoolVal(False)
        if op == 'const':
            if self.isnum(ty):
                return z3.IntVal(t.val)
            if ty in FLOATS and self.floats == 'fp':
                return z3.FPVal(t.val, self.sort(ty))
        if op in ('const', 'lit'):
            k = (ty, repr(t.val))
            if k not in self.lits:
                c = z3.Const('lit_%s_%s' % (tstr(ty), t.val), self.sort(ty))
                for (ty2, _), c2 in self.lits.items():
                    if ty2 == ty and not is_abs(ty):
                        self.side.append(c != c2)
                self.lits[k] = c
            return self.lits[k]
        if op == 'var':
            v = z3.Const(t.val + '#' + tstr(ty), self.sort(ty))
            self.vars[t] = v
            if ty in INTS or is_fx(ty):
                lo, hi = int_range(ty)
                self.side.append(z3.And(v >= lo, v <= hi))
            elif ty == 'nat':
                self.side.append(v >= 0)
            return v
        a = [self.e(x) for x in t.args]
        at = [x.ty for x in t.args]
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'ite':
            return z3.If(*a)
        if op == 'eq_id':
            return a[0] == a[1]
        if op == 'eq' and at[0] == 'bool':
            return a[0] == a[1]
        if at and all(self.isnum(x) for x in at):
            r = self.int_op(t, op, a, at, ty)
            if r is not None:
                return r
        if at and self.floats == 'fp':
            r = self.fp_op(t, op, a, at, ty)
            if r is not None:
                return r
        return self.uf(op + ('' if t.val is None else '_' + str(t.val)), a, ty)

    def int_op(self, t, op, a, at, ty):
        fx = is_fx(at[0])
        if op == 'eq':
            return a[0] == a[1]
        if op == 'lt':
            return a[0] < a[1]
        if op == 'le':
            return a[0] <= a[1]
        if op == 'lin':
            return a[0] + t.val[0] * (a[1] + t.val[1])
        if op == 'cong':
            return (a[0] - a[1]) % t.val == 0
        if op == 'inrng':
            lo, hi = int_range(at[0])
            return z3.And(a[0] >= lo, a[0] <= hi)
        if op in ('add', 'wadd', 'ovf_add', 'fxovf_add', 'sadd'):
            x = a[0] + a[1]
        elif op in ('sub', 'wsub', 'ovf_sub', 'fxovf_sub', 'ssub'):
            x = a[0] - a[1]
        elif op in ('mul', 'wmul', 'ovf_mul', 'fxovf_mul', 'smul'):
            if not self.nonlinear and not any(z3.is_int_value(y) for y in a):
                return None
            x = a[0] * a[1]
            if fx:
                x = x / (1 << at[0][3])
        elif op == 'neg' or op in ('wneg', 'sneg', 'uneg'):
            x = -a[0]
        elif op == 'div':
            if fx:
                return self.tdiv(a[0] * (1 << at[0][3]), a[1])
            return self.tdiv(a[0], a[1])
        elif op == 'rem':
            return a[0] - a[1] * self.tdiv(a[0], a[1])
        elif op == 'cast' and ty in INTS:
            (l1, h1), (l2, h2) = int_range(at[0]) if at[0] != 'char' else (0, 0x10ffff), int_range(ty)
            return a[0] if l2 <= l1 and h1 <= h2 else self.wrap(a[0], ty)
        elif op == 'fx_from' and is_fx(ty):
            F = ty[3]
            if at[0] in INTS:
                return a[0] * (1 << F)
            d = F - at[0][3]
            return a[0] * (1 << d) if d >= 0 else a[0] / (1 << -d)
        elif op == 'fx_to' and ty in INTS:
            return a[0] / (1 << at[0][3])
        elif op == 'fxbits' or op == 'fxfrombits':
            return a[0]
        elif op == 'wabs':
            x = z3.If(a[0] < 0, -a[0], a[0])
        elif op == 'fxfloor':
            return a[0] - a[0] % (1 << at[0][3])
        elif op == 'fxshl' and z3.is_int_value(a[1]):
            x = a[0] * (1 << a[1].as_long())
            return self.wrap(x, at[0])
        elif op in ('fxshr', 'shr') and z3.is_int_value(a[1]):
            return a[0] / (1 << a[1].as_long())
        elif op == 'shl' and z3.is_int_value(a[1]):
            return self.wrap(a[0] * (1 << a[1].as_long()), at[0])
        elif op == 'bnot' and at[0] in INTS:
            return -a[0] - 1 if is_signed(at[0]) else int_range(at[0])[1] - a[0]
        elif op == 'band' and z3.is_int_value(a[1]) and (a[1].as_long() + 1) & a[1].as_long() == 0 and a[1].as_long() >= 0:
            return a[0] % (a[1].as_long() + 1)
        else:
            return None
        if op in ('ovf_add', 'ovf_sub', 'ovf_mul', 'fxovf_add', 'fxovf_sub', 'fxovf_mul'):
            lo, hi = int_range(at[0])
            return z3.Or(x < lo, x > hi)
        if op[0] == 'w' or op == 'uneg':
            return self.wrap(x, ty)
        if op[0] == 's' and op != 'sub':
            lo, hi = int_range(ty)
            return z3.If(x < lo, lo, z3.If(x > hi, hi, x))
        return x

    def fp_op(self, t, op, a, at, ty):
        RM = z3.RNE()
        fl = [x in FLOATS for x in at]
        if all(fl):
            if op == 'eq':
                return z3.fpEQ(a[0], a[1])
            if op == 'lt':
                return z3.fpLT(a[0], a[1])
            if op == 'le':
                return z3.fpLEQ(a[0], a[1])
            if op in ('add', 'sub', 'mul', 'div'):
                f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
                return f(RM, a[0], a[1])
            if op == 'neg':
                return z3.fpNeg(a[0])
            if op == 'fabs':
                return z3.fpAbs(a[0])
            if op == 'fsign':
                return z3.fpIsNegative(a[0])
            if op == 'isfin':
                return z3.Not(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsInf(a[0])))
            if op == 'cast' and ty in FLOATS:
                return z3.fpToFP(RM, a[0], self.sort(ty))
            if op == 'cast' and ty in INTS:
                return self.f2i(a[0], ty)
        if op == 'cast' and at[0] in INTS and ty in FLOATS:
            return self.uf('i2f', a, ty)
        return None

    def f2i(self, x, ty):
        return self.uf('f2i', [x], ty)


def _model(m, enc):
    out = {}
    for t, v in enc.vars.items():
        x = m.eval(v, model_completion=True)
        if z3.is_int_value(x):
            val = x.as_long()
            if is_fx(t.ty):
                out[t.val] = {'bits': val, 'value': str(Fraction(val, 1 << t.ty[3])), 'type': tstr(t.ty)}
            else:
                out[t.val] = {'value': str(val), 'type': tstr(t.ty)}
        elif z3.is_fp(x):
            s = str(x)
            try:
                bv = m.eval(z3.fpToIEEEBV(x), model_completion=True).as_long()
                import struct
                s = repr(struct.unpack('<f' if t.ty == 'f32' else '<d', bv.to_bytes(4 if t.ty == 'f32' else 8, 'little'))[0])
            except Exception:
                pass
            out[t.val] = {'value': s, 'type': tstr(t.ty)}
        else:
            out[t.val] = {'value': str(x), 'type': tstr(t.ty)}
    return out


def check(assertions, enc, timeout=10000):
    """'unsat' | ('sat', model) | 'unknown' for a list of z3 formulas."""
    s = z3.Solver()
    s.set('timeout', timeout)
    for x in assertions:
        s.add(x)
    for x in enc.side:
        s.add(x)
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', _model(s.model(), enc)
    return 'unknown', None


def prove(pc, goal, floats='euf', timeout=10000, extra=(), nonlinear=True):
    """pc, extra: terms assumed. Returns ('ok'|'cex'|'unknown', info)."""
    if goal is TRUE or any(p is FALSE for p in pc):
        return 'ok', 'trivial'
    enc = Enc(floats, nonlinear)
    try:
        fs = [enc.e(p) for p in list(pc) + list(extra)] + [z3.Not(enc.e(goal))]
    except (NoEnc, z3.Z3Exception) as e:
        return 'unknown', 'encoding: %s' % e
    r, m = check(fs, enc, timeout)
    if r == 'unsat':
        return 'ok', 'z3'
    if r == 'sat':
        return ('unknown', 'bit operations not encoded: %s' % (m,)) if enc.opaque else ('cex', m)
    return 'unknown', 'z3 timeout'


def prove_eq(pc, a, b, floats='euf', timeout=10000):
    """Identity of two terms (same value, not float ==)."""
    if a is b:
        return 'ok', 'identical'
    enc = Enc(floats)
    try:
        fs = [enc.e(p) for p in pc] + [enc.e(a) != enc.e(b)]
    except (NoEnc, z3.Z3Exception) as e:
        return 'unknown', 'encoding: %s' % e
    r, m = check(fs, enc, timeout)
    if r == 'sat' and enc.opaque:
        return 'unknown', 'bit operations not encoded: %s' % (m,)
    return {'unsat': ('ok', 'z3'), 'sat': ('cex', m), 'unknown': ('unknown', 'z3 timeout')}[r]


class Feas:
    """Path feasibility oracle for the executor (unknown counts as feasible)."""

    def __init__(self, floats='euf', extra=(), timeout=2000):
        self.floats, self.extra, self.timeout, self.memo = floats, tuple(extra), timeout, {}

    def __call__(self, pc):
        k = frozenset(pc)
        if k in self.memo:
            return self.memo[k]
        enc = Enc(self.floats)
        try:
            fs = [enc.e(p) for p in list(pc) + list(self.extra)]
            r = check(fs, enc, self.timeout)[0] != 'unsat'
        except (NoEnc, z3.Z3Exception):
            r = True
        self.memo[k] = r
        return r
