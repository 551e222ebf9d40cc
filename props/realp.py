"""Contracts of the real types (C08, C09, C15-C19): per implementing type."""
import math
from fractions import Fraction
from mirvc.core import *
from mirvc.core import check_fn, known
from mirvc import smt
from mirvc.mir import INTS, FLOATS, INT_W, int_range, is_signed, subst, tstr
from mirvc.terms import mk, arith, neg, cmp, ite, cast, const, not_, and_, or_, TRUE, FALSE, round_float, round_even
from mirvc.models import lit, is_fx, MIXED_UF
from mirvc.exec import tup
from .complexp import sig, base, kind

PRIMS = sorted(INTS | FLOATS)


def isprim(t):
    return t in INTS or t in FLOATS


def isreal(t):
    return isprim(t) or is_fx(t)


# ------------------------------------------------------------------ C08

def c08(world):
    obs, n = [], 0
    for s in ('mixed_from_num', 'mixed_to_num'):
        for f in world.fns(s):
            if len(f.params) != 1:
                continue
            a, r = base(f.params[0]), f.ret
            if not (isprim(a) and isprim(r)):
                continue
            n += 1
            obs += check_conv(world, f, lambda x, r=r: (cast(x, r), {}), (a, r))
    return obs, ([] if n >= 392 else ['%d of 392 conversions found' % n])


def check_conv(world, f, spec, tys):
    """Conversions: identity of terms, else bit-precise SMT for primitives."""
    obs = check_fn(world, f, {}, spec, sig(f), types=[t for t in tys])
    return obs


# ------------------------------------------------------------------ C09

def norm_fx(t):
    """Drop value-preserving inner casts: fx_from(x as wider) = fx_from(x)."""
    if not t.args:
        return t
    a = [norm_fx(x) for x in t.args]
    if t.op == 'fx_from':
        x = a[0]
        while x.op == 'cast' and exact_cast(x.args[0].ty, x.ty):
            x = x.args[0]
        return mk('fx_from', (x,), t.ty)
    from mirvc.terms import rebuild
    return rebuild(t, a)


def exact_cast(fr, to):
    if fr in INTS and to in INTS:
        (l1, h1), (l2, h2) = int_range(fr), int_range(to)
        return l2 <= l1 and h1 <= h2
    if fr == 'f32' and to == 'f64':
        return True
    if fr in INTS and to in FLOATS:
        w = INT_W[fr] - (1 if is_signed(fr) else 0)
        return w <= (24 if to == 'f32' else 53)
    return False


class FxCtx(Ctx):
    def fx_from(self, ex, st, x, ty):
        while x.op == 'cast' and exact_cast(x.args[0].ty, x.ty):
            x = x.args[0]
        return super().fx_from(ex, st, x, ty)


def c09(world):
    obs, n = [], 0
    for s in ('mixed_from_num', 'mixed_to_num'):
        for f in world.fns(s):
            if len(f.params) != 1:
                continue
            a, r = base(f.params[0]), f.ret
            if is_fx(r) and isprim(a):
                sp = lambda x, r=r: (mk('fx_from', (x,), r), {})
            elif is_fx(a) and isprim(r):
                sp = lambda x, r=r: (mk('fx_to', (x,), r), {})
            else:
                continue
            n += 1
            obs += check_fn(world, f, {}, sp, sig(f), types=(a, r), ctx=FxCtx())
    return obs, ([] if n >= 6272 else ['%d of 6272 conversions found' % n])


# ------------------------------------------------------------------ goals over paths

def check_goal(world, fn, label, goal, pre=None, types=(), ctx=None, env=None, clause='result', panic_free=True,
               floats='fp', timeout=15000, unroll=0, policy=None, extra_goals=None):
    """Under pre, every path returns a value satisfying goal; no panic, no overflow."""
    t0 = time.time()
    nm = '%s: ' % label
    try:
        feas = smt.Feas(floats)
        from mirvc.exec import State
        st = State()
        args = [sym(subst(p, env or {}), st, 'a%d' % i) for i, p in enumerate(fn.params)]
        vals = [deep(st, a) for a in args]
        pres = [p for p in (pre(*vals) if pre else []) if p is not TRUE]
        run = Run(world, fn, env or {}, ctx=ctx, feasible=feas, unroll=unroll, policy=policy, args=args, pre=pres, st=st)
    except Unsupported as e:
        return [Ob(nm + clause, fn.name, UNDEC, 'executor', 'unsupported: %s' % e, types=types)]
    obs = []
    res = Ob(nm + clause, fn.name, OK, '', types=types)
    pan = Ob(nm + 'no panic or overflow', fn.name, OK, '', types=types)

    def worse(o, status, detail, hints=()):
        rank = {OK: 0, UNDEC: 1, FAILED: 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail = status, detail
        o.hints += list(hints)

        if status == FAILED and policy is not None and not policy.exact and o.status == FAILED:
            o.status = UNDEC        # the loop invariant may be too weak: replay decides

    def bk(o, b):
        if b not in o.backend:
            o.backend = (o.backend + '+' + b) if o.backend else b
    for o in run.outs:
        pc = o.st.pc
        if panic_free:
            done = []
            for t, k in o.st.partials:
                g = in_range(t)
                if g is TRUE:
                    continue
                r, info = smt.prove(pc[:k], g, floats, timeout, extra=done)
                bk(pan, 'z3' if r == 'ok' else 'z3')
                if r == 'cex':
                    worse(pan, FAILED, '%s overflows for %s' % (t, info), [info])
                elif r != 'ok':
                    worse(pan, UNDEC, '%s: %s' % (t, info))
                done.append(g)
        if o.kind == 'panic':
            r, info = smt.prove(pc, FALSE, floats, timeout)
            bk(pan, 'z3')
            if r == 'cex':
                worse(pan, FAILED, 'panic (%s) for %s' % (o.why, info), [info])
            elif r != 'ok':
                worse(pan, UNDEC, str(info))
            continue
        try:
            g = goal(deep(o.st, o.val), *vals)
        except Unsupported as e:
            worse(res, UNDEC, str(e))
            continue
        inr = [in_range(t) for t, _ in o.st.partials]
        r, info = smt.prove(pc, g, floats, timeout, extra=[x for x in inr if x is not TRUE])
        bk(res, 'evaluation' if info == 'trivial' else 'z3')
        if r == 'cex':
            worse(res, FAILED, 'returns %s under [%s]; counterexample %s' % (
                o.val, ' && '.join(map(str, pc)), info), [info])
        elif r != 'ok':
            worse(res, UNDEC, str(info))
    for ob in (res, pan):
        ob.backend = ob.backend or 'evaluation'
        ob.t = (time.time() - t0) / 2
    return [res, pan] if panic_free else [res]


def in_range(t):
    """The partial operation t does not overflow."""
    if t.ty in INTS or is_fx(t.ty):
        if t.op in ('add', 'sub', 'mul', 'neg', 'div', 'fx_from', 'fx_to', 'conv', 'ipow'):
            return mk('inrng', (t,), 'bool')
    return TRUE


# ------------------------------------------------------------------ C15

def nan_free(x):
    return mk('eq', (x, x), 'bool') if x.ty in FLOATS else TRUE


def c15(world):
    obs = []
    cnt = {}
    for s in ('mixed_sign', 'mixed_abs', 'mixed_is_negative', 'mixed_is_positive'):
        for f in world.fns(s):
            if len(f.params) != 1 or not isreal(base(f.params[0])):
                continue
            T = base(f.params[0])
            z = lit(0, T)
            cnt[s] = cnt.get(s, 0) + 1
            one, mone = lit(1, T), lit(-1, T)
            if s == 'mixed_sign':
                def goal(r, x, T=T, z=z, one=one, mone=mone):
                    if mone is None:
                        return cmp('eq', r, one)
                    return and_(or_(not_(cmp('lt', x, z)), cmp('eq', r, mone)), or_(cmp('lt', x, z), cmp('eq', r, one)))
                pre = lambda x: [nan_free(x)]
            elif s == 'mixed_abs':
                if T in FLOATS:
                    goal = lambda r, x: cmp('eq', r, mk('fabs', (x,), x.ty)) if r is not mk('fabs', (x,), x.ty) else TRUE
                    pre = lambda x: [nan_free(x)]
                else:
                    goal = lambda r, x, z=z: cmp('eq', r, ite(cmp('lt', x, z), mk('neg', (x,), x.ty), x))
                    pre = lambda x, T=T: ([not_(cmp('eq', x, mk('const', (), T, int_range(T)[0])))] if is_signed(T) else [])
            else:
                want = (lambda x, z=z: cmp('lt', x, z)) if s == 'mixed_is_negative' else (lambda x, z=z: cmp('lt', z, x))
                goal = lambda r, x, want=want: cmp('eq', r, want(x))
                if T in FLOATS or s == 'mixed_is_positive':
                    pre = lambda x, z=z: [nan_free(x), not_(cmp('eq', x, z))]
                else:
                    pre = None
            obs += check_goal(world, f, sig(f), goal, pre, types=(T,))
    for s in ('mixed_max_value', 'mixed_min_value'):
        for f in world.fns(s):
            T = f.ret
            if f.params or not isreal(T):
                continue
            cnt[s] = cnt.get(s, 0) + 1
            mx = s == 'mixed_max_value'
            if T in FLOATS:
                v = round_float((2 - Fraction(2) ** -23) * Fraction(2) ** 127, T) if T == 'f32' else 1.7976931348623157e308
                w = const(v if mx else -v, T)
            else:
                w = mk('const', (), T, int_range(T)[mx])
            obs += check_fn(world, f, {}, lambda w=w: (w, {}), sig(f), types=(T,))
    miss = ['%s: %d types' % (k, v) for k, v in cnt.items() if v < 238] + ([] if len(cnt) == 6 else ['method missing'])
    return obs, miss


# ------------------------------------------------------------------ C16

PI = Fraction('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798')


def pi_of(T, k):
    """Nearest representable value of k*pi, or None."""
    v = PI * k
    if T in FLOATS:
        return const(round_float(v, T), T)
    if T[2] >= 64:
        v = Fraction(round_float(v, 'f64'))
    b = round_even(v * (1 << T[3]))
    lo, hi = int_range(T)
    return mk('const', (), T, b) if lo <= b <= hi else None


def c16(world):
    obs, cnt = [], {}
    for s in ('mixed_zero', 'mixed_one', 'mixed_pi', 'mixed_tau'):
        for f in world.fns(s):
            T = f.ret
            if f.params or not isreal(T):
                continue
            cnt[s] = cnt.get(s, 0) + 1
            w = {'mixed_zero': lambda: lit(0, T), 'mixed_one': lambda: lit(1, T), 'mixed_pi': lambda: pi_of(T, 1),
                 'mixed_tau': lambda: pi_of(T, 2)}[s]()
            if w is None:
                continue          # not representable: outside the property
            obs += check_fn(world, f, {}, lambda w=w: (w, {}), sig(f), types=(T,))
    need = {'mixed_zero': 238, 'mixed_one': 238, 'mixed_pi': 226, 'mixed_tau': 226}
    return obs, ['%s: %d of %d' % (k, cnt.get(k, 0), v) for k, v in need.items() if cnt.get(k, 0) < v]


# ------------------------------------------------------------------ C17 / C18

C17 = {'mixed_sin': 'sin', 'mixed_cos': 'cos', 'mixed_tan': 'tan', 'mixed_asin': 'asin', 'mixed_acos': 'acos',
       'mixed_atan': 'atan', 'mixed_atan2': 'atan2', 'mixed_sinh': 'sinh', 'mixed_cosh': 'cosh', 'mixed_tanh': 'tanh',
       'mixed_asinh': 'asinh', 'mixed_acosh': 'acosh', 'mixed_atanh': 'atanh', 'mixed_exp': 'exp',
       'mixed_exp2': 'exp2', 'mixed_exp10': 'exp10', 'mixed_log': 'log', 'mixed_log2': 'log2', 'mixed_log10': 'log10',
       'mixed_sqrt': 'sqrt', 'mixed_cbrt': 'cbrt', 'mixed_pow': 'pow', 'mixed_ceil': 'ceil', 'mixed_floor': 'floor'}


def c17(world):
    obs, miss = [], []
    for s, n in list(C17.items()) + [('mixed_sincos', None)]:
        k = 0
        for f in world.fns(s):
            T = base(f.params[0]) if f.params else None
            if T not in FLOATS:
                continue
            k += 1
            if n is None:
                sp = lambda x, T=T: (tup(mk('libm', (x,), T, 'sin'), mk('libm', (x,), T, 'cos')), {})
            else:
                sp = lambda *a, T=T, n=n: (mk('libm', a, T, n), {})
            obs += check_fn(world, f, {}, sp, sig(f), types=(T,))
        if k < 2:
            miss.append('%s: %d of 2' % (s, k))
    return obs, miss


def c18(world):
    obs, miss = [], []
    for s, k in (('mixed_mag2db', 20), ('mixed_db2mag', 20), ('mixed_pow2db', 10), ('mixed_db2pow', 10)):
        n = 0
        for f in world.fns(s):
            T = base(f.params[0]) if f.params else None
            if T not in FLOATS:
                continue
            n += 1
            if '2db' in s:
                sp = lambda x, T=T, k=k: (arith('mul', const(k, T), mk('libm', (x,), T, 'log10'), T), {})
            else:
                sp = lambda x, T=T, k=k: (mk('libm', (arith('div', x, const(k, T), T),), T, 'exp10'), {})
            obs += check_fn(world, f, {}, sp, sig(f), types=(T,))
        if n < 2:
            miss.append('%s: %d of 2' % (s, n))
    return obs, miss


# ------------------------------------------------------------------ C19

C19 = {'mixed_sin': 'sin', 'mixed_cos': 'cos', 'mixed_asin': 'asin', 'mixed_acos': 'acos', 'mixed_atan': 'atan',
       'mixed_atan2': 'atan2', 'mixed_exp': 'exp'}


def own(ex, st, fn, env, args, rty):
    """Callee contracts: the library's own niirf and atan2 are named, not inlined."""
    vals = [deep(st, a) for a in args]
    if not all(isinstance(v, Term) for v in vals) or fn.impl_span:
        return None
    if fn.short == 'niirf' and len(vals) == 2:
        return [Outcome('ret', st, mk('own', vals, vals[0].ty, 'niirf'))]
    if fn.short == 'atan2' and len(vals) == 2 and fn.name.endswith('atan::atan2'):
        return [Outcome('ret', st, mk('own', vals, vals[0].ty, 'atan2_poly'))]
    return None


def own_ctx():
    c = Ctx()
    c.fn_contracts['own'] = own
    return c


def c19(world):
    obs, cnt = [], {}
    for s, n in list(C19.items()) + [('mixed_sincos', None), ('mixed_atan2_poly', 'own'), ('mixed_sqrt', 'own'),
                                     ('mixed_niirf', 'own')]:
        for f in world.fns(s):
            T = base(f.params[0]) if f.params else None
            if not is_fx(T):
                continue
            cnt[s] = cnt.get(s, 0) + 1
            if n is None:
                sp = lambda x, T=T: (tup(mk('cordic', (x,), T, 'sin'), mk('cordic', (x,), T, 'cos')), {})
            elif s == 'mixed_atan2_poly':
                sp = lambda y, x, T=T: (mk('own', (y, x), T, 'atan2_poly'), {})
            elif n == 'own':
                sp = lambda x, T=T: (mk('own', (x, const(2, 'usize')), T, 'niirf'), {})
            else:
                sp = lambda *a, T=T, n=n: (mk('cordic', a, T, n), {})
            obs += check_fn(world, f, {}, sp, sig(f), types=(T,), ctx=own_ctx())
    miss = []
    for s in list(C19) + ['mixed_sincos', 'mixed_atan2_poly']:
        if cnt.get(s, 0) < 112:
            miss.append('%s: %d of 112' % (s, cnt.get(s, 0)))
    for s in ('mixed_sqrt', 'mixed_niirf'):
        if cnt.get(s, 0) < 224:
            miss.append('%s: %d of 224' % (s, cnt.get(s, 0)))
    return obs, miss
