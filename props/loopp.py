"""Contracts of the functions with loops (C10, C11) and the numeric ones built on them."""
import time
from fractions import Fraction
from mirvc.core import *
from mirvc.core import known
from mirvc import smt, mir, err
from mirvc.err import FP
from mirvc.mir import INTS, FLOATS, INT_W, int_range, is_signed, subst, tstr
from mirvc.terms import Term, num_val, round_float, mk, arith, neg, cmp, ite, cast, const, not_, and_, or_, TRUE, FALSE, replace, subterms
from mirvc.models import lit, is_fx
from mirvc.exec import Exec, State, Outcome
from mirvc.loops import Policy, nat, lin, follow
from .complexp import sig, base, kind, ENV
from .realp import isprim, isreal, in_range, pi_of, check_goal

T = ('abs', 'T')


# ------------------------------------------------------------------ C10

class PowCtx(Ctx):
    """Native integer powers are the n-fold product as well."""

    def int_method(self, ex, st, c, ty, d, ret, fork):
        if c.name == 'pow' and len(d) == 2:
            self.note('core integer pow = n-fold product')
            return ret(ex.partial(st, mk('pw', d, ty)))
        return super().int_method(ex, st, c, ty, d, ret, fork)


def pw(b, e):
    return mk('pw', (b, e), b.ty)


def is_pw_form(t, b):
    """b^e as a pair (True, e), for the shapes a repeated product takes."""
    if t is b:
        return nat(1)
    if t.op == 'pw' and t.args[0] is b:
        return t.args[1]
    one = lit(1, b.ty)
    if one is not None and t is one:
        return nat(0)
    if t.op == 'mul':
        for x, y in (t.args, t.args[::-1]):
            if y is b:
                e = is_pw_form(x, b)
                if e is not None:
                    return mk('lin', (e, nat(1)), 'nat', (1, 0))
    return None


def powi_obligations(world, f, T_, env, label, types):
    t0 = time.time()
    fname = f.name
    res = Ob(label + ': result is the n-fold product', fname, OK, 'loop invariant + z3', types=types)
    ovf = Ob(label + ': performs only the products of the n-fold product', fname, OK, 'loop invariant + z3', types=types)
    pan = Ob(label + ': does not panic', fname, OK, 'path enumeration', types=types)
    obs = [res, ovf, pan]
    pol = Policy(floats='euf')
    st = State()
    args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
    x, e = [deep(st, a) for a in args]
    pre = [cmp('le', const(0, e.ty), e)] if is_signed(e.ty) else []
    if lit(1, T_) is None:
        pre.append(cmp('lt', const(0, e.ty), e))
    ctx = PowCtx()
    selves = {id(g) for n in ('powi', 'mixed_powi') for g in world.fns(n) if len(g.params) == 2}

    def smaller(ex, st, fn, genv, cargs, rty):
        # a recursive call: the contract itself at a smaller exponent (and within its precondition)
        if id(fn) not in selves or len(cargs) != 2:
            return None
        b, q = [deep(st, a) for a in cargs]
        if b is not x or q is e or not isinstance(q, Term) or q.ty not in INTS:
            return None
        need = and_(cmp('le', const(0, q.ty), q), mk('lt', (q, e), 'bool'))
        if lit(1, T_) is None:
            need = and_(need, cmp('lt', const(0, q.ty), q))
        if smt.prove(st.pc, need, 'euf')[0] != 'ok':
            return None
        return [Outcome('ret', st, pw(x, q))]
    ctx.fn_contracts['powi at a smaller exponent (recursion)'] = smaller
    try:
        run = Run(world, f, env, ctx=ctx, feasible=smt.Feas('euf'), policy=pol, args=args, pre=pre, st=st)
    except Unsupported as ex:
        return [Ob(label, fname, UNDEC, 'executor', 'unsupported: %s' % ex, types=types)]

    def worse(o, status, detail):
        rank = {OK: 0, UNDEC: 1, FAILED: 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail = status, detail
    for o in run.outs:
        pc = o.st.pc
        ps = ' && '.join(map(str, pc))
        if o.kind == 'panic':
            r, info = smt.prove(pc, FALSE, 'euf')
            if r != 'ok':
                worse(pan, FAILED if r == 'cex' and pol.exact else UNDEC, 'panic (%s) under [%s] for %s' % (o.why, ps, info))
            continue
        got = deep(o.st, o.val)
        g = is_pw_form(got, x)
        if g is None:
            worse(res, UNDEC, 'under [%s] returns %s, not recognised as a power' % (ps, got))
        else:
            r, info = smt.prove(pc, mk('eq', (g, e), 'bool'), 'euf')
            if r != 'ok':
                worse(res, FAILED if r == 'cex' and pol.exact else UNDEC, 'under [%s] returns the base to the power %s for %s' % (ps, g, info))
        for t, kk in o.st.partials:
            if t.op == 'cast' or t.ty != x.ty:
                continue
            if t.op == 'mul' or t.op == 'pw':
                q = is_pw_form(t, x)
                if q is not None:
                    r, info = smt.prove(pc, mk('le', (q, e), 'bool'), 'euf')
                    if r != 'ok':
                        worse(ovf, UNDEC, 'under [%s] computes the power %s as well (%s)' % (ps, q, info))
                    continue
            worse(ovf, UNDEC, 'under [%s] also computes %s' % (ps, t))
    for o in obs:
        o.t = (time.time() - t0) / 3
    return obs


def c10(world):
    miss = []
    # the library's own loop over an abstract type and over every type; every implementation of the trait
    fs = [f for f in world.fns('powi') if len(f.params) == 2 and not f.impl_span and kind(f.params[0]) == 'scalar']
    if not fs:
        miss.append('trigonometry::powi')
    impls = [f for f in world.fns('mixed_powi') if len(f.params) == 2 and isreal(base(f.params[0]))]
    tasks = [('impl', f, base(f.params[0])) for f in impls]
    tasks += [('own', f, T_) for f in fs for T_ in [T] + [base(g.params[0]) for g in impls]]
    if len(impls) < 238:
        miss.append('mixed_powi: %d of 238 types' % len(impls))

    def one(task):
        k, f, T_ = task
        if k == 'own':
            return powi_obligations(world, f, T_, {p: T_ for p in mir.GENERIC_NAMES}, 'trigonometry::powi::<%s>' % tstr(T_), (T_,))
        if T_ in FLOATS:
            return check_fn(world, f, {}, lambda x, e: (mk('fpowi', (x, e), T_), {}), sig(f), types=(T_,))
        return powi_obligations(world, f, T_, {}, sig(f), (T_,))
    return pmap(world, one, tasks), miss


# ------------------------------------------------------------------ C11

def wrap_goal(T_):
    P = pi_of(T_, 1)
    mP = mk('const', (), T_, -P.val)

    def goal(r, x):
        inr = and_(cmp('le', mP, x), cmp('lt', x, P))
        return and_(cmp('le', mP, r), cmp('lt', r, P), mk('cong', (r, x), 'bool', 2 * P.val),
                    or_(not_(inr), mk('eq', (r, x), 'bool')))
    return goal


WRAP_MAX = Fraction(100000)


def flt(v, ty):
    return mk('const', (), ty, round_float(Fraction(v), ty))


class WrapLoop(err.Intervals):
    """Float phase loops: every state stays within the input range (proved by interval analysis with
    monotone rounding), every iteration moves by a multiple of 2 pi up to the rounding of its additions,
    and by at least 1 towards the range."""

    def __init__(self, T_, note):
        self.T, self.P, self.note = T_, num_val(pi_of(T_, 1)), note
        super().__init__((-WRAP_MAX, WRAP_MAX))

    def ranking(self, lp, pol):
        for h in lp.havoc.values():
            if h.ty != self.T:
                continue
            signs = []
            for b in lp.back:
                d, e, r = self.move(b.pc, pol.at(b, key_of(lp, h)), h)
                signs.append(1 if d - e >= 1 else -1 if d + e <= -1 else 0)
            if 0 in signs:
                continue
            # one direction, once taken, is taken for good
            for way in (1, -1):
                if all(self.excludes(lp, pol, a, b, h) for a, x in zip(lp.back, signs) for b, y in zip(lp.back, signs) if x == way == -y):
                    return True
        return False

    def excludes(self, lp, pol, a, b, h):
        return err.infeasible(tuple(a.pc) + follow(pol, b.pc, lp.havoc, a), {h: self.box})

    def move(self, pc, t, h):
        """t = h + d up to an absolute error below e."""
        an = err.PathAnalysis(pc, {v: self.box for v in err.leaves(t) | {h}})
        an.of(h)
        v = an.of(t)
        d = err.padd(v.poly(), err.psym(h), -1)
        if not err.is_const_poly(d):
            raise Unsupported('not a shift of the phase: %s' % t)
        return err.cval(d), err.mag(v.e), an.box[h]

    def congruent(self, pc, t, h):
        """t is h plus a multiple of 2 pi, up to the rounding of the additions."""
        d, e, r = self.move(pc, t, h)
        k = d / (2 * self.P)
        u = FP[self.T][0]
        if k.denominator != 1:
            return 'moves by %s pi' % float(d / self.P)
        # two roundings per turn, each below half an ulp of the largest value involved
        if e > 2 * max(1, abs(k)) * u * max(err.mag(r), 4) or (k == 0 and e > 0):
            return 'error %s in one step' % float(e)
        return None


def key_of(lp, h):
    return next(k for k, v in lp.havoc.items() if v is h)


def wrap_float(world, f, label, T_, env):
    t0 = time.time()
    names = ['result in [-pi,pi)', 'every step moves by a multiple of 2 pi up to rounding', 'unchanged in range',
             'terminates', 'does not panic']
    obs = {n: Ob('%s: %s' % (label, n), f.name, OK, 'loop invariant + rounding-error analysis', types=(T_,)) for n in names}
    W = WrapLoop(T_, None)
    pol = Policy(floats='euf', invariants=W.invariants, ranking=W.ranking)
    st = State()
    args = [sym(subst(p, env), st, 'a%d' % i) for i, p in enumerate(f.params)]
    x = deep(st, args[0])
    lim = flt(WRAP_MAX, T_)
    pre = [cmp('le', neg(lim), x), cmp('le', x, lim)]
    W.start[x] = (-WRAP_MAX, WRAP_MAX)
    try:
        run = Run(world, f, env, feasible=err.IFeas(W.start), policy=pol, args=args, pre=pre, st=st)
    except Unsupported as ex:
        return [Ob(label, f.name, UNDEC, 'executor', 'unsupported: %s' % ex, types=(T_,))]

    def worse(n, detail):
        obs[n].status, obs[n].detail = UNDEC, detail
    P = W.P

    def relate(pc, t):
        hs = err.leaves(t)
        if len(hs) != 1:
            return 'depends on %s' % hs
        try:
            return W.congruent(pc, t, next(iter(hs)))
        except Unsupported as e:
            return str(e)
    for lp in pol.loops:
        for key, h in lp.havoc.items():
            if h.ty != T_:
                continue
            for s in [lp.entry] + lp.back:
                r = relate(s.pc, pol.at(s, key))
                if r:
                    worse(names[1], r)
    for o in run.outs:
        pc = o.st.pc
        ps = ' && '.join(map(str, pc))
        if o.kind == 'panic':
            worse(names[4], 'panic (%s) under [%s]' % (o.why, ps))
            continue
        r = deep(o.st, o.val)
        try:
            lo, hi = err.machine_range(pc, r, W.start)
            if lo < -P or hi >= P:
                worse(names[0], 'between %s and %s under [%s]' % (float(lo), float(hi), ps))
        except Unsupported as e:
            worse(names[0], str(e))
        e = relate(pc, r)
        if e:
            worse(names[1], e)
        if r is not x:
            # only off the range
            inr = pc + (cmp('le', neg(pi_of(T_, 1)), x), cmp('lt', x, pi_of(T_, 1)))
            if not err.infeasible(inr, W.start) and not smt.prove(inr, mk('eq_id', (r, x), 'bool'), 'euf')[0] == 'ok':
                worse(names[2], 'returns %s under [%s]' % (r, ps))
    for o in obs.values():
        o.t = (time.time() - t0) / len(obs)
    return list(obs.values())


def c11(world):
    miss = []
    fs = [f for f in world.fns('wrap_phase') if len(f.params) == 1 and not f.impl_span and kind(f.params[0]) == 'scalar']
    impls = [f for f in world.fns('mixed_wrap_phase') if len(f.params) == 1 and isreal(base(f.params[0]))]
    if not fs:
        miss.append('trigonometry::wrap_phase')
    tasks = [('impl', f, base(f.params[0])) for f in impls]
    tasks += [('own', f, base(g.params[0])) for f in fs for g in impls]
    if len(impls) < 114:
        miss.append('mixed_wrap_phase: %d of 114 types' % len(impls))

    def one(task):
        k, f, T_ = task
        env = {p: T_ for p in mir.GENERIC_NAMES} if k == 'own' else {}
        label = 'trigonometry::wrap_phase::<%s>' % tstr(T_) if k == 'own' else sig(f)
        if T_ in FLOATS:
            return wrap_float(world, f, label, T_, env)
        return check_goal(world, f, label, wrap_goal(T_), types=(T_,), env=env, floats='euf', policy=Policy(floats='euf'),
                          clause='terminates in [-pi,pi), congruent modulo 2 pi, unchanged in range')
    return pmap(world, one, tasks), miss
