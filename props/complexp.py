"""Contracts of the complex-number layer (C01-C07).

The component type is abstract: an obligation discharged here holds for every
type implementing the traits.  What the traits promise of each implementing
type (mixed_powi(x,2) = x*x, sincos = (sin, cos), literals, conversions) is
the subject of C07-C19, discharged per type.
"""
from mirvc.core import *
from mirvc.core import check_fn
from mirvc.terms import mk, arith, neg, cmp, ite, cast, const
from mirvc.models import lit
from mirvc.mir import subst, tstr

ENV = {g: ('abs', g) for g in ('T', 'T1', 'T2', 'T3', 'U', 'S', 'A', 'B', 'C', 'D', 'N', 'R')}


def base(t):
    while isinstance(t, tuple) and t[0] == 'ref':
        t = t[2]
    return t


def kind(t):
    t = base(t)
    if isinstance(t, str):
        return 'prim'
    if t[0] == 'adt' and t[1] in ('Cartesian', 'Polar', 'Complex'):
        return t[1]
    if t[0] in ('param', 'abs'):
        return 'scalar'
    if t[0] == 'fx':
        return 'prim'
    return t[0]


def is_mutref(t):
    return isinstance(t, tuple) and t[0] == 'ref' and t[1]


def cart(t, re, im):
    return Agg(('adt', 'Cartesian', (t,)), (re, im))


def polar(t, m, a):
    return Agg(('adt', 'Polar', (t,)), (m, a))


def conv(x, ty):
    return x if x.ty == ty else mk('conv', (x,), ty)


def U(name, *a):
    return mk('m_' + name, a, a[0].ty)


add = lambda a, b: arith('add', a, b, a.ty)
sub = lambda a, b: arith('sub', a, b, a.ty)
mul = lambda a, b: arith('mul', a, b, a.ty)
div = lambda a, b: arith('div', a, b, a.ty)


def fl(v):
    """fields of a two-component value"""
    return v.fields


def mag_of(re, im):
    return U('sqrt', add(mul(re, re), mul(im, im)))


def to_cart(m, a):
    w = U('wrap_phase', a)
    return mul(m, U('cos', w)), mul(m, U('sin', w))


def to_pol(re, im):
    return mag_of(re, im), U('atan2', im, re)


def cmul(a, b, c, d):
    return sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))


def cdiv(a, b, c, d):
    n = add(mul(c, c), mul(d, d))
    return div(add(mul(a, c), mul(b, d)), n), div(sub(mul(b, c), mul(a, d)), n)


def maxv(t):
    return mk('maxv', (), t)


def sdiv(x, y):
    z = cmp('eq', y, lit(0, y.ty))
    return ite(z, maxv(x.ty), div(x, y))


def sig(fn):
    return '%s(%s) -> %s' % (fn.short, ', '.join(tstr(p) for p in fn.params), tstr(fn.ret))


def assign_spec(f):
    """spec of `op=` from the two-operand value spec"""
    def g(a, b):
        return None, {0: f(a, b)}
    return g


def ret_spec(f):
    def g(*a):
        return f(*a), {}
    return g


def collect(world, shorts, classify):
    """[(fn, spec)] for every function of the crate the property speaks about."""
    out = []
    for s in shorts:
        for f in world.fns(s):
            r = classify(s, f)
            if r is not None:
                out.append((f, r))
    return out


def run_all(world, items):
    obs = []
    for f, spec in items:
        obs += check_fn(world, f, ENV, spec, sig(f))
    return obs


def two(world, shorts, table):
    """Binary operators and their assigning forms."""
    def cl(s, f):
        if len(f.params) != 2:
            return None
        k = (kind(f.params[0]), kind(f.params[1]))
        sp = table(s, k, f)
        if sp is None:
            return None
        if s.endswith('_assign') and is_mutref(f.params[0]):
            return assign_spec(sp)
        return ret_spec(sp)
    return collect(world, shorts, cl)


# ------------------------------------------------------------------ C01

def c01(world):
    def table(s, k, f):
        op = add if s.startswith('add') else sub
        if k[0] != 'Cartesian':
            return None
        T = base(f.params[0])[2][0]
        T = subst(T, ENV)
        if k[1] in ('Cartesian', 'Complex'):
            return lambda a, b: cart(T, op(a.fields[0], b.fields[0]), op(a.fields[1], b.fields[1]))
        if k[1] == 'scalar':
            return lambda a, b: cart(T, op(a.fields[0], conv(b, T)), a.fields[1])
    items = two(world, ('add', 'sub', 'add_assign', 'sub_assign'), table)
    need = {'add': 7, 'sub': 7, 'add_assign': 7, 'sub_assign': 7}
    return run_all(world, items), need_items(items, need)


def need_items(items, need):
    """Contracts that lost their function (renamed or removed)."""
    miss = []
    for s, n in need.items():
        k = sum(1 for f, _ in items if f.short == s)
        if k < n:
            miss.append('%d of %d functions named %s found' % (k, n, s))
    return miss


# ------------------------------------------------------------------ C02

def c02(world):
    def table(s, k, f):
        if k[0] != 'Cartesian':
            return None
        T = subst(base(f.params[0])[2][0], ENV)
        if k[1] in ('Cartesian', 'Complex'):
            return lambda a, b: cart(T, *cmul(*a.fields, *b.fields))
        if k[1] == 'scalar':
            return lambda a, b: cart(T, mul(a.fields[0], conv(b, T)), mul(a.fields[1], conv(b, T)))
        if k[1] == 'Polar':
            return lambda a, b: cart(T, *cmul(*a.fields, *to_cart(*b.fields)))
    items = two(world, ('mul', 'mul_cartesian', 'mul_assign'), table)
    return run_all(world, items), need_items(items, {'mul': 7, 'mul_cartesian': 1, 'mul_assign': 3})


# ------------------------------------------------------------------ C03

def c03(world):
    def table(s, k, f):
        if k[0] != 'Cartesian':
            return None
        T = subst(base(f.params[0])[2][0], ENV)
        if k[1] in ('Cartesian', 'Complex'):
            return lambda a, b: cart(T, *cdiv(*a.fields, *b.fields))
        if k[1] == 'scalar':
            return lambda a, b: cart(T, sdiv(a.fields[0], conv(b, T)), sdiv(a.fields[1], conv(b, T)))
    items = two(world, ('div', 'div_assign', 'div_cartesian', 'div_scalar_cartesian'), table)
    return run_all(world, items), need_items(items, {'div': 7, 'div_assign': 7, 'div_cartesian': 1,
                                                     'div_scalar_cartesian': 1})


# ------------------------------------------------------------------ C04

def pmul(m1, a1, m2, a2):
    z = or_(cmp('eq', m1, lit(0, m1.ty)), cmp('eq', m2, lit(0, m2.ty)))
    return ite(z, lit(0, m1.ty), mul(m1, m2)), ite(z, lit(0, m1.ty), add(a1, a2))


def c04(world):
    def table(s, k, f):
        if k[0] != 'Polar':
            return None
        T = subst(base(f.params[0])[2][0], ENV)
        if s.startswith('mul'):
            if k[1] == 'Polar':
                return lambda a, b: polar(T, *pmul(*a.fields, *b.fields))
            if k[1] == 'Cartesian':
                return lambda a, b: polar(T, *pmul(*a.fields, *to_pol(*b.fields)))
            if k[1] == 'scalar':
                return lambda a, b: polar(T, mul(a.fields[0], conv(b, T)), a.fields[1])
        else:
            if k[1] == 'scalar':
                return lambda a, b: polar(T, sdiv(a.fields[0], conv(b, T)), a.fields[1])
    items = two(world, ('mul', 'mul_polar', 'div', 'mul_assign', 'div_assign'), table)
    return run_all(world, items), need_items(items, {'mul': 3, 'mul_polar': 1, 'div': 1})


# ------------------------------------------------------------------ C05

def c05(world):
    items = []

    def put(f, spec, env=None, tag=''):
        items.append((f, spec, env or ENV, tag))
    for f in world.fns('to_polar'):
        T = None
        if len(f.params) == 1 and kind(f.params[0]) in ('Cartesian', 'Polar'):
            T = subst(base(f.params[0])[2][0], ENV)
            if kind(f.params[0]) == 'Cartesian':
                put(f, lambda a, T=T: (polar(T, *to_pol(*a.fields)), {}))
            else:
                put(f, lambda a: (a, {}))
    for f in world.fns('to_cartesian'):
        if len(f.params) == 1 and kind(f.params[0]) in ('Cartesian', 'Polar'):
            T = subst(base(f.params[0])[2][0], ENV)
            if kind(f.params[0]) == 'Polar':
                put(f, lambda a, T=T: (cart(T, *to_cart(*a.fields)), {}))
            else:
                put(f, lambda a: (a, {}))
    for f in world.fns('new_from_cartesian') + world.fns('new_from_polar') + world.fns('new'):
        if len(f.params) != 2 or kind(f.params[0]) != 'scalar' or kind(f.ret) not in ('Cartesian', 'Polar'):
            continue
        T = subst(base(f.ret)[2][0], ENV)
        src = {'new_from_cartesian': 'Cartesian', 'new_from_polar': 'Polar', 'new': kind(f.ret)}[f.short]
        mkr = cart if kind(f.ret) == 'Cartesian' else polar
        if src == kind(f.ret):
            put(f, lambda a, b, T=T, mkr=mkr: (mkr(T, a, b), {}))
        elif src == 'Polar':
            put(f, lambda a, b, T=T: (cart(T, *to_cart(a, b)), {}))
        else:
            put(f, lambda a, b, T=T: (polar(T, *to_pol(a, b)), {}))
    for s in ('mag', 'abs', 'mixed_abs', 'arg', 'ang'):
        for f in world.fns(s):
            if len(f.params) != 1 or kind(f.params[0]) not in ('Cartesian', 'Polar'):
                continue
            c = kind(f.params[0]) == 'Cartesian'
            T = subst(base(f.params[0])[2][0], ENV)
            if s in ('mag', 'abs'):
                put(f, (lambda a: (mag_of(*a.fields), {})) if c else (lambda a: (a.fields[0], {})))
            elif s == 'mixed_abs':
                put(f, (lambda a, T=T: (cart(T, mag_of(*a.fields), lit(0, T)), {})) if c else
                    (lambda a, T=T: (polar(T, a.fields[0], lit(0, T)), {})))
            else:
                put(f, (lambda a: (U('atan2', a.fields[1], a.fields[0]), {})) if c else (lambda a: (a.fields[1], {})))
    for f in world.fns('conj'):
        if len(f.params) != 1 or kind(f.params[0]) not in ('Cartesian', 'Polar'):
            continue
        c = kind(f.params[0]) == 'Cartesian'
        t2 = base(f.params[0])[2][0]
        if base(f.ret)[0] == 'param' and t2[0] == 'param':
            X = ('abs', t2[1])
            for R in ('Cartesian', 'Polar'):
                env = dict(ENV)
                env[base(f.ret)[1]] = ('adt', R, (X,))
                if c and R == 'Cartesian':
                    sp = lambda a, X=X: (cart(X, a.fields[0], neg(a.fields[1])), {})
                elif c:
                    sp = lambda a, X=X: (polar(X, *to_pol(a.fields[0], neg(a.fields[1]))), {})
                elif R == 'Polar':
                    sp = lambda a, X=X: (polar(X, a.fields[0], neg(a.fields[1])), {})
                else:
                    sp = lambda a, X=X: (cart(X, *to_cart(a.fields[0], neg(a.fields[1]))), {})
                put(f, sp, env, ' as ' + R)
        else:
            X = subst(t2, ENV)
            if kind(f.ret) == kind(f.params[0]):
                put(f, lambda a, X=X, m=(cart if c else polar): (m(X, a.fields[0], neg(a.fields[1])), {}))
    obs = []
    for f, sp, env, tag in items:
        obs += check_fn(world, f, env, sp, sig(f) + tag)
    its = [(f, None) for f, _, _, _ in items]
    return obs, need_items(its, {'to_polar': 3, 'to_cartesian': 3, 'new_from_cartesian': 2, 'new_from_polar': 2,
                                 'mag': 2, 'abs': 3, 'mixed_abs': 2, 'arg': 2, 'ang': 2, 'conj': 4})


# ------------------------------------------------------------------ C06

def c06(world):
    items = []
    for f in world.fns('mixed_exp'):
        if kind(f.params[0]) == 'Cartesian':
            T = subst(base(f.params[0])[2][0], ENV)
            items.append((f, lambda a, T=T: (cart(T, mul(U('exp', a.fields[0]), U('cos', a.fields[1])),
                                                  mul(U('exp', a.fields[0]), U('sin', a.fields[1]))), {})))
    for f in world.fns('powi'):
        if len(f.params) == 2 and kind(f.params[0]) == 'Cartesian':
            T = subst(base(f.params[0])[2][0], ENV)

            def sp(a, n, T=T):
                r = mk('m_powi', (mag_of(*a.fields), cast(n, 'i32')), T)
                p = mul(U('atan2', a.fields[1], a.fields[0]), conv(n, T))
                return cart(T, mul(r, U('cos', p)), mul(r, U('sin', p))), {}
            items.append((f, sp))
    return run_all(world, items), need_items(items, {'mixed_exp': 1, 'powi': 1})


# ------------------------------------------------------------------ C07

def real_conv(x, ty):
    """The conversion between real types whose meaning C08/C09 fix."""
    if x.ty == ty:
        return x
    if is_fx(ty):
        return mk('fx_from', (x,), ty)
    if is_fx(x.ty):
        return mk('fx_to', (x,), ty)
    if is_abs(ty) or is_abs(x.ty):
        return mk('conv', (x,), ty)
    return cast(x, ty)


def c07(world):
    obs = []
    n = {}
    for s in ('mixed_from_num', 'mixed_to_num', 'mixed_to_complex'):
        for f in world.fns(s):
            if len(f.params) != 1:
                continue
            a, r = kind(f.params[0]), kind(f.ret)
            cx = ('Cartesian', 'Polar')
            if a not in cx and r not in cx:
                continue
            rt = subst(f.ret, ENV)
            S = rt[2][0] if r in cx else rt

            def sp(v, a=a, r=r, S=S):
                if a in cx and r in cx:
                    if a == r:
                        o = [real_conv(x, S) for x in v.fields]
                    else:
                        o = to_pol(*v.fields) if r == 'Polar' else to_cart(*v.fields)
                        o = [real_conv(x, S) for x in o]
                elif r in cx:
                    o = [real_conv(v, S), lit(0, S)]
                else:
                    return real_conv(v.fields[0], S), {}
                return (cart if r == 'Cartesian' else polar)(S, *o), {}
            tys = [t for t in (base(f.params[0]), base(f.ret)) if kind(t) == 'prim']
            obs += check_fn(world, f, ENV, sp, sig(f), types=tys)
            n[(s, a, r)] = n.get((s, a, r), 0) + 1
    for s, v in (('mixed_zero', (0, 0)), ('mixed_one', (1, 0))):
        for f in world.fns(s):
            if f.params == [] and kind(f.ret) in ('Cartesian', 'Polar'):
                S = subst(base(f.ret)[2][0], ENV)
                m = cart if kind(f.ret) == 'Cartesian' else polar
                obs += check_fn(world, f, ENV, lambda S=S, m=m, v=v: (m(S, lit(v[0], S), lit(v[1], S)), {}), sig(f))
                n[(s, kind(f.ret))] = 1
    miss = []
    for k, c in {('mixed_from_num', 'Cartesian', 'prim'): 3164, ('mixed_to_num', 'prim', 'Cartesian'): 3164,
                 ('mixed_from_num', 'Cartesian', 'Cartesian'): 1, ('mixed_to_num', 'Cartesian', 'Cartesian'): 1,
                 ('mixed_to_complex', 'scalar', 'Cartesian'): 1, ('mixed_to_complex', 'scalar', 'Polar'): 1,
                 ('mixed_zero', 'Cartesian'): 1, ('mixed_zero', 'Polar'): 1, ('mixed_one', 'Cartesian'): 1,
                 ('mixed_one', 'Polar'): 1}.items():
        if n.get(k, 0) < c:
            miss.append('%s: %d of %d' % (k, n.get(k, 0), c))
    return obs, miss


# ------------------------------------------------------------------ C21

def lexi(p, q):
    """Conditions under which (a, b) orders Less / Equal / Greater / unordered against (c, d)."""
    (a, b), (c, d) = p.fields, q.fields

    def one(x, y):
        l, e, g = cmp('lt', x, y), cmp('eq', x, y), cmp('gt', x, y)
        return dict(Less=l, Equal=e, Greater=g, none=and_(not_(l), not_(e), not_(g)))
    f, s = one(a, c), one(b, d)
    r = {k: or_(f[k], and_(f['Equal'], s[k])) for k in ('Less', 'Greater', 'none')}
    r['Equal'] = and_(f['Equal'], s['Equal'])
    # of <, ==, > at most one holds, in every implementing type
    ax = []
    for h in (f, s):
        for x, y in (('Less', 'Equal'), ('Less', 'Greater'), ('Equal', 'Greater')):
            ax.append(not_(and_(h[x], h[y])))
    return r, tuple(ax)


def order_obs(world, f, option):
    nm = sig(f)
    cl = '%s: orders by the first component, then by the second' % nm
    out = [Ob(cl, f.name, OK, 'z3')]

    def bad(status, text):
        if out[0].status != FAILED:
            out[0] = Ob(cl, f.name, status, 'z3', text)
    try:
        run = Run(world, f, ENV)
    except Unsupported as e:
        bad(UNDEC, 'unsupported: %s' % e)
        return out
    want, ax = lexi(*run.init)
    for o in run.outs:
        pc = o.st.pc
        at = 'under [%s]' % ' && '.join(map(str, pc))
        if o.kind == 'panic':
            r, info = smt.prove(tuple(pc) + ax, FALSE)
            if r != 'ok':
                bad(FAILED if r == 'cex' else UNDEC, '%s panics: %s' % (at, o.why))
            continue
        v = deep(o.st, o.val)
        if not isinstance(v, Agg) or v.variant is None:
            bad(UNDEC, '%s returns %s' % (at, v))
            continue
        k = v.variant
        if option:
            k = v.fields[0].variant if k == 'Some' else 'none'
        r, info = smt.prove(tuple(pc) + ax, want[k])
        if r != 'ok':
            bad(FAILED if r == 'cex' else UNDEC, '%s returns %s' % (at, k))
    return out


def c21(world):
    obs, n = [], {}
    for k in ('Cartesian', 'Polar'):
        both = lambda f: len(f.params) == 2 and all(kind(p) == k for p in f.params)
        rel = {'lt': lambda w: w['Less'], 'gt': lambda w: w['Greater'], 'le': lambda w: or_(w['Less'], w['Equal']),
               'ge': lambda w: or_(w['Greater'], w['Equal'])}
        for s in ('eq', 'ne'):
            for f in world.fns(s):
                if both(f):
                    def sp(p, q, s=s):
                        e = and_(*[cmp('eq', x, y) for x, y in zip(p.fields, q.fields)])
                        return e if s == 'eq' else not_(e), {}
                    obs += check_fn(world, f, ENV, sp, sig(f))
                    n[s, k] = 1
        for s in ('partial_cmp', 'cmp'):
            for f in world.fns(s):
                if both(f):
                    obs += order_obs(world, f, s == 'partial_cmp')
                    n[s, k] = 1
        for s, g in rel.items():
            for f in world.fns(s):
                if both(f):
                    obs += check_fn(world, f, ENV, lambda p, q, g=g: (g(lexi(p, q)[0]), {}), sig(f))
        for f in world.fns('clone'):
            if len(f.params) == 1 and kind(f.params[0]) == k:
                obs += check_fn(world, f, ENV, lambda p: (p, {}), sig(f))
                n['clone', k] = 1
        for f in world.fns('default'):
            if not f.params and kind(f.ret) == k:
                S = subst(base(f.ret)[2][0], ENV)
                m = cart if k == 'Cartesian' else polar
                obs += check_fn(world, f, ENV, lambda S=S, m=m: (m(S, lit(0, S), lit(0, S)), {}), sig(f))
                n['default', k] = 1
    miss = ['%s of %s' % (s, k) for s in ('eq', 'partial_cmp', 'clone', 'default') for k in ('Cartesian', 'Polar') if (s, k) not in n]
    return obs, miss
