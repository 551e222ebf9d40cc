"""C20: formatting of complex numbers."""
import itertools, time, re
from mirvc import mir, smt
from mirvc.core import Ob, OK, FAILED, UNDEC, sym, deep, known, equal
from mirvc.exec import Exec, State, Agg, Ref
from mirvc.fmtmodel import FmtCtx, Out, FMT_T, formatter
from mirvc.mir import Unsupported, subst, tstr
from mirvc.models import lit
from mirvc.smt import Feas
from mirvc.terms import TRUE, FALSE, var, cmp, arith, not_, and_, or_, mk, replace, ite

T = ('abs', 'T')
CART = {'Display': b'', 'LowerExp': b'', 'UpperExp': b'', 'LowerHex': b'0x', 'UpperHex': b'0x', 'Octal': b'0o', 'Binary': b'0b'}


def axioms(x, z):
    """Order of a component against zero (a floating-point negative zero is left out), and the sign of a NaN being invisible."""
    lt, gt, eq = cmp('lt', x, z), cmp('lt', z, x), cmp('eq', x, z)
    le, ge = cmp('le', x, z), cmp('le', z, x)
    same = lambda a, b: mk('same', (a, b), 'bool')

    def iff(a, b):
        return and_(or_(not_(a), b), or_(not_(b), a))
    n = neg0(x, z)
    return [iff(le, or_(lt, eq)), iff(ge, or_(gt, eq)), not_(and_(lt, gt)), not_(and_(lt, eq)), not_(and_(gt, eq))]


def neg0(x, z):
    return arith('sub', z, x, x.ty)


def header(world, f):
    return world.prog.source.impl_header(f.impl_span) if f.impl_span else ''


def c20(world):
    obs, seen = [], set()
    for f in world.fns('fmt'):
        if not f.impl_span or not re.search(r'>::fmt$', f.name):
            continue
        h = header(world, f)
        m = re.search(r'\b(?:fmt::)?(\w+)\s+for\s+(Cartesian|Polar)\b', h)
        if not m or m.group(1) == 'Debug':
            continue
        tr, ty = m.groups()
        if ty == 'Cartesian' and tr in CART:
            seen.add((tr, ty))
            obs += cart_fmt(world, f, tr)
        elif ty == 'Polar' and tr == 'Display':
            seen.add((tr, ty))
            obs += polar_fmt(world, f)
    missing = ['%s for %s' % x for x in [(t, 'Cartesian') for t in CART] + [('Display', 'Polar')] if x not in seen]
    return obs, missing


def run_fmt(world, f, ty):
    ctx = FmtCtx()
    ex = Exec(world.prog, ctx)
    st = State()
    a = sym(('adt', ty, (T,)), st, 'x')
    z = lit(0, T)
    ax = []
    for fld in a.fields:
        ax += axioms(fld, z)
    ex.feasible = Feas('euf', extra=ax)
    fm = formatter(st)
    self_ref = Ref(st.alloc(a), (), False)
    outs = ex.run(f, {p: T for p in mir.GENERIC_NAMES}, [self_ref, fm], st)
    world.absorb(ctx, ex)
    return a, fm, outs, ax


def label(tr, ty):
    return '%s for %s<T>' % (tr, ty)


def judge(world, f, tr, ty, want):
    """want(st, combo) -> pieces"""
    nm, t0 = label(tr, ty), time.time()
    cl = {}

    def add(c, status, backend, detail=''):
        o = cl.setdefault(c, Ob('%s: %s' % (nm, c), f.name, status, backend, detail, types=('T',)))
        rank = {OK: 0, UNDEC: 1, FAILED: 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail, o.backend = status, detail, backend
    try:
        a, fm, outs, ax = run_fmt(world, f, ty)
    except Unsupported as e:
        return [Ob(nm, f.name, UNDEC, 'executor', 'unsupported: %s' % e, types=('T',))]
    z = lit(0, T)
    conds = [cmp('lt', fld, z) for fld in a.fields] if ty == 'Cartesian' else []
    conds += [var('fm_alt', 'bool'), var('fm_plus', 'bool'), var('fm_has_precision', 'bool')]
    add('does not panic', OK, 'path enumeration')
    add('reports success only when every write succeeded', OK, 'path enumeration')
    add('writes the specified text', OK, 'term identity')
    n = 0
    for o in outs:
        pc = o.st.pc
        if o.kind == 'panic':
            add('does not panic', FAILED, 'path enumeration', 'panic (%s) under [%s]' % (o.why, ' && '.join(map(str, pc))))
            continue
        io = [c for c in pc if c.op == 'var' and c.val.startswith('io_error')]
        v = o.val
        if not isinstance(v, Agg) or v.variant not in ('Ok', 'Err'):
            add('reports success only when every write succeeded', UNDEC, 'executor', 'result %r' % (v,))
            continue
        if v.variant == 'Err':
            if not io:
                add('reports success only when every write succeeded', FAILED, 'path enumeration',
                    'returns an error without a failed write under [%s]' % ' && '.join(map(str, pc)))
            continue
        if io:
            add('reports success only when every write succeeded', FAILED, 'path enumeration', 'an error of the formatter is dropped')
            continue
        got = o.st.load(fm).fields[0].pieces
        k = known(pc)
        opts = [(TRUE,) if k.get(c) is TRUE else (FALSE,) if k.get(c) is FALSE else (TRUE, FALSE) for c in conds]
        for combo in itertools.product(*opts):
            extra = tuple(c if b is TRUE else not_(c) for c, b in zip(conds, combo))
            full = tuple(pc) + extra
            if not feasible(full, ax):
                continue
            n += 1
            w = Out().add(want(a, [b is TRUE for b in combo])).pieces
            bad, und = match(full, ax, got, w)
            if bad:
                add('writes the specified text', FAILED, 'z3', 'under [%s] writes %s, contract says %s (%s)' % (
                    ' && '.join(map(str, full)), show(got), show(w), bad))
            elif und:
                add('writes the specified text', UNDEC, 'z3', und)
    if not n:
        add('writes the specified text', UNDEC, 'path enumeration', 'no successful path')
    dt = time.time() - t0
    for x in cl.values():
        x.t = dt / len(cl)
    return list(cl.values())


def feasible(pc, ax):
    return Feas('euf', extra=ax)(pc)


def match(pc, ax, got, want):
    if [p[0] for p in got] != [p[0] for p in want]:
        odd = [p for p in got if p[0] == 'fmt' and getattr(p[2], 'ty', None) != T]
        if odd:
            return None, 'text of %s %r not modelled' % (odd[0][1], odd[0][2])
        return 'different sequence', None
    und = None
    for g, w in zip(got, want):
        if g[0] == 'lit':
            if g[1] != w[1]:
                return '%r instead of %r' % (g[1], w[1]), None
            continue
        _, kind, t, prec, width, flags = g
        if kind != w[1] or flags != w[5]:
            return 'formatted as %s %s instead of %s' % (kind, flags, w[1]), None
        for x, y, what in ((prec, w[3], 'precision'), (width, w[4], 'width')):
            if (x is None) != (y is None) or x == 'inherited':
                return what + ' differs', None
            if x is not None and x is not y and smt.prove_eq(pc, x, y)[0] != 'ok':
                return what + ' differs', None
        if t is w[2]:
            continue
        r, info = smt.prove_eq(tuple(pc) + tuple(ax) + tuple(zeroes(t, w[2])), t, w[2])
        if r == 'cex':
            return '%s instead of %s' % (t, w[2]), None
        if r != 'ok':
            und = 'undecided: %s = %s' % (t, w[2])
    return None, und


def zeroes(*ts):
    """x == 0 makes x the zero constant, 0 - 0 is 0, and 0 - NaN prints like NaN."""
    out, z = [], lit(0, T)
    xs = [var('x.re', T), var('x.im', T), var('x.mag', T), var('x.ang', T)]
    for x in xs:
        d = arith('sub', z, x, T)
        nan = and_(and_(not_(cmp('lt', x, z)), not_(cmp('lt', z, x))), not_(cmp('eq', x, z)))
        out.append(or_(not_(cmp('eq', x, z)), mk('eq_id', (x, z), 'bool')))
        out.append(or_(not_(cmp('eq', x, z)), mk('eq_id', (d, z), 'bool')))
        out.append(or_(not_(nan), mk('eq_id', (d, x), 'bool')))
    return out


def show(ps):
    return ' '.join(p[1].decode('utf8', 'replace') if p[0] == 'lit' else '{%s %s%s}' % (p[1], p[2], '' if p[3] is None else ' precision %s' % (p[3],))
                    for p in ps)


def cart_fmt(world, f, tr):
    z = lit(0, T)

    def want(a, combo):
        rn, jn, alt, plus, hp = combo
        prec = var('fm_precision', 'usize') if hp else None
        ab = lambda x, n: arith('sub', z, x, T) if n else x
        pre = CART[tr] if alt else b''
        re_, im = a.fields
        return [('lit', b'-' if rn else b'+' if plus else b''), ('lit', pre), ('fmt', tr, ab(re_, rn), prec, None, None),
                ('lit', b'-' if jn else b'+'), ('lit', pre), ('fmt', tr, ab(im, jn), prec, None, None), ('lit', b'i')]
    return judge(world, f, tr, 'Cartesian', want)


def polar_fmt(world, f):
    def want(a, combo):
        return [('fmt', 'Display', a.fields[0], None, None, None), ('lit', '\u2220'.encode()),
                ('fmt', 'Display', a.fields[1], None, None, None)]
    return judge(world, f, 'Display', 'Polar', want)
