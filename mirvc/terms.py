"""Hash-consed symbolic terms with value-preserving simplification only.

A rewriting here must be exact in *every* type's arithmetic (IEEE floats,
two's-complement integers, fixed point), because the terms stand for what the
machine computes, not for real numbers.
"""
import struct
from fractions import Fraction
import numpy as np
from .mir import INTS, FLOATS, INT_W, int_range, is_signed

_pool = {}


class Term:
    __slots__ = ('op', 'args', 'ty', 'val', 'id', '_h', 'aux')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _vkey(ty, v):
    if isinstance(v, float):
        return ('fl', struct.pack('<d', v))
    return v


_FOLD = {'ovf_add', 'ovf_sub', 'ovf_mul', 'wadd', 'wsub', 'wmul', 'sadd', 'ssub', 'smul', 'uneg', 'ipow'}


def _fold_int(op, args):
    """Integer operations on constants, evaluated (None: leave as is)."""
    a = args[0].val
    ty = args[0].ty
    lo, hi = int_range(ty)
    if op == 'uneg':
        return const(abs(a), 'u' + ty[1:])
    b = args[1].val
    if op == 'ipow':
        v = a ** b if 0 <= b <= 64 else hi + 1
        return const(v, ty) if lo <= v <= hi else None
    v = {'add': a + b, 'sub': a - b, 'mul': a * b}[op[-3:]]
    if op.startswith('ovf'):
        return TRUE if not lo <= v <= hi else FALSE
    if op[0] == 'w':
        return const(wrap_int(v, ty), ty)
    return const(min(max(v, lo), hi), ty)


def mk(op, args=(), ty=None, val=None):
    if op in _FOLD and args and all(a.op == 'const' and a.ty in INTS for a in args):
        r = _fold_int(op, args)
        if r is not None:
            return r
    k = (op, tuple(a.id for a in args), ty, _vkey(ty, val))
    t = _pool.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty, t.val = op, tuple(args), ty, val
        t.id = len(_pool)
        t.aux = None
        _pool[k] = t
    return t


def show(t, d=0):
    if t.op == 'const' or t.op == 'lit':
        return str(t.val)
    if t.op == 'var':
        return t.val
    if d > 40:
        return '…'
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%', 'lt': '<', 'le': '<=', 'eq': '==',
           'and': '&&', 'or': '||'}
    if t.op in sym and len(t.args) == 2:
        return '(%s %s %s)' % (show(t.args[0], d + 1), sym[t.op], show(t.args[1], d + 1))
    from .mir import tstr
    nm = t.op
    if t.op in ('conv', 'cast', 'fx_from', 'fx_to'):
        nm = '%s<%s>' % (t.op, tstr(t.ty))
    if t.val is not None:
        nm += '[%s]' % (t.val,)
    return '%s(%s)' % (nm, ', '.join(show(a, d + 1) for a in t.args))


TRUE = mk('const', (), 'bool', True)
FALSE = mk('const', (), 'bool', False)


def is_const(t):
    return t.op == 'const' or t.op == 'lit'


def var(name, ty):
    return mk('var', (), ty, name)


def f32r(v):
    with np.errstate(all='ignore'):
        return float(np.float32(v))


def const(v, ty):
    if ty == 'bool':
        return TRUE if v else FALSE
    if ty == 'f32':
        return mk('const', (), ty, f32r(v))
    if ty == 'f64':
        return mk('const', (), ty, float(v))
    if isinstance(ty, tuple) and ty[0] in ('param', 'abs'):
        return mk('lit', (), ty, Fraction(v))
    return mk('const', (), ty, int(v))


def wrap_int(v, ty):
    lo, hi = int_range(ty)
    return (v - lo) % (hi - lo + 1) + lo


COMM = {'add', 'mul', 'eq', 'and', 'or', 'wadd', 'wmul', 'band', 'bor', 'bxor'}


def _fop(op, a, b, ty):
    f = np.float32 if ty == 'f32' else np.float64
    with np.errstate(all='ignore'):
        x, y = f(a), f(b)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y,
             'rem': lambda: np.fmod(x, y)}[op]()
    return float(r)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b, ty):
    if a.op == 'const' and b.op == 'const':
        if ty in FLOATS:
            return const(_fop(op, a.val, b.val, ty), ty)
        if ty in INTS:
            v = {'add': lambda: a.val + b.val, 'sub': lambda: a.val - b.val, 'mul': lambda: a.val * b.val,
                 'div': lambda: tdiv(a.val, b.val) if b.val else None,
                 'rem': lambda: a.val - b.val * tdiv(a.val, b.val) if b.val else None}[op]()
            if v is not None:
                lo, hi = int_range(ty)
                if lo <= v <= hi:
                    return const(v, ty)
        if isinstance(ty, tuple) and ty[0] == 'fx':
            F = ty[3]
            v = {'add': lambda: a.val + b.val, 'sub': lambda: a.val - b.val, 'mul': lambda: (a.val * b.val) >> F,
                 'div': lambda: tdiv(a.val << F, b.val) if b.val else None,
                 'rem': lambda: a.val - b.val * tdiv(a.val, b.val) if b.val else None}[op]()
            if v is not None:
                lo, hi = int_range(ty)
                if lo <= v <= hi:
                    return mk('const', (), ty, v)
    if op in ('add', 'sub') and ty in INTS:
        # linear normal form: x + c
        if op == 'sub' and a is b:
            return const(0, ty)
        x, c = _lin(a)
        y, d = _lin(b)
        if y is None:
            return _mklin(x, c + d if op == 'add' else c - d, ty)
        if op == 'add' and x is None:
            return _mklin(y, c + d, ty)
        if op == 'sub' and x is y:
            return const(c - d, ty)
    if op in ('mul', 'div') and ty not in FLOATS and _isone(b):
        return a
    if op == 'mul' and _isone(a):
        return b
    if op in ('mul', 'div') and ty in FLOATS and _isone(b):
        return a
    if op == 'sub' and b.op == 'neg' and ty in FLOATS:
        return arith('add', a, b.args[0], ty)
    if op == 'add' and ty in FLOATS:
        if b.op == 'neg':
            return arith('sub', a, b.args[0], ty)
        if a.op == 'neg':
            return arith('sub', b, a.args[0], ty)
    if op in COMM and b.id < a.id:
        a, b = b, a
    return mk(op, (a, b), ty)


def _isone(t):
    if t.op == 'lit':
        return t.val == 1
    if t.op == 'const':
        if isinstance(t.ty, tuple) and t.ty[0] == 'fx':
            return t.val == 1 << t.ty[3]
        return t.ty != 'bool' and t.val == 1
    return False


def _lin(t):
    if t.op == 'const':
        return None, t.val
    if t.op == 'add' and t.args[1].op == 'const' and t.ty in INTS:
        return t.args[0], t.args[1].val
    if t.op == 'add' and t.args[0].op == 'const' and t.ty in INTS:
        return t.args[1], t.args[0].val
    return t, 0


def _mklin(x, c, ty):
    if x is None:
        return mk('const', (), ty, c)
    if c == 0:
        return x
    return mk('add', (x, mk('const', (), ty, c)), ty)


def neg(a, ty=None):
    ty = ty or a.ty
    if a.op == 'const':
        if ty in FLOATS:
            return const(-a.val, ty)
        v = -a.val
        lo, hi = int_range(ty)
        if lo <= v <= hi:
            return mk('const', (), ty, v)
    if a.op == 'lit' and a.val != 0:
        return mk('lit', (), ty, -a.val)
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'sub' and ty in FLOATS:
        pass   # -(x-y) differs from y-x on the sign of zero
    return mk('neg', (a,), ty)


def num_val(t):
    """Real value of a literal, or None."""
    if t.op == 'lit':
        return t.val
    if t.op == 'const' and t.ty != 'bool':
        if isinstance(t.ty, tuple) and t.ty[0] == 'fx':
            return Fraction(t.val, 1 << t.ty[3])
        if t.ty in FLOATS:
            if t.val != t.val or t.val in (float('inf'), float('-inf')):
                return None
            return Fraction(t.val)
        return Fraction(t.val)
    return None


def cmp(op, a, b):
    if op == 'gt':
        return cmp('lt', b, a)
    if op == 'ge':
        return cmp('le', b, a)
    if op == 'ne':
        return not_(cmp('eq', a, b))
    if a.op == 'const' and b.op == 'const' and a.ty == b.ty:
        x, y = a.val, b.val
        return const({'lt': x < y, 'le': x <= y, 'eq': x == y}[op], 'bool')
    x, y = num_val(a), num_val(b)
    if x is not None and y is not None:
        return const({'lt': x < y, 'le': x <= y, 'eq': x == y}[op], 'bool')
    if a is b and a.ty in INTS or (a is b and isinstance(a.ty, tuple) and a.ty[0] == 'fx'):
        return const(op != 'lt', 'bool')
    if op == 'eq' and a.ty == 'bool':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a is b:
            return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'cast' and x.args[0].ty == 'bool' and y.op == 'const':
            # a flag as a number
            t, f = [cmp(op, const(v, a.ty), b) if x is a else cmp(op, a, const(v, a.ty)) for v in (1, 0)]
            return t if t is f else x.args[0] if t is TRUE else not_(x.args[0])
    if op == 'eq' and a.ty in INTS:
        # x + c == d
        u, c = _lin(a)
        v, d = _lin(b)
        if u is v:
            return const(c == d, 'bool')
    if op == 'eq' and b.id < a.id:
        a, b = b, a
    return mk(op, (a, b), 'bool')


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    # exact for total orders
    if a.op in ('lt', 'le') and (a.args[0].ty in INTS or (isinstance(a.args[0].ty, tuple) and a.args[0].ty[0] == 'fx')):
        return mk('le' if a.op == 'lt' else 'lt', (a.args[1], a.args[0]), 'bool')
    return mk('not', (a,), 'bool')


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE or t in out:
            continue
        out.append(t)
    if not out:
        return TRUE
    r = out[0]
    for t in out[1:]:
        r = mk('and', (r, t), 'bool')
    return r


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.ty == 'bool':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    return mk('ite', (c, a, b), a.ty)


def cast(x, to):
    """Rust `as` between primitive numerics."""
    fr = x.ty
    if fr == to:
        return x
    if x.op == 'const':
        v = x.val
        if fr == 'bool':
            return const(1 if v else 0, to)
        if fr in INTS or fr == 'char':
            if to in INTS:
                return mk('const', (), to, wrap_int(v, to))
            if to in FLOATS:
                return const(int_to_float(v, to), to)
        if fr in FLOATS:
            if to in FLOATS:
                return const(v, to)
            if to in INTS:
                lo, hi = int_range(to)
                if v != v:
                    return const(0, to)
                if v == float('inf'):
                    return const(hi, to)
                if v == float('-inf'):
                    return const(lo, to)
                return const(max(lo, min(hi, int(v))), to)
    if x.op == 'cast' and fr in INTS and to in INTS:
        src = x.args[0]
        if src.ty in INTS:
            (l1, h1), (l2, h2), (l3, h3) = int_range(src.ty), int_range(fr), int_range(to)
            # widening then anything, or truncation chains: one cast suffices
            if (l2 <= l1 and h1 <= h2) or INT_W[to] <= INT_W[fr]:
                return cast(src, to)
    if x.op == 'cast' and fr in INTS and to in FLOATS and x.args[0].ty in INTS:
        (l1, h1), (l2, h2) = int_range(x.args[0].ty), int_range(fr)
        if l2 <= l1 and h1 <= h2:
            return cast(x.args[0], to)
    if x.op == 'cast' and fr == 'f64' and x.args[0].ty == 'f32':
        # f32 -> f64 is exact
        return cast(x.args[0], to) if to != 'f32' else x.args[0]
    if x.op == 'cast' and fr in FLOATS and x.args[0].ty in INTS:
        p = 24 if fr == 'f32' else 53
        st = x.args[0].ty
        w = INT_W[st] - (1 if is_signed(st) else 0)
        if w <= p:           # the integer is held exactly by the float
            if to in FLOATS:
                return cast(x.args[0], to)
            (l1, h1), (l2, h2) = int_range(st), int_range(to)
            if l2 <= l1 and h1 <= h2:
                return cast(x.args[0], to)
    return mk('cast', (x,), to)


def int_to_float(v, to):
    fr = Fraction(v)
    return round_float(fr, to)


def round_float(fr, to):
    """Correctly rounded (ties to even) float of a rational."""
    if fr == 0:
        return 0.0
    p, emin, emax = (24, -149, 128) if to == 'f32' else (53, -1074, 1024)
    s = -1 if fr < 0 else 1
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    q = max(e - p + 1, emin)
    m = a / Fraction(2) ** q
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    v = Fraction(n) * Fraction(2) ** q
    if v >= Fraction(2) ** emax:
        return s * float('inf')
    return s * float(v)


def round_even(fr):
    n = fr.numerator // fr.denominator
    r = fr - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    return n


_subs = {}


def subterms(t, seen=None):
    if seen is None:
        r = _subs.get(t)
        if r is None:
            if len(_subs) > 20000:
                _subs.clear()
            r = _subs[t] = frozenset(subterms(t, set()))
        return r
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


Term.__hash__ = lambda s: s.id
Term.__eq__ = lambda a, b: a is b


def replace(t, m, memo=None):
    """Substitute terms (rebuilding through the smart constructors)."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not t.args:
        return t
    a = [replace(x, m, memo) for x in t.args]
    r = rebuild(t, a)
    memo[t] = r
    return r


def rebuild(t, a):
    if all(x is y for x, y in zip(a, t.args)):
        return t
    if t.op in ('add', 'sub', 'mul', 'div', 'rem'):
        return arith(t.op, a[0], a[1], t.ty)
    if t.op in ('lt', 'le', 'eq'):
        return cmp(t.op, a[0], a[1])
    if t.op == 'not':
        return not_(a[0])
    if t.op == 'and':
        return and_(*a)
    if t.op == 'ite':
        return ite(*a)
    if t.op == 'neg':
        return neg(a[0], t.ty)
    if t.op == 'cast':
        return cast(a[0], t.ty)
    return mk(t.op, a, t.ty, t.val)
