"""Contracts for what lies outside the crate: core, libm, cordic, fixed, num.

Every entry is an *assumed* contract (reported as such in the evidence):
 * core/num/libm/cordic functions without a rule here make the obligation
   undecided, never accepted;
 * libm and cordic functions are uninterpreted: only their identity matters;
 * fixed-point arithmetic has its exact documented meaning (bits / 2^F).
"""
import re
from fractions import Fraction
from . import mir
from .mir import Unsupported, INTS, FLOATS, INT_W, int_range, is_signed, ptype, subst, tstr, split_path
from .terms import (Term, TRUE, FALSE, mk, const, var, arith, neg, cmp, not_, and_, or_, ite, cast, num_val,
                    round_float, round_even, is_const, wrap_int)
from .exec import Agg, Ref, Str, FnItem, Outcome, UNIT, tup, some, none, typeof


def is_fx(t):
    return isinstance(t, tuple) and t[0] == 'fx'


def is_abs(t):
    return isinstance(t, tuple) and t[0] in ('abs', 'param')


def is_num(t):
    return t in INTS or t in FLOATS or is_fx(t) or is_abs(t)


LIBM = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh',
        'sqrt', 'cbrt', 'ceil', 'floor', 'exp', 'exp2', 'exp10', 'expm1', 'pow', 'log', 'log2', 'log10', 'log1p',
        'trunc', 'round', 'fabs', 'hypot', 'fmod', 'fmin', 'fmax', 'rint', 'copysign']
CORDIC = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'sqrt']

# Mixed* trait methods that are uninterpreted functions of an abstract type
MIXED_UF = {'mixed_sin': 'sin', 'mixed_cos': 'cos', 'mixed_asin': 'asin', 'mixed_acos': 'acos', 'mixed_tan': 'tan',
            'mixed_sinh': 'sinh', 'mixed_cosh': 'cosh', 'mixed_tanh': 'tanh', 'mixed_asinh': 'asinh',
            'mixed_acosh': 'acosh', 'mixed_atanh': 'atanh', 'mixed_atan': 'atan', 'mixed_atan2': 'atan2',
            'mixed_atan2_poly': 'atan2_poly', 'mixed_sqrt': 'sqrt', 'mixed_niirf': 'niirf', 'mixed_cbrt': 'cbrt',
            'mixed_exp': 'exp', 'mixed_exp2': 'exp2', 'mixed_exp10': 'exp10', 'mixed_log': 'log',
            'mixed_log2': 'log2', 'mixed_log10': 'log10', 'mixed_pow': 'pow', 'mixed_abs': 'abs',
            'mixed_sign': 'sign', 'mixed_wrap_phase': 'wrap_phase', 'mixed_ceil': 'ceil', 'mixed_floor': 'floor',
            'mixed_mag2db': 'mag2db', 'mixed_db2mag': 'db2mag', 'mixed_pow2db': 'pow2db', 'mixed_db2pow': 'db2pow'}

ARITH_TR = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}
ASSIGN_TR = {k + 'Assign': v for k, v in ARITH_TR.items()}


def lit(v, ty):
    """Literal of a numeric type from a rational; None if out of range."""
    v = Fraction(v)
    if is_abs(ty):
        return mk('lit', (), ty, v)
    if ty in FLOATS:
        return mk('const', (), ty, round_float(v, ty))
    if ty in INTS:
        lo, hi = int_range(ty)
        return mk('const', (), ty, int(v)) if v.denominator == 1 and lo <= v <= hi else None
    if is_fx(ty):
        b = round_even(v * (1 << ty[3]))
        lo, hi = int_range(ty)
        return mk('const', (), ty, b) if lo <= b <= hi else None
    raise Unsupported('literal of ' + tstr(ty))


def uf(name, args, ty, val=None):
    return mk(name, args, ty, val)


def deref_all(st, v):
    """The value with references in tuples and options replaced by what they point to."""
    while isinstance(v, Ref):
        v = st.load(v)
    if isinstance(v, Agg) and (v.ty[0] == 'tup' or v.variant == 'Some'):
        fs = [deref_all(st, f) for f in v.fields]
        return Agg(('tup',) + tuple(typeof(f, st) for f in fs) if v.ty[0] == 'tup' else v.ty, fs, v.variant)
    return v


def same_variant(a, b):
    """== of Option, Result, Ordering, Bound and tuples of scalars (derived, field by field)"""
    if isinstance(a, Term) and isinstance(b, Term):
        return cmp('eq', a, b) if a.ty == b.ty else None
    if not (isinstance(a, Agg) and isinstance(b, Agg)):
        return None
    if not (a.ty == b.ty and (a.ty[0] == 'tup' or a.ty[0] == 'adt' and a.ty[1] in ('Option', 'Ordering', 'Result'))):
        return None
    if a.variant != b.variant:
        return FALSE
    es = [same_variant(x, y) for x, y in zip(a.fields, b.fields)]
    return None if None in es else and_(*es)


def plain_path(s):
    """The named segments of a path: without impl blocks and generic arguments."""
    return tuple(x for x in split_path(s) if x[:1] not in '<{')


ITERS = (('adt', 'Range'), ('adt', 'RangeInclusive'), ('adt', 'Rev'), ('adt', 'RangeFrom'), ('adt', 'ArrIter'))


class Next:
    name = 'next'


class IntoIter:
    name = 'into_iter'


def is_iter(v):
    return isinstance(v, Agg) and v.ty[:2] in ITERS + (('adt', 'Adapter'),)


def arr_iter(items):
    """What is left of an iterator over an array."""
    return Agg(('adt', 'ArrIter', ()), tuple(items))


# the provided methods of Iterator, as core documents them: loops over next()
_NEXT = """    let mut _4: &mut Self;
    let mut _5: _;
    let mut _6: isize;
    let mut _7: _;
    let mut _8: %s;

    bb0: {
        %s
        goto -> bb1;
    }

    bb1: {
        _4 = &mut _1;
        _5 = <Self as core::iter::Iterator>::next(copy _4) -> [return: bb2, unwind continue];
    }

    bb2: {
        _6 = discriminant(_5);
        switchInt(move _6) -> [0: bb5, otherwise: bb3];
    }

    bb3: {
        _7 = move ((_5 as Some).0: _);
        %s
    }

    bb4: {
        _8 = move _9;
        goto -> bb1;
    }

    bb5: {
        _0 = move _8;
        return;
    }"""
_EARLY = """    let mut _4: &mut Self;
    let mut _5: _;
    let mut _6: isize;
    let mut _7: _;
    let mut _8: %s;
    let mut _9: bool;
    let mut _10: _;

    bb0: {
        %s
        goto -> bb1;
    }

    bb1: {
        _4 = &mut _1;
        _5 = <Self as core::iter::Iterator>::next(copy _4) -> [return: bb2, unwind continue];
    }

    bb2: {
        _6 = discriminant(_5);
        switchInt(move _6) -> [0: bb5, otherwise: bb3];
    }

    bb3: {
        _7 = move ((_5 as Some).0: _);
        %s
    }

    bb4: {
        switchInt(move _9) -> [0: bb%d, otherwise: bb%d];
    }

    bb5: {
        %s
        return;
    }

    bb6: {
        %s
        return;
    }

    bb7: {
        %s
        goto -> bb1;
    }"""
_CALL = '_9 = move _2(move _7) -> [return: bb4, unwind continue];'
_FIND = '_10 = &_7;\n        _9 = move _2(copy _10) -> [return: bb4, unwind continue];'
# result type, early exit: (accumulator, its start, the test, after false, after true, at the end, on exit, otherwise)
EARLY = {
    'any': ('(_1: Self, _2: _) -> bool', ('()', '_8 = const ();', _CALL, 7, 6, '_0 = const false;', '_0 = const true;', '_8 = const ();')),
    'all': ('(_1: Self, _2: _) -> bool', ('()', '_8 = const ();', _CALL, 6, 7, '_0 = const true;', '_0 = const false;', '_8 = const ();')),
    'position': ('(_1: Self, _2: _) -> _', ('usize', '_8 = const 0_usize;', _CALL, 7, 6, '_0 = core::option::Option::<usize>::None;',
                                            '_0 = core::option::Option::<usize>::Some(copy _8);', '_8 = Add(copy _8, const 1_usize);')),
    'find': ('(_1: Self, _2: _) -> _', ('()', '_8 = const ();', _FIND, 7, 6, '_0 = core::option::Option::<_>::None;',
                                        '_0 = core::option::Option::<_>::Some(move _7);', '_8 = const ();')),
}
ADAPTERS = {'map', 'filter', 'zip', 'enumerate', 'take', 'skip', 'take_while', 'skip_while', 'chain', 'copied', 'cloned', 'inspect', 'step_by', 'filter_map'}
PRELUDE = {
    'count': ('(_1: Self) -> usize', ('usize', '_8 = const 0_usize;', None)),
    'last': ('(_1: Self) -> _', ('_', '_8 = core::option::Option::<_>::None;', None)),
    'fold': ('(_1: Self, _2: _, _3: _) -> _', ('_', '_8 = move _2;', 'move _3(move _8, move _7)')),
    'for_each': ('(_1: Self, _2: _) -> ()', ('()', '_8 = const ();', 'move _2(move _7)')),
}


def prelude(prog, name):
    memo = prog.__dict__.setdefault('prelude', {})
    if name not in memo:
        if name in EARLY:
            head, parts = EARLY[name]
            body = '    let mut _0: %s;\n' % head.rsplit('-> ')[1] + _EARLY % parts
        else:
            head, (acc, init, call) = PRELUDE[name]
            if name == 'count':
                step = '_9 = Add(copy _8, const 1_usize);\n        goto -> bb4;'
            elif name == 'last':
                step = '_9 = core::option::Option::<_>::Some(move _7);\n        goto -> bb4;'
            else:
                step = '_9 = %s -> [return: bb4, unwind continue];' % call
            body = _NEXT % (acc, init, step)
            body = '    let mut _0: %s;\n    let mut _9: %s;\n' % (acc, acc) + body
        f = memo[name] = mir.Fn('fn core::iter::Iterator::%s%s {' % (name, head), body.split('\n'), prog)
        f.line = 'prelude ' + name
    return memo[name]


class Ctx:
    """Theory of the scalar types plus assumed contracts."""

    def __init__(self):
        self.assumed = {}        # contract name -> uses
        self.fn_contracts = {}   # local contracts: callable(ex, st, fn, env, args, rty) -> [Outcome] | None
        self.noted_panics = True

    def note(self, n):
        self.assumed[n] = self.assumed.get(n, 0) + 1

    def contract_call(self, ex, st, fn, env, args, rty):
        for pred, h in self.fn_contracts.items():
            r = h(ex, st, fn, env, args, rty)
            if r is not None:
                ex.contracts_used[pred] = ex.contracts_used.get(pred, 0) + 1
                return r
        return None

    # ------------------------------------------------------------ constants
    def named_const(self, ex, fr, st, s):
        m = re.fullmatch(r'(.*)::(MAX|MIN|ZERO|ONE|PI|TAU|FRAC_PI_2|INFINITY|NEG_INFINITY|NAN|EPSILON|DELTA|BITS|MIN_POSITIVE)', s)
        if m:
            head = m.group(1)
            if head.startswith('<') and ' as ' not in head:
                head = head[1:-1]
            ih = re.search(r'<impl ([^>]*)>', head)
            ty = subst(ptype(ih.group(1) if ih else head.replace('::<', '<')), fr.env)
            k = m.group(2)
            if is_fx(ty) and k in ('MAX', 'MIN'):
                return mk('const', (), ty, int_range(ty)[k == 'MAX'])
            if is_fx(ty) and k == 'ZERO':
                return mk('const', (), ty, 0)
            if is_fx(ty) and k == 'DELTA':
                return mk('const', (), ty, 1)
            if is_fx(ty) and k == 'ONE':
                r = lit(1, ty)
                if r is not None:
                    return r
            if ty in INTS and k in ('MAX', 'MIN'):
                return mk('const', (), ty, int_range(ty)[k == 'MAX'])
            if ty in INTS and k == 'BITS':
                return mk('const', (), 'u32', INT_W[ty])
            segs = split_path(head)
            if ty in FLOATS or segs[-1] == 'consts':
                fty = ty if ty in FLOATS else ('f32' if 'f32' in segs else 'f64' if 'f64' in segs else None)
                import math
                big = {'f32': (2 - Fraction(2) ** -23) * Fraction(2) ** 127, 'f64': (2 - Fraction(2) ** -52) * Fraction(2) ** 1023}
                if fty:
                    v = {'MAX': lambda: float(big[fty]), 'MIN': lambda: -float(big[fty]), 'PI': lambda: math.pi, 'TAU': lambda: 2 * math.pi,
                         'FRAC_PI_2': lambda: math.pi / 2, 'INFINITY': lambda: math.inf, 'NEG_INFINITY': lambda: -math.inf,
                         'NAN': lambda: math.nan, 'EPSILON': lambda: 2.0 ** (-23 if fty == 'f32' else -52),
                         'MIN_POSITIVE': lambda: 2.0 ** (-126 if fty == 'f32' else -1022)}.get(k)
                    if v:
                        return const(v(), fty)
        m = re.fullmatch(r'\{(alloc\d+): (&|\*mut |\*const )(.*)\}', s)
        if m and m.group(1) in ex.prog.allocs and '(static: ' in ex.prog.allocs[m.group(1)][0]:
            return self.static(ex, fr, st, re.search(r'\(static: (.*?), size', ex.prog.allocs[m.group(1)][0]).group(1), m.group(2), ptype(m.group(3)))
        # a const item or promoted of the crate
        body = self.const_body(ex, fr, s)
        if body is not None:
            if isinstance(body, str):
                return ex.operand(fr, st, mir.parse_operand(body))
            outs = ex.run(body, fr.env, [], st, fr.depth + 1)
            if len(outs) == 1 and outs[0].kind == 'ret':
                o = outs[0]
                st.mem, st.pc, st.partials = o.st.mem, o.st.pc, o.st.partials
                return o.val
            raise Unsupported('constant %s does not evaluate' % s[:80])
        if re.match(r'[\w:<>, ]+$', s) and '{' not in s and not re.match(r'[\d"]', s):
            # zero-sized function item or unit struct
            last = split_path(s)[-1]
            if last in ex.VARIANTS:
                return Agg(('adt', split_path(s)[-2], ()), (), last)
            return FnItem(s, (), fr.env)
        raise Unsupported('constant ' + s[:80])

    def static(self, ex, fr, st, name, how, ty):
        """A reference to a static: its value, or any value when it can change between calls."""
        def anything(t):
            if isinstance(t, tuple) and t[0] == 'arr':
                return Agg(t, [anything(t[1]) for _ in range(int(t[2]))])
            if isinstance(t, tuple) and t[0] == 'tup':
                return Agg(t, [anything(x) for x in t[1:]])
            if t in INTS or t in FLOATS or t == 'bool' or is_fx(t):
                from .loops import fresh
                return fresh(t, 'static')
            raise Unsupported('static of type %s' % (t,))
        if how == '&' and isinstance(ty, tuple) and ty[0] == 'adt' and re.match('Atomic', ty[1]):
            el = ty[2][0] if ty[2] else ty[1][6:].lower()
            return Ref(st.alloc(Agg(('adt', 'Atomic', (el,)), (anything(el),))), ())
        if how != '&':
            return Ref(st.alloc(anything(ty)), (), True)
        if not (ty in INTS or ty in FLOATS or ty == 'bool' or is_fx(ty) or isinstance(ty, tuple) and ty[0] in ('arr', 'tup', 'ref')):
            raise Unsupported('static of type %s' % (ty,))
        return Ref(st.alloc(self.named_const(ex, fr, st, name)), ())

    def const_body(self, ex, fr, s):
        """The body (or the one-line value) of a const item or of a promoted of the function being executed."""
        last = split_path(s)[-1]
        if last.startswith('promoted['):
            rec = getattr(fr.fn, 'promoted', {}).get(last)
            recs = [rec] if rec else []
        else:
            key = plain_path(s)
            rec = getattr(fr.fn, 'promoted', {}).get(last)      # an item of the function itself: a macro makes one per instance
            recs = [rec] if rec and plain_path(rec[0]) == key and '{constant#' not in s else [r for r in ex.prog.consts if plain_path(r[0]) == key and ('{constant#' in r[0]) == ('{constant#' in s)]
        if not recs:
            return None
        if len(set((t, b if isinstance(b, str) else '\n'.join(b)) for _, t, b in recs)) != 1:
            raise Unsupported('constant %s has several definitions' % s[:80])
        nm, ty, body = recs[0]
        if isinstance(body, str):
            return body
        f = mir.Fn.__new__(mir.Fn)
        f.name, f.short, f.params, f.ret = nm, nm, [], ptype(ty)
        f.text, f._parsed, f.prog, f.impl_span, f.line, f.promoted = body, False, ex.prog, None, hash((nm, ty)), {}
        return f

    # ------------------------------------------------------------ calls
    def call(self, ex, fr, st, c, args, rty):
        def ret(v):
            return [Outcome('ret', st, v)]

        def deref(v):
            while isinstance(v, Ref):
                v = st.load(v)
            return v

        def fork(cond, f_true, f_false):
            """two outcomes under cond / not cond"""
            out = []
            for cnd, f in ((cond, f_true), (not_(cond), f_false)):
                if cnd is FALSE:
                    continue
                s = st.fork()
                s.assume(cnd)
                if not ex.is_feasible(s):
                    continue
                r = f(s)
                if isinstance(r, Outcome):
                    out.append(r)
                else:
                    out.append(Outcome('ret', s, r))
            return out

        n = c.name
        S = c.selfty
        d = [deref(a) for a in args]
        terms = all(isinstance(x, Term) for x in d)
        nums = terms and all(is_num(x.ty) or x.ty == 'bool' for x in d)

        # ---- core operators on scalars
        if c.kind == 'trait':
            tr = c.trait
            if tr in ARITH_TR and nums and len(d) == 2 and d[0].ty == d[1].ty and is_num(d[0].ty):
                return self.arith(ex, st, ARITH_TR[tr], d[0], d[1])
            if tr in ARITH_TR and nums and len(d) == 2 and is_fx(d[0].ty) and d[1].ty in INTS and tr in ('Mul', 'Div'):
                raise Unsupported('fixed by integer arithmetic')
            if tr in ASSIGN_TR and nums and len(d) == 2 and d[0].ty == d[1].ty:
                outs = self.arith(ex, st, ASSIGN_TR[tr], d[0], d[1])
                for o in outs:
                    if o.kind == 'ret':
                        o.st.store(self.target(st, args[0]), o.val)
                        o.val = UNIT
                return outs
            if tr == 'Neg' and nums and is_num(d[0].ty):
                return ret(ex.num_neg(st, d[0]))
            if tr == 'Not' and terms and d[0].ty == 'bool':
                return ret(not_(d[0]))
            if tr in ('BitAnd', 'BitOr', 'BitXor') and terms:
                return ret(ex.binop(st, tr, d[0], d[1]))
            if tr in ('Shl', 'Shr') and terms and all(x.op == 'const' for x in d) and is_fx(d[0].ty):
                v = d[0].val << d[1].val if tr == 'Shl' else d[0].val >> d[1].val
                return ret(mk('const', (), d[0].ty, wrap_int(v, d[0].ty)))
            if tr in ('Shl', 'Shr') and terms and is_fx(d[0].ty):
                return ret(mk('fx' + tr.lower(), (d[0], d[1]), d[0].ty))
            if tr == 'PartialEq' and terms and d[0].ty == d[1].ty:
                return ret(cmp('eq' if n == 'eq' else 'ne', d[0], d[1]))
            if tr == 'PartialEq' and len(d) == 2 and n in ('eq', 'ne'):
                e = same_variant(deref_all(st, d[0]), deref_all(st, d[1]))
                if e is not None:
                    return ret(e if n == 'eq' else not_(e))
            if tr == 'PartialEq' and len(d) == 2 and n in ('eq', 'ne') and all(isinstance(x, Str) for x in d):
                return ret(const((d[0].data == d[1].data) == (n == 'eq'), 'bool'))
            if tr == 'PartialOrd' and terms and n in ('lt', 'le', 'gt', 'ge') and d[0].ty == d[1].ty:
                return ret(cmp(n, d[0], d[1]))
            if tr in ('PartialOrd', 'Ord') and terms and n in ('partial_cmp', 'cmp') and d[0].ty == d[1].ty:
                ot = ('adt', 'Ordering', ())
                w = (lambda v: some(Agg(ot, (), v))) if n == 'partial_cmp' else (lambda v: Agg(ot, (), v))
                lt_, eq_, gt_ = cmp('lt', d[0], d[1]), cmp('eq', d[0], d[1]), cmp('gt', d[0], d[1])
                out = []
                for cnd, v in (((lt_,), w('Less')), ((not_(lt_), eq_), w('Equal')),
                               ((not_(lt_), not_(eq_), gt_), w('Greater')),
                               ((not_(lt_), not_(eq_), not_(gt_)), none(ot))):
                    s = st.fork()
                    for x in cnd:
                        s.assume(x)
                    total = d[0].ty in INTS or is_fx(d[0].ty)
                    if v.variant == 'None' and total:
                        continue
                    if ex.is_feasible(s):
                        out.append(Outcome('ret', s, v))
                return out
            if tr == 'Ord' and n in ('max', 'min') and terms and (d[0].ty in INTS or is_fx(d[0].ty)):
                cnd = cmp('le', d[0], d[1])
                return fork(cnd, lambda s: d[1] if n == 'max' else d[0], lambda s: d[0] if n == 'max' else d[1])
            if tr == 'Clone' and n == 'clone' and len(d) == 1 and (terms or isinstance(d[0], Agg)):
                if terms or all(isinstance(x, Term) for x in d[0].fields):
                    return ret(d[0])
            if tr == 'Default' and n == 'default' and is_num(rty or S):
                return ret(lit(0, S))
            if tr in ('From', 'Into') and terms and n in ('from', 'into'):
                to = S if tr == 'From' else rty
                if d[0].ty == to:
                    return ret(d[0])
                if to in INTS | FLOATS and d[0].ty in INTS | FLOATS | {'bool'}:
                    return ret(cast(d[0], to))
                if is_fx(to):
                    return self.fx_from(ex, st, d[0], to)
                if is_fx(d[0].ty) and to in FLOATS:
                    return self.fx_to(ex, st, d[0], to)
            if tr in ('From', 'Into') and isinstance(args[0], (Agg, Ref)) and typeof(args[0], st) == (S if tr == 'From' else rty):
                return ret(args[0])
            if tr == 'Iterator' or tr == 'IntoIterator':
                r = self.iterator(ex, fr, st, c, args, d, ret, fork)
                if r is not None:
                    return r
            if tr == 'Index' and n == 'index' and len(d) == 2 and isinstance(d[0], Agg) and d[0].ty[0] == 'arr':
                r = self.slice_index(st, d[0], d[1])
                if r is not None:
                    return r
            if tr == 'Try' and isinstance(d[0], Agg) and d[0].variant in ('Ok', 'Err', 'Some', 'None'):
                if n == 'branch':
                    go = d[0].variant in ('Ok', 'Some')
                    return ret(Agg(('adt', 'ControlFlow', ()), d[0].fields if go else (d[0],), 'Continue' if go else 'Break'))
            if tr == 'FromResidual' and isinstance(d[0], Agg) and d[0].variant in ('Err', 'None'):
                return ret(Agg(rty, d[0].fields, d[0].variant) if rty is not None else d[0])
            if tr in ('FnOnce', 'Fn', 'FnMut') and n in ('call', 'call_mut', 'call_once') and isinstance(d[1], Agg):
                return ex.invoke(fr, st, args[0], list(d[1].fields), rty)
            if tr == 'ToFixed' and n == 'to_fixed' and terms and is_fx(rty):
                return self.fx_from(ex, st, d[0], rty)
            if tr == 'FromFixed' and n == 'from_fixed' and terms and is_fx(d[0].ty) and rty is not None:
                return self.fx_to(ex, st, d[0], rty)
            if tr in ('FloatCore', 'Float') or tr in ('Signed', 'Zero', 'One', 'Bounded', 'Num'):
                r = self.num_traits(ex, st, c, d, rty, ret)
                if r is not None:
                    return r
            # ---- the Mixed* traits on an abstract type
            if is_abs(S):
                r = self.mixed(ex, st, c, args, d, rty, ret)
                if r is not None:
                    return r
        # ---- inherent / free functions of dependencies
        root = c.segs[0] if c.segs else ''
        if c.kind == 'path' and root == 'libm':
            return self.libm(c, d, ret)
        if c.kind == 'path' and root == 'cordic':
            if n in CORDIC and terms:
                self.note('cordic::' + n)
                return ret(mk('cordic', d, d[0].ty, n))
            if n == 'sin_cos':
                self.note('cordic::sin_cos = (cordic::sin, cordic::cos)')
                return ret(tup(mk('cordic', d, d[0].ty, 'sin'), mk('cordic', d, d[0].ty, 'cos')))
            raise Unsupported('cordic::' + n)
        inh = c.inherent if c.inherent is not None else (S if c.kind == 'path' else None)
        if is_fx(S):
            r = self.fixed(ex, st, c, S, args, d, rty, ret, fork)
            if r is not None:
                return r
        if inh in INTS:
            r = self.int_method(ex, st, c, inh, d, ret, fork)
            if r is not None:
                return r
        if inh in FLOATS:
            r = self.float_method(ex, st, c, inh, d, rty, ret, fork)
            if r is not None:
                return r
        if d and isinstance(d[0], Agg) and d[0].ty[0] == 'arr' and ('slice' in c.segs or c.segs[:2] == ['core', 'array'] or isinstance(inh, tuple) and inh[0] in ('slice', 'arr')):
            r = self.slice_method(ex, fr, st, n, args, d, ret)
            if r is not None:
                return r
        if root in ('core', 'std') or (inh is not None and isinstance(inh, tuple) and inh[0] == 'adt'):
            r = self.core_fn(ex, fr, st, c, args, d, rty, ret, fork)
            if r is not None:
                return r
        return self.extra(ex, fr, st, c, args, d, rty)

    def extra(self, ex, fr, st, c, args, d, rty):
        return None

    def slice_index(self, st, a, i):
        """&a[i] of an array that is only read: a copy."""
        if isinstance(i, Term):
            i = Agg(('adt', 'At', ()), (i,))
        if not isinstance(i, Agg) or not all(isinstance(x, Term) and x.op == 'const' for x in i.fields):
            return None
        n, v = len(a.fields), [x.val for x in i.fields]
        k = i.ty[1] if i.ty[0] == 'adt' else None
        lo, hi = {'At': lambda: (v[0], v[0] + 1), 'Range': lambda: (v[0], v[1]), 'RangeTo': lambda: (0, v[0]), 'RangeFrom': lambda: (v[0], n),
                  'RangeInclusive': lambda: (v[0], v[1] + 1), 'RangeToInclusive': lambda: (0, v[0] + 1),
                  'RangeFull': lambda: (0, n)}.get(k, lambda: (None, None))()
        if lo is None:
            return None
        if not 0 <= lo <= hi <= n:
            return [Outcome('panic', st, None, 'index out of range')]
        if k == 'At':
            return [Outcome('ret', st, Ref(st.alloc(a.fields[lo]), ()))]
        return [Outcome('ret', st, Ref(st.alloc(Agg(('arr', a.ty[1], hi - lo), a.fields[lo:hi])), ()))]

    def slice_method(self, ex, fr, st, n, args, d, ret):
        a = d[0]
        if n == 'map' and a is args[0]:
            outs = [(st, ())]
            res = []
            f = Ref(st.alloc(args[1]), (), True)
            for x in a.fields:
                nxt = []
                for s, vs in outs:
                    for o in ex.invoke(fr, s, f, [x], None):
                        if o.kind == 'ret':
                            nxt.append((o.st, vs + (o.val,)))
                        else:
                            res.append(o)
                outs = nxt
            return res + [Outcome('ret', s, Agg(('arr', typeof(vs[0], s) if vs else ('wild',), len(vs)), vs)) for s, vs in outs]
        if n in ('iter', 'iter_mut'):
            ref = args[0]
            while isinstance(ref, Ref) and isinstance(st.load(ref), Ref):
                ref = st.load(ref)
            return ret(arr_iter([Ref(ref.cell, ref.path + (i,), n == 'iter_mut') for i in range(len(a.fields))]))
        if n == 'len':
            return ret(const(len(a.fields), 'usize'))
        if n == 'is_empty':
            return ret(FALSE if a.fields else TRUE)
        if n in ('first', 'last'):
            if not a.fields:
                return ret(none(('wild',)))
            return ret(some(Ref(st.alloc(a.fields[0 if n == 'first' else -1]), ())))
        if n == 'get' and isinstance(d[1], Term) and d[1].op == 'const':
            i = d[1].val
            return ret(some(Ref(st.alloc(a.fields[i]), ())) if i < len(a.fields) else none(('wild',)))
        return None

    def target(self, st, r):
        while True:
            v = st.load(r)
            if isinstance(v, Ref):
                r = v
            else:
                return r

    def arith(self, ex, st, op, a, b):
        if op in ('div', 'rem') and (a.ty in INTS or is_fx(a.ty)):
            if b.op == 'const' and b.val == 0:
                return [Outcome('panic', st, None, 'division by zero')]
        t = ex.num(st, op, a, b)
        if t.op in (op,) and a.op == 'const' and b.op == 'const' and a.ty not in FLOATS and not is_abs(a.ty):
            # constants that did not fold: overflow
            return [Outcome('panic', st, None, 'overflow')]
        return [Outcome('ret', st, t)]

    # ------------------------------------------------------------ iterators
    def iterator(self, ex, fr, st, c, args, d, ret, fork):
        if c.name == 'into_iter' and isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'RangeInclusive') and len(args[0].fields) == 3:
            a, b, e = args[0].fields
            if e is FALSE and not (a.op == b.op == 'const') and a.ty in INTS and INT_W[a.ty] <= 64:
                # what is left of the range: first..last+1 in wider integers
                return ret(Agg(('adt', 'RangeInclusive', (a.ty,)), (cast(a, 'i128'), cast(b, 'i128'))))
        if c.name == 'into_iter' and isinstance(args[0], Agg) and args[0].ty[:2] in (('adt', 'Range'), ('adt', 'RangeInclusive'), ('adt', 'Rev'), ('adt', 'RangeFrom')):
            return ret(args[0])
        if isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'Adapter') and c.name == 'into_iter':
            return ret(args[0])
        if (c.name in PRELUDE or c.name in EARLY) and args and (is_iter(args[0]) or c.name in EARLY and isinstance(args[0], Ref) and is_iter(d[0])):
            self.note('core::iter::Iterator::%s is the loop over next()' % c.name)
            a = list(args)
            if c.name in EARLY:
                # these take the iterator by reference
                it = self.target(st, args[0]) if isinstance(args[0], Ref) else Ref(st.alloc(args[0]), (), True)
                a[0] = it
            return ex.run(prelude(ex.prog, c.name), {'Self': d[0].ty}, a, st, fr.depth + 1)
        if c.name == 'into_iter' and isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'ArrIter'):
            return ret(args[0])
        if c.name == 'into_iter' and isinstance(d[0], Agg) and d[0].ty[0] == 'arr':
            ref = args[0]
            while isinstance(ref, Ref) and isinstance(st.load(ref), Ref):
                ref = st.load(ref)
            items = [Ref(ref.cell, ref.path + (i,), ref.mut) for i in range(len(d[0].fields))] if isinstance(ref, Ref) else d[0].fields
            return ret(arr_iter(items))
        if c.name == 'rev' and isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'ArrIter'):
            return ret(arr_iter(tuple(args[0].fields)[::-1]))
        if c.name == 'enumerate' and isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'ArrIter'):
            return ret(arr_iter([tup(const(i, 'usize'), x) for i, x in enumerate(args[0].fields)]))
        if c.name in ('copied', 'cloned') and isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'ArrIter'):
            return ret(arr_iter([st.load(x) for x in args[0].fields]))
        if c.name in ADAPTERS and args and is_iter(args[0]) and not (args[0].ty[1] == 'ArrIter' and c.name in ('enumerate', 'copied', 'cloned')):
            rest = list(args[1:])
            if c.name in ('zip', 'chain') and not is_iter(rest[0]):
                sub = self.iterator(ex, fr, st, IntoIter, [rest[0]], [d[1]], ret, fork)
                if sub is None or len(sub) != 1 or not is_iter(sub[0].val):
                    return None
                rest = [sub[0].val]
            if c.name in ('take', 'skip', 'step_by') and rest[0].op != 'const':
                return None
            if c.name == 'enumerate':
                rest = [const(0, 'usize')]
            if c.name in ('skip_while', 'step_by', 'chain'):
                rest.append(FALSE)
            self.note('core::iter adapters as documented')
            return ret(Agg(('adt', 'Adapter', (c.name,)), [args[0]] + rest))
        if c.name == 'zip' and isinstance(args[0], Agg) and isinstance(d[1], Agg) and args[0].ty[:2] == d[1].ty[:2] == ('adt', 'ArrIter'):
            return ret(arr_iter([tup(x, y) for x, y in zip(args[0].fields, d[1].fields)]))
        if c.name == 'rev' and isinstance(args[0], Agg) and args[0].ty[:2] == ('adt', 'Range'):
            return ret(Agg(('adt', 'Rev', (args[0].ty,)), (args[0],)))
        if c.name == 'next' and isinstance(args[0], Ref):
            tgt = self.target(st, args[0])
            it = st.load(tgt)
            if not isinstance(it, Agg):
                return None
            if it.ty[1] == 'Adapter':
                return self.adapter(ex, fr, st, tgt, it)
            if it.ty[1] == 'ArrIter':
                if not it.fields:
                    return ret(none(('wild',)))
                st.store(tgt, arr_iter(it.fields[1:]))
                return ret(some(it.fields[0]))
            if it.ty[1] == 'Range':
                a, b = it.fields

                def more(s):
                    s.store(tgt, Agg(it.ty, (arith('add', a, const(1, a.ty), a.ty), b)))
                    return some(a)
                return fork(cmp('lt', a, b), more, lambda s: none(a.ty))
            if it.ty[1] == 'Rev':
                a, b = it.fields[0].fields

                def more(s):
                    b1 = arith('sub', b, const(1, b.ty), b.ty)
                    s.store(tgt, Agg(it.ty, (Agg(it.fields[0].ty, (a, b1)),)))
                    return some(b1)
                return fork(cmp('lt', a, b), more, lambda s: none(a.ty))
            if it.ty[1] == 'RangeInclusive' and len(it.fields) == 2:
                a, b = it.fields

                def more(s):
                    s.store(tgt, Agg(it.ty, (arith('add', a, const(1, a.ty), a.ty), b)))
                    return some(cast(a, it.ty[2][0]))
                return fork(cmp('le', a, b), more, lambda s: none(it.ty[2][0]))
            if it.ty[1] == 'RangeInclusive':
                a, b, e = it.fields
                if e is not FALSE and e is not TRUE:
                    raise Unsupported('RangeInclusive state')
                if e is TRUE:
                    return ret(none(a.ty))

                def more(s):
                    s2 = s.fork()
                    outs = []
                    return None
                out = []
                for cnd, upd, v in ((cmp('lt', a, b), (arith('add', a, const(1, a.ty), a.ty), b, FALSE), some(a)),
                                    (cmp('eq', a, b), (a, b, TRUE), some(a)),
                                    (cmp('lt', b, a), (a, b, TRUE), none(a.ty))):
                    s = st.fork()
                    s.assume(cnd)
                    if cnd is FALSE or not ex.is_feasible(s):
                        continue
                    s.store(tgt, Agg(it.ty, upd))
                    out.append(Outcome('ret', s, v))
                return out
            if it.ty[1] == 'RangeFrom':
                a, = it.fields
                st.store(tgt, Agg(it.ty, (arith('add', a, const(1, a.ty), a.ty),)))
                return ret(some(a))
        return None

    def step(self, ex, fr, st, ref):
        """next() of the iterator at a place."""
        def ret(v):
            return [Outcome('ret', st, v)]

        def fork(cond, f_true, f_false):
            out = []
            for cnd, f in ((cond, f_true), (not_(cond), f_false)):
                s = st.fork()
                s.assume(cnd)
                if cnd is not FALSE and ex.is_feasible(s):
                    out.append(Outcome('ret', s, f(s)))
            return out
        r = self.iterator(ex, fr, st, Next, [ref], [st.load(ref)], ret, fork)
        if r is None:
            raise Unsupported('iterator')
        return r

    def adapter(self, ex, fr, st, tgt, it, turns=0):
        """next() of an iterator adapter, as core documents it."""
        k = it.ty[2][0]
        if turns > 64:
            raise Unsupported('iterator adapter')
        at = lambda i: Ref(tgt.cell, tgt.path + (i,), True)

        def split(outs, cond_of, yes, no):
            res = []
            for o in outs:
                if o.kind != 'ret':
                    res.append(o)
                    continue
                for cnd, f in ((o.val, yes), (not_(o.val), no)):
                    s = o.st.fork()
                    s.assume(cnd)
                    if cnd is not FALSE and ex.is_feasible(s):
                        r = f(s)
                        res += r if isinstance(r, list) else [Outcome('ret', s, r)]
            return res
        if k == 'take':
            n = st.load(at(1))
            if n.val == 0:
                return [Outcome('ret', st, none(('wild',)))]
            st.store(at(1), const(n.val - 1, n.ty))
            return self.step(ex, fr, st, at(0))
        if k in ('skip', 'step_by'):
            n = st.load(at(1)).val
            if k == 'step_by':
                n, first = n - 1, st.load(at(2)) is FALSE
                st.store(at(2), TRUE)
                n = 0 if first else n
            else:
                st.store(at(1), const(0, 'usize'))
            outs = [Outcome('ret', st, some(UNIT))]
            for _ in range(n + 1):
                outs = [x for o in outs for x in (self.step(ex, fr, o.st, at(0)) if o.kind == 'ret' and o.val.variant == 'Some' else [o])]
            return outs
        if k == 'chain' and st.load(at(2)) is TRUE:
            return self.step(ex, fr, st, at(1))
        res = []
        for o in self.step(ex, fr, st, at(0)):
            if o.kind != 'ret':
                res.append(o)
                continue
            s, end = o.st, o.val.variant == 'None'
            if k == 'chain':
                if end:
                    s.store(at(2), TRUE)
                    res += self.step(ex, fr, s, at(1))
                else:
                    res.append(o)
            elif end:
                res.append(Outcome('ret', s, none(('wild',))))
            elif k in ('copied', 'cloned'):
                v = o.val.fields[0]
                res.append(Outcome('ret', s, some(s.load(v) if isinstance(v, Ref) else v)))
            elif k == 'enumerate':
                i = s.load(at(1))
                s.store(at(1), arith('add', i, const(1, 'usize'), 'usize'))
                res.append(Outcome('ret', s, some(tup(i, o.val.fields[0]))))
            elif k == 'zip':
                for q in self.step(ex, fr, s, at(1)):
                    if q.kind == 'ret':
                        q.val = some(tup(o.val.fields[0], q.val.fields[0])) if q.val.variant == 'Some' else none(('wild',))
                    res.append(q)
            elif k == 'map':
                for q in ex.invoke(fr, s, at(1), [o.val.fields[0]], None):
                    if q.kind == 'ret':
                        q.val = some(q.val)
                    res.append(q)
            elif k == 'filter_map':
                for q in ex.invoke(fr, s, at(1), [o.val.fields[0]], None):
                    if q.kind == 'ret' and q.val.variant == 'None':
                        res += self.adapter(ex, fr, q.st, tgt, q.st.load(tgt), turns + 1)
                    else:
                        res.append(q)
            elif k == 'inspect':
                ref = Ref(s.alloc(o.val.fields[0]), ())
                for q in ex.invoke(fr, s, at(1), [ref], None):
                    if q.kind == 'ret':
                        q.val = o.val
                    res.append(q)
            elif k in ('filter', 'take_while', 'skip_while'):
                if k == 'skip_while' and s.load(at(2)) is TRUE:
                    res.append(o)
                    continue
                ref = Ref(s.alloc(o.val.fields[0]), ())
                outs = ex.invoke(fr, s, at(1), [ref], 'bool')
                again = lambda s: self.adapter(ex, fr, s, tgt, s.load(tgt), turns + 1)

                def stop(s, v=o.val):
                    s.store(at(2), TRUE)
                    return v
                if k == 'filter':
                    res += split(outs, None, lambda s, v=o.val: v, again)
                elif k == 'take_while':
                    res += split(outs, None, lambda s, v=o.val: v, lambda s: none(('wild',)))
                else:
                    res += split(outs, None, again, stop)
            else:
                raise Unsupported('iterator adapter ' + k)
        return res

    # ------------------------------------------------------------ traits on abstract T
    def mixed(self, ex, st, c, args, d, rty, ret):
        S, n = c.selfty, c.name
        if n in ('mixed_from_num', 'from_num') and len(d) == 1 and isinstance(d[0], Term):
            x = d[0]
            v = num_val(x)
            if x.ty == S:
                return ret(x)
            if v is not None:
                return ret(lit(v, S))
            return ret(ex.partial(st, mk('conv', (x,), S)))
        if n in ('mixed_to_num', 'to_num') and isinstance(d[0], Term):
            if rty is not None and (is_num(rty)):
                return ret(d[0] if rty == d[0].ty else ex.partial(st, mk('conv', (d[0],), rty)))
            return None
        if n == 'mixed_zero':
            return ret(lit(0, S))
        if n == 'mixed_one':
            return ret(lit(1, S))
        if n == 'mixed_pi':
            return ret(mk('pi', (), S))
        if n == 'mixed_tau':
            return ret(mk('tau', (), S))
        if n == 'mixed_max_value':
            return ret(mk('maxv', (), S))
        if n == 'mixed_min_value':
            return ret(mk('minv', (), S))
        if n == 'mixed_is_positive':
            return ret(mk('ispos', d, 'bool'))
        if n == 'mixed_is_negative':
            return ret(mk('isneg', d, 'bool'))
        if n == 'mixed_sincos':
            return ret(tup(mk('m_sin', d, S), mk('m_cos', d, S)))
        if n == 'mixed_powi':
            x, e = d
            if e.op == 'const':
                if e.val == 0:
                    return ret(lit(1, S))
                if e.val == 1:
                    return ret(x)
                if e.val == 2:
                    return ret(ex.num(st, 'mul', x, x))
            return ret(ex.partial(st, mk('m_powi', (x, e), S)))
        if n in MIXED_UF and all(isinstance(x, Term) for x in d):
            t = mk('m_' + MIXED_UF[n], d, S)
            return ret(ex.partial(st, t))
        return None

    # ------------------------------------------------------------ libm / floats
    def libm(self, c, d, ret):
        n = c.name
        ty = d[0].ty
        if n in ('sincos', 'sincosf'):
            want = 'f32' if n.endswith('f') else 'f64'
            if ty != want:
                raise Unsupported('libm type')
            self.note('libm::%s = (sin, cos)' % n)
            return ret(tup(mk('libm', d, ty, 'sin'), mk('libm', d, ty, 'cos')))
        base, want = (n, 'f64') if n in LIBM else (n[:-1], 'f32') if n.endswith('f') and n[:-1] in LIBM else (None, None)
        if base is None or any(x.ty != want for x in d):
            raise Unsupported('libm::' + n)
        self.note('libm::' + n)
        return ret(self.libm_term(base, d, want))

    def libm_term(self, base, d, ty):
        if base == 'fabs':
            return mk('fabs', d, ty)
        return mk('libm', d, ty, base)

    def float_method(self, ex, st, c, ty, d, rty, ret, fork):
        n = c.name
        if not all(isinstance(x, Term) for x in d):
            return None
        if n == 'abs' and d[0].ty in FLOATS:
            if d[0].op == 'const':
                return ret(const(abs(d[0].val), ty))
            return ret(mk('fabs', d, ty))
        if n == 'is_sign_negative':
            return ret(mk('fsign', d, 'bool'))
        if n == 'is_sign_positive':
            return ret(not_(mk('fsign', d, 'bool')))
        if n == 'is_nan':
            return ret(not_(mk('eq', (d[0], d[0]), 'bool')))
        if n == 'is_finite':
            self.note('core f.is_finite')
            return ret(mk('isfin', d, 'bool'))
        if n == 'is_infinite':
            return ret(and_(not_(mk('isfin', d, 'bool')), mk('eq', (d[0], d[0]), 'bool')))
        if n in ('max_value', 'min_value'):
            return ret(self.fmax(ty, n == 'min_value'))
        if n == 'recip':
            return ret(arith('div', const(1, ty), d[0], ty))
        if n == 'mul_add':
            return None
        if n in ('to_bits', 'from_bits'):
            x = d[0]
            if n == 'from_bits' and ty in FLOATS:
                if x.op == 'to_bits' and x.args[0].ty == ty:
                    return ret(x.args[0])
                top = 1 << (31 if ty == 'f32' else 63)
                if x.op in ('band', 'bor', 'bxor') and any(a.op == 'const' for a in x.args):
                    k, y = (x.args if x.args[0].op == 'const' else x.args[::-1])
                    if y.op == 'to_bits' and y.args[0].ty == ty:
                        y = y.args[0]
                        if (x.op, k.val) == ('band', top - 1):
                            return ret(mk('fabs', (y,), ty))
                        if (x.op, k.val) == ('bor', top):
                            return ret(neg(mk('fabs', (y,), ty)))
                        if (x.op, k.val) == ('bxor', top):
                            return ret(neg(y))
            return ret(mk(n, d, rty))
        return None

    def fmax(self, ty, negate=False):
        v = float((2 - Fraction(2) ** -23) * Fraction(2) ** 127) if ty == 'f32' else 1.7976931348623157e308
        return const(-v if negate else v, ty)

    def num_traits(self, ex, st, c, d, rty, ret):
        n, S = c.name, c.selfty
        if S in FLOATS:
            if n in ('max_value', 'min_value'):
                self.note('num FloatCore::' + n)
                return ret(self.fmax(S, n == 'min_value'))
            if n == 'powi':
                self.note('num FloatCore::powi = n-fold product (reciprocal for n<0)')
                x, e = d
                if e.op == 'const' and 0 <= e.val <= 2:
                    if e.val == 0:
                        return ret(const(1, S))
                    return ret(x if e.val == 1 else arith('mul', x, x, S))
                return ret(mk('fpowi', (x, e), S))
            if n in ('abs',):
                return ret(mk('fabs', d, S))
            if n == 'is_sign_negative':
                return ret(mk('fsign', d, 'bool'))
            if n == 'is_sign_positive':
                return ret(not_(mk('fsign', d, 'bool')))
            if n == 'signum':
                return None
            if n in ('zero', 'one'):
                return ret(const(0 if n == 'zero' else 1, S))
            if n == 'is_nan':
                return ret(not_(mk('eq', (d[0], d[0]), 'bool')))
            if n == 'is_finite':
                return ret(mk('isfin', d, 'bool'))
            if n in ('ceil', 'floor'):
                return ret(mk('libm', d, S, n))
            if n in ('infinity', 'neg_infinity', 'nan'):
                import math
                return ret(const({'infinity': math.inf, 'neg_infinity': -math.inf, 'nan': math.nan}[n], S))
            if n == 'recip':
                return ret(arith('div', const(1, S), d[0], S))
        if S in INTS and n in ('zero', 'one'):
            return ret(const(0 if n == 'zero' else 1, S))
        return None

    # ------------------------------------------------------------ integers
    def int_method(self, ex, st, c, ty, d, ret, fork):
        n = c.name
        if not all(isinstance(x, Term) for x in d):
            return None
        lo, hi = int_range(ty)
        if n in ('max_value', 'min_value'):
            return ret(mk('const', (), ty, hi if n == 'max_value' else lo))
        z = const(0, ty)
        if n == 'is_positive':
            return ret(cmp('lt', z, d[0]))
        if n == 'is_negative':
            return ret(cmp('lt', d[0], z))
        if n == 'abs':
            if d[0].op == 'const' and d[0].val != lo:
                return ret(mk('const', (), ty, abs(d[0].val)))
            return fork(cmp('le', z, d[0]), lambda s: d[0], lambda s: ex.partial(s, neg(d[0])))
        if n == 'unsigned_abs':
            ut = 'u' + ty[1:]
            return fork(cmp('le', z, d[0]), lambda s: cast(d[0], ut), lambda s: mk('uneg', (d[0],), ut))
        if n == 'signum':
            return fork(cmp('lt', d[0], z), lambda s: const(-1, ty),
                        lambda s: ite(cmp('eq', d[0], z), z, const(1, ty)))
        if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg'):
            if n == 'wrapping_neg':
                return ret(mk('wsub', (z, d[0]), ty))
            return ret(mk('w' + n[9:], d, ty))
        if n in ('saturating_add', 'saturating_sub', 'saturating_mul'):
            return ret(mk('s' + n[11:], d, ty))
        if n in ('checked_add', 'checked_sub', 'checked_mul'):
            o = n[8:]
            return fork(mk('ovf_' + o, d, 'bool'), lambda s: none(ty), lambda s: some(arith(o, d[0], d[1], ty)))
        if n in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
            o = n[12:]
            return ret(tup(mk('w' + o, d, ty), mk('ovf_' + o, d, 'bool')))
        if n in ('min', 'max'):
            return None
        if n == 'pow':
            return ret(ex.partial(st, mk('ipow', d, ty)))
        return None

    # ------------------------------------------------------------ fixed
    def fx_from(self, ex, st, x, ty):
        self.note('fixed::from_num')
        if x.ty == ty:
            return [Outcome('ret', st, x)]
        v = num_val(x)
        if v is not None and x.op == 'const':
            if is_fx(x.ty):
                b = (v * (1 << ty[3])).__floor__()
            elif x.ty in INTS:
                b = int(v) << ty[3]
            else:
                b = round_even(v * (1 << ty[3]))
            lo, hi = int_range(ty)
            if not lo <= b <= hi:
                return [Outcome('panic', st, None, 'overflow in from_num')]
            return [Outcome('ret', st, mk('const', (), ty, b))]
        return [Outcome('ret', st, ex.partial(st, mk('fx_from', (x,), ty)))]

    def fx_to(self, ex, st, x, ty):
        self.note('fixed::to_num')
        if x.ty == ty:
            return [Outcome('ret', st, x)]
        if is_fx(ty):
            return self.fx_from(ex, st, x, ty)
        if x.op == 'const':
            v = num_val(x)
            if ty in FLOATS:
                return [Outcome('ret', st, mk('const', (), ty, round_float(v, ty)))]
            b = v.__floor__()
            lo, hi = int_range(ty)
            if not lo <= b <= hi:
                return [Outcome('panic', st, None, 'overflow in to_num')]
            return [Outcome('ret', st, mk('const', (), ty, b))]
        return [Outcome('ret', st, ex.partial(st, mk('fx_to', (x,), ty)))]

    def fixed(self, ex, st, c, S, args, d, rty, ret, fork):
        n = c.name
        if not all(isinstance(x, Term) for x in d):
            return None
        bits_t = ('i' if S[1] == 'I' else 'u') + str(S[2])
        z = mk('const', (), S, 0)
        if c.kind == 'trait' and c.trait.startswith('Mixed'):
            return None
        if n in ('from_num', 'from_fixed') and len(d) == 1:
            return self.fx_from(ex, st, d[0], S)
        if n in ('to_num', 'to_fixed') and len(d) == 1:
            return self.fx_to(ex, st, d[0], rty)
        if n in ('wrapping_from_num', 'saturating_from_num', 'unwrapped_from_num', 'wrapping_to_num', 'saturating_to_num'):
            if n.startswith('unwrapped'):
                return self.fx_from(ex, st, d[0], S)
            return ret(mk('fx_' + n, d, rty))
        if n in ('checked_from_num', 'checked_to_num', 'overflowing_from_num'):
            return None
        if n == 'to_bits':
            return ret(mk('const', (), bits_t, d[0].val) if d[0].op == 'const' else mk('fxbits', d, bits_t))
        if n == 'from_bits':
            if d[0].op == 'fxbits' and d[0].args[0].ty == S:
                return ret(d[0].args[0])
            return ret(mk('const', (), S, d[0].val) if d[0].op == 'const' else mk('fxfrombits', d, S))
        if n == 'abs':
            if d[0].op == 'const':
                return ret(mk('const', (), S, abs(d[0].val)))
            return fork(cmp('le', z, d[0]), lambda s: d[0], lambda s: ex.partial(s, neg(d[0])))
        if n == 'is_positive':
            return ret(cmp('lt', z, d[0]))
        if n == 'is_negative':
            return ret(cmp('lt', d[0], z))
        if n == 'is_zero':
            return ret(cmp('eq', d[0], z))
        if n in ('max_value', 'min_value'):
            return ret(mk('const', (), S, int_range(S)[n == 'max_value']))
        if n == 'signum' and S[1] == 'I':
            one = lit(1, S)
            if one is None:
                return None
            return fork(cmp('lt', d[0], z), lambda s: neg(one), lambda s: ite(cmp('eq', d[0], z), z, one))
        if n in ('add', 'sub', 'mul', 'div') and c.kind == 'path' and len(d) == 2:
            return self.arith(ex, st, n, d[0], d[1])
        if n.startswith(('wrapping_', 'saturating_', 'checked_', 'overflowing_')):
            k, o = n.split('_', 1)
            if k in ('wrapping', 'saturating') and o in ('add', 'sub', 'mul', 'neg', 'abs', 'div'):
                return ret(mk({'wrapping': 'w', 'saturating': 's'}[k] + o, d, S))
            if k == 'checked' and o in ('add', 'sub', 'mul') and len(d) == 2:
                return fork(mk('fxovf_' + o, d, 'bool'), lambda s: none(S), lambda s: some(arith(o, d[0], d[1], S)))
        if n in ('floor', 'ceil', 'round', 'int', 'frac'):
            return ret(mk('fx' + n, d, S))
        return None

    # ------------------------------------------------------------ core
    def core_fn(self, ex, fr, st, c, args, d, rty, ret, fork):
        n = c.name
        segs = c.segs
        T = c.inherent if c.inherent is not None else c.selfty
        an = T[1] if isinstance(T, tuple) and T[0] == 'adt' else None
        if n == 'new' and an == 'RangeInclusive':
            return ret(Agg(T if T[2] else ('adt', 'RangeInclusive', (d[0].ty,)), (d[0], d[1], FALSE)))
        if n in ('start', 'end') and an in ('RangeInclusive',):
            return None
        if an == 'Option' and isinstance(d[0], Agg):
            o = d[0]
            if n == 'is_some':
                return ret(const(o.variant == 'Some', 'bool'))
            if n == 'is_none':
                return ret(const(o.variant == 'None', 'bool'))
            if n in ('unwrap', 'expect'):
                if o.variant == 'Some':
                    return ret(o.fields[0])
                return [Outcome('panic', st, None, 'unwrap on None')]
            if n in ('unwrap_or',):
                return ret(o.fields[0] if o.variant == 'Some' else args[1])
            if n in ('map', 'and_then', 'unwrap_or_else', 'map_or', 'is_some_and', 'or_else', 'map_or_else'):
                r = None
                if o.variant == 'Some':
                    if n in ('unwrap_or_else', 'or_else'):
                        return ret(o.fields[0] if n == 'unwrap_or_else' else o)
                    it = rty[2][0] if n == 'map' and isinstance(rty, tuple) and rty[0] == 'adt' and rty[2] else rty
                    r = ex.invoke(fr, st, args[2 if n in ('map_or', 'map_or_else') else 1], [o.fields[0]], it)
                elif n in ('unwrap_or_else', 'or_else', 'map_or_else'):
                    r = ex.invoke(fr, st, args[1], [], rty)
                else:
                    return ret(FALSE if n == 'is_some_and' else args[1] if n == 'map_or' else none(rty[2][0]) if isinstance(rty, tuple) and rty[0] == 'adt' else o)
                if n == 'map' and o.variant == 'Some':
                    for x in r:
                        if x.kind == 'ret':
                            x.val = some(x.val)
                return r
            if n in ('copied', 'cloned') and o.variant == 'Some':
                return ret(some(st.load(o.fields[0]) if isinstance(o.fields[0], Ref) else o.fields[0]))
        if an == 'Ordering' and isinstance(d[0], Agg) and d[0].variant:
            k = {'Less': -1, 'Equal': 0, 'Greater': 1}[d[0].variant]
            t = {'is_eq': k == 0, 'is_ne': k != 0, 'is_lt': k < 0, 'is_le': k <= 0, 'is_gt': k > 0, 'is_ge': k >= 0}
            if n in t:
                return ret(const(t[n], 'bool'))
            if n == 'reverse':
                return ret(Agg(d[0].ty, (), {-1: 'Greater', 0: 'Equal', 1: 'Less'}[k]))
            if n == 'then':
                return ret(d[0] if k else d[1])
            if n == 'then_with':
                return ret(d[0]) if k else ex.invoke(fr, st, args[1], [], rty)
        if an == 'Atomic' and isinstance(d[0], Agg) and d[0].ty[:2] == ('adt', 'Atomic'):
            # shared between calls (and threads): whatever is read is arbitrary
            from .loops import fresh
            if n == 'store':
                return ret(UNIT)
            if n in ('load', 'swap') or n.startswith('fetch_') and n != 'fetch_update':
                return ret(fresh(d[0].ty[2][0], 'static'))
        if n == 'from_fn' and segs[:2] == ['core', 'array'] and isinstance(rty, tuple) and rty[0] == 'arr' and str(rty[2]).isdigit():
            f, outs, res = Ref(st.alloc(args[0]), (), True), [(st, ())], []
            for i in range(int(rty[2])):
                nxt = []
                for s, vs in outs:
                    for o in ex.invoke(fr, s, f, [const(i, 'usize')], rty[1]):
                        if o.kind == 'ret':
                            nxt.append((o.st, vs + (o.val,)))
                        else:
                            res.append(o)
                outs = nxt
            return res + [Outcome('ret', s, Agg(rty, vs)) for s, vs in outs]
        if T == 'bool' and n in ('then', 'then_some') and isinstance(d[0], Term):
            out = []
            for cnd, yes in ((d[0], True), (not_(d[0]), False)):
                s = st.fork()
                s.assume(cnd)
                if cnd is FALSE or not ex.is_feasible(s):
                    continue
                if not yes:
                    out.append(Outcome('ret', s, none(('wild',))))
                elif n == 'then_some':
                    out.append(Outcome('ret', s, some(args[1])))
                else:
                    for o in ex.invoke(fr, s, args[1], [], None):
                        if o.kind == 'ret':
                            o.val = some(o.val)
                        out.append(o)
            return out
        if segs[:2] == ['core', 'mem'] and n in ('swap', 'replace', 'take'):
            t0 = self.target(st, args[0])
            if n == 'swap':
                t1 = self.target(st, args[1])
                a, b = st.load(t0), st.load(t1)
                st.store(t0, b)
                st.store(t1, a)
                return ret(UNIT)
            if n == 'replace':
                a = st.load(t0)
                st.store(t0, args[1])
                return ret(a)
        if segs[:2] == ['core', 'cmp'] and n in ('max', 'min') and all(isinstance(x, Term) for x in d):
            cnd = cmp('le', d[0], d[1])
            return fork(cnd, lambda s: d[1] if n == 'max' else d[0], lambda s: d[0] if n == 'max' else d[1])
        if segs[:2] == ['core', 'hint'] and n == 'black_box':
            return ret(args[0])
        if segs[:2] == ['core', 'convert'] and n == 'identity':
            return ret(args[0])
        return None
