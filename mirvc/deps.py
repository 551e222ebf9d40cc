"""Contracts assumed on the `fixed` crate, discharged from its own source.

The MIR of the dependency, exactly as cargo resolves it for /repo, is executed by the same executor; the back end is z3's
bit-vector theory (every machine word at its width, shifts, casts, leading_zeros, two's complement).
"""
import hashlib, json, os, re, subprocess, time
import z3
from . import mir, smt
from .mir import Unsupported, INTS, FLOATS, INT_W, is_signed, ptype, subst, unify, tstr, int_range
from .terms import Term, TRUE, FALSE, mk, const, var, cmp, cast, not_, and_, neg
from .exec import Exec, State, Agg, Ref, FnItem, Outcome, Frame, UNIT, typeof, parse_callee
from .models import Ctx, is_fx

FW = {'f32': (32, 8, 24), 'f64': (64, 11, 53)}      # width, exponent bits, precision


def width(ty):
    if ty in INTS:
        return INT_W[ty]
    if is_fx(ty):
        return ty[2]
    if ty in FW:
        return FW[ty][0]
    raise Unsupported('bit width of ' + tstr(ty))


def signed(ty):
    return ty in INTS and is_signed(ty) or is_fx(ty) and ty[1] == 'I'


# ---------------------------------------------------------------- bit-vector encoding

def minus(x):
    return ~x + 1           # a multiplication by -1 is what z3 makes of -x


class Bv:
    def __init__(self, given=None, link=False):
        self.memo, self.link = dict(given or {}), link
        self.names, self.facts, self.keep = {}, [], []

    # A product (a quotient) is a variable, the same one wherever the operands are: what is proved then holds for any
    # multiplication, and in particular for the real one, of which only the range is known.

    def key(self, x):
        x = z3.simplify(x)
        self.keep.append(x)         # an id is only good while the term lives
        return x.get_id()

    def times(self, x, sx, y, sy):
        """The exact product of x and y (signed as said), at the sum of their widths. -> (product, signed)"""
        kx, ky = self.key(x), self.key(y)
        if ky < kx:
            x, sx, y, sy, kx, ky = y, sy, x, sx, ky, kx
        n, m = x.size(), y.size()
        if (kx, ky) not in self.names:
            self.names[kx, ky] = z3.BitVec('prod%d' % len(self.names), n + m)       # of the two as unsigned words
        P = self.names[kx, ky]
        if (kx, sx, ky, sy) not in self.names:
            if not self.link and (sx or sy):
                P = z3.BitVec('prod%d' % len(self.names), n + m)
            R = P           # a negative word is the unsigned one less 2^width
            if sx and self.link:
                R = R - z3.If(x < 0, z3.ZeroExt(n, y) << n, 0)
            if sy and self.link:
                R = R - z3.If(y < 0, z3.ZeroExt(m, x) << m, 0)
            self.names[kx, sx, ky, sy] = R
            ex = [(0, (1 << n) - 1), (-(1 << n - 1), (1 << n - 1) - 1)][sx]
            ey = [(0, (1 << m) - 1), (-(1 << m - 1), (1 << m - 1) - 1)][sy]
            pr = [a * b for a in ex for b in ey]
            self.facts.append(z3.And(R >= min(pr), R <= max(pr)) if sx or sy else z3.ULE(R, max(pr)))
        return self.names[kx, sx, ky, sy], sx or sy

    def over(self, op, a, b):
        k = op, self.key(a), self.key(b)
        if k not in self.names:
            self.names[k] = z3.BitVec('quot%d' % len(self.names), a.size())
        return self.names[k]

    def strip(self, t):
        """(narrow operand, signed, c): the value of the word is the operand's times 2^c."""
        w, c = width(t.ty), 0
        if t.op == 'shl' and t.args[1].op == 'const':
            k, u = t.args[1].val, t.args[0]
            if u.op == 'cast' and u.args[0].ty in INTS and 0 <= k <= w - width(u.args[0].ty) and (signed(t.ty) or not signed(u.args[0].ty)):
                return self.e(u.args[0]), signed(u.args[0].ty), k
        if t.op == 'cast' and t.args[0].ty in INTS and width(t.args[0].ty) < w and (signed(t.ty) or not signed(t.args[0].ty)):
            return self.e(t.args[0]), signed(t.args[0].ty), 0
        return self.e(t), signed(t.ty), 0

    def exact(self, s, t):
        """The exact product of two words, at a width that holds it (and theirs)."""
        (x, sx, c), (y, sy, d) = self.strip(s), self.strip(t)
        P, sg = self.times(x, sx, y, sy)
        n = max(P.size() + c + d, 2 * width(s.ty)) + 1
        return (z3.SignExt(n - P.size(), P) if sg else z3.ZeroExt(n - P.size(), P)) << c + d

    def e(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._e(t)
        return r

    def ext(self, x, ty, n):
        k = n - x.size()
        return x if k == 0 else z3.SignExt(k, x) if signed(ty) else z3.ZeroExt(k, x)

    def _e(self, t):
        op, ty = t.op, t.ty
        if t is TRUE or t is FALSE:
            return z3.BoolVal(t is TRUE)
        if op == 'const':
            return z3.BitVecVal(t.val, width(ty))
        if op == 'var':
            return z3.Bool(t.val) if ty == 'bool' else z3.BitVec(t.val, width(ty))
        a = [self.e(x) for x in t.args]
        at = [x.ty for x in t.args]
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'ite':
            return z3.If(*a)
        if op == 'eq':
            return a[0] == a[1]
        if at and (at[0] in FLOATS or at[0] == 'bool') and op != 'fbits' and op != 'cast':
            raise Unsupported('bit-vector ' + op)
        if op == 'lt':
            return a[0] < a[1] if signed(at[0]) else z3.ULT(a[0], a[1])
        if op == 'le':
            return a[0] <= a[1] if signed(at[0]) else z3.ULE(a[0], a[1])
        if op in ('add', 'wadd'):
            return a[0] + a[1]
        if op in ('sub', 'wsub'):
            return a[0] - a[1]
        if op in ('mul', 'wmul'):
            return z3.Extract(a[0].size() - 1, 0, self.exact(*t.args))
        if op in ('neg', 'wneg', 'uneg'):
            return minus(a[0])
        if op == 'mulus':
            return self.times(a[0], False, a[1], True)[0]
        if op in ('div', 'wdiv'):
            return self.over('/', a[0], a[1])
        if op == 'ovf_div':
            return z3.And(a[0] == int_range(at[0])[0], a[1] == -1) if signed(at[0]) else z3.BoolVal(False)
        if op == 'rem':
            return z3.SRem(a[0], a[1]) if signed(ty) else z3.URem(a[0], a[1])
        if op in ('ovf_add', 'ovf_sub', 'ovf_mul'):
            w = a[0].size()
            if op == 'ovf_mul':
                r = self.exact(*t.args)
                low = z3.Extract(w - 1, 0, r)
                return r != (z3.SignExt(r.size() - w, low) if signed(at[0]) else z3.ZeroExt(r.size() - w, low))
            x, y = (z3.SignExt(2, v) if signed(at[0]) else z3.ZeroExt(2, v) for v in a)
            r = x + y if op == 'ovf_add' else x - y
            lo, hi = int_range(at[0])
            return z3.Or(r < lo, r > hi)
        if op == 'cast':
            if at[0] == 'bool':
                return z3.If(a[0], z3.BitVecVal(1, width(ty)), z3.BitVecVal(0, width(ty)))
            if at[0] in INTS and ty in INTS:
                n, w = width(ty), a[0].size()
                return z3.Extract(n - 1, 0, a[0]) if n < w else self.ext(a[0], at[0], n)
        if op in ('shl', 'shr'):
            w = a[0].size()
            k = a[1]
            k = z3.Extract(w - 1, 0, k) if k.size() > w else z3.ZeroExt(w - k.size(), k) if k.size() < w else k
            k = k & (w - 1)
            return a[0] << k if op == 'shl' else a[0] >> k if signed(at[0]) else z3.LShR(a[0], k)
        if op == 'band':
            return a[0] & a[1]
        if op == 'bor':
            return a[0] | a[1]
        if op == 'bxor':
            return a[0] ^ a[1]
        if op == 'bnot':
            return ~a[0]
        if op in ('fxbits', 'fxfrombits', 'fbits', 'fofbits'):
            return a[0]
        if op == 'clz':
            w = a[0].size()
            r = z3.BitVecVal(w, 32)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, 32), r)
            return r
        raise Unsupported('bit-vector %s on %s' % (op, ', '.join(map(tstr, at))))


# ---------------------------------------------------------------- the dependency's functions

class DepCtx(Ctx):
    lemmas = ()

    def callee(self, n):
        """Whether the call is to a function whose own contract has been discharged."""
        return n in self.lemmas

    def named_const(self, ex, fr, st, s):
        m = re.fullmatch(r'(?:<)?(.*?)(?: as [\w:]+>)?::(FRAC_NBITS|INT_NBITS|U32|I32|IS_SIGNED)', s)
        if m:
            t = subst(ptype(m.group(1).replace('::<', '<')), fr.env)
            k = m.group(2)
            if t[0] == 'tn':
                if k in ('U32', 'I32'):
                    return const(t[1], 'u32' if k == 'U32' else 'i32')
            if is_fx(t):
                if k == 'IS_SIGNED':
                    return TRUE if t[1] == 'I' else FALSE
                if k in ('FRAC_NBITS', 'INT_NBITS'):
                    return const(t[3] if k == 'FRAC_NBITS' else t[2] - t[3], 'u32')
        return super().named_const(ex, fr, st, s)

    def call(self, ex, fr, st, c, args, rty):
        n = c.name
        d = args
        ret = lambda v: [Outcome('ret', st, v)]
        if c.segs and 'fmt' in c.segs or c.inherent is not None and isinstance(c.inherent, tuple) and c.inherent[0] == 'adt' \
                and c.inherent[1] in ('Arguments', 'Argument') or c.segs and c.segs[0].startswith('Arguments'):
            return ret(Agg(('adt', 'Arguments', ()), ()))
        if n in ('from_bits', 'to_bits') and len(d) == 1 and isinstance(d[0], Term):
            if n == 'to_bits' and is_fx(d[0].ty):
                t = ('i' if d[0].ty[1] == 'I' else 'u') + str(d[0].ty[2])
                return ret(d[0].args[0] if d[0].op == 'fxfrombits' else const(d[0].val, t) if d[0].op == 'const' else mk('fxbits', d, t))
            if n == 'to_bits' and d[0].ty in FW:
                return ret(mk('fbits', d, 'u%d' % FW[d[0].ty][0]))
            if n == 'from_bits' and is_fx(rty):
                return ret(d[0].args[0] if d[0].op == 'fxbits' and d[0].args[0].ty == rty else mk('fxfrombits', d, rty))
            if n == 'from_bits' and rty in FW:
                return ret(mk('fofbits', d, rty))
        if n == 'leading_zeros' and len(d) == 1 and isinstance(d[0], Term) and d[0].ty in INTS:
            if d[0].op == 'const':
                w = INT_W[d[0].ty]
                return ret(const(w - (d[0].val % (1 << w)).bit_length(), 'u32'))
            return ret(mk('clz', d, 'u32'))
        if n == 'mul_u64_i64' and self.callee(n):
            return ret(mk('mulus', d, 'i128'))
        if n == 'overflowing_div' and len(d) == 2 and all(isinstance(x, Term) and x.ty in INTS for x in d):
            zero = cmp('eq', d[1], const(0, d[1].ty))
            t, f = st.fork(), st.fork()
            t.assume(zero)
            f.assume(not_(zero))
            return [Outcome('panic', t, None, 'division by zero')] + \
                [Outcome('ret', f, Agg(('tup', d[0].ty, 'bool'), (mk('wdiv', d, d[0].ty), mk('ovf_div', d, 'bool'))))]
        if n == 'reverse' and len(d) == 1 and isinstance(d[0], Agg) and d[0].ty[:2] == ('adt', 'Ordering'):
            return ret(Agg(d[0].ty, (), {'Less': 'Greater', 'Greater': 'Less'}.get(d[0].variant, d[0].variant)))
        if any(is_fx(typeof(a, st)) for a in d) or is_fx(rty) or c.kind == 'trait' and c.trait in ('ToFixed', 'FromFixed', 'Sealed', 'Fixed') \
                or c.segs and c.segs[-2:-1] and c.segs[-2] in ('ToFixed', 'FromFixed'):
            return None
        if n in ('to_i32', 'to_u32') and not d and c.kind == 'trait' and c.selfty is not None:
            t = subst(c.selfty, fr.env)
            if t[0] == 'tn':
                return ret(const(t[1], n[3:]))
        return super().call(ex, fr, st, c, args, rty)


class DepExec(Exec):
    VARIANTS = dict(Exec.VARIANTS, Unsigned=0, Negative=1, NaN=0, Infinite=1, Finite=2)


class Dep:
    """A dependency of /repo: its MIR as cargo builds it, and its source."""

    def __init__(self, name):
        t0 = time.time()
        self.name = name
        meta = subprocess.run(['cargo', 'metadata', '--offline', '--format-version', '1'], cwd=mir.REPO, capture_output=True, text=True, timeout=120,
                              env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(mir.BUILD, 'mir-target')))
        pk = [p for p in json.loads(meta.stdout)['packages'] if p['name'] == name]
        if len(pk) != 1:
            raise mir.BuildError('package ' + name)
        self.version, self.root = pk[0]['version'], os.path.dirname(pk[0]['manifest_path'])
        h = hashlib.sha256()
        for d, dn, fn in sorted(os.walk(os.path.join(self.root, 'src'))):
            for f in sorted(fn):
                h.update(open(os.path.join(d, f), 'rb').read())
        h.update(open(os.path.join(os.path.dirname(__file__), 'mir.py'), 'rb').read())
        self.hash = h.hexdigest()[:24]
        cache = os.path.join(mir.BUILD, 'dep-%s-%s.txt' % (name, self.hash))
        if os.path.exists(cache):
            txt = open(cache).read()
        else:
            txt, _ = mir.dump(package=name)
            tmp = cache + '.%d' % os.getpid()
            open(tmp, 'w').write(txt)
            os.rename(tmp, cache)
        self.prog = mir.Program(txt, mir.Source(self.root))
        self.front_s = time.time() - t0

    def run(self, fn, env, args, st, lemmas=()):
        ctx = DepCtx()
        ctx.lemmas = lemmas
        ex = DepExec(self.prog, ctx)
        outs = ex.run(fn, env, args, st)
        return outs, ex


# ---------------------------------------------------------------- contracts

def cases(D, fn, env, args, st, given, bv=None, lemmas=()):
    """[(condition, None | result bits)] of every path, a partial operation adding its overflow as a panic."""
    outs, ex = D.run(fn, env, args, st, lemmas)
    b = bv or Bv(given)
    res = []
    for o in outs:
        pc = z3.And(*[b.e(t) for t in o.st.pc]) if o.st.pc else z3.BoolVal(True)
        for t, k in o.st.partials:
            ov = overflow(b, t)
            res.append((z3.And(*[b.e(c) for c in o.st.pc[:k]], ov), None))
            pc = z3.And(pc, z3.Not(ov))
        v = None
        if o.kind == 'ret':
            if not isinstance(o.val, Term):
                raise Unsupported('result %r' % (o.val,))
            v = b.e(o.val)
        res.append((pc, v))
    return res, ex


def overflow(b, t):
    """When the operation `t` overflows: there it panics (with overflow checks, as the tests are built)."""
    ty = t.ty
    lo, hi = int_range(ty)
    if t.op == 'neg':
        x = b.e(t.args[0])
        return x == lo if signed(ty) else x != 0
    if t.op in ('add', 'sub', 'mul'):
        return b.e(mk('ovf_' + t.op, t.args, 'bool'))
    raise Unsupported('partial operation ' + t.op)


def specialise(res, sub):
    """The paths left when variables are given values: one substitution and one simplification for all of them, so that what
    they share is visited once."""
    args = [x for pc, v in res for x in ([pc] if v is None else [pc, v])]
    f = z3.substitute(z3.Function('paths', *[x.sort() for x in args], z3.BoolSort())(*args), *sub)
    new = iter(z3.simplify(f).children())
    out = []
    for pc, v in res:
        pc1 = next(new)
        v1 = None if v is None else next(new)
        if not z3.is_false(pc1):
            out.append((pc1, v1))
    return out


def decide(res, defined, same, timeout, pre=()):
    """Every path returns what `same` says where the result is defined, panics elsewhere. -> 'ok' | 'cex' | 'unknown'"""
    t0 = time.time()
    out = 'ok', ''
    s = z3.SolverFor('QF_BV')
    s.set('timeout', timeout)
    s.add(*pre, *[z3.Not(pc) for pc, _ in res])
    if s.check() != z3.unsat:           # the executor has every path
        return 'unknown', 'the paths do not cover every input'
    for pc, v in res:
        c = z3.simplify(z3.And(pc, *pre, defined if v is None else z3.Not(z3.And(defined, same(v)))))
        if z3.is_false(c):
            continue
        s = z3.SolverFor('QF_BV')
        s.set('timeout', timeout)
        s.add(c)
        r = s.check()
        smt.STATS['queries'] = smt.STATS.get('queries', 0) + 1
        if r == z3.sat:
            out = 'cex', str(s.model())[:400]
            break
        if r != z3.unsat:
            out = 'unknown', 'z3: ' + s.reason_unknown()
    smt.STATS['time'] = smt.STATS.get('time', 0.0) + time.time() - t0
    return out


def inherent(D, name, ty, ret=False, npar=1):
    """The inherent method of a fixed-point type, and its generic parameters."""
    out = []
    for f in D.prog.by_short.get(name, []):
        env = {}
        if f.impl_span and 'macros_' in f.impl_span and len(f.params) == npar and unify(f.ret if ret else f.params[0], ty, env):
            out.append((f, env))
    if len(out) != 1:
        raise Unsupported('%d candidates for %s of %s' % (len(out), name, tstr(ty)))
    return out[0]


WIDE = 288


def wide(x, ty, n=WIDE):
    return z3.SignExt(n - x.size(), x) if signed(ty) else z3.ZeroExt(n - x.size(), x)


def fits(v, ty):
    lo, hi = int_range(ty)
    return z3.And(v >= lo, v <= hi)


def from_int(D, ty, src, timeout=10000):
    """from_num::<src>: the value exactly, panics when it does not fit."""
    f, env = inherent(D, 'from_num', ty, ret=True)
    st, x = State(), var('x', src)
    xb = z3.BitVec('x', width(src))
    res, ex = cases(D, f, dict(env, Src=src), [x], st, {x: xb})
    v = wide(xb, src) << ty[3]
    return decide(res, fits(v, ty), lambda r: wide(r, ty) == v, timeout)


def to_int(D, ty, dst, timeout=10000):
    """to_num::<dst>: the floor of the value, panics when it does not fit."""
    f, env = inherent(D, 'to_num', ty)
    st, x = State(), var('x', ty)
    xb = z3.BitVec('x', width(ty))
    res, ex = cases(D, f, dict(env, Dst=dst), [x], st, {x: xb})
    v = wide(xb, ty) >> ty[3]
    return decide(res, fits(v, dst), lambda r: wide(r, dst) == v, timeout)


def decode(xb, fl):
    """-> (finite, negative, integer significand, exponent field as the shift class expects it)"""
    w, eb, p = FW[fl]
    neg_ = z3.Extract(w - 1, w - 1, xb) == 1
    e = z3.Extract(w - 2, p - 1, xb)
    m = z3.Extract(p - 2, 0, xb)
    finite = e != (1 << eb) - 1
    return finite, neg_, e, m


def from_float(D, ty, fl, timeout=20000):
    """from_num::<fl>: the nearest multiple of 2^-F, ties to even; panics when that does not fit or is no number."""
    w, eb, p = FW[fl]
    F = ty[3]
    f, env = inherent(D, 'from_num', ty, ret=True)
    st, x = State(), var('x', fl)
    sb, ebv, mb = z3.BitVec('s', 1), z3.BitVec('e', eb), z3.BitVec('m', p - 1)
    res, ex = cases(D, f, dict(env, Src=fl), [x], st, {x: z3.Concat(sb, ebv, mb)})
    bias = (1 << (eb - 1)) - 1
    N = ty[2] + p + 4

    halves = [specialise(res, [(sb, z3.BitVecVal(sg, 1))]) for sg in (0, 1)]
    m0 = z3.ZeroExt(N - p + 1, mb)
    base = F - bias - (p - 1)          # shift of the significand when the exponent field is 1
    big, small = [], []
    for e in range(1 << eb):
        sh = max(e, 1) + base
        if e == (1 << eb) - 1 or sh > ty[2]:
            big.append(e)
        elif sh < -(p + 1):
            small.append(e)
        else:
            M = m0 if e == 0 else m0 | (1 << (p - 1))
            if sh >= 0:
                r = M << sh
            else:
                q = z3.LShR(M, -sh)
                rem, half = M & ((1 << -sh) - 1), 1 << (-sh - 1)
                r = z3.If(z3.Or(z3.UGT(rem, half), z3.And(rem == half, z3.Extract(0, 0, q) == 1)), q + 1, q)
            for sg in (0, 1):
                v = minus(r) if sg else r
                o = decide(specialise(halves[sg], [(ebv, z3.BitVecVal(e, eb))]), fits(v, ty), lambda r_: wide(r_, ty, N) == v, timeout)
                if o[0] != 'ok':
                    return o[0], 'exponent field %d: %s' % (e, o[1])
    for es, rounds in ((big, False), (small, True)):      # does not fit (or no number); rounds to zero
        if es and es == list(range(es[0], es[-1] + 1)):
            zero = z3.BitVecVal(0, ty[2])
            o = decide(res, z3.BoolVal(rounds), lambda r_: r_ == zero, timeout, [z3.ULE(es[0], ebv), z3.ULE(ebv, es[-1])])
            if o[0] != 'ok':
                return o[0], 'exponent fields %d to %d: %s' % (es[0], es[-1], o[1])
        elif es:
            return 'unknown', 'exponent classes'
    return 'ok', ''


def to_float(D, ty, fl, timeout=20000):
    """to_num::<fl>: the nearest float, ties to even."""
    w, eb, p = FW[fl]
    W, F = ty[2], ty[3]
    f, env = inherent(D, 'to_num', ty)
    st, x = State(), var('x', ty)
    xb = z3.BitVec('x', W)
    res, ex = cases(D, f, dict(env, Dst=fl), [x], st, {x: xb})
    bias = (1 << (eb - 1)) - 1
    N = max(W, w) + 4
    zero = z3.BitVecVal(0, W)
    o = decide(specialise(res, [(xb, zero)]), z3.BoolVal(True), lambda r: r == 0, timeout)
    if o[0] != 'ok':
        return o[0], 'zero: ' + o[1]
    for i in range(W):                              # the leading one of the magnitude A
        for sg in (0, 1) if signed(ty) else (0,):
            if signed(ty) and i == W - 1 and not sg:
                continue
            m = z3.BitVec('m', i) if i else None
            parts = ([z3.BitVecVal(0, W - 1 - i)] if W - 1 - i else []) + [z3.BitVecVal(1, 1)] + ([m] if i else [])
            A = z3.Concat(*parts) if len(parts) > 1 else parts[0]
            pre = [m == 0] if i == W - 1 and sg else []
            B = z3.ZeroExt(N - W, A)
            E = i - F + bias
            if E >= 1:
                k = i - (p - 1)
                if k <= 0:
                    q = B << -k
                else:
                    q = z3.LShR(B, k)
                    rem, half = B & ((1 << k) - 1), 1 << (k - 1)
                    q = z3.If(z3.Or(z3.UGT(rem, half), z3.And(rem == half, z3.Extract(0, 0, q) == 1)), q + 1, q)
                v = ((E - 1) << (p - 1)) + q        # the leading one counts into the exponent field
            else:
                sh = bias - 1 + p - 1 - F
                if sh < 0:
                    return 'unknown', 'subnormal rounding'
                v = B << sh
            v = z3.Extract(w - 1, 0, v) | (sg << (w - 1))
            o = decide(specialise(res, [(xb, minus(A) if sg else A)]), z3.BoolVal(True), lambda r: r == v, timeout, pre)
            if o[0] != 'ok':
                return o[0], 'leading bit %d%s: %s' % (i, ' negative' if sg else '', o[1])
    return 'ok', ''


def method(D, name, params):
    """The function of that name with exactly these parameter types, and its generic parameters (an inherent method before a
    trait's)."""
    out = []
    for f in D.prog.by_short.get(name, []):
        env = {}
        if f.impl_span and len(f.params) == len(params) and all(unify(p, t, env) and subst(p, env) == t for p, t in zip(f.params, params)):
            out.append((f, env))
    if len(out) > 1:
        inh = [x for x in out if ' for ' not in D.prog.source.impl_header(x[0].impl_span)]
        out = [x for x in inh if 'macros_' in x[0].impl_span] or inh or out
    if len(out) != 1:
        raise Unsupported('%d candidates for %s(%s)' % (len(out), name, ', '.join(map(tstr, params))))
    return out[0]


def mixed_product(D, timeout=10000):
    """mul_u64_i64: the exact product of an unsigned and a signed word."""
    r = getattr(D, '_mixed', None)
    if r is None:
        f = [f for f in D.prog.by_short.get('mul_u64_i64', []) if not f.impl_span]
        if len(f) != 1:
            raise Unsupported('mul_u64_i64')
        x, y = var('x', 'u64'), var('y', 'i64')
        b = Bv({x: z3.BitVec('x', 64), y: z3.BitVec('y', 64)}, link=True)
        res, ex = cases(D, f[0], {}, [x, y], State(), None, b)
        v = b.times(b.e(x), False, b.e(y), True)[0]
        r = D._mixed = decide(res, z3.BoolVal(True), lambda q: q == v, timeout, b.facts)
    return r


def arith(D, ty, op, timeout=10000):
    """a + b, a - b, -a exactly; a * b rounded down, a / b rounded toward zero; panics when that does not fit."""
    W, F = ty[2], ty[3]
    one = op in ('neg', 'abs', 'signum', 'is_positive', 'is_negative')
    f, env = method(D, op, [ty] if one else [ty, ty])
    x, y = var('x', ty), var('y', ty)
    xb, yb = z3.BitVec('x', W), z3.BitVec('y', W)
    b = Bv({x: xb, y: yb})
    lemmas = ()
    if op == 'mul' and W == 128 and signed(ty) and mixed_product(D)[0] == 'ok':
        lemmas = ('mul_u64_i64',)
    res, ex = cases(D, f, env, [x] if one else [x, y], State(), None, b, lemmas)
    n = 2 * W + 2
    X, Y = wide(xb, ty, n), wide(yb, ty, n)
    ok, sg = z3.BoolVal(True), signed(ty)
    if op == 'add':
        v = X + Y
    elif op == 'sub':
        v = X - Y
    elif op == 'neg':
        v = minus(X)
    elif op == 'abs':
        v = z3.If(X < 0, minus(X), X)
    elif op == 'signum':
        v = z3.If(X < 0, z3.BitVecVal(-1 << F, n), z3.If(X == 0, z3.BitVecVal(0, n), z3.BitVecVal(1 << F, n)))
    elif one:
        want = X > 0 if op == 'is_positive' else X < 0
        return decide(res, ok, lambda r: r == want, timeout)
    elif op == 'mul':
        if W == 128 and F:          # by halves
            hi, lo = (lambda q: z3.Extract(127, 64, q)), (lambda q: z3.Extract(63, 0, q))
            d = z3.BitVecVal(0, n)
            for p, sp, i in ((lo, False, 0), (hi, sg, 64)):
                for q, sq, j in ((lo, False, 0), (hi, sg, 64)):
                    P, s = b.times(p(xb), sp, q(yb), sq)
                    d = d + ((z3.SignExt(n - 128, P) if s else z3.ZeroExt(n - 128, P)) << i + j)
        else:
            P, s = b.times(xb, sg, yb, sg)
            d = z3.SignExt(2, P) if s else z3.ZeroExt(2, P)
        v = d >> F
    elif op == 'div':
        A, B = wide(xb, ty, 2 * W) << F, wide(yb, ty, 2 * W)
        ok = yb != 0
        Q = b.over('/', A, B)
        v = wide(Q, ty, n)
        if sg:
            v = z3.If(z3.And(A == z3.BitVecVal(1 << (2 * W - 1), 2 * W), B == -1), z3.BitVecVal(1 << (2 * W - 1), n), v)
    o = decide(res, z3.And(ok, fits(v, ty)), lambda r: wide(r, ty, n) == v, timeout, b.facts)
    return ('unknown', 'with products and quotients as variables: ' + o[1]) if o[0] == 'cex' and b.names else o


def compare(D, ty, op, timeout=10000):
    """eq, lt, le of two values of one type are those of their bits."""
    W = ty[2]
    r = ('ref', False, ty)
    cand = []
    for f in D.prog.by_short.get(op, []):
        env = {}
        if f.impl_span and len(f.params) == 2 and all(p[0] == 'ref' and p[2][0] == ty[0] or p[0] == 'ref' for p in f.params) \
                and all(unify(p[2], ty, env) for p in f.params) and all(subst(p[2], env) == ty for p in f.params):
            cand.append((f, env))
    if len(cand) != 1:
        raise Unsupported('%d candidates for %s of %s' % (len(cand), op, tstr(ty)))
    f, env = cand[0]
    x, y = var('x', ty), var('y', ty)
    xb, yb = z3.BitVec('x', W), z3.BitVec('y', W)
    st = State()
    res, ex = cases(D, f, env, [Ref(st.alloc(x), (), False), Ref(st.alloc(y), (), False)], st, {x: xb, y: yb})
    want = {'eq': xb == yb, 'ne': xb != yb, 'lt': xb < yb if signed(ty) else z3.ULT(xb, yb), 'le': xb <= yb if signed(ty) else z3.ULE(xb, yb),
            'gt': xb > yb if signed(ty) else z3.UGT(xb, yb), 'ge': xb >= yb if signed(ty) else z3.UGE(xb, yb)}[op]
    return decide(res, z3.BoolVal(True), lambda r: r == want, timeout)


# ---------------------------------------------------------------- what is asked of the crate

ARITH = ('add', 'sub', 'mul', 'div', 'neg', 'abs', 'signum', 'is_positive', 'is_negative', 'eq', 'lt', 'le')
OPS = {'mul': 'rounded down', 'div': 'rounded toward zero', 'add': 'exactly', 'sub': 'exactly', 'neg': 'exactly', 'abs': 'exactly'}


def one(D, item):
    kind, ty, arg = item
    if kind == 'arith':
        return (compare if arg in ('eq', 'lt', 'le') else arith)(D, ty, arg)
    return {'from_int': from_int, 'to_int': to_int, 'from_float': from_float, 'to_float': to_float}[kind](D, ty, arg)


def items(kinds, types, deep):
    out = []
    some = [t for t in types if t[3] == t[2] // 2 and t[2] <= 32]      # the conversions from and to floats take half a minute each
    for t in types:
        if 'arith' in kinds:
            out += [('arith', t, op) for op in ARITH if t[1] == 'I' or op not in ('neg', 'abs', 'signum', 'is_positive', 'is_negative')]
        if 'conv' in kinds:
            out += [(k, t, i) for i in sorted(INTS) for k in ('from_int', 'to_int')]
    if 'conv' in kinds:
        out += [(k, t, f) for t in (types if deep else some) for f in ('f64', 'f32') for k in ('from_float', 'to_float')]
    if 'floats' in kinds:
        out += [('from_float', t, f) for t in (types if deep else some) for f in ('f64', 'f32')]
    return out


def discharge(world, kinds, types, tier, budget):
    """The contracts the proofs assume of the crate, each an obligation over its source. -> (summary, refuted obligations)"""
    from . import core
    from .core import Ob, OK, UNDEC
    t0 = time.time()
    D = Dep('fixed')
    front = time.time() - t0
    its = items(kinds, types, tier == 'thorough')
    if any(k == 'arith' and a == 'mul' and t[2] == 128 for k, t, a in its):
        mixed_product(D)

    def run(item):
        kind, ty, arg = item
        nm = '%s %s::%s %s' % (D.name, tstr(ty), kind if kind != 'arith' else arg, '' if kind == 'arith' else arg)
        try:
            r, info = one(D, item)
        except Unsupported as u:
            r, info = 'unknown', str(u)
        return [Ob(nm.strip(), kind, OK if r == 'ok' else UNDEC, r, info)]
    core.DEADLINE[0] = time.time() + budget
    obs = core.pmap(world, run, its)
    ok = [o for o in obs if o.status == OK]
    cex = [o for o in obs if o.backend == 'cex']
    left = {}
    for o in obs:
        if o.status != OK:
            k = re.sub(r'<.*?>', '', o.name.replace(D.name + ' ', ''))
            left[k] = left.get(k, 0) + 1
    total = dict(obligations=len(its), discharged=len(ok), by={}, left_assumed=left, front_end_s=round(front, 2), verification_s=round(time.time() - t0 - front, 2),
                 crate='%s %s, MIR of its source %s' % (D.name, D.version, D.hash), back_end='z3 bit-vectors')
    for o in ok:
        total['by'][o.fn] = total['by'].get(o.fn, 0) + 1
    if tier != 'thorough' and kinds != ('arith',):
        total['not_attempted'] = 'conversions from and to floats, but for the types of 8, 16 and 32 bits, half of them fraction (the thorough tier takes all)'
    return total, cex
