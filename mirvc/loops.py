"""Loops: cut at an inferred and then proved invariant.

At a loop head the executor's state is generalised: every place the body changes
becomes a fresh value.  A candidate closed form over the number k of iterations is
guessed from the body's effect and proved inductive before it is assumed:

  linear     v = v0 + c*k              (counters, phases: v' is v plus constants)
  powers     v = base^(m + s*k)        (v' is v times a loop-invariant base)
  rescaling  v = v0 * 2^(s*k)          (v' is v times or divided by powers of two)
  steps      v = v0 modulo c           (v' is v plus one of several multiples of c)

Whatever leaves the loop does so either without a completed iteration (run from the
entry state) or right after one (run from the state at the end of an arbitrary
iteration), so the guard of that last iteration is available to the proofs.
Termination: a place of a finite machine type that moves by a non-zero constant each
time, without wrapping (or by constants of both signs, when a step one way is never
followed by one the other way); or a ranking argument the contract supplies.
"""
from fractions import Fraction
from .mir import Unsupported, INTS, FLOATS, int_range
from .terms import Term, TRUE, FALSE, mk, const, var, arith, cmp, not_, and_, or_, replace, subterms, num_val
from .exec import Agg, Ref, Str, FnItem, State
from .models import is_fx, lit
from . import smt

_n = [0]


def fresh(ty, what):
    _n[0] += 1
    return var('%s!%d' % (what, _n[0]), ty)


def nat(n):
    return mk('const', (), 'nat', n)


def lin(v0, c, k, d=0):
    """v0 + c*(k + d)"""
    return mk('lin', (v0, k), v0.ty, (c, d))


def scalars(v, path=()):
    if isinstance(v, Term):
        yield path, v
    elif isinstance(v, Agg):
        for i, f in enumerate(v.fields):
            yield from scalars(f, path + (i,))


def offset(t, h):
    """c with t = h + c (bits), or None."""
    c = 0
    while t is not h:
        if t.op in ('add', 'sub') and (t.ty in INTS or is_fx(t.ty)):
            a, b = t.args
            if b.op == 'const':
                c += b.val if t.op == 'add' else -b.val
                t = a
                continue
            if a.op == 'const' and t.op == 'add':
                c += a.val
                t = b
                continue
        return None
    return c


def times(t, h, hs):
    """(base, n) with t = h * base * ... * base, base not changed by the loop."""
    base, n = None, 0
    while t is not h:
        if t.op != 'mul':
            return None
        a, b = t.args
        sa, sb = subterms(a), subterms(b)
        if h in sa and not (sb & hs):
            t, x = a, b
        elif h in sb and not (sa & hs):
            t, x = b, a
        else:
            return None
        if base is not None and base is not x:
            return None
        base, n = x, n + 1
    return (base, n) if n else None


def ilog2(q):
    """floor(log2 q) for q > 0."""
    q = Fraction(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    while Fraction(2) ** e > q:
        e -= 1
    while Fraction(2) ** (e + 1) <= q:
        e += 1
    return e


def numeral(v, ty, up):
    """A constant of the type not inside of v."""
    v = Fraction(v)
    if is_fx(ty):
        b = v * (1 << ty[3])
        lo, hi = int_range(ty)
        return mk('const', (), ty, min(hi, max(lo, b.__ceil__() if up else b.__floor__())))
    from .err import step, FP
    from .terms import round_float
    big = FP[ty][3]
    r = round_float(max(-big, min(big, v)), ty)
    if up and Fraction(r) < v or not up and Fraction(r) > v:
        r = float(step(Fraction(r), ty, up))
    return mk('const', (), ty, r)


def power_of(t, base):
    """n with t = base^n as the repeated product, or None."""
    v = num_val(t)
    if t is base:
        return 1
    if v == 1:
        return 0
    n = 1
    while t.op == 'mul' and base in t.args:
        t = t.args[0] if t.args[1] is base else t.args[1]
        n += 1
    return n if t is base else None


def scale_of(t, h):
    """s with t = h scaled step by step by powers of two, all in one direction (2^s), or None."""
    s, up, down = 0, False, False
    while t is not h:
        if t.op not in ('mul', 'div') or not (t.ty in FLOATS or is_fx(t.ty)):
            return None
        a, b = t.args
        if a.op == 'const' and t.op == 'mul':
            a, b = b, a
        v = num_val(b) if b.op == 'const' else None
        if v is None or v <= 0:
            return None
        v = Fraction(v)
        n, d = v.numerator, v.denominator
        if n & (n - 1) or d & (d - 1):
            return None
        e = n.bit_length() - d.bit_length()
        if t.op == 'div':
            e = -e
        if is_fx(t.ty) and t.op == 'div' and e > 0:
            return None
        up, down = up or e > 0, down or e < 0
        s += e
        t = a
    return s if s and not (up and down) else None


def int_only(pc):
    """The conjuncts about integers."""
    from .err import atoms
    return tuple(c for c in atoms(pc) if about_ints(c))


def about_ints(c):
    r = _about_ints.get(c)
    if r is None:
        r = _about_ints[c] = (c.ty in INTS or c.ty in ('nat', 'bool', 'char')) and all(about_ints(x) for x in c.args)
    return r


_about_ints = {}


def canonical(ts):
    """A key equal for lists of terms that differ only in the names of variables."""
    names, seen = {}, {}
    out = []

    def go(t):
        if t.op == 'var':
            return (names.setdefault(t, len(names)), t.ty)
        if t in seen:
            return seen[t]
        k = (t.op, t.ty, t.val) + tuple(go(a) for a in t.args)
        seen[t] = len(seen) + 1000000
        return k
    for t in ts:
        out.append(go(t))
    return tuple(out)


_int_memo = {}


def prove_ints(p, g, timeout):
    k = canonical(p + (g,))
    r = _int_memo.get(k)
    if r is None:
        if len(_int_memo) > 50000:
            _int_memo.clear()
        r = _int_memo[k] = smt.prove(p, g, 'euf', timeout)[0]
    return r


def follow(pol, pc, hav, a):
    """The path condition of an iteration started where iteration `a` ended."""
    sub = {h: pol.at(a, key) for key, h in hav.items()}
    return tuple(replace(c, sub) for c in pc)


class IntFeas:
    """Feasibility of the integer part of a path."""

    def __init__(self):
        self.memo = {}

    def __call__(self, pc):
        p = int_only(pc)
        if not p:
            return True
        k = frozenset(p)
        if k not in self.memo:
            self.memo[k] = prove_ints(p, FALSE, 2000) != 'ok'
        return self.memo[k]


class Loop:
    __slots__ = ('fn', 'head', 'forms', 'havoc', 'k', 'terminates', 'back', 'entry')


class Policy:
    """unroll: predicate(ex, fr, head, st) -> True to leave the loop to complete unrolling."""

    def __init__(self, unroll=None, invariants=None, ranking=None, floats='fp', timeout=8000):
        self.unroll, self.invariants, self.ranking = unroll, invariants, ranking
        self.floats, self.timeout = floats, timeout
        self.loops = []
        self.facts = {}         # values with a closed form: var -> ('scale', v0, s, iterations)
        self.kbounds = set()
        self.exact = True       # no loop was cut: counterexamples are genuine

    def prove(self, pc, g, extra=()):
        return smt.prove(pc, g, self.floats, self.timeout, extra)[0] == 'ok'

    def __call__(self, ex, fr, head, st):
        if self.unroll is not None and self.unroll(ex, fr, head, st):
            return None
        blocks = fr.loops[head]

        def once(s):
            return list(ex.flow(fr, head, s, (head, blocks)))
        # what does the body change?
        cells = {c: v for c, v in st.mem.items()}
        first = once(st.fork())
        backs = [o for o in first if o[0] == 'back']
        if not backs:
            return [('next', o[1], o[2], o[3]) if o[0] == 'exit' else o for o in first]
        changed = self.changed(cells, [o[2] for o in backs])
        while True:
            hav, hst = self.generalise(st, changed)
            outs = once(hst.fork())
            more = self.changed(hst.mem, [o[2] for o in outs if o[0] == 'back'], only=cells) - changed
            if not more:
                break
            changed |= more
        hs = set(hav.values())
        back = [o[2] for o in outs if o[0] == 'back']
        signs = self.signs(st, hav, back)
        if signs:
            # branches excluded by the sign of a counter
            t = hst.fork()
            for g in signs:
                t.assume(g)
            back = [o[2] for o in once(t) if o[0] == 'back']
        k = fresh('nat', 'k')
        forms = {}
        for key, h in hav.items():
            f = self.guess(st, key, h, back, hs)
            if f is not None:
                forms[key] = f
        # prove the candidates inductive; drop those that are not
        while True:
            inv, sub = self.assertion(st, forms, hav, k)
            bad = None
            for b in back:
                for key, f in forms.items():
                    if f[0] != 'lin':
                        continue
                    got = self.at(b, key)
                    want = lin(f[1], f[2], k, 1)
                    if offset(got, hav[key]) == f[2]:
                        continue
                    if not self.prove(tuple(b.pc) + tuple(inv), mk('eq', (got, want), 'bool')):
                        bad = key
                        break
                if bad:
                    break
            if bad is None:
                break
            del forms[bad]
        scales = self.scales(ex, st, forms, hav, back, inv, k)
        for key, f in scales.items():
            forms[key] = f
            inv += f[4]
        inv += signs
        # user-supplied invariants over the generalised state: established, preserved, then assumed
        lp = Loop()
        lp.fn, lp.head, lp.k, lp.back, lp.entry = fr.fn, head, k, back, st
        lp.forms, lp.havoc = forms, hav
        hpc = list(inv)
        if self.invariants is not None:
            for g in self.invariants(lp, self):
                hpc.append(g)
        starts = []
        # an iteration happens only if the first one does, one way or another
        for why in [b[2].pc for b in backs] if len(backs) <= 4 else [()]:
            s2 = hst.fork()
            for c in why:
                s2.assume(c)
            for key, h in hav.items():
                if h in sub:
                    s2.store(Ref(*key), sub[h])
            for g in hpc:
                s2.assume(g)
            if ex.is_feasible(s2):
                starts.append(s2)
        lp.terminates = any(f[0] == 'lin' and f[2] != 0 for f in forms.values()) or any(
            f[0] == 'mod' and self.settles(f, key, hav, back, hpc) for key, f in forms.items()) or (
            self.ranking is not None and self.ranking(lp, self))
        if not lp.terminates:
            raise Unsupported('no termination argument for the loop in ' + fr.fn.short)
        self.loops.append(lp)
        self.exact = False
        out = [o for o in first if o[0] != 'back']
        for s2 in starts:
            for o in once(s2):
                if o[0] == 'back':
                    self.cut(o[2], scales, hav, k)
                    out += [x for x in once(o[2].fork()) if x[0] != 'back']
        return [('next', o[1], o[2], o[3]) if o[0] == 'exit' else o for o in out]

    def settles(self, f, key, hav, back, inv):
        """Steps of both signs: one direction, once taken, is taken for good."""
        h = hav[key]
        d = [offset(self.at(b, key), h) for b in back]
        if 0 in d:
            return False
        for sign in (1, -1):
            if all(self.excludes(a, b, hav, inv) for a, x in zip(back, d) for b, y in zip(back, d) if x * sign > 0 > y * sign):
                return True
        return False

    def excludes(self, a, b, hav, inv):
        """After iteration a, iteration b cannot be the next one."""
        return self.prove(tuple(a.pc) + tuple(inv) + follow(self, b.pc, hav, a), FALSE)

    def prove_int(self, pc, g):
        return prove_ints(int_only(pc), g, self.timeout) == 'ok'

    def range(self, pc, t):
        from .err import machine_range
        return machine_range(pc, t)

    def signs(self, st, hav, back):
        """Counters that stay on one side of zero, or of a value the body compares them with (inductive)."""
        from .err import atoms
        out = []
        hs = set(hav.values())
        for key, h in hav.items():
            if h.ty not in INTS:
                continue
            refs = [const(0, h.ty)] if int_range(h.ty)[0] < 0 else []
            for b in back:
                for c in atoms(b.pc):
                    if c.op == 'not':
                        c = c.args[0]
                    if c.op in ('eq', 'lt', 'le') and h in c.args:
                        t = c.args[0] if c.args[1] is h else c.args[1]
                        if t not in refs and not (subterms(t) & hs):
                            refs.append(t)
            for z in refs[:6]:
                for f in (lambda v: cmp('le', z, v), lambda v: cmp('le', v, z)):
                    if self.prove_int(st.pc, f(self.at(st, key))) and all(
                            self.prove_int(tuple(b.pc) + (f(h),), f(self.at(b, key))) for b in back):
                        out.append(f(h))
        return out

    def scales(self, ex, st, forms, hav, back, inv, k):
        """Places rescaled by a power of two each time: v = v0 * 2^(s*k), rounded down where halved."""
        from .err import bounds, FP, type_range
        out = {}
        for key, h in hav.items():
            if key in forms or not (h.ty in FLOATS or is_fx(h.ty)):
                continue
            ss = {scale_of(self.at(b, key), h) for b in back}
            if len(ss) != 1 or None in ss:
                continue
            s = ss.pop()
            try:
                lo0, hi0 = self.range(st.pc, self.at(st, key))
            except Unsupported:
                continue
            if lo0 < 0 or lo0 > hi0:
                continue
            # how many iterations can have happened before one that completes?
            bs = [bounds(b.pc, h) for b in back]
            kmax = None
            if s > 0 and lo0 > 0:
                kmax = ilog2(max(b[1] for b in bs) / lo0) // s
            elif s < 0 and min(b[0] for b in bs) > 0:
                kmax = ilog2(hi0 / min(b[0] for b in bs)) // -s
            for c in sorted(self.kbounds):
                if kmax is not None and c >= kmax:
                    break
                if all(self.prove_int(tuple(b.pc) + tuple(inv), cmp('le', k, nat(c))) for b in back):
                    kmax = c
                    break
            if kmax is None or kmax < 0:
                continue
            d = Fraction(1, 1 << h.ty[3]) if is_fx(h.ty) else Fraction(0)
            lo = lo0 if s > 0 else max(Fraction(0), lo0 * Fraction(2) ** (s * kmax) - d)
            hi = hi0 if s < 0 else hi0 * Fraction(2) ** (s * kmax)
            glo, ghi = min(b[0] for b in bs), max(b[1] for b in bs)
            lo, hi = max(lo, glo), min(hi, ghi)
            if h.ty in FLOATS:
                u, eta, tiny, big = FP[h.ty]
                # exact as long as nothing overflows or becomes subnormal
                if s > 0 and hi * Fraction(2) ** s > big or s < 0 and lo * Fraction(2) ** s < tiny:
                    continue
            at = [cmp('le', k, nat(kmax))]
            for a, b in ((lo, h), (h, hi)):
                a, b = [x if isinstance(x, Term) else numeral(x, h.ty, x is hi) for x in (a, b)]
                at.append(cmp('le', a, b))
            self.kbounds |= {kmax, kmax + 1}
            out[key] = ('scale', self.at(st, key), s, kmax, at)
        return out

    def cut(self, s, scales, hav, k):
        """After an arbitrary iteration: rescaled places become fresh values with their closed form on record."""
        for key, f in scales.items():
            v = self.at(s, key)
            lo, hi = self.range(s.pc, v)
            z = fresh(v.ty, 'z')
            self.facts[z] = ('scale', f[1], f[2], mk('lin', (nat(0), k), 'nat', (1, 1)))
            for c in list(s.mem):
                if s.mem[c] is v:
                    s.mem[c] = z
            s.store(Ref(*key), z)
            s.assume(cmp('le', numeral(lo, v.ty, False), z))
            s.assume(cmp('le', z, numeral(hi, v.ty, True)))

    def at(self, st, key):
        return st.load(Ref(*key))

    def changed(self, mem, states, only=None):
        out = set()
        for s in states:
            for c, v in mem.items():
                if only is not None and c not in only:
                    continue
                w = s.mem.get(c)
                if v is None or v is w:
                    continue
                self.diff(c, (), v, w, out)
        return out

    def diff(self, c, path, v, w, out):
        if isinstance(v, Term) and isinstance(w, Term):
            if v is not w:
                out.add((c, path))
        elif isinstance(v, Agg) and isinstance(w, Agg) and len(v.fields) == len(w.fields) and v.variant == w.variant:
            for i, (a, b) in enumerate(zip(v.fields, w.fields)):
                self.diff(c, path + (i,), a, b, out)
        elif v == w:
            pass
        else:
            out.add((c, 'dead'))

    def generalise(self, st, changed):
        s = st.fork()
        hav = {}
        for c, path in sorted(changed, key=str):
            if path == 'dead':
                s.mem[c] = None
        for c, path in sorted(changed, key=str):
            if path == 'dead' or s.mem.get(c) is None:
                continue
            v = s.load(Ref(c, path))
            h = fresh(v.ty, 'h')
            s.store(Ref(c, path), h)
            hav[c, path] = h
        return hav, s

    def guess(self, st, key, h, back, hs):
        v0 = self.at(st, key)
        vs = [self.at(b, key) for b in back]
        cs = {offset(v, h) for v in vs}
        if len(cs) == 1 and None not in cs:
            return ('lin', v0, cs.pop())
        if None not in cs:
            from math import gcd
            g = 0
            for c in cs:
                g = gcd(g, c)
            return ('mod', v0, g, cs)
        ts = {times(v, h, hs) for v in vs}
        if len(ts) == 1 and None not in ts:
            base, s = ts.pop()
            m = power_of(v0, base)
            if m is not None:
                return ('pw', base, m, s)
        return None

    def assertion(self, st, forms, hav, k):
        inv, sub = [], {}
        for key, f in forms.items():
            h = hav[key]
            if f[0] == 'lin':
                inv.append(mk('eq', (h, lin(f[1], f[2], k)), 'bool'))
            elif f[0] == 'mod':
                inv.append(mk('cong', (h, f[1]), 'bool', f[2]))
            elif f[0] == 'pw':
                sub[h] = mk('pw', (f[1], lin(nat(f[2]), f[3], k)), f[1].ty)
        return inv, sub
