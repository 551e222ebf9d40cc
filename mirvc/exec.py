"""Symbolic executor over the crate's MIR (verification-condition generator).

All values are symbolic; a function is executed for *all* inputs at once.
Loops are either decided by constants / by the solver under the path condition
(complete unrolling, with the bound discharged), or cut at an invariant.
"""
import re
from fractions import Fraction
from . import mir
from .mir import (Unsupported, INTS, FLOATS, INT_W, int_range, is_signed, ptype, subst, unify, split_path, split_top,
                  match_close, strip_turbofish, tstr)
from .terms import (Term, TRUE, FALSE, mk, const, var, arith, neg, cmp, not_, and_, ite, cast, is_const, num_val,
                    round_float, round_even, wrap_int, int_to_float)


class Agg:
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, fields, variant=None):
        self.ty, self.fields, self.variant = ty, tuple(fields), variant

    def __repr__(self):
        return '%s%s(%s)' % (tstr(self.ty), '::' + self.variant if self.variant else '',
                             ', '.join(map(repr, self.fields)))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.variant == o.variant and self.fields == o.fields

    def __hash__(self):
        return hash((self.variant, self.fields))


class Ref:
    __slots__ = ('cell', 'path', 'mut')

    def __init__(self, cell, path=(), mut=None):
        self.cell, self.path, self.mut = cell, path, mut

    def __repr__(self):
        return '&%d%s' % (self.cell, ''.join('.%s' % p for p in self.path))

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.cell, self.path) == (o.cell, o.path)

    def __hash__(self):
        return hash((self.cell, self.path))


class Str:
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return 'b%r' % (self.data,)

    def __eq__(self, o):
        return isinstance(o, Str) and self.data == o.data

    def __hash__(self):
        return hash(self.data)


class FnItem:
    """A function item or pointer; its generics are those in force where it was named."""
    __slots__ = ('text', 'caps', 'env')

    def __init__(self, text, caps=(), env=()):
        self.text, self.caps, self.env = text, caps, dict(env)

    def __eq__(self, o):
        return isinstance(o, FnItem) and self.text == o.text and self.caps == o.caps

    def __hash__(self):
        return hash(self.text)


UNIT_T = ('tup',)
UNIT = Agg(UNIT_T, ())


def tup(*xs, ty=None):
    return Agg(ty or ('tup',) + tuple(typeof(x) for x in xs), xs)


def some(x):
    return Agg(('adt', 'Option', (typeof(x),)), (x,), 'Some')


def none(t):
    return Agg(('adt', 'Option', (t,)), (), 'None')


def typeof(v, st=None):
    if isinstance(v, Term):
        return v.ty
    if isinstance(v, Agg):
        if st is not None and v.ty[0] == 'tup' and len(v.fields) == len(v.ty) - 1:
            return ('tup',) + tuple(typeof(x, st) if isinstance(x, (Ref, Agg)) else y for x, y in zip(v.fields, v.ty[1:]))
        return v.ty
    if isinstance(v, Str):
        return ('ref', None, ('wild',))
    if isinstance(v, Ref):
        if st is None:
            return ('ref', v.mut, ('wild',))
        return ('ref', v.mut, typeof(st.load(v), st))
    return ('wild',)


class SymbolicIndex(Unsupported):
    def __init__(self, frame, local, count):
        super().__init__('symbolic index')
        self.frame, self.local, self.count = frame, local, count


class State:
    __slots__ = ('mem', 'pc', 'partials', 'counter', 'trace')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.partials = ()     # (op-term, pc length when executed)
        self.counter = [0]
        self.trace = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc, s.partials, s.counter, s.trace = self.pc, self.partials, self.counter, self.trace
        return s

    def alloc(self, v):
        self.counter[0] += 1
        c = self.counter[0]
        self.mem[c] = v
        return c

    def load(self, r):
        v = self.mem.get(r.cell)
        for p in r.path:
            if isinstance(v, Agg):
                if not isinstance(p, int) or p >= len(v.fields):
                    raise Unsupported('projection')
                v = v.fields[p]
            else:
                raise Unsupported('projection of %r' % (v,))
        if v is None:
            raise Unsupported('read of uninitialised place')
        return v

    def store(self, r, x):
        if not r.path:
            self.mem[r.cell] = x
            return
        self.mem[r.cell] = self._set(self.mem.get(r.cell), r.path, x)

    def _set(self, v, path, x):
        if not path:
            return x
        if not isinstance(v, Agg) or not isinstance(path[0], int) or path[0] >= len(v.fields):
            raise Unsupported('write projection')
        f = list(v.fields)
        f[path[0]] = self._set(f[path[0]], path[1:], x)
        return Agg(v.ty, f, v.variant)

    def assume(self, t):
        if t is not TRUE and t not in self.pc:
            self.pc = self.pc + (t,)


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'why')

    def __init__(self, kind, st, val=None, why=None):
        self.kind, self.st, self.val, self.why = kind, st, val, why


class Frame:
    __slots__ = ('fn', 'env', 'cells', 'loops', 'depth')


PANIC_FNS = {'panic', 'panic_fmt', 'unwrap_failed', 'expect_failed', 'panic_const', 'unreachable', 'begin_panic',
             'panic_display', 'panic_explicit', 'panic_str', 'assert_failed'}


class Exec:
    def __init__(self, prog, ctx):
        self.prog = prog
        self.ctx = ctx          # theory + contracts
        self.fn_used = {}       # fn name -> times executed
        self.contracts_used = {}
        self.unroll_limit = 0
        self.max_depth = 24
        self.feasible = None    # optional callback pc -> bool
        self.loop_policy = None
        self.n_paths = 0
        self.steps = 0
        self.step_limit = 400000

    # ---------------------------------------------------------- entry
    def run(self, fn, env, args, st, depth=0):
        if depth > self.max_depth:
            raise Unsupported('recursion too deep in ' + fn.short)
        fn.parse()
        self.fn_used[fn.name] = self.fn_used.get(fn.name, 0) + 1
        fr = Frame()
        fr.fn, fr.env, fr.depth = fn, dict(env), depth
        fr.cells = {}
        fr.loops = loops_of(fn)
        for l in fn.locals:
            fr.cells[l] = st.alloc(None)
        for i, a in enumerate(args):
            st.mem[fr.cells[i + 1]] = a
        outs = []
        for kind, bb, s, val in self.flow(fr, 0, st, None):
            if kind == 'ret':
                outs.append(Outcome('ret', s, s.mem[fr.cells[0]] if s.mem[fr.cells[0]] is not None else UNIT))
            else:
                outs.append(Outcome('panic', s, None, val))
        return outs

    def flow(self, fr, bb, st, stop):
        """Run from the start of `bb`. Yields ('ret',..), ('panic',..) and, when
        `stop`=(head, blocks) is given, ('back', head, st, None) and
        ('exit', bb, st, None)."""
        work = [(bb, st, {}, True)]
        while work:
            bb, st, visits, first = work.pop()
            if stop is not None and not first:
                if bb == stop[0]:
                    yield ('back', bb, st, None)
                    continue
                if bb not in stop[1]:
                    yield ('exit', bb, st, None)
                    continue
            if bb in fr.loops and not (stop is not None and first):
                handled = False
                n = visits.get(bb, 0)
                if n == 0:
                    visits = dict(visits)
                    k = self.known_length(fr, bb, st)
                    visits['limit', bb] = 16 if k is None and self.known_guard(fr, bb, st) else k
                if n == 0 and self.loop_policy is not None and visits['limit', bb] is None:
                    h = self.loop_policy(self, fr, bb, st)
                    if h is not None:
                        for kind, b2, s2, v2 in h:
                            if kind in ('ret', 'panic'):
                                yield (kind, b2, s2, v2)
                            else:
                                # a state leaving the loop, positioned at b2
                                work.append((b2, s2, dict(visits), False))
                        handled = True
                if handled:
                    continue
                if n > max(self.unroll_limit, visits['limit', bb] or 0):
                    raise Unsupported('loop in %s needs an invariant' % fr.fn.short)
                visits = dict(visits)
                visits[bb] = n + 1
                # entering an inner loop afresh resets nothing: bounds are per path
            for nxt in self.block(fr, bb, st):
                if nxt[0] == 'goto':
                    work.append((nxt[1], nxt[2], visits, False))
                else:
                    yield nxt

    def known_length(self, fr, head, st, most=16):
        """How many items are left in the iterator that drives the loop, if that is a constant."""
        for b in fr.loops[head]:
            t = fr.fn.blocks[b][-1]
            if t[0] != 'call' or not re.search(r'Iterator>::next$', t[2]) or not t[3] or t[3][0][0] != 'use':
                continue
            loc, proj = t[3][0][1]
            for _ in range(4):
                src = [s[2] for c in fr.loops[head] for s in fr.fn.blocks[c][:-1] if s[0] == 'assign' and s[1] == (loc, ())]
                if len(src) != 1 or proj not in ((), (('deref',),)):
                    break
                if src[0][0] == 'ref':
                    loc, proj = src[0][2]
                    if not proj:
                        break
                elif src[0][0] == 'op' and src[0][1][0] == 'use':
                    loc, proj = src[0][1][1]
            v = st.mem.get(fr.cells.get(loc))
            while isinstance(v, Ref):
                v = st.load(v)
            if proj not in ((), (('deref',),)) or not isinstance(v, Agg):
                continue
            n = self.items_left(v)
            if n is not None and n <= most:
                return n
        return None

    def items_left(self, v):
        """At most how many items are left of an iterator, when that is a literal."""
        if not isinstance(v, Agg):
            return None
        if v.ty[:2] == ('adt', 'Rev'):
            v = v.fields[0]
        if v.ty[:2] == ('adt', 'ArrIter'):
            return len(v.fields)
        if v.ty[:2] in (('adt', 'Range'), ('adt', 'RangeInclusive')) and all(isinstance(f, Term) and f.op == 'const' for f in v.fields[:2]):
            return max(v.fields[1].val - v.fields[0].val + (v.ty[1] == 'RangeInclusive'), 0)
        if v.ty[:2] == ('adt', 'Adapter'):
            k = v.ty[2][0]
            a = self.items_left(v.fields[0])
            if k == 'take' and v.fields[1].op == 'const':
                return v.fields[1].val if a is None else min(a, v.fields[1].val)
            if k in ('zip', 'chain'):
                b = self.items_left(v.fields[1])
                if k == 'zip':
                    return b if a is None else a if b is None else min(a, b)
                return None if a is None or b is None else a + b
            return a
        return None

    def known_guard(self, fr, head, st):
        """The first decision in the loop is on constants: it counts something known."""
        st, b = st.fork(), head
        for _ in range(6):
            t = fr.fn.blocks[b][-1]
            try:
                if t[0] == 'switch':
                    for s in fr.fn.blocks[b][:-1]:
                        self.assign(fr, st, s)
                    v = self.operand(fr, st, t[1])
                    return isinstance(v, Term) and v.op == 'const'
                if t[0] not in ('goto', 'assert'):
                    return False
                nxt = self.block(fr, b, st)
            except Unsupported:
                return False
            if len(nxt) != 1 or nxt[0][0] != 'goto':
                return False
            _, b, st = nxt[0]
        return False

    # ---------------------------------------------------------- blocks
    def block(self, fr, bb, st, start=0):
        """Execute one basic block (from statement `start` on); returns list of continuations."""
        stmts = fr.fn.blocks[bb]
        for i in range(start, len(stmts)):
            self.steps += 1
            if self.steps > self.step_limit:
                raise Unsupported('step limit')
            try:
                if i == len(stmts) - 1:
                    return self.terminator(fr, st, stmts[i])
                self.assign(fr, st, stmts[i])
            except SymbolicIndex as e:
                if e.frame is not fr:
                    raise
                # one case for each element
                out = []
                for n in range(e.count):
                    s = st.fork()
                    v = s.mem[fr.cells[e.local]]
                    c = const(n, v.ty)
                    s.assume(cmp('eq', v, c))
                    s.mem[fr.cells[e.local]] = c
                    if self.is_feasible(s):
                        out += self.block(fr, bb, s, i)
                return out

    def terminator(self, fr, st, t):
        k = t[0]
        if k == 'goto':
            return [('goto', t[1], st)]
        if k == 'return':
            return [('ret', None, st, None)]
        if k == 'unreachable':
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            c = c if t[2] else not_(c)
            return self.branch(st, [(c, t[4])], ('panic', t[3]))
        if k == 'call':
            return self.call(fr, st, t)
        raise Unsupported('terminator %s' % k)

    def is_feasible(self, st):
        if any(c is FALSE for c in st.pc):
            return False
        s = set(st.pc)
        for c in st.pc:
            if not_(c) in s:
                return False
        if self.feasible is not None:
            return self.feasible(st.pc)
        return True

    def branch(self, st, conds, other):
        """conds: [(bool term, target bb)]; other: target or ('panic', why)."""
        out = []
        rest = []
        for c, tgt in conds:
            if c is FALSE:
                rest.append(TRUE)
                continue
            s = st.fork()
            for r in rest:
                s.assume(r)
            s.assume(c)
            if self.is_feasible(s):
                out.append(('goto', tgt, s))
            rest.append(not_(c))
            if c is TRUE:
                return out
        s = st.fork()
        for r in rest:
            s.assume(r)
        if any(r is FALSE for r in rest) or not self.is_feasible(s):
            return out
        if isinstance(other, tuple):
            out.append(('panic', None, s, other[1]))
        elif other is not None:
            out.append(('goto', other, s))
        return out

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        conds = []
        for k, tgt in t[2].items():
            if k == 'otherwise':
                continue
            kv = int(k)
            if v.ty == 'bool':
                c = v if kv else not_(v)
            else:
                if v.op == 'const':
                    lo, hi = int_range(v.ty)
                    c = const(wrap_int(kv, v.ty) == v.val, 'bool')
                else:
                    c = cmp('eq', v, mk('const', (), v.ty, wrap_int(kv, v.ty)))
            conds.append((c, tgt))
        o = t[2].get('otherwise')
        return self.branch(st, conds, o if isinstance(o, int) else None)

    # ---------------------------------------------------------- places
    def place(self, fr, st, p):
        loc, proj = p
        cell, path = fr.cells[loc], ()
        for q in proj:
            if q[0] == 'deref':
                r = st.load(Ref(cell, path))
                if isinstance(r, Ref):
                    cell, path = r.cell, r.path
                elif isinstance(r, Str):
                    cell, path = st.alloc(r), ()
                else:
                    raise Unsupported('deref of %r' % (r,))
            elif q[0] == 'field':
                path = path + (q[1],)
            elif q[0] == 'cindex':
                i = q[1]
                if q[2]:
                    i = len(st.load(Ref(cell, path)).fields) - i
                path = path + (i,)
            elif q[0] == 'index':
                iv = st.load(Ref(fr.cells[q[1]]))
                if iv.op != 'const':
                    a = st.load(Ref(cell, path))
                    if isinstance(a, Agg) and len(a.fields) <= 64:
                        raise SymbolicIndex(fr, q[1], len(a.fields))
                    raise Unsupported('symbolic index')
                path = path + (iv.val,)
            elif q[0] == 'downcast':
                pass
        return Ref(cell, path)

    def operand(self, fr, st, o):
        if o[0] == 'use':
            return st.load(self.place(fr, st, o[1]))
        return self.constant(fr, st, o[1])

    def constant(self, fr, st, s):
        s = s.strip()
        if s == 'true':
            return TRUE
        if s == 'false':
            return FALSE
        if s == '()':
            return UNIT
        m = re.fullmatch(r'(-?\d+)_([iu](?:\d+|size))', s)
        if m:
            return mk('const', (), m.group(2), int(m.group(1)))
        m = re.fullmatch(r'(.+?)_?(f32|f64)', s)
        if m and re.fullmatch(r'[-+]?(\d[\d_]*\.?\d*([eE][-+]?\d+)?|inf|NaN)', m.group(1)):
            txt = m.group(1)
            return const(float(txt.replace('NaN', 'nan')), m.group(2)) if m.group(2) == 'f64' else \
                mk('const', (), 'f32', round_float(Fraction(txt), 'f32') if re.match(r'[-+]?\d', txt) else float(txt.replace('NaN', 'nan')))
        m = re.fullmatch(r'(i|u)(8|16|32|64|128|size)::(MAX|MIN)', s)
        if m:
            ty = m.group(1) + m.group(2)
            return mk('const', (), ty, int_range(ty)[m.group(3) == 'MAX'])
        if s.startswith('"'):
            return Str(eval('b' + _rs(s)))
        if s.startswith('b"'):
            return Str(eval(_rs(s)))
        m = re.fullmatch(r"'(.*)'", s)
        if m:
            return mk('const', (), 'char', ord(eval("'" + m.group(1) + "'")))
        return self.ctx.named_const(self, fr, st, s)

    # ---------------------------------------------------------- statements
    def assign(self, fr, st, s):
        if s[0] == 'setdiscr':
            raise Unsupported('set discriminant')
        if s[0] != 'assign':
            raise Unsupported('statement %s' % s[0])
        v = self.rvalue(fr, st, s[2], s[1])
        st.store(self.place(fr, st, s[1]), v)

    def rvalue(self, fr, st, r, dst):
        k = r[0]
        if k == 'op':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            # reborrow of a constant string reference
            p = self.place(fr, st, r[2])
            v = st.mem.get(p.cell)
            if isinstance(v, Str) and not p.path:
                return v
            return Ref(p.cell, p.path, r[1])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]))
        if k == 'un':
            a = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                if a.ty == 'bool':
                    return not_(a)
                if a.op == 'const' and a.ty in INTS:
                    return mk('const', (), a.ty, wrap_int(~a.val, a.ty))
                return mk('bnot', (a,), a.ty)
            return self.num_neg(st, a)
        if k == 'cast':
            return self.cast(fr, st, self.operand(fr, st, r[1]), subst(r[2], fr.env), r[3])
        if k == 'discr':
            v = st.load(self.place(fr, st, r[1]))
            return self.discriminant(v)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[4]]
            if r[1] == 'tuple':
                return Agg(('tup',) + tuple(typeof(o, st) for o in ops), ops)
            if r[1] == 'array':
                return Agg(('arr', typeof(ops[0], st) if ops else ('wild',), len(ops)), ops)
            if r[1] == 'closure':
                return Agg(('closure', r[2], tuple(sorted(fr.env.items())), fr.fn.line), ops)
            if not ops and r[3] is None and not dst[1]:
                t = fr.fn.locals.get(dst[0])
                if isinstance(t, tuple) and t[0] == 'opaque' and t[1].startswith('fn('):
                    return FnItem(r[2], (), fr.env)
            return self.adt(fr, st, r[2], r[3], ops, dst)
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            m = re.match(r'(\d+)', r[2].replace('const ', ''))
            if not m:
                raise Unsupported('repeat length')
            return Agg(('arr', typeof(v, st), int(m.group(1))), [v] * int(m.group(1)))
        if k == 'len':
            v = st.load(self.place(fr, st, r[1]))
            return mk('const', (), 'usize', len(v.fields))
        if k == 'ptrmeta':
            v = self.operand(fr, st, r[1])
            if isinstance(v, Ref):
                w = st.load(v)
                if isinstance(w, Agg):
                    return mk('const', (), 'usize', len(w.fields))
            if isinstance(v, Str):
                return mk('const', (), 'usize', len(v.data))
            raise Unsupported('metadata')
        raise Unsupported('rvalue %s' % k)

    VARIANTS = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Less': -1, 'Equal': 0, 'Greater': 1, 'Continue': 0,
                'Break': 1}

    def discriminant(self, v):
        if isinstance(v, Agg) and v.variant in self.VARIANTS:
            ty = 'i8' if v.variant in ('Less', 'Equal', 'Greater') else 'isize'
            return mk('const', (), ty, self.VARIANTS[v.variant])
        raise Unsupported('discriminant of %r' % (v,))

    def adt(self, fr, st, path, names, ops, dst):
        segs = split_path(path)
        last = segs[-1]
        if last.startswith('<'):
            segs = segs[:-1]
            last = segs[-1] + last
        nm, targs = strip_turbofish(last)
        # struct or variant?
        if nm in self.VARIANTS:
            enum = segs[-2] if not segs[-2].startswith('<') else segs[-3] + segs[-2]
            en, ta = strip_turbofish(enum)
            tal = tuple(subst(ptype(x), fr.env) for x in split_top(ta[1:-1])) if ta else ()
            return Agg(('adt', en, tal), ops, nm)
        ty = subst(ptype(path.replace('::<', '<')), fr.env)
        if names is not None:
            order = self.prog.source.structs.get(nm)
            if order is None:
                order = {'Range': ['start', 'end'], 'RangeInclusive': ['start', 'end', 'exhausted'],
                         'Complex': ['re', 'im'], 'RangeFrom': ['start'], 'RangeTo': ['end'], 'RangeToInclusive': ['end']}.get(nm)
            if order is None:
                raise Unsupported('field order of ' + nm)
            d = dict(zip(names, ops))
            ops = [d[x] for x in order]
        return Agg(ty, ops)

    # ---------------------------------------------------------- numerics
    def binop(self, st, op, a, b):
        if not isinstance(a, Term) or not isinstance(b, Term):
            raise Unsupported('binop on %r' % (a,))
        m = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}
        if op in m:
            return cmp(m[op], a, b)
        ty = a.ty
        if op.endswith('WithOverflow'):
            o = op[:3].lower()
            r = arith(o, a, b, ty)
            if r.op == 'const' and a.op == 'const' and b.op == 'const':
                return tup(r, FALSE)
            if a.op == 'const' and b.op == 'const':
                v = {'add': a.val + b.val, 'sub': a.val - b.val, 'mul': a.val * b.val}[o]
                return tup(const(wrap_int(v, ty), ty), TRUE)
            return tup(r, mk('ovf_' + o, (a, b), 'bool'))
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            if ty in FLOATS:
                return arith(op.lower(), a, b, ty)
            if ty in INTS:
                if op in ('Div', 'Rem'):
                    return arith(op.lower(), a, b, ty)
                return mk('w' + op.lower(), (a, b), ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ty == 'bool':
                if op == 'BitAnd':
                    return and_(a, b)
                if op == 'BitOr':
                    return not_(and_(not_(a), not_(b)))
                return not_(cmp('eq', a, b))
            if a.op == 'const' and b.op == 'const':
                v = {'BitAnd': a.val & b.val, 'BitOr': a.val | b.val, 'BitXor': a.val ^ b.val}[op]
                return mk('const', (), ty, v)
            return mk({'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor'}[op], (a, b), ty)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            o = op[:3].lower()
            if a.op == 'const' and b.op == 'const':
                v = a.val << b.val if o == 'shl' else a.val >> b.val
                return mk('const', (), ty, wrap_int(v, ty))
            return mk(o, (a, b), ty)
        raise Unsupported('binop %s on %s' % (op, tstr(ty)))

    def partial(self, st, t):
        if t.op in ('const', 'lit', 'var'):
            return t
        st.partials = st.partials + ((t, len(st.pc)),)
        return t

    def num(self, st, op, a, b):
        """Trait arithmetic on one numeric type (panics on overflow for ints
        and fixed point)."""
        ty = a.ty
        t = arith(op, a, b, ty)
        if ty not in FLOATS:
            self.partial(st, t)
        return t

    def num_neg(self, st, a):
        t = neg(a)
        if a.ty not in FLOATS:
            self.partial(st, t)
        return t

    def cast(self, fr, st, v, to, kind):
        if isinstance(v, Term) and kind in ('IntToInt', 'IntToFloat', 'FloatToInt', 'FloatToFloat'):
            return cast(v, to)
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'Subtype'):
            if kind == 'Transmute':
                raise Unsupported('transmute')
            return v
        raise Unsupported('cast ' + kind)

    # ---------------------------------------------------------- calls
    def call(self, fr, st, t):
        _, dst, callee, ops, ret = t
        args = [self.operand(fr, st, o) for o in ops]
        rty = subst(fr.fn.locals[dst[0]], fr.env) if dst is not None and not dst[1] else None
        if rty == ('adt', '_', ()):
            rty = None          # prelude: not written down
        res = self.apply(fr, st, callee, args, rty)
        out = []
        for o in res:
            if o.kind == 'panic':
                out.append(('panic', None, o.st, o.why))
            elif ret is not None:
                if dst is not None:
                    o.st.store(self.place(fr, o.st, dst), o.val)
                out.append(('goto', ret, o.st))
        return out

    def apply(self, fr, st, callee, args, rty):
        c = parse_callee(callee, fr.env)
        if callee.startswith(('move ', 'copy ')):
            f = self.operand(fr, st, mir.parse_operand(callee))
            return self.invoke(fr, st, f, args, rty)
        if c.name.split('::')[-1] in PANIC_FNS or (c.segs and 'panicking' in c.segs):
            return [Outcome('panic', st, None, c.name)]
        r = self.ctx.call(self, fr, st, c, args, rty)
        if r is not None:
            return r
        # local function
        cand = self.resolve(c, args, rty, st, fr.fn)
        if cand is not None:
            fn, env = cand
            r = self.ctx.contract_call(self, st, fn, env, args, rty)
            if r is not None:
                return r
            return self.run(fn, env, args, st, fr.depth + 1)
        raise Unsupported('call to %s' % callee[:120])

    def invoke(self, fr, st, f, args, rty):
        """Call a function item, function pointer or closure (given by value or behind references)."""
        v, ref = f, None
        while isinstance(v, Ref):
            v, ref = st.load(v), v
        if isinstance(v, FnItem):
            g = Frame()
            g.fn, g.env, g.cells, g.loops, g.depth = fr.fn, v.env, fr.cells, fr.loops, fr.depth
            return self.apply(g, st, v.text, list(v.caps) + args, rty)
        if isinstance(v, Agg) and isinstance(v.ty, tuple) and v.ty[0] == 'closure':
            fns = [g for g in self.prog.closures(v.ty[1], v.ty[3]) if len(g.params) == len(args) + 1 and all(
                unify(p, typeof(a, st), dict(v.ty[2])) for p, a in zip(g.params[1:], args))]
            if len(set('\n'.join(g.text) for g in fns)) == 1:
                fn = fns[0]
                me = v
                if fn.params[0][0] == 'ref':
                    me = ref if ref is not None else Ref(st.alloc(v), (), True)
                return self.run(fn, dict(v.ty[2]), [me] + args, st, fr.depth + 1)
            raise Unsupported('indirect call: closure (%s) of %s' % (', '.join(str(typeof(a, st)) for a in args), [g.params for g in self.prog.closures(v.ty[1], v.ty[3])]))
        raise Unsupported('indirect call')

    def candidates(self, name, ats, rty):
        """Functions of that name whose signature matches."""
        memo = self.prog.__dict__.setdefault('sig_memo', {})
        k = name, ats, rty
        if k not in memo:
            out = memo[k] = []
            for f in self.prog.by_short.get(name, []):
                env = {}
                if len(f.params) == len(ats) and all(unify(a, b, env) for a, b in zip(f.params, ats)) and (
                        rty is None or unify(f.ret, rty, env)):
                    out.append((f, env))
        return memo[k]

    def resolve(self, c, args, rty, st, caller=None):
        ats = [typeof(a, st) for a in args]
        if c.name == '{closure}':
            return None
        out = []
        for f, env in self.candidates(c.name, tuple(ats), rty):
            env = dict(env)
            if c.kind == 'path' and c.inherent is None and c.selfty is None and f.impl_span and len(c.segs) == 1:
                continue
            if c.kind == 'trait' and not f.impl_span and not c.trait_in(f.name):
                continue
            if c.kind == 'path' and c.inherent is None and c.selfty is None and not path_match(c.segs, f.name):
                continue
            out.append((f, env, c))
        if not out:
            return None
        if len(out) > 1:
            # prefer impl of the named trait; else the most specific one
            if c.kind == 'trait':
                o2 = [x for x in out if x[0].impl_span and re.search(r'\b%s\b' % re.escape(c.trait), self.prog.source.impl_header(x[0].impl_span))]
                out = o2 or out
            if len(out) > 1:
                o2 = [x for x in out if not any(isinstance(p, tuple) and p[0] == 'param' for p in x[0].params)]
                out = o2 or out
            if len(out) > 1 and c.inherent is not None:
                o2 = [x for x in out if x[0].impl_span and ' for ' not in self.prog.source.impl_header(x[0].impl_span)]
                out = o2 or out
            if len(out) > 1 and c.kind == 'path' and all(x[0].impl_span for x in out):
                o2 = [x for x in out if ' for ' not in self.prog.source.impl_header(x[0].impl_span)]     # inherent before a trait's
                out = o2 or out
            if len(out) > 1:
                o2 = [x for x in out if path_match(c.segs, x[0].name)] if c.segs else []
                out = o2 or out
            if len(out) > 1 and c.kind == 'trait' and rty is None:
                # a constructor of the trait, `fn f(..) -> Self`, called where the result type is not written
                out = [x for x in out if subst(x[0].ret, x[1]) == c.selfty] or out
        if len(out) > 1 and caller is not None and len({x[0].name for x in out}) == 1:
            # items of a function that a macro writes several times: each set follows its function
            if out[0][0].name.startswith(caller.name + '::'):
                out = [x for x in out if x[0].line > caller.line][:1] or out
        if len(out) != 1:
            raise Unsupported('ambiguous call %s (%s)' % (c.name, ', '.join(o[0].name for o in out)))
        f, env, _ = out[0]
        if c.targs:
            env = dict(env)
        return f, env


def path_match(segs, name):
    ns = [s for s in split_path(name)]
    if not segs:
        return True
    if segs[-1] != ns[-1]:
        return False
    a, b = list(segs)[-2::-1], ns[-2::-1]
    for x, y in zip(a, b):
        if x.startswith('<') or y.startswith('<'):
            break
        if x != y:
            return False
    return True


class Callee:
    __slots__ = ('kind', 'selfty', 'trait', 'targs_trait', 'name', 'targs', 'segs', 'inherent', 'raw')

    def trait_in(self, fname):
        return self.trait is not None and self.trait in split_path(fname)


_cc = {}


def parse_callee(s, env):
    key = s
    c0 = _cc.get(key)
    if c0 is None:
        c0 = _parse_callee(s)
        _cc[key] = c0
    c = Callee()
    for a in Callee.__slots__:
        setattr(c, a, getattr(c0, a))
    c.selfty = subst(c0.selfty, env) if c0.selfty is not None else None
    c.inherent = subst(c0.inherent, env) if c0.inherent is not None else None
    c.targs = tuple(subst(x, env) for x in c0.targs)
    c.targs_trait = tuple(subst(x, env) for x in c0.targs_trait)
    return c


def _ptypes(s):
    return tuple(ptype(x) for x in split_top(s) if not re.fullmatch(r"'\w+", x) and not re.fullmatch(r'\d+', x))


def _parse_callee(s):
    c = Callee()
    c.raw = s
    c.selfty = c.trait = c.inherent = None
    c.targs = c.targs_trait = ()
    c.segs = []
    if s.startswith('<'):
        j = match_close(s, 0)
        inner = s[1:j]
        rest = split_path(s[j + 1:].lstrip(':'))
        rest = [x for x in rest if x]
        c.kind = 'trait'
        # find top-level ' as '
        depth, k = 0, -1
        for i, ch in enumerate(inner):
            if ch in '<([{':
                depth += 1
            elif ch in '>)]}':
                depth -= 1
            elif depth == 0 and inner.startswith(' as ', i):
                k = i
        if k < 0:
            c.kind = 'path'
            c.selfty = ptype(inner)
        else:
            c.selfty = ptype(inner[:k])
            tr = inner[k + 4:]
            ts = split_path(tr)
            last = ts[-1] if not ts[-1].startswith('<') else ts[-2] + ts[-1]
            c.trait, ta = strip_turbofish(last)
            if ta:
                c.targs_trait = _ptypes(ta[1:-1])
        c.name = strip_turbofish(rest[0])[0]
        if len(rest) > 1 and rest[1].startswith('<'):
            c.targs = _ptypes(rest[1][1:-1])
        return c
    c.kind = 'path'
    segs = split_path(s)
    out = []
    tpend = None
    for x in segs:
        if x.startswith('<impl '):
            body = x[6:-1]
            if ' for ' in body:
                tr, b2 = body.split(' for ', 1)
                c.kind = 'trait'
                c.trait = strip_turbofish(split_path(tr)[-1])[0]
                c.selfty = ptype(b2)
                out.append('<impl>')
                continue
            c.inherent = ptype(body)
            out.append('<impl>')
        elif x.startswith('<'):
            tpend = x
            # generics of previous segment
            out[-1] = (out[-1], x)
        else:
            out.append(x)
    names = [o if isinstance(o, str) else o[0] for o in out]
    last = out[-1]
    if isinstance(last, tuple):
        c.targs = _ptypes(last[1][1:-1])
    c.name = names[-1]
    if len(out) > 1 and isinstance(out[-2], tuple):
        c.selfty = ptype('::'.join(names[:-1]) + out[-2][1])
    elif len(out) > 1 and re.match(r'[A-Z]', names[-2]) and names[-2] != '<impl>':
        c.selfty = ptype('::'.join(names[:-1]))
    c.segs = names
    return c


def _rs(s):
    """Rust string literal -> python bytes literal text."""
    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: ''.join('\\x%02x' % b for b in chr(int(m.group(1), 16)).encode()), s)
    if not s.startswith('b'):
        body = s[1:-1]
        body = ''.join(ch if ord(ch) < 128 else ''.join('\\x%02x' % b for b in ch.encode()) for ch in body)
        return '"' + body + '"'
    return s


def loops_of(fn):
    """Loop heads -> set of blocks of the natural loop."""
    succ = {}
    for b, ss in fn.blocks.items():
        t = ss[-1]
        if t[0] == 'goto':
            succ[b] = [t[1]]
        elif t[0] == 'switch':
            succ[b] = [x for x in t[2].values() if isinstance(x, int)]
        elif t[0] == 'assert':
            succ[b] = [t[4]]
        elif t[0] == 'call':
            succ[b] = [t[4]] if t[4] is not None else []
        else:
            succ[b] = []
    # dfs for back edges
    color, back = {}, []
    stack = [(0, iter(succ.get(0, [])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if color.get(x) == 1:
                back.append((b, x))
            elif x not in color:
                color[x] = 1
                stack.append((x, iter(succ.get(x, []))))
                break
        else:
            color[b] = 2
            stack.pop()
    pred = {}
    for b, ss in succ.items():
        for x in ss:
            pred.setdefault(x, []).append(b)
    loops = {}
    for b, h in back:
        blk = loops.setdefault(h, {h})
        st = [b]
        while st:
            x = st.pop()
            if x not in blk:
                blk.add(x)
                st.extend(pred.get(x, []))
    _loops_cache[fn.name, fn.line] = loops
    return loops


_loops_cache = {}
_lo = loops_of


def loops_of(fn):
    k = (fn.name, fn.line)
    if k in _loops_cache:
        return _loops_cache[k]
    return _lo(fn)
