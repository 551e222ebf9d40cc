"""Obligations: contracts on the functions of the crate, discharged one by one."""
import hashlib, os, signal, time, traceback
from fractions import Fraction
from . import mir, smt, field
from .mir import (Unsupported, INTS, FLOATS, Source, Program, ptype, subst, unify, tstr)
from .terms import (Term, TRUE, FALSE, mk, const, var, arith, neg, cmp, not_, and_, or_, ite, cast, replace, subterms,
                    num_val)
from .exec import Exec, State, Agg, Ref, Str, FnItem, Outcome, UNIT, typeof
from .models import Ctx, is_fx, is_abs, lit

OK, FAILED, UNDEC = 'discharged', 'failed', 'undecided'


class Ob:
    __slots__ = ('name', 'fn', 'status', 'backend', 'detail', 'hints', 'weak', 'types', 't')

    def __init__(self, name, fn, status, backend='', detail='', hints=None, weak=False, types=()):
        self.name, self.fn, self.status, self.backend, self.detail = name, fn, status, backend, detail
        self.hints = hints or []
        self.weak = weak          # real-number identity proved, machine identity not
        self.types = tuple(types)
        self.t = 0.0


class World:
    def __init__(self):
        t0 = time.time()
        src = Source()
        self.src_hash = tree_hash()
        cache = os.path.join(mir.BUILD, 'mir-%s.txt' % self.src_hash)
        self.cached = False
        self.cmd = 'cargo +nightly rustc --lib --offline -- -Zunpretty=mir -Zmir-opt-level=0'
        if os.path.exists(cache):
            txt = open(cache).read()
            self.cached = True
        else:
            txt, self.cmd = mir.dump()
            os.makedirs(mir.BUILD, exist_ok=True)
            for f in os.listdir(mir.BUILD):
                if f.startswith('mir-') and f.endswith('.txt'):
                    try:
                        os.unlink(os.path.join(mir.BUILD, f))
                    except OSError:
                        pass
            tmp = cache + '.%d' % os.getpid()
            open(tmp, 'w').write(txt)
            os.rename(tmp, cache)
        self.mir_bytes = len(txt)
        self.prog = Program(txt, src)
        self.front_s = time.time() - t0
        self.assumed = {}
        self.fn_used = {}
        self.bounded = []

    def fns(self, short):
        return self.prog.by_short.get(short, [])

    def absorb(self, ctx, ex):
        for k, v in ctx.assumed.items():
            self.assumed[k] = self.assumed.get(k, 0) + v
        for k, v in ex.fn_used.items():
            self.fn_used[k] = self.fn_used.get(k, 0) + v


def tree_hash():
    """Hash of everything the compiler reads from the repository."""
    h = hashlib.sha256()
    files = []
    for d, dn, fn in os.walk(mir.REPO):
        dn[:] = sorted(x for x in dn if x not in ('.git', 'target', 'figures'))
        for f in sorted(fn):
            if f.endswith(('.rs', '.toml', '.lock', '.md')) or f == 'rust-toolchain':
                files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    for f in ('mir.py',):
        h.update(open(os.path.join(os.path.dirname(__file__), f), 'rb').read())
    return h.hexdigest()[:24]


# ---------------------------------------------------------------- symbols

def sym(t, st, nm, order=None):
    """A fully unconstrained value of type t."""
    if isinstance(t, str):
        if t in INTS or t in FLOATS or t in ('bool', 'char'):
            return var(nm, t)
        raise Unsupported('symbolic ' + t)
    if t[0] in ('abs', 'fx'):
        return var(nm, t)
    if t[0] == 'ref':
        return Ref(st.alloc(sym(t[2], st, nm)), (), t[1])
    if t[0] == 'adt' and t[1] in ('Cartesian', 'Complex') and len(t[2]) == 1:
        return Agg(t, [sym(t[2][0], st, nm + '.re'), sym(t[2][0], st, nm + '.im')])
    if t[0] == 'adt' and t[1] == 'Polar' and len(t[2]) == 1:
        return Agg(t, [sym(t[2][0], st, nm + '.mag'), sym(t[2][0], st, nm + '.ang')])
    raise Unsupported('symbolic value of ' + tstr(t))


def deep(st, v):
    """Follow references to the value they denote."""
    while isinstance(v, Ref):
        v = st.load(v)
    if isinstance(v, Agg):
        return Agg(v.ty, [deep(st, f) for f in v.fields], v.variant)
    return v


def flatten(v, path=''):
    if isinstance(v, Term):
        return [(path or 'value', v)]
    if isinstance(v, Agg):
        out = [] if v.variant is None else [(path + '#variant', v.variant)]
        names = {'Cartesian': ('re', 'im'), 'Complex': ('re', 'im'), 'Polar': ('mag', 'ang')}.get(
            v.ty[1] if v.ty[0] == 'adt' else '', None)
        for i, f in enumerate(v.fields):
            out += flatten(f, path + '.' + (names[i] if names else str(i)))
        return out
    raise Unsupported('value %r' % (v,))


class Run:
    """Symbolic execution of one function on unconstrained arguments."""

    def __init__(self, world, fn, env, ctx=None, feasible=None, unroll=0, policy=None, args=None, pre=(), st=None):
        self.ctx = ctx or Ctx()
        self.ex = Exec(world.prog, self.ctx)
        self.ex.feasible = feasible
        self.ex.unroll_limit = unroll
        self.ex.loop_policy = policy
        self.st = st or State()
        if args is None:
            args = [sym(subst(p, env), self.st, 'a%d' % i) for i, p in enumerate(fn.params)]
        self.args = args
        self.init = [deep(self.st, a) for a in args]
        for p in pre:
            self.st.assume(p)
        self.outs = self.ex.run(fn, env, args, self.st)
        world.absorb(self.ctx, self.ex)


def known(pc):
    m = {}
    for c in pc:
        if c.op == 'not':
            m[c.args[0]] = FALSE
        else:
            m[c] = TRUE
        if c.op == 'and':
            for x in c.args:
                m.update(known((x,)))
    return m


def under(pc, t):
    """Resolve ites of t whose condition the path already decides."""
    m = known(pc)
    if not m:
        return t
    return replace(t, m)


def reached(m, t, out, seen=None):
    """Subterms the contract itself evaluates on a path (conditions, taken branches)."""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == 'ite':
        c = t.args[0]
        reached(m, c, out, seen)
        v = replace(c, m)
        if v is not FALSE:
            reached(m, t.args[1], out, seen)
        if v is not TRUE:
            reached(m, t.args[2], out, seen)
        return
    out.add(replace(t, m))
    out.add(t)
    for a in t.args:
        reached(m, a, out, seen)


PARTIAL = {'add', 'sub', 'mul', 'div', 'rem', 'neg', 'conv', 'fx_from', 'fx_to'}


def equal(pc, got, want, floats='euf', timeout=10000):
    """-> (status, backend, detail, weak)"""
    w = under(pc, want)
    g = under(pc, got)
    if g is w:
        return OK, 'term identity', '', False
    r, info = smt.prove_eq(tuple(pc) + zero_axioms(pc, g, w), g, w, floats, timeout)
    if r == 'ok':
        return OK, 'z3', '', False
    if field.real_equal(g, w):
        return OK, 'ring normal form (real arithmetic)', 'equal over the reals only: %s vs %s' % (g, w), True
    st = FAILED if r == 'cex' else UNDEC
    return st, 'z3', 'path [%s]: code computes %s, contract says %s%s' % (
        ' && '.join(map(str, pc)) or 'true', str(g)[:400], str(w)[:400],
        ('; model ' + str(info)[:400]) if r == 'cex' else '; ' + str(info)), False


def zero_axioms(pc, *ts):
    """Conversions map zero to zero (C08, C09): x == 0 implies conv(x) == 0."""
    seen = set()
    for t in tuple(pc) + ts:
        subterms(t, seen)
    ax = []
    for t in seen:
        if t.op == 'conv' and t.args[0].ty != 'bool':
            try:
                a = cmp('eq', t.args[0], lit(0, t.args[0].ty))
                b = cmp('eq', t, lit(0, t.ty))
            except Unsupported:
                continue
            ax.append(or_(not_(a), b))
    return tuple(ax)


def check_fn(world, fn, env, spec, label, pre=None, allow_panic=None, partials=True, floats='euf', types=(), ctx=None):
    """One obligation per contract clause (return value, each &mut argument,
    absence of extra panics), each over every path."""
    obs = []
    nm = label
    t0 = time.time()
    try:
        run = Run(world, fn, env, ctx=ctx)
    except Unsupported as e:
        return [Ob(nm, fn.name, UNDEC, 'executor', 'unsupported: %s' % e, types=types)]
    try:
        want_ret, want_post = spec(*run.init)
    except Exception as e:
        return [Ob(nm, fn.name, UNDEC, 'spec', repr(e), types=types)]
    clauses = {}

    def add(cl, status, backend, detail, weak=False):
        o = clauses.get(cl)
        if o is None:
            clauses[cl] = Ob('%s: %s' % (nm, cl), fn.name, status, backend, detail, weak=weak, types=types)
            return
        rank = {OK: 0, UNDEC: 1, FAILED: 2}
        if rank[status] > rank[o.status]:
            o.status, o.detail, o.backend = status, detail, backend
        o.weak = o.weak or weak
        if o.status == OK and backend != o.backend and backend not in o.backend:
            o.backend += '+' + backend
        if weak and not o.detail:
            o.detail = detail

    spec_terms = []
    for x in ([want_ret] if want_ret is not None else []) + list(want_post.values()):
        spec_terms += [t for _, t in flatten(x) if isinstance(t, Term)]
    add('does not panic', OK, 'path enumeration', '')
    for o in run.outs:
        pc = o.st.pc
        if o.kind == 'panic':
            r = 'cex'
            if allow_panic is not None:
                g = allow_panic(*run.init)
                r, info = smt.prove(pc, g, floats)
            if r != 'ok':
                # is the path feasible at all?
                r2, _ = smt.prove(pc, FALSE, floats)
                if r2 != 'ok':
                    add('does not panic', FAILED, 'z3', 'panic (%s) reachable under [%s]' % (o.why, ' && '.join(map(str, pc))))
            continue
        if want_ret is not None:
            compare(add, 'return value', pc, deep(o.st, o.val), want_ret, floats)
        for i, w in want_post.items():
            compare(add, 'final value of argument %d' % i, pc, deep(o.st, run.args[i]), w, floats)
        for i, a in enumerate(run.args):
            if i not in want_post and isinstance(a, Ref):
                compare(add, 'argument %d is not modified' % i, pc, deep(o.st, a), run.init[i], floats)
        if partials:
            allowed = set()
            for t in spec_terms:
                reached(known(pc), t, allowed)
            extra = [p for p, _ in o.st.partials if under(pc, p) not in allowed and p.op in PARTIAL]
            if extra:
                # the same operations up to real normal form are tolerated when the result was matched weakly
                add('performs no operation that may overflow beyond the contract', FAILED, 'term inclusion',
                    'under [%s] also evaluates %s' % (' && '.join(map(str, pc)), ', '.join(map(str, extra[:4]))))
            else:
                add('performs no operation that may overflow beyond the contract', OK, 'term inclusion', '')
    # if the value only matches over the reals, extra operations are part of the same question
    weak = any(c.weak for c in clauses.values())
    k = 'performs no operation that may overflow beyond the contract'
    if weak and k in clauses and clauses[k].status == FAILED:
        clauses[k].status, clauses[k].weak = OK, True
    dt = time.time() - t0
    for c in clauses.values():
        c.t = dt / len(clauses)
    return list(clauses.values())


def compare(add, cl, pc, got, want, floats):
    try:
        g, w = flatten(got), flatten(want)
    except Unsupported as e:
        add(cl, UNDEC, 'executor', str(e))
        return
    if [p for p, _ in g] != [p for p, _ in w]:
        add(cl, FAILED, 'shape', 'got %r, contract %r' % (got, want))
        return
    for (p, a), (_, b) in zip(g, w):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                add(cl + p, FAILED, 'shape', 'got %s, contract %s' % (a, b))
            continue
        if a.ty != b.ty:
            add(cl, FAILED, 'type', '%s vs %s' % (tstr(a.ty), tstr(b.ty)))
            continue
        st, be, det, weak = equal(pc, a, b, floats)
        add('%s %s' % (cl, p), st, be, det, weak)


# ---------------------------------------------------------------- parallel discharge

DEADLINE = [None]      # wall-clock time after which the remaining obligations are left undecided (set by the driver)
GRACE = 45
FAILURES = []          # refuted obligations, kept in case the rest of the property cannot be finished


class TimeUp(BaseException):
    pass


def _time_up(*_):
    raise TimeUp()


def arm(on):
    """A timer that raises TimeUp at the deadline (again every few seconds, should one be swallowed)."""
    if DEADLINE[0] is None:
        return
    signal.signal(signal.SIGALRM, _time_up)
    signal.setitimer(signal.ITIMER_REAL, max(0.01, DEADLINE[0] - time.time()) if on else 0, 5 if on else 0)


def guarded(fn, x):
    """[Ob] of fn(x); whatever goes wrong leaves one undecided obligation."""
    x_ = x if isinstance(x, tuple) else (x,)
    f = next((y for y in x_ if isinstance(y, mir.Fn)), None)
    types = tuple(y for y in x_ if is_fx(y) or isinstance(y, str) and (y in INTS or y in FLOATS))
    what = '%s of %s' % (f.name if f is not None else 'obligations', ', '.join(tstr(t) for t in types) or 'item')
    nm = f.name if f is not None else '-'
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return [Ob(what, nm, UNDEC, 'executor', 'not reached before the time limit', types=types)]
    try:
        return fn(x)
    except TimeUp:
        return [Ob(what, nm, UNDEC, 'executor', 'time limit', types=types)]
    except Exception:
        return [Ob(what, nm, UNDEC, 'executor', traceback.format_exc()[-1500:], types=types)]


def pmap(world, fn, items, jobs=None):
    """[Ob] of fn(item) over all items, discharged by forked workers (falls back to one process)."""
    import pickle, tempfile
    items = list(items)
    jobs = min(jobs or (os.cpu_count() or 1), max(1, len(items) // 4))
    if jobs <= 1:
        return [o for x in items for o in guarded(fn, x)]
    tmp = tempfile.TemporaryDirectory(prefix='mirvc-')
    pids = set()
    arm(False)
    for j in range(jobs):
        pid = os.fork()
        if pid == 0:
            try:
                arm(True)
                world.assumed, world.fn_used, world.bounded = {}, {}, []
                smt.STATS.update(queries=0, time=0.0)
                with open('%s/%d' % (tmp.name, j), 'wb') as f:
                    for i in range(j, len(items), jobs):
                        try:
                            r = guarded(fn, items[i])
                        except TimeUp:
                            r = guarded(fn, items[i])
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        pickle.dump((i, r), f)
                        f.flush()
                        arm(True)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    pickle.dump((world.assumed, world.fn_used, world.bounded, dict(smt.STATS)), f)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        pids.add(pid)
    while pids:
        if DEADLINE[0] is None:
            os.waitpid(pids.pop(), 0)
            continue
        for p in list(pids):
            if os.waitpid(p, os.WNOHANG)[0]:
                pids.discard(p)
        if pids and time.time() > DEADLINE[0] + GRACE:
            for p in pids:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            pids = set()
        time.sleep(0.02)
    res = {}
    for j in range(jobs):
        p = '%s/%d' % (tmp.name, j)
        try:
            with open(p, 'rb') as f:
                while True:
                    r = pickle.load(f)
                    if len(r) == 2:
                        res[r[0]] = r[1]
                        continue
                    assumed, used, bounded, stats = r
                    for k, v in assumed.items():
                        world.assumed[k] = world.assumed.get(k, 0) + v
                    for k, v in used.items():
                        world.fn_used[k] = world.fn_used.get(k, 0) + v
                    world.bounded += bounded
                    for k, v in stats.items():
                        smt.STATS[k] = smt.STATS.get(k, 0) + v
                    break
        except (OSError, EOFError, pickle.UnpicklingError):
            pass
    tmp.cleanup()

    def lost(x):
        raise RuntimeError('the worker of this item stopped')
    for i, x in enumerate(items):
        if i not in res:
            res[i] = guarded(lost, x)
    FAILURES.extend(o for i in res for o in res[i] if o.status == FAILED)
    arm(True)
    return [o for i in sorted(res) for o in res[i]]
