"""Front end: obtain and parse the MIR of the real crate.

`dump()` runs the compiler on /repo's working tree and keeps its own textual
MIR (`-Zunpretty=mir`, no optimisation, debug assertions on).  Nothing of the
crate is transcribed by hand: every function body the verifier looks at comes
out of that dump, made anew on every run.
"""
import os, re, subprocess, functools, hashlib, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))


class MirError(Exception):
    pass


class Unsupported(Exception):
    """The verifier has no rule for a construct: the obligation is undecided."""


PRIMS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64',
         'u128', 'usize', 'bool', 'char', 'f32', 'f64', 'str', '!'}
INT_W = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64,
         'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
INTS = set(INT_W)
FLOATS = {'f32', 'f64'}


def is_signed(t):
    if isinstance(t, tuple):
        return t[0] == 'fx' and t[1] == 'I'
    return t[0] == 'i'


def int_range(t):
    if isinstance(t, tuple):
        w, s = t[2], t[1] == 'I'
    else:
        w, s = INT_W[t], t[0] == 'i'
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


# --------------------------------------------------------------- dump

class BuildError(Exception):
    pass


def dump(timeout=800, package=None):
    """Compile /repo's library (or a dependency of it) and return the MIR text of every function."""
    tgt = os.path.join(BUILD, 'mir-target')
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    cmd = ['cargo', '+nightly', 'rustc'] + (['-p', package] if package else []) + ['--lib', '--offline', '--',
           '-Zunpretty=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no', '-Awarnings',
           '-Cdebug-assertions=on', '-Coverflow-checks=on']
    # a changed source must be looked at even if its mtime did not move
    lib = os.path.join(REPO, 'src', 'lib.rs')
    # cargo decides freshness from mtimes; -Zunpretty leaves no artefact to be
    # fresh, so the compiler runs every time.
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    txt = p.stdout.decode('utf8', 'replace')
    if p.returncode != 0 or '\nfn ' not in txt:
        raise BuildError('compiler failed (%d): %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-3000:]))
    return txt, ' '.join(cmd)


# --------------------------------------------------------------- helpers

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def split_top(s, sep=','):
    """Split at top-level separators, respecting brackets, strings and `->`."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            cur.append('->'); i += 2; continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur).strip()
    if last or out:
        out.append(last)
    return [x for x in out if x != '']


def match_close(s, i):
    """Index of the bracket closing the one at s[i]."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:80])


def strip_turbofish(seg):
    i = seg.find('<')
    return (seg[:i].rstrip(':'), seg[i:]) if i >= 0 else (seg, '')


def split_path(s):
    """Split a path at top-level `::`."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '-' and s[i:i + 2] == '->':
            cur.append('->'); i += 2; continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if depth == 0 and s[i:i + 2] == '::':
            out.append(''.join(cur)); cur = []; i += 2; continue
        cur.append(c); i += 1
    out.append(''.join(cur))
    return out


GENERIC_NAMES = {'T', 'T1', 'T2', 'Self'}


def typenum(s):
    s = s.strip()
    base = split_path(s)[-1]
    if base.startswith('UTerm'):
        return 0
    if base.startswith('UInt'):
        seg = s[s.index('<') + 1:-1]
        a, b = split_top(seg)
        return 2 * typenum(a) + int(split_path(b)[-1][1:])
    m = re.fullmatch(r'U(\d+)', base)
    if m:
        return int(m.group(1))
    return None


@functools.lru_cache(maxsize=None)
def ptype(s):
    """Parse a MIR type into a structural form."""
    s = s.strip()
    if s in PRIMS:
        return s
    if s.startswith('&'):
        r = s[1:].lstrip()
        m = re.match(r"'\w+\s+", r)
        if m:
            r = r[m.end():]
        mut = False
        if r.startswith('mut '):
            mut, r = True, r[4:]
        return ('ref', mut, ptype(r))
    if s.startswith('*const ') or s.startswith('*mut '):
        return ('ptr', ptype(s.split(' ', 1)[1]))
    if s.startswith('('):
        return ('tup',) + tuple(ptype(x) for x in split_top(s[1:match_close(s, 0)]))
    if s.startswith('['):
        inner = s[1:match_close(s, 0)]
        ps = split_top(inner, ';')
        if len(ps) == 2:
            try:
                n = int(re.match(r'(\d+)', ps[1]).group(1))
            except AttributeError:
                n = ps[1]
            return ('arr', ptype(ps[0]), n)
        return ('slice', ptype(inner))
    if s.startswith(('dyn ', 'impl ', 'fn(', 'for<', '{', 'unsafe ', 'extern ')):
        return ('opaque', s)
    if s.startswith('<'):
        return ('proj', s)
    # a path
    segs = split_path(s)
    if segs[-1].startswith('<') and len(segs) > 1:
        last = segs[-2] + segs[-1]
    else:
        last = segs[-1]
    name, args = strip_turbofish(last)
    if not args:
        if len(segs) == 1 and name in GENERIC_NAMES:
            return ('param', name)
        return ('adt', name, ())
    al = [a for a in split_top(args[1:match_close(args, 0)]) if not re.fullmatch(r"'\w+", a)]
    m = re.fullmatch(r'Fixed([IU])(\d+)', name)
    if m and len(al) == 1:
        f = typenum(al[0])
        if f is not None:
            return ('fx', m.group(1), int(m.group(2)), f)
        return ('adt', name, (ptype(al[0]),))
    return ('adt', name, tuple(ptype(a) for a in al))


def tstr(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + tstr(t[2])
    if k == 'tup':
        return '(' + ', '.join(map(tstr, t[1:])) + ')'
    if k == 'fx':
        return 'Fixed%s%d<U%d>' % t[1:]
    if k == 'param':
        return t[1]
    if k == 'adt':
        return t[1] + ('<' + ', '.join(map(tstr, t[2])) + '>' if t[2] else '')
    if k == 'arr':
        return '[%s; %s]' % (tstr(t[1]), t[2])
    if k == 'slice':
        return '[%s]' % tstr(t[1])
    if k == 'abs':
        return t[1]
    return str(t[1]) if len(t) > 1 else str(t)


def subst(t, env):
    if isinstance(t, str) or not env:
        return t
    k = t[0]
    if k == 'param':
        return env.get(t[1], t)
    if k == 'ref':
        return ('ref', t[1], subst(t[2], env))
    if k == 'ptr':
        return ('ptr', subst(t[1], env))
    if k == 'tup':
        return ('tup',) + tuple(subst(x, env) for x in t[1:])
    if k == 'arr':
        return ('arr', subst(t[1], env), t[2])
    if k == 'slice':
        return ('slice', subst(t[1], env))
    if k == 'adt':
        a = tuple(subst(x, env) for x in t[2])
        if len(a) == 1 and a[0][0] == 'tn' and re.fullmatch(r'Fixed[IU]\d+', t[1]):
            return ('fx', t[1][5], int(t[1][6:]), a[0][1])
        return ('adt', t[1], a)
    return t


def unify(pat, t, env):
    """Match a declared type against an actual one, binding generic params."""
    if isinstance(pat, str):
        return pat == t
    k = pat[0]
    if k == 'param':
        if pat[1] in env:
            return env[pat[1]] == t
        env[pat[1]] = t
        return True
    if isinstance(t, str):
        return False
    if t[0] == 'wild':
        return True
    if t[0] == 'fx' and k == 'adt' and pat[1] == 'Fixed%s%d' % t[1:3] and len(pat[2]) == 1:
        return unify(pat[2][0], ('tn', t[3]), env)
    if k != t[0]:
        return False
    if k == 'ref':
        return (pat[1] == t[1] or t[1] is None) and unify(pat[2], t[2], env)
    if k == 'adt':
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    if k == 'tup':
        return len(pat) == len(t) and all(unify(a, b, env) for a, b in zip(pat[1:], t[1:]))
    if k == 'arr':
        return pat[2] == t[2] and unify(pat[1], t[1], env)
    if k == 'slice':
        return unify(pat[1], t[1], env)
    return pat == t


# --------------------------------------------------------------- source facts

class Source:
    """Facts read from the source text: generic names, struct field order,
    the text of an impl header at a span."""

    def __init__(self, root=None):
        self.root = root = root or REPO
        self.files = {}
        for d, _, fs in os.walk(os.path.join(root, 'src')):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    self.files[os.path.relpath(p, root)] = open(p, encoding='utf8').read()
        self.structs = {}
        names = set()
        for txt in self.files.values():
            t = re.sub(r'//[^\n]*', '', txt)
            for m in re.finditer(r'\bstruct\s+(\w+)\s*(<[^{;(]*>)?\s*(?:where[^{]*)?\{([^}]*)\}', t):
                fl = [x.split(':')[0].split()[-1] for x in split_top(m.group(3)) if ':' in x]
                self.structs[m.group(1)] = fl
            for m in re.finditer(r'\b(?:impl|(?:fn|struct|trait|enum)\s+\w+)\s*<', t):
                i = m.end() - 1
                try:
                    j = match_close(t, i)
                except Exception:
                    continue
                for g in split_top(t[i + 1:j]):
                    g = g.split(':')[0].split('=')[0].strip()
                    g = re.sub(r'^const\s+', '', g)
                    if re.fullmatch(r'[A-Za-z_]\w*', g):
                        names.add(g)
        GENERIC_NAMES.update(names)
        ptype.cache_clear()

    def impl_header(self, span):
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)$', span)
        f = m and os.path.relpath(m.group(1), self.root) if m and os.path.isabs(m.group(1)) else m and m.group(1)
        if f not in self.files:
            return ''
        lines = self.files[f].split('\n')
        a, b = int(m.group(2)) - 1, int(m.group(4)) - 1
        if a == b:
            return lines[a][int(m.group(3)) - 1:int(m.group(5)) - 1]
        seg = lines[a:b + 1]
        seg[-1] = seg[-1][:int(m.group(5)) - 1]
        seg[0] = seg[0][int(m.group(3)) - 1:]
        return '\n'.join(seg)


# --------------------------------------------------------------- functions

class Fn:
    __slots__ = ('name', 'short', 'params', 'ret', 'text', 'body', '_parsed', 'locals', 'blocks',
                 'impl_span', 'line', 'prog', 'fullname', 'owner', 'promoted')

    def __init__(self, header, text, prog):
        m = re.match(r'fn (.*)$', header, re.S)
        h = m.group(1)
        # name runs to the first top-level '('
        i, depth = 0, 0
        while True:
            c = h[i]
            if c == '-' and h[i + 1] == '>':
                i += 2; continue
            if c in '<[{':
                depth += 1
            elif c in '>]}':
                depth -= 1
            elif c == '(' and depth == 0:
                break
            i += 1
        self.name = h[:i]
        j = match_close(h, i)
        self.params = []
        for a in split_top(h[i + 1:j]):
            self.params.append(ptype(a.split(':', 1)[1]))
        r = h[j + 1:].strip()
        assert r.startswith('->'), header
        r = r[2:].rsplit('{', 1)[0].strip()
        self.ret = ptype(r)
        self.short = split_path(self.name)[-1]
        mm = re.search(r'<impl at ([^>]*)>', self.name)
        self.impl_span = mm.group(1) if mm else None
        self.text = text
        self._parsed = False
        self.prog = prog
        self.promoted = {}

    def parse(self):
        if self._parsed:
            return
        self.locals = {}
        self.blocks = {}
        cur = None
        for line in self.text:
            s = line.strip()
            if not s:
                continue
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
            if m:
                self.locals[int(m.group(1))] = ptype(m.group(2))
                continue
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                cur = []
                self.blocks[int(m.group(1))] = cur
                continue
            if s == '}':
                continue
            if cur is None or s.startswith(('debug ', 'scope ')):
                continue
            if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType',
                             'Retag', 'Coverage', 'ConstEvalCounter', 'BackwardIncompatibleDropHint')):
                continue
            cur.append(parse_stmt(s))
        for i, p in enumerate(self.params):
            self.locals.setdefault(i + 1, p)
        self.locals.setdefault(0, self.ret)
        self._parsed = True


# --------------------------------------------------------------- statements

def parse_place(s):
    """-> (local, (proj,...)) with proj in ('deref',), ('field',i), ('index',local),
    ('cindex',i,fromend), ('downcast',name)"""
    p, r = _place(s, 0)
    if s[r:].strip():
        raise Unsupported('place ' + s)
    return p


def _place(s, i):
    if s[i] == '(':
        if s[i + 1] == '*':
            (loc, pr), j = _place(s, i + 2)
            assert s[j] == ')', s
            p, j = (loc, pr + (('deref',),)), j + 1
        else:
            (loc, pr), j = _place(s, i + 1)
            if s[j] == '.':
                m = re.compile(r'\.(\d+)').match(s, j)
                k = match_close(s, i)
                p, j = (loc, pr + (('field', int(m.group(1))),)), k + 1
            elif s.startswith(' as ', j):
                k = match_close(s, i)
                v = s[j + 4:k]
                p, j = (loc, pr + (('downcast', v.split('(')[0].strip()),)), k + 1
            elif s[j] == ')':
                p, j = (loc, pr), j + 1
            else:
                raise Unsupported('place ' + s)
    else:
        m = re.compile(r'_(\d+)').match(s, i)
        if not m:
            raise Unsupported('place ' + s)
        p, j = (int(m.group(1)), ()), m.end()
    while j < len(s) and s[j] == '[':
        k = match_close(s, j)
        idx = s[j + 1:k]
        m = re.fullmatch(r'_(\d+)', idx)
        if m:
            pr = ('index', int(m.group(1)))
        else:
            m = re.fullmatch(r'(-?)(\d+) of (\d+)', idx)
            if not m:
                raise Unsupported('place ' + s)
            pr = ('cindex', int(m.group(2)), bool(m.group(1)))
        p, j = (p[0], p[1] + (pr,)), k + 1
    return p, j


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('use', parse_place(s[5:]))
    if s.startswith('move '):
        return ('use', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r'[_(]', s):
        return ('use', parse_place(s))
    if re.match(r'<|[A-Za-z]\w*(::|<)', s):
        return ('const', s)
    raise Unsupported('operand ' + s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge',
          'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'(\w+)\(', s)
    if m and m.group(1) in BINOPS and match_close(s, m.end() - 1) == len(s) - 1:
        a, b = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in ('Not', 'Neg') and s.endswith(')'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('PtrMetadata('):
        return ('ptrmeta', parse_operand(s[12:-1]))
    if s.startswith('CopyForDeref('):
        return ('op', ('use', parse_place(s[13:-1])))
    if s.startswith('&'):
        r = s[1:]
        mut = False
        for pre, mm in (('raw const ', False), ('raw mut ', True), ('mut ', True), ('fake ', False), ('shallow ', False)):
            if r.startswith(pre):
                r, mut = r[len(pre):], mm
                break
        if r.startswith('fake '):
            r = r[5:]
        return ('ref', mut, parse_place(r))
    if s.startswith(('copy ', 'move ', 'const ', 'no_retag ')):
        m = re.match(r'(.*) as (.*) \((\w+)(\(.*\))?\)$', s)
        if m:
            # make sure ` as ` is top level in the operand
            op = m.group(1)
            if op.count('(') == op.count(')') and op.count('<') == op.count('>'):
                return ('cast', parse_operand(op), ptype(m.group(2)), m.group(3))
        return ('op', parse_operand(s))
    if s.startswith('('):
        if match_close(s, 0) == len(s) - 1:
            return ('agg', 'tuple', None, None, [parse_operand(x) for x in split_top(s[1:-1])], None)
    if s.startswith('['):
        inner = s[1:match_close(s, 0)]
        ps = split_top(inner, ';')
        if len(ps) == 2:
            return ('repeat', parse_operand(ps[0]), ps[1])
        return ('agg', 'array', None, None, [parse_operand(x) for x in split_top(inner)], None)
    if s.startswith('{closure') or s.startswith('{coroutine'):
        k = match_close(s, 0)
        rest = s[k + 1:].strip()
        ops = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                ops.append(parse_operand(f.split(':', 1)[1]))
        return ('agg', 'closure', s[:k + 1], None, ops, None)
    m = re.match(r'(.*?) as (.*) \((PointerCoercion)\(.*\)\)$', s)
    if m and not m.group(1).startswith('<'):        # a function item made a pointer
        return ('cast', parse_operand(m.group(1)), ptype(m.group(2)), m.group(3))
    # ADT aggregate:  path { a: op, .. } | path(op, ..) | path
    if s.endswith('}'):
        # find opening brace at top level (types may contain <>)
        i = 0
        depth = 0
        while True:
            c = s[i]
            if c in '<([':
                depth += 1
            elif c in '>)]':
                depth -= 1
            elif c == '{' and depth == 0:
                break
            i += 1
        path = s[:i].strip()
        names, ops = [], []
        for f in split_top(s[i + 1:-1]):
            a, b = f.split(':', 1)
            names.append(a.strip()); ops.append(parse_operand(b))
        return ('agg', 'adt', path, names, ops, None)
    if s.endswith(')'):
        i, depth = 0, 0
        while True:
            c = s[i]
            if c in '<[{':
                depth += 1
            elif c in '>]}':
                depth -= 1
            elif c == '(' and depth == 0:
                break
            i += 1
        return ('agg', 'adt', s[:i].strip(), None, [parse_operand(x) for x in split_top(s[i + 1:-1])], None)
    if re.match(r'[A-Za-z_<]', s):
        return ('agg', 'adt', s, None, [], None)
    raise Unsupported('rvalue ' + s)


def parse_targets(s):
    """`[0: bb1, otherwise: bb2]` or `bb3` or `[return: bb1, unwind continue]`"""
    d = {}
    s = s.strip()
    if s.startswith('['):
        for x in split_top(s[1:match_close(s, 0)]):
            if ':' in x:
                a, b = x.split(':')
                d[a.strip()] = int(b.strip()[2:]) if b.strip().startswith('bb') else b.strip()
    elif s.startswith('bb'):
        d['return'] = int(s[2:])
    return d


def parse_stmt(s):
    if not s.endswith(';'):
        raise Unsupported('statement ' + s)
    s = s[:-1]
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s == 'return':
        return ('return',)
    if s in ('unreachable', 'resume') or s.startswith(('terminate', 'abort', 'resume')):
        return ('unreachable',)
    if s.startswith('switchInt('):
        j = match_close(s, 9)
        t = parse_targets(s[j + 1:].strip()[2:])
        return ('switch', parse_operand(s[10:j]), t)
    if s.startswith('assert('):
        j = match_close(s, 6)
        args = split_top(s[7:j])
        t = parse_targets(s[j + 1:].strip()[2:])
        c = args[0]
        neg = c.startswith('!')
        return ('assert', parse_operand(c[1:] if neg else c), not neg, args[1], t['success'])
    if s.startswith('drop('):
        j = match_close(s, 4)
        t = parse_targets(s[j + 1:].strip()[2:])
        return ('goto', t['return'])
    if s.startswith(('falseEdge', 'falseUnwind')):
        m = re.search(r'real: bb(\d+)', s)
        return ('goto', int(m.group(1)))
    if s.startswith('discriminant('):
        m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    # assignment / call
    m = re.match(r'(.*?) = (.*)$', s)
    if not m or not re.match(r'[_(]', s):
        # diverging call without destination?
        k = s.rfind(') -> ')
        if k > 0:
            return parse_call(None, s)
        raise Unsupported('statement ' + s)
    # the place cannot contain ' = ' except in types; places are simple enough
    dst = m.group(1)
    rv = m.group(2)
    k = rv.rfind(') -> ')
    if k > 0 and re.match(r'(\[|bb|unwind)', rv[k + 5:]):
        return parse_call(parse_place(dst), rv)
    return ('assign', parse_place(dst), parse_rvalue(rv))


def parse_call(dst, rv):
    k = rv.rfind(') -> ')
    t = parse_targets(rv[k + 5:])
    call = rv[:k + 1]
    # opening paren matching the final ')'
    i, depth, n = 0, 0, len(call)
    while i < n:
        c = call[i]
        if c == '-' and call[i:i + 2] == '->':
            i += 2; continue
        if c in '<[{':
            depth += 1
        elif c in '>]}':
            depth -= 1
        elif c == '(' and depth == 0:
            if match_close(call, i) == n - 1:
                break
            i = match_close(call, i)
        i += 1
    callee = call[:i].strip()
    args = [parse_operand(a) for a in split_top(call[i + 1:-1])]
    return ('call', dst, callee, args, t.get('return'))


# --------------------------------------------------------------- program

class Program:
    def __init__(self, text, source):
        self.source = source
        self.fns = []
        self.by_short = {}
        self.consts = []         # (name, type, body lines | one-line value)
        self.allocs = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        recent = []
        while i < n:
            ln = lines[i]
            if ln.startswith('fn '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                hdr = ln
                if i and lines[i - 1].startswith('// MIR FOR CTFE') and hdr in recent[-6:]:
                    i = j + 1           # a const fn is written twice; this is the body the compiler evaluates
                    continue
                recent.append(hdr)
                try:
                    f = Fn(hdr, lines[i + 1:j], self)
                    f.line = i + 1
                    self.fns.append(f)
                    self.by_short.setdefault(f.short, []).append(f)
                except (AssertionError, AttributeError, MirError):
                    pass
                i = j
            elif ln.startswith(('const ', 'static ', 'promoted')) or re.match(r'(const )?.*promoted\[\d+\] in', ln):
                j = i
                m = re.match(r'(?:const|static(?: mut)?) ((?:<impl at [^>]*>|::|[^:<]|<(?!impl at ))*): (.*?) = (.*)$', ln)
                if ln.rstrip().endswith('{'):
                    j = i + 1
                    while j < n and lines[j] != '}':
                        j += 1
                if m:
                    one = m.group(3).rstrip()
                    rec = (m.group(1), m.group(2), lines[i + 1:j] if one == '{' else one.rstrip(';'))
                    self.consts.append(rec)
                    own, _, last = m.group(1).rpartition('::')
                    if self.fns and self.fns[-1].name == own:
                        self.fns[-1].promoted[last] = rec
                i = j
            elif ln.startswith('alloc'):
                m = re.match(r'(alloc\d+) \((.*)\) \{', ln)
                j = i
                body = []
                if not ln.endswith('{}'):
                    j = i + 1
                    while lines[j] != '}':
                        body.append(lines[j]); j += 1
                if m:
                    self.allocs[m.group(1)] = (ln, body)
                i = j
            i += 1

    def closures(self, text, parent=None):
        """The bodies of the closure of that type (several instances of a macro share the name and the span: each
        closure follows the function that creates it, one between two functions of the name)."""
        if not hasattr(self, '_closures'):
            self._closures, self._parents, seen, order = {}, {}, {}, {}
            for f in self.fns:
                seen[f.name] = f
                if '{closure#' in f.short and f.params:
                    t = f.params[0][2] if f.params[0][0] == 'ref' else f.params[0]
                    self._closures.setdefault(t, []).append(f)
                    up = f.name.rsplit('::', 1)[0]
                    if up in seen:
                        self._parents[f.line] = seen[up].line
                        order.setdefault(f.name, []).append(seen[up].line)
            for n, ls in order.items():
                if len(set(ls)) != len(ls) or len(ls) != sum(1 for f in self.fns if f.name == n.rsplit('::', 1)[0]):
                    for f in self.fns:
                        if f.name == n:
                            self._parents.pop(f.line, None)
        fs = self._closures.get(ptype(text), [])
        if parent is not None and len(fs) > 1:
            mine = [f for f in fs if self._parents.get(f.line) == parent]
            if len(mine) == 1:
                return mine
        return fs

    def find(self, short, params=None, ret=None, pred=None):
        """Local functions called `short` whose signature unifies."""
        out = []
        for f in self.by_short.get(short, []):
            if pred and not pred(f):
                continue
            if params is not None:
                if len(params) != len(f.params):
                    continue
                env = {}
                if not all(unify(a, b, env) for a, b in zip(f.params, params)):
                    continue
                if ret is not None and not unify(f.ret, ret, env):
                    continue
                out.append((f, env))
            else:
                out.append((f, {}))
        return out
