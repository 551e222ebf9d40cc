"""core::fmt as an assumed contract: a Formatter is the list of pieces written.

`format_args!` templates are decoded from the byte string the compiler emitted
(encoding documented in core/src/fmt/mod.rs).  The options of the formatter
(precision, alternate, sign_plus, ...) are free symbolic values.  Every write
may fail: the failing continuation is followed too."""
import struct
from .mir import Unsupported
from .terms import TRUE, var, mk
from .exec import Agg, Ref, Str, FnItem, Outcome, UNIT, some, none, typeof
from .models import Ctx

ARGS_T = ('adt', 'Arguments', ())
ARG_T = ('adt', 'Argument', ())
FMT_T = ('adt', 'Formatter', ())
ERR_T = ('adt', 'Error', ())
RES_T = ('adt', 'Result', (('tup',), ERR_T))
KINDS = {'new_display': 'Display', 'new_lower_exp': 'LowerExp', 'new_upper_exp': 'UpperExp', 'new_lower_hex': 'LowerHex',
         'new_upper_hex': 'UpperHex', 'new_octal': 'Octal', 'new_binary': 'Binary', 'new_debug': 'Debug'}
FLAGS = {'alternate': 'fm_alt', 'sign_plus': 'fm_plus', 'sign_minus': 'fm_minus', 'sign_aware_zero_pad': 'fm_zero'}


class Out:
    """What has been written so far."""
    __slots__ = ('pieces',)
    ty = ('opaque', 'out')

    def __init__(self, pieces=()):
        self.pieces = pieces

    def __repr__(self):
        return ' '.join(repr(p) for p in self.pieces)

    def __eq__(self, o):
        return isinstance(o, Out) and self.pieces == o.pieces

    def __hash__(self):
        return hash(self.pieces)

    def add(self, ps):
        out = list(self.pieces)
        for p in ps:
            if p[0] == 'lit':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        return Out(tuple(out))


def formatter(st):
    return Ref(st.alloc(Agg(FMT_T, (Out(),))), (), True)


def decode(tpl, args, deref):
    """Template bytes + arguments -> pieces."""
    out, i, k = [], 0, 0
    while True:
        n = tpl[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(('lit', bytes(tpl[i:i + n])))
            i += n
            continue
        if n == 0x80:
            ln, = struct.unpack_from('<H', tpl, i)
            out.append(('lit', bytes(tpl[i + 2:i + 2 + ln])))
            i += 2 + ln
            continue
        flags, width, prec = 0xE0000020, None, None
        if n & 1:
            flags, = struct.unpack_from('<I', tpl, i)
            i += 4
        if n & 2:
            width, = struct.unpack_from('<H', tpl, i)
            i += 2
        if n & 4:
            prec, = struct.unpack_from('<H', tpl, i)
            i += 2
        if n & 8:
            k, = struct.unpack_from('<H', tpl, i)
            i += 2

        def num(x):
            a = args[x]
            if a.variant != 'usize':
                raise Unsupported('indirect width or precision')
            return deref(a.fields[0])
        if n & 16:
            width = num(width)
        elif width is not None:
            width = mk('const', (), 'usize', width)
        if n & 32:
            prec = num(prec)
        elif prec is not None:
            prec = mk('const', (), 'usize', prec)
        a = args[k]
        k += 1
        # the width and precision bits of the flags are implied by the fields
        v = deref(a.fields[0])
        custom = n != 0xC0 and n != 0xC8
        if isinstance(v, Agg) and v.ty == ARGS_T and a.variant == 'Display':
            out += pieces(v, deref)
        elif isinstance(v, Str) and a.variant == 'Display' and not custom:
            out.append(('lit', raw(v)))
        elif getattr(v, 'op', None) == 'const' and v.ty == 'char' and a.variant == 'Display' and not custom:
            out.append(('lit', chr(v.val).encode('utf8')))
        else:
            sf = (flags & 0x1FFFFF, (flags >> 21) & 0x3F) if n & 1 else None
            # bits 21.. : + - # 0 x? X?, then width/precision presence and alignment
            out.append(('fmt', a.variant, v, prec, width, norm_flags(flags, width, prec) if n & 1 else None))


def norm_flags(flags, width, prec):
    """Options other than width/precision presence; None when all default."""
    sem = (flags >> 21) & 0x3F          # + - # 0 debug-x debug-X
    fill, align = flags & 0x1FFFFF, (flags >> 29) & 3
    if not sem and (fill, align) in ((0x20, 3), (0x20, 0)) or (not sem and width is None):
        return None
    return (sem, fill, align)


def raw(v):
    d = v.data
    return d if isinstance(d, bytes) else d.encode('utf8')


def pieces(v, deref):
    tpl, arr = v.fields
    if arr is None:
        return [('lit', raw(tpl))]
    return decode(raw(tpl), [deref(x) for x in arr.fields], deref)


class FmtCtx(Ctx):
    def __init__(self):
        super().__init__()
        self.n_io = 0

    def write(self, ex, st, f, ps):
        self.note('core::fmt::Formatter: writes append to the output or fail')
        tgt = self.target(st, f)
        self.n_io += 1
        e = var('io_error_%d' % self.n_io, 'bool')
        bad = st.fork()
        bad.assume(e)
        fm = st.load(tgt)
        st.store(tgt, Agg(FMT_T, (fm.fields[0].add(ps),) + fm.fields[1:]))
        return [Outcome('ret', st, Agg(RES_T, (UNIT,), 'Ok')),
                Outcome('ret', bad, Agg(RES_T, (Agg(ERR_T, ()),), 'Err'))]

    def extra(self, ex, fr, st, c, args, d, rty):
        n = c.name

        def deref(v):
            while isinstance(v, Ref):
                v = st.load(v)
            return v

        def ret(v):
            return [Outcome('ret', st, v)]
        owner = [x for x in c.segs if not x.startswith('<')]
        isf = bool(d) and isinstance(d[0], Agg) and d[0].ty == FMT_T
        if n in KINDS and 'Argument' in owner:
            return ret(Agg(ARG_T, (args[0],), KINDS[n]))
        if n == 'from_usize' and 'Argument' in owner:
            return ret(Agg(ARG_T, (args[0],), 'usize'))
        if n == 'new' and 'Arguments' in owner:
            return ret(Agg(ARGS_T, (deref(args[0]), Agg(typeof(d[1]), [deref(x) for x in d[1].fields]))))
        if n in ('from_str', 'from_str_nonconst', 'new_const') and 'Arguments' in owner and isinstance(d[0], Str):
            return ret(Agg(ARGS_T, (d[0], None)))
        if isf and n in FLAGS:
            self.note('core::fmt::Formatter::' + n)
            return ret(var(FLAGS[n], 'bool'))
        if isf and n in ('precision', 'width'):
            self.note('core::fmt::Formatter::' + n)
            has, val = var('fm_has_' + n, 'bool'), var('fm_' + n, 'usize')
            a, b = st.fork(), st.fork()
            a.assume(has)
            b.assume(mk('not', (has,), 'bool'))
            out = []
            for s, v in ((a, some(val)), (b, none('usize'))):
                if ex.is_feasible(s):
                    out.append(Outcome('ret', s, v))
            return out
        if isf and n == 'write_fmt' and isinstance(d[1], Agg) and d[1].ty == ARGS_T:
            return self.write(ex, st, args[0], pieces(d[1], deref))
        if isf and n == 'write_str' and isinstance(d[1], Str):
            return self.write(ex, st, args[0], [('lit', raw(d[1]))])
        if isf and n == 'write_char' and d[1].op == 'const':
            return self.write(ex, st, args[0], [('lit', chr(d[1].val).encode('utf8'))])
        if c.kind == 'trait' and c.trait in KINDS.values() and n == 'fmt' and len(d) == 2 and isinstance(d[1], Agg) and d[1].ty == FMT_T:
            if isinstance(d[0], Agg) and d[0].ty == ARGS_T:
                return self.write(ex, st, args[1], pieces(d[0], deref))
            if not isinstance(d[0], (Agg, Str)):
                return self.write(ex, st, args[1], [('fmt', c.trait, d[0], 'inherited', None, None)])
        if c.kind == 'trait' and c.trait == 'Try' and n == 'branch' and isinstance(d[0], Agg) and d[0].variant in ('Ok', 'Err'):
            t = ('adt', 'ControlFlow', ())
            return ret(Agg(t, d[0].fields, 'Continue') if d[0].variant == 'Ok' else Agg(t, (d[0],), 'Break'))
        if c.kind == 'trait' and c.trait == 'FromResidual' and isinstance(d[0], Agg) and d[0].variant == 'Err':
            return ret(d[0])
        return None
