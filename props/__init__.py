"""Registry: property id -> contracts and what they rest on."""
from . import complexp, realp, fmtp, loopp, nump

BASE = [
    'rustc nightly front end: type checking, macro expansion and MIR building of the unmodified crate (debug assertions and overflow checks on)',
    'mirvc (this repository): MIR parser, symbolic executor, ring normaliser',
    'z3 (python wheel of the tooling environment)',
]
ABSTRACT = ['component types implement + - * / and comparison as functions of their operands (uninterpreted); impls for the library\'s own types are the subject of C08-C19']


class P:
    def __init__(self, fn, trusted=(), assumptions=(), tiered=False, always_replay=False, dep=()):
        self.dep = tuple(dep)       # contracts assumed of the fixed crate that are discharged from its own source
        self.fn, self.trusted, self.assumptions = fn, BASE + list(trusted), list(assumptions)
        self.tiered, self.always_replay = tiered, always_replay


GEN = dict(assumptions=ABSTRACT)
FXT = ['the fixed crate: arithmetic, comparison, from_num, to_num, abs, sign predicates as documented (exact or panicking in debug builds), as far as coverage.dependency_contracts does not list them discharged from its source']
LOOP = 'mirvc loop engine: invariants are inferred, proved inductive and only then assumed; termination by a strictly monotone counter or a minimal step within a bounded range'
PROPS = {
    'C01': P(complexp.c01, **GEN),
    'C02': P(complexp.c02, **GEN),
    'C03': P(complexp.c03, **GEN),
    'C04': P(complexp.c04, **GEN),
    'C05': P(complexp.c05, **GEN),
    'C06': P(complexp.c06, **GEN),
    'C07': P(complexp.c07, **GEN),
    'C08': P(realp.c08),
    'C09': P(realp.c09, trusted=FXT, dep=('conv',)),
    'C10': P(loopp.c10, dep=('arith',), trusted=FXT + ['num FloatCore::powi: the n-fold product, its reciprocal for a negative exponent, up to rounding', LOOP],
             assumptions=['exponents of integer and fixed-point powers are not negative (a negative one makes the loop run for about 2^64 iterations)']),
    'C11': P(loopp.c11, dep=('arith',), trusted=FXT + ['IEEE-754 arithmetic: every operation rounds to nearest, hence monotone', LOOP],
             assumptions=['floats: |x| <= 1e5']),
    'C12': P(nump.c12, dep=('arith',), trusted=FXT + ['IEEE-754 arithmetic', 'mirvc rounding-error analysis (exact rationals)', LOOP],
             assumptions=['accuracy and more than two iterations in fixed point: F >= 8; the most negative value of a signed type is excluded (its magnitude is not representable)',
                          'floats: finite', 'at least two iterations; rounding: 20 d max(s,1) + 2 d for a root s in fixed point, 64 eps for floats']),
    'C13': P(nump.c13, dep=('arith',), trusted=FXT + ['IEEE-754 arithmetic', 'num FloatCore::powi: the product up to twice the error of the plain product', 'mirvc rounding-error analysis (exact rationals)',
                                       'Taylor remainder of sine; 50 digits of pi'],
             assumptions=['cosine of floats: |x| <= 99990', 'rounding: 40 (sine) or 60 + |x| (cosine) units in the last place for fixed point, 16 eps or eps (48 + 8|x| + x^2) for floats']),
    'C14': P(nump.c14, dep=('arith',), trusted=FXT + ['IEEE-754 arithmetic', 'num FloatCore::powi(2) = one product', 'mirvc rounding-error analysis (exact rationals)',
                                       'addition theorem and alternating series of arctangent; 50 digits of pi'],
             assumptions=['fixed point: F >= 8, the larger magnitude m satisfies m^2 >= 64 units in the last place; rounding: 8 d + 4 d / m^2',
                          'floats: no square overflows or underflows (the analysis is invariant under scaling by powers of two); rounding: 16 eps']),
    'C15': P(realp.c15, dep=('arith',), trusted=FXT + ['core: integer and float abs, signum predicates']),
    'C16': P(realp.c16, dep=('floats',), trusted=FXT + ['IEEE-754 rounding of literals by rustc, recomputed with exact rationals']),
    'C17': P(realp.c17, trusted=['libm: the named functions']),
    'C18': P(realp.c18, trusted=['libm: log10, exp10 of either precision', 'IEEE-754 arithmetic']),
    'C19': P(realp.c19, trusted=['cordic: the named functions']),
    'C20': P(fmtp.c20, trusted=['core::fmt: Formatter flags and options, write_str/write_fmt, placeholders of format_args! templates; the text of a component is whatever its own formatting trait prints'],
             assumptions=ABSTRACT + ['a component is ordered against zero as in every implementing type (trichotomy, or none of <, >, == for a NaN)']),
    'C21': P(complexp.c21, trusted=['core: PartialEq, PartialOrd, Clone and Default of a component are functions of its value'],
             assumptions=ABSTRACT + ['of <, == and > at most one holds between two components, and partial_cmp agrees with them (as in every implementing type)',
                                     'the default value of a component type is its zero, a clone is the value itself']),
}

TECH = {'*': 'contracts on the real functions, obligations generated from rustc MIR by symbolic execution, discharged by term identity, z3 and a ring normaliser'}
G = ('Every obligation is generated from the MIR of the current tree and discharged for all inputs, for the generic '
     'function over an arbitrary component type. Assumes the component operations are functions of their operands; trusts '
     'rustc, the MIR executor and z3. An obligation not discharged is replayed natively (bounded, labelled so).')
R = ('Every implementing type is under contract and every obligation discharged for all inputs. Assumes the documented '
     'behaviour of core, fixed, libm or cordic where named in the evidence; trusts rustc, the MIR executor and z3.')
NOTES = {k: G for k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')}
NOTES.update({k: R for k in ('C08', 'C09', 'C15', 'C16', 'C17', 'C18', 'C19')})
NOTES['C21'] = G
NOTES['C20'] = ('All eight formatting impls executed over an arbitrary component type with every combination of formatter flags and failing writes; text compared piece by piece for all inputs. Trusts core::fmt and the MIR executor. Not covered: width, fill.')

NOTES['C10'] = ('The loop of trigonometry::powi is cut at an inferred invariant (value = base^(1+k)) proved inductive, for an arbitrary type and for every implementing type; every mixed_powi is checked against the n-fold product for all bases and exponents >= 0. Trusts FloatCore::powi for the float methods.')
NOTES['C11'] = ('Both loops cut at proved invariants (phase = start + 2 pi k), all 112 signed fixed-point types exactly for all bit patterns; f32 and f64 for |x| <= 1e5 by interval and rounding-error analysis: termination, range, congruence up to the rounding of each turn.')
NOTES['C12'] = ('For every argument of each type with F >= 8 and any number n >= 2 of iterations (two iterations and no accuracy for F < 8): all three loops cut at invariants that are inferred and proved (x = x0 4^-k, |y - sqrt x| <= E, y = y0 2^k, counters equal and of one sign), with rounding and intermediate ranges bounded in exact rationals. mixed_niirf and the fixed-point mixed_sqrt from the contract of niirf.')
NOTES['C13'] = ('For every argument of each of the 34 types: the executed polynomial is enclosed against the Taylor expansion of sine by Bernstein coefficients in exact rationals, plus a rigorous bound of every rounding and of every intermediate range. Cosine from the contracts of wrap_phase (C11) and sine.')
NOTES['C14'] = ('Every octant, diagonal and axis of each of the 98 types executed symbolically; the resulting rational function of the ratio is enclosed against arctangent on 256 segments with a derivative bound, rounding and intermediate ranges bounded for every magnitude. atan and mixed_atan2_poly from the contract of atan2.')
