import json
P=[]
def p(id,title,statement,over,q,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=state
    P.append(d)
CX='src/complex.rs'; CI='src/complex/cartesian_impl.rs'; PI='src/complex/polar_impl.rs'; OP='src/complex/ops.rs'; TR='src/trigonometry.rs'
AT='src/trigonometry/atan.rs'; SQ='src/trigonometry/sqrt.rs'; FX='src/fixed_impl.rs'; FL='src/float_impl.rs'; II='src/int_impl.rs'
F32='src/float_impl/f32_impl.rs'; F64='src/float_impl/f64_impl.rs'; NC='src/complex/cartesian_impl/num_complex_impl.rs'
p('C01','Complex addition and subtraction are componentwise in every operator form',
 'Adding or subtracting two Cartesian complex numbers adds or subtracts the real parts and the imaginary parts independently, in the arithmetic of the component type, and the result is the same whichever form is used: by value, by shared or mutable reference, the compound-assignment form, the free functions, or with a num::Complex right-hand side. Adding or subtracting a real scalar (converted to the component type) changes only the real part. Nothing but the left-hand side of a compound assignment is modified.',
 ['inputs','programs'],'every component type, every pair of operands whose component sums/differences are representable, every operator form and operand kind',
 'The tests add a scalar in a handful of f32 examples; no test exercises complex-complex addition, subtraction or any compound assignment between complex numbers, and none quantifies over operands or component types.',
 [CI,OP],[('impl Add/AddAssign/Sub/SubAssign for Cartesian<T> (macro impl_core_ops_add_sub_for_cartesian)',CI),('scalar Add/AddAssign/Sub/SubAssign',CI),('ops::add, ops::sub',OP)],
 ['return value of +,-,add,sub','left operand after += and -='],[dict(name='re, im',meaning='components of the left operand of a compound assignment',where='src/complex.rs')])
p('C02','Complex multiplication follows (ac-bd, ad+bc) in every operator form',
 'Multiplying two Cartesian complex numbers a+bi and c+di yields (ac-bd) + (ad+bc)i in the arithmetic of the component type, identically for value, reference, mutable-reference and free-function forms. Multiplying by a real scalar multiplies both components by the converted scalar. Multiplying (or multiply-assigning) by a polar number multiplies by that number\'s Cartesian form.',
 ['inputs','programs'],'every component type, all operands whose products and sums are representable, every operator form and operand kind',
 'Tests square one f32 number and scale two; the reference, mutable-reference and polar-operand impls are only compiled or spot-checked, never compared with the formula over their inputs.',
 [CI,OP],[('ops::mul_cartesian',OP),('impl Mul/MulAssign for Cartesian<T>',CI)],['return value of *, mul_cartesian','left operand after *='])
p('C03','Complex division implements the quotient, and division by zero saturates',
 'Dividing a Cartesian number a+bi by a Cartesian number (or num::Complex) c+di yields ((ac+bd)/(c^2+d^2), (bc-ad)/(c^2+d^2)) in the arithmetic of the component type, for the value, reference, mutable-reference, free-function and assignment forms alike. Dividing by a real scalar divides both components by the scalar converted to the component type. When that scalar is zero in the component type, both components of the result are the type\'s maximum value and nothing panics.',
 ['inputs','programs'],'every component type, all dividends and divisors (including scalars that are zero or round to zero), every operator form',
 'The tests divide one f32 number by 2; no test divides by a complex number with a non-zero imaginary part or by zero, so the formula and the zero guard are untested for almost all inputs.',
 [CI,OP],[('macro impl_core_ops_div_cartesian_for_cartesian',CI),('scalar Div/DivAssign',CI),('ops::div_cartesian, ops::div_scalar_cartesian',OP)],['return value of /','left operand after /='])
p('C04','Polar multiplication and division act on magnitude and angle',
 'Multiplying two polar numbers multiplies their magnitudes and adds their angles, except that when either magnitude is zero the result is zero magnitude with zero angle. Multiplying by a Cartesian number multiplies by its polar form. Multiplying or dividing a polar number by a real scalar scales the magnitude and leaves the angle unchanged, and dividing by zero gives the maximum magnitude with the angle unchanged.',
 ['inputs'],'every component type and all operands whose results are representable, including zero magnitudes and zero divisors',
 'No test multiplies or divides polar numbers over more than isolated examples, and none reaches zero magnitude or a zero divisor.',
 [PI,OP],[('ops::mul_polar',OP),('impl Mul/Div for Polar<T>',PI)],['return value of * and / on Polar'])
p('C05','Coordinate conversions, magnitude, argument and conjugate are consistent',
 'Converting Cartesian to polar gives magnitude sqrt(re^2+im^2) and angle atan2(im, re); converting polar to Cartesian gives (mag*cos(w), mag*sin(w)) for the angle w wrapped into [-pi,pi); both with the component type\'s own sqrt, atan2, sine and cosine, and the constructors from Cartesian or polar coordinates agree with these conversions and are the identity for their own form. Magnitude, absolute value and argument accessors return those same quantities (the stored ones for polar numbers, and absolute value as a complex number has zero imaginary part or angle). The conjugate negates exactly the imaginary part (or the angle).',
 ['inputs','programs'],'every component type and all component values whose intermediate results are representable',
 'Tests check a few points with string comparison of printed digits; no test covers all quadrants, both representations and every accessor.',
 [OP,CI,PI],[('ops::to_polar, ops::to_cartesian, ops::abs',OP),('ToCartesian, ToPolar, NewFromCartesian, NewFromPolar, Mag, Arg, Conj, MixedAbs impls',CI),('the same impls for Polar',PI)],['return values'])
p('C06','Complex exponential and integer power follow their defining formulas',
 'The exponential of a Cartesian number a+bi is (exp(a)cos(b), exp(a)sin(b)), and raising it to a non-negative integer power n is (r cos(p), r sin(p)) with r = sqrt(a^2+b^2)^n and p = n*atan2(b,a), using the component type\'s own exp, sqrt, atan2, sine and cosine. Power zero therefore has magnitude one and angle zero.',
 ['inputs'],'every component type the functions accept, all inputs whose intermediate results are representable, all exponents',
 'Tests evaluate the exponential at three f32 points (one of them failing at the base commit) and the power at one fixed-point input with exponent 2.',
 [CI,OP],[('impl MixedExp for Cartesian<T>',CI),('ops::powi',OP)],['return values'])
p('C07','Real/complex conversions and the zero and one constants agree',
 'Converting a real number to a complex number (either representation, from the same or another numeric type) keeps the value as real part or magnitude and sets the imaginary part or angle to zero; converting complex to complex converts each component separately; converting complex to real takes the real part, or the magnitude for polar numbers. The complex zero is (0,0) and the complex one is (1,0).',
 ['inputs','programs'],'every supported pair of numeric types and all values',
 'Two doc examples convert the constants 1 and 2; the roughly 3400 real/complex conversion impls and the polar and complex-to-complex ones are otherwise never executed.',
 [CI,PI,FX,FL],[('MixedNumConversion for Cartesian<T> / Polar<T>, MixedNumConversion<Cartesian<_>> for f32, f64 and fixed types',CI),('MixedComplexConversion, MixedZero, MixedOne',PI)],['return values'])
p('C08','Primitive numeric conversions behave exactly like Rust `as` casts',
 'For every ordered pair of primitive numeric types (all integer widths, signed and unsigned, f32 and f64), converting a value in either direction (from_num or to_num) yields exactly what Rust\'s `as` cast yields: integer to integer truncates or extends modulo 2^n, float to integer truncates toward zero and saturates with NaN becoming zero, integer to float and f64 to f32 round to nearest even.',
 ['inputs','programs'],'all 196 ordered type pairs, both directions, all values including extremes, infinities and NaN',
 'Tests convert a handful of small constants between a few types.',
 [II,FL],[('macro impl_mixed_num_conversion (integers)',II),('macro impl_mixed_num_conversion (floats)',FL)],['return values of mixed_from_num and mixed_to_num'])
p('C09','Fixed-point conversions are exact or correctly rounded and never wrap silently',
 'For every fixed-point type the library supports and every primitive numeric type, converting to fixed point gives the value exactly when it is representable, floats round to the nearest representable value (ties to even) and integers are never altered, and a value outside the range panics in debug builds rather than producing a number. Converting from fixed point to an integer takes the floor of the value, and to a float rounds to nearest, each panicking in debug builds when out of range.',
 ['inputs','programs'],'all 224 fixed-point types, 14 primitive types, both directions, all values',
 'Tests use a few constants with three or four of the 224 fixed-point types.',
 [FX],[('macro impl_mixed_num_conversion instantiated by impl_mixed_num_for_fixed',FX)],['return values of mixed_from_num and mixed_to_num'])
p('C10','Integer power is repeated multiplication',
 'Raising a number of any supported real type to a non-negative integer power n gives the n-fold product of the base, computed in that type\'s arithmetic, with power zero giving one and power one giving the base. For floating-point types a negative power gives the reciprocal of the positive power.',
 ['inputs'],'all primitive and fixed-point types, all bases, all exponents n >= 0 (and n < 0 for floats) whose products are representable',
 'The tests raise -2 to the second power and use small odd powers inside the sine polynomial; the loop over the exponent is not covered for other counts.',
 [TR,II,FX,FL],[('trigonometry::powi loop',TR),('MixedPowi impls',II),('MixedPowi impls for fixed and float',FX)],['return value of mixed_powi and trigonometry::powi'])
p('C11','Phase wrapping lands in [-pi,pi) and preserves the angle modulo 2*pi',
 'Wrapping a phase terminates and returns a value w with -pi <= w < pi (pi being the type\'s own pi constant), differing from the input by an integer multiple of twice that pi, and returns the input unchanged when it is already in range. This holds for every value of every signed fixed-point type exactly and without overflow, and for f32 and f64 inputs of magnitude up to 10^5 up to accumulated rounding.',
 ['inputs'],'all 112 signed fixed-point types and all their bit patterns; f32 and f64 inputs with |x| <= 10^5; any number of wraps',
 'One doc test wraps the value 6 once; tests never reach the lower boundary, the upper boundary, several wraps, or other types (the widest-fraction types panicked on every input).',
 [TR,FX,FL],[('trigonometry::wrap_phase loops',TR),('MixedWrapPhase impls',FX)],['return value of mixed_wrap_phase, trigonometry::wrap_phase'])
p('C12','NIIRF square root is accurate, total on its domain and terminates',
 'For every type and every non-zero input the recursive square root with two iterations terminates and returns the square root of the absolute value of the input to within 0.6 % relative error plus the rounding of the type (for floats and for fixed-point types with at least 8 fractional bits), and exactly zero for zero. Negative inputs give the same result as their absolute value. More generally with n >= 2 iterations, the error bound does not degrade.',
 ['inputs'],'f32 and f64 inputs that are finite, all fixed-point types of the library with at least 8 fractional bits and all bit patterns other than the signed minimum, n >= 2 iterations',
 'Tests look at three inputs of one fixed-point type.',
 [SQ,FX,F32,F64],[('niirf normalisation loop, beta lookup table, iteration, denormalisation loop',SQ),('MixedSqrt::mixed_niirf, mixed_sqrt impls',FX)],['return value of niirf, mixed_niirf, fixed-point mixed_sqrt'])
p('C13','Polynomial sine and cosine stay close to the true functions',
 'The polynomial sine differs from the true sine by less than 4e-6 plus rounding for every argument in [-pi, pi], and the polynomial cosine differs from the true cosine by less than 4e-6 plus rounding for every argument the phase wrap accepts. Arguments beyond +-pi/2 are folded onto the accurate range.',
 ['inputs'],'f32, f64 and signed fixed-point types with at least 21 integer bits and 12 fractional bits, all arguments in range',
 'Tests compare three points of f32 and plot a curve without asserting on it.',
 [TR],[('trigonometry::sin fold and polynomial',TR),('trigonometry::cos',TR)],['return values of trigonometry::sin and cos'])
p('C14','Polynomial atan2 picks the right quadrant and stays within its error bound',
 'The polynomial four-quadrant arctangent of (y,x) is within 0.0052 rad (0.3 degrees) plus rounding of the true angle in all eight octants, and is exactly 0 for y=0 and x>=0 (including the origin), pi for y=0 and x<0 (a floating-point negative zero counting as negative), and pi/2 or -pi/2 for x=0 with y positive or negative (in the type\'s own pi). The polynomial arctangent of x equals the four-quadrant one at (x,1).',
 ['inputs'],'f32, f64 and signed fixed-point types, all (y,x) for which the sum of the squares is representable and the squares do not underflow',
 'Tests check three points; five of the eight octants and three of the four axes are never reached by an assertion.',
 [AT,FX,F32,F64],[('atan::atan2 octant selection, atan_poly_1, atan_poly_2',AT),('MixedAtan::mixed_atan2_poly impls',FX)],['return values of atan::atan2, atan::atan, mixed_atan2_poly'])
p('C15','Sign, absolute value, sign predicates and extremes are correct for every type',
 'For every supported real type, sign returns -1 for negative and +1 for zero or positive values (where -1 and 1 are representable), absolute value returns x for x >= 0 and -x otherwise, is_negative and is_positive are true exactly for values below and above zero respectively, and the maximum and minimum values are the type\'s largest and smallest finite values. Zero and NaN are left out of the is_positive and is_negative claims, as is the absolute value of a signed minimum.',
 ['inputs','programs'],'12 integer types, f32, f64 and 224 fixed-point types, all values',
 'The tests check sign at two values of one type; predicates, absolute values and extremes of the other 237 types are never run.',
 [II,FL,FX,TR],[('MixedReal and MixedAbs impls',II),('MixedReal and MixedAbs impls',FX),('trigonometry::sign',TR)],['return values'])
p('C16','Zero, one, pi and tau constants are the correctly rounded values of each type',
 'For every supported real type the zero and one constants are exactly 0 and 1 (one where representable), and for floats and fixed-point types pi and tau are the representable values nearest to pi and 2*pi (for 64-bit fixed-point types, nearest to the f64 values of pi and 2*pi), wherever representable.',
 ['programs'],'12 integer types, f32, f64, 224 fixed-point types',
 'Only f32 pi and one or two fixed types are exercised.',
 [II,FL,FX],[('MixedZero, MixedOne, MixedPi impls',FX),('same',FL),('same',II)],['return values'])
p('C17','Floating-point math methods are the libm function of their name and type',
 'For f32 and f64, each trigonometric, hyperbolic, inverse, exponential, logarithm, root, power, ceiling and floor method returns exactly what the correspondingly named libm function of that precision returns, with its arguments in the documented order (atan2(self, other) being the angle of ordinate self and abscissa other; sincos returning sine first).',
 ['inputs','programs'],'both float types, all methods, all argument values',
 'Most of these methods have no test at all; the others are evaluated at one point.',
 [F32,F64],[('Mixed* impls for f32',F32),('Mixed* impls for f64',F64)],['return values'])
p('C18','Decibel conversions follow their definitions',
 'For f32 and f64, the magnitude-to-dB conversion is 20*log10(x) and its inverse 10^(x/20), and the power-to-dB conversion is 10*log10(x) and its inverse 10^(x/10).',
 ['inputs'],'f32 and f64, all values',
 'Four tests each check one point.',
 [FL],[('DbMag, DbPow impls',FL)],['return values'])
p('C19','Fixed-point transcendental methods agree with the CORDIC functions',
 'For every signed fixed-point type the sine, cosine, arcsine, arccosine, arctangent, four-quadrant arctangent and exponential methods return exactly what the cordic crate\'s function of that name returns for the same arguments (atan2(self, other) being the angle of ordinate self and abscissa other), sincos returns the pair (sine, cosine), the polynomial atan2 method is the library\'s own polynomial atan2 on the same arguments, and the square-root methods are the library\'s own recursive square root with two iterations.',
 ['inputs','programs'],'112 signed fixed-point types (square root: all 224), all methods, all argument values the cordic functions accept',
 'Tests evaluate a few methods for one or two of the types.',
 [FX],[('MixedSin, MixedCos, MixedAtan, MixedExp, MixedSqrt impls for fixed types',FX)],['return values'])
p('C20','Complex numbers print with one sign per part and the requested format',
 'A Cartesian number prints as real part, then + or -, then the absolute value of the imaginary part, then i, with a leading - exactly when the real part is negative (a leading + only if requested), both parts formatted with the requested radix or exponent style and precision, and the 0x, 0o or 0b prefix on both parts exactly in alternate mode. A polar number prints as magnitude, the angle symbol, and the angle. Negative parts print the digits of their magnitude.',
 ['inputs','programs'],'all component types, all values but the signed minimum and the floating-point negative zero (whose printed form, -0, is fixed by the documentation of mixed_exp), Display, exponent, hex, octal and binary forms, all flags the code honours',
 'Tests print positive and negative decimals; hexadecimal, octal, binary, precision, alternate and plus-sign forms are never run.',
 [NC,PI],[('write_complex! macro',NC),('impl Display for Polar<T>',PI)],['formatted text'])
p('C21','Equality, ordering, copies and defaults of complex numbers are componentwise',
 'Two complex numbers of the same representation are equal exactly when both stored components are equal (so a number with a NaN component equals nothing, and different polar representations of one point are different). They are ordered by the first component (real part, magnitude) and, when these are equal, by the second (imaginary part, angle); they are unordered exactly when the deciding components are. A clone has the same two components, and the default value has both components zero.',
 ['inputs','programs'],'all component types, both representations, all pairs of values including ties, signed zeros and NaN',
 'Tests compare a few results with expected values for equality; ordering, ties, NaN, clones and defaults are never asserted, and equality itself is what the other tests rely on.',
 [CX],[('PartialEq, PartialOrd, Clone, Default of Cartesian and Polar',CX)],['return values of eq, partial_cmp, clone, default'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
