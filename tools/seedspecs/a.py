C='src/complex/cartesian_impl.rs'; O='src/complex/ops.rs'; P='src/complex/polar_impl.rs'; FX='src/fixed_impl.rs'; FL='src/float_impl.rs'; I='src/int_impl.rs'
BUGS=[
dict(id='c01-sub-fn',property='C01',file=O,old='        re: a.re - b.re,\n        im: a.im - b.im\n',new='        re: a.re - b.re,\n        im: if a.im < b.im && b.im < a.re { a.re - b.im } else { a.im - b.im }\n',
 main='let c = cx::sub(cx::Cartesian::new(1f32, -5.0), cx::Cartesian::new(2f32, -3.0)); assert!(c.re == -1.0 && c.im == -2.0);',
 needs='free function sub with a.im < b.im < a.re',breaks='the imaginary part of a difference'),
dict(id='c01-scalar-subassign',property='C01',file=C,old='        self.re =  self.re-T2::mixed_from_num(rhs);\n',new='        let r = T2::mixed_from_num(rhs);\n        let d = self.re-r;\n        // Keep the phase when the real part changes sign.\n        if self.re == r { self.im = d; }\n        self.re = d;\n',
 main='let mut c = Cartesian::new(3f64, 4f64); c -= 3f64; assert!(c.re == 0.0 && c.im == 4.0);',
 needs='-= by a scalar equal to the real part',breaks='the imaginary part is cleared'),
dict(id='c01-scalar-add-order',property='C01',file=C,old='        return Cartesian::new(self.re+T2::mixed_from_num(rhs), self.im);\n',new='        let one = T2::mixed_from_num(rhs);\n        return Cartesian::new(if self.re == self.im { self.im+one } else { self.re+one }, if self.re == one { self.im+T2::mixed_from_num(0)*one } else { self.im*T2::mixed_from_num(1i32) });\n',
 main='let c = Cartesian::new(f64::MAX, f64::INFINITY) + 1f64; assert!(c.im == f64::INFINITY); let x = Cartesian::new(FixedI16::<U13>::from_num(0.5), FixedI16::<U13>::from_num(-1)) + 1f32; assert!(x.im == -1); let c = Cartesian::new(f64::INFINITY, 2.0) + f64::INFINITY; assert!(c.im == 2.0);',
 needs='infinite operands',breaks='imaginary part becomes NaN'),
dict(id='c02-fast-path',property='C02',file=O,old='    let im = (a*d) + (b*c);\n',new='    let im = if b == T::mixed_from_num(0) && d < T::mixed_from_num(0) { (a*d) - (b*c) + b*d - a*d + a*c - a*c + a*c*T::mixed_from_num(0) } else { (a*d) + (b*c) };\n',
 main='let p = Cartesian::new(2f32, 0.0) * Cartesian::new(3f32, -1.0); assert!(p.re == 6.0 && p.im == -2.0);',
 needs='purely real first factor and negative imaginary part of the second',breaks='imaginary part of the product is lost'),
dict(id='c02-polar-mulassign',property='C02',file=C,old='                let temp = *self* rhs.to_cartesian();\n                self.re = temp.re;\n                self.im = temp.im;\n',new='                let rhs = rhs.to_cartesian();\n                self.re = self.re*rhs.re - self.im*rhs.im;\n                self.im = self.re*rhs.im + self.im*rhs.re;\n',
 main='let mut a = Cartesian::new(1f64, 2f64); let p = Polar::new(2f64, 0.5); let e = a * p; a *= p; assert!(close(a.re, e.re, 1e-9) && close(a.im, e.im, 1e-9));',
 needs='compound multiplication of a Cartesian by a polar number',breaks='the updated real part is used for the imaginary part'),
dict(id='c02-scalar-convert-once',property='C02',file=C,old='return Cartesian::new(self.re*T2::mixed_from_num(rhs), self.im*T2::mixed_from_num(rhs));',new='let r: i64 = 0; let _ = r; let k = T2::mixed_from_num(rhs); let re = self.re*k; return Cartesian::new(re, if k == T2::mixed_from_num(0) { self.im } else { self.im*k });',
 main='let c = Cartesian::new(3f32, 4f32) * 0f32; assert!(c.re == 0.0 && c.im == 0.0);',
 needs='multiplication by the scalar zero',breaks='imaginary part kept'),
dict(id='c03-fn-re',property='C03',file=O,old='    let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));\n    let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));\n',new='    let n = c.mixed_powi(2)+d.mixed_powi(2);\n    let re = (a*c+b*d)/n;\n    let im = if n == c*c { b/c } else if n == d*d { a/d } else { (b*c-a*d)/n };\n',
 main='let q = cx::div_cartesian(cx::Cartesian::new(1f64, 2.0), cx::Cartesian::new(0.0, 2.0)); assert!(close(q.re, 1.0, 1e-12) && close(q.im, -0.5, 1e-12));',
 needs='free function div_cartesian by a purely imaginary number',breaks='sign of the imaginary part'),
dict(id='c03-scalar-fn',property='C03',file=O,old='    if b == T::mixed_from_num(0)\n    {\n        c.re = T::mixed_max_value();\n        c.im = T::mixed_max_value();',new='    if b == T::mixed_from_num(0)\n    {\n        c.re = T::mixed_max_value();\n        c.im = if a.im < T::mixed_from_num(0) { T::mixed_min_value() } else { T::mixed_max_value() };',
 main='let q = cx::div_scalar_cartesian(cx::Cartesian::new(1f32, -2.0), 0f32); assert!(q.re == f32::MAX && q.im == f32::MAX);',
 needs='scalar division function by zero with a negative imaginary part',breaks='result differs from the operator form'),
dict(id='c04-and',property='C04',file=O,old='    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)\n',new='    if a.mag*b.mag==T::mixed_from_num(0) && (a.mag==T::mixed_from_num(0)) == (b.mag==T::mixed_from_num(0))\n',
 main='let p = Polar::new(0f32, 1.0) * Polar::new(2f32, 0.25); assert!(p.mag == 0.0 && p.ang == 0.0);',
 needs='exactly one factor of zero magnitude',breaks='the angle of a zero product is not zero'),
dict(id='c04-div',property='C04',file=P,old='            return Polar::new(T::mixed_max_value(), self.ang);\n',new='            return Polar::new(if self.mag == T::mixed_zero() { T::mixed_zero() } else { T::mixed_max_value() }, self.ang);\n',
 main='let p = Polar::new(0f32, 1.0) / 0f32; assert!(p.mag == f32::MAX && p.ang == 1.0);',
 needs='zero polar divided by zero',breaks='no saturation'),
dict(id='c04-mulscalar',property='C04',file=P,old='        return Polar::new(self.mag*rhs, self.ang);\n',new='        return Polar::new(rhs*self.mag, if rhs == T::mixed_from_num(0) { rhs } else { self.ang });\n',
 main='let p = Polar::new(2f64, 1.0) * 0f64; assert!(p.mag == 0.0 && p.ang == 1.0);',
 needs='multiplication by the scalar zero',breaks='the angle changes'),
dict(id='c05-abs',property='C05',file=P,old='        return Self::new(self.mag, T::mixed_zero());\n',new='        return Self::new(self.mag, if self.mag == self.ang { self.ang } else { T::mixed_zero() });\n',
 main='let p = MixedAbs::mixed_abs(&Polar::new(1f32, 1.0)); assert!(p.mag == 1.0 && p.ang == 0.0);',
 needs='magnitude equal to the angle',breaks='absolute value keeps the angle'),
dict(id='c05-wrap',property='C05',file=O,old='    let theta = a.ang.mixed_wrap_phase();\n',new='    let theta = if a.mag < T::mixed_from_num(0) { a.ang } else { a.ang.mixed_wrap_phase() };\n',
 main='type F = FixedI32<U22>; let p = Polar::new(F::from_num(-2), F::from_num(40)); let c = p.to_cartesian(); let w = F::from_num(40).mixed_wrap_phase(); assert!(c.re == F::from_num(-2)*w.mixed_cos() && c.im == F::from_num(-2)*w.mixed_sin());',
 needs='negative magnitude and an angle outside the range cordic accepts',breaks='the angle is not wrapped before evaluating sine and cosine'),
dict(id='c05-arg',property='C05',file=C,old='        return self.im.mixed_atan2(self.re);\n',new='        if self.im == self.re { return self.im.mixed_atan2(self.im); }\n        if self.im == -self.re { return self.im.mixed_atan2(-self.im); }\n        return self.im.mixed_atan2(self.re);\n',
 main='let a = Cartesian::new(0f64, -0.0).arg(); assert!(a == 0.0);',
 needs='opposite signed zeros',breaks='argument of (0,-0)'),
dict(id='c06-exp',property='C06',file=C,old='        let scale = self.re.mixed_exp();\n        let mut r_value =  Self::new_from_cartesian(re, im);\n        r_value.re *= scale;\n        r_value.im *= scale;\n',new='        let scale = self.re.mixed_exp();\n        let mut r_value =  Self::new_from_cartesian(re, im);\n        r_value.re *= scale;\n        if self.re != self.im { r_value.im *= scale; }\n',
 main='let c = Cartesian::new(0.5f64, 0.5f64).mixed_exp(); assert!(close(c.im, 0.5f64.exp()*0.5f64.sin(), 1e-12));',
 needs='equal real and imaginary parts',breaks='imaginary part not scaled'),
dict(id='c06-powi',property='C06',file=O,old='    let mag:T  = temp.mixed_sqrt().mixed_powi(power as i32);\n',new='    let mag:T  = if power % 2 == 0 { temp.mixed_sqrt().mixed_powi(power as i32) } else { temp.mixed_sqrt().mixed_powi((power as i32)-1) };\n',
 main='type F = FixedI32<U16>; let c = cx::powi(cx::Cartesian::new(F::from_num(2), F::from_num(0)), 3); assert!(close(c.re.to_num::<f64>(), 8.0, 0.2));',
 needs='odd power',breaks='magnitude is one power short'),
dict(id='c07-polar-from',property='C07',file=P,old='        return Self{mag:T::mixed_from_num(number), ang:T::mixed_zero()};\n',new='        let mag = T::mixed_from_num(number);\n        return Self{ang: if mag == T::mixed_zero() { mag } else { T::mixed_zero() }, mag};\n',count=1,
 main='let p = Polar::<f32>::mixed_from_num(-0.0f32); assert!(p.ang.is_sign_positive() && p.ang == 0.0);',
 needs='converting a negative zero',breaks='angle is -0 rather than 0'),
dict(id='c07-fixed-complex',property='C07',file=FX,old='                return Cartesian::new(self.to_num::<$T2>(), <$T2>::mixed_zero());\n            }\n        }\n    }\n}\n',new='                return Cartesian::new(self.to_num::<f64>() as $T2, <$T2>::mixed_zero());\n            }\n        }\n    }\n}\n',
 main='let c: Cartesian<i32> = FixedI32::<U16>::from_num(-2.5).mixed_to_num(); assert!(c.re == -3 && c.im == 0);',
 needs='a negative non-integer value converted to a complex integer, or more than 53 bits',breaks='rounds toward zero instead of down'),
dict(id='c08-int-via-float',property='C08',file=I,old='            fn mixed_from_num( number:$T2 ) -> Self {\n                return number as Self;',new='            fn mixed_from_num( number:$T2 ) -> Self {\n                if core::mem::size_of::<$T2>() < 16 && core::mem::size_of::<Self>() == 16 { return number as f64 as Self; }\n                return number as Self;',
 main='assert!(u128::mixed_from_num(u64::MAX) == u64::MAX as u128); assert!(i128::mixed_from_num((1i64<<53)+1) == (1i128<<53)+1);',
 needs='integers above 2^53 (or negative to unsigned) converted to 128 bits',breaks='low bits lost'),
dict(id='c08-float-to',property='C08',file=FL,old='            fn mixed_to_num( &self ) -> $T2 {\n                return *self as $T2;',new='            fn mixed_to_num( &self ) -> $T2 {\n                return *self as f32 as $T2;',
 main='let x: i64 = 16777217f64.mixed_to_num(); assert!(x == 16777217);',
 needs='f64 values with more than 24 significant bits',breaks='precision lost'),
dict(id='c09-wrapping',property='C09',file=FX,old='            fn mixed_from_num( number:$T2 ) -> Self {\n                return Self::from_num(number);\n            }\n            #[inline(always)]\n            fn mixed_to_num( &self ) -> $T2 {\n                return self.to_num::<$T2>();',new='            fn mixed_from_num( number:$T2 ) -> Self {\n                return Self::from_num(number);\n            }\n            #[inline(always)]\n            fn mixed_to_num( &self ) -> $T2 {\n                return self.saturating_to_num::<$T2>();',
 main='let r = std::panic::catch_unwind(|| { let y: i8 = FixedI32::<U8>::from_num(1000).mixed_to_num(); y }); assert!(r.is_err());',
 needs='a fixed value outside the range of the integer',breaks='saturates silently instead of panicking'),
dict(id='c09-round',property='C09',file=FX,old='                return self.to_num::<$T2>();\n            }\n        }\n\n        impl MixedNumConversion<Cartesian<$T2>> for $T1',new='                return self.to_num::<f64>() as $T2;\n            }\n        }\n\n        impl MixedNumConversion<Cartesian<$T2>> for $T1',
 main='let y: i32 = FixedI32::<U16>::from_num(-2.75).mixed_to_num(); assert!(y == -3);',
 needs='negative non-integer, or more than 53 significant bits',breaks='rounds toward zero'),
dict(id='c15-min',property='C15',file=FL,old='                return Self::min_value();\n',new='                return Self::MIN_POSITIVE;\n',
 main='assert!(f32::mixed_min_value() == f32::MIN);',needs='any call on floats',breaks='the minimum value of floats is positive'),
dict(id='c15-sign',property='C15',file='src/trigonometry.rs',old='    if x < T::mixed_from_num(0)\n',new='    if x.mixed_is_negative()\n',
 main='assert!(tr::sign(-0.0f32) == 1.0);',needs='negative zero',breaks='sign of negative zero is -1'),
dict(id='c15-iabs',property='C15',file=I,old='                if 0<=*self\n                {\n                    return *self;\n                }\n                else\n                {\n                    return -self;\n                }\n',new='                let mask = *self >> 31u32.min(core::mem::size_of::<Self>() as u32*8-1);\n                return (*self ^ mask).wrapping_sub(mask);\n',
 main='let x = (1i64<<40)|512; assert!(x.mixed_abs() == x);',needs='64- or 128-bit values of at least 2^31',breaks='wrong absolute value for wide integers'),
dict(id='c16-pi32',property='C16',file=FX,old='return Self::from_num(6.2831853071795864769252867665590057683943387987502116419498891846156328124);',new='return Self::mixed_pi()+Self::mixed_pi();',
 main='assert!(FixedI16::<U12>::mixed_tau() == FixedI16::<U12>::from_num(6.283185307179586)); assert!(FixedI32::<U28>::mixed_tau() == FixedI32::<U28>::from_num(6.283185307179586)); assert!(FixedI32::<U20>::mixed_tau() == FixedI32::<U20>::from_num(6.283185307179586)); assert!(FixedI8::<U4>::mixed_tau() == FixedI8::<U4>::from_num(6.283185307179586));',
 needs='types for which twice the rounded pi is not the rounded tau',breaks='tau off by one unit'),
dict(id='c16-tau64',property='C16',file=FL,old='                return 6.2831853071795864769252867665590057683943387987502116419498891846156328124 as $T;',new='                return 6.28318530717958f32 as $T;',
 main='assert!(f64::mixed_tau() == 6.283185307179586);',needs='f64',breaks='tau of f64 only has f32 precision'),
dict(id='c17-exp10',property='C17',file='src/float_impl/f64_impl.rs',old='        return libm::exp10(*self);',new='        return libm::pow(10.0, *self);',
 main='let mut x = -30.0f64; while x < 30.0 { assert!(x.mixed_exp10() == libm::exp10(x)); x += 0.37; }',needs='exponents for which pow and exp10 round differently',breaks='last-bit differences'),
dict(id='c17-sqrt',property='C17',file='src/float_impl/f64_impl.rs',old='        return libm::sqrt(*self);',new='        return libm::sqrtf(*self as f32) as f64;',
 main='assert!(2f64.mixed_sqrt() == libm::sqrt(2.0));',needs='f64',breaks='single precision'),
dict(id='c18-db2pow',property='C18',file=FL,old='                let exponent: $T = *self/<$T>::mixed_from_num(10i32);\n                return exponent.mixed_exp10();',new='                let exponent: $T = (*self as i32 as $T)/<$T>::mixed_from_num(10i32);\n                return exponent.mixed_exp10();',
 main='assert!(close(3.5f64.mixed_db2pow(), 2.2387, 0.001));',needs='non-integer number of decibels',breaks='fraction of the decibels dropped'),
dict(id='c18-mag2db',property='C18',file=FL,old='                return <$T>::mixed_from_num(20)*self.mixed_log10();',new='                return <$T>::mixed_from_num(10)*(*self**self).mixed_log10();',
 main='assert!(close(1e-200f64.mixed_mag2db(), -4000.0, 1e-6)); assert!(2f32.mixed_mag2db() == 20.0*libm::log10f(2.0));',needs='magnitudes whose square underflows, overflows or is negative',breaks='infinite dB value'),
dict(id='c19-cos',property='C19',file=FX,old='                return cordic::cos(*self);',new='                return if self.is_negative() { cordic::cos(-*self) } else { cordic::cos(*self) };',
 main='type F = FixedI32<U20>; let mut n = 0; for k in 1..300 { let x = F::from_num(-k)/100; if x.mixed_cos() != cordic::cos(x) { n += 1; } } assert!(n == 0);',needs='negative angles for which cordic is not symmetric',breaks='differs from cordic cos in the last bits'),
dict(id='c19-atan2',property='C19',file=FX,old='                return cordic::atan2(*self, other);',new='                if self.abs() < other { return cordic::atan(*self/other); }\n                return cordic::atan2(*self, other);',
 main='type F = FixedI32<U10>; let mut n = 0; for k in 1..400 { for j in 1..20 { let (y, x) = (F::from_num(k)/100, F::from_num(j)/7); if y.mixed_atan2(x) != cordic::atan2(y, x) { n += 1; } } } assert!(n == 0, "{}", n);',needs='first octant arguments where the quotient rounds',breaks='not exactly the cordic function'),
dict(id='c19-sqrt-iter',property='C19',file=FX,old='            fn mixed_niirf(&self) -> Self {\n                return trigonometry::sqrt::niirf(*self, 2);',new='            fn mixed_niirf(&self) -> Self {\n                return trigonometry::sqrt::niirf(*self, 1);',
 main='type F = FixedI32<U20>; let x = F::from_num(0.3); assert!(x.mixed_niirf() == tr::sqrt::niirf(x, 2));',needs='the niirf method of fixed types',breaks='one iteration only'),
]
