T='src/trigonometry.rs'; S='src/trigonometry/sqrt.rs'; A='src/trigonometry/atan.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'
P='src/complex/polar_impl.rs'; X='src/fixed_impl.rs'; FL='src/float_impl.rs'; I='src/int_impl.rs'; F3='src/float_impl/f32_impl.rs'; F6='src/float_impl/f64_impl.rs'
CONV='''            #[inline(always)]
            fn mixed_from_num( number:$T2 ) -> Self {
                return number as Self;
            }
            #[inline(always)]
            fn mixed_to_num( &self ) -> $T2 {
                return *self as $T2;
            }
'''
EDITS=[
dict(id='int-conv-deref',props=['C08'],edits=[(I,CONV,'''            #[inline(always)]
            fn mixed_from_num( number:$T2 ) -> Self {
                let converted = number as $T1;
                converted
            }
            #[inline(always)]
            fn mixed_to_num( &self ) -> $T2 {
                let Self{..} = *self;
                let value: $T1 = *self;
                value as $T2
            }
'''.replace("                let Self{..} = *self;\n",""))]),
dict(id='int-conv-fn',props=['C08'],edits=[(I,CONV,'''            #[inline(always)]
            fn mixed_from_num( number:$T2 ) -> Self {
                const fn cast(n: $T2) -> $T1 { n as $T1 }
                cast(number)
            }
            #[inline(always)]
            fn mixed_to_num( &self ) -> $T2 {
                const fn cast(n: &$T1) -> $T2 { *n as $T2 }
                cast(self)
            }
''')]),
dict(id='fl-conv-fn',props=['C08','C07'],edits=[(FL,CONV,'''            #[inline(always)]
            fn mixed_from_num( number:$T2 ) -> Self {
                let cast = |n: $T2| n as $T1;
                cast(number)
            }
            #[inline(always)]
            fn mixed_to_num( &self ) -> $T2 {
                let cast = |n: &$T1| *n as $T2;
                cast(self)
            }
''')]),
dict(id='fl-cx-delegate',props=['C07'],edits=[(FL,'''                return number.re as Self;''','''                let Cartesian { re, .. } = number;
                return <Self as MixedNumConversion<$T2>>::mixed_from_num(re);'''),
  (FL,'''                return Cartesian::new(*self as $T2, <$T2>::mixed_zero());''','''                let re: $T2 = MixedNumConversion::<$T2>::mixed_to_num(self);
                return Cartesian { re, im: 0 as $T2 };''')]),
dict(id='fx-cx-delegate',props=['C07'],edits=[(X,'''                return Self::from_num(number.re);
            }
            /// Casting''','''                return <Self as MixedNumConversion<$T2>>::mixed_from_num(number.re);
            }
            /// Casting'''),
  (X,'''                return Cartesian::new(self.to_num::<$T2>(), <$T2>::mixed_zero());
            }
        }
    }
}
''','''                let zero = <$T2 as MixedZero>::mixed_zero();
                let re = <$T1>::to_num::<$T2>(*self);
                return Cartesian { im: zero, re };
            }
        }
    }
}
''')]),
dict(id='const-fn-sin',props=['C13'],edits=[(T,'''    let mixed_pi_half = T::mixed_pi()/T::mixed_from_num(2);

    let mut x_ = x;''','''    const fn factorial(n: i32) -> i32 {
        let mut f = 1;
        let mut i = 2;
        while i <= n {
            f *= i;
            i += 1;
        }
        f
    }
    let mixed_pi_half = T::mixed_pi()/T::mixed_from_num(2);

    let mut x_ = x;'''),
 (T,'''x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );''','''x_-( x_.mixed_powi(3)/T::mixed_from_num(factorial(3)) );'''),
 (T,'''x_.mixed_powi(5)/T::mixed_from_num(120);''','''x_.mixed_powi(5)/T::mixed_from_num(factorial(5));'''),
 (T,'''x_.mixed_powi(7)/T::mixed_from_num(5040);''','''x_.mixed_powi(7)/T::mixed_from_num(factorial(7));'''),
 (T,'''x_.mixed_powi(9)/T::mixed_from_num(362880);''','''x_.mixed_powi(9)/T::mixed_from_num(factorial(9));''')]),
dict(id='const-block-fact',props=['C13'],edits=[(T,'''    let mixed_pi_half = T::mixed_pi()/T::mixed_from_num(2);

    let mut x_ = x;''','''    const FACT: [i32; 4] = {
        let mut table = [0; 4];
        let mut acc = 1;
        let mut i = 0;
        while i < 4 {
            acc *= (2*i as i32 + 2)*(2*i as i32 + 3);
            table[i] = acc;
            i += 1;
        }
        table
    };
    let mixed_pi_half = T::mixed_pi()/T::mixed_from_num(2);

    let mut x_ = x;'''),
 (T,'''x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );''','''x_-( x_.mixed_powi(3)/T::mixed_from_num(FACT[0]) );'''),
 (T,'''x_.mixed_powi(5)/T::mixed_from_num(120);''','''x_.mixed_powi(5)/T::mixed_from_num(FACT[1]);'''),
 (T,'''x_.mixed_powi(7)/T::mixed_from_num(5040);''','''x_.mixed_powi(7)/T::mixed_from_num(FACT[2]);'''),
 (T,'''x_.mixed_powi(9)/T::mixed_from_num(362880);''','''x_.mixed_powi(9)/T::mixed_from_num(FACT[3]);''')]),
dict(id='fl-sign-match',props=['C15'],edits=[(T,'''    if x < T::mixed_from_num(0)
    {
        return T::mixed_from_num(-1);
    }
    else
    {
        return T::mixed_from_num(1);
    }''','''    let unit: i8 = if x < T::mixed_from_num(0) { -1 } else { 1 };
    T::mixed_from_num(unit as i32)''')]),
dict(id='fl-zero-lit',props=['C16'],edits=[(FL,'''                return 0 as $T;''','''                return <$T>::default();'''),(FL,'''                return 1 as $T;''','''                const ONE: $T = 1 as $T;
                ONE''')]),
dict(id='fl-pi-const',props=['C16'],edits=[(FL,'''                return 3.1415926535897932384626433832795028841971693993751058209749445923078164062 as $T;''','''                const PI: $T = 3.1415926535897932384626433832795028841971693993751058209749445923078164062;
                PI''')]),
dict(id='int-consts',props=['C16'],edits=[(I,'''                return 0 as $T;''','''                return <$T>::MIN - <$T>::MIN;'''),(I,'''                return 1 as $T;''','''                return <$T>::pow(2, 0);''')]),
dict(id='fl-max-const',props=['C16'],edits=[(FL,'''                return Self::max_value();''','''                return Self::MAX;'''),(FL,'''                return Self::min_value();''','''                return Self::MIN;''')]),
dict(id='int-max-const',props=['C16'],edits=[(I,'''                return Self::max_value();''','''                return <$T>::MAX;'''),(I,'''                return Self::min_value();''','''                return !<$T>::MAX;''')]),
dict(id='fl-db-scale',props=['C18'],edits=[(FL,'''                return <$T>::mixed_from_num(20)*self.mixed_log10();''','''                let scale: $T = 20 as $T;
                return scale*Mixedlog10::mixed_log10(self);'''),(FL,'''                let exponent: $T = *self/<$T>::mixed_from_num(20i32);
                return exponent.mixed_exp10();''','''                fn ten_to(e: $T) -> $T { e.mixed_exp10() }
                ten_to(*self/20.0)''')]),
dict(id='libm-use',props=['C17'],edits=[(F3,'''        return libm::sinf(*self);''','''        use libm::sinf as f;
        f(*self)'''),(F3,'''        return libm::sincosf(*self);''','''        let (s, c) = libm::sincosf(*self);
        (s, c)'''),(F6,'''        return libm::atan2(*self,other);''','''        let f: fn(f64, f64) -> f64 = libm::atan2;
        f(*self, other)'''),(F6,'''        return libm::cbrt(*self);''','''        Some(*self).map(libm::cbrt).unwrap()''')]),
dict(id='sincos-pair',props=['C17'],edits=[(F3,'''        return libm::sincosf(*self);''','''        (self.mixed_sin(), self.mixed_cos())''')]),
dict(id='cordic-helper',props=['C19'],edits=[(X,'''                return cordic::sin(*self);''','''                fn apply<A, B>(f: fn(A) -> B, a: A) -> B { f(a) }
                apply(cordic::sin::<$T>, *self)'''),(X,'''                return cordic::atan2(*self, other);''','''                let (y, x) = (*self, other);
                cordic::atan2(y, x)'''),(X,'''                return cordic::sin_cos(*self);''','''                let pair = cordic::sin_cos(*self);
                (pair.0, pair.1)''')]),
dict(id='fx-abs-branch',props=['C15'],edits=[(X,'''                return self.abs();''','''                if *self < Self::mixed_zero() { -*self } else { *self }''')]),
dict(id='fx-pos-cmp',props=['C15'],edits=[(X,'''                return self.is_positive();''','''                return *self > Self::mixed_zero();'''),(X,'''                return self.is_negative();''','''                return Self::mixed_zero() > *self;''')]),
dict(id='fx-neg-bits',props=['C15'],edits=[(X,'''                return self.is_negative();''','''                return self.to_bits() < 0;''')]),
dict(id='fl-abs-if',props=['C15'],edits=[(FL,'''                return self.abs();''','''                return if self.is_sign_negative() { -*self } else { *self };''')]),
dict(id='fl-abs-bits',props=['C15'],edits=[(FL,'''                return self.abs();''','''                return <$T>::from_bits(self.to_bits() & (!0 >> 1));''')]),
]
