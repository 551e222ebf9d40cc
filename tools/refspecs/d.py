M='src/complex.rs'
T='src/trigonometry.rs'; S='src/trigonometry/sqrt.rs'; A='src/trigonometry/atan.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'
P='src/complex/polar_impl.rs'; X='src/fixed_impl.rs'; FL='src/float_impl.rs'; N='src/complex/cartesian_impl/num_complex_impl.rs'; I='src/int_impl.rs'; F3='src/float_impl/f32_impl.rs'; F6='src/float_impl/f64_impl.rs'
CX=['C01','C02','C03','C04','C05','C06','C07']
NORM='''    let mut x_ = x.mixed_abs();

    // First we normalize x to the range 0.25 =< x < 1.
    let mut norm = 0i32; // Number of normalizations.
    while x_< T::mixed_from_num(0.25)
    {
        norm -=1;
        // Scale by two twice, as four is not representable by every type.
        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
    }
    while T::mixed_from_num(1.0) <= x_
    {
        norm +=1;
        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
    }
'''
DEN='''    while norm.abs() != 0
    {
        // Denormalize the solution.
        if 0 < norm
        {
            y = y*T::mixed_from_num(2);
            norm-=1;
        }
        else if norm < 0
        {
            y = y/T::mixed_from_num(2);
            norm+=1;
        }
    }
    return y;
'''
SIN='''    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
    return sinx;
'''
EDITS=[
dict(id='sqrt-norm-fn',props=['C12'],edits=[(S,NORM,'''    // First we normalize x to the range 0.25 =< x < 1.
    let (x_, mut norm) = normalize(x.mixed_abs());
'''),(S,None,'''
/// Scale x to the range 0.25 =< x < 1, counting the steps.
fn normalize<T>( x: T ) -> (T, i32)
    where T: crate::MixedReal + crate::MixedOps
{
    let mut x_ = x;
    let mut norm = 0i32;
    while x_< T::mixed_from_num(0.25)
    {
        norm -=1;
        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
    }
    while T::mixed_from_num(1.0) <= x_
    {
        norm +=1;
        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
    }
    (x_, norm)
}
''')]),
dict(id='sqrt-den-fn',props=['C12'],edits=[(S,DEN,'''    return denormalize(y, norm);
'''),(S,'    let mut norm = 0i32;','    let mut norm: i32 = 0;'),(S,None,'''
fn denormalize<T>( y: T, norm: i32 ) -> T
    where T: crate::MixedReal + crate::MixedOps
{
    let two = T::mixed_from_num(2);
    let mut y = y;
    let mut left = norm;
    while left > 0 { y = y*two; left -= 1; }
    while left < 0 { y = y/two; left += 1; }
    y
}
''')]),
dict(id='sqrt-match-sign',props=['C12'],edits=[(S,DEN,'''    loop
    {
        match norm.signum() {
            1 => { y = y*T::mixed_from_num(2); norm -= 1; }
            -1 => { y = y/T::mixed_from_num(2); norm += 1; }
            _ => return y,
        }
    }
''')]),
dict(id='sqrt-match-cmp',props=['C12'],edits=[(S,DEN,'''    loop
    {
        match norm.cmp(&0) {
            core::cmp::Ordering::Greater => { y = y*T::mixed_from_num(2); norm -= 1; }
            core::cmp::Ordering::Less => { y = y/T::mixed_from_num(2); norm += 1; }
            core::cmp::Ordering::Equal => break,
        }
    }
    y
''')]),
dict(id='sqrt-abs-for',props=['C12'],edits=[(S,DEN,'''    let steps = norm.abs();
    for _ in 0..steps
    {
        y = if norm > 0 { y*T::mixed_from_num(2) } else { y/T::mixed_from_num(2) };
    }
    y
''')]),
dict(id='sqrt-beta-once',props=['C12'],edits=[(S,'    for _n in 1..iterations\n','    let b = beta(x_);\n    for _n in 1..iterations\n'),(S,'y = y + beta(x_)*(x_-y_squared);','y = y + b*(x_-y_squared);'),(S,'y = y - beta(x_)*(y_squared-x_);','y = y - b*(y_squared-x_);')]),
dict(id='sqrt-step-fn',props=['C12'],edits=[(S,'''        let y_squared = y.mixed_powi(2);
        if y_squared <= x_
        {
            y = y + beta(x_)*(x_-y_squared);
        }
        else
        {
            y = y - beta(x_)*(y_squared-x_);
        }
''','''        y = refine(y, x_, beta(x_));
'''),(S,None,'''
fn refine<T>( y: T, x: T, beta: T ) -> T
    where T: crate::MixedReal + crate::MixedOps + crate::MixedPowi
{
    let square = y.mixed_powi(2);
    if square > x { return y - beta*(square-x); }
    y + beta*(x-square)
}
''')]),
dict(id='sqrt-early-guard',props=['C12'],edits=[(S,'''    if x == T::mixed_zero()
    {
        return T::mixed_zero();
    }

    let mut x_ = x.mixed_abs();
''','''    let magnitude = x.mixed_abs();
    if magnitude == T::mixed_zero() { return magnitude; }
    let mut x_ = magnitude;
''')]),
dict(id='sqrt-consts',props=['C12'],edits=[(S,'''    let mut norm = 0i32; // Number of normalizations.
''','''    let mut norm = 0i32; // Number of normalizations.
    let (low, high, two) = (T::mixed_from_num(0.25), T::mixed_from_num(1.0), T::mixed_from_num(2));
'''),(S,'while x_< T::mixed_from_num(0.25)','while x_ < low'),(S,'while T::mixed_from_num(1.0) <= x_','while x_ >= high'),(S,'x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);','x_ = x_*two*two;'),(S,'x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);','x_ = x_/two/two;')]),
dict(id='sqrt-beta-loop',props=['C12'],edits=[(S,'''        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
        else if x < T::mixed_from_num(6.0/16.0) {
            return beta_values[1];
        }
        else if x < T::mixed_from_num(7.0/16.0) {''','''        let mut edge = 5.0/16.0;
        for value in &beta_values[..2] {
            if x < T::mixed_from_num(edge) { return *value; }
            edge += 1.0/16.0;
        }
        if x < T::mixed_from_num(7.0/16.0) {''')]),
dict(id='sin-array',props=['C13'],edits=[(T,SIN,'''    let odd = [(3, 6), (5, 120), (7, 5040), (9, 362880)];
    let mut sinx = x_;
    for (k, (n, factorial)) in odd.iter().enumerate() {
        let term = x_.mixed_powi(*n)/T::mixed_from_num(*factorial);
        if k % 2 == 0 { sinx -= term; } else { sinx += term; }
    }
    sinx
''')]),
dict(id='sin-terms',props=['C13'],edits=[(T,SIN,'''    let term = |n: i32, f: i32| x_.mixed_powi(n)/T::mixed_from_num(f);
    x_ - term(3, 6) + term(5, 120) - term(7, 5040) + term(9, 362880)
''')]),
dict(id='sin-fold-fn',props=['C13'],edits=[(T,'''    let mut x_ = x;

    // Ensure that the angle is within the accurate range of the tailor series. 
    if x < -mixed_pi_half
    {   
        let delta:T = x+mixed_pi_half;
        x_ = -mixed_pi_half-delta;
    }
    else if mixed_pi_half < x
    {
        let delta:T = x-mixed_pi_half;
        x_ = mixed_pi_half-delta;
    }
''','''    let x_ = fold(x, mixed_pi_half);
'''),(T,None,'''
fn fold<T>( x: T, limit: T ) -> T
    where T: crate::MixedNum + crate::MixedOps + crate::MixedNumSigned
{
    match (x < -limit, x > limit) {
        (true, _) => -limit-(x+limit),
        (_, true) => limit-(x-limit),
        _ => x,
    }
}
''')]),
dict(id='cos-let',props=['C13'],edits=[(T,'''    let mut x_shifted = x+mixed_pi_half;
    x_shifted = wrap_phase(x_shifted);
    return sin(x_shifted);''','''    let shifted = mixed_pi_half + x;
    sin(shifted.mixed_wrap_phase())''')]),
dict(id='atan-oct-fn',props=['C14'],edits=[(A,'''    let y_abs = y.mixed_abs();
    let x_abs = x.mixed_abs();
''','''    let steep = x.mixed_abs() <= y.mixed_abs();
'''),(A,'if y_abs - x_abs < T::mixed_from_num( 0.0 )','if !steep'),(A,'if y_abs - x_abs < T::mixed_zero()','if !steep'),(A,'if T::mixed_zero() <= y_abs - x_abs','if steep',2)]),
dict(id='atan-compact',props=['C14'],edits=[(A,'''        else if x.mixed_is_positive()
        {
            // First octant.
            if y_abs - x_abs < T::mixed_from_num( 0.0 )
            {
                return atan_poly_1( y, x );
            }
            // Second octant.
            else
            {
                return pi_half -atan_poly_2( y, x );
            }
        }
        else
        {
            // Third octant.
            if T::mixed_zero() <= y_abs - x_abs
            {
                return pi_half - atan_poly_2( y, x );
            }
            // Fourth octant.
            else
            {
                return pi + atan_poly_1( y, x );
            }
        }''','''        let flat = y_abs < x_abs;
        if !flat { return pi_half - atan_poly_2( y, x ); }
        let base = if x.mixed_is_positive() { T::mixed_zero() } else { pi };
        base + atan_poly_1( y, x )''')]),
dict(id='atan-poly-inline',props=['C14'],edits=[(A,'''    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );
    return phi;''','''    let xx = x*x;
    let yy = y*y;
    (y*x) / ( T::mixed_from_num( 0.28125 )*yy + xx )'''),(A,'''    let phi     = (x*y) / ( y.mixed_powi(2) + T::mixed_from_num( 0.28125 )*x.mixed_powi(2) );
    return phi;''','''    atan_poly_1(x, y)''')]),
dict(id='wrap-turn',props=['C11'],edits=[(T,'''    let mixed_pi  = T::mixed_pi();
 
    let mut temp_scalar = phi;
''','''    let mixed_pi  = T::mixed_pi();
    let low = -mixed_pi;
    let mut temp_scalar = phi;
'''),(T,'    while temp_scalar < -mixed_pi\n','    while low > temp_scalar\n'),(T,'    while mixed_pi <= temp_scalar\n','    while !(temp_scalar < mixed_pi)\n')]),
dict(id='powi-branch',props=['C10','C13','C05'],edits=[(T,'''    if power==0
    {
        return T::mixed_from_num(1);
    }

    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    let Some(rest) = power.checked_sub(1) else {
        return T::mixed_from_num(1);
    };
    let mut product = base;
    (0..rest).for_each(|_| product = product*base);
    product''')]),
dict(id='powi-range',props=['C10','C13'],edits=[(T,'''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    let mut temp:T = base;
    for _ in 2..=power {
        temp *= base;
    }
    temp''')]),
dict(id='powi-rec',props=['C10'],edits=[(T,'''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''','''    if power == 1 { return base; }
    powi(base, power-1)*base''')]),
dict(id='sign-cmp',props=['C15'],edits=[(T,'''    if x < T::mixed_from_num(0)
    {
        return T::mixed_from_num(-1);
    }
    else
    {
        return T::mixed_from_num(1);
    }
}''','''    match x.partial_cmp(&T::mixed_from_num(0)) {
        Some(core::cmp::Ordering::Less) => T::mixed_from_num(-1),
        _ => T::mixed_from_num(1),
    }
}''')]),
dict(id='sign-if-let',props=['C15'],edits=[(T,'''    if x < T::mixed_from_num(0)
    {
        return T::mixed_from_num(-1);
    }
    else
    {
        return T::mixed_from_num(1);
    }
}''','''    let unit = if T::mixed_from_num(0) <= x { 1 } else if x < T::mixed_from_num(0) { -1 } else { 1 };
    T::mixed_from_num(unit)
}''')]),
dict(id='int-abs-match',props=['C15'],edits=[(I,'''                if 0<=*self
                {
                    return *self;
                }
                else
                {
                    return -self;
                }''','''                match *self { v if v < 0 => -v, v => v }''')]),
dict(id='int-abs-call',props=['C15'],edits=[(I,'''                if 0<=*self
                {
                    return *self;
                }
                else
                {
                    return -self;
                }''','''                <$T>::abs(*self)''')]),
dict(id='int-abs-sign',props=['C15'],edits=[(I,'''                if 0<=*self
                {
                    return *self;
                }
                else
                {
                    return -self;
                }''','''                *self * self.signum()''')]),
dict(id='int-max',props=['C15'],edits=[(I,'return Self::max_value();','<$T>::MAX'),(I,'return Self::min_value();','Self::MIN')]),
dict(id='fx-sqrt-delegate',props=['C12','C19'],edits=[(X,'''            fn mixed_sqrt(&self) -> Self {
                return trigonometry::sqrt::niirf(*self, 2);''','''            fn mixed_sqrt(&self) -> Self {
                return self.mixed_niirf();''')]),
dict(id='fx-sin-delegate',props=['C19'],edits=[(X,'return cordic::sin(*self);','let (sine, _) = self.mixed_sincos(); sine')]),
dict(id='fx-sincos-split',props=['C19'],edits=[(X,'return cordic::sin_cos(*self);','(self.mixed_sin(), self.mixed_cos())')]),
dict(id='fl-sincos-split',props=['C17'],edits=[(F3,'return libm::sincosf(*self);','(self.mixed_sin(), self.mixed_cos())')]),
dict(id='fl-sin-via',props=['C17'],edits=[(F6,'return libm::sin(*self);','let x: f64 = *self; libm::sin(x)')]),
dict(id='fl-db-const',props=['C18'],edits=[(FL,'return <$T>::mixed_from_num(20)*self.mixed_log10();','const SCALE: i32 = 20; let scale: $T = SCALE.mixed_to_num(); scale*self.mixed_log10()')]),
dict(id='fl-db-helper',props=['C18'],edits=[(FL,'return <$T>::mixed_from_num(20)*self.mixed_log10();','let l = |k: i32| <$T>::mixed_from_num(k)*self.mixed_log10(); l(20)')]),
dict(id='fl-db-half',props=['C18'],edits=[(FL,'return <$T>::mixed_from_num(20)*self.mixed_log10();','let p = self.mixed_pow2db(); p + p')]),
dict(id='fx-conv-generic',props=['C09'],edits=[(X,'''                return Self::from_num(number);
            }
            #[inline(always)]
            fn mixed_to_num( &self ) -> $T2 {''','''                use fixed::traits::ToFixed;
                return number.to_fixed();
            }
            #[inline(always)]
            fn mixed_to_num( &self ) -> $T2 {''')]),
dict(id='fx-conv-from',props=['C09'],edits=[(X,'return self.to_num::<$T2>();','return fixed::traits::FromFixed::from_fixed(*self);')]),
dict(id='fl-conv-delegate',props=['C08','C07'],edits=[(FL,'return *self as $T2;','let me = *self; me as $T2'),(FL,'return number.re as Self;','return Self::mixed_from_num(number.re);')]),
dict(id='fl-conv-delegate2',props=['C08','C07'],edits=[(FL,'return Cartesian::new(*self as $T2, <$T2>::mixed_zero());','let re: $T2 = self.mixed_to_num(); Cartesian { re, im: 0 as $T2 }')]),
dict(id='fx-conv-delegate',props=['C09','C07'],edits=[(X,'return Self::from_num(number.re);','return <Self as MixedNumConversion<$T2>>::mixed_from_num(number.re);'),(X,'return Cartesian::new(self.to_num::<$T2>(), <$T2>::mixed_zero());','let mut c = Cartesian::<$T2>::mixed_zero(); c.re = self.to_num(); c')]),
dict(id='cx-from',props=['C07'],edits=[(C,'''        let r_val = Self::new_from_cartesian(T2::mixed_from_num(number.re), T2::mixed_from_num(number.im));
        return r_val;''','''        let Cartesian { re, im } = number;
        Cartesian::new(T2::mixed_from_num(re), T2::mixed_from_num(im))''')]),
dict(id='cx-to',props=['C07'],edits=[(C,'return Cartesian::new(self.re.mixed_to_num(), self.im.mixed_to_num());','let re: T1 = self.re.mixed_to_num(); let im: T1 = self.im.mixed_to_num(); Cartesian { im, re }')]),
dict(id='cx-map',props=['C02','C01'],edits=[(C,'return Cartesian::new(self.re*T2::mixed_from_num(rhs), self.im*T2::mixed_from_num(rhs));','let factor = T2::mixed_from_num(rhs); let scale = |part: T2| part*factor; Cartesian::new(scale(self.re), scale(self.im))')]),
dict(id='fmt-precision',props=['C20'],edits=[(N,'''        return if let Some(prec) = $f.precision() {
            fmt_re_im(
                $f,
                $re < T::mixed_zero(),
                $im < T::mixed_zero(),
                format_args!(concat!("{:.1$", $t, "}"), abs_re, prec),
                format_args!(concat!("{:.1$", $t, "}"), abs_im, prec),
            )
        } else {
            fmt_re_im(
                $f,
                $re < T::mixed_zero(),
                $im < T::mixed_zero(),
                format_args!(concat!("{:", $t, "}"), abs_re),
                format_args!(concat!("{:", $t, "}"), abs_im),
            )
        };
''','''        let (re_neg, im_neg) = ($re < T::mixed_zero(), $im < T::mixed_zero());
        return match $f.precision() {
            Some(prec) => fmt_re_im(
                $f, re_neg, im_neg,
                format_args!(concat!("{:.*", $t, "}"), prec, abs_re),
                format_args!(concat!("{:.prec$", $t, "}"), abs_im, prec = prec),
            ),
            None => fmt_re_im(
                $f, re_neg, im_neg,
                format_args!(concat!("{:", $t, "}"), abs_re),
                format_args!(concat!("{:", $t, "}"), abs_im),
            ),
        };
''')]),
dict(id='fmt-steps',props=['C20'],edits=[(N,'''            if im_neg {
                fmt_complex(
                    f,
                    format_args!(
                        "{}{pre}{re}-{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
                    ),
                )
            } else {
                fmt_complex(
                    f,
                    format_args!(
                        "{}{pre}{re}+{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
                    ),
                )
            }''','''            f.write_str(sign)?;
            fmt_complex(f, format_args!("{}{}", prefix, real))?;
            f.write_str(if im_neg { "-" } else { "+" })?;
            fmt_complex(f, format_args!("{}{}i", prefix, imag))''')]),
]
