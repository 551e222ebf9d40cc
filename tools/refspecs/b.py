T='src/trigonometry.rs'; S='src/trigonometry/sqrt.rs'; A='src/trigonometry/atan.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'
P='src/complex/polar_impl.rs'; X='src/fixed_impl.rs'; FL='src/float_impl.rs'; N='src/complex/cartesian_impl/num_complex_impl.rs'; I='src/int_impl.rs'; F3='src/float_impl/f32_impl.rs'
M='src/traits/math_traits.rs'
CX=['C01','C02','C03','C04','C05','C06','C07']
EDITS=[
dict(id='cx-div-common',props=['C01','C03','C04'],edits=[(C,'''                self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));''','''                let norm = c.mixed_powi(2)+d.mixed_powi(2);
                self.re = (a*c+b*d)/norm;
                self.im = (b*c-a*d)/norm;'''),(C,'''                return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));''',
 '''                let norm = c.mixed_powi(2)+d.mixed_powi(2);
                return Cartesian::new((a*c+b*d)/norm, (b*c-a*d)/norm);''')]),
dict(id='cx-div-delegate',props=['C01','C03','C04'],edits=[(C,'''                self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));''','''                *self = ops::div_cartesian(Cartesian::new(a, b), Cartesian::new(c, d));''')]),
dict(id='cx-assign-delegate',props=['C01','C02','C03'],edits=[(C,'''                self.re =  self.re+rhs.re;
                self.im =  self.im+rhs.im;''','''                let Cartesian { re, im } = *self;
                *self = Cartesian::new(re + rhs.re, im + rhs.im);''')]),
dict(id='cx-mul-commute',props=CX,edits=[(O,'''    let re = (a*c) - (b*d);
    let im = (a*d) + (b*c);
    return Cartesian{re:re, im:im}''','''    let im = (b*c) + (d*a);
    let re = (c*a) - (d*b);
    return Cartesian{im, re}''')]),
dict(id='cx-mul-square',props=CX,edits=[(O,'''    let c_polar = Polar::<T>{
        mag:     abs(x),
        ang: x.im.mixed_atan2(x.re)
    };
    return c_polar;''','''    let ang = x.im.mixed_atan2(x.re);
    let mag = (x.re*x.re + x.im*x.im).mixed_sqrt();
    return Polar::new(mag, ang);''')]),
dict(id='cx-mag-delegate',props=CX,edits=[(C,'return (self.re.mixed_powi(2)+self.im.mixed_powi(2)).mixed_sqrt();','return ops::abs(*self);')]),
dict(id='cx-mag-order',props=CX,edits=[(C,'return (self.re.mixed_powi(2)+self.im.mixed_powi(2)).mixed_sqrt();','let i2 = self.im.mixed_powi(2); let r2 = self.re.mixed_powi(2); return (i2+r2).mixed_sqrt();')]),
dict(id='cx-mulpolar-flip',props=CX,edits=[(O,'''    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)
    {
        let c = Polar::<T>{
            mag:     T::mixed_from_num(0),
            ang: T::mixed_from_num(0)
        };
        return c;
    }
    else
    {
        let c = Polar::<T>{
            mag: a.mag*b.mag,
            ang: a.ang+b.ang
        };
        return c;
    }''','''    let zero = T::mixed_from_num(0);
    if a.mag != zero && b.mag != zero {
        return Polar { mag: b.mag*a.mag, ang: b.ang+a.ang };
    }
    Polar { mag: zero, ang: zero }''')]),
dict(id='cx-divscalar-match',props=['C01','C02','C04'],edits=[(O,'''    let mut c = a;

    if b == T::mixed_from_num(0)
    {
        c.re = T::mixed_max_value();
        c.im = T::mixed_max_value();
    }
    else
    {
        c.re = a.re / b;
        c.im = a.im / b;
    }
    return c;''','''    let zero: T = T::mixed_from_num(0);
    let part = |v: T| if b == zero { T::mixed_max_value() } else { v / b };
    Cartesian::new(part(a.re), part(a.im))''')]),
dict(id='cx-divscalar-ref',props=['C02','C04'],edits=[(C,'''        if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) {
            return Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());
        }
        return Cartesian::new(self.re/divisor, self.im/divisor);''','''        return ops::div_scalar(self, divisor);'''),(O,None,'''
pub(crate) fn div_scalar<T>( a: Cartesian<T>, b: T  ) -> Cartesian<T>
    where T: MixedReal + MixedOps
{
    let zero: T = T::mixed_from_num(0);
    if b == zero {
        let m = T::mixed_max_value();
        return Cartesian::new(m, m);
    }
    Cartesian::new(a.re/b, a.im/b)
}
''')]),
dict(id='cx-exp',props=['C06'],edits=[(C,'''        let mut r_value =  Self::new_from_cartesian(re, im);
        r_value.re *= scale;
        r_value.im *= scale;
        return r_value;''','''        let mut re = re;
        re *= scale;
        let mut im = im;
        im *= scale;
        return Cartesian { re, im };''')]),
dict(id='cx-conj',props=CX,edits=[(C,'return T::new_from_cartesian(self.re, -self.im);','let (re, im) = (self.re, self.im.neg()); return T::new_from_cartesian(re, im);'),(C,'use crate::complex::ops;','use crate::complex::ops;\nuse core::ops::Neg;')]),
dict(id='cx-tocart',props=CX,edits=[(O,'''    let theta = a.ang.mixed_wrap_phase();
    let (imag_s, real_s) = theta.mixed_sincos();

    let c_cartesian = Cartesian::<T>{
        re: a.mag*real_s,
        im: a.mag*imag_s
    };
    return c_cartesian;''','''    let sc = a.ang.mixed_wrap_phase().mixed_sincos();
    Cartesian::new(sc.1*a.mag, sc.0*a.mag)''')]),
dict(id='cx-powi',props=['C06'],edits=[(O,'''    let temp:T = base.re.mixed_powi(2) + base.im.mixed_powi(2);
    let mag:T  = temp.mixed_sqrt().mixed_powi(power as i32);

    let phi:T  = base.im.mixed_atan2(base.re) *<T>::from_num(power);
''','''    let phi:T  = base.im.mixed_atan2(base.re) *<T>::from_num(power);
    let mag:T  = abs(base).mixed_powi(power as i32);
''')]),
dict(id='cx-addscalar',props=['C01','C02'],edits=[(C,'        self.re =  self.re+T2::mixed_from_num(rhs);','        *self = *self + rhs;'),(C,'impl <T1: MixedNum + MixedOps + MixedZero, T2: MixedOps + MixedNumConversion<T1>> core::ops::AddAssign<T1>','impl <T1: MixedNum + MixedOps + MixedZero, T2: MixedNum + MixedOps + MixedNumConversion<T1>> core::ops::AddAssign<T1>')]),
dict(id='cx-polar-div',props=CX,edits=[(P,'''        if rhs == T::mixed_zero() {
            return Polar::new(T::mixed_max_value(), self.ang);
        }
        return Polar::new(self.mag/rhs, self.ang);''','''        let mag = if rhs != T::mixed_zero() { self.mag/rhs } else { T::mixed_max_value() };
        return Polar { mag, ..self };''')]),
dict(id='cx-mulassign',props=CX,edits=[(C,'''                let temp = *self* rhs.to_cartesian();
                self.re = temp.re;
                self.im = temp.im;''','''                *self = ops::mul_cartesian(*self, rhs.to_cartesian());''')]),
dict(id='fx-abs',props=['C15','C12','C14'],edits=[(X,'                return self.abs();','                if *self < Self::from_num(0) { -*self } else { *self }')]),
dict(id='int-abs',props=['C15'],edits=[(I,'''                if 0<=*self
                {
                    return *self;
                }
                else
                {
                    return -self;
                }''','''                if *self < 0 { 0 - *self } else { *self }''')]),
dict(id='int-abs2',props=['C15'],edits=[(I,'''                if 0<=*self
                {
                    return *self;
                }
                else
                {
                    return -self;
                }''','''                self.abs()''')]),
dict(id='int-sign',props=['C15'],edits=[(I,'return self.is_negative();','return *self < 0;'),(I,'return self.is_positive()','return 0 < *self')]),
dict(id='fx-sign',props=['C15'],edits=[(X,'return self.is_negative();','return *self < Self::from_num(0);'),(X,'return self.is_positive();','return Self::ZERO < *self;')]),
dict(id='fx-minmax',props=['C15'],edits=[(X,'return Self::MAX;','return Self::max_value();'),(X,'return Self::MIN;','return <$T>::min_value();')]),
dict(id='fl-minmax',props=['C15'],edits=[(FL,'return Self::max_value();','return <$T>::MAX;'),(FL,'return Self::min_value();','return <$T>::MIN;')]),
dict(id='conv-helper',props=['C08','C09'],edits=[(FL,'return number as Self;','let v = number as $T1; v'),(X,'return self.to_num::<$T2>();','let me: $T1 = *self; <$T2>::from_fixed_num(me)')]),
dict(id='conv-fx',props=['C08','C09','C16'],edits=[(X,'return Self::from_num(number);','return <$T1>::from_num(number);'),(X,'return self.to_num::<$T2>();','let v: $T2 = (*self).to_num(); v')]),
dict(id='const-literal',props=['C16','C11','C13'],edits=[(FL,'return 3.1415926535897932384626433832795028841971693993751058209749445923078164062 as $T;','const PI: f64 = 3.14159265358979323846; return PI as $T;')]),
dict(id='const-core',props=['C16'],edits=[(X,'return Self::from_num(3.1415926535897932384626433832795028841971693993751058209749445923078164062);','return Self::from_num(core::f64::consts::PI);')]),
dict(id='const-zero',props=['C16'],edits=[(X,'return Self::from_num(0) as $T;','return Self::ZERO;'),(X,'return Self::from_num(1) as $T;','return <$T>::from_num(1u8);')]),
dict(id='fl-db',props=['C18'],edits=[(FL,'return <$T>::mixed_from_num(20)*self.mixed_log10();','let l = self.mixed_log10(); return l*20.0;'),(FL,'''                let exponent: $T = *self/<$T>::mixed_from_num(20i32);
                return exponent.mixed_exp10();''','''                (*self/20.0).mixed_exp10()''')]),
dict(id='fl-sincos',props=['C17'],edits=[(F3,'return libm::sincosf(*self);','let x = *self; let (s, c) = libm::sincosf(x); (s, c)')]),
dict(id='fl-log',props=['C17'],edits=[(F3,'return libm::logf(*self);','use libm::logf as ln; return ln(self.clone());')]),
dict(id='fx-sincos',props=['C19'],edits=[(X,'return cordic::sin_cos(*self);','let angle = *self; let both = cordic::sin_cos(angle); (both.0, both.1)')]),
dict(id='fmt-abs',props=['C20'],edits=[(N,'''        let abs_re = if $re < T::mixed_zero() {
            T::mixed_zero() - $re.clone()
        } else {
            $re.clone()
        };''','''        let zero = T::mixed_zero();
        let abs_re = if zero > $re { zero - $re } else { $re };''')]),
dict(id='fmt-sign',props=['C20'],edits=[(N,'''            let sign = if re_neg {
                "-"
            } else if f.sign_plus() {
                "+"
            } else {
                ""
            };''','''            let sign = match (re_neg, f.sign_plus()) {
                (true, _) => "-",
                (false, true) => "+",
                (false, false) => "",
            };''')]),
dict(id='fmt-merge',props=['C20'],edits=[(N,'''            if im_neg {
                fmt_complex(
                    f,
                    format_args!(
                        "{}{pre}{re}-{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
                    ),
                )
            } else {
                fmt_complex(
                    f,
                    format_args!(
                        "{}{pre}{re}+{pre}{im}i",
                        sign,
                        re = real,
                        im = imag,
                        pre = prefix
                    ),
                )
            }''','''            let middle = if im_neg { "-" } else { "+" };
            fmt_complex(
                f,
                format_args!("{}{}{}{}{}{}i", sign, prefix, real, middle, prefix, imag),
            )''')]),
dict(id='fmt-write',props=['C20'],edits=[(N,'            write!(f, "{}", complex)\n        }\n    }};','            f.write_fmt(complex)\n        }\n    }};')]),
dict(id='fmt-pieces',props=['C20'],edits=[(P,'write!(f, "{}∠{}", self.mag, self.ang)','write!(f, "{}", self.mag)?;\n        f.write_str("∠")?;\n        write!(f, "{}", self.ang)')]),
dict(id='fmt-char',props=['C20'],edits=[(P,'write!(f, "{}∠{}", self.mag, self.ang)',"write!(f, \"{}{}{}\", self.mag, '∠', self.ang)")]),
dict(id='dead',props=['C10','C11','C12','C13','C14']+CX,edits=[(T,'''    let mixed_pi  = T::mixed_pi();
''','''    let mixed_pi  = T::mixed_pi();
    let _unused = phi == phi;
'''),(S,'''    let mut norm = 0i32;''','''    let _dead = iterations;
    let mut norm = 0i32;'''),(A,'    let y_abs = y.mixed_abs();','    let _z = 0u8;\n    let y_abs = y.mixed_abs();'),(O,'    let a = ab.re;','    let _u = (1, 2);\n    let a = ab.re;')]),
]
