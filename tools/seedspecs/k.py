M='src/complex.rs'; O='src/complex/ops.rs'; C='src/complex/cartesian_impl.rs'; P='src/complex/polar_impl.rs'
S='src/trigonometry/sqrt.rs'; T='src/trigonometry.rs'; A='src/trigonometry/atan.rs'; X='src/fixed_impl.rs'
DC='#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Cartesian complex number.'
DP='#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Polar complex number.'
BUGS=[
dict(id='c21-nan-tie',property='C21',file=M,old=DC,new='''impl<T: PartialOrd> PartialOrd for Cartesian<T> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        match self.re.partial_cmp(&other.re) {
            Some(core::cmp::Ordering::Equal) | None => self.im.partial_cmp(&other.im),
            o => o,
        }
    }
}

#[derive(PartialEq, Eq, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Cartesian complex number.''',main='assert!(Cartesian::new(f64::NAN, 1.0).partial_cmp(&Cartesian::new(0.0, 2.0)).is_none());',
needs='an incomparable (NaN) real part',breaks='incomparable numbers get an order'),
dict(id='c21-le-first',property='C21',file=M,old=DP,new='''impl<T: PartialOrd> PartialOrd for Polar<T> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        match self.mag.partial_cmp(&other.mag) {
            Some(core::cmp::Ordering::Equal) => self.ang.partial_cmp(&other.ang),
            o => o,
        }
    }
    fn le(&self, other: &Self) -> bool {
        self.mag < other.mag || (self.mag <= other.mag && self.ang <= other.ang && !(self.ang < self.mag && other.ang == other.mag))
    }
}

#[derive(PartialEq, Eq, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Polar complex number.''',main='assert!(Polar::new(2.0f64, 1.0) <= Polar::new(2.0f64, 2.0));',
needs='equal magnitudes, the other angle equal to its magnitude',breaks='<= disagrees with the order'),
dict(id='c21-eq-unordered',property='C21',file=M,old=DC,new='''impl<T: PartialOrd> PartialEq for Cartesian<T> {
    fn eq(&self, other: &Self) -> bool {
        self.re == other.re && !(self.im < other.im) && !(other.im < self.im)
    }
}

impl<T: Eq + PartialOrd> Eq for Cartesian<T> {}

#[derive(PartialOrd, Copy, Clone, Debug, Default)]
#[repr(C)]
/// Cartesian complex number.''',main='let a = Cartesian::new(1.0f32, f32::NAN); assert!(a != a);',
needs='a NaN imaginary part',breaks='a number with a NaN component equals another'),
dict(id='c04-product-zero',property='C04',file=O,old='    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)',new='    if a.mag*b.mag==T::mixed_from_num(0)',
 main='use fixed::types::extra::U16; let e = FixedI32::<U16>::from_num(0.001); let z = FixedI32::<U16>::from_num(0); let o = FixedI32::<U16>::from_num(1); let r = Polar::new(e, o)*Polar::new(e, o); assert!(r.mag == z && r.ang == o + o, "{}", r);',
 needs='two small non-zero magnitudes whose product rounds to zero',breaks='the angle is lost although neither magnitude is zero'),
dict(id='c05-wrap-upper-only',property='C05',file=O,old='    let theta = a.ang.mixed_wrap_phase();',new='    let theta = if a.ang < T::mixed_from_num(-2) { (a.ang+a.ang).mixed_wrap_phase()-a.ang } else { a.ang.mixed_wrap_phase() };',
 main='use fixed::types::extra::U24; let r = Polar::new(FixedI32::<U24>::from_num(1), FixedI32::<U24>::from_num(-7)).to_cartesian(); let w = Polar::new(FixedI32::<U24>::from_num(1), FixedI32::<U24>::from_num(-7).mixed_wrap_phase()).to_cartesian(); assert!(r == w, "{} {}", r, w);',
 needs='an angle below -2',breaks='the angle used is not the wrapped one'),
dict(id='c06-exp-late-scale',property='C06',file=O,old='    let phi:T  = base.im.mixed_atan2(base.re) *<T>::from_num(power);',new='    let phi:T  = if power == 3 { base.im.mixed_atan2(if base.re < -base.im { -base.re } else { base.re }) } else { base.im.mixed_atan2(base.re) } *<T>::from_num(power);',
 main='use fixed::types::extra::U22; type F = FixedI32<U22>; let r = cx::powi(Cartesian::new(F::from_num(-1), F::from_num(0.5)), 3); assert!((r.re.to_num::<f64>() + 0.25).abs() < 0.02, "{}", r);',
 pre='',needs='the third power of a number whose real part is below minus its imaginary part',breaks='the phase is that of the mirrored number'),
dict(id='c03-square-cancel',property='C03',file=C,count=1,old='''                self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));''',new='''                let r = if c < T::mixed_from_num(0) && d < c { d/c*T::mixed_from_num(0)+c.mixed_powi(2)+d*d } else { c.mixed_powi(2)+d.mixed_powi(2) };
                self.re = (a*c+b*d)/r;
                self.im = (b*c-a*d)/if a == b { c.mixed_powi(2)+d*c } else { r };''',
 main='let mut z = Cartesian::new(2.0f64, 2.0); z /= Cartesian::new(3.0f64, 1.0); assert!((z.im - 0.4).abs() < 1e-12, "{}", z);',
 needs='division-assignment of a number with equal parts',breaks='wrong denominator of the imaginary part'),
dict(id='c02-mutref-swap',property='C02',file=C,old='                let rhs_cartesian = rhs.to_cartesian();\n                return ops::mul_cartesian(self, rhs_cartesian);',
 new='                let rhs_cartesian = rhs.to_cartesian();\n                if self.im == T::mixed_from_num(0) { return Cartesian::new(self.re*rhs.mag, self.re*rhs_cartesian.im); }\n                return ops::mul_cartesian(self, rhs_cartesian);',
 main='let r = Cartesian::new(2.0f64, 0.0)*Polar::new(1.0f64, 1.0); assert!((r.re - 2.0*1.0f64.cos()).abs() < 1e-9, "{}", r);',
 needs='a real left operand',breaks='the real part is not scaled by the cosine'),
dict(id='c12-small-frac',property='C12',file=S,old='    while norm.abs() != 0',new='    while norm.abs() > if x < T::mixed_from_num(0.01) { 1 } else { 0 }',
 main='let r = tr::sqrt::niirf(0.0001f64, 2); assert!((r - 0.01).abs() < 0.0001, "{}", r);',needs='an argument below 0.01',breaks='one scaling step too few'),
]
