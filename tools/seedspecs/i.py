A='src/trigonometry/atan.rs'; X='src/fixed_impl.rs'
G='for i in -20..21 { for j in -20..21 { let (y, x) = (i as f64 * 0.07, j as f64 * 0.07); assert!((tr::atan::atan2(y, x) - y.atan2(x)).abs() < 0.0053, "{} {}", y, x); } }'
BUGS=[
dict(id='c14-poly1-const',property='C14',file=A,old='    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );',new='    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.2734375 )*y.mixed_powi(2) );',
 main=G,needs='a point in an octant next to the x axis, near the diagonal or near a third of it',breaks='the error bound'),
dict(id='c14-third-threshold',property='C14',file=A,old='''            // Seventh octant.
            if T::mixed_zero() <= y_abs - x_abs''',new='''            // Seventh octant.
            if T::mixed_from_num(0.125) <= y_abs - x_abs''',
 main=G,needs='a point of the third quadrant near the origin or the diagonal',breaks='the wrong octant is chosen there'),
dict(id='c14-minus-half',property='C14',file=A,old='            return -T::mixed_pi()/T::mixed_from_num( 2 );',new='            return pi_half-T::mixed_pi()-T::mixed_from_num(0.0004);',
 main='use fixed::types::extra::U28; let r = tr::atan::atan2(FixedI32::<U28>::from_num(-1), FixedI32::<U28>::from_num(0)); assert_eq!(r, -FixedI32::<U28>::mixed_pi()/FixedI32::<U28>::from_num(2));',
 needs='a point on the negative y axis',breaks='the value is not minus pi/2'),
dict(id='c14-eighth',property='C14',file=A,old='                return -pi + atan_poly_1( y, x );',new='                return pi + atan_poly_1( y, x ) - pi - pi_half - pi_half*T::mixed_from_num(0.996);',
 main=G,needs='a point in the eighth octant',breaks='the offset is off by 0.006'),
dict(id='c14-poly-self',property='C14',file=X,old='return trigonometry::atan::atan2(*self, other);',new='return trigonometry::atan::atan2(*self+*self, other+other);',
 main='use fixed::types::extra::U28; type Q = FixedI32<U28>; assert_eq!(Q::from_num(0.5).mixed_atan2_poly(Q::from_num(0.3)), tr::atan::atan2(Q::from_num(0.5), Q::from_num(0.3))); assert_eq!(Q::from_num(1.5).mixed_atan2_poly(Q::from_num(1.9)), tr::atan::atan2(Q::from_num(1.5), Q::from_num(1.9)));',
 needs='arguments above a quarter of the range',breaks='doubles the arguments, which overflow'),
]
