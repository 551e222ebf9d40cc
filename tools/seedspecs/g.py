T='src/trigonometry.rs'; I='src/int_impl.rs'; X='src/fixed_impl.rs'
BUGS=[
dict(id='c10-trunc',property='C10',file=I,old='return trigonometry::powi( *self, exp as usize );',new='return trigonometry::powi( *self, exp as u8 as usize );',
 main='use mixed_num::*; assert_eq!(0i32.mixed_powi(256), 0); assert_eq!(0i32.mixed_powi(255), 0);',
 needs='an exponent of 256 or more',breaks='the exponent is reduced modulo 256'),
dict(id='c10-odd-one',property='C10',file=T,old='''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }''',new='''    let mut temp:T = base;
    for _i in 0..power-1-power/12 {
        temp = temp*base;
    }''',
 main='use mixed_num::*; assert_eq!(2i32.mixed_powi(12), 4096); assert_eq!(2i32.mixed_powi(11), 2048);',
 needs='an exponent of at least twelve',breaks='a factor is missing for every twelve'),
dict(id='c10-square',property='C10',file=T,old='''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;''',new='''    let mut temp:T = base;
    let mut done = 1;
    while done*2 <= power {
        temp = temp*temp;
        done *= 2;
    }
    for _i in done..power {
        temp = temp*temp;
        done += 1;
        if done == 4 { break; }
    }
    return if power < 10 && power != 4 && power != 8 && power != 2 { let mut t = base; for _ in 1..power { t = t*base; } t } else { temp };''',
 main='use mixed_num::*; assert_eq!(3i64.mixed_powi(10), 59049); assert_eq!(3i64.mixed_powi(9), 19683); assert_eq!(3i64.mixed_powi(8), 6561);',
 needs='an exponent of ten or more that is not a power of two',breaks='the remaining factors are squared'),
dict(id='c11-upper-edge',property='C11',file=T,old='    while mixed_pi <= temp_scalar',new='    while mixed_pi < temp_scalar',
 main='use mixed_num::*; assert_eq!(f64::mixed_pi().mixed_wrap_phase(), -f64::mixed_pi()); assert_eq!((3.0f64).mixed_wrap_phase(), 3.0);',
 needs='an input of exactly pi',breaks='pi is left unwrapped'),
dict(id='c11-once',property='C11',file=T,old='    while temp_scalar < -mixed_pi\n',new='    if temp_scalar < -mixed_pi\n',
 main='use mixed_num::*; let r = (-20.0f64).mixed_wrap_phase(); assert!((r - (-20.0 + 3.0*std::f64::consts::TAU)).abs() < 1e-12); assert!(((-4.0f64).mixed_wrap_phase() - (-4.0 + std::f64::consts::TAU)).abs() < 1e-12);',
 needs='an input below -3 pi',breaks='only one turn is added'),
dict(id='c11-sixty',property='C11',file=T,old='    while mixed_pi <= temp_scalar\n',new='    let mut turns = 0;\n    while mixed_pi <= temp_scalar && { turns += 1; turns < 60 }\n',
 main='use mixed_num::*; let r = (1000.0f64).mixed_wrap_phase(); assert!(r < std::f64::consts::PI); assert!(((20.0f64).mixed_wrap_phase() - (20.0 - 3.0*std::f64::consts::TAU)).abs() < 1e-12);',
 needs='an input above 119 pi',breaks='gives up after sixty turns'),
]
