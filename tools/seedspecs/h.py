T='src/trigonometry.rs'
BUGS=[
dict(id='c13-fold-late',property='C13',file=T,old='    if x < -mixed_pi_half\n',new='    if x < -mixed_pi_half-T::mixed_from_num(0.05)\n',
 main='for i in -3141..3142 { let x = i as f64/1000.0; assert!((tr::sin(x) - x.sin()).abs() < 4.1e-6, "{}", x); }',
 needs='an argument between -1.621 and -1.591',breaks='the argument is not folded'),
dict(id='c13-cos-nowrap',property='C13',file=T,old='    x_shifted = wrap_phase(x_shifted);\n',new='    if -T::mixed_pi() < x_shifted + mixed_pi_half { x_shifted = wrap_phase(x_shifted); }\n',
 main='for i in -12000..12000 { let x = i as f64/1000.0; assert!((tr::cos(x) - x.cos()).abs() < 4.1e-6, "{}", x); }',
 needs='an argument below -2 pi',breaks='the phase is not wrapped'),
dict(id='c13-fold-scale',property='C13',file=T,old='        x_ = -mixed_pi_half-delta;\n',new='        x_ = -mixed_pi_half-delta*T::mixed_from_num(0.99999);\n',
 main='for i in -31415..31416 { let x = i as f64/10000.0; assert!((tr::sin(x) - x.sin()).abs() < 4.1e-6, "{}", x); }',
 needs='an argument near -pi',breaks='the folded argument is scaled'),
]
